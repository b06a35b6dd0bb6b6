package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"
)

// quiet makes the standard output go to the file while fn runs.
func quiet(to *os.File, fn func()) {
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout = to
	defer func() { os.Stdout, os.Stderr = stdout, stderr }()
	fn()
}

func testFlags() {
	testing.Init()
	for _, a := range os.Args[1:] {
		if strings.HasPrefix(a, "-test.") {
			_ = flag.CommandLine.Parse(os.Args[1:])
		}
	}
}

// inTest runs fn as a test of package testing, with standard output going nowhere.
func inTest(fn func(t *testing.T)) {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	testFlags()
	quiet(null, func() {
		testing.MainStart(deps{}, []testing.InternalTest{{Name: "TestSuites", F: fn}}, nil, nil, nil).Run()
	})
}

// inBenchmark runs fn as a benchmark of package testing and returns the exit code and what was printed.
func inBenchmark(name string, runs int, fn func(b *testing.B)) (int, string) {
	f, err := os.CreateTemp("", "bench")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	defer os.Remove(f.Name())
	testFlags()
	_ = flag.Set("test.bench", ".")
	_ = flag.Set("test.benchtime", fmt.Sprintf("%dx", runs))
	_ = flag.Set("test.benchmem", "true")
	code := 0
	quiet(f, func() {
		code = testing.MainStart(deps{}, nil, []testing.InternalBenchmark{{Name: name, F: fn}}, nil, nil).Run()
	})
	raw, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	return code, string(raw)
}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

// deps stands in for testing/internal/testdeps.
type deps struct{}

var errNone = errors.New("not available")

func (deps) ImportPath() string                          { return "suites" }
func (deps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (deps) SetPanicOnExit0(bool)                        {}
func (deps) StartCPUProfile(io.Writer) error             { return nil }
func (deps) StopCPUProfile()                             {}
func (deps) StartTestLog(io.Writer)                      {}
func (deps) StopTestLog() error                          { return nil }
func (deps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (deps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return errNone
}
func (deps) RunFuzzWorker(func(corpusEntry) error) error              { return errNone }
func (deps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (deps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (deps) ResetCoverage()                                           {}
func (deps) SnapshotCoverage()                                        {}
func (deps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}
