package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"regexp"
	"sort"
	"strings"
	"testing"

	benchtests "github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// creators are those of the tree that rest on its own handlers, and slog's.
var creators = []infra.Creator{madkinsflash.Creator(), madkinsreplattr.Creator(), madkinssloggy.Creator(), slogjson.Creator()}

// ear keeps the errors that the suite logs.
type ear struct{ errs *[]string }

func (e ear) Enabled(context.Context, slog.Level) bool { return true }
func (e ear) WithAttrs([]slog.Attr) slog.Handler       { return e }
func (e ear) WithGroup(string) slog.Handler            { return e }
func (e ear) Handle(_ context.Context, r slog.Record) error {
	line := r.Message
	r.Attrs(func(a slog.Attr) bool { line += " " + a.String(); return true })
	*e.errs = append(*e.errs, line)
	return nil
}

// bare writes one and the same line for every record, without a lock.
type bare struct {
	w     io.Writer
	level slog.Leveler
}

func (b bare) Enabled(_ context.Context, l slog.Level) bool { return l >= b.level.Level() }
func (b bare) WithAttrs([]slog.Attr) slog.Handler           { return b }
func (b bare) WithGroup(string) slog.Handler                { return b }
func (b bare) Handle(context.Context, slog.Record) error {
	_, err := b.w.Write([]byte("{\"level\":\"INFO\",\"msg\":\"m\"}\n"))
	return err
}

type benchVerdict struct {
	code     int
	warned   map[string][]string // functions or tests by warning
	errs     []string
	name     string
	sessions []*session
	text     string
	data     *data.Benchmarks
}

func benchRun(flaws map[string]bool, l look, loggerOnly bool, runs int, marks ...string) *benchVerdict {
	suiteNumber++
	name := fmt.Sprintf("lab/%d", suiteNumber%50)
	v := &benchVerdict{warned: map[string][]string{}, name: name}
	handlerFn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		h := newLab(w, o, flaws, l)
		v.sessions = append(v.sessions, h.log)
		return h
	}
	loggerFn := func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(handlerFn(w, o)) }
	hf := infra.CreateHandlerFn(handlerFn)
	if loggerOnly {
		hf = nil
	}
	v.run(infra.NewCreator(name, hf, loggerFn, "", nil), runs, marks...)
	return v
}

// run runs the suite for a creator.
func (v *benchVerdict) run(creator infra.Creator, runs int, marks ...string) {
	s := benchtests.NewSlogBenchmarkSuite(creator)
	for _, m := range marks {
		s.WarnOnly(warning.ByName(m))
	}
	old := slog.Default()
	slog.SetDefault(slog.New(ear{&v.errs}))
	v.code, v.text = inBenchmark("BenchmarkLab", runs, func(b *testing.B) { BenchmarkLab(b, s) })
	slog.SetDefault(old)
	for _, w := range s.GetWarnings() {
		for _, i := range w.Data {
			v.warned[w.Name] = append(v.warned[w.Name], i.Function+"|"+i.Text)
		}
		sort.Strings(v.warned[w.Name])
	}
	v.data = data.NewBenchmarks()
	if err := v.data.ParseBenchmarkData(bytes.NewReader([]byte(v.text))); err != nil {
		v.errs = append(v.errs, err.Error())
	}
}

// BenchmarkLab has the name that the suite looks for on the stack.
func BenchmarkLab(b *testing.B, s *benchtests.SlogBenchmarkSuite) { benchtests.Run(b, s) }

// benchmarks lists the names of the benchmarks and those that need a handler.
var (
	benchNames   = strings.Fields("Attributes BigGroup Disabled KeyValues Logging Simple SimpleSource WithAttrsAttributes WithAttrsKeyValues WithAttrsSimple WithGroupAttributes WithGroupKeyValues")
	needsHandler = map[string]bool{"WithAttrsAttributes": true, "WithAttrsKeyValues": true, "WithAttrsSimple": true, "WithGroupAttributes": true, "WithGroupKeyValues": true}
)

const (
	allBasic = "Attributes KeyValues Logging Simple SimpleSource WithAttrsAttributes WithAttrsKeyValues WithAttrsSimple WithGroupAttributes WithGroupKeyValues"
	allBut   = "Attributes KeyValues Simple SimpleSource WithAttrsAttributes WithAttrsKeyValues WithAttrsSimple WithGroupAttributes WithGroupKeyValues"
	allWith  = "Attributes KeyValues WithAttrsAttributes WithAttrsKeyValues WithAttrsSimple WithGroupAttributes WithGroupKeyValues"
)

// benchFlaws tells which benchmarks must notice a flaw.
var benchFlaws = []struct{ flaws, seen string }{
	{"always-enabled", "Disabled"},
	{"caller", "SimpleSource"}, {"no-source", "SimpleSource"}, {"source-null", "SimpleSource"}, {"source-text", "SimpleSource"}, {"source-no-function", "SimpleSource"},
	{"with-group-top", "WithGroupAttributes WithGroupKeyValues"}, {"with-group-parent", "WithGroupAttributes WithGroupKeyValues"},
	{"level-number", allBut}, {"no-level", allBasic}, {"no-message", allBasic},
	{"with-lost", "WithAttrsAttributes WithAttrsKeyValues WithAttrsSimple"},
	{"broken-json", allBasic}, {"group-lost", allWith + " BigGroup"},
	{"strings-cut", allBut}, {"bool-number", allWith}, {"int-string", allWith}, {"int-unsigned", allWith}, {"float-short", allWith},
	{"duplicates", "WithAttrsAttributes WithAttrsKeyValues"}, {"any-string", allWith},
	// nothing that a benchmark looks at
	{"level-lower", ""}, {"level-title", ""}, {"message-key", ""}, {"time-millis", ""}, {"time-seconds", ""}, {"duration-millis", ""}, {"duration-string", ""},
	{"no-replattr", ""}, {"zero-pc", ""}, {"zero-time", ""}, {"group-inline", ""}, {"canceled-error", ""}, {"default-warn", ""}, {"empty-attr", ""}, {"no-resolve", ""},
}

// noticed returns the benchmarks that complain.
func (v *benchVerdict) noticed() map[string]bool {
	out := map[string]bool{}
	name := func(text string) {
		text, _, _ = strings.Cut(text, ":")
		for _, n := range benchNames {
			if n == text {
				out[n] = true
			}
		}
	}
	for w, list := range v.warned {
		if w != warning.NoHandlerCreation.Name && w != warning.Unused.Name {
			for _, line := range list {
				function, text, _ := strings.Cut(line, "|")
				name(function)
				name(text)
			}
		}
	}
	for _, line := range v.errs {
		for _, m := range ptnMismatch.FindAllStringSubmatch(line, -1) {
			name(m[1])
		}
	}
	return out
}

var ptnMismatch = regexp.MustCompile(`mismatch (\w+):`)

func benchmarking(c *kit.Ctx) {
	c.Rule("The benchmark suite is run, through package testing, on handlers whose behaviour is known and that count what they are asked to write. " +
		"Expected for a handler without fault: no complaint, one result per benchmark with the number of runs asked for, as many records handled as runs (plus the trial runs), the result lines read back by the parser with the handler's name. " +
		"For a faulty handler: a complaint by just the benchmarks that look at what is wrong; records lost or doubled: that benchmark fails and has no result. One case is one run of the whole suite.")
	c.Assume("The suites themselves (verify/tests, bench/tests) are taken as they are in the tree; package testing runs them.")
	n := c.N(240, 6000)
	for i := 0; i < n; i++ {
		r := c.Rng("bench", i)
		l := newLook(r)
		l.newline = "\n"
		loggerOnly := r.IntN(4) == 0
		runs := 2 + r.IntN(40)
		fl, want, marks := "", "", ""
		switch i % 4 {
		case 0:
		case 1, 2:
			f := benchFlaws[(i/4*2+i%4-1)%len(benchFlaws)]
			fl, want = f.flaws, f.seen
			if fl == "any-string" && r.IntN(2) == 0 {
				marks = "StringAny"
			}
		case 3:
			fl = []string{"write-lost", "write-twice"}[r.IntN(2)]
			runs += 10
		}
		v := benchRun(set(fl), l, loggerOnly, runs, strings.Fields(marks)...)
		c.Eval(fmt.Sprintf("%s %v %s", fl, loggerOnly, l))
		c.Count("suite-runs", 1)
		detail := map[string]any{"case": i, "flaws": fl, "marks": marks, "look": l.String(), "logger only": loggerOnly, "runs": runs, "exit code": v.code, "warnings": v.warned, "errors": v.errs, "output": v.text}
		bad := func(format string, a ...any) { c.Violate(fmt.Sprintf(format, a...), detail) }
		lossy := strings.HasPrefix(fl, "write-")
		if (v.code == 0) == lossy {
			bad("exit code %d", v.code)
		}
		// Which benchmarks complain.
		if !lossy {
			expect := set(want)
			for n := range expect {
				if loggerOnly && needsHandler[n] {
					delete(expect, n)
				}
			}
			got := v.noticed()
			for _, n := range benchNames {
				if marks == "" && expect[n] && !got[n] {
					c.Finding(fmt.Sprintf("%s not noticed by %s", fl, n), fmt.Sprintf("flaw %q is not noticed by %s", fl, n), detail)
				}
				if !expect[n] && got[n] {
					bad("flaw %q is noticed by %s", fl, n)
				}
			}
			if marks == "StringAny" {
				if len(v.errs) > 0 || len(v.warned["StringAny"]) == 0 {
					bad("flaw any-string is marked but not reported as just that")
				}
				c.Count("marked", 1)
			} else if want == "" && len(v.errs) > 0 {
				bad("errors are logged: %s", v.errs[0])
			}
			for _, e := range v.errs {
				if strings.Contains(e, "%!") {
					c.Finding("badly formatted error of finder", "an error is badly formatted: "+e, detail)
				}
			}
			c.Count("complaints", len(got))
		}
		// Benchmarks that need a handler.
		skipped := map[string]bool{}
		for _, f := range v.warned[warning.NoHandlerCreation.Name] {
			skipped[strings.TrimSuffix(strings.TrimPrefix(f, "Benchmark"), "|")] = true
		}
		for _, n := range benchNames {
			if skipped[n] != (loggerOnly && needsHandler[n]) {
				bad("NoHandlerCreation for %s: %v", n, skipped[n])
			}
		}
		c.Count("skipped", len(skipped))
		// Results and what the handlers did.
		results := v.data.TestRecordsFor("Lab")
		at := 1
		if len(v.sessions) == 0 || v.sessions[0].lines != 0 {
			bad("the handler for the standard output was not made first or used")
		}
		for _, n := range benchNames {
			rec, found := results[data.TestTag("Bench"+data.TagSeparator+n)]
			if skipped[n] {
				if found {
					bad("a result for %s, which was skipped", n)
				}
				continue
			}
			if at+3 > len(v.sessions) {
				bad("%d handlers made, more wanted for %s", len(v.sessions), n)
				break
			}
			trial, first, main := v.sessions[at], v.sessions[at+1], v.sessions[at+2]
			at += 3
			per := trial.lines
			if n == "Disabled" && fl != "always-enabled" && per != 0 || n != "Disabled" && n != "Logging" && per != 1 || n == "Logging" && per < 2 {
				bad("%s: %d records in the trial run", n, per)
			}
			if trial.writer != "*bytes.Buffer" || first.lines != per || main.lines != per*runs {
				bad("%s: %d, %d and %d records handled for %d runs", n, trial.lines, first.lines, main.lines, runs)
			}
			c.Count("records-handled", trial.lines+first.lines+main.lines)
			if lossy && n != "Disabled" && n != "Logging" {
				if found {
					bad("%s: a result although records were lost or doubled", n)
				}
				c.Count("losses-noticed", 1)
				continue
			}
			if !found || rec.Runs != uint64(runs) || rec.NanosPerOp <= 0 {
				bad("%s: result %+v for %d runs", n, rec, runs)
				continue
			}
			// The throughput belongs to the length of the trial's output.
			if size := rec.MbPerSec * rec.NanosPerOp / 1000; !lossy && per > 0 && rec.MbPerSec > 0.5 && (size < 0.95*float64(trial.bytes) || size > 1.05*float64(trial.bytes)) || per == 0 && rec.MbPerSec != 0 {
				bad("%s: %.1f MB/s at %.1f ns for %d bytes", n, rec.MbPerSec, rec.NanosPerOp, trial.bytes)
			}
			c.Count("results", 1)
		}
		if at != len(v.sessions) {
			bad("%d handlers made, %d wanted", len(v.sessions), at)
		}
		if got := v.data.HandlerName("Lab"); got != v.name {
			bad("the output names the handler %q", got)
		}
	}
	n = c.N(12, 400)
	for i := 0; i < n; i++ {
		r := c.Rng("real", i)
		cr := creators[i%len(creators)]
		runs := 2 + r.IntN(300)
		v := &benchVerdict{warned: map[string][]string{}}
		v.run(cr, runs)
		c.Eval("real " + cr.Name())
		detail := map[string]any{"case": i, "creator": cr.Name(), "runs": runs, "exit code": v.code, "warnings": v.warned, "errors": v.errs, "output": v.text}
		if v.code != 0 {
			c.Violate(fmt.Sprintf("the benchmarks of %s fail", cr.Name()), detail)
		}
		if got := v.noticed(); len(got) > 0 {
			c.Violate(fmt.Sprintf("complaints about %s: %v", cr.Name(), got), detail)
		}
		results := v.data.TestRecordsFor("Lab")
		for _, n := range benchNames {
			if rec, found := results[data.TestTag("Bench"+data.TagSeparator+n)]; !found || rec.Runs != uint64(runs) {
				c.Violate(fmt.Sprintf("%s of %s: result %+v for %d runs", n, cr.Name(), rec, runs), detail)
			}
			c.Count("real-results", 1)
		}
	}
	// A handler that does without a lock writes lines at the same time.
	m := c.N(3, 40)
	for i := 0; i < m; i++ {
		r := c.Rng("unlocked", i)
		runs := 20000 + r.IntN(30000)
		v := &benchVerdict{warned: map[string][]string{}}
		handlerFn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
			b := bare{w, slog.LevelInfo}
			if o != nil && o.Level != nil {
				b.level = o.Level
			}
			return b
		}
		v.run(infra.NewCreator("bare", handlerFn, func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(handlerFn(w, o)) }, "", nil), runs)
		c.Eval(fmt.Sprintf("unlocked %d", runs))
		detail := map[string]any{"case": i, "runs": runs, "exit code": v.code, "output": v.text}
		if v.code != 0 {
			c.Violate("the benchmarks of a handler without a lock fail although no line was lost", detail)
		}
		results := v.data.TestRecordsFor("Lab")
		for _, n := range benchNames {
			if rec, found := results[data.TestTag("Bench"+data.TagSeparator+n)]; !found || rec.Runs != uint64(runs) {
				c.Violate(fmt.Sprintf("%s of a handler without a lock: result %+v for %d runs", n, rec, runs), detail)
			}
			c.Count("unlocked-results", 1)
		}
	}
	c.Need("unlocked-results", m*12)
	c.Need("real-results", n*12)
	c.Need("results", n*3)
	c.Need("losses-noticed", n/4*5)
	c.Need("complaints", n/4)
	c.Need("skipped", 5)
}
