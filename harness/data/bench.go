package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// choppy delivers its text in pieces of odd sizes and may fail in the end.
type choppy struct {
	text string
	r    *rand.Rand
	err  error
}

func (c *choppy) Read(p []byte) (int, error) {
	if len(c.text) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := min(len(p), len(c.text), 1+c.r.IntN(3000))
	copy(p, c.text[:n])
	c.text = c.text[n:]
	return n, nil
}

var words = []string{"Big", "Group", "Simple", "Source", "With", "Attrs", "Key", "Values", "Logging", "Slog", "Json", "Zap", "Flash", "Zero", "Meld", "Disabled"}

// camel makes a name the way Go functions are named; parts is its expected display name.
func camel(r *rand.Rand) (name, display string) {
	n := 1 + r.IntN(4)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = words[r.IntN(len(words))]
	}
	return strings.Join(parts, ""), strings.Join(parts, " ")
}

// benchDoc is an output of go test -bench with what it says.
type benchDoc struct {
	text     string
	rows     map[string]map[string]data.TestRecord // handler -> test -> record
	names    map[string]string                     // handler -> configured name
	shared   int                                   // names that lead to another handler, counted by judge
	shown    map[string]string                     // tag -> display name
	warnings []string
	lines    int
}

func benchName(r *rand.Rand, handler, test string, cpus int) string {
	name := "Benchmark" + handler + "/Benchmark" + test
	if cpus != 1 {
		name += "-" + strconv.Itoa(cpus)
	}
	return fmt.Sprintf("%-*s", r.IntN(70), name)
}

func genResult(r *rand.Rand) (string, bool) {
	n := 1 + r.IntN(10)
	for range r.IntN(9) {
		n *= 1 + r.IntN(12)
	}
	res := testing.BenchmarkResult{N: n, T: time.Duration(1 + r.Int64N(1<<uint(10+r.IntN(30))))}
	if r.IntN(6) == 0 {
		res.T = time.Duration(1+r.IntN(40)) * time.Duration(n)
	}
	if r.IntN(4) > 0 {
		res.Bytes = int64(r.IntN(1 << uint(1+r.IntN(20))))
	}
	res.MemAllocs = uint64(n) * uint64(r.IntN(300))
	res.MemBytes = uint64(n) * uint64(r.IntN(1<<uint(1+r.IntN(20))))
	if r.IntN(12) == 0 {
		// Whatever fits into the counters of the testing package.
		res.MemAllocs, res.MemBytes = r.Uint64()>>r.IntN(64)>>1, r.Uint64()>>r.IntN(64)>>1
	}
	if r.IntN(5) == 0 {
		res.Extra = map[string]float64{}
		for range 1 + r.IntN(3) {
			unit := []string{"widgets/op", "p99-ns", "req/s", "alpha", "zeta/op", "kB/op", "Xallocs"}[r.IntN(7)]
			res.Extra[unit] = math.Abs(r.NormFloat64()) * math.Pow(10, float64(r.IntN(9)-3))
		}
		if r.IntN(4) == 0 {
			res.Extra["ns/op"] = 1 + 1000*r.Float64()
		}
		if r.IntN(4) == 0 {
			res.Extra["MB/s"] = 1 + 1000*r.Float64()
		}
	}
	if r.IntN(40) == 0 { // next to nothing: 0.0000000 ns/op
		res = testing.BenchmarkResult{N: 1e9, T: time.Duration(1 + r.IntN(40))}
	}
	s := res.String()
	if !strings.Contains(s, "ns/op") {
		return "", false
	}
	if r.IntN(6) > 0 {
		s += "\t" + res.MemString()
	}
	return s, true
}

// readRow takes a result line apart by its documented form: name, count, then pairs of value and unit.
func readRow(line string) (data.TestRecord, bool) {
	f := strings.Fields(line)
	var rec data.TestRecord
	if len(f) < 4 {
		return rec, false
	}
	rec.Runs, _ = strconv.ParseUint(f[1], 10, 64)
	found := false
	for i := 2; i+1 < len(f); i += 2 {
		switch f[i+1] {
		case "ns/op":
			rec.NanosPerOp, _ = strconv.ParseFloat(f[i], 64)
			found = true
		case "MB/s":
			rec.MbPerSec, _ = strconv.ParseFloat(f[i], 64)
		case "B/op":
			rec.MemBytesPerOp, _ = strconv.ParseUint(f[i], 10, 64)
		case "allocs/op":
			rec.MemAllocsPerOp, _ = strconv.ParseUint(f[i], 10, 64)
		}
	}
	rec.GbPerSec, rec.TbPerSec = rec.MbPerSec/1e3, rec.MbPerSec/1e6
	return rec, found
}

func (d *benchDoc) row(handler, test, line string) bool {
	rec, ok := readRow(line)
	if !ok {
		return false
	}
	if d.rows[handler] == nil {
		d.rows[handler] = map[string]data.TestRecord{}
	}
	d.rows[handler][test] = rec
	d.lines++
	return true
}

var benchNoise = []string{
	"goos: linux", "goarch: amd64", "pkg: github.com/madkins23/go-slog/bench", "cpu: AMD EPYC 7763 64-Core Processor                ",
	"PASS", "ok  \tcommand-line-arguments\t270.067s", "", "   ", "FAIL", "--- BENCH: BenchmarkSlogJSON", "BenchmarkSlogJSON", "BenchmarkSlogJSON/BenchmarkSimple",
	`2025/02/16 01:36:56 WARN Verification Error err="Implied [SourceCaller] 12 ns/op BenchmarkX/BenchmarkY-4 100 12 ns/op"`,
	"    suite.go:12: Mismatch in log write count. Expected: 1, Actual: 2", "Handler[X]=\"y\"", `{"time":"2024-01-01","msg":"BenchmarkA/BenchmarkB-8 100 5 ns/op"}`,
	"BenchmarkAlone-8   \t 100\t 5 ns/op", "x BenchmarkA/BenchmarkB-8 100 5 ns/op", "\xff\xfe\x00", "#", "#x",
	"Warnings for x:", "  None",
}

var warnTexts = []string{
	"Warnings for slog/JSONHandler:", "  None", "  Implied", "     1 [SourceKey] Source data not logged", "         SimpleSource: no 'source' key",
	`           {"time":"x","msg":"BenchmarkA/BenchmarkB-8 100 5 ns/op"}`, "", "BenchmarkA/BenchmarkB-8   100   5 ns/op", "# x", "Handlers by warning:", "é \t x", "Handler[a b", "Handler[x]", "[x]=\"y\"",
}

// longLine is a length beyond common limits for lines.
func longLine(r *rand.Rand) int {
	n := 1<<16 + r.IntN(1<<17)
	if r.IntN(50) == 0 {
		n = 1<<(19+r.IntN(4)) + r.IntN(1000)
	}
	return n
}

func genBench(r *rand.Rand) *benchDoc {
	d := &benchDoc{rows: map[string]map[string]data.TestRecord{}, names: map[string]string{}, shown: map[string]string{}}
	eol := "\n"
	if r.IntN(8) == 0 {
		eol = "\r\n"
	}
	var b strings.Builder
	put := func(s string) { b.WriteString(s + eol) }
	var tests []string
	most, handlers, results := 8, 0, 10
	for handlers < r.IntN(6) {
		handlers++
	}
	if r.IntN(40) == 0 {
		most, handlers, results = 60, 6+r.IntN(40), 80
	}
	for range 1 + r.IntN(most) {
		t, show := camel(r)
		if r.IntN(6) == 0 {
			t, show = []string{"A", "simple", "X2", "Über", "_x", "JSON", "Simple#01", "Half%sFull", "Load%d", `a\tb`, "{{.}}", "A/B=1"}[r.IntN(12)], ""
		}
		tests = append(tests, t)
		if show != "" {
			d.shown["Bench."+t] = show
		}
	}
	cpus := []int{1, 2, 4, 8, 16, 128, 512}[r.IntN(7)]
	for h := range handlers {
		handler, show := camel(r)
		if r.IntN(8) == 0 {
			handler, show = []string{"X", "slog", "H-1", "Zap_2", "Épée"}[r.IntN(5)], ""
		}
		if show != "" {
			d.shown[handler] = show
		}
		def := ""
		if r.IntN(4) > 0 {
			name := fmt.Sprintf("%s/%s%d", []string{"slog", "a", "my own", "q\"x", "é", "a/b/c", "[x]"}[r.IntN(7)], []string{"json", "H", "x y"}[r.IntN(3)], h)
			if prev := slices.Sorted(maps.Values(d.names)); len(prev) > 0 && r.IntN(8) == 0 {
				name = prev[r.IntN(len(prev))] // several benchmarks of the same handler
			}
			def = fmt.Sprintf("# Handler[%s]=\"%s\"", handler, name)
			d.names[handler] = name
		}
		late := r.IntN(5) == 0
		if def != "" && !late {
			put(def)
		}
		for k := 0; k < r.IntN(results); k++ {
			test := tests[r.IntN(len(tests))]
			if s, ok := genResult(r); ok {
				line := benchName(r, handler, test, cpus) + "\t" + s
				if d.row(handler, test, line) {
					put(line)
				}
			}
			if r.IntN(5) == 0 {
				put(benchNoise[r.IntN(len(benchNoise))])
			}
			if r.IntN(12) == 0 {
				w := warnTexts[r.IntN(len(warnTexts))]
				put("# " + w)
				d.warnings = append(d.warnings, w)
			}
			if r.IntN(200) == 0 {
				put(strings.Repeat("x", longLine(r)))
			}
		}
		if def != "" && late {
			put(def)
		}
	}
	for range r.IntN(12) {
		w := warnTexts[r.IntN(len(warnTexts))]
		if r.IntN(40) == 0 {
			w = "           {\"x\":\"" + strings.Repeat("y", longLine(r)) + "\"}"
		}
		put("# " + w)
		d.warnings = append(d.warnings, w)
	}
	if r.IntN(2) == 0 {
		put("PASS")
	}
	d.text = b.String()
	if r.IntN(4) == 0 {
		d.text = strings.TrimSuffix(d.text, eol)
	}
	return d
}

func close12(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-12*math.Abs(b) }

func sameRecord(got, want data.TestRecord) bool {
	return got.Runs == want.Runs && got.NanosPerOp == want.NanosPerOp && got.MemBytesPerOp == want.MemBytesPerOp &&
		got.MemAllocsPerOp == want.MemAllocsPerOp && got.MbPerSec == want.MbPerSec &&
		close12(got.GbPerSec, want.GbPerSec) && close12(got.TbPerSec, want.TbPerSec)
}

// judge compares everything the parsed data says with the document.
func (d *benchDoc) judge(b *data.Benchmarks) (why string) {
	bad := func(f string, args ...any) {
		if why == "" {
			why = fmt.Sprintf(f, args...)
		}
	}
	tests := map[string]bool{}
	for h, rows := range d.rows {
		ht := data.HandlerTag(h)
		if !b.HasHandler(ht) {
			bad("handler %q is missing", h)
		}
		byTest := b.TestRecordsFor(ht)
		if len(byTest) != len(rows) {
			bad("handler %q has %d tests instead of %d", h, len(byTest), len(rows))
		}
		for t, want := range rows {
			tt := data.TestTag("Bench." + t)
			tests[string(tt)] = true
			if !b.HasTest(tt) {
				bad("test %q is missing", tt)
			}
			got, ok := byTest[tt]
			if !ok || !sameRecord(got, want) {
				bad("by handler %q, test %q is %+v instead of %+v", h, tt, got, want)
			}
			got, ok = b.HandlerRecordsFor(tt)[ht]
			if !ok || !sameRecord(got, want) {
				bad("by test %q, handler %q is %+v instead of %+v", tt, h, got, want)
			}
			if got.IsEmpty() != (want.Runs == 0) {
				bad("IsEmpty is wrong for %+v", want)
			}
			for item, v := range map[data.BenchItems]float64{data.Runs: float64(want.Runs), data.Nanos: want.NanosPerOp, data.MemAllocs: float64(want.MemAllocsPerOp),
				data.MemBytes: float64(want.MemBytesPerOp), data.MbPerSec: want.MbPerSec, data.GbPerSec: want.GbPerSec, data.TbPerSec: want.TbPerSec} {
				if !close12(got.ItemValue(item), v) {
					bad("item %v of %+v is %v", item, want, got.ItemValue(item))
				}
			}
		}
	}
	for tt := range tests {
		n := 0
		for _, rows := range d.rows {
			if _, ok := rows[strings.TrimPrefix(tt, "Bench.")]; ok {
				n++
			}
		}
		if got := len(b.HandlerRecordsFor(data.TestTag(tt))); got != n {
			bad("test %q has %d handlers instead of %d", tt, got, n)
		}
		if show, ok := d.shown[tt]; ok && b.TestName(data.TestTag(tt)) != show {
			bad("test %q is named %q instead of %q", tt, b.TestName(data.TestTag(tt)), show)
		}
	}
	if x, y := b.TestName("Bench.NoSuchTest"), b.HandlerName("NoSuchHandler"); x != "Bench.NoSuchTest" || y != "NoSuchHandler" {
		bad("a test and a handler that do not exist are named %q and %q", x, y)
	}
	ht := b.HandlerTags()
	if len(ht) != len(d.rows) {
		bad("%d handlers %q instead of %d", len(ht), ht, len(d.rows))
	}
	if !slices.IsSortedFunc(ht, func(x, y data.HandlerTag) int { return strings.Compare(b.HandlerName(x), b.HandlerName(y)) }) {
		bad("handlers are not in order: %q", ht)
	}
	seenH := map[data.HandlerTag]bool{}
	leads := map[string]string{} // a name of several handlers leads to the first of them
	for h, name := range d.names {
		if first, ok := leads[name]; !ok || h < first {
			leads[name] = h
		}
	}
	for h, name := range d.names {
		// Also of handlers that have no result.
		if leads[name] != h {
			d.shared++
		}
		if b.HandlerLookup()[name] != data.HandlerTag(leads[name]) || b.HandlerName(data.HandlerTag(h)) != name {
			bad("handler %q and name %q do not belong together: %q, %q", h, name, b.HandlerName(data.HandlerTag(h)), b.HandlerLookup()[name])
		}
	}
	for _, h := range ht {
		if d.rows[string(h)] == nil || seenH[h] {
			bad("a handler %q occurs that has no line or repeatedly", h)
		}
		seenH[h] = true
		if name, ok := d.names[string(h)]; ok {
			if b.HandlerName(h) != name {
				bad("handler %q is named %q instead of %q", h, b.HandlerName(h), name)
			}
		} else if show, ok := d.shown[string(h)]; ok && b.HandlerName(h) != show {
			bad("handler %q is named %q instead of %q", h, b.HandlerName(h), show)
		}
	}
	tt := b.TestTags()
	if len(tt) != len(tests) {
		bad("%d tests %q instead of %d", len(tt), tt, len(tests))
	}
	for _, t := range tt {
		if !tests[string(t)] {
			bad("a test %q occurs that has no line", t)
		}
	}
	if !slices.IsSortedFunc(tt, func(x, y data.TestTag) int { return strings.Compare(b.TestName(x), b.TestName(y)) }) {
		bad("tests are not in order: %q", tt)
	}
	got := strings.Trim(string(b.WarningText()), "\n")
	want := strings.Trim(strings.Join(d.warnings, "\n"), "\n")
	if got != want {
		bad("the warning text is %.300q instead of %.300q", got, want)
	}
	if b.HasWarningText() != (len(b.WarningText()) > 0) {
		bad("HasWarningText is %v", b.HasWarningText())
	}
	return why
}

var errRead = errors.New("disk on fire")

func benchParse(c *kit.Ctx) {
	c.Rule("outputs of go test -bench composed with the result formatting of package testing (custom metrics, all magnitudes, with and without memory columns and CPU suffix, repeated lines, noise, warnings, CR LF, long lines, late handler definitions), read in pieces of odd sizes and with read errors; plus the recorded outputs of the repository; distinct by text")
	try := func(i int, d *benchDoc) {
		r := c.Rng("read", i)
		b := data.NewBenchmarks()
		var err error
		var fail error
		if r.IntN(10) == 0 {
			fail = errRead
		}
		c.Guard("ParseBenchmarkData", func() any { return d.text }, func() {
			if r.IntN(6) == 0 && fail == nil {
				// Two files, one after the other.
				at := strings.LastIndexByte(d.text[:r.IntN(len(d.text)+1)], '\n') + 1
				err = errors.Join(b.ParseBenchmarkData(&choppy{d.text[:at], r, nil}), b.ParseBenchmarkData(&choppy{d.text[at:], r, nil}))
				c.Count("outputs read from two files", 1)
			} else {
				err = b.ParseBenchmarkData(&choppy{d.text, r, fail})
			}
		})
		if fail != nil {
			c.Count("read errors", 1)
			if !errors.Is(err, fail) {
				c.Violate("a read error is not reported", map[string]any{"case": i, "err": fmt.Sprint(err)})
			}
		} else if err != nil {
			c.Violate("benchmark output is rejected: "+err.Error(), map[string]any{"case": i, "text": d.text})
			return
		}
		c.Guard("accessors", func() any { return d.text }, func() {
			if why := d.judge(b); why != "" {
				c.Violate("benchmark data: "+why, map[string]any{"case": i, "text": d.text})
			}
		})
		c.Count("names of several handlers", d.shared)
		c.Eval(d.text)
		c.Count("data lines", d.lines)
		c.Count("warning lines", len(d.warnings))
	}
	for i := 0; i < c.N(5000, 150000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		d := genBench(c.Rng("bench", i))
		if i < 2 {
			c.Sample(d.text)
		}
		try(i, d)
	}
	for _, f := range recorded() {
		raw, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if d := recordedBench(string(raw)); d != nil {
			for k := 0; k < 5; k++ {
				try(1_000_000+k, d)
			}
			c.Count("recorded outputs", 1)
		}
	}
	c.Need("data lines", 5000)
	c.Need("warning lines", 5000)
	c.Need("read errors", 50)
	c.Need("names of several handlers", 20)
}

// recorded lists the text files with recorded outputs that the repository carries.
func recorded() []string {
	var all []string
	for _, p := range []string{"docs/*.txt", "internal/data/testdata/*"} {
		m, _ := filepath.Glob(filepath.Join(repo(), p))
		all = append(all, m...)
	}
	return all
}

func repo() string {
	if p := os.Getenv("VERIF_REPO"); p != "" {
		return p
	}
	return "/repo"
}

// recordedBench reads a recorded output by columns; nil when it is none.
func recordedBench(text string) *benchDoc {
	d := &benchDoc{rows: map[string]map[string]data.TestRecord{}, names: map[string]string{}}
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		switch {
		case strings.HasPrefix(line, "# Handler["):
			tag, name, _ := strings.Cut(strings.TrimPrefix(line, "# Handler["), "]=")
			d.names[tag] = strings.Trim(name, `"`)
		case strings.HasPrefix(line, "# "):
			d.warnings = append(d.warnings, line[2:])
		case strings.HasPrefix(line, "Benchmark") && strings.Contains(line, "ns/op"):
			h, t, ok := strings.Cut(strings.Fields(line)[0], "/Benchmark")
			if ok {
				if at := strings.LastIndexByte(t, '-'); at > 0 {
					t = t[:at]
				}
				d.row(strings.TrimPrefix(h, "Benchmark"), t, line)
			}
		}
	}
	d.text = text
	if d.lines == 0 || bytes.Contains([]byte(text), []byte("\r")) {
		return nil
	}
	return d
}
