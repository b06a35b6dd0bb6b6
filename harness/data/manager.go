package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"maps"
	"math/rand/v2"
	"os"
	"slices"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// mgrModel is what a manager has to remember.
type mgrModel struct {
	name       string
	predefined map[string]bool
	warnOnly   map[string]bool
	warns      map[string]*warn
}

func (m *mgrModel) add(w *warning.Warning, fn, text, rec string) {
	e := m.warns[w.Name]
	if e == nil {
		e = &warn{level: w.Level, name: w.Name, summary: w.Summary}
		m.warns[w.Name] = e
	}
	e.insts = append(e.insts, inst{fn: fn, text: text, record: strings.TrimRight(rec, "\n")})
}

// issued lists what is to be shown: an Unused warning about a warning that was issued is void.
func (m *mgrModel) issued() []*warn {
	var all []*warn
	for _, e := range m.warns {
		x := *e
		if x.name == warning.Unused.Name {
			x.insts = nil
			for _, in := range e.insts {
				if _, found := m.warns[in.text]; !found {
					x.insts = append(x.insts, in)
				}
			}
			if len(x.insts) == 0 {
				continue
			}
		}
		all = append(all, &x)
	}
	slices.SortFunc(all, func(a, b *warn) int {
		if a.level != b.level {
			return int(b.level) - int(a.level)
		}
		return strings.Compare(a.name, b.name)
	})
	return all
}

func (m *mgrModel) dump() string {
	var b strings.Builder
	for _, w := range m.issued() {
		fmt.Fprintf(&b, "%s [%s] %s\n", w.level, w.name, w.summary)
		for _, in := range w.insts {
			fmt.Fprintf(&b, "  %q %q %q\n", in.fn, in.text, in.record)
		}
	}
	return b.String()
}

func dumpReal(list []*warning.Instances) (string, bool) {
	var b strings.Builder
	ok := true
	for _, w := range list {
		fmt.Fprintf(&b, "%s [%s] %s\n", w.Level, w.Name, w.Summary)
		for _, in := range w.Data {
			fmt.Fprintf(&b, "  %q %q %q\n", in.Function, in.Text, in.Record)
		}
		ok = ok && w.Count == uint(len(w.Data))
	}
	return b.String(), ok
}

// Functions with the names that test functions have: a manager finds them on the call stack.

func TestAlpha(fn func()) string       { fn(); return "TestAlpha" }
func TestBetaNested(fn func()) string  { return TestGamma(fn) }
func TestGamma(fn func()) string       { func() { fn() }(); return "TestGamma" }
func BenchmarkDelta(fn func()) string  { fn(); return "BenchmarkDelta" }
func BenchmarkWithin(fn func()) string { TestAlpha(fn); return "BenchmarkWithin" }
func plain(fn func()) string           { fn(); return "Unknown" }
func testWithin(fn func()) string      { BenchmarkDelta(fn); return "Unknown" }

// TestDeep calls fn further down, as checks and their helpers do.
func TestDeep(fn func()) string { deeper(depth, fn); return "TestDeep" }

var depth int

func deeper(n int, fn func()) {
	if n > 0 {
		deeper(n-1, fn)
		return
	}
	fn()
}

type callee struct{}

func (*callee) TestMethod(fn func()) string      { fn(); return "TestMethod" }
func (*callee) BenchmarkMethod(fn func()) string { fn(); return "BenchmarkMethod" }

func captureStdout(fn func()) string {
	old := os.Stdout
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = wr
	done := make(chan string)
	go func() {
		raw, _ := io.ReadAll(rd)
		done <- string(raw)
	}()
	defer func() { os.Stdout = old }()
	fn()
	os.Stdout = old
	wr.Close()
	return <-done
}

func warningManager(c *kit.Ctx) {
	c.Rule("random sequences of operations on several warning managers (predefining, warn-only marking, adding in all ways from functions found on the stack, unused marks, skipping, with warnings enabled and disabled by the flag), after which everything the managers report, show and list by warning is compared with a model; distinct by sequence of operations")
	defer quiet()()
	defer flag.Set("useWarnings", "true")
	byWarning := map[*warning.Warning]map[string]bool{} // the list by warning is kept for the whole process
	own := map[string]*warning.Warning{}
	for i := 0; i < c.N(2500, 60000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("manager", i)
		var log strings.Builder
		c.Guard("warning manager", func() any { return log.String() }, func() { managerCase(c, i, r, &log, byWarning, own) })
		c.Eval(log.String())
		if i < 2 {
			c.Sample(log.String())
		}
	}
	c.Need("operations", 20000)
	c.Need("lists by warning", 500)
	c.Need("unused marks that became void", 100)
}

func managerCase(c *kit.Ctx, i int, r *rand.Rand, log *strings.Builder, byWarning map[*warning.Warning]map[string]bool, own map[string]*warning.Warning) {
	pool := slices.Clone(predefinedWarnings)
	for k := range 6 {
		name := fmt.Sprintf("%s%d", []string{"Own", "a b", "Ü"}[k%3], k)
		if own[name] == nil {
			own[name] = &warning.Warning{Level: warning.LevelOrder[k%4], Name: name, Summary: strings.ToLower(name) + " happened"}
		}
		pool = append(pool, own[name])
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	pool = pool[:3+r.IntN(8)]
	use := r.IntN(4) > 0
	_ = flag.Set("useWarnings", fmt.Sprint(use))
	fmt.Fprintf(log, "useWarnings=%v\n", use)
	type pair struct {
		real           *warning.Manager
		model          *mgrModel
		prefix, fnPref string
	}
	var all []*pair
	for k := range 1 + r.IntN(3) {
		p := &pair{prefix: []string{"", "# "}[r.IntN(2)]}
		p.fnPref = map[string]string{"": "Test", "# ": "Benchmark"}[p.prefix]
		name := fmt.Sprintf("handler/%c%d", 'a'+r.IntN(3), k)
		p.real = warning.NewWarningManager(name, p.fnPref, p.prefix)
		p.model = &mgrModel{name, map[string]bool{}, map[string]bool{}, map[string]*warn{}}
		for _, w := range warning.Administrative() {
			p.model.predefined[w.Name] = true
		}
		all = append(all, p)
	}
	callers := []func(func()) string{TestAlpha, TestBetaNested, TestGamma, BenchmarkDelta, BenchmarkWithin, plain, testWithin, (&callee{}).TestMethod, (&callee{}).BenchmarkMethod, TestDeep}
	fail := func(what string, detail any) {
		c.Violate("warning manager: "+what, map[string]any{"case": i, "operations": log.String(), "detail": detail})
	}
	for range 4 + r.IntN(30) {
		p := all[r.IntN(len(all))]
		m := p.model
		w := pool[r.IntN(len(pool))]
		k := r.IntN(len(callers))
		depth = r.IntN(12)
		if r.IntN(4) == 0 {
			depth = r.IntN(120)
		}
		// named runs fn below a function with a test's name and returns the name that has to be found.
		named := func(fn func()) string {
			name := callers[k](fn)
			switch {
			case strings.HasPrefix(name, p.fnPref):
				return name
			case p.fnPref == "Test" && k == 4: // TestAlpha within BenchmarkWithin
				return "TestAlpha"
			case p.fnPref == "Benchmark" && k == 6: // BenchmarkDelta within testWithin
				return "BenchmarkDelta"
			}
			return "Unknown"
		}
		times := 1
		if r.IntN(400) == 0 {
			times = 250 + r.IntN(800)
		}
		rec := []string{"", `{"a":1}`, "{\"a\":1}\n", "{\"a\":1}\n\n", " {\"a\": 1} \t\n", "{\"a\":1}\r\n"}[r.IntN(6)]
		op := r.IntN(12)
		c.Count("operations", 1)
		fmt.Fprintf(log, "%s: op %d %s caller %d depth %d\n", m.name, op, w.Name, k, depth)
		switch op {
		case 0:
			p.real.Predefine(w)
			m.predefined[w.Name] = true
		case 1:
			fn := named(func() { p.real.WarnOnly(w) })
			if !m.predefined[w.Name] {
				m.add(warning.Undefined, fn, w.Summary, "")
			}
			m.warnOnly[w.Name] = true
		case 2, 3:
			text := genText(r)
			for range times {
				fn := named(func() { p.real.AddWarning(w, text, rec) })
				m.add(w, fn, text, rec)
			}
		case 4:
			p.real.AddWarningFn(w, "TestZ", rec)
			m.add(w, "TestZ", "", rec)
		case 5:
			text := genText(r)
			for range times {
				p.real.AddWarningFnText(w, "BenchmarkZ", text, rec)
				m.add(w, "BenchmarkZ", text, rec)
			}
		case 6, 7:
			fn := named(func() { p.real.AddUnused(w, rec) })
			m.add(warning.Unused, fn, w.Name, rec)
		case 8:
			fn := named(func() { p.real.SkipTest(w) })
			m.add(warning.SkippingTest, fn, w.Summary, "")
			m.add(w, fn, warning.SkippingTest.Summary, "")
		case 9, 10:
			ws := []*warning.Warning{w, pool[r.IntN(len(pool))], pool[r.IntN(len(pool))]}[:r.IntN(4)]
			var got bool
			fn := named(func() { got = p.real.SkipTestIf(ws...) })
			want := false
			for _, x := range ws {
				if use && m.warnOnly[x.Name] {
					m.add(warning.SkippingTest, fn, x.Summary, "")
					m.add(x, fn, warning.SkippingTest.Summary, "")
					want = true
					break
				}
			}
			if got != want {
				fail(fmt.Sprintf("SkipTestIf returned %v", got), nil)
			}
			if want {
				c.Count("tests skipped", 1)
			}
			var has []*warning.Warning
			for _, x := range ws {
				if p.real.HasWarning(x) != (use && m.warnOnly[x.Name]) {
					fail(fmt.Sprintf("HasWarning(%s) is %v", x.Name, p.real.HasWarning(x)), nil)
				}
				if use && m.warnOnly[x.Name] {
					has = append(has, x)
				}
			}
			if l := p.real.HasWarnings(ws...); l == nil || !slices.Equal(l, has) && len(l)+len(has) > 0 {
				fail("HasWarnings returned other warnings", len(l))
			}
		case 11:
			if r.IntN(2) == 0 {
				_ = p.real.GetWarnings() // reading must not change what is reported later
			} else {
				show(c, p.real, m, p.prefix, byWarning, pool, fail)
			}
		}
	}
	for _, p := range all {
		got, ok := dumpReal(p.real.GetWarnings())
		if want := p.model.dump(); got != want {
			fail("GetWarnings", map[string]string{"got": got, "want": want})
		}
		if !ok {
			fail("a count is not the number of instances", got)
		}
		if u := p.model.warns[warning.Unused.Name]; u != nil {
			n := 0
			for _, x := range p.model.issued() {
				if x.name == warning.Unused.Name {
					n = len(x.insts)
				}
			}
			c.Count("unused marks that became void", len(u.insts)-n)
		}
		if len(p.model.issued()) == 0 && p.real.GetWarnings() != nil && len(p.real.GetWarnings()) > 0 {
			fail("warnings without any", nil)
		}
		show(c, p.real, p.model, p.prefix, byWarning, pool, fail)
	}
	if i%4 == 0 && len(byWarning) > 0 {
		prefix := []string{"", "# "}[r.IntN(2)]
		out := captureStdout(func() { warning.ShowHandlersByWarning(prefix) })
		var want strings.Builder
		for _, l := range warning.LevelOrder {
			var ws []*warning.Warning
			for w := range byWarning {
				if w.Level == l {
					ws = append(ws, w)
				}
			}
			if len(ws) == 0 {
				continue
			}
			slices.SortFunc(ws, func(a, b *warning.Warning) int { return strings.Compare(a.Name, b.Name) })
			fmt.Fprintf(&want, "%s\n", l)
			for _, w := range ws {
				want.WriteString(strings.TrimSpace(fmt.Sprintf("[%s] %s", w.Name, w.Summary)) + "\n")
				for _, h := range slices.Sorted(maps.Keys(byWarning[w])) {
					fmt.Fprintf(&want, "%s\n", h)
				}
			}
		}
		var got strings.Builder
		head := false
		for _, line := range strings.Split(out, "\n") {
			if line != "" && !strings.HasPrefix(line, prefix) {
				fail("a line of the list by warning lacks the prefix", line)
			}
			line = strings.TrimSpace(strings.TrimPrefix(line, prefix))
			if !head {
				head = line == "Handlers by warning:"
				continue
			}
			if line != "" {
				got.WriteString(line + "\n")
			}
		}
		if !head || got.String() != want.String() {
			fail("the list of handlers by warning", map[string]string{"got": out, "want": want.String()})
		}
		c.Count("lists by warning", 1)
	}
}

// show has a manager show its warnings and reads that back by columns.
func show(c *kit.Ctx, mgr *warning.Manager, m *mgrModel, prefix string, byWarning map[*warning.Warning]map[string]bool, pool []*warning.Warning, fail func(string, any)) {
	var buf bytes.Buffer
	mgr.ShowWarnings(&buf)
	var plain strings.Builder
	for _, line := range strings.SplitAfter(buf.String(), "\n") {
		if line != "" && !strings.HasPrefix(line, prefix) {
			fail("a line of the report lacks the prefix", line)
		}
		plain.WriteString(strings.TrimPrefix(line, prefix))
	}
	ru := recordedReport(plain.String(), "")
	if len(ru.handlers) != 1 || ru.handlers[0].name != m.name {
		fail("the report is not headed by the name of the handler", buf.String())
		return
	}
	var got, want strings.Builder
	issued := m.issued()
	if len(issued) == 0 && !strings.Contains(plain.String(), "\n  None\n") {
		fail("a report without warnings does not say so", buf.String())
	}
	for _, w := range issued {
		fmt.Fprintf(&want, "%s [%s] %s\n", w.level, w.name, w.summary)
		for _, in := range w.insts {
			fmt.Fprintf(&want, "  %q %q %q\n", in.fn, in.text, strings.TrimSpace(in.record))
		}
	}
	shown := (&mgrModel{warns: ru.handlers[0].warns}).raw()
	for _, w := range shown {
		fmt.Fprintf(&got, "%s [%s] %s\n", w.level, w.name, w.summary)
		for _, in := range w.insts {
			fmt.Fprintf(&got, "  %q %q %q\n", in.fn, in.text, strings.TrimSpace(in.record))
		}
	}
	if got.String() != want.String() {
		fail("the report does not say what was issued", map[string]string{"got": buf.String(), "want": want.String()})
	}
	// Order and counts of the report itself.
	var heads, wantHeads []string
	for _, line := range strings.Split(plain.String(), "\n") {
		if countLine.MatchString(line) {
			heads = append(heads, strings.TrimSpace(line))
		}
	}
	for _, w := range issued {
		wantHeads = append(wantHeads, strings.TrimSpace(fmt.Sprintf("%d [%s] %s", len(w.insts), w.name, w.summary)))
	}
	if !slices.Equal(heads, wantHeads) {
		fail("warnings are not shown in order with their counts", map[string]any{"got": heads, "want": wantHeads})
	}
	for _, w := range issued {
		key := warning.ByName(w.name)
		for _, x := range pool {
			if x.Name == w.name {
				key = x
			}
		}
		if byWarning[key] == nil {
			byWarning[key] = map[string]bool{}
		}
		byWarning[key][m.name] = true
	}
	c.Count("reports shown", 1)
}

// raw is the list without the treatment of unused marks.
func (m *mgrModel) raw() []*warn {
	var all []*warn
	for _, e := range m.warns {
		all = append(all, e)
	}
	slices.SortFunc(all, func(a, b *warn) int {
		if a.level != b.level {
			return int(b.level) - int(a.level)
		}
		return strings.Compare(a.name, b.name)
	})
	return all
}
