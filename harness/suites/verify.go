package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"

	"github.com/stretchr/testify/suite"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zverif/kit"
	"github.com/madkins23/go-slog/verify/tests"
)

type verdict struct {
	passed  bool
	ran     int
	warned  map[string]int // warnings issued
	unused  map[string]bool
	failed  []string
	printed string // how what was printed differs from what was reported
}

type stats struct {
	*tests.SlogTestSuite
	ran    int
	names  map[string]bool
	failed []string
}

func (s *stats) HandleStats(_ string, info *suite.SuiteInformation) {
	s.names = map[string]bool{}
	for name, st := range info.TestStats {
		s.ran++
		s.names[name] = true
		if !st.Passed {
			s.failed = append(s.failed, name)
		}
	}
	sort.Strings(s.failed)
}

var suiteNumber int

func verifyRun(t *testing.T, flaws map[string]bool, l look, loggerOnly bool, marks ...string) verdict {
	suiteNumber++
	handlerFn := func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newLab(w, o, flaws, l) }
	loggerFn := func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(newLab(w, o, flaws, l)) }
	if loggerOnly {
		handlerFn = nil
	}
	name := fmt.Sprintf("lab/%d", suiteNumber%50)
	s := &stats{SlogTestSuite: tests.NewSlogTestSuite(infra.NewCreator(name, handlerFn, loggerFn, "", nil))}
	for _, m := range marks {
		s.WarnOnly(warning.ByName(m))
	}
	v := verdict{warned: map[string]int{}, unused: map[string]bool{}}
	v.passed = t.Run("suite", func(t *testing.T) { suite.Run(t, s) })
	v.ran, v.failed = s.ran, s.failed
	for _, w := range s.GetWarnings() {
		v.warned[w.Name] = int(w.Count)
		for _, i := range w.Data {
			if !s.names[i.Function] {
				v.printed = fmt.Sprintf("%s: the warning is said to come from %q", w.Name, i.Function)
			}
		}
		if w.Name == warning.Unused.Name {
			for _, i := range w.Data {
				v.unused[i.Text] = true
			}
		}
	}
	// What is printed says the same.
	var buf bytes.Buffer
	s.ShowWarnings(&buf)
	w := data.NewWarnings()
	if err := w.ParseWarningData(bytes.NewReader(buf.Bytes()), "Verify", map[string]data.HandlerTag{name: "Lab"}); err != nil {
		v.printed = err.Error()
	}
	total, tags := 0, w.HandlerTags()
	for _, tag := range tags {
		if levels := w.ForHandler(tag); levels != nil {
			for _, level := range levels.Levels() {
				for _, dw := range level.Warnings() {
					total++
					if got := len(dw.Instances()); got != v.warned[dw.Name()] {
						v.printed = fmt.Sprintf("%s: %d instances printed, %d reported", dw.Name(), got, v.warned[dw.Name()])
					}
				}
			}
		}
	}
	if total != len(v.warned) {
		v.printed = fmt.Sprintf("%d warnings printed for %v, %d reported", total, tags, len(v.warned))
	}
	return v
}

func (v verdict) String() string {
	return fmt.Sprintf("passed=%v failed=%s warned=%v unused=%v", v.passed, strings.Join(v.failed, ","), v.warned, v.unused)
}

// flawed is a way to break the contract.
type flawed struct {
	flaws  string // names of the flaws
	marks  string // marks that cover them (empty: there is no warning for it)
	report string // the warning that reports it
	family string // marks of one family may cover each other's flaws
}

var flaws = []flawed{
	{"canceled-silent", "CanceledContext", "CanceledContext", "context"}, {"canceled-error", "CanceledContext", "CanceledContext", "context"},
	{"default-warn", "DefaultLevel", "DefaultLevel", "default"}, {"default-debug", "DefaultLevel", "DefaultLevel", "default"},
	{"level-names-only", "LevelMath", "LevelMath", "level"}, {"level-static", "LevelVar", "LevelVar", "level"}, {"always-enabled", "", "", "level"},
	{"message-key", "MessageKey SlogTest NoReplAttr", "MessageKey", "message"},
	{"no-replattr", "NoReplAttr", "NoReplAttr", "replace"}, {"no-replattr-basic", "NoReplAttrBasic", "NoReplAttrBasic", "replace"},
	{"replattr-top-only", "NoReplAttr ReplAttrGroup", "NoReplAttr", "replace"}, {"replattr-no-groups", "NoReplAttr ReplAttrGroup", "NoReplAttr", "replace"},
	{"caller", "SourceCaller NoReplAttr", "SourceCaller", "source"}, {"no-source", "SourceKey NoReplAttr", "SourceKey", "source"},
	{"source-null", "SourceKey NoReplAttr", "SourceKey", "source"}, {"source-text", "SourceKey NoReplAttr", "SourceKey", "source"},
	{"source-no-function", "SourceKey", "SourceKey", "source"}, {"zero-pc", "ZeroPC", "ZeroPC", "source"},
	{"with-group-top", "", "", "with"}, {"with-group-parent", "", "", "with"}, {"with-top", "GroupWithTop SlogTest WithGroup NoReplAttr", "GroupWithTop", "with"},
	{"empty-attr", "EmptyAttributes SlogTest NoReplAttr", "EmptyAttributes", "empty"},
	{"group-empty", "GroupEmpty SlogTest WithGroupEmpty", "GroupEmpty", "group"}, {"with-group-empty", "WithGroupEmpty SlogTest GroupEmpty", "WithGroupEmpty", "group"},
	{"group-inline", "GroupInline SlogTest", "GroupInline", "group"},
	{"no-resolve", "Resolver SlogTest", "Resolver", "resolve"}, {"zero-time", "ZeroTime SlogTest", "ZeroTime", "zero-time"},
	{"duplicates", "Duplicates", "Duplicates", "duplicates"}, {"duplicates", "SkipDedup", "SkipDedup", "duplicates"},
	{"duration-millis", "DurationMillis", "DurationMillis", "duration"}, {"duration-seconds", "DurationSeconds", "DurationSeconds", "duration"},
	{"duration-string", "DurationString", "DurationString", "duration"},
	{"duration-millis duration-group", "DurationMillis GroupDuration", "GroupDuration", "duration"},
	{"duration-seconds duration-group", "DurationSeconds GroupDuration", "GroupDuration", "duration"},
	{"level-lower", "LevelCase NoReplAttr", "LevelCase", "case"}, {"level-title", "", "", "case"}, {"level-wrong", "", "", "case"}, {"level-number", "", "", "case"},
	{"no-empty-name", "NoEmptyName NoReplAttr", "NoEmptyName", "name"},
	{"any-string", "StringAny", "StringAny", "any"},
	{"time-millis", "TimeMillis", "TimeMillis", "time"}, {"time-seconds", "TimeSeconds", "TimeSeconds", "time"}, {"time-number", "", "", "no-time"},
	{"no-time", "", "", "no-time"}, {"no-level", "", "", "case"}, {"no-message", "", "", "message"},
	{"derive-shares", "", "", "with"}, {"with-lost", "", "", "with"}, {"broken-json", "", "", "json"},
	{"group-lost", "", "", "group"}, {"strings-cut", "", "", "string"}, {"bool-number", "", "", "bool"}, {"int-string", "", "", "int"}, {"int-unsigned", "", "", "int"},
	{"float-short", "", "", "float"}, {"threshold-open", "", "", "level"}, {"group-flat", "", "", "group"},
	{"no-nil", "NoNilValue", "NoNilValue", "nil"},
	{"no-resolve-grouped", "Resolver SlogTest", "Resolver", "resolve"}, {"in-with:no-resolve", "Resolver SlogTest Mismatch", "Resolver", "resolve"},
	{"in-with:no-replattr", "NoReplAttr ReplAttrGroup", "NoReplAttr", "replace"},
	{"in-with:strings-cut", "", "", "string"}, {"in-with:int-string", "", "", "int"}, {"in-with:group-lost", "", "", "group"}, {"unescaped-quote", "", "", "string"},
}

// harmless are marks that change nothing about what the suite expects.
var harmless = strings.Fields("CanceledContext LevelMath LevelVar MessageKey SourceCaller WithGroup WithGroupEmpty GroupEmpty GroupInline ZeroPC ZeroTime " +
	"GroupDuration StringAny TimeMillis ReplAttrGroup NoEmptyName SlogTest DefaultLevel NoReplAttr NoReplAttrBasic SourceKey TimeSeconds NoNilValue SkipDedup Mismatch Duplicates")

func set(names string) map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(names) {
		m[n] = true
	}
	return m
}

func verification(c *kit.Ctx) {
	inTest(func(t *testing.T) { verificationCases(c, t) })
}

func verificationCases(c *kit.Ctx, t *testing.T) {
	c.Rule("The verification suite is run on handlers whose behaviour is known: a slog handler that keeps to the documentation in every way, or breaks it in one named way (or several), with lines written in different but equivalent looks. " +
		"Expected: no fault and no mark: pass without a warning; a fault that is not marked: fail; all faults marked: pass and report them; nothing reported that was not marked; a mark without reason: pass and reported as unused; what is printed equals what is reported. " +
		"One case is one run of the whole suite.")
	c.Assume("The suites themselves (verify/tests, bench/tests) are taken as they are in the tree; package testing and testify run them.")
	n := c.N(2000, 60000)
	for i := 0; i < n; i++ {
		r := c.Rng("verify", i)
		l := newLook(r)
		if i == 0 {
			l = newLook(nil)
		}
		loggerOnly := r.IntN(4) == 0
		run := func(what string, fl string, marks []string) verdict {
			v := verifyRun(t, set(fl), l, loggerOnly, marks...)
			c.Eval(what)
			c.Count("suite-runs", 1)
			c.Count("tests-run", v.ran)
			c.Count("tests-failed", len(v.failed))
			if v.printed != "" {
				c.Violate("what the suite prints is not what it reports: "+v.printed, map[string]any{"case": i, "flaws": fl, "marks": marks, "verdict": v.String()})
			}
			if v.passed != (len(v.failed) == 0) || v.ran < 40 {
				c.Violate(fmt.Sprintf("%d tests run, passed is %v, failed: %v", v.ran, v.passed, v.failed), map[string]any{"case": i, "flaws": fl, "marks": marks})
			}
			return v
		}
		detail := func(fl string, marks []string, v verdict) any {
			return map[string]any{"case": i, "flaws": fl, "marks": marks, "look": l.String(), "logger only": loggerOnly, "verdict": v.String()}
		}
		switch i % 6 {
		case 0: // nothing wrong
			v := run("good", "", nil)
			if !v.passed || len(v.warned) > 0 {
				c.Violate("a handler that keeps to the documentation did not pass without warnings: "+v.String(), detail("", nil, v))
			}
			c.Count("good", 1)
		case 1: // marks without reason
			m := harmless[r.IntN(len(harmless))]
			if i < 6*len(harmless) {
				m = harmless[i/6]
			}
			v := run("good with "+m, "", []string{m})
			for w := range v.warned {
				if w != warning.Unused.Name && !(m == "SkipDedup" && (w == m || w == "SkippingTest")) {
					c.Finding("needless mark "+m+" reports "+w, fmt.Sprintf("%s marked for a handler that keeps to the documentation: warning %s reported", m, w), detail("", []string{m}, v))
				}
			}
			if !v.passed {
				c.Finding("needless mark "+m+" fails", fmt.Sprintf("%s marked for a handler that keeps to the documentation: the suite fails", m), detail("", []string{m}, v))
			}
			if v.warned[m] == 0 && !v.unused[m] && !(m == "SlogTest" && loggerOnly) {
				c.Finding("needless mark "+m, fmt.Sprintf("%s marked for a handler that keeps to the documentation: not reported as unused", m), detail("", []string{m}, v))
			}
			c.Count("needless-marks", 1)
		case 2: // one flaw, marks of other families
			f := flaws[(i/6)%len(flaws)]
			var marks []string
			for k := r.IntN(3); k > 0; k-- {
				g := flaws[r.IntN(len(flaws))]
				if g.family == f.family || f.family == "replace" && strings.Contains(g.marks, "NoReplAttr") {
					continue
				}
				marks = append(marks, strings.Fields(g.marks)...)
			}
			v := run("flaw "+f.flaws, f.flaws, marks)
			if v.passed {
				c.Violate(fmt.Sprintf("a handler with flaw %q passes", f.flaws), detail(f.flaws, marks, v))
			}
			c.Seen("flaws-detected", f.flaws)
			c.Count("detected", 1)
		case 3: // one flaw, marked
			f := flaws[(i/6)%len(flaws)]
			marks := shuffled(r, f.marks)
			v := run("marked "+f.flaws, f.flaws, marks)
			marked(c, v, []flawed{f}, marks, detail(f.flaws, marks, v))
		case 4: // several flaws, all marked or all but some
			fs := several(r)
			open := -1
			if len(fs) > 0 && r.IntN(3) == 0 {
				open = r.IntN(len(fs))
			}
			var names, marks []string
			for k, f := range fs {
				names = append(names, f.flaws)
				if k != open {
					marks = append(marks, strings.Fields(f.marks)...)
				}
			}
			if open >= 0 && fs[open].family == "replace" && strings.Contains(strings.Join(marks, " "), "NoReplAttr") {
				marks = append(marks, strings.Fields(fs[open].marks)...)
				open = -1
			}
			fl := strings.Join(names, " ")
			r.Shuffle(len(marks), func(a, b int) { marks[a], marks[b] = marks[b], marks[a] })
			v := run("several "+fl, fl, marks)
			if open < 0 {
				marked(c, v, fs, marks, detail(fl, marks, v))
				c.Count("several-marked", 1)
			} else if v.passed {
				c.Violate(fmt.Sprintf("a handler with the unmarked flaw %q passes", fs[open].flaws), detail(fl, marks, v))
			}
		case 5: // marks that are switched off
			f := flaws[(i/6)%len(flaws)]
			_ = flag.Set("useWarnings", "false")
			v := run("switched off "+f.flaws, f.flaws, strings.Fields(f.marks))
			_ = flag.Set("useWarnings", "true")
			if v.passed {
				c.Violate(fmt.Sprintf("a handler with flaw %q passes without -useWarnings", f.flaws), detail(f.flaws, nil, v))
			}
			c.Count("switched-off", 1)
		}
	}
	c.Need("good", n/6)
	c.Need("detected", n/8)
}

// marked checks the verdict on a handler all of whose flaws are marked.
func marked(c *kit.Ctx, v verdict, fs []flawed, marks []string, detail any) {
	covered := true
	for _, f := range fs {
		covered = covered && f.marks != ""
	}
	if !covered {
		if v.passed {
			c.Violate("a handler with a flaw for which there is no warning passes", detail)
		}
		return
	}
	if !v.passed {
		c.Violate("a handler fails although its flaws are marked: "+strings.Join(v.failed, " "), detail)
		return
	}
	for _, f := range fs {
		if v.warned[f.report] == 0 && !(f.family == "replace" && v.warned["NoReplAttr"] > 0) {
			c.Finding("flaw "+f.flaws+" not reported", fmt.Sprintf("flaw %q is marked but not reported as %s", f.flaws, f.report), detail)
		}
		c.Seen("flaws-reported", f.flaws)
	}
	for _, m := range marks {
		if v.warned[m] > 0 && v.unused[m] {
			c.Violate(fmt.Sprintf("%s is reported %d times, and as unused", m, v.warned[m]), detail)
		}
		c.Count("marks accounted for", 1)
	}
	known := map[string]bool{warning.Unused.Name: true, warning.SkippingTest.Name: true}
	for _, m := range marks {
		known[m] = true
	}
	for w := range v.warned {
		if !known[w] {
			key := "unmarked warning " + w
			for _, f := range fs {
				if f.flaws == "time-seconds" && w == "TimeMillis" {
					key = "flaw time-seconds reported as TimeMillis"
				}
			}
			c.Finding(key, fmt.Sprintf("warning %s is reported but not marked", w), detail)
		}
	}
}

func shuffled(r *rand.Rand, marks string) []string {
	m := strings.Fields(marks)
	r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

// several picks flaws of different families.
func several(r *rand.Rand) []flawed {
	var fs []flawed
	seen := map[string]bool{}
	for k := 2 + r.IntN(4); k > 0; k-- {
		f := flaws[r.IntN(len(flaws))]
		if seen[f.family] || f.marks == "" && r.IntN(4) > 0 {
			continue
		}
		seen[f.family] = true
		fs = append(fs, f)
	}
	return fs
}
