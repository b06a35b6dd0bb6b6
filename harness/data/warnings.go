package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"log/slog"
	"maps"
	"math/rand/v2"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/net/html"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// inst is one instance of a warning.
type inst struct {
	source, fn, text, record string
}

// report is what a run of a suite has to say: handler name -> warning -> instances.
type warn struct {
	level   warning.Level
	name    string
	summary string
	insts   []inst
}

type handlerReport struct {
	name  string
	warns map[string]*warn
}

type about struct {
	summary string
	links   map[string]string
}

// run is one output of a suite.
type run struct {
	source   string
	prefix   string
	handlers []*handlerReport
	about    map[string]about
}

var textBits = []string{"expected", " ", "no 'source' key", "map[alpha:2]", "{\"x\":1}", "[x]", ":", "::", "+", "é", "世界", "12 [Name] text", "Warnings for x:", "#", "%d", "-->", "\"", "<b>", "/a/b.go:96", "None", "Implied", "\t", "|", "x"}

var trimmed = regexp.MustCompile(`^\s+|\s+$`)

func textLine(r *rand.Rand) string {
	var b strings.Builder
	for range r.IntN(6) {
		b.WriteString(textBits[r.IntN(len(textBits))])
	}
	if b.Len() > 0 && r.IntN(8) == 0 { // as sentences end
		b.WriteString([]string{".", "!", ";", ":", ",", "...", "\"", ")", "]", "-", "+"}[r.IntN(11)])
	}
	return trimmed.ReplaceAllString(b.String(), "")
}

// linkRoot is where the lines of Go are shown.
const linkRoot = "https://cs.opensource.google/go/go/+/master:src/"

// genFailure is a line as slogtest writes it, or almost.
func genFailure(r *rand.Rand) string {
	pick := func(list ...string) string { return list[r.IntN(len(list))] }
	line := pick("missing key \"c\"", "unexpected key \"\"", "x", "a <b> & c", "é") + ":" + pick("", " ") +
		pick("a Handler should handle multiple WithGroup calls", "this: test expects (some) more", "<i>x</i> & y", "q \"x\"", "世界") + pick(" ", "", "  ") +
		"(" + pick("/opt/go/1.22.12/x64/src/", "/", "C:/Go/src/testing/x/", "/a (b)/") + "testing/" + pick("slogtest/slogtest.go", "fstest/testfs.go", "x.go", "y z/b.go") + ":" + fmt.Sprint(r.IntN(2000)) + ")"
	switch r.IntN(8) {
	case 0:
		return line + " and more"
	case 1:
		return strings.TrimSuffix(line, ")")
	case 2:
		return strings.Replace(line, ".go:", ".txt:", 1)
	}
	return line
}

// shownText is how a line of a text is shown, and where it leads.
func shownText(line string) (shown, link string) {
	open := strings.LastIndex(line, "(")
	if open < 0 || !strings.HasSuffix(line, ")") {
		return line, ""
	}
	where := line[open+1 : len(line)-1]
	at := strings.LastIndex(where, "/testing/")
	if at < 0 || strings.Contains(where, ")") {
		return line, ""
	}
	file, number, ok := strings.Cut(where[at+1:], ".go:")
	if !ok || number == "" || strings.Trim(number, "0123456789") != "" {
		return line, ""
	}
	what, why, _ := strings.Cut(line[:open], ":")
	return what + " " + strings.TrimSpace(why), linkRoot + file + ".go;l=" + number
}

// paragraphs reads a text in HTML: what each paragraph shows and where it leads.
func paragraphs(n *html.Node) string {
	var b, all strings.Builder
	for _, x := range find(n, func(x *html.Node) bool { return x != n }) {
		switch x.Data {
		case "p":
			fmt.Fprintf(&b, "%q", squeeze(raw(x)))
			all.WriteString(squeeze(raw(x)))
		case "a":
			fmt.Fprintf(&b, " to %q", attr(x, "href"))
		case "br", "html", "head", "body":
		default:
			fmt.Fprintf(&b, " element %s", x.Data)
		}
	}
	if rest := squeeze(raw(n)); rest != all.String() {
		fmt.Fprintf(&b, " with %q", rest)
	}
	return b.String()
}

// wantParagraphs is the same for the text as it was reported.
func wantParagraphs(text string) string {
	var b strings.Builder
	for _, line := range strings.Split(text, "\n") {
		shown, link := shownText(line)
		fmt.Fprintf(&b, "%q", squeeze(shown))
		if link != "" {
			fmt.Fprintf(&b, " to %q", link)
		}
	}
	return b.String()
}

func genText(r *rand.Rand) string {
	switch r.IntN(6) {
	case 5:
		lines := []string{genFailure(r)}
		for range r.IntN(3) {
			lines = append(lines, genFailure(r))
		}
		if r.IntN(3) == 0 {
			lines = append(lines, textLine(r))
		}
		return strings.Join(lines, "\n")
	case 0:
		return ""
	case 1:
		n := 2 + r.IntN(3)
		if r.IntN(50) == 0 {
			n = 30 + r.IntN(300)
		}
		lines := make([]string, n)
		for i := range lines {
			lines[i] = textLine(r)
			if i > 0 && lines[i] != "" && r.IntN(3) == 0 {
				lines[i] = []string{" ", "    ", "\t"}[r.IntN(3)] + lines[i] // some lines are indented
			}
		}
		return strings.Join(lines, "\n")
	}
	return textLine(r)
}

func genRecord(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0, 1, 2:
		return ""
	case 3:
		return []string{`{"a":1,"a":2,"n":12345678901234567890}`, `{"broken`, `{}`, `{"a":1} trailing`, `{x}`, `{"a":"[x] y"}`, `{"msg":"This is a message","level":"INFO","é":[1,2,{"b":null}]}`}[r.IntN(7)]
	case 4:
		if r.IntN(30) > 0 {
			return `{"a":"b"}`
		}
		return `{"long":"` + strings.Repeat("x", r.IntN(200000)) + `"}`
	}
	m := map[string]any{"time": "2024-01-01T00:00:00Z", "level": "INFO", "msg": textLine(r), "n": r.IntN(1000)}
	if r.IntN(2) == 0 {
		m[textLine(r)] = map[string]any{textLine(r): r.Float64()}
	}
	raw, _ := json.Marshal(m)
	return string(raw)
}

var fnWords = []string{"Attributes", "AnyMap", "SimpleSource", "CancelledContext", "BigGroup", "Key", "x", "A1", "Resolve.Group", "With/Sub", "a:b", "Über"}

func genFn(r *rand.Rand, prefix string) string {
	name := fnWords[r.IntN(len(fnWords))]
	if r.IntN(2) == 0 {
		name += fnWords[r.IntN(len(fnWords))]
	}
	switch r.IntN(5) {
	case 0:
		return name
	case 1:
		return prefix + "_" + name
	}
	return prefix + name
}

var predefinedWarnings = append(append(append(append([]*warning.Warning{}, warning.Required()...), warning.Implied()...), warning.Suggested()...), warning.Administrative()...)

func init() {
	predefinedWarnings = append(predefinedWarnings, warning.Benchmark()...)
}

// genWarnings makes the pool of warnings of a case: the built-in ones and some of others.
func genWarnings(r *rand.Rand) []*warning.Warning {
	pool := make([]*warning.Warning, 0, 12)
	for range 3 + r.IntN(6) {
		pool = append(pool, predefinedWarnings[r.IntN(len(predefinedWarnings))])
	}
	for i := range r.IntN(4) {
		pool = append(pool, &warning.Warning{Level: warning.LevelOrder[r.IntN(4)], Name: fmt.Sprintf("%s%d", []string{"My Own", "X", "a.b", "Ünder"}[r.IntN(4)], i), Summary: textLine(r)})
	}
	return pool
}

var handlerNames = []string{"slog/JSONHandler", "madkins/flash", "a", "my own/handler", "veqryn/dedup/Append", "é/x:y", "x-1", "[odd]"}

func genRun(r *rand.Rand, source, prefix, fnPrefix string, pool []*warning.Warning) *run {
	ru := &run{source: source, prefix: prefix, about: map[string]about{}}
	names := slices.Clone(handlerNames)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names[:r.IntN(5)] {
		h := &handlerReport{name: n, warns: map[string]*warn{}}
		for range r.IntN(9) {
			w := pool[r.IntN(len(pool))]
			e := h.warns[w.Name]
			if e == nil {
				e = &warn{level: w.Level, name: w.Name, summary: w.Summary}
				h.warns[w.Name] = e
			}
			n := 1 + r.IntN(3)
			if r.IntN(300) == 0 {
				n = 100 + r.IntN(1000)
			}
			for range n {
				e.insts = append(e.insts, inst{source, genFn(r, fnPrefix), genText(r), genRecord(r)})
			}
		}
		ru.handlers = append(ru.handlers, h)
		if prefix == "" && r.IntN(2) == 0 {
			a := about{links: map[string]string{}}
			var lines []string
			for range 1 + r.IntN(4) {
				lines = append(lines, textLine(r))
			}
			a.summary = strings.Join(lines, "\n")
			for range r.IntN(3) {
				a.links[[]string{"slog/JSON", "a b", "x"}[r.IntN(3)]] = "https://example.org/" + strconv.Itoa(r.IntN(9)) + []string{"?a=b#c", "", "/a b", "/ü:x"}[r.IntN(4)]
			}
			ru.about[n] = a
		}
	}
	return ru
}

// render has the real managers write the report.
func (ru *run) render(r *rand.Rand, pool []*warning.Warning, fnPrefix string) string {
	var b strings.Builder
	byName := map[string]*warning.Warning{}
	for _, w := range pool {
		byName[w.Name] = w
	}
	if ru.prefix == "" {
		b.WriteString("=== RUN   TestVerifyX\n")
	} else {
		b.WriteString("goos: linux\nBenchmarkX/BenchmarkY-4   100   5 ns/op\n")
	}
	for _, h := range ru.handlers {
		if a, ok := ru.about[h.name]; ok {
			// As the verification suite writes it.
			b.WriteString(":[ " + h.name + "\n")
			for _, line := range strings.Split(a.summary, "\n") {
				b.WriteString(":: " + line + "\n")
			}
			for _, k := range slices.Sorted(maps.Keys(a.links)) {
				b.WriteString(":> " + k + " --> " + a.links[k] + "\n")
			}
			b.WriteString(":]\n")
		}
		if ru.prefix == "" {
			b.WriteString("=== RUN   TestVerifyX/TestAnyMap\n    --- PASS: TestVerifyX/TestAnyMap (0.00s)\n{\"msg\":\"stray\"}\n")
		}
	}
	var all bytes.Buffer
	hadWarning := false
	order := slices.Clone(ru.handlers)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, h := range order {
		mgr := warning.NewWarningManager(h.name, fnPrefix, ru.prefix)
		mgr.Predefine(warning.Required()...)
		names := slices.Sorted(maps.Keys(h.warns))
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for _, n := range names {
			hadWarning = true
			for _, in := range h.warns[n].insts {
				rec := in.record
				if rec != "" {
					rec += "\n"
				}
				mgr.AddWarningFnText(byName[n], in.fn, in.text, rec)
			}
		}
		mgr.ShowWarnings(&all)
	}
	b.Write(all.Bytes())
	if hadWarning {
		b.WriteString(ru.prefix + "\n" + ru.prefix + " Handlers by warning:\n" + ru.prefix + "  Implied\n" + ru.prefix + "    [X] y\n" + ru.prefix + "      " + handlerNames[0] + "\n")
	}
	if ru.prefix != "" {
		b.WriteString("PASS\n")
	}
	b.WriteString("ok  \tcommand-line-arguments\t0.070s\n")
	return b.String()
}

func bareFn(fn string) string {
	for _, p := range []string{"Test", "Benchmark"} {
		if strings.HasPrefix(fn, p) {
			return strings.TrimPrefix(strings.TrimPrefix(fn, p), "_")
		}
	}
	return fn
}

func instKey(in inst) string {
	var log bytes.Buffer
	pretty := in.record
	if in.record != "" && json.Indent(&log, []byte(in.record), "", "\t") == nil {
		pretty = log.String()
	}
	return fmt.Sprintf("%q %q %q %s", in.text, in.record, strings.Join(strings.Fields(pretty), ""), wantParagraphs(in.text))
}

var (
	camelCase = regexp.MustCompile(`^([A-Z][a-z]+)+$`)
	capital   = regexp.MustCompile(`[A-Z]`)
)

type liveInst interface {
	Extra() string
	ExtraHTML() template.HTML
	Line() string
	Log() string
	Name() string
	Source() string
	Tag() string
	HasLog() bool
	HasSource() bool
}

func gotKey(li liveInst) string {
	shown := "no HTML"
	if doc, err := html.Parse(strings.NewReader(string(li.ExtraHTML()))); err == nil {
		shown = paragraphs(doc)
	}
	return fmt.Sprintf("%q %q %q %s", li.Extra(), li.Line(), strings.Join(strings.Fields(li.Log()), ""), shown)
}

// truth is what all runs together say.
type truth struct {
	byHandler map[data.HandlerTag]map[string]*warn
	name      map[data.HandlerTag]string // only where the name is known from the benchmark output
	about     map[data.HandlerTag]about
}

func combine(runs []*run, lookup map[string]data.HandlerTag) *truth {
	t := &truth{map[data.HandlerTag]map[string]*warn{}, map[data.HandlerTag]string{}, map[data.HandlerTag]about{}}
	for _, ru := range runs {
		for _, h := range ru.handlers {
			tag := data.HandlerTag(h.name)
			if l, ok := lookup[h.name]; ok {
				tag = l
				t.name[tag] = h.name
				if a, ok := ru.about[h.name]; ok {
					t.about[tag] = a
				}
			}
			if t.byHandler[tag] == nil {
				t.byHandler[tag] = map[string]*warn{}
			}
			for n, w := range h.warns {
				e := t.byHandler[tag][n]
				if e == nil {
					e = &warn{level: w.level, name: n, summary: w.summary}
					t.byHandler[tag][n] = e
				}
				e.insts = append(e.insts, w.insts...)
			}
		}
	}
	return t
}

func sortedBy[T any](list []T, name func(T) string) bool {
	return slices.IsSortedFunc(list, func(a, b T) int { return strings.Compare(name(a), name(b)) })
}

// levelsOf checks one Levels object against the warnings it has to hold.
func levelsOf(ls *data.Levels, want map[string]*warn, key func(in inst) string, got func(li liveInst) string) string {
	byLevel := map[warning.Level]int{}
	for _, w := range want {
		byLevel[w.level]++
	}
	if ls == nil {
		return "no warnings are known"
	}
	levels := ls.Levels()
	var order []warning.Level
	for _, l := range warning.LevelOrder {
		if byLevel[l] > 0 {
			order = append(order, l)
		}
		if ls.LevelCount(l) != uint64(byLevel[l]) {
			return fmt.Sprintf("%d warnings of level %s instead of %d", ls.LevelCount(l), l, byLevel[l])
		}
		if (ls.Level(l) != nil) != (byLevel[l] > 0) {
			return fmt.Sprintf("level %s: %v", l, ls.Level(l))
		}
	}
	if len(levels) != len(order) {
		return fmt.Sprintf("%d levels instead of %d", len(levels), len(order))
	}
	n := 0
	for i, l := range levels {
		if l.Level != order[i] || l.Name() != order[i].String() {
			return "levels are not in the order of importance"
		}
		if l.Count() != uint64(byLevel[l.Level]) || len(l.Warnings()) != byLevel[l.Level] {
			return fmt.Sprintf("level %s has %d warnings instead of %d", l.Name(), l.Count(), byLevel[l.Level])
		}
		last := ""
		for _, dw := range l.Warnings() {
			n++
			if dw.Name() < last {
				return "warnings are not in order"
			}
			last = dw.Name()
			w := want[dw.Name()]
			if w == nil || w.level != l.Level {
				return fmt.Sprintf("a warning %q at level %s that nobody issued", dw.Name(), l.Name())
			}
			if dw.Summary() != w.summary {
				return fmt.Sprintf("warning %q has summary %q instead of %q", dw.Name(), dw.Summary(), w.summary)
			}
			if p := warning.ByName(dw.Name()); p != nil && (dw.HasDescription() != p.HasDescription() || dw.Description() != p.Description()) {
				return fmt.Sprintf("warning %q has another description", dw.Name())
			}
			var g, x []string
			lastName := ""
			for _, li := range dw.Instances() {
				g = append(g, got(li))
				if li.Name() < lastName {
					return "instances are not in order"
				}
				lastName = li.Name()
				if li.HasLog() != (li.Line() != "") || li.HasSource() != (li.Source() != "") {
					return "HasLog or HasSource is wrong"
				}
			}
			for _, in := range w.insts {
				x = append(x, key(in))
			}
			slices.Sort(g)
			slices.Sort(x)
			if !slices.Equal(g, x) {
				for i := range g {
					if i >= len(x) || g[i] != x[i] {
						wnt := "nothing"
						if i < len(x) {
							wnt = x[i]
						}
						return fmt.Sprintf("warning %q: %d instances instead of %d, first difference %.400s instead of %.400s", dw.Name(), len(g), len(x), g[i], wnt)
					}
				}
				return fmt.Sprintf("warning %q: %d instances instead of %d, %.400s is missing", dw.Name(), len(g), len(x), x[len(g)])
			}
		}
	}
	if n != len(want) {
		return fmt.Sprintf("%d warnings instead of %d", n, len(want))
	}
	return ""
}

func (t *truth) judge(w *data.Warnings) string {
	for tag, want := range t.byHandler {
		if !w.HasHandler(tag) {
			return fmt.Sprintf("handler %q is missing", tag)
		}
		if name, ok := t.name[tag]; ok && w.HandlerName(tag) != name {
			return fmt.Sprintf("handler %q is named %q instead of %q", tag, w.HandlerName(tag), name)
		}
		why := levelsOf(w.ForHandler(tag), want,
			func(in inst) string { return in.source + "|" + bareFn(in.fn) + "|" + instKey(in) },
			func(li liveInst) string { return li.Source() + "|" + li.Tag() + "|" + gotKey(li) })
		if why != "" {
			return fmt.Sprintf("handler %q: %s", tag, why)
		}
		a, ok := t.about[tag]
		if w.HasHandlerSummary(tag) != (ok && a.summary != "") {
			return fmt.Sprintf("handler %q: HasHandlerSummary is %v", tag, w.HasHandlerSummary(tag))
		}
		if ok {
			if a.summary != "" && w.HandlerSummaryHTML(tag) != markdown.TemplateHTML(a.summary, true) {
				return fmt.Sprintf("handler %q: summary is %q instead of %q", tag, w.HandlerSummaryHTML(tag), a.summary)
			}
			if !maps.Equal(w.HandlerLinks(tag), a.links) || w.HasHandlerLinks(tag) != (len(a.links) > 0) {
				return fmt.Sprintf("handler %q: links are %v instead of %v", tag, w.HandlerLinks(tag), a.links)
			}
		}
	}
	hts := w.HandlerTags()
	if len(hts) != len(t.byHandler) {
		return fmt.Sprintf("handlers %q instead of %d", hts, len(t.byHandler))
	}
	if !sortedBy(hts, w.HandlerName) {
		return fmt.Sprintf("handlers are not in order: %q", hts)
	}
	// The same by test and by warning.
	type count struct {
		by    map[data.HandlerTag]uint
		tests map[data.TestTag]bool
	}
	tests := map[data.TestTag]map[string]*warn{}
	warns := map[string]*count{}
	keyOf := map[data.TestTag]map[string]bool{}
	for tag, ws := range t.byHandler {
		for n, e := range ws {
			if warns[n] == nil {
				warns[n] = &count{map[data.HandlerTag]uint{}, map[data.TestTag]bool{}}
			}
			for _, in := range e.insts {
				tt := data.TestTag(in.source + "." + bareFn(in.fn))
				if tests[tt] == nil {
					tests[tt] = map[string]*warn{}
					keyOf[tt] = map[string]bool{}
				}
				if tests[tt][n] == nil {
					tests[tt][n] = &warn{level: e.level, name: n, summary: e.summary}
				}
				in.fn = tag.Name()
				tests[tt][n].insts = append(tests[tt][n].insts, in)
				warns[n].by[tag]++
				warns[n].tests[tt] = true
			}
		}
	}
	bySource := map[string]int{}
	for tt, want := range tests {
		if !w.HasTest(tt) {
			return fmt.Sprintf("test %q is missing", tt)
		}
		src, bare, _ := strings.Cut(string(tt), ".")
		if camelCase.MatchString(bare) {
			// A space before each capital but the first.
			if name := strings.TrimSpace(capital.ReplaceAllString(bare, " $0")); w.TestName(tt) != name {
				return fmt.Sprintf("test %q is named %q instead of %q", tt, w.TestName(tt), name)
			}
		} else if !strings.Contains(bare, ".") && strings.ReplaceAll(w.TestName(tt), " ", "") != strings.ReplaceAll(bare, " ", "") {
			return fmt.Sprintf("test %q is named %q", tt, w.TestName(tt))
		}
		bySource[src]++
		why := levelsOf(w.ForTest(tt), want,
			func(in inst) string { return in.fn + "|" + instKey(in) },
			func(li liveInst) string { return li.Name() + "|" + gotKey(li) })
		if why != "" {
			return fmt.Sprintf("test %q: %s", tt, why)
		}
	}
	if x, y := w.TestName("Verify.NoSuchTest"), w.HandlerName("NoSuchHandler"); x != "Verify.NoSuchTest" || y != "NoSuchHandler" {
		return fmt.Sprintf("a test and a handler that do not exist are named %q and %q", x, y)
	}
	if w.HasTest("Verify.NoSuchTest") || w.HasHandler("NoSuchHandler") || w.HasHandlerSummary("NoSuchHandler") || w.HasHandlerLinks("NoSuchHandler") ||
		len(w.HandlerLinks("NoSuchHandler")) > 0 || w.HandlerSummaryHTML("NoSuchHandler") != "" || w.ForTest("Verify.NoSuchTest") != nil || w.ForHandler("NoSuchHandler") != nil {
		return "there is something about a test or handler that does not exist"
	}
	tts := w.TestTags()
	if len(tts) != len(tests) || !sortedBy(tts, w.TestName) {
		return fmt.Sprintf("tests %q instead of %d, or out of order", tts, len(tests))
	}
	for _, src := range []string{"Bench", "Verify"} {
		list := w.TestTagsForSource(src)
		if len(list) != bySource[src] || !sortedBy(list, w.TestName) {
			return fmt.Sprintf("tests for source %s are %q instead of %d", src, list, bySource[src])
		}
		for _, tt := range list {
			if !strings.HasPrefix(string(tt), src+".") {
				return fmt.Sprintf("test %q is listed for source %s", tt, src)
			}
		}
	}
	for n, x := range warns {
		wd := w.FindWarning(n)
		if len(wd.Handlers()) != len(x.by) || len(wd.Tests()) != len(x.tests) || wd.HasHandlers() != (len(x.by) > 0) || wd.HasTests() != (len(x.tests) > 0) || !wd.HasUsage() {
			return fmt.Sprintf("warning %q: %d handlers and %d tests instead of %d and %d", n, len(wd.Handlers()), len(wd.Tests()), len(x.by), len(x.tests))
		}
		if !sortedBy(wd.Handlers(), data.HandlerTag.Name) || !sortedBy(wd.Tests(), data.TestTag.Name) {
			return fmt.Sprintf("warning %q: handlers or tests out of order", n)
		}
		for tag, k := range x.by {
			if wd.Count[tag] != k || w.HandlerWarningCount(tag, &warning.Warning{Name: n}) != k {
				return fmt.Sprintf("warning %q: counted %d times for handler %q instead of %d", n, wd.Count[tag], tag, k)
			}
		}
		for _, tt := range wd.Tests() {
			if !x.tests[tt] {
				return fmt.Sprintf("warning %q was not issued in test %q", n, tt)
			}
		}
	}
	if n := w.HandlerWarningCount("nobody", &warning.Warning{Name: "Nothing at all"}); n != 0 {
		return "a warning nobody issued has a count"
	}
	return ""
}

func quiet() func() {
	old := slog.Default()
	slog.SetDefault(slog.New(slog.NewTextHandler(nowhere{}, nil)))
	return func() { slog.SetDefault(old) }
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func warningsRoundTrip(c *kit.Ctx) {
	c.Rule("reports written by real warning managers from generated warnings (several levels, handlers, functions, texts of one or more lines, records), with handler summaries and test noise around them, for the benchmark and the verification suite; benchmark reports pass through the benchmark parser as the viewers do it; both parsed into one object in either order; distinct by text")
	defer quiet()()
	for i := 0; i < c.N(2500, 60000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("roundtrip", i)
		pool := genWarnings(r)
		lookup := map[string]data.HandlerTag{}
		var defs strings.Builder
		for k, n := range handlerNames {
			if r.IntN(5) > 0 {
				tag := data.HandlerTag(fmt.Sprintf("%sHandler%c", words[r.IntN(len(words))], 'A'+k))
				lookup[n] = tag
				fmt.Fprintf(&defs, "# Handler[%s]=\"%s\"\n", tag, n)
			}
		}
		bench := genRun(r, "Bench", "# ", "Benchmark", pool)
		verify := genRun(r, "Verify", "", "Test", pool)
		bText := defs.String() + bench.render(r, pool, "Benchmark")
		vText := verify.render(r, pool, "Test")
		w := data.NewWarnings()
		var lk map[string]data.HandlerTag
		var benchText []byte
		ok := true
		c.Guard("parse", func() any { return bText + vText }, func() {
			b := data.NewBenchmarks()
			if err := b.ParseBenchmarkData(&choppy{bText, r, nil}); err != nil {
				c.Violate("benchmark output is rejected: "+err.Error(), bText)
				ok = false
			}
			benchText = b.WarningText()
			lk = b.HandlerLookup()
			if !maps.Equal(lk, lookup) && len(lk)+len(lookup) > 0 {
				delete(lk, "X") // the handler of the sample line
				if !maps.Equal(lk, lookup) {
					c.Violate("the handler lookup is not what the output says", map[string]any{"got": lk, "want": lookup})
				}
			}
		})
		parse := func(text, source string) {
			c.Guard("ParseWarningData", func() any { return text }, func() {
				if err := w.ParseWarningData(&choppy{text, r, nil}, source, lk); err != nil {
					ok = false
					c.Violate("a report is rejected: "+err.Error(), text)
				}
			})
		}
		if r.IntN(3) > 0 {
			parse(string(benchText), "Bench")
			parse(vText, "Verify")
		} else {
			parse(vText, "Verify")
			parse(string(benchText), "Bench")
		}
		if !ok {
			continue
		}
		t := combine([]*run{bench, verify}, lookup)
		c.Guard("accessors", func() any { return bText + vText }, func() {
			if why := t.judge(w); why != "" {
				c.Violate("warning data: "+why, map[string]any{"case": i, "bench": clipped(bText), "verify": clipped(vText)})
			}
		})
		c.Eval(bText + vText)
		for _, ru := range []*run{bench, verify} {
			for _, h := range ru.handlers {
				if len(h.warns) == 0 {
					c.Count("handlers without warnings", 1)
				}
				for _, e := range h.warns {
					for _, in := range e.insts {
						c.Count("instances", 1)
						if in.record != "" {
							c.Count("instances with a record", 1)
						}
						if strings.Contains(wantParagraphs(in.text), " to ") {
							c.Count("texts that lead to a line of Go", 1)
						}
						if strings.Contains(in.text, "\n") {
							c.Count("instances with several lines of text", 1)
						}
					}
				}
			}
		}
		if i < 1 {
			c.Sample(clipped(bText + vText))
		}
	}
	// The recorded outputs of the repository, read by columns.
	if raw, err := os.ReadFile(repo() + "/docs/verify.txt"); err == nil {
		b := data.NewBenchmarks()
		var bt string
		if braw, err := os.ReadFile(repo() + "/docs/bench.txt"); err == nil {
			bt = string(braw)
			_ = b.ParseBenchmarkData(strings.NewReader(bt))
		}
		w := data.NewWarnings()
		_ = w.ParseWarningData(bytes.NewReader(b.WarningText()), "Bench", b.HandlerLookup())
		_ = w.ParseWarningData(bytes.NewReader(raw), "Verify", b.HandlerLookup())
		t := combine([]*run{recordedReport(string(b.WarningText()), "Bench"), recordedReport(string(raw), "Verify")}, b.HandlerLookup())
		n := 0
		for _, ws := range t.byHandler {
			for _, e := range ws {
				n += len(e.insts)
			}
		}
		t.about = nil
		if why := t.judgeRecorded(w); why != "" {
			c.Violate("recorded outputs: "+why, nil)
		}
		c.Count("instances in recorded outputs", n)
	}
	c.Need("instances", 5000)
	c.Need("handlers without warnings", 100)
	c.Need("texts that lead to a line of Go", 500)
	c.Need("instances with several lines of text", 500)
}

func clipped(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "..."
	}
	return s
}

// judgeRecorded leaves the summaries aside.
func (t *truth) judgeRecorded(w *data.Warnings) string {
	for tag := range t.byHandler {
		if w.HasHandlerSummary(tag) {
			if t.about == nil {
				t.about = map[data.HandlerTag]about{}
			}
		}
	}
	for tag, want := range t.byHandler {
		why := levelsOf(w.ForHandler(tag), want,
			func(in inst) string { return in.source + "|" + bareFn(in.fn) + "|" + instKey(in) },
			func(li liveInst) string { return li.Source() + "|" + li.Tag() + "|" + gotKey(li) })
		if why != "" {
			return fmt.Sprintf("handler %q: %s", tag, why)
		}
	}
	if len(w.HandlerTags()) != len(t.byHandler) {
		return fmt.Sprintf("%d handlers instead of %d", len(w.HandlerTags()), len(t.byHandler))
	}
	return ""
}

var countLine = regexp.MustCompile(`^ {2}[ \d]{3}\d+ \[`)

// recordedReport reads a report by its columns: level at 2, warning at 2 with a number, instance at 9, more at 11.
func recordedReport(text, source string) *run {
	ru := &run{source: source}
	var h *handlerReport
	var w *warn
	var level warning.Level
	for _, line := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(line, "Warnings for ") && strings.HasSuffix(line, ":"):
			h = &handlerReport{name: strings.TrimSuffix(strings.TrimPrefix(line, "Warnings for "), ":"), warns: map[string]*warn{}}
			ru.handlers = append(ru.handlers, h)
			w = nil
		case strings.TrimSpace(line) == "Handlers by warning:":
			return ru
		case h == nil || line == "" || line == "  None":
		case strings.HasPrefix(line, "           +"):
			in := &w.insts[len(w.insts)-1]
			in.text += "\n" + strings.TrimRight(strings.TrimPrefix(line, "           +"), " \t\r")
		case strings.HasPrefix(line, "           "):
			w.insts[len(w.insts)-1].record = strings.TrimSpace(line)
		case strings.HasPrefix(line, "         "):
			fn, text, _ := strings.Cut(strings.TrimLeft(line, " "), ": ")
			w.insts = append(w.insts, inst{source: source, fn: fn, text: strings.TrimSpace(text)})
		case countLine.MatchString(line):
			_, rest, _ := strings.Cut(line, "[")
			name, sum, _ := strings.Cut(rest, "]")
			w = &warn{level: level, name: name, summary: strings.TrimSpace(sum)}
			h.warns[name] = w
		default:
			if lv, err := warning.ParseLevel(strings.TrimSpace(line)); err == nil {
				level = lv
			}
		}
	}
	return ru
}
