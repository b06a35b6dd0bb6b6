package main

import (
	"fmt"
	"html/template"
	"maps"
	"math"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"sync"

	"encoding/xml"

	"golang.org/x/net/html"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// expectation of the lists, from the data set alone.
type lists struct {
	handlers [][2]string // tag, name: with results, by name
	tests    [][2]string // with results
	wHandler [][2]string // in the warnings
	verify   [][2]string // tests of the verification suite with warnings
	wTests   [][2]string // all tests with warnings
	byTest   map[data.TestTag]map[string]*warn
}

func (s *site) handlerName(h string) string {
	if n, ok := s.d.names[h]; ok {
		return n
	}
	return data.HandlerTag(h).Name()
}

func ordered(m map[string]string) [][2]string {
	var list [][2]string
	for k, v := range m {
		list = append(list, [2]string{k, v})
	}
	slices.SortFunc(list, func(a, b [2]string) int { return strings.Compare(a[1]+"\x00"+a[0], b[1]+"\x00"+b[0]) })
	return list
}

func (s *site) lists() *lists {
	l := &lists{byTest: map[data.TestTag]map[string]*warn{}}
	handlers, tests, wh, ver, wt := map[string]string{}, map[string]string{}, map[string]string{}, map[string]string{}, map[string]string{}
	for h, rows := range s.d.rows {
		handlers[h] = s.handlerName(h)
		for t := range rows {
			tt := data.TestTag("Bench." + t)
			tests[string(tt)] = tt.Name()
		}
	}
	for h, ws := range s.t.byHandler {
		wh[string(h)] = s.handlerName(string(h))
		for n, e := range ws {
			for _, in := range e.insts {
				tt := data.TestTag(in.source + "." + bareFn(in.fn))
				wt[string(tt)] = tt.Name()
				if in.source == "Verify" {
					ver[string(tt)] = tt.Name()
				}
				if l.byTest[tt] == nil {
					l.byTest[tt] = map[string]*warn{}
				}
				if l.byTest[tt][n] == nil {
					l.byTest[tt][n] = &warn{level: e.level, name: n, summary: e.summary}
				}
				in.source, in.fn = "", h.Name()
				l.byTest[tt][n].insts = append(l.byTest[tt][n].insts, in)
			}
		}
	}
	l.handlers, l.tests, l.wHandler, l.verify, l.wTests = ordered(handlers), ordered(tests), ordered(wh), ordered(ver), ordered(wt)
	return l
}

// sameTags compares two lists of tags and names: tags of the same name may change places.
func sameTags(got, want [][2]string) bool {
	if len(got) != len(want) || !slices.IsSortedFunc(got, func(a, b [2]string) int { return strings.Compare(a[1], b[1]) }) {
		return false
	}
	g := slices.Clone(got)
	slices.SortFunc(g, func(a, b [2]string) int { return strings.Compare(a[1]+"\x00"+a[0], b[1]+"\x00"+b[0]) })
	return slices.Equal(g, want)
}

func collapse(list [][2]string) [][2]string {
	out := make([][2]string, len(list))
	for i, x := range list {
		out[i] = [2]string{x[0], strings.Join(strings.FieldsFunc(x[1], blank), " ")}
	}
	return out
}

func (s *site) pages(c *kit.Ctx, seen map[string]reply) (bad []string) {
	l := s.lists()
	fail := func(path, f string, args ...any) { bad = append(bad, path+": "+fmt.Sprintf(f, args...)) }
	page := func(path string, fn func(doc *html.Node) string) {
		rep, ok := seen[path]
		if !ok || rep.status != 200 {
			return // reported already
		}
		if !strings.HasPrefix(rep.ctype, "text/html") {
			fail(path, "content type %q", rep.ctype)
			return
		}
		doc, err := html.Parse(strings.NewReader(rep.body))
		if err != nil {
			return
		}
		c.Count("pages compared", 1)
		why := toggles(doc)
		if why == "" {
			why = labels(doc)
		}
		if why == "" {
			why = s.linked(c, doc, l, path)
		}
		if why == "" {
			why = s.selects(doc, l, path)
		}
		if why == "" {
			why = footer(doc)
		}
		if home := path == "/go-slog/" || path == "/go-slog/index.html"; why == "" {
			up := false
			for _, a := range tagged(doc, "a", "") {
				up = up || attr(a, "href") == "/go-slog/index.html"
			}
			if up == home {
				why = fmt.Sprintf("a link to the home page: %v", up)
			}
		}
		if why == "" && fn != nil {
			why = fn(doc)
		}
		if why != "" {
			fail(path, "%s", why)
		}
		if len(find(doc, func(n *html.Node) bool { return attr(n, "id") == "zz" || attr(n, "src") == "zz" })) > 0 || len(tagged(doc, "script", "")) > 2 {
			fail(path, "text of a warning becomes markup")
		}
	}
	for _, p := range []string{"/go-slog/", "/go-slog/index.html"} {
		page(p, func(doc *html.Node) string { return s.homePage(doc, l) })
	}
	have := map[string]bool{}
	for _, list := range [][][2]string{l.handlers, l.wHandler} {
		for _, h := range list {
			if !have[h[0]] {
				have[h[0]] = true
				page(pathOf("handler", h[0]+".html"), func(doc *html.Node) string { return s.handlerPage(c, doc, h[0]) })
			}
		}
	}
	for _, list := range [][][2]string{l.tests, l.wTests} {
		for _, t := range list {
			if !have[t[0]] {
				have[t[0]] = true
				page(pathOf("test", t[0]+".html"), func(doc *html.Node) string { return s.testPage(c, doc, l, t) })
			}
		}
	}
	page("/go-slog/warnings.html", func(doc *html.Node) string { return s.warningsPage(c, doc, l) })
	page("/go-slog/guts.html", func(doc *html.Node) string { return s.gutsPage(doc, l) })
	for _, k := range realKeepers {
		page(pathOf("scores", k, "summary.html"), nil)
	}
	for n, want := range s.texts() {
		if want == "" {
			continue
		}
		p := pathOf("text", n, "display.html")
		if _, ok := seen[p]; !ok {
			fail(p, "no link leads to this file")
		}
		page(p, func(doc *html.Node) string {
			divs := tagged(doc, "div", "text")
			if len(divs) != 1 {
				return "no text"
			}
			if title(doc) != "Text File "+n {
				return fmt.Sprintf("the title %q", title(doc))
			}
			if sums := tagged(doc, "div", "text-summary"); len(sums) != 1 || text(sums[0]) == "" {
				return "no summary"
			}
			for k := divs[0].FirstChild; k != nil; k = k.NextSibling {
				if k.Type != html.TextNode {
					return "the text of the file becomes markup"
				}
			}
			// HTML knows neither carriage returns nor NUL.
			clean := func(t string) string {
				return strings.NewReplacer("\r\n", "\n", "\r", "\n", "\x00", "", "\ufffd", "").Replace(t)
			}
			if got := raw(divs[0]); clean(got) != clean(want) {
				return "the text is not that of the file: " + firstDiff(got, want)
			}
			return ""
		})
	}
	return bad
}

// toggles: every button names one element of the page, and that is the one which follows it.
func toggles(doc *html.Node) string {
	ids := map[string]int{}
	for _, n := range find(doc, func(n *html.Node) bool { return has(n, "id") }) {
		ids[attr(n, "id")]++
	}
	for _, b := range find(doc, func(n *html.Node) bool { return strings.HasPrefix(attr(n, "onclick"), "toggleTableRow('") }) {
		id, ok := jsString(strings.TrimSuffix(strings.TrimPrefix(attr(b, "onclick"), "toggleTableRow('"), "')"))
		if !ok {
			return fmt.Sprintf("the button %q cannot be read", attr(b, "onclick"))
		}
		if ids[id] != 1 {
			return fmt.Sprintf("%d elements with the id %q which a button toggles", ids[id], id)
		}
		row := b
		for row != nil && row.Data != "tr" {
			row = row.Parent
		}
		// The toggled row is one of the next two after that of the button: there may be a description in between.
		found := false
		for k, n := row.NextSibling, 0; k != nil && n < 2; k = k.NextSibling {
			if k.Type != html.ElementNode {
				continue
			}
			n++
			if attr(k, "id") == id {
				found = true
			}
		}
		if !found {
			return fmt.Sprintf("the button for %q toggles something elsewhere", id)
		}
	}
	return ""
}

func jsString(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 'u':
			if i+4 >= len(s) {
				return "", false
			}
			n, err := strconv.ParseUint(s[i+1:i+5], 16, 32)
			if err != nil {
				return "", false
			}
			b.WriteRune(rune(n))
			i += 4
		case 'x':
			if i+2 >= len(s) {
				return "", false
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 32)
			if err != nil {
				return "", false
			}
			b.WriteRune(rune(n))
			i += 2
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), true
}

// selects checks the drop-down lists in the header.
func (s *site) selects(doc *html.Node, l *lists, path string) string {
	sel := tagged(doc, "select", "")
	if len(sel) != 5 {
		return fmt.Sprintf("%d drop-down lists", len(sel))
	}
	want := [][][2]string{l.handlers, l.tests, l.verify}
	var ks [][2]string
	for _, k := range []string{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"} {
		ks = append(ks, [2]string{k, k})
	}
	current := ""
	for i, sl := range sel[:4] {
		var got [][2]string
		for n, o := range tagged(sl, "option", "") {
			if n == 0 {
				continue
			}
			got = append(got, [2]string{attr(o, "value"), text(o)})
			link := map[int]string{0: pathOf("handler", attr(o, "value")+".html"), 1: pathOf("test", attr(o, "value")+".html"), 2: pathOf("test", attr(o, "value")+".html"), 3: pathOf("scores", attr(o, "value"), "summary.html")}[i]
			if has(o, "selected") {
				current = link
				if link != path {
					return fmt.Sprintf("the selected entry is %s", link)
				}
			} else if link == path {
				return "this page is not selected in its list"
			}
		}
		if i == 3 {
			if !slices.Equal(got, ks) {
				return fmt.Sprintf("list of keepers %q", got)
			}
		} else if !sameTags(got, collapse(want[i])) {
			return fmt.Sprintf("drop-down list %d is %q instead of %q", i, got, want[i])
		}
	}
	var other []string
	for n, o := range tagged(sel[4], "option", "") {
		if n == 0 || has(o, "disabled") {
			continue
		}
		other = append(other, attr(o, "value"))
		link := "/go-slog/" + attr(o, "value")
		if has(o, "selected") {
			if link != path && path != "/go-slog/" {
				return fmt.Sprintf("the selected entry is %s", link)
			}
			current = link
		} else if link == path {
			return "this page is not selected in its list"
		}
	}
	_ = current
	wantOther := []string{"index.html", "warnings.html", "guts.html"}
	for _, f := range []struct{ n, t string }{{"bench.txt", s.bText}, {"verify.txt", s.vText}, {"tabular.txt", s.tab}} {
		if f.t != "" {
			wantOther = append(wantOther, "text/"+f.n+"/display.html")
		}
	}
	if !slices.Equal(other, wantOther) {
		return fmt.Sprintf("other pages %q instead of %q", other, wantOther)
	}
	return ""
}

func (s *site) homePage(doc *html.Node, l *lists) string {
	fs := tagged(doc, "fieldset", "")
	if len(fs) != 5 {
		return fmt.Sprintf("%d boxes", len(fs))
	}
	for i, w := range []struct {
		list [][2]string
		kind string
	}{{l.handlers, "handler"}, {l.tests, "test"}, {l.verify, "test"}} {
		var got, want [][2]string
		for _, a := range tagged(fs[i], "a", "") {
			got = append(got, [2]string{mustPath(attr(a, "href")), text(a)})
		}
		for _, x := range w.list {
			want = append(want, [2]string{"/go-slog/" + w.kind + "/" + x[0] + ".html", x[1]})
		}
		if !sameTags(got, collapse(want)) {
			return fmt.Sprintf("box %d lists %q instead of %q", i, got, want)
		}
	}
	var ks []string
	for _, a := range tagged(fs[3], "a", "") {
		if mustPath(attr(a, "href")) != "/go-slog/scores/"+text(a)+"/summary.html" {
			return "a keeper leads to " + attr(a, "href")
		}
		ks = append(ks, text(a))
	}
	if !slices.Equal(ks, realKeepers) {
		return fmt.Sprintf("keepers %q", ks)
	}
	other := map[string]string{"Warnings": "/go-slog/warnings.html", "Guts": "/go-slog/guts.html"}
	for n, t := range s.texts() {
		if t != "" {
			other[n] = "/go-slog/text/" + n + "/display.html"
		}
	}
	here, _ := url.Parse("http://x/go-slog/index.html")
	got := map[string]string{}
	for _, a := range tagged(fs[4], "a", "") {
		u, err := here.Parse(attr(a, "href"))
		if err != nil {
			return "a link to " + attr(a, "href")
		}
		got[text(a)] = u.Path
	}
	if !maps.Equal(got, other) {
		return fmt.Sprintf("the last box lists %q instead of %q", got, other)
	}
	return ""
}

// texts are the text files by name.
func (s *site) texts() map[string]string {
	return map[string]string{"bench.txt": s.bText, "verify.txt": s.vText, "tabular.txt": s.tab}
}

// spaced is text the way a browser shows it: white space as single blanks.
func spaced(t string) string { return strings.Join(strings.FieldsFunc(t, blank), " ") }

// plainText is the text of a piece of HTML.
func plainText(h template.HTML) string {
	n, err := html.Parse(strings.NewReader(string(h)))
	if err != nil {
		panic(err)
	}
	return raw(n)
}

func parentTable(n *html.Node) *html.Node {
	for n.Parent != nil && n.Data != "table" {
		n = n.Parent
	}
	return n
}

// labels: the label of a box to check names that box.
func labels(doc *html.Node) string {
	ids := map[string]*html.Node{}
	for _, n := range find(doc, func(n *html.Node) bool { return has(n, "id") }) {
		ids[attr(n, "id")] = n
	}
	for _, box := range find(doc, func(n *html.Node) bool { return n.Data == "input" && attr(n, "type") == "checkbox" }) {
		named := false
		ls := tagged(box.Parent, "label", "")
		for _, l := range ls {
			named = named || ids[attr(l, "for")] == box
		}
		if len(ls) > 0 && !named {
			return fmt.Sprintf("the label of the box %q belongs to %q", attr(box, "id"), attr(ls[0], "for"))
		}
	}
	return ""
}

// footer: every page ends with the time of the data and links to code and documentation.
func footer(doc *html.Node) string {
	feet := tagged(doc, "table", "footer")
	if len(feet) != 1 {
		return fmt.Sprintf("%d footers", len(feet))
	}
	if !strings.Contains(text(feet[0]), "generated NOW") {
		return "no time in the footer"
	}
	if n := len(tagged(feet[0], "a", "")); n != 2 {
		return fmt.Sprintf("%d links in the footer", n)
	}
	return ""
}

// links: a link to a handler, test, file or keeper leads to one that exists, and that to a handler bears its name.
func (s *site) linked(c *kit.Ctx, doc *html.Node, l *lists, path string) string {
	known := map[string]string{}
	for _, list := range [][][2]string{l.handlers, l.wHandler} {
		for _, h := range list {
			known["/go-slog/handler/"+h[0]+".html"] = h[1]
		}
	}
	for _, list := range [][][2]string{l.tests, l.wTests, l.verify} {
		for _, t := range list {
			known["/go-slog/test/"+t[0]+".html"] = t[1]
		}
	}
	for n, t := range s.texts() {
		if t != "" {
			known["/go-slog/text/"+n+"/display.html"] = n
		}
	}
	for _, k := range realKeepers {
		known["/go-slog/scores/"+k+"/summary.html"] = k
	}
	here, err := url.Parse("http://x" + path)
	if err != nil {
		return ""
	}
	for _, a := range tagged(doc, "a", "") {
		if strings.HasPrefix(attr(a, "href"), "#") {
			if len(find(doc, func(n *html.Node) bool {
				return "#"+attr(n, "id") == attr(a, "href") || "#"+attr(n, "name") == attr(a, "href")
			})) == 0 {
				return "a link to a place that does not exist: " + attr(a, "href")
			}
			continue
		}
		u, err := here.Parse(attr(a, "href"))
		if err != nil || u.Host != "x" {
			continue
		}
		f := strings.Split(u.Path, "/")
		if len(f) < 4 || f[1] != "go-slog" || !slices.Contains([]string{"handler", "test", "text", "scores"}, f[2]) {
			continue
		}
		name, ok := known[u.Path]
		if !ok {
			return fmt.Sprintf("a link %q to nothing known: %s", text(a), u.Path)
		}
		if f[2] == "handler" && text(a) != spaced(name) {
			return fmt.Sprintf("the link to %s is called %q", u.Path, text(a))
		}
		c.Count("named links compared", 1)
	}
	return ""
}

// unknown judges the answer to a request for something that does not exist.
func (s *site) unknown(path string, rep reply) string {
	p, err := url.PathUnescape(path)
	if err != nil {
		p = path
	}
	f := strings.Split(strings.TrimPrefix(p, "/"), "/")
	refused := func() string {
		if rep.status < 400 {
			return "is no refusal"
		}
		return ""
	}
	if len(f) < 3 {
		if p == "/go-slog/error.html" {
			return ""
		}
		return refused()
	}
	tag := strings.TrimSuffix(f[2], ".html")
	switch f[1] {
	case "chart":
		return refused()
	case "scores":
		if strings.HasSuffix(p, "/chart.svg") && !slices.Contains(realKeepers, tag) {
			return refused()
		}
		if strings.HasSuffix(p, "/chart.svg") && rep.status == 200 {
			// The size of a chart may be put right.
			_, err := drawing(rep.body)
			if err != nil {
				return "no chart: " + err.Error()
			}
		}
		if rep.body == "" {
			return "is empty"
		}
		return ""
	case "handler", "test":
		h, t := data.HandlerTag(tag), data.TestTag(tag)
		if f[1] == "handler" && (s.bench.HasHandler(h) || s.warns.HasHandler(h)) || f[1] == "test" && (s.bench.HasTest(t) || s.warns.HasTest(t)) {
			return ""
		}
	case "text":
		if s.texts()[tag] != "" {
			return ""
		}
	default:
		return refused()
	}
	return s.noResults(rep.body)
}

// noResults: the page of something unknown shows results of nothing.
func (s *site) noResults(body string) string {
	if strings.TrimSpace(body) == "" {
		return "an empty answer"
	}
	doc, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return err.Error()
	}
	for _, cls := range []string{"data", "warning", "instance", "charts"} {
		if len(tagged(doc, "table", cls)) > 0 {
			return "a table of " + cls
		}
	}
	if len(tagged(doc, "img", "chart")) > 0 {
		return "a chart"
	}
	for _, div := range tagged(doc, "div", "text") {
		for n, t := range s.texts() {
			if t := squeeze(t); len(t) > 20 && squeeze(raw(div)) == t {
				return "the text of " + n
			}
		}
	}
	return ""
}

func mustPath(href string) string {
	u, err := urlUnescape(href)
	if err != nil {
		return href
	}
	return u
}

func title(doc *html.Node) string {
	hs := tagged(doc, "h2", "home")
	if len(hs) != 1 {
		return ""
	}
	return text(hs[0])
}

func (s *site) record(rec data.TestRecord) []string {
	return []string{s.p.Sprintf("%d", rec.Runs), s.p.Sprintf("%.2f", rec.NanosPerOp), s.p.Sprintf("%d", rec.MemAllocsPerOp), s.p.Sprintf("%d", rec.MemBytesPerOp), s.p.Sprintf("%.2f", rec.MbPerSec)}
}

// dataTable compares the table of results with rows of name and record; want is by name.
func (s *site) dataTable(doc *html.Node, first string, want map[string][]data.TestRecord) string {
	var tables []*html.Node
	for _, t := range tagged(doc, "table", "data") {
		tables = append(tables, t)
	}
	if len(want) == 0 {
		if len(tables) > 0 {
			return "results of something without results"
		}
		return ""
	}
	if len(tables) != 1 {
		return fmt.Sprintf("%d tables of results", len(tables))
	}
	rows := texts(direct(tables[0]))
	if !slices.Equal(rows[0], []string{first, "Runs", "Ns/Op", "Allocs/Op", "Bytes/Op", "MB/Sec"}) {
		return fmt.Sprintf("columns %q", rows[0])
	}
	var got, exp []string
	for _, row := range rows[1:] {
		got = append(got, strings.Join(row, "|"))
	}
	for n, list := range want {
		for _, rec := range list {
			exp = append(exp, strings.Join(append([]string{strings.Join(strings.FieldsFunc(n, blank), " ")}, s.record(rec)...), "|"))
		}
	}
	slices.Sort(got)
	slices.Sort(exp)
	if !slices.Equal(got, exp) {
		return fmt.Sprintf("results %q instead of %q", got, exp)
	}
	return ""
}

func (s *site) handlerPage(c *kit.Ctx, doc *html.Node, tag string) string {
	if got, want := title(doc), "Handler "+strings.Join(strings.FieldsFunc(s.benchName(tag), blank), " "); got != want {
		return fmt.Sprintf("title %q instead of %q", got, want)
	}
	rows := map[string][]data.TestRecord{}
	for t, rec := range s.d.rows[tag] {
		n := data.TestTag("Bench." + t).Name()
		rows[n] = append(rows[n], rec)
	}
	if why := s.dataTable(doc, "Benchmark", rows); why != "" {
		return why
	}
	if why := charted(doc, tag, s.benchName(tag), len(rows) > 0); why != "" {
		return why
	}
	a := s.t.about[data.HandlerTag(tag)]
	sums := tagged(doc, "tr", "summary")
	if (a.summary != "") != (len(sums) == 1) {
		return fmt.Sprintf("%d summaries", len(sums))
	}
	if a.summary != "" {
		cells := tagged(sums[0], "td", "")
		want, _ := html.Parse(strings.NewReader(string(markdown.TemplateHTML(a.summary, true))))
		if squeeze(raw(cells[0])) != squeeze(raw(want)) {
			return fmt.Sprintf("summary %q instead of %q", raw(cells[0]), raw(want))
		}
		if len(a.links) == 0 && (len(cells) > 1 || strings.Contains(strings.Join(texts(direct(parentTable(sums[0])))[0], " "), "Links")) {
			return "a place for links without links"
		}
		links := map[string]string{}
		if len(cells) > 1 {
			for _, x := range tagged(cells[1], "a", "") {
				// The template escapes what may not stand in a URL as it is: both are compared as what they address.
				to := attr(x, "href")
				if plain, err := url.PathUnescape(to); err == nil {
					to = plain
				}
				links[text(x)] = to
			}
		}
		if !maps.Equal(links, a.links) && len(links)+len(a.links) > 0 {
			return fmt.Sprintf("links %q instead of %q", links, a.links)
		}
	}
	ws, ok := s.t.byHandler[data.HandlerTag(tag)]
	return warningSection(c, doc, ws, ok, func(in inst) string { return in.source + ": " + data.TestTag(in.source+"."+bareFn(in.fn)).Name() })
}

// benchName is the name on the page of a handler: known to the benchmarks or made of the tag.
func (s *site) benchName(tag string) string { return s.handlerName(tag) }

func charted(doc *html.Node, tag, name string, want bool) string {
	var got []string
	for _, img := range tagged(doc, "img", "chart") {
		got = append(got, mustPath(attr(img, "src")))
		if !strings.HasPrefix(spaced(attr(img, "alt")), spaced(name)+" ") {
			return fmt.Sprintf("a chart is called %q instead of %q", attr(img, "alt"), name)
		}
	}
	var exp []string
	if want {
		for _, it := range []data.BenchItems{data.Nanos, data.MemAllocs, data.MemBytes, data.GbPerSec} {
			exp = append(exp, "/go-slog/chart/"+tag+"/"+it.String()+".svg")
		}
	}
	if !slices.Equal(got, exp) {
		return fmt.Sprintf("charts %q instead of %q", got, exp)
	}
	return ""
}

func (s *site) testPage(c *kit.Ctx, doc *html.Node, l *lists, t [2]string) string {
	if got, want := title(doc), "Test "+t[1]; got != want {
		return fmt.Sprintf("title %q instead of %q", got, want)
	}
	rows := map[string][]data.TestRecord{}
	if bare, ok := strings.CutPrefix(t[0], "Bench."); ok {
		for h, list := range s.d.rows {
			if rec, ok := list[bare]; ok {
				n := s.handlerName(h)
				rows[n] = append(rows[n], rec)
			}
		}
	}
	if why := s.dataTable(doc, "Handler", rows); why != "" {
		return why
	}
	if why := charted(doc, t[0], t[1], len(rows) > 0); why != "" {
		return why
	}
	ws, ok := l.byTest[data.TestTag(t[0])]
	return warningSection(c, doc, ws, ok, func(in inst) string { return in.fn })
}

// warningSection compares the warnings on a page.
func warningSection(c *kit.Ctx, doc *html.Node, want map[string]*warn, there bool, name func(in inst) string) string {
	tables := tagged(doc, "table", "warning")
	if (len(tables) == 1) != there {
		return fmt.Sprintf("%d tables of warnings", len(tables))
	}
	if !there {
		return ""
	}
	level := ""
	var levels []string
	seen := map[string]bool{}
	var cur *warn
	inner := false
	docs, buttons := 0, 0
	for _, row := range direct(tables[0])[1:] {
		switch {
		case len(row) == 0:
		case class(row[0], "level"):
			level = text(row[0])
			levels = append(levels, level)
		case len(row) > 2 && class(row[1], "warning"):
			if cur != nil && !inner {
				return fmt.Sprintf("warning %q has no instances", cur.name)
			}
			n := text(row[1])
			cur, inner = nil, false
			for _, w := range want {
				if strings.Join(strings.FieldsFunc(w.name, blank), " ") == n {
					cur = w
				}
			}
			if cur == nil || cur.level.String() != level || seen[n] {
				return fmt.Sprintf("a warning %q at level %s", n, level)
			}
			seen[n] = true
			if text(row[2]) != strings.Join(strings.FieldsFunc(cur.summary, blank), " ") {
				return fmt.Sprintf("warning %q has the summary %q instead of %q", n, text(row[2]), cur.summary)
			}
			p := warning.ByName(cur.name)
			doc := p != nil && p.HasDescription()
			if (len(tagged(row[3], "button", "")) == 1) != doc {
				return fmt.Sprintf("the button for the description of %q", n)
			}
			if doc {
				buttons++
			}
		case len(row) > 1 && class(row[1], "description"):
			p := (*warning.Warning)(nil)
			if cur != nil {
				p = warning.ByName(cur.name)
			}
			if !p.HasDescription() || squeeze(raw(row[1])) != squeeze(plainText(p.Description())) {
				return fmt.Sprintf("the description %.200q", raw(row[1]))
			}
			docs++
		case len(row) > 1 && cur != nil:
			inner = true
			if why := instances(c, row[1], cur, name); why != "" {
				return fmt.Sprintf("warning %q: %s", cur.name, why)
			}
		default:
			return fmt.Sprintf("unexpected row %q", texts([][]*html.Node{row}))
		}
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("%d warnings instead of %d", len(seen), len(want))
	}
	if docs != buttons {
		return fmt.Sprintf("%d descriptions instead of %d", docs, buttons)
	}
	var order []string
	for _, l := range warning.LevelOrder {
		for _, w := range want {
			if w.level == l && !slices.Contains(order, l.String()) {
				order = append(order, l.String())
			}
		}
	}
	if !slices.Equal(levels, order) {
		return fmt.Sprintf("levels %q instead of %q", levels, order)
	}
	return ""
}

func instances(c *kit.Ctx, cell *html.Node, w *warn, name func(in inst) string) string {
	tables := tagged(cell, "table", "instance")
	if len(tables) != 1 {
		return "no instances"
	}
	var got, want []string
	var cur []string
	for _, row := range direct(tables[0]) {
		switch {
		case len(row) == 3 && class(row[0], "name"):
			buttons := len(tagged(row[2], "button", ""))
			cur = []string{text(row[0]), paragraphs(row[1]), fmt.Sprint(buttons)}
		case len(row) == 2 && class(row[1], "logLine") && cur != nil:
			for _, n := range find(row[1], func(n *html.Node) bool { return n != row[1] }) {
				if n.Data != "pre" {
					return fmt.Sprintf("the record of an instance has a %s element", n.Data)
				}
			}
			got = append(got, strings.Join(append(cur, squeeze(raw(row[1]))), "|"))
			cur = nil
		default:
			return fmt.Sprintf("unexpected row %q", texts([][]*html.Node{row}))
		}
	}
	for _, in := range w.insts {
		b := "0"
		if in.record != "" {
			b = "1"
		}
		want = append(want, strings.Join([]string{strings.Join(strings.FieldsFunc(name(in), blank), " "), wantParagraphs(in.text), b, squeeze(in.record)}, "|"))
	}
	c.Count("instances on pages", len(got))
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		for i := range got {
			if i >= len(want) || got[i] != want[i] {
				x := "nothing"
				if i < len(want) {
					x = want[i]
				}
				return fmt.Sprintf("%d instances instead of %d, first difference %.300q instead of %.300q", len(got), len(want), got[i], x)
			}
		}
		return fmt.Sprintf("%d instances instead of %d", len(got), len(want))
	}
	return ""
}

func (s *site) warningsPage(c *kit.Ctx, doc *html.Node, l *lists) string {
	// Who issued what, for the warnings that are defined in the repository.
	tables := tagged(doc, "table", "handler-v-warning")
	if len(tables) != 1 {
		return "no matrix"
	}
	rows := direct(tables[0])
	var heads []string
	for _, x := range rows[0][1:] {
		heads = append(heads, text(x))
	}
	var names []string
	for _, h := range l.wHandler {
		names = append(names, strings.Join(strings.FieldsFunc(h[1], blank), " "))
	}
	if !slices.Equal(heads, names) {
		return fmt.Sprintf("columns %q instead of %q", heads, names)
	}
	n := 0
	var levels []string
	shown := map[string]bool{}
	for _, row := range rows[1:] {
		if len(row) == 1 && class(row[0], "level") {
			levels = append(levels, text(row[0]))
			continue
		}
		if len(row) != 2+len(names) {
			return fmt.Sprintf("a row of %d cells", len(row))
		}
		name := text(row[1])
		shown[name] = true
		p := warning.ByName(name)
		if p == nil {
			return fmt.Sprintf("an unknown warning %q", name)
		}
		if len(levels) == 0 || p.Level.String() != levels[len(levels)-1] {
			return fmt.Sprintf("warning %q is under level %q", name, levels)
		}
		for i, h := range l.wHandler {
			count := 0
			if w := s.t.byHandler[data.HandlerTag(h[0])][name]; w != nil {
				count = len(w.insts)
			}
			want := ""
			if count > 0 {
				want = fmt.Sprint(count)
				n++
			}
			if got := text(row[2+i]); got != want {
				return fmt.Sprintf("warning %q and handler %q: %q instead of %q", name, h[1], got, want)
			}
		}
	}
	for _, p := range predefinedWarnings {
		if !shown[p.Name] {
			return fmt.Sprintf("warning %q is missing in the matrix", p.Name)
		}
	}
	c.Count("counts in the matrix of warnings", n)
	if why := predefinedList(c, doc); why != "" {
		return why
	}
	// The lists of users.
	for _, tr := range find(doc, func(n *html.Node) bool { return n.Data == "tr" && strings.HasSuffix(attr(n, "id"), "-who") }) {
		name := strings.TrimSuffix(attr(tr, "id"), "-who")
		divs := tagged(tr, "div", "list")
		if len(divs) != 2 {
			return fmt.Sprintf("usage of %q", name)
		}
		var hs, ts []string
		for h, ws := range s.t.byHandler {
			if w := ws[name]; w != nil {
				hs = append(hs, h.Name())
				for _, in := range w.insts {
					ts = append(ts, string(data.TestTag(in.source+"."+bareFn(in.fn))))
				}
			}
		}
		slices.Sort(ts)
		ts = slices.Compact(ts)
		for i := range ts {
			ts[i] = data.TestTag(ts[i]).Name()
		}
		slices.Sort(hs)
		slices.Sort(ts)
		if len(hs) == 0 {
			return fmt.Sprintf("a usage of %q which nobody issued", name)
		}
		var heads []string
		for _, th := range tagged(tr, "th", "") {
			heads = append(heads, text(th))
		}
		if !slices.Equal(heads, []string{"Handlers", "Tests"}) {
			return fmt.Sprintf("usage of %q under %q", name, heads)
		}
		for i, want := range [][]string{hs, ts} {
			got := lines(divs[i])
			if !slices.Equal(got, want) {
				return fmt.Sprintf("usage of %q: %q instead of %q", name, got, want)
			}
		}
	}
	for _, p := range predefinedWarnings {
		used := false
		for _, ws := range s.t.byHandler {
			used = used || ws[p.Name] != nil
		}
		id := len(find(doc, func(n *html.Node) bool { return attr(n, "id") == p.Name+"-who" }))
		if (id == 1) != used {
			return fmt.Sprintf("%d usages of %q", id, p.Name)
		}
	}
	return ""
}

// predefinedList compares the list of warnings with the definitions.
func predefinedList(c *kit.Ctx, doc *html.Node) string {
	tables := tagged(doc, "table", "warning")
	if len(tables) != 1 {
		return "no list of warnings"
	}
	var levels, names, wantLevels []string
	described := map[string]bool{}
	for _, row := range direct(tables[0]) {
		for i, cell := range row {
			switch {
			case class(cell, "level"):
				levels = append(levels, text(cell))
				names = append(names, "level "+text(cell))
			case class(cell, "warning"):
				n := text(cell)
				p := warning.ByName(n)
				if p == nil || len(levels) == 0 || p.Level.String() != levels[len(levels)-1] {
					return fmt.Sprintf("a warning %q at level %q", n, levels)
				}
				if i+1 == len(row) || !class(row[i+1], "extra") || text(row[i+1]) != spaced(p.Summary) {
					return fmt.Sprintf("no summary %q of %q", p.Summary, n)
				}
				names = append(names, n)
			case class(cell, "description"):
				if len(names) == 0 || described[names[len(names)-1]] {
					return "a description of nothing"
				}
				n := names[len(names)-1]
				p := warning.ByName(n)
				if p == nil || squeeze(raw(cell)) != squeeze(plainText(p.Description())) {
					return fmt.Sprintf("%q has the description %.200q", n, raw(cell))
				}
				described[n] = true
			}
		}
	}
	whole := squeeze(raw(tables[0]))
	for _, l := range warning.LevelOrder {
		wantLevels = append(wantLevels, l.String())
		if !strings.Contains(whole, squeeze(l.String()+plainText(l.Summary()))) {
			return "no summary of level " + l.String()
		}
	}
	if !slices.Equal(levels, wantLevels) {
		return fmt.Sprintf("levels %q", levels)
	}
	for _, p := range predefinedWarnings {
		if n := slices.Index(names, p.Name); n < 0 || slices.Contains(names[n+1:], p.Name) {
			return fmt.Sprintf("warning %q is not listed once", p.Name)
		}
		if p.HasDescription() != described[p.Name] {
			return fmt.Sprintf("the description of %q", p.Name)
		}
		c.Count("definitions of warnings compared", 1)
	}
	last := ""
	for _, n := range names {
		if strings.HasPrefix(n, "level ") {
			last = ""
			continue
		}
		if n <= last {
			return fmt.Sprintf("warning %q after %q", n, last)
		}
		last = n
	}
	return ""
}

// lines are the texts between line breaks.
func lines(n *html.Node) []string {
	var out []string
	cur := ""
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if k.Type == html.ElementNode && k.Data == "br" {
			out = append(out, strings.Join(strings.FieldsFunc(cur, blank), " "))
			cur = ""
		} else if k.Type == html.TextNode {
			cur += k.Data
		}
	}
	return out
}

func (s *site) gutsPage(doc *html.Node, l *lists) string {
	tables := tagged(doc, "table", "debug")
	if len(tables) != 4 {
		return fmt.Sprintf("%d tables", len(tables))
	}
	for i, want := range [][][2]string{l.handlers, l.tests, l.wHandler, l.wTests} {
		var got [][2]string
		for _, row := range texts(direct(tables[i]))[1:] {
			got = append(got, [2]string{row[0], row[1]})
		}
		if !sameTags(got, collapse(want)) {
			return fmt.Sprintf("table %d is %q instead of %q", i, got, want)
		}
	}
	return ""
}

// ---- scores

func near6(got string, show func(v float64) string, v float64) bool {
	return got == show(v) || got == show(v-1e-7) || got == show(v+1e-7)
}

func (s *site) scores(c *kit.Ctx, seen map[string]reply) (bad []string) {
	ui := map[string]uiWant{}
	defer func() {
		bad = append(bad, s.controls(c, seen, ui)...)
	}()
	large := []data.TestTag{"Bench.BigGroup", "Bench.Logging"}
	for _, keeper := range realKeepers {
		path := pathOf("scores", keeper, "summary.html")
		rep, ok := seen[path]
		if !ok || rep.status != 200 {
			continue
		}
		doc, err := html.Parse(strings.NewReader(rep.body))
		if err != nil {
			continue
		}
		lw := map[warning.Level]uint{warning.LevelRequired: 8, warning.LevelImplied: 4, warning.LevelSuggested: 2, warning.LevelAdmin: 1}
		bw := map[bench.Weight]uint{bench.Allocations: 1, bench.AllocBytes: 2, bench.Nanoseconds: 3}
		if keeper == "Simple" {
			lw = map[warning.Level]uint{warning.LevelRequired: 2, warning.LevelImplied: 1}
			bw = map[bench.Weight]uint{bench.Allocations: 1, bench.Nanoseconds: 2}
		}
		var axes [2]score.Axis
		axes[0], axes[1] = axis.NewWarnings(lw, ""), axis.NewBenchmarks(bw, "", nil)
		if keeper == "Size" {
			axes[0] = axis.NewBenchmarks(bw, "", &axis.BenchOptions{Name: "Large", IncludeTests: large})
			axes[1] = axis.NewBenchmarks(bw, "", &axis.BenchOptions{Name: "Small", ExcludeTests: large})
		}
		for _, a := range axes {
			if err := a.Setup(s.bench, s.warns); err != nil {
				bad = append(bad, "axis: "+err.Error())
				return
			}
		}
		var handlers []data.HandlerTag
		for _, h := range s.bench.HandlerTags() {
			if kept(keeper, s.bench.HandlerName(h)) {
				handlers = append(handlers, h)
			}
		}
		fail := func(f string, args ...any) { bad = append(bad, path+": "+fmt.Sprintf(f, args...)) }
		two := func(v float64) string { return s.p.Sprintf("%.*f", 2, v) }
		// rows gives the rows of a table, which are those of the handlers in order.
		rows := func(id string) [][]string {
			t := find(doc, func(n *html.Node) bool { return n.Data == "table" && attr(n, "id") == id })
			if len(t) != 1 {
				fail("%d tables %s", len(t), id)
				return nil
			}
			list := texts(direct(t[0]))
			if len(list) != len(handlers)+1 {
				fail("%s has %d rows instead of %d", id, len(list)-1, len(handlers))
				return nil
			}
			for i, h := range handlers {
				if list[i+1][0] != strings.Join(strings.FieldsFunc(s.bench.HandlerName(h), blank), " ") {
					fail("%s has %q in the row of %q", id, list[i+1][0], s.bench.HandlerName(h))
					return nil
				}
			}
			return list
		}
		if list := rows("score-table-scores"); list != nil {
			if got := list[0][1:]; len(got) != 2 || !strings.HasSuffix(got[0], axes[0].Name()) || !strings.HasSuffix(got[1], axes[1].Name()) {
				fail("axes %q", got)
			}
			for i, h := range handlers {
				for k, a := range axes {
					c.Count("score rows compared", 1)
					if !near6(list[i+1][k+1], two, float64(a.ScoreFor(h))) {
						fail("score %d of %s is %s instead of %v", k, h, list[i+1][k+1], a.ScoreFor(h))
					}
				}
			}
		}
		for k, a := range axes {
			which := "XY"[k : k+1]
			heads := map[string]score.Type{}
			for _, st := range score.List("Default", "ByTest", "ByData", "Original") {
				heads[st.ColHeader()] = st
			}
			tail := func(id string, list [][]string, first int, kinds []string) {
				if len(list[0]) != first+len(kinds) {
					fail("%s has %d columns instead of %d: %q", id, len(list[0]), first+len(kinds), list[0])
					return
				}
				for n, st := range score.List(kinds...) {
					if !strings.HasSuffix(list[0][first+n], st.ColHeader()) {
						fail("%s has the column %q instead of %q", id, list[0][first+n], st.ColHeader())
					}
					for i, h := range handlers {
						if !near6(list[i+1][first+n], two, float64(a.ScoreForType(h, st))) {
							fail("%s, %s of %s: %s instead of %v", id, st, h, list[i+1][first+n], a.ScoreForType(h, st))
						}
					}
				}
			}
			switch ax := a.(type) {
			case *axis.Benchmarks:
				var tests []data.TestTag
				for _, t := range s.bench.TestTags() {
					if ax.HasTest(t) { // C20 decides which tests these are
						tests = append(tests, t)
					}
				}
				for _, table := range []string{"details", "micros", "allocs", "bytes"} {
					id := "score-table-" + which + "-" + table
					list := rows(id)
					if list == nil {
						continue
					}
					kinds := []string{"Default", "ByData", "Original"}
					if table == "details" {
						kinds = []string{"Default", "ByTest", "ByData", "Original"}
					} else {
						kinds = []string{"Default", "ByData", "ByTest", "Original"}
					}
					if len(list[0]) != 1+len(tests)+len(kinds) {
						fail("%s has %d columns instead of %d: %q", id, len(list[0]), 1+len(tests)+len(kinds), list[0])
						continue
					}
					for n, t := range tests {
						if list[0][1+n] != t.Name() {
							fail("%s has the column %q instead of %q", id, list[0][1+n], t.Name())
						}
						for i, h := range handlers {
							rec, ok := s.bench.TestRecordsFor(h)[t]
							got, want := list[i+1][1+n], ""
							if !ok {
								if table != "details" && strings.ContainsAny(got, "0123456789") { // the score of nothing is open
									fail("%s, %s, %s: %s where there is no result", id, h, t, got)
								}
								c.Count("results which are missing on a score page", 1)
								continue
							}
							switch table {
							case "details":
								if v := float64(ax.ScoreForTest(h, t)); !near6(got, two, v) {
									want = two(v)
								}
							case "micros":
								if v := rec.NanosPerOp / 1000; !near6(got, func(v float64) string { return s.p.Sprintf("%.3f", v) }, v) {
									want = s.p.Sprintf("%.3f", v)
								}
							case "allocs":
								want = s.p.Sprintf("%d", rec.MemAllocsPerOp)
							case "bytes":
								want = s.p.Sprintf("%d", rec.MemBytesPerOp)
							}
							if want != "" && got != want {
								fail("%s, %s, %s: %s instead of %s", id, h, t, got, want)
							}
						}
					}
					tail(id, list, 1+len(tests), kinds)
				}
			case *axis.Warnings:
				for _, table := range []string{"details", "counts"} {
					id := "warn-table-" + which + "-" + table
					list := rows(id)
					if list == nil {
						continue
					}
					for n, lv := range warning.LevelOrder {
						if list[0][1+n] != lv.String() {
							fail("%s has the column %q", id, list[0][1+n])
						}
						for i, h := range handlers {
							got := list[i+1][1+n]
							if table == "details" {
								if v := float64(ax.ScoreForLevel(h, lv)); !near6(got, two, v) {
									fail("%s, %s, %s: %s instead of %v", id, h, lv, got, v)
								}
								continue
							}
							v := uint64(0)
							if ls := s.warns.ForHandler(h); ls != nil {
								v = ls.LevelCount(lv)
							}
							if got != s.p.Sprintf("%d", v) {
								fail("%s, %s, %s: %s instead of %d", id, h, lv, got, v)
							}
						}
					}
					tail(id, list, 1+len(warning.LevelOrder), []string{"Default", "ByData", "Original"})
				}
			}
		}
		for _, why := range s.scoreTexts(c, doc, keeper, axes) {
			fail("%s", why)
		}
		points := make([][2]float64, 0, len(handlers))
		for _, h := range handlers {
			points = append(points, [2]float64{float64(axes[0].ScoreFor(h)), float64(axes[1].ScoreFor(h))})
		}
		ui[path] = uiWant{keeper, chartSize(points)}
		// The charts.
		for size := 0; size < 4; size++ {
			rep, ok := seen[pathOf("scores", keeper, fmt.Sprint(size), "chart.svg")]
			if !ok {
				fail("the chart of size %d is not on the page", size)
				continue
			}
			if rep.status != 200 {
				continue
			}
			low := 25 * float64(size)
			want := map[string][2]float64{}
			for _, h := range handlers {
				x, y := float64(axes[0].ScoreFor(h)), float64(axes[1].ScoreFor(h))
				if math.IsNaN(x) || math.IsNaN(y) {
					want = nil
					break
				}
				if x >= low-1e-9 && x <= low+1e-9 && low > 0 || y >= low-1e-9 && y <= low+1e-9 && low > 0 || y <= 0.0001 {
					want = nil // on the edge: not decided here
					break
				}
				if x >= low && y >= low {
					want[s.bench.HandlerName(h)] = [2]float64{x, y}
				}
			}
			if want == nil {
				continue
			}
			if why := scoreChart(c, rep.body, want); why != "" {
				fail("chart of size %d: %s", size, why)
			}
		}
	}
	return bad
}

var keepersOnce sync.Once

// scoreTexts compares what the page says about its keeper with what the keeper says.
func (s *site) scoreTexts(c *kit.Ctx, doc *html.Node, name string, axes [2]score.Axis) (bad []string) {
	keepersOnce.Do(func() {
		if err := scoring.Setup(s.bench, s.warns); err != nil {
			panic(err)
		}
	})
	k := score.GetKeeper(score.KeeperTag(name))
	if k == nil {
		return []string{"there is no such keeper"}
	}
	words := func(h template.HTML) string { return squeeze(plainText(h)) }
	// Everything but the tables before it, in the order of the page.
	whole := squeeze(raw(doc))
	at := 0
	next := func(what, want string) {
		c.Count("texts of keepers compared", 1)
		if n := strings.Index(whole[at:], want); n < 0 {
			bad = append(bad, fmt.Sprintf("the page does not show the %s: %.100q", what, want))
		} else {
			at += n + len(want)
		}
	}
	next("title", words(k.ChartTitle()))
	at = max(at, strings.Index(whole, "ScoreVisualization"))
	next("caption of the chart", words(k.ChartCaption()))
	next("overview", words(k.Overview()))
	next("name", "ScoreKeeper:"+squeeze(k.Name()))
	next("summary", words(k.Summary()))
	for i, which := range []string{"X", "Y"} {
		ax := k.Axes()[which]
		next("name of axis "+which, which+"Axis:"+squeeze(axes[i].Name()))
		next("summary of axis "+which, words(ax.Summary()))
		next("documentation of axis "+which, words(ax.Documentation()))
		// The exhibits of the axis follow: those of an axis with the same data.
		for _, ex := range axes[i].Exhibits() {
			switch x := ex.(type) {
			case *exhibit.Table:
				t := words(x.Caption()) + squeeze(strings.Join(x.Columns(), ""))
				for _, row := range x.Rows() {
					t += squeeze(strings.Join(row, ""))
				}
				next("table of weights of axis "+which, t)
			case *exhibit.List:
				next("list of tests of axis "+which, words(x.Caption())+squeeze(strings.Join(x.Items(), "")))
			}
		}
	}
	return bad
}

// kept tells which handlers a keeper compares.
func kept(keeper, name string) bool {
	kind := ""
	switch {
	case name == "madkins/replattr":
		kind = "replattr"
	case name == "snqk/meld" || strings.HasPrefix(name, "veqryn/dedup/"):
		kind = "dedup"
	}
	switch keeper {
	case "+Dedup":
		return kind == "dedup" || name == "slog/JSONHandler"
	case "+ReplAttr":
		return kind == "replattr" || name == "madkins/flash"
	}
	return kind == ""
}

// ---- charts

// mark is one element of a drawing.
type mark struct {
	kind string // text, path, circle
	text string
	fill string
	pts  [][2]float64
}

func drawing(svg string) ([]mark, error) {
	dec := xml.NewDecoder(strings.NewReader(svg))
	var out []mark
	in := false
	for {
		tok, err := dec.Token()
		if err != nil {
			if err.Error() == "EOF" {
				return out, nil
			}
			return nil, err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			m := mark{kind: t.Name.Local}
			get := func(k string) string {
				for _, a := range t.Attr {
					if a.Name.Local == k {
						return a.Value
					}
				}
				return ""
			}
			num := func(k string) float64 { f, _ := strconv.ParseFloat(get(k), 64); return f }
			for _, st := range strings.Split(get("style"), ";") {
				if f, ok := strings.CutPrefix(st, "fill:"); ok {
					m.fill = f
				}
			}
			switch m.kind {
			case "text":
				m.pts = [][2]float64{{num("x"), num("y")}}
				in = true
			case "circle":
				m.pts = [][2]float64{{num("cx"), num("cy")}}
			case "path":
				f := strings.Fields(get("d"))
				for i := 0; i+2 < len(f)+0; i++ {
					if f[i] == "M" || f[i] == "L" {
						x, e1 := strconv.ParseFloat(f[i+1], 64)
						y, e2 := strconv.ParseFloat(f[i+2], 64)
						if e1 != nil || e2 != nil {
							return nil, fmt.Errorf("path %q", get("d"))
						}
						m.pts = append(m.pts, [2]float64{x, y})
					}
				}
			default:
				continue
			}
			out = append(out, m)
		case xml.EndElement:
			in = false
		case xml.CharData:
			if in && len(out) > 0 {
				out[len(out)-1].text += string(t)
			}
		}
	}
}

const barFill = "rgba(84,112,198,1.0)"

// barChart compares a bar chart with the records.
func (s *site) barChart(c *kit.Ctx, svg, tag string, test bool, item data.BenchItems) string {
	marks, err := drawing(svg)
	if err != nil {
		return "not well-formed: " + err.Error()
	}
	var labels []string
	var values []float64
	if test {
		recs := s.bench.HandlerRecordsFor(data.TestTag(tag))
		for _, h := range s.bench.HandlerTags() {
			if rec, ok := recs[h]; ok {
				labels = append(labels, s.bench.HandlerName(h))
				values = append(values, rec.ItemValue(item))
			}
		}
	} else {
		recs := s.bench.TestRecordsFor(data.HandlerTag(tag))
		for _, t := range s.bench.TestTags() {
			if rec, ok := recs[t]; ok {
				labels = append(labels, s.bench.TestName(t))
				values = append(values, rec.ItemValue(item))
			}
		}
	}
	var words []string
	var bars [][4]float64 // top, bottom, left, right
	for _, m := range marks {
		if m.kind == "text" {
			words = append(words, m.text)
		}
		if m.kind == "path" && m.fill == barFill && len(m.pts) >= 4 {
			b := [4]float64{math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)}
			for _, p := range m.pts {
				b[0], b[1], b[2], b[3] = min(b[0], p[1]), max(b[1], p[1]), min(b[2], p[0]), max(b[3], p[0])
			}
			bars = append(bars, b)
		}
	}
	if len(words) < 1+len(labels) || words[0] != item.LongName() {
		return fmt.Sprintf("texts %q", words)
	}
	if !slices.Equal(words[1:1+len(labels)], labels) {
		return fmt.Sprintf("labels %q instead of %q", words[1:1+len(labels)], labels)
	}
	if len(bars) != len(values) {
		return fmt.Sprintf("%d bars instead of %d", len(bars), len(values))
	}
	slices.SortFunc(bars, func(a, b [4]float64) int { return int(a[0] - b[0]) })
	lo, hi := 0, 0
	for i, v := range values {
		c.Count("bars compared", 1)
		if v < values[lo] {
			lo = i
		}
		if v > values[hi] {
			hi = i
		}
	}
	w := func(i int) float64 { return bars[i][3] - bars[i][2] }
	if len(values) == 0 || values[lo] == values[hi] {
		for i := range values {
			if w(i) != w(0) {
				return "bars of equal values differ"
			}
		}
		return ""
	}
	// Widths are an affine function of the values, up to rounding to pixels.
	for i, v := range values {
		want := w(lo) + (w(hi)-w(lo))*(v-values[lo])/(values[hi]-values[lo])
		if math.Abs(w(i)-want) > 2.5 {
			return fmt.Sprintf("the bar of %q (%v) is %v wide instead of %v (%v to %v)", labels[i], v, w(i), want, values[lo], values[hi])
		}
	}
	if w(hi)-w(lo) < 3 && values[hi] > 2*values[lo] && values[hi] >= 10 {
		return "the bars do not show the values"
	}
	return ""
}

// scoreChart compares a chart of scores with the scores of the handlers that are within.
func scoreChart(c *kit.Ctx, svg string, want map[string][2]float64) string {
	marks, err := drawing(svg)
	if err != nil {
		return "not well-formed: " + err.Error()
	}
	// The ticks: a short line, then its number.
	var xt, yt [][2]float64 // value, pixel
	for i := 0; i+1 < len(marks); i++ {
		m, n := marks[i], marks[i+1]
		if m.kind != "path" || n.kind != "text" || len(m.pts) != 2 {
			continue
		}
		v, err := strconv.ParseFloat(n.text, 64)
		if err != nil {
			continue
		}
		a, b := m.pts[0], m.pts[1]
		if math.Abs(a[0]) > 1e6 || math.Abs(a[1]) > 1e6 {
			continue // the library draws the second axis, which is not in use, far away
		}
		switch {
		case a[0] == b[0] && math.Abs(a[1]-b[1]) <= 10:
			xt = append(xt, [2]float64{v, a[0]})
		case a[1] == b[1] && math.Abs(a[0]-b[0]) <= 10:
			yt = append(yt, [2]float64{v, a[1]})
		}
	}
	if len(xt) < 2 || len(yt) < 2 {
		return fmt.Sprintf("%d and %d ticks", len(xt), len(yt))
	}
	at := func(t [][2]float64, v float64) float64 {
		a, b := t[0], t[len(t)-1]
		return a[1] + (b[1]-a[1])*(v-a[0])/(b[0]-a[0])
	}
	for _, list := range [][][2]float64{xt, yt} {
		for _, x := range list {
			if math.Abs(at(list, x[0])-x[1]) > 1.6 {
				return fmt.Sprintf("the tick %v is out of place: %v", x, list)
			}
		}
	}
	var dots [][2]float64
	anchors := map[string][][2]float64{}
	for i, m := range marks {
		if m.kind == "circle" {
			dots = append(dots, m.pts[0])
		}
		if m.kind == "text" && i > 0 && marks[i-1].kind == "path" && len(marks[i-1].pts) >= 5 {
			anchors[m.text] = append(anchors[m.text], marks[i-1].pts[0])
		}
	}
	if len(dots) != len(want) {
		return fmt.Sprintf("%d dots instead of %d", len(dots), len(want))
	}
	for name, xy := range want {
		c.Count("dots compared", 1)
		px, py := at(xt, xy[0]), at(yt, xy[1])
		near := func(p [2]float64) bool { return math.Abs(p[0]-px) <= 2 && math.Abs(p[1]-py) <= 2 }
		if !slices.ContainsFunc(dots, near) {
			return fmt.Sprintf("no dot for %q at %v (%.1f, %.1f), only %v", name, xy, px, py, dots)
		}
		// A line leads from the dot to the label.
		ok := false
		for _, an := range anchors[name] {
			for _, m := range marks {
				if m.kind == "path" && len(m.pts) == 2 && near(m.pts[0]) && math.Abs(m.pts[1][0]-an[0]) <= 1.5 && math.Abs(m.pts[1][1]-an[1]) <= 1.5 {
					ok = true
				}
			}
		}
		if !ok {
			return fmt.Sprintf("no line from the dot of %q to its label (%v)", name, anchors[name])
		}
	}
	return ""
}
