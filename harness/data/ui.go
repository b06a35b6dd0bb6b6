package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os/exec"
	"slices"
	"strings"

	"golang.org/x/net/html"

	"github.com/madkins23/go-slog/internal/zverif/kit"

	"github.com/madkins23/go-slog/internal/scoring/score"
)

// The pages have parts which are hidden until a button or box is used, and lists which lead to other pages.
// They are loaded into a small model of a browser, which runs the scripts the server sent along with the page,
// uses each control in a fresh copy of the page, and reports which elements are shown then.

// uiScript is run by node.
const uiScript = `
const vm = require('vm');
const pages = JSON.parse(require('fs').readFileSync(0));
class Unsupported extends Error {}
function guard(o) { // what the model does not know is no error of the page
	return new Proxy(o, {
		get(t, k) { if (typeof k === 'symbol' || k in t) return t[k]; throw new Unsupported(String(k)); },
		set(t, k, v) { t[k] = v; return true; }
	});
}
function load(p) {
	const els = p.elements.map(e => {
		const style = {};
		for (const part of (e.style || '').split(';')) {
			const at = part.indexOf(':');
			if (at > 0) style[part.slice(0, at).trim()] = part.slice(at + 1).trim();
		}
		if (style.display === undefined) style.display = '';
		return {id: e.id, className: e.class, style, disabled: e.disabled, hidden: e.hidden, checked: e.checked, tagName: e.tag.toUpperCase(), type: e.type, value: e.value, name: e.name, onclick: e.onclick};
	});
	let ready = 0;
	const known = () => els.slice(0, ready);
	const document = guard({
		getElementById: id => { const e = known().find(e => e.id === id); return e ? guard(e) : null; },
		getElementsByClassName: c => known().filter(e => e.className.split(/\s+/).includes(c)).map(guard),
		getElementsByTagName: t => known().filter(e => e.tagName === t.toUpperCase()).map(guard),
	});
	const location = {href: ''};
	const ctx = vm.createContext({document, location, console: {log() {}, warn() {}, error() {}}});
	ctx.window = ctx;
	for (const s of p.scripts) {
		ready = s.at;
		vm.runInContext(s.text, ctx, {timeout: 5000});
	}
	ready = els.length;
	return {els, ctx, location};
}
function state(page) { return page.els.map(e => (e.style.display !== 'none' && !e.hidden ? 1 : 0) + (e.disabled ? 2 : 0)).join(''); }
function use(page, i) {
	const e = page.els[i];
	if (e.disabled) return false;
	if (e.tagName === 'INPUT' && e.type === 'checkbox') e.checked = !e.checked;
	page.ctx.self_ = guard(e);
	vm.runInContext('(function() {' + e.onclick + '\n}).call(self_)', page.ctx, {timeout: 5000});
	return true;
}
const out = [];
for (const p of pages) {
	const r = {path: p.path, start: '', controls: [], pairs: [], jumps: []};
	out.push(r);
	try {
		r.start = state(load(p));
		for (const i of p.controls) {
			const c = {at: i, after: '', twice: ''};
			r.controls.push(c);
			const one = load(p);
			if (!use(one, i)) continue;
			c.after = state(one);
			if (use(one, i)) c.twice = state(one);
		}
		// Controls of a group which exclude each other: what was used before does not matter.
		const excl = r.controls.filter(c => c.twice === '');
		for (const a of excl) for (const b of excl) {
			if (a === b || a.after === '' || p.elements[a.at].group !== p.elements[b.at].group) continue;
			const two = load(p);
			use(two, a.at);
			r.pairs.push({a: a.at, b: b.at, after: use(two, b.at) ? state(two) : ''});
		}
		const page = load(p);
		for (const j of p.jumps) {
			page.location.href = page.ctx.location.href = '';
			page.ctx.self_ = guard({form: guard({tag: guard({value: j.value})}), value: j.value});
			vm.runInContext('(function() {' + j.code + '\n}).call(self_)', page.ctx, {timeout: 5000});
			r.jumps.push(page.location.href || page.ctx.location.href || '');
		}
	} catch (e) {
		if (e instanceof Unsupported) r.unsupported = e.message; else r.error = String(e && e.stack || e).slice(0, 600);
	}
}
process.stdout.write(JSON.stringify(out));
`

type uiElement struct {
	Tag      string `json:"tag"`
	Id       string `json:"id"`
	Class    string `json:"class"`
	Style    string `json:"style"`
	Type     string `json:"type"`
	Name     string `json:"name"`
	Value    string `json:"value"`
	Hidden   bool   `json:"hidden"`
	Disabled bool   `json:"disabled"`
	Checked  bool   `json:"checked"`
	Onclick  string `json:"onclick"`
	Group    int    `json:"group"` // the table it is in

	node   *html.Node
	parent int
}

type uiScriptText struct {
	At   int    `json:"at"`
	Text string `json:"text"`
}

type uiJump struct {
	Code  string `json:"code"`
	Value string `json:"value"`
	list  int
}

type uiPage struct {
	Path     string         `json:"path"`
	Elements []uiElement    `json:"elements"`
	Scripts  []uiScriptText `json:"scripts"`
	Controls []int          `json:"controls"`
	Jumps    []uiJump       `json:"jumps"`
}

type uiResult struct {
	Path     string
	Start    string
	Controls []struct {
		At           int
		After, Twice string
	}
	Pairs []struct {
		A, B  int
		After string
	}
	Jumps       []string
	Unsupported string
	Error       string
}

func uiLoad(path string, doc *html.Node, script func(src string) (string, bool)) (*uiPage, bool) {
	p := &uiPage{Path: path, Elements: []uiElement{}, Scripts: []uiScriptText{}, Controls: []int{}, Jumps: []uiJump{}}
	ok := true
	lists := 0
	var walk func(n *html.Node, parent, table int)
	walk = func(n *html.Node, parent, table int) {
		if n.Type == html.ElementNode {
			at := len(p.Elements)
			p.Elements = append(p.Elements, uiElement{
				Tag: n.Data, Id: attr(n, "id"), Class: attr(n, "class"), Style: attr(n, "style"), Type: attr(n, "type"), Name: attr(n, "name"), Value: attr(n, "value"),
				Hidden: has(n, "hidden"), Disabled: has(n, "disabled"), Checked: has(n, "checked"), Onclick: attr(n, "onclick"), Group: table, node: n, parent: parent,
			})
			if n.Data != "select" && has(n, "onclick") {
				p.Controls = append(p.Controls, at)
			}
			if n.Data == "select" && has(n, "onchange") {
				opts := tagged(n, "option", "")
				for k, o := range opts {
					// All but a few of long lists are alike.
					if has(o, "disabled") || k > 6 && k < len(opts)-2 {
						continue
					}
					p.Jumps = append(p.Jumps, uiJump{attr(n, "onchange"), attr(o, "value"), lists})
				}
				lists++
			}
			if n.Data == "script" {
				text := raw(n)
				if has(n, "src") {
					var found bool
					if text, found = script(attr(n, "src")); !found {
						ok = false
					}
				}
				p.Scripts = append(p.Scripts, uiScriptText{len(p.Elements), text})
			}
			parent = at
			if n.Data == "table" {
				table = at
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k, parent, table)
		}
	}
	walk(doc, -1, -1)
	return p, ok
}

// shown: is the element and all it is in shown in this state?
func (p *uiPage) shown(state string, at int) bool {
	for ; at >= 0; at = p.Elements[at].parent {
		if !p.own(state, at) {
			return false
		}
	}
	return true
}

func (p *uiPage) own(state string, at int) bool { return (state[at]-'0')&1 == 1 }

func (p *uiPage) inside(at, in int) bool {
	for ; at >= 0; at = p.Elements[at].parent {
		if at == in {
			return true
		}
	}
	return false
}

// changes gives the elements which are shown only before or only after.
func (p *uiPage) changes(a, b string) (on, off []int) {
	for i := range p.Elements {
		if x, y := p.own(a, i), p.own(b, i); x != y {
			if y {
				on = append(on, i)
			} else {
				off = append(off, i)
			}
		}
	}
	return
}

func (p *uiPage) what(at int) string {
	e := p.Elements[at]
	return fmt.Sprintf("%s %q (id %q, %q)", e.Tag, text(e.node), e.Id, e.Onclick)
}

// uiWant is what is known about a page with scores.
type uiWant struct {
	keeper string
	size   int // of the chart shown first, -1 if not decided
}

// controls uses all controls of the pages and gives what is wrong.
func (s *site) controls(c *kit.Ctx, seen map[string]reply, want map[string]uiWant) (bad []string) {
	node, err := exec.LookPath("node")
	if err != nil {
		c.Count("no node to run scripts", 1)
		return nil
	}
	script := func(src string) (string, bool) {
		rep, ok := seen[src]
		return rep.body, ok && rep.status == 200
	}
	var paths []string
	for path, rep := range seen {
		if rep.status == 200 && strings.HasPrefix(rep.ctype, "text/html") && strings.HasPrefix(path, "/go-slog/") {
			paths = append(paths, path)
		}
	}
	slices.Sort(paths)
	var pages []*uiPage
	for _, path := range paths {
		doc, err := html.Parse(strings.NewReader(seen[path].body))
		if err != nil {
			continue
		}
		p, ok := uiLoad(path, doc, script)
		if !ok {
			bad = append(bad, path+": a script of the page does not exist")
			continue
		}
		if most := 1 + 4_000_000/(1+len(p.Elements)); len(p.Controls) > most {
			p.Controls = slices.Concat(p.Controls[:most/2], p.Controls[len(p.Controls)-most/2:])
		}
		pages = append(pages, p)
	}
	in, err := json.Marshal(pages)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(node, "-e", uiScript)
	cmd.Stdin = bytes.NewReader(in)
	var errs bytes.Buffer
	cmd.Stderr = &errs
	raw, err := cmd.Output()
	var results []uiResult
	if err == nil {
		err = json.Unmarshal(raw, &results)
	}
	if err != nil || len(results) != len(pages) {
		c.Count("node cannot run scripts", 1)
		return bad
	}
	for i, r := range results {
		p := pages[i]
		fail := func(f string, args ...any) { bad = append(bad, p.Path+": "+fmt.Sprintf(f, args...)) }
		if r.Unsupported != "" {
			c.Count("pages with scripts beyond the model", 1)
			continue
		}
		if r.Error != "" {
			fail("a script of the page fails: %s", r.Error)
			continue
		}
		c.Count("pages with scripts run", 1)
		why := p.judge(c, &r)
		if w, ok := want[p.Path]; ok && why == "" {
			why = p.judgeScores(c, &r, w)
		}
		if why == "" {
			why = p.judgeJumps(c, &r, seen)
		}
		if why != "" {
			fail("%s", why)
		}
	}
	return bad
}

func (p *uiPage) judge(c *kit.Ctx, r *uiResult) string {
	after := map[int]string{}
	reached := map[int]bool{}
	for _, u := range r.Controls {
		after[u.At] = u.After
		if u.After == "" {
			after[u.At] = r.Start // what it shows is shown already
			continue
		}
		c.Count("controls used", 1)
		if u.After == r.Start {
			return "does nothing: " + p.what(u.At)
		}
		if u.Twice != "" && u.Twice != r.Start {
			return "used twice it does not take back what it did: " + p.what(u.At)
		}
		on, off := p.changes(r.Start, u.After)
		for _, i := range on {
			reached[i] = true
		}
		// Buttons in the rows of tables show the row below.
		if e := p.Elements[u.At]; e.Tag == "button" && u.Twice != "" {
			if len(on)+len(off) != 1 {
				return fmt.Sprintf("%d elements change with %s", len(on)+len(off), p.what(u.At))
			}
			if el := p.Elements[append(on, off...)[0]]; el.Tag == "tr" {
				row := e.node
				for row != nil && row.Data != "tr" {
					row = row.Parent
				}
				found, n := false, 0
				for k := row.NextSibling; k != nil && n < 2; k = k.NextSibling {
					if k.Type == html.ElementNode {
						n++
						found = found || k == el.node
					}
				}
				if !found {
					return "shows a row elsewhere: " + p.what(u.At)
				}
			}
		}
	}
	for _, u := range r.Pairs {
		if u.After == "" {
			return fmt.Sprintf("cannot be used after %s: %s", p.what(u.A), p.what(u.B))
		}
		if u.After != after[u.B] {
			return fmt.Sprintf("does something else after %s: %s", p.what(u.A), p.what(u.B))
		}
	}
	if len(r.Controls) > 0 && len(r.Controls) == len(tagged2(p, "onclick")) {
		for i, e := range p.Elements {
			if !p.own(r.Start, i) && !reached[i] && e.Tag != "option" && text(e.node) != "" {
				return fmt.Sprintf("nothing on the page shows this: <%s id=%q class=%q> %.100s", e.Tag, e.Id, e.Class, text(e.node))
			}
		}
	}
	return ""
}

func tagged2(p *uiPage, key string) (out []int) {
	for i, e := range p.Elements {
		if e.Tag != "select" && has(e.node, key) {
			out = append(out, i)
		}
	}
	return
}

func (p *uiPage) byId(id string) int {
	return slices.IndexFunc(p.Elements, func(e uiElement) bool { return e.Id == id })
}

func (p *uiPage) judgeScores(c *kit.Ctx, r *uiResult, w uiWant) string {
	after := map[int]string{}
	twice := map[int]bool{}
	for _, u := range r.Controls {
		after[u.At] = u.After
		if u.After == "" {
			after[u.At] = r.Start
		}
		twice[u.At] = u.Twice != ""
	}
	// The tables of an axis.
	tables := map[string][]int{}
	for i, e := range p.Elements {
		if f := strings.Split(e.Id, "-"); e.Tag == "table" && len(f) == 4 && f[1] == "table" && (f[2] == "X" || f[2] == "Y") {
			tables[f[2]] = append(tables[f[2]], i)
		}
	}
	main := p.byId("score-table-scores")
	if main < 0 || len(tables["X"]) == 0 || len(tables["Y"]) == 0 {
		return "there are no tables of scores"
	}
	var boxes []int
	for at := range after {
		if p.inside(at, main) {
			boxes = append(boxes, at)
		}
	}
	slices.Sort(boxes)
	if len(boxes) != 2 {
		return fmt.Sprintf("%d boxes in the table of scores", len(boxes))
	}
	axisOf := func(at int) string { // by the box that shows it
		for k, b := range boxes {
			if p.shown(after[b], at) && !p.shown(r.Start, at) {
				return "XY"[k : k+1]
			}
		}
		return ""
	}
	for k, b := range boxes {
		which, other := "XY"[k:k+1], "YX"[k:k+1]
		n := 0
		for _, t := range tables[which] {
			if p.shown(r.Start, t) {
				return fmt.Sprintf("the details of axis %s are shown at first", which)
			}
			if p.shown(after[b], t) {
				n++
				if !strings.HasSuffix(p.Elements[t].Id, "-details") {
					return fmt.Sprintf("axis %s shows %s", which, p.Elements[t].Id)
				}
			}
		}
		if n != 1 {
			return fmt.Sprintf("the box of axis %s shows %d tables", which, n)
		}
		for _, t := range tables[other] {
			if p.shown(after[b], t) {
				return fmt.Sprintf("the box of axis %s shows the table %s", which, p.Elements[t].Id)
			}
		}
	}
	for at, st := range after {
		e := p.Elements[at]
		label := text(e.node)
		switch {
		case slices.Contains(boxes, at):
		case e.Tag == "button" && slices.Contains([]string{"Details", "Micros", "Allocs", "Bytes", "Counts"}, label):
			which := axisOf(at)
			if which == "" {
				return "belongs to no axis: " + p.what(at)
			}
			for _, t := range tables[which] {
				if p.own(st, t) != strings.HasSuffix(p.Elements[t].Id, "-"+strings.ToLower(label)) {
					return fmt.Sprintf("wrong table (%s) after %s", p.Elements[t].Id, p.what(at))
				}
			}
			for _, t := range tables["YX"[strings.Index("XY", which):][:1]] {
				if p.own(st, t) != p.own(r.Start, t) {
					return fmt.Sprintf("wrong table (%s) after %s", p.Elements[t].Id, p.what(at))
				}
			}
			c.Count("tables of scores shown", 1)
		case e.Type == "checkbox":
			t := e.Group
			on, off := p.changes(r.Start, st)
			if len(off) > 0 {
				return "hides something: " + p.what(at)
			}
			for _, i := range on {
				if !p.inside(i, t) {
					return "shows a part of another table: " + p.what(at)
				}
			}
			for i := range p.Elements {
				if p.inside(i, t) && !p.own(st, i) && i != t {
					return "does not show the whole table: " + p.what(at)
				}
			}
			c.Count("columns of scores shown", 1)
		}
	}
	// Head and rows of a table show the same columns, "Score" among them; and the title of the details is shown with them.
	states := []string{r.Start}
	for _, st := range after {
		states = append(states, st)
	}
	where := map[*html.Node]int{}
	for i, e := range p.Elements {
		where[e.node] = i
	}
	for i, e := range p.Elements {
		if e.Tag != "table" || i != main && !slices.Contains(tables["X"], i) && !slices.Contains(tables["Y"], i) {
			continue
		}
		rows := direct(e.node)
		for _, row := range rows {
			if len(row) != len(rows[0]) {
				continue
			}
			for k, cell := range row {
				head := where[rows[0][k]]
				for _, st := range states {
					if p.own(st, where[cell]) != p.own(st, head) {
						return fmt.Sprintf("in the table %s the column %q is shown in part", e.Id, text(rows[0][k]))
					}
				}
			}
		}
		for _, label := range tagged(rows[0][len(rows[0])-1].Parent, "label", "") {
			if text(label) == "Score" && !p.own(r.Start, where[cellOf(label)]) {
				return fmt.Sprintf("the table %s does not show the score", p.Elements[i].Id)
			}
		}
		c.Count("tables of scores with whole columns", 1)
	}
	for k, b := range boxes {
		found := false
		for i, e := range p.Elements {
			if e.Tag == "h3" && !p.shown(r.Start, i) && strings.HasPrefix(text(e.node), "XY"[k:k+1]+" Axis:") {
				found = true
				name := score.GetKeeper(score.KeeperTag(w.keeper)).Axes()["XY"[k:k+1]].Name()
				if text(e.node) != "XY"[k:k+1]+" Axis: "+name {
					return fmt.Sprintf("the title %q for the axis %s", text(e.node), name)
				}
				for k2, b2 := range boxes {
					if p.shown(after[b2], i) != (k2 == k) {
						return fmt.Sprintf("the title %q with the box of the other axis", text(e.node))
					}
				}
			}
		}
		if !found {
			return fmt.Sprintf("no title after %s", p.what(b))
		}
	}
	// The charts: one at a time.
	image := func(st string) (list []string) {
		for i, e := range p.Elements {
			if e.Tag == "img" && strings.HasSuffix(attr(e.node, "src"), "/chart.svg") && p.shown(st, i) {
				list = append(list, mustPath(attr(e.node, "src")))
			}
		}
		return
	}
	src := func(n int) string { return fmt.Sprintf("/go-slog/scores/%s/%d/chart.svg", w.keeper, n) }
	if got := image(r.Start); len(got) != 1 || w.size >= 0 && got[0] != src(w.size) {
		return fmt.Sprintf("at first the charts %q are shown, not that of size %d", got, w.size)
	}
	for n, label := range []string{"Full Size", "3/4", "Half", "Quarter"} {
		found := false
		for at, st := range after {
			if e := p.Elements[at]; e.Tag == "button" && text(e.node) == label {
				found = true
				if got := image(st); len(got) != 1 || got[0] != src(n) {
					return fmt.Sprintf("%s shows the charts %q", label, got)
				}
			}
		}
		if !found {
			return "no button " + label
		}
	}
	return ""
}

func cellOf(n *html.Node) *html.Node {
	for n.Parent != nil && n.Data != "td" && n.Data != "th" {
		n = n.Parent
	}
	return n
}

func (p *uiPage) judgeJumps(c *kit.Ctx, r *uiResult, seen map[string]reply) string {
	for i, j := range p.Jumps {
		if i >= len(r.Jumps) {
			return ""
		}
		c.Count("choices made in lists", 1)
		got, kind := r.Jumps[i], []string{"handler/%s.html", "test/%s.html", "test/%s.html", "scores/%s/summary.html", "%s"}
		if j.list < len(kind) {
			if want := "/go-slog/" + fmt.Sprintf(kind[j.list], j.Value); mustPath(got) != mustPath(want) {
				return fmt.Sprintf("the choice %q leads to %q", j.Value, got)
			}
		}
	}
	return ""
}

// chartSize is the smallest chart which has all handlers, or -1 if one is on the edge.
func chartSize(points [][2]float64) int {
	size := 0
	for n := 1; n < 4; n++ {
		low := 25 * float64(n)
		for _, pt := range points {
			for _, v := range pt {
				if math.IsNaN(v) || math.Abs(v-low) < 1e-6 {
					return -1
				}
				if v < low {
					return size
				}
			}
		}
		size = n
	}
	return size
}
