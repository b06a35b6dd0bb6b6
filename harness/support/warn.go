package main

import (
	"fmt"
	"html"
	"log/slog"
	"math/rand/v2"
	"regexp"
	"slices"
	"strings"
	"sync"
	"unicode"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// ---- Markdown with known HTML

// piece is one block of Markdown and the HTML it stands for.
type piece struct{ md, html string }

var mdWords = []string{"alpha", "Beta", "log", "x1", "naïve", "two words", "Größe"}

func mdInline(r *rand.Rand, carets bool) piece {
	w := mdWords[r.IntN(len(mdWords))]
	q := "`"
	if carets && r.IntN(3) > 0 {
		q = "^"
	}
	switch r.IntN(6) {
	case 0:
		return piece{q + w + q, "<code>" + w + "</code>"}
	case 1:
		return piece{"**" + w + "**", "<strong>" + w + "</strong>"}
	case 2:
		return piece{"[" + w + "](https://example.com/a?b=1)", `<a href="https://example.com/a?b=1" target="_blank">` + w + "</a>"}
	case 3:
		return piece{w + " < " + w, w + " &lt; " + w}
	}
	return piece{w, w}
}

func mdText(r *rand.Rand, carets bool) piece {
	var p piece
	for i := range 1 + r.IntN(4) {
		q := mdInline(r, carets)
		if i > 0 {
			p.md, p.html = p.md+" ", p.html+" "
		}
		p.md, p.html = p.md+q.md, p.html+q.html
	}
	return p
}

func slug(s string) string {
	var b strings.Builder
	for _, c := range strings.ToLower(s) {
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			b.WriteRune(c)
		} else {
			b.WriteByte('-')
		}
	}
	return b.String()
}

// mdDoc makes a document out of blocks, and its HTML; headings repeat, so their marks are numbered within the document.
func mdDoc(r *rand.Rand, carets bool) piece {
	var doc piece
	ids := map[string]int{}
	var blocks []string
	for range 1 + r.IntN(6) {
		switch r.IntN(5) {
		case 0:
			n := 1 + r.IntN(3)
			w := mdWords[r.IntN(len(mdWords))]
			id := slug(w)
			k := ids[id]
			ids[id]++
			if k > 0 {
				id = fmt.Sprintf("%s-%d", id, k)
			}
			blocks = append(blocks, strings.Repeat("#", n)+" "+w)
			doc.html += fmt.Sprintf("<h%d id=%q>%s</h%d>\n", n, id, w, n)
		case 1: // a list straight after its paragraph
			intro := mdText(r, carets)
			md, ht := intro.md, "<p>"+intro.html+"</p>\n<ul>\n"
			for range 1 + r.IntN(3) {
				p := mdText(r, carets)
				md += "\n- " + p.md
				ht += "<li>" + p.html + "</li>\n"
			}
			blocks = append(blocks, md)
			doc.html += ht + "</ul>\n"
		case 2:
			a, b := mdWords[r.IntN(len(mdWords))], mdWords[r.IntN(len(mdWords))]
			blocks = append(blocks, "```\n"+a+" < b\n  "+b+"\n```")
			doc.html += "<pre><code>" + a + " &lt; b\n  " + b + "\n</code></pre>\n"
		default:
			p := mdText(r, carets)
			if r.IntN(3) == 0 { // two blanks at the end of a line are a break
				q := mdText(r, carets)
				p.md, p.html = p.md+"  \n"+q.md, p.html+"<br>\n"+q.html
			}
			blocks = append(blocks, p.md)
			doc.html += "<p>" + p.html + "</p>\n"
		}
	}
	if strings.HasPrefix(doc.html, "<p>") && r.IntN(3) == 0 { // the first line is set back
		blocks[0] = strings.Repeat(" ", 1+r.IntN(3)) + blocks[0]
	}
	doc.md = strings.Join(blocks, "\n\n") + "\n"
	return doc
}

// squeeze drops the white space between blocks, which nobody sees, and reads character references.
func squeeze(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, strings.TrimRight(l, " \t"))
		}
	}
	return html.UnescapeString(blanksOfP.ReplaceAllString(strings.Join(out, "\n"), "<p>"))
}

var blanksOfP = regexp.MustCompile(`<p>\s+`)

// ---- the registry

type made struct {
	w                    *warning.Warning
	level                warning.Level
	name, summary, descr string
	html                 string // HTML of the description; "" where it is left open
}

func warningRegistry(c *kit.Ctx) {
	c.Rule("a case is a history of warnings made (new and repeated names), looked up and listed at every level in between, with described texts whose HTML is known, run by one or more goroutines under the race detector; besides, documents of known HTML rendered repeatedly and at the same time. Distinct: histories with their names and levels, documents.")
	slog.SetDefault(slog.New(&recorder{min: slog.LevelError}))
	c.Need("warnings found by name", 2000)
	c.Need("lists compared", 1000)
	c.Need("warnings made after a listing", 300)
	c.Need("second warnings of a name", 200)
	c.Need("descriptions compared", 500)
	c.Need("documents rendered", 500)
	c.Need("concurrent makers of one name", 50)
	c.Need("level names parsed", 100)

	all := map[string]*made{}
	for _, l := range warning.LevelOrder {
		for _, w := range warning.WarningsForLevel(l) {
			if w.Level != l {
				c.Violate("a warning is listed at a level which is not its own", w.Name)
			}
			if all[w.Name] != nil {
				c.Violate("two of the predefined warnings have the same name", w.Name)
			}
			all[w.Name] = &made{w: w, level: w.Level, name: w.Name, summary: w.Summary}
			c.Seen("predefined", w.Name)
		}
	}
	if len(all) < 20 {
		c.Violate("the predefined warnings are not listed", len(all))
	}
	checkLists(c, all, -1, "at the start")
	levelNames(c)

	for i := range c.N(300, 3000) {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		r := c.Rng("history", i)
		c.Guard("the warning registry panics", func() any { return i }, func() { registryCase(c, r, i, all) })
	}
	for i := range c.N(40, 400) {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		c.Guard("the warning registry panics", func() any { return i }, func() { registryRace(c, c.Rng("race", i), i, all) })
	}
	for i := range c.N(400, 10000) {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		c.Guard("rendering panics", func() any { return i }, func() { rendering(c, c.Rng("doc", i), i) })
	}
}

// checkLists compares every list with what was made.
func checkLists(c *kit.Ctx, all map[string]*made, i int, when string) {
	for _, l := range warning.LevelOrder {
		var want []string
		for n, m := range all {
			if m.level == l {
				want = append(want, n)
			}
		}
		slices.Sort(want)
		for what, ws := range map[string][]*warning.Warning{"WarningsForLevel": warning.WarningsForLevel(l), "Level.Warnings": l.Warnings(), "the function of the level": byFunction(l)} {
			var got []string
			for _, w := range ws {
				if w == nil {
					c.Violate("a nil warning is listed", map[string]any{"case": i, "level": l.String()})
					return
				}
				got = append(got, w.Name)
				if m := all[w.Name]; m != nil && m.w != w {
					c.Violate("the listed warning is not the one made", map[string]any{"case": i, "name": w.Name})
				}
			}
			c.Count("lists compared", 1)
			if !slices.Equal(got, want) {
				var missing, extra []string
				for _, n := range want {
					if !slices.Contains(got, n) {
						missing = append(missing, n)
					}
				}
				for _, n := range got {
					if !slices.Contains(want, n) {
						extra = append(extra, n)
					}
				}
				c.Violate("the list of a level is not its warnings by name", map[string]any{"case": i, "when": when, "level": l.String(), "list": what, "missing": missing, "extra": extra, "sorted": slices.IsSorted(got), "got": len(got), "want": len(want)})
				return
			}
		}
	}
}

func byFunction(l warning.Level) []*warning.Warning {
	switch l {
	case warning.LevelRequired:
		return warning.Required()
	case warning.LevelImplied:
		return warning.Implied()
	case warning.LevelSuggested:
		return warning.Suggested()
	}
	return warning.Administrative()
}

func (m *made) same(w *warning.Warning) string {
	switch {
	case w == nil:
		return "there is no warning"
	case m.w != w:
		return "the warning is another one"
	case w.Name != m.name:
		return "name " + w.Name
	case w.Level != m.level:
		return "level " + w.Level.String()
	case w.Summary != m.summary:
		return "summary " + w.Summary
	}
	return ""
}

// indent puts the same indentation before all lines, and cuts or fills the blank ones.
func indent(r *rand.Rand, md string) string {
	in := []string{"", "\t", "    ", "\t\t\t", " \t ", strings.Repeat(" ", 12)}[r.IntN(6)]
	var b strings.Builder
	if r.IntN(2) == 0 {
		b.WriteString("\n")
	}
	for _, l := range strings.Split(strings.TrimSuffix(md, "\n"), "\n") {
		if l == "" {
			b.WriteString([]string{"", in, " "}[r.IntN(3)])
		} else {
			b.WriteString(in + l)
		}
		b.WriteString([]string{"\n", "\n", "\n", "\r\n"}[r.IntN(4)])
	}
	if r.IntN(2) == 0 {
		b.WriteString(in)
	}
	return b.String()
}

func newMade(r *rand.Rand, name string, long bool) *made {
	m := &made{level: warning.LevelOrder[r.IntN(4)], name: name, summary: []string{"", "A summary", "ünïcode ^x^ `y`"}[r.IntN(3)]}
	if r.IntN(5) > 0 {
		p := mdDoc(r, true)
		if long {
			w := strings.Repeat("long line ", 7000+r.IntN(3000)) + "end"
			p.md += "\n" + w + "\n\nafter\n"
			p.html += "<p>" + w + "</p>\n<p>after</p>\n"
		}
		m.descr, m.html = indent(r, p.md), p.html
	}
	return m
}

func (m *made) describe(c *kit.Ctx, i int) {
	if m.w.HasDescription() != (m.descr != "") {
		c.Violate("HasDescription is wrong", map[string]any{"case": i, "name": m.name, "description": m.descr})
	}
	if m.descr == "" {
		return
	}
	c.Count("descriptions compared", 1)
	got, want := squeeze(string(m.w.Description())), squeeze(m.html)
	if got != want {
		c.Violate("the description is not the HTML of its text", map[string]any{"case": i, "name": m.name, "description": clip(m.descr), "got": clip(got), "want": clip(want)})
	}
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:1500] + " … " + s[len(s)-1500:]
	}
	return s
}

func registryCase(c *kit.Ctx, r *rand.Rand, i int, all map[string]*made) {
	var mine []string
	fp := ""
	listed := true
	for k := range 4 + r.IntN(12) {
		switch r.IntN(6) {
		case 0:
			checkLists(c, all, i, fmt.Sprintf("after step %d", k))
			listed = true
		case 1: // a name again
			if len(mine) == 0 {
				continue
			}
			m := all[mine[r.IntN(len(mine))]]
			o := newMade(r, m.name, false)
			w := warning.NewWarning(o.level, o.name, o.summary, o.descr)
			c.Count("second warnings of a name", 1)
			if bad := m.same(w); bad != "" {
				c.Violate("a second warning of a name is not the first", map[string]any{"case": i, "name": m.name, "bad": bad})
			}
			m.describe(c, i)
			fp += "d"
		case 2:
			for _, n := range []string{"", "no such " + fmt.Sprint(i), strings.ToUpper(fmt.Sprintf("case %d", i))} {
				if w := warning.ByName(n); w != nil && all[n] == nil {
					c.Violate("a name nobody used has a warning", map[string]any{"case": i, "name": n})
				} else if w.HasDescription() && w == nil {
					c.Violate("no warning has a description", n)
				}
			}
		default:
			name := fmt.Sprintf("%s %d %d", []string{"Alpha", "case", "zeta", "Étude", "1st"}[r.IntN(5)], i, k)
			m := newMade(r, name, r.IntN(40) == 0)
			m.w = warning.NewWarning(m.level, m.name, m.summary, m.descr)
			if m.w == nil {
				c.Violate("no warning is made", map[string]any{"case": i, "name": name})
				return
			}
			if listed {
				c.Count("warnings made after a listing", 1)
			}
			all[name] = m
			mine = append(mine, name)
			if bad := m.same(m.w); bad != "" {
				c.Violate("a warning is not as it was made", map[string]any{"case": i, "name": name, "bad": bad})
			}
			m.describe(c, i)
			fp += m.level.String()[:1]
		}
		for _, n := range mine {
			c.Count("warnings found by name", 1)
			if bad := all[n].same(warning.ByName(n)); bad != "" {
				c.Violate("a warning is not found by its name", map[string]any{"case": i, "name": n, "bad": bad})
			}
		}
	}
	checkLists(c, all, i, "at the end")
	c.Eval(fmt.Sprintf("h%d%s", i, fp))
	c.Sample(map[string]any{"history": fp})
}

// registryRace makes, looks up, lists and renders from several goroutines.
func registryRace(c *kit.Ctx, r *rand.Rand, i int, all map[string]*made) {
	const workers = 6
	type want struct {
		got  [workers]*warning.Warning
		opts [workers]*made
	}
	shared := make([]want, 6)
	for s := range shared {
		for w := range workers {
			m := newMade(r, fmt.Sprintf("shared %d %d", i, s), false)
			m.summary = fmt.Sprintf("of worker %d", w)
			shared[s].opts[w] = m
		}
	}
	var own [workers][]*made
	for w := range workers {
		for k := range 4 {
			own[w] = append(own[w], newMade(r, fmt.Sprintf("own %d %d %d", i, w, k), false))
		}
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for k, m := range own[w] {
				m.w = warning.NewWarning(m.level, m.name, m.summary, m.descr)
				if warning.ByName(m.name) != m.w {
					c.Violate("a warning is not found by its name right after it was made", map[string]any{"case": i, "name": m.name})
				}
				// What was made before the call must be listed by it, whatever others do.
				list := warning.WarningsForLevel(m.level)
				found, sorted := false, true
				for j, x := range list {
					found = found || x == m.w
					sorted = sorted && (j == 0 || list[j-1].Name < x.Name)
				}
				if !found || !sorted {
					c.Violate("a list made while others make warnings lacks one or is out of order", map[string]any{"case": i, "name": m.name, "found": found, "sorted": sorted})
				}
				for s := k; s < len(shared); s += 4 {
					o := shared[s].opts[w]
					shared[s].got[w] = warning.NewWarning(o.level, o.name, o.summary, o.descr)
				}
				m.describe(c, i)
			}
		}()
	}
	close(gate)
	wg.Wait()
	for w := range workers {
		for _, m := range own[w] {
			all[m.name] = m
		}
	}
	for s := range shared {
		c.Count("concurrent makers of one name", workers)
		first := shared[s].got[0]
		var owner *made
		for w := range workers {
			if shared[s].got[w] != first || first == nil {
				c.Violate("makers of one name got different warnings", map[string]any{"case": i, "name": shared[s].opts[w].name})
				return
			}
			if first.Summary == shared[s].opts[w].summary {
				owner = shared[s].opts[w]
				c.Seen("winning worker", fmt.Sprint(w))
			}
		}
		if owner == nil {
			c.Violate("the warning of several makers is none of theirs", map[string]any{"case": i, "name": first.Name, "summary": first.Summary})
			return
		}
		owner.w = first
		if bad := owner.same(warning.ByName(owner.name)); bad != "" {
			c.Violate("the warning of several makers mixes theirs", map[string]any{"case": i, "name": owner.name, "bad": bad})
		}
		owner.describe(c, i)
		all[owner.name] = owner
	}
	checkLists(c, all, i, "after a race")
	c.Eval(fmt.Sprintf("r%d", i))
}

// rendering compares documents with their HTML: again, in another order and at the same time.
func rendering(c *kit.Ctx, r *rand.Rand, i int) {
	type doc struct {
		piece
		carets bool
	}
	var docs []doc
	for range 1 + r.IntN(4) {
		cr := r.IntN(2) == 0
		d := mdDoc(r, cr)
		if !cr && r.IntN(2) == 0 { // carets are left alone
			d.md += "\na ^b^ c\n"
			d.html += "<p>a ^b^ c</p>\n"
			c.Count("documents with carets of their own", 1)
		}
		docs = append(docs, doc{d, cr})
	}
	check := func(d doc, when string) {
		got := squeeze(string(markdown.TemplateHTML(d.md, d.carets)))
		c.Count("documents rendered", 1)
		if want := squeeze(d.html); got != want {
			c.Violate("a document is not the HTML it stands for", map[string]any{"case": i, "when": when, "markdown": d.md, "carets": d.carets, "got": got, "want": want})
		}
	}
	for round := range 2 {
		for _, k := range r.Perm(len(docs)) {
			check(docs[k], fmt.Sprintf("in round %d", round))
		}
	}
	var wg sync.WaitGroup
	for range 2 {
		for _, d := range docs {
			wg.Add(1)
			go func() { defer wg.Done(); check(d, "at the same time") }()
		}
	}
	wg.Wait()
	c.Eval("d" + docs[0].md + fmt.Sprint(len(docs), docs[0].carets))
}

// levelNames checks names of levels, their order and their summaries.
func levelNames(c *kit.Ctx) {
	want := []string{"Required", "Implied", "Suggested", "Administrative"}
	if len(warning.LevelOrder) != 4 {
		c.Violate("there are not four levels", warning.LevelOrder)
		return
	}
	r := c.Rng("levels", 0)
	for k, l := range warning.LevelOrder {
		if l.String() != want[k] {
			c.Violate("the levels are out of order", map[string]any{"got": l.String(), "want": want[k]})
		}
		if k > 0 && warning.LevelOrder[k-1] <= l {
			c.Violate("a less important level is not below", l.String())
		}
		if l.Summary() == "" || strings.Contains(string(l.Summary()), "^") {
			c.Violate("the summary of a level is missing or not rendered", string(l.Summary()))
		}
		for range 30 {
			name := []byte(want[k])
			for j := range name {
				if r.IntN(2) == 0 {
					name[j] ^= 0x20
				}
			}
			c.Count("level names parsed", 1)
			if got, err := warning.ParseLevel(string(name)); err != nil || got != l {
				c.Violate("the name of a level is not read as that level", map[string]any{"name": string(name), "got": got.String(), "err": fmt.Sprint(err)})
			}
		}
		for _, n := range []string{want[k] + " ", want[k] + "s", want[k][:4], "", "unknown", fmt.Sprint(uint(l)), warning.Level(77).String()} {
			if got, err := warning.ParseLevel(n); err == nil {
				c.Violate("a name which is no level's is read as a level", map[string]any{"name": n, "got": got.String()})
			}
		}
	}
	seen := map[string]bool{}
	for _, l := range []warning.Level{0, 5, 6, 99} {
		if n := l.String(); n == "" || seen[n] || slices.Contains(want, n) {
			c.Violate("an unknown level has the name of another", map[string]any{"level": uint(l), "name": n})
		}
		seen[l.String()] = true
		if len(warning.WarningsForLevel(l)) != 0 {
			c.Violate("an unknown level has warnings", uint(l))
		}
	}
}
