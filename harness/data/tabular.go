package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// tabular runs the real command on generated outputs and reads its tables and lists back.
func tabular(c *kit.Ctx) {
	c.Rule("the tabular command run on generated benchmark and verification outputs (as for C16 and C17), from files and standard input, in several languages; every row and every warning it prints is compared with what the outputs say; distinct by input")
	bin := os.Getenv("VERIF_BIN")
	defer quiet()()
	dir, err := os.MkdirTemp("", "tabular")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i := 0; i < c.N(400, 6000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("tabular", i)
		d := genBench(r)
		d.warnings = nil
		var lines []string
		for _, l := range strings.Split(strings.ReplaceAll(d.text, "\r\n", "\n"), "\n") {
			if !strings.HasPrefix(l, "#") || strings.HasPrefix(l, "# Handler[") && strings.HasSuffix(l, `"`) {
				lines = append(lines, l)
			}
		}
		pool := genWarnings(r)
		lookup := map[string]data.HandlerTag{}
		for h := range d.rows {
			if n, ok := d.names[h]; ok {
				lookup[n] = data.HandlerTag(h)
			}
		}
		for k, n := range handlerNames {
			tag := data.HandlerTag(fmt.Sprintf("Handler%c", 'A'+k))
			lookup[n] = tag
			lines = append(lines, fmt.Sprintf("# Handler[%s]=\"%s\"", tag, n))
		}
		bench := genRun(r, "Bench", "# ", "Benchmark", pool)
		verify := genRun(r, "Verify", "", "Test", pool)
		bText := strings.Join(lines, "\n") + "\n" + strings.Replace(bench.render(r, pool, "Benchmark"), "BenchmarkX/BenchmarkY-4   100   5 ns/op\n", "", 1)
		vText := verify.render(r, pool, "Test")
		bFile, vFile := filepath.Join(dir, "bench.txt"), filepath.Join(dir, "verify.txt")
		_ = os.WriteFile(bFile, []byte(bText), 0o644)
		_ = os.WriteFile(vFile, []byte(vText), 0o644)
		lang := []string{"", "de", "fr", "en", "sv", "nonsense language", "ja"}[r.IntN(7)]
		tag := language.AmericanEnglish
		args := []string{"-verify", vFile}
		if lang != "" {
			args = append(args, "-language", lang)
			if t, err := language.Parse(lang); err == nil {
				tag = t
			}
		}
		stdin := r.IntN(3) == 0
		if !stdin {
			args = append(args, "-bench", bFile)
		}
		cmd := exec.Command(bin, args...)
		if stdin {
			cmd.Stdin = strings.NewReader(bText)
		}
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		if err := cmd.Run(); err != nil {
			c.Violate("tabular fails: "+err.Error(), map[string]any{"case": i, "bench": clipped(bText), "verify": clipped(vText), "stderr": clipped(errOut.String())})
			continue
		}
		t := combine([]*run{bench, verify}, lookup)
		why := tables(d, out.String(), tag)
		if why == "" {
			why = t.lists(out.String())
		}
		if why != "" {
			c.Violate("tabular: "+why, map[string]any{"case": i, "args": args, "bench": clipped(bText), "verify": clipped(vText), "output": clipped(out.String())})
		}
		c.Eval(bText + vText)
		for _, rows := range d.rows {
			c.Count("rows", len(rows))
		}
		c.Count("handlers with lists", len(t.byHandler))
		c.Seen("languages", tag.String())
	}
	c.Need("rows", 1000)
	c.Need("handlers with lists", 500)
}

// tables compares the printed tables with the data.
func tables(d *benchDoc, out string, tag language.Tag) string {
	p := message.NewPrinter(tag)
	type cell struct{ test, handler string }
	got := map[cell][]string{}
	test := ""
	var tests []string
	lastHandler := ""
	for _, line := range strings.Split(out, "\n") {
		if rest, ok := strings.CutPrefix(line, "Benchmark "); ok {
			test, lastHandler = rest, ""
			tests = append(tests, test)
			continue
		}
		if strings.HasPrefix(line, "Warnings for ") {
			break
		}
		if !strings.Contains(line, "║") {
			continue
		}
		cols := strings.FieldsFunc(line, func(r rune) bool { return r == '║' || r == '│' })
		var vals []string
		for _, s := range cols {
			vals = append(vals, strings.TrimSpace(s))
		}
		vals = vals[1:]
		if vals[0] == "Handler" && strings.Contains(line, "Runs") {
			if want := []string{"Handler", data.Runs.ShortName(), data.Nanos.ShortName(), data.MemAllocs.ShortName(), data.MemBytes.ShortName(), data.MbPerSec.ShortName()}; !slices.Equal(vals[:len(want)], want) {
				return fmt.Sprintf("columns %q", vals)
			}
			continue
		}
		if vals[0] < lastHandler {
			return fmt.Sprintf("rows of %q are out of order: %q after %q", test, vals[0], lastHandler)
		}
		lastHandler = vals[0]
		key := cell{test, vals[0]}
		got[key] = append(got[key], strings.Join(vals[1:], "|"))
	}
	if !slices.IsSorted(tests) {
		return fmt.Sprintf("tests are out of order: %q", tests)
	}
	want := map[cell][]string{}
	names := map[data.TestTag]bool{}
	for h, rows := range d.rows {
		name := data.HandlerTag(h).Name()
		if n, ok := d.names[h]; ok {
			name = n
		}
		for tt, rec := range rows {
			show := data.TestTag("Bench." + tt).Name()
			names[data.TestTag(tt)] = true
			key := cell{show, name}
			want[key] = append(want[key], strings.Join([]string{
				p.Sprintf("%d", rec.Runs), p.Sprintf("%.2f", rec.NanosPerOp), p.Sprintf("%d", rec.MemAllocsPerOp), p.Sprintf("%d", rec.MemBytesPerOp), p.Sprintf("%.2f", rec.MbPerSec)}, "|"))
		}
	}
	if len(tests) != len(names) {
		return fmt.Sprintf("%d tables %q instead of %d", len(tests), tests, len(names))
	}
	for k, rows := range want {
		g := got[k]
		slices.Sort(g)
		slices.Sort(rows)
		for i := range g {
			g[i] = strings.TrimRight(g[i], "|")
		}
		if !slices.Equal(g, rows) {
			return fmt.Sprintf("rows for test %q and handler %q are %q instead of %q", k.test, k.handler, g, rows)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("a row for test %q and handler %q that has no result", k.test, k.handler)
		}
	}
	return ""
}

// lists compares the printed warnings with the reports.
func (t *truth) lists(out string) string {
	type list map[string][]string // "level [name] summary" -> instances
	got := map[string]list{}
	counts := map[string]string{}
	var cur list
	var handlers []string
	level, head, handler := "", "", ""
	var levels []string
	for _, line := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(line, "Warnings for ") && strings.HasSuffix(line, ":"):
			handler = strings.TrimSuffix(strings.TrimPrefix(line, "Warnings for "), ":")
			handlers = append(handlers, handler)
			if got[handler] != nil {
				return fmt.Sprintf("handler %q has two lists", handler)
			}
			cur = list{}
			got[handler] = cur
			levels = nil
		case cur == nil:
		case strings.HasPrefix(line, "           "):
			if l := cur[head]; len(l) > 0 {
				l[len(l)-1] += "\n" + strings.TrimPrefix(line, "           ")
			}
		case strings.HasPrefix(line, "         "):
			cur[head] = append(cur[head], strings.TrimPrefix(line, "         "))
		case countLine.MatchString(line):
			n, rest, _ := strings.Cut(strings.TrimSpace(line), " ")
			head = level + " " + strings.TrimSpace(rest)
			counts[handler+"|"+head] = n
			cur[head] = []string{}
		case strings.HasPrefix(line, "  "):
			level = strings.TrimSpace(line)
			levels = append(levels, level)
			at := -1
			for _, l := range levels {
				for k, o := range warning.LevelOrder {
					if o.String() == l {
						if k <= at {
							return fmt.Sprintf("levels of %q are out of order", handler)
						}
						at = k
					}
				}
			}
		}
	}
	if !slices.IsSorted(handlers) || len(handlers) != len(t.byHandler) {
		return fmt.Sprintf("warnings are listed for %q instead of %d handlers in order", handlers, len(t.byHandler))
	}
	for tag, warns := range t.byHandler {
		name := t.name[tag]
		l, ok := got[name]
		if !ok || len(l) != len(warns) {
			return fmt.Sprintf("handler %q has %d warnings listed instead of %d", name, len(l), len(warns))
		}
		for _, w := range warns {
			head := strings.TrimSpace(fmt.Sprintf("%s [%s] %s", w.level, w.name, w.summary))
			var want []string
			for _, in := range w.insts {
				s := in.source + ":" + bareFn(in.fn)
				if in.text != "" {
					x := in.text
					if strings.Contains(x, "\n") {
						x = "\n" + x
					}
					s += ": " + x
				}
				if in.record != "" {
					s += "\n" + in.record
				}
				want = append(want, s)
			}
			g := slices.Clone(l[head])
			norm := func(list []string) []string {
				for i, s := range list {
					ls := strings.Split(s, "\n")
					for k := range ls {
						ls[k] = strings.TrimRight(ls[k], " ")
					}
					list[i] = strings.Join(ls, "\n")
				}
				slices.Sort(list)
				return list
			}
			if !slices.Equal(norm(g), norm(want)) {
				return fmt.Sprintf("handler %q, %s: listed %.600q instead of %.600q", name, head, g, want)
			}
			if counts[name+"|"+head] != fmt.Sprint(len(want)) {
				return fmt.Sprintf("handler %q, %s: count %s instead of %d", name, head, counts[name+"|"+head], len(want))
			}
		}
	}
	return ""
}
