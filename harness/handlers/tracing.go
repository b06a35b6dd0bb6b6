package main

import (
	"fmt"
	"log/slog"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/madkins23/go-slog/handlers/trace"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// capture sends standard output to a file for the time being.
type capture struct {
	file *os.File
	old  int
	std  *os.File // the former os.Stdout where just this is replaced
	at   int64
}

// Either the descriptor is redirected, or os.Stdout is replaced, as programs do to catch their own output.
func newCapture(c *kit.Ctx, replace bool) *capture {
	f, err := os.CreateTemp("", "trace")
	if err != nil {
		panic(err)
	}
	_ = os.Remove(f.Name())
	if replace {
		std := os.Stdout
		os.Stdout = f
		return &capture{file: f, std: std}
	}
	old, err := syscall.Dup(1)
	if err == nil {
		err = syscall.Dup3(int(f.Fd()), 1, 0)
	}
	if err != nil {
		panic(err)
	}
	return &capture{file: f, old: old}
}

// take returns what was written since the last time.
func (p *capture) take() string {
	end, _ := p.file.Seek(0, 2)
	b := make([]byte, end-p.at)
	_, _ = p.file.ReadAt(b, p.at)
	p.at = end
	return string(b)
}

func (p *capture) close() {
	if p.std != nil {
		os.Stdout = p.std
		_ = p.file.Close()
		return
	}
	_ = syscall.Dup3(p.old, 1, 0)
	_ = syscall.Close(p.old)
	_ = p.file.Close()
}

type traced struct {
	h      slog.Handler
	indent string
}

// call makes one call and returns the line that documents it, and the new handler if there is one.
func (t traced) call(c *kit.Ctx, g *gen) (line string, next *traced, run func()) {
	image := func(as []slog.Attr, between string) string {
		var s []string
		for _, a := range as {
			s = append(s, fmt.Sprintf("%s=%s", a.Key, a.Value))
		}
		return strings.Join(s, between)
	}
	text := func() string { return strings.NewReplacer("\n", " ", "\r", " ").Replace(g.text()) }
	var attrs []slog.Attr
	for k := g.IntN(5); k > 0; k-- {
		switch g.IntN(5) {
		case 0:
			attrs = append(attrs, slog.Int(text(), g.IntN(1000)))
		case 1:
			attrs = append(attrs, slog.String(text(), text()))
		case 2:
			attrs = append(attrs, slog.Bool(text(), g.IntN(2) == 0))
		case 3:
			attrs = append(attrs, slog.Group(text(), slog.Int(text(), g.IntN(5)), slog.String(text(), text())))
		case 4:
			attrs = append(attrs, slog.Any(text(), []string{text()}))
		}
	}
	level := slog.Level(g.IntN(40) - 20)
	switch g.IntN(4) {
	case 0:
		return t.indent + "Enabled(" + level.String() + ")", nil, func() {
			if !t.h.Enabled(ctxBackground, level) {
				c.Violate(fmt.Sprintf("trace: Enabled(%d) is false", level), nil)
			}
		}
	case 1:
		rec := slog.NewRecord(g.time(), level, text(), 0)
		rec.AddAttrs(attrs...)
		line = fmt.Sprintf("%sHandle(%s \"%s\"", t.indent, level, rec.Message)
		if len(attrs) > 0 {
			line += " {" + image(attrs, ", ") + "}"
		}
		return line + ")", nil, func() {
			if err := t.h.Handle(ctxBackground, rec); err != nil {
				c.Violate(fmt.Sprintf("trace: Handle returns %v", err), nil)
			}
		}
	case 2:
		next = &traced{indent: t.indent + "  "}
		return t.indent + "WithAttrs([" + image(attrs, " ") + "])", next, func() { next.h = t.h.WithAttrs(attrs) }
	}
	name := text()
	next = &traced{indent: t.indent + "  "}
	return t.indent + "WithGroup(" + name + ")", next, func() { next.h = t.h.WithGroup(name) }
}

// c19: the trace handler shows every call, in order, on one line, indented by where it was derived.
func c19(c *kit.Ctx) {
	c.Rule("case = up to 30 calls on a tree of trace handlers, in random order, standard output read after every call; every fourth case makes them from 4 goroutines, and the lines are compared as a multiset; texts without line breaks; distinct by the lines expected")
	c.Assume("standard output is file descriptor 1.")
	n := c.N(6000, 200000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("trace", i)}
		indent := pick(g, "", " ", "    ", "\t", "> ")
		var out *capture
		var expected []string
		done := func() {
			if out != nil {
				out.close()
				out = nil
			}
		}
		c.Guard("trace", func() any { return map[string]any{"case": i, "calls": expected} }, func() {
			defer done()
			replace := g.IntN(2) == 0
			if replace {
				c.Count("cases with os.Stdout replaced", 1)
			}
			out = newCapture(c, replace)
			handlers := []*traced{{trace.NewHandler(indent), indent}}
			if s := out.take(); s != "" {
				c.Violate("trace: output without a call", s)
			}
			compare := func(got string, want ...string) {
				lines := strings.Split(got, "\n")
				if len(lines) == 0 || lines[len(lines)-1] != "" {
					c.Violate("trace: no line break at the end", map[string]any{"case": i, "got": got, "want": want})
					return
				}
				lines = lines[:len(lines)-1]
				sort.Strings(lines)
				sort.Strings(want)
				for k := 0; k < len(lines) || k < len(want); k++ {
					if k >= len(lines) || k >= len(want) || lines[k] != want[k] {
						c.Violate("trace: other lines than the calls made", map[string]any{"case": i, "got": lines, "want": want})
						return
					}
				}
				c.Count("lines compared", len(want))
			}
			together := i%4 == 3
			var mu sync.Mutex
			var runs []func()
			for k := 5 + g.IntN(25); k > 0; k-- {
				t := handlers[g.IntN(len(handlers))]
				line, next, run := t.call(c, g)
				expected = append(expected, line)
				if together {
					runs = append(runs, run)
					continue // the handlers which come of it are not used
				}
				run()
				compare(out.take(), line)
				if next != nil {
					handlers = append(handlers, next)
					c.Count("handlers derived", 1)
				}
			}
			if together {
				var wg sync.WaitGroup
				for w := 0; w < 4; w++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							mu.Lock()
							if len(runs) == 0 {
								mu.Unlock()
								return
							}
							run := runs[0]
							runs = runs[1:]
							mu.Unlock()
							run()
						}
					}()
				}
				wg.Wait()
				compare(out.take(), append([]string(nil), expected...)...)
				c.Count("concurrent cases", 1)
			}
		})
		done()
		c.Eval(strings.Join(expected, "\n"))
	}
	c.Need("lines compared", 10000)
	c.Need("handlers derived", 5000)
	c.Need("concurrent cases", 1000)
}
