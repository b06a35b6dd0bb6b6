package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

func detail(s *subject, t testCase, out []byte) any {
	return map[string]any{"handler": s.String(), "case": t.String(), "output": fmt.Sprintf("%q", out)}
}

func count(c *kit.Ctx, g *gen) {
	for f := range g.feat {
		c.Count("cases with "+f, 1)
	}
}

// random runs a list of random cases against fresh handlers.
func random(c *kit.Ctx, stream string, n int, special, rep bool, accept func(problem string) bool) {
	for i := 0; i < n; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng(stream, i), special: special}
		s := g.subject("", rep)
		t := testCase{g.ops(5), g.record()}
		out, p := s.run(t)
		c.Eval(s.String() + t.String())
		count(c, g)
		c.Count("records by "+s.name, 1)
		c.Count("bytes parsed", len(out))
		if i < 3 {
			c.Sample(map[string]any{"handler": s.String(), "case": t.String(), "line": string(out)})
		}
		if p != "" && !accept(p) {
			c.Violate(fmt.Sprintf("case %d: %s", i, p), detail(s, t, out))
			if c.Violations() > 20 {
				return
			}
		}
	}
}

func needs(c *kit.Ctx, names ...string) {
	for _, n := range names {
		c.Need(n, 50)
	}
}

// c01: one record, one line, one JSON object.
func c01(c *kit.Ctx) {
	c.Rule("case = handler configuration x derivation chain x record, drawn from the seed; distinct by its full description; non-trivial: the record was written")
	needs(c, "cases with hostile text", "cases with random bytes", "cases with group value", "cases with WithGroup", "cases with many calls", "cases with many attributes", "cases with deep group", "cases with huge record", "cases with huge text", "cases with huge group", "cases with huge call of With", "cases with huge chain of calls", "cases with chain of valuers", "cases with ReplaceAttr", "cases with extras", "cases with failing value", "cases with non-finite float", "records by flash", "records by sloggy")
	random(c, "any", c.N(120000, 3000000), true, true, func(p string) bool { return strings.HasPrefix(p, "content") })
}

// c03: the line says what the calls said.
func c03(c *kit.Ctx) {
	c.Rule("case = handler configuration x derivation chain x record, drawn from the seed; compared member by member with the reference model; distinct by its full description")
	needs(c, "cases with group value", "cases with valuer", "cases with empty attr", "cases with WithGroup", "cases with many calls", "cases with many attributes", "cases with deep group", "cases with huge record", "cases with huge text", "cases with huge group", "cases with huge call of With", "cases with huge chain of calls", "cases with chain of valuers", "cases with WithAttrs", "records by flash", "records by sloggy")
	random(c, "any", c.N(120000, 3000000), false, false, func(p string) bool {
		return !strings.HasPrefix(p, "content") && !strings.HasPrefix(p, "Handle") && !strings.HasPrefix(p, "panic") && !strings.HasPrefix(p, "malformed")
	})
}

// ---------------------------------------------------------------------------

// c02: text of every sort in every position.
func c02(c *kit.Ctx) {
	c.Rule("text = every byte, every pair of bytes, triples and quadruples over UTF-8 class representatives, every rune, random hostile text; in value, key, group, WithGroup name, WithAttrs, message, error, Stringer, TextMarshaler; oracle: exactly the expected members, with the text read back")
	var buf bytes.Buffer
	subjects := []*subject{{name: "flash", ext: &extras{}, level: everything}, {name: "sloggy", ext: &extras{}, level: everything}}
	hs := []slog.Handler{subjects[0].build(&buf), subjects[1].build(&buf)}
	when := time.Date(2024, 1, 2, 3, 4, 5, 6, time.UTC)
	check := func(where, text string, h slog.Handler, s *subject, msg string, want []kit.Member, attrs ...slog.Attr) {
		buf.Reset()
		r := slog.NewRecord(when, slog.LevelInfo, msg, 0)
		r.AddAttrs(attrs...)
		err := h.Handle(ctxBackground, r)
		c.Count("positions checked", 1)
		d := ""
		if err != nil {
			d = err.Error()
		} else if n, err := line(buf.Bytes()); err != nil {
			d = err.Error()
		} else {
			kids := append([]kit.Member{
				{Key: slog.TimeKey, Val: str(when.Format(time.RFC3339Nano))},
				{Key: slog.LevelKey, Val: str("INFO")},
				{Key: slog.MessageKey, Val: str(msg)},
			}, want...)
			d = kit.Diff("", kit.Node{Kind: 'o', Kids: kids}, n)
		}
		if d != "" {
			c.Violate(fmt.Sprintf("%s, %s %q: %s", s.name, where, text, d), map[string]any{"handler": s.name, "where": where, "text": fmt.Sprintf("%q", text), "output": fmt.Sprintf("%q", buf.Bytes())})
		}
	}
	after := slog.String("after", "x")
	afterM := kit.Member{Key: "after", Val: str("x")}
	full := func(text string) {
		for i, s := range subjects {
			h := hs[i]
			obj := func(k string, kids ...kit.Member) kit.Member {
				return kit.Member{Key: k, Val: kit.Node{Kind: 'o', Kids: kids}}
			}
			check("value", text, h, s, "m", []kit.Member{{Key: "k", Val: str(text)}, afterM}, slog.String("k", text), after)
			check("key", text, h, s, "m", []kit.Member{{Key: text, Val: str("v")}, afterM}, slog.String(text, "v"), after)
			check("message", text, h, s, text, []kit.Member{afterM}, after)
			check("stringer", text, h, s, "m", []kit.Member{{Key: "k", Val: str(text)}, afterM}, slog.Any("k", tStringer{text}), after)
			check("error", text, h, s, "m", []kit.Member{{Key: "k", Val: str(text)}, afterM}, slog.Any("k", tError{text}), after)
			check("text marshaler", text, h, s, "m", []kit.Member{{Key: "k", Val: str(text)}, afterM}, slog.Any("k", tText{text}), after)
			if text != "" {
				check("group", text, h, s, "m", []kit.Member{obj(text, kit.Member{Key: "k", Val: str(text)}), afterM}, slog.Group(text, slog.String("k", text)), after)
				check("WithGroup", text, h.WithGroup(text), s, "m", []kit.Member{obj(text, afterM)}, after)
				check("WithAttrs below WithGroup", text, h.WithAttrs([]slog.Attr{slog.String(text, text)}).WithGroup(text).WithAttrs([]slog.Attr{slog.String("k", text)}), s, "m",
					[]kit.Member{{Key: text, Val: str(text)}, obj(text, kit.Member{Key: "k", Val: str(text)}, afterM)}, after)
			}
		}
		c.Eval(text)
	}
	light := func(text string) {
		for i, s := range subjects {
			check("value", text, hs[i], s, "m", []kit.Member{{Key: "k", Val: str(text)}, afterM}, slog.String("k", text), after)
			check("key", text, hs[i], s, "m", []kit.Member{{Key: text, Val: str("v")}, afterM}, slog.String(text, "v"), after)
		}
		c.Eval(text)
	}
	stop := func() bool { return c.Violations() > 20 }
	for b := 0; b < 256 && !stop(); b++ {
		full(string([]byte{byte(b)}))
		full("a" + string([]byte{byte(b)}) + "z")
		for d := 0; d < 256; d++ {
			light(string([]byte{byte(b), byte(d)}))
		}
	}
	for size := 16; size <= 1<<17 && !stop(); size *= 2 {
		for before := range 6 {
			for _, what := range []string{"é", "😀", "\"", "\n", "\x01", "\xf0\x9f"} {
				full(straddle(size, before, what))
				c.Count("texts around round lengths", 1)
			}
		}
	}
	for _, h := range hostile {
		full(h)
		for _, k := range hostile {
			if !stop() {
				full(h + k)
			}
		}
	}
	classes := []byte{'a', '"', '\\', '\n', 0x00, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff}
	for _, x := range classes {
		for _, y := range classes {
			for _, z := range classes {
				if stop() {
					return
				}
				light(string([]byte{x, y, z}))
				if c.Thorough() || z >= 0x80 {
					for _, w := range classes {
						light(string([]byte{x, y, z, w}))
					}
				}
			}
		}
	}
	c.Count("byte classes in triples", len(classes))
	step := rune(1)
	var b strings.Builder
	for r := rune(0); r <= utf8.MaxRune && !stop(); r += step {
		// Runes in bunches of sixteen, every one of them is logged.
		b.WriteRune(r)
		c.Count("runes", 1)
		if r%16 == 15 {
			light(b.String())
			b.Reset()
		}
	}
	n := c.N(20000, 600000)
	for i := 0; i < n && !stop(); i++ {
		g := &gen{Rand: c.Rng("text", i)}
		full(g.text())
	}
	// Level names, keys, and time format of the extras.
	for i := 0; i < n && !stop(); i++ {
		g := &gen{Rand: c.Rng("extras", i)}
		s := &subject{name: "flash", ext: g.extras(), level: everything}
		t := testCase{nil, g.record()}
		t.Rec.Attrs = nil
		out, p := s.run(t)
		c.Count("configured names", 1)
		if p != "" {
			c.Violate(p, detail(s, t, out))
		}
	}
	c.Need("runes", 1000000)
	c.Need("positions checked", 300000)
}

// ---------------------------------------------------------------------------

// node of a tree of derived handlers.
type derived struct {
	h   slog.Handler
	ops []op
}

// c04: a family of handlers, grown and used in any order.
func c04(c *kit.Ctx) {
	c.Rule("case = a family of 6-40 handlers derived from one another in random order with records logged in between; every record is compared with the model of the deriving calls of that handler alone; distinct by the history")
	c.Need("derivations", 5000)
	c.Need("records after a sibling was derived", 5000)
	n := c.N(6000, 150000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("family", i)}
		s := g.subject("", true)
		if s.rep != nil && g.IntN(2) == 0 {
			s.rep = nil
		}
		w := &sink{}
		nodes := []derived{{s.build(w), nil}}
		children := map[int]int{}
		var hist strings.Builder
		logOne := func(j int) bool {
			t := testCase{nodes[j].ops, g.record()}
			if g.IntN(3) == 0 {
				t.Rec.Attrs = nil
			}
			out, p := s.handle(nodes[j].h, w, t)
			if children[j] > 0 {
				c.Count("records after a sibling was derived", 1)
			}
			c.Count("records", 1)
			fmt.Fprintf(&hist, "log on %d; ", j)
			if p != "" {
				c.Violate(fmt.Sprintf("case %d: %s", i, p), map[string]any{"handler": s.String(), "history": hist.String(), "case": t.String(), "output": string(out)})
				return false
			}
			return true
		}
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Violate(fmt.Sprintf("case %d: panic: %v", i, r), map[string]any{"handler": s.String(), "history": hist.String()})
				}
			}()
			for size := 6 + g.IntN(35); len(nodes) < size && ok; {
				if g.IntN(4) == 0 {
					ok = logOne(g.IntN(len(nodes)))
					continue
				}
				// Prefer one parent several times, and long chains.
				j := g.IntN(len(nodes))
				if g.IntN(2) == 0 {
					j = len(nodes) - 1
				}
				for twins := 1 + g.IntN(3); twins > 0; twins-- {
					var o op
					if g.IntN(3) == 0 {
						o = op{IsGrp: true, Group: g.groupName()}
					} else {
						o = op{Attrs: g.attrs(1+g.IntN(3), 1)}
						if g.IntN(3) == 0 {
							// Sizes around the capacities of slices and buffers.
							o.Attrs = append(o.Attrs, attr{"fill", val{Kind: "str", S: strings.Repeat("f", pick(g, 1, 30, 100, 400, 500, 512, 1000, 2000))}})
						}
					}
					p := nodes[j]
					nodes = append(nodes, derived{derive(p.h, []op{o}), append(append([]op(nil), p.ops...), o)})
					children[j]++
					fmt.Fprintf(&hist, "%d = %d.%s; ", len(nodes)-1, j, o)
					c.Count("derivations", 1)
				}
			}
			for _, j := range g.Perm(len(nodes)) {
				if !ok {
					break
				}
				ok = logOne(j)
			}
		}()
		c.Eval(s.String() + hist.String())
		if i < 2 {
			c.Sample(map[string]any{"handler": s.String(), "history": clip(hist.String(), 600)})
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------

type levelFn func() slog.Level

func (f levelFn) Level() slog.Level { return f() }

// c06: which levels are logged.
func c06(c *kit.Ctx) {
	c.Rule("case = threshold (constant, LevelVar, own Leveler, none) x derivation chain x history of threshold changes x level; oracle: enabled iff level >= threshold now; a Logger writes exactly one line iff enabled")
	n := c.N(4000, 80000)
	interesting := []slog.Level{math.MinInt, -1000, -8, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 127, 128, 1000, math.MaxInt32, math.MaxInt}
	for i := 0; i < n && c.Violations() < 20; i++ {
		g := &gen{Rand: c.Rng("level", i)}
		s := g.subject("", false)
		cur := slog.LevelInfo
		var set func(slog.Level)
		var opts *slog.HandlerOptions
		mode := g.IntN(5)
		switch mode {
		case 0: // no options
		case 1:
			opts = &slog.HandlerOptions{}
		case 2:
			cur = slog.Level(g.IntN(31) - 15)
			opts = &slog.HandlerOptions{Level: cur}
		case 3:
			lv := &slog.LevelVar{}
			set = func(l slog.Level) { lv.Set(l); cur = l }
			opts = &slog.HandlerOptions{Level: lv}
		case 4:
			var own slog.Level
			set = func(l slog.Level) { own = l; cur = l }
			opts = &slog.HandlerOptions{Level: levelFn(func() slog.Level { return own })}
			cur = own
		}
		w := &sink{}
		base := s.buildWith(w, opts)
		hs := []slog.Handler{base}
		var desc []string
		for k := 0; k < 4; k++ {
			o := g.ops(3)
			hs = append(hs, derive(pick(g, hs...), o))
			desc = append(desc, fmt.Sprint(o))
		}
		rounds := 1
		if set != nil {
			rounds = 4
		}
		for r := 0; r < rounds; r++ {
			if set != nil {
				set(pick(g, append(interesting, slog.Level(g.IntN(31)-15))...))
				c.Count("threshold changes", 1)
			}
			for k, h := range hs {
				lg := slog.New(h)
				for _, l := range append(interesting, cur, cur-1, cur+1, slog.Level(g.IntN(60)-30)) {
					want := l >= cur
					got := h.Enabled(ctxBackground, l)
					c.Count("levels asked", 1)
					w.take()
					lg.Log(ctxBackground, l, "m", "k", 1)
					writes := len(w.take())
					if got != want || (writes == 1) != want || writes > 1 {
						c.Violate(fmt.Sprintf("level %d, threshold %d: enabled %v, %d writes", l, cur, got, writes),
							map[string]any{"handler": s.String(), "mode": mode, "derived": desc, "of": k, "round": r})
					}
				}
			}
			c.Eval(fmt.Sprint(s, mode, cur, desc, r))
		}
	}
	c.Need("threshold changes", 1000)
	c.Sample(map[string]any{"levels": fmt.Sprint(interesting), "modes": "nil options, empty options, Level, LevelVar, own Leveler"})
}

// ---------------------------------------------------------------------------

//go:noinline
func callerPC(skip int) uintptr {
	var pcs [1]uintptr
	runtime.Callers(2+skip, pcs[:])
	return pcs[0]
}

type caller struct{}

func (caller) value() uintptr    { return callerPC(0) }
func (*caller) pointer() uintptr { return callerPC(0) }

func generic[T any](T) uintptr { return callerPC(0) }
func inlined() uintptr         { return callerPC(0) }

// recorder keeps the positions of the calls that it gets.
type recorder struct {
	slog.Handler
	pcs *[]uintptr
}

func (r recorder) Handle(_ context.Context, rec slog.Record) error {
	*r.pcs = append(*r.pcs, rec.PC)
	return nil
}

func short(l *slog.Logger)               { l.Info("inlined") }
func shorter(l *slog.Logger)             { short(l) }
func shortOf[T any](l *slog.Logger, v T) { l.Info("generic", "v", v) }

// logCalls makes log calls in all kinds of statements.
func logCalls(l *slog.Logger) {
	for i := 0; i < 3; i++ {
		l.Info("in a loop")
	}
	for i := range 3 {
		switch i {
		case 0:
			l.Info("in a case")
		case 1:
			l.Info("in another case")
		default:
			l.Info("in the default case")
		}
	}
	if l.Enabled(ctxBackground, slog.LevelInfo) {
		l.Log(
			ctxBackground,
			slog.LevelInfo,
			"over many lines",
			"key",
			len(os.Args),
		)
	} else {
		l.Error("not here")
	}
	l.LogAttrs(ctxBackground, slog.LevelWarn, "attributes", slog.Int("a", 1))
	l.Warn("two on a line")
	short(l)
	shorter(l)
	shortOf(l, 1)
	shortOf(l, "x")
	f := l.InfoContext
	f(ctxBackground, "method value")
	g := (*slog.Logger).Info
	g(l, "method expression")
	func() {
		defer l.Info("deferred")
		defer func() {
			l.Info("in a deferred function")
		}()
	}()
	func() {
		defer func() {
			_ = recover()
			l.Info("while panicking")
		}()
		panic("planned")
	}()
	done := make(chan bool)
	go func() {
		defer close(done)
		l.Info("in a goroutine")
	}()
	<-done
	done = make(chan bool)
	go func() {
		l.With("a", 1).WithGroup("g").Info("derived")
		done <- true
	}()
	<-done
	l.Info("at the end")
}

func pcs() []uintptr {
	list := []uintptr{0, callerPC(0), callerPC(1), caller{}.value(), (&caller{}).pointer(), generic(1), generic("x"), inlined(),
		func() uintptr { return callerPC(0) }(), func() uintptr { return func() uintptr { return callerPC(0) }() }()}
	defer func() { list = append(list, callerPC(0)) }()
	func() { defer func() { list = append(list, callerPC(0)) }() }()
	for range 2 {
		list = append(list, callerPC(0))
	}
	logCalls(slog.New(recorder{slog.NewTextHandler(io.Discard, nil), &list}))
	return list
}

// c07: time, level, message, source.
func c07(c *kit.Ctx) {
	c.Rule("case = handler with AddSource on or off, extras (keys, level names, time format), program counter, time (zero, zones, nanoseconds), level, derivation chain; oracle: exactly the configured built-in fields in front")
	n := c.N(60000, 1500000)
	list := pcs()
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("basic", i)}
		s := g.subject("", false)
		s.src = g.IntN(3) != 0
		if g.IntN(4) == 0 {
			s.rep = g.replacer()
			if s.ext.Format != "" {
				s.rep = nil
			}
		}
		t := testCase{g.ops(3), g.record()}
		t.Rec.PC = list[g.IntN(len(list))]
		t.Rec.Level = slog.Level(g.IntN(60) - 30)
		if g.IntN(2) == 0 {
			t.Rec.Level = pick(g, levels...)
		}
		out, p := s.run(t)
		c.Eval(s.String() + t.String() + fmt.Sprint(t.Rec.PC, s.src))
		count(c, g)
		if s.src && t.Rec.PC != 0 {
			c.Count("records with source", 1)
			c.Seen("call sites", fmt.Sprint(t.Rec.PC))
		}
		c.Seen("levels", fmt.Sprint(t.Rec.Level))
		if p != "" {
			c.Violate(fmt.Sprintf("case %d: %s", i, p), detail(s, t, out))
		}
		if i < 3 {
			c.Sample(map[string]any{"handler": s.String(), "case": t.String(), "line": string(out)})
		}
	}
	// Through a Logger: the source is that of the call.
	for _, name := range []string{"flash", "sloggy"} {
		w := &sink{}
		s := &subject{name: name, ext: &extras{}, level: everything, src: true}
		lg := slog.New(s.build(w)).With("a", 1).WithGroup("g")
		_, file, line, _ := runtime.Caller(0)
		lg.Info("here", "k", "v")
		n, err := kit.ParseLine(bytes.TrimSpace(w.bytes()))
		ok := err == nil
		if ok {
			ok = false
			for _, m := range n.Kids {
				if m.Key == slog.SourceKey {
					ok = kit.Diff("", kit.Node{Kind: 'u', Kids: []kit.Member{
						{Key: "function", Val: str("main.c07")},
						{Key: "file", Val: str(file)},
						{Key: "line", Val: kit.Node{Kind: 'n', Num: fmt.Sprint(line + 1)}}}}, m.Val) == "" ||
						strings.Contains(m.Val.String(), "zverif/handlers.c07") && strings.Contains(m.Val.String(), fmt.Sprint(line+1))
				}
			}
		}
		if !ok {
			c.Violate(name+": the source is not that of the logging call", n.String())
		}
	}
	needs(c, "cases with extras", "records with source")
}

// ---------------------------------------------------------------------------

// c08: what a ReplaceAttr function is asked and what becomes of its answer.
func c08(c *kit.Ctx) {
	c.Rule("case = replace function (keeps, removes, renames, replaces by text, group, LogValuer ... depending on groups and key) x handler x derivation chain x record; oracle: calls of the function (groups, key, kind) as a multiset, and the line, against the model")
	n := c.N(80000, 2000000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("replace", i)}
		s := g.subject("", false)
		s.rep = g.replacer()
		var calls, expected []string
		bad := ""
		s.rep.log = func(groups []string, key string, kind slog.Kind, empty bool) {
			if kind == slog.KindGroup || kind == slog.KindLogValuer {
				bad = fmt.Sprintf("called for %q of kind %s", key, kind)
			}
			if !empty {
				calls = append(calls, fmt.Sprintf("%q %q", groups, key))
			}
		}
		t := testCase{g.ops(4), g.record()}
		out, p := s.run(t)
		n := len(calls)
		m := s.model()
		inner := m.replace
		m.replace = func(groups []string, a attr) attr {
			if !(a.Key == "" && isNilAny(a.V)) {
				expected = append(expected, fmt.Sprintf("%q %q", groups, a.Key))
			}
			return inner(groups, a)
		}
		if !t.Rec.Time.IsZero() {
			m.encode(nil, []attr{{s.ext.timeKey(), val{Kind: "time"}}})
		}
		m.encode(nil, []attr{{s.ext.levelKey(), val{Kind: "str"}}, {s.ext.msgKey(), val{Kind: "str"}}})
		m.body(t.Ops, t.Rec.Attrs)
		if p == "" && bad != "" {
			p = bad
		}
		if p == "" {
			if d := multiset(expected, calls); d != "" {
				p = d
			}
		}
		c.Eval(s.String() + t.String())
		c.Count("calls of the function", n)
		count(c, g)
		if p != "" {
			c.Violate(fmt.Sprintf("case %d: %s", i, p), detail(s, t, out))
		}
		if i < 3 {
			c.Sample(map[string]any{"handler": s.String(), "case": t.String(), "calls": calls, "line": string(out)})
		}
	}
	c.Need("calls of the function", 10000)
	needs(c, "cases with group value", "cases with valuer", "cases with WithGroup", "cases with many calls", "cases with many attributes", "cases with deep group", "cases with huge record", "cases with huge text", "cases with huge group", "cases with huge call of With", "cases with huge chain of calls", "cases with chain of valuers")
}

func multiset(want, got []string) string {
	have := map[string]int{}
	for _, w := range want {
		have[w]++
	}
	for _, x := range got {
		have[x]--
	}
	for k, n := range have {
		if n > 0 {
			return fmt.Sprintf("the function was not called for %s", k)
		}
		if n < 0 {
			return fmt.Sprintf("the function was called for %s, which is none of the attributes, or too often", k)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------

var errWrite = errors.New("planned write error")

// badWriter fails as told.
type badWriter struct {
	sink
	fault string
	err   error
	n     int
}

func (b *badWriter) fails() error {
	if b.err != nil {
		return b.err
	}
	return errWrite
}

func (b *badWriter) Write(p []byte) (int, error) {
	b.n++
	switch b.fault {
	case "error":
		return 0, b.fails()
	case "short":
		_, _ = b.sink.Write(p[:len(p)/2])
		return len(p) / 2, b.fails()
	case "full":
		_, _ = b.sink.Write(p)
		return len(p), b.fails()
	case "panic":
		panic(errWrite)
	}
	return b.sink.Write(p)
}

// c09: failures stay where they happen.
func c09(c *kit.Ctx) {
	c.Rule("case = family of derived handlers x sequence of records, some with values whose methods fail or panic, some met by a write error, a short write, a panicking writer, a panicking replace function; oracle: a write error is reported to the caller (errors.Is), a failing value costs no other member and no line, all other records are exactly those of the model, no lock stays held")
	n := c.N(20000, 400000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("fault", i), special: true}
		s := g.subject("", true)
		if s.rep == nil {
			s.rep = &replacer{} // touches nothing
		}
		explode := false
		opts := s.options()
		inner := opts.ReplaceAttr
		opts.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			if explode && a.Key == "explode" {
				panic("planned panic of the replace function")
			}
			return inner(groups, a)
		}
		w := &badWriter{}
		var hs []derived
		hs = append(hs, derived{s.buildWith(w, opts), nil})
		for k := 0; k < 3; k++ {
			p := hs[g.IntN(len(hs))]
			o := g.ops(3)
			hs = append(hs, derived{derive(p.h, o), append(append([]op(nil), p.ops...), o...)})
		}
		var hist []string
		for k := 0; k < 10; k++ {
			d := hs[g.IntN(len(hs))]
			t := testCase{d.ops, g.record()}
			w.fault = ""
			explode = false
			fault := pick(g, "", "", "", "error", "short", "full", "panic", "replace")
			w.err = pick(g, errWrite, errWrite, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, context.Canceled, error(syscall.EAGAIN), fmt.Errorf("wrapped: %w", io.EOF))
			if fault == "replace" {
				explode = true
				boom := attr{"explode", val{Kind: "int"}}
				for n := g.IntN(3); n > 0; n-- {
					boom = attr{pick(g, "outer", "in", ""), val{Kind: "group", Kids: append(g.attrs(g.IntN(3), 1), boom)}}
				}
				t.Rec.Attrs = append(t.Rec.Attrs, boom)
				if g.IntN(4) == 0 {
					// The same while a handler is derived.
					_ = caught(func() { d.h.WithAttrs(toSlog(t.Rec.Attrs)) })
				}
			} else {
				w.fault = fault
			}
			w.take()
			before := w.n
			var err error
			panicked := any(nil)
			func() {
				defer func() { panicked = recover() }()
				err = d.h.Handle(ctxBackground, t.Rec.slog())
			}()
			calls := w.n - before
			writes := w.take()
			hist = append(hist, fmt.Sprintf("%s fault=%q", t, fault))
			c.Count("records with fault "+map[bool]string{true: "none", false: fault}[fault == ""], 1)
			bad := ""
			switch fault {
			case "":
				out := bytes.Join(writes, nil)
				switch {
				case panicked != nil:
					bad = fmt.Sprintf("panic: %v", panicked)
				case err != nil:
					bad = "Handle failed: " + err.Error()
				case len(writes) != 1:
					bad = fmt.Sprintf("%d writes", len(writes))
				default:
					bad = s.compare(out, t)
				}
			case "error", "short", "full":
				if panicked != nil {
					bad = fmt.Sprintf("panic: %v", panicked)
				} else if !errors.Is(err, w.err) {
					bad = fmt.Sprintf("the write error was not reported, Handle returned %v", err)
				} else if calls != 1 {
					bad = fmt.Sprintf("%d writes", calls)
				}
			case "panic":
				// Whether the panic goes through to the caller is not specified; it must not be lost as a success.
				if panicked == nil && err == nil {
					bad = "the panic of the writer was swallowed and Handle reported success"
				}
			}
			if bad != "" {
				c.Violate(fmt.Sprintf("case %d: %s", i, bad), map[string]any{"handler": s.String(), "history": hist, "output": fmt.Sprintf("%q", writes)})
				break
			}
		}
		c.Eval(s.String() + strings.Join(hist, ";"))
		count(c, g)
		if i < 2 {
			c.Sample(map[string]any{"handler": s.String(), "history": hist[:3]})
		}
	}
	needs(c, "cases with failing value", "records with fault error", "records with fault short", "records with fault full", "records with fault panic", "records with fault replace", "records with fault none")
}

// ---------------------------------------------------------------------------

// c10: a handler leaves what it is given alone, and forgets every record.
func c10(c *kit.Ctx) {
	c.Rule("case = options, extras, attributes, record handed to handlers, compared with deep copies afterwards; changes of the caller's options afterwards; and one probe record logged after random histories (other handlers, long records, failing values, write errors, panics), byte for byte the line it gave at first")
	n := c.N(20000, 400000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("mutation", i), special: true}
		s := g.subject("", false)
		opts := &slog.HandlerOptions{AddSource: g.IntN(2) == 0}
		if g.IntN(2) == 0 {
			opts.Level = slog.LevelDebug
		}
		var ext *flash.Extras
		if g.IntN(4) != 0 {
			ext = s.ext.real()
			if ext == nil {
				ext = &flash.Extras{}
			}
		}
		optsBefore := *opts
		var extBefore *flash.Extras
		if ext != nil {
			e := *ext
			if ext.LevelNames != nil {
				e.LevelNames = map[slog.Level]string{}
				for k, v := range ext.LevelNames {
					e.LevelNames[k] = v
				}
			}
			extBefore = &e
		}
		w := &sink{}
		var h slog.Handler
		if s.name == "flash" {
			h = flash.NewHandler(w, opts, ext)
		} else {
			h = sloggy.NewHandler(w, opts)
		}
		ops := g.ops(4)
		rec := g.record()
		var kept, copies [][]slog.Attr
		h2 := h
		for _, o := range ops {
			if o.IsGrp {
				h2 = h2.WithGroup(o.Group)
				continue
			}
			as := toSlog(o.Attrs)
			kept = append(kept, as)
			copies = append(copies, append([]slog.Attr(nil), as...))
			h2 = h2.WithAttrs(as)
		}
		group := toSlog(g.attrs(4, 2))
		groupCopy := append([]slog.Attr(nil), group...)
		kept, copies = append(kept, group), append(copies, groupCopy)
		r := rec.slog()
		r.AddAttrs(slog.Attr{Key: "grp", Value: slog.GroupValue(group...)})
		flat := func(r slog.Record) (out []slog.Attr) {
			r.Attrs(func(a slog.Attr) bool { out = append(out, a); return true })
			return
		}
		before := flat(r)
		_ = h2.Handle(ctxBackground, r)
		first := w.bytes()
		_ = h2.Handle(ctxBackground, r)
		second := w.bytes()
		bad := ""
		if opts.AddSource != optsBefore.AddSource || opts.Level != optsBefore.Level || opts.ReplaceAttr != nil {
			bad = fmt.Sprintf("the caller's options were changed from %+v to %+v", optsBefore, *opts)
		}
		if ext != nil && !reflect.DeepEqual(ext, extBefore) {
			bad = fmt.Sprintf("the caller's extras were changed from %+v to %+v", *extBefore, *ext)
		}
		for k := range kept {
			if d := sameAttrs(copies[k], kept[k]); d != "" {
				bad = "the caller's attributes were changed: " + d
			}
		}
		if d := sameAttrs(before, flat(r)); d != "" {
			bad = "the record was changed: " + d
		}
		if !bytes.Equal(first, second) {
			bad = fmt.Sprintf("the same record gave %q and then %q", first, second)
		}
		if bad == "" {
			// Later changes of what was handed over belong to the caller alone.
			opts.Level, opts.AddSource = slog.Level(1000), !opts.AddSource
			opts.ReplaceAttr = func([]string, slog.Attr) slog.Attr { return slog.Attr{} }
			if ext != nil {
				ext.TimeFormat, ext.LevelKey, ext.MessageKey, ext.TimeKey = "2006", "changed", "changed", "changed"
				for k := range ext.LevelNames {
					ext.LevelNames[k] = "changed"
				}
			}
			_ = h2.Handle(ctxBackground, r)
			if third := w.bytes(); !bytes.Equal(first, third) {
				bad = fmt.Sprintf("after the caller changed its own options the record gave %q instead of %q", third, first)
			}
			min := slog.LevelInfo
			if optsBefore.Level != nil {
				min = optsBefore.Level.Level()
			}
			if !h2.Enabled(ctxBackground, min) || h2.Enabled(ctxBackground, min-1) {
				bad = "after the caller changed its own options the threshold of the handler changed"
			}
		}
		c.Eval(s.String() + fmt.Sprint(ops) + rec.String())
		c.Count("handovers compared", 1)
		if bad != "" {
			c.Violate(fmt.Sprintf("case %d: %s", i, bad), map[string]any{"handler": s.String(), "ops": fmt.Sprint(ops), "record": rec.String()})
		}
	}
	// Independence of history.
	n = c.N(3000, 60000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		g := &gen{Rand: c.Rng("history", i), special: true}
		s := g.subject("", true)
		t := testCase{g.ops(4), g.record()}
		if g.IntN(2) == 0 {
			t.Rec.Level = pick(g, namedLevels...)
			for _, l := range namedLevels {
				if s.ext.Names[l] != "" && g.IntN(2) == 0 {
					t.Rec.Level = l
				}
			}
		}
		w := &badWriter{}
		h := derive(s.build(w), t.Ops)
		if err := h.Handle(ctxBackground, t.Rec.slog()); err != nil {
			continue
		}
		first := w.bytes()
		if p := s.compare(first, t); p != "" {
			// Whatever was logged before by other handlers has had its influence.
			c.Violate(fmt.Sprintf("history %d: %s", i, p), detail(s, t, first))
		}
		var hist []string
		for k := 0; k < 8; k++ {
			os := g.subject("", true)
			o := testCase{g.ops(3), g.record()}
			if g.IntN(2) == 0 {
				o.Rec.Level = t.Rec.Level
			}
			if g.IntN(3) == 0 {
				o.Rec.Attrs = append(o.Rec.Attrs, attr{"fill", val{Kind: "str", S: strings.Repeat("\"}x", g.IntN(3000))}})
			}
			ow := &badWriter{fault: pick(g, "", "", "error", "short", "full", "panic")}
			opts := os.options()
			if g.IntN(4) == 0 {
				opts.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
					if a.Key == "a" || a.Key == "b" {
						panic("planned")
					}
					return a
				}
			}
			func() {
				defer func() { _ = recover() }()
				_ = derive(os.buildWith(ow, opts), o.Ops).Handle(ctxBackground, o.Rec.slog())
			}()
			hist = append(hist, os.String()+" "+o.String()+" "+ow.fault)
			c.Count("records in between", 1)
			if g.IntN(2) == 0 {
				_ = h.Handle(ctxBackground, t.Rec.slog())
				if again := w.bytes(); !bytes.Equal(first, again) {
					c.Violate(fmt.Sprintf("history %d: the record gave %q at first and %q later", i, first, again), map[string]any{"handler": s.String(), "case": t.String(), "history": hist})
					break
				}
			}
		}
		fresh := &sink{}
		_ = derive(s.build(fresh), t.Ops).Handle(ctxBackground, t.Rec.slog())
		if again := fresh.bytes(); !bytes.Equal(first, again) {
			c.Violate(fmt.Sprintf("history %d: the record gave %q at first and %q by a new handler later", i, first, again), map[string]any{"handler": s.String(), "case": t.String(), "history": hist})
		}
		c.Eval(s.String() + t.String() + strings.Join(hist, ";"))
		if i < 2 {
			c.Sample(map[string]any{"handler": s.String(), "probe": t.String(), "history": clip(strings.Join(hist, "; "), 800)})
		}
	}
	c.Need("handovers compared", 1000)
	c.Need("records in between", 1000)
	lifetimes(c)
}

// lifetimes logs very many records with one handler, and with handlers derived again and again.
func lifetimes(c *kit.Ctx) {
	n, m := c.N(16, 160), c.N(4000, 20000)
	for i := 0; i < n && c.Violations() < 20; i++ {
		g := &gen{Rand: c.Rng("life", i), special: i%2 == 0}
		s := g.subject("", i%4 > 0)
		w := &badWriter{}
		ops := g.ops(3)
		h := derive(s.build(w), ops)
		chain, last := ops, h
		for k := 0; k < m; k++ {
			t := testCase{ops, g.record()}
			to := h
			switch {
			case g.IntN(100) == 0:
				w.fault = pick(g, "error", "short", "full")
				_ = h.Handle(ctxBackground, t.Rec.slog())
				w.fault = ""
				w.take()
			case g.IntN(20) == 0 && len(chain) < 300:
				o := op{IsGrp: true, Group: g.groupName()}
				if g.IntN(2) == 0 {
					o = op{Attrs: g.attrs(g.IntN(3), 1)}
				}
				last, chain = derive(last, []op{o}), append(chain[:len(chain):len(chain)], o)
				fallthrough
			case g.IntN(50) == 0:
				to, t.Ops = last, chain
				c.Count("records by long derived handlers", 1)
			}
			out, p := s.handle(to, &w.sink, t)
			c.Count("records in long lives", 1)
			if p != "" {
				c.Violate(fmt.Sprintf("life %d, record %d, %d derivations: %s", i, k, len(t.Ops), p), detail(s, t, out))
				break
			}
		}
		c.Eval("life " + s.String() + fmt.Sprint(ops))
	}
	c.Need("records in long lives", 50000)
	c.Need("records by long derived handlers", 2000)
}

func sameAttrs(a, b []slog.Attr) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d instead of %d", len(b), len(a))
	}
	for i := range a {
		if a[i].Key != b[i].Key || a[i].Value.Kind() != b[i].Value.Kind() {
			return fmt.Sprintf("attribute %d, %q, is now %q", i, a[i].Key, b[i].Key)
		}
		switch a[i].Value.Kind() {
		case slog.KindAny, slog.KindLogValuer:
		case slog.KindGroup:
			if d := sameAttrs(a[i].Value.Group(), b[i].Value.Group()); d != "" {
				return d
			}
		case slog.KindFloat64:
			if math.Float64bits(a[i].Value.Float64()) != math.Float64bits(b[i].Value.Float64()) {
				return a[i].Key
			}
		default:
			if !a[i].Value.Equal(b[i].Value) {
				return a[i].Key
			}
		}
	}
	return ""
}

var _ = context.Background
var _ io.Writer = (*sink)(nil)
