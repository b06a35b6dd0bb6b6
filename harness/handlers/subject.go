package main

import (
	"fmt"
	"io"
	"log/slog"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// extras describes flash.Extras as far as the model needs them.
type extras struct {
	Set                   bool
	Time, Level, Msg, Src string
	Format                string
	Names                 map[slog.Level]string
}

func (e *extras) real() *flash.Extras {
	if e == nil || !e.Set {
		return nil
	}
	x := &flash.Extras{TimeFormat: e.Format, LevelKey: e.Level, MessageKey: e.Msg, SourceKey: e.Src, TimeKey: e.Time}
	if e.Names != nil {
		x.LevelNames = map[slog.Level]string{}
		for k, v := range e.Names {
			x.LevelNames[k] = v
		}
	}
	return x
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func (e *extras) timeKey() string  { return orElse(e.Time, slog.TimeKey) }
func (e *extras) levelKey() string { return orElse(e.Level, slog.LevelKey) }
func (e *extras) msgKey() string   { return orElse(e.Msg, slog.MessageKey) }
func (e *extras) srcKey() string   { return orElse(e.Src, slog.SourceKey) }
func (e *extras) format() string   { return orElse(e.Format, time.RFC3339Nano) }
func (e *extras) name(l slog.Level) string {
	return orElse(e.Names[l], l.String())
}

func (e *extras) String() string {
	if !e.Set {
		return "no extras"
	}
	return fmt.Sprintf("extras(time=%q level=%q msg=%q source=%q format=%q names=%q)", e.Time, e.Level, e.Msg, e.Src, e.Format, e.Names)
}

var formats = []string{time.RFC3339, time.DateOnly, time.RFC1123Z, time.ANSIC, time.StampNano, time.Kitchen,
	`"2006"`, `2006\01\02`, "2006\n01\t02", "Jan é 2006 😀", `{"y":"2006"}`, "2006/01/02 15:04:05", "15h\x0004m", "\xff2006"}

// namedLevels are those that Extras may name.
var namedLevels = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError, 2, -8, 12, -3, 5}

func (g *gen) extras() *extras {
	e := &extras{}
	if g.IntN(3) == 0 {
		return e
	}
	g.mark("extras")
	e.Set = true
	name := func(plain string) string {
		switch g.IntN(5) {
		case 0:
			return plain
		case 1:
			return g.text()
		default:
			return ""
		}
	}
	e.Time, e.Level, e.Msg, e.Src = name("When"), name("Why"), name("What"), name("Whence")
	if g.IntN(3) == 0 {
		e.Format = pick(g, formats...)
	}
	if g.IntN(2) == 0 {
		e.Names = map[slog.Level]string{}
		for n := g.IntN(4); n > 0; n-- {
			e.Names[pick(g, namedLevels...)] = name("NAME")
		}
	}
	return e
}

// subject is a configured handler together with the model of its configuration.
type subject struct {
	name  string
	ext   *extras
	rep   *replacer
	level slog.Leveler
	src   bool
}

func (s *subject) options() *slog.HandlerOptions {
	o := &slog.HandlerOptions{Level: s.level, AddSource: s.src}
	if s.rep != nil {
		o.ReplaceAttr = s.rep.real
	}
	return o
}

func (s *subject) build(w io.Writer) slog.Handler { return s.buildWith(w, s.options()) }

func (s *subject) buildWith(w io.Writer, o *slog.HandlerOptions) slog.Handler {
	if s.name == "flash" {
		return flash.NewHandler(w, o, s.ext.real())
	}
	return sloggy.NewHandler(w, o)
}

func (s *subject) model() *model {
	m := &model{}
	if s.rep != nil {
		m.replace = s.rep.model
	}
	if s.ext.Format != "" {
		m.timeFormat = "custom"
	}
	return m
}

func (s *subject) String() string {
	r := ""
	if s.rep != nil {
		r = " replace#" + fmt.Sprint(s.rep.seed)
	}
	return s.name + " " + s.ext.String() + r
}

const everything = slog.Level(-1 << 30)

// subject picks a handler; which: "" both, else this one.
func (g *gen) subject(which string, rep bool) *subject {
	s := &subject{name: which, ext: &extras{}, level: everything}
	if which == "" {
		s.name = pick(g, "flash", "sloggy")
	}
	if s.name == "flash" {
		s.ext = g.extras()
	}
	if rep && g.IntN(2) == 0 {
		g.mark("ReplaceAttr")
		s.rep = g.replacer()
	}
	return s
}

// expect gives the tree of the line; the place of the source is marked when it is to be logged.
func (s *subject) expect(t testCase) kit.Node {
	m := s.model()
	var kids []kit.Member
	add := func(key string, v val) {
		kids = append(kids, m.encode(nil, []attr{{key, v}})...)
	}
	if !t.Rec.Time.IsZero() {
		if s.ext.Format != "" && s.rep == nil {
			kids = append(kids, kit.Member{Key: s.ext.timeKey(), Val: kit.Node{Kind: 's', Str: t.Rec.Time.Format(s.ext.Format)}})
		} else {
			add(s.ext.timeKey(), val{Kind: "time", T: t.Rec.Time})
		}
	}
	add(s.ext.levelKey(), val{Kind: "str", S: s.ext.name(t.Rec.Level)})
	add(s.ext.msgKey(), val{Kind: "str", S: t.Rec.Msg})
	if s.src && t.Rec.PC != 0 {
		add(s.ext.srcKey(), val{Kind: "any", Name: "source", exp: sourceNode(t.Rec.PC)})
	}
	return kit.Node{Kind: 'o', Kids: append(kids, m.body(t.Ops, t.Rec.Attrs)...)}
}

// run logs one record through a fresh handler and compares the line with the model.
func (s *subject) run(t testCase) (out []byte, problem string) {
	defer func() {
		if r := recover(); r != nil {
			problem = fmt.Sprintf("panic: %v", r)
		}
	}()
	w := &sink{}
	h := derive(s.build(w), t.Ops)
	return s.handle(h, w, t)
}

func (s *subject) handle(h slog.Handler, w *sink, t testCase) (out []byte, problem string) {
	if err := h.Handle(ctxBackground, t.Rec.slog()); err != nil {
		return w.bytes(), "Handle failed: " + err.Error()
	}
	writes := w.take()
	for _, b := range writes {
		out = append(out, b...)
	}
	if len(writes) != 1 {
		return out, fmt.Sprintf("%d writes for one record", len(writes))
	}
	return out, s.compare(out, t)
}

func (s *subject) compare(out []byte, t testCase) string {
	n, err := line(out)
	if err != nil {
		return "malformed: " + err.Error()
	}
	if d := kit.Diff("", s.expect(t), n); d != "" {
		return "content: " + d
	}
	return ""
}

// ---------------------------------------------------------------------------
// Replace functions: what happens to an attribute depends on its groups and its key alone, so that the
// real function and the model decide alike.

type replacer struct {
	seed   uint64
	values []val
	inline []attr
	only   int // percentage of attributes touched
	log    func(groups []string, key string, kind slog.Kind, empty bool)
}

func (g *gen) replacer() *replacer {
	r := &replacer{seed: g.Uint64() % 1000000, only: pick(g, 15, 40, 100)}
	for i := 0; i < 4; i++ {
		r.values = append(r.values, g.value(2))
	}
	for i := 1 + g.IntN(3); i > 0; i-- {
		r.inline = append(r.inline, attr{fmt.Sprint("~", i), val{Kind: "int", I: int64(i)}})
	}
	return r
}

func (r *replacer) action(groups []string, key string) uint64 {
	h := r.seed*0x9E3779B97F4A7C15 + 0x1234567
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
		h = (h ^ 0xABCD) * 0x100000001b3
	}
	for _, g := range groups {
		mix(g)
	}
	h ^= 0x5555
	mix(key)
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	if int(h%100) >= r.only {
		return 0
	}
	n := 1 + (h>>8)%9
	if n >= 5 && (key == "" || len(groups) > 3) || n == 9 && strings.HasPrefix(key, "~") {
		return 0 // a replacement by a group could go on for ever
	}
	return n
}

func stamp(groups []string, key string) string { return key + "@" + strings.Join(groups, "/") }

func (r *replacer) real(groups []string, a slog.Attr) slog.Attr {
	if r.log != nil {
		r.log(groups, a.Key, a.Value.Kind(), a.Equal(slog.Attr{}))
	}
	if a.Equal(slog.Attr{}) {
		return a // whether the function is asked about an attribute that is to be ignored is left open
	}
	switch n := r.action(groups, a.Key); n {
	case 1, 2:
		return slog.Attr{}
	case 3:
		a.Key = stamp(groups, a.Key)
	case 4:
		a.Value = slog.StringValue(stamp(groups, a.Key))
	case 5, 6, 7, 8:
		a.Value = r.values[n-5].slog()
	case 9:
		// Several attributes in place of one.
		a = slog.Attr{Value: slog.GroupValue(toSlog(r.inline)...)}
	}
	return a
}

func (r *replacer) model(groups []string, a attr) attr {
	if a.Key == "" && isNilAny(a.V) {
		return a
	}
	switch n := r.action(groups, a.Key); n {
	case 1, 2:
		return attr{"", nilVal()}
	case 3:
		a.Key = stamp(groups, a.Key)
	case 4:
		a.V = val{Kind: "str", S: stamp(groups, a.Key)}
	case 5, 6, 7, 8:
		a.V = r.values[n-5]
	case 9:
		a = attr{"", val{Kind: "group", Kids: r.inline}}
	}
	return a
}
