package main

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"strings"

	phuslu "github.com/phuslu/log"
	"github.com/sirupsen/logrus"
	slogdedup "github.com/veqryn/slog-dedup"
	"go.uber.org/zap/zapcore"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/phsymzerolog"
	"github.com/madkins23/go-slog/creator/phusluslog"
	"github.com/madkins23/go-slog/creator/samberlogrus"
	"github.com/madkins23/go-slog/creator/samberzap"
	"github.com/madkins23/go-slog/creator/samberzerolog"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/creator/utillogrus"
	"github.com/madkins23/go-slog/creator/utilzap"
	"github.com/madkins23/go-slog/creator/veqryndedup"
	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

type creation struct {
	infra.Creator
	name string
	// same makes the handler that the creator is said to make
	same func(w io.Writer, o *slog.HandlerOptions) slog.Handler
	// source tells how the position of the call is logged
	source string
	// replaces tells that ReplaceAttr is supported
	replaces bool
}

func plainJSON(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }

func plainFlash(w io.Writer, o *slog.HandlerOptions) slog.Handler {
	return flash.NewHandler(w, o, nil)
}

var creations = []creation{
	{madkinsflash.Creator(), "madkins/flash", plainFlash, "source", true},
	{madkinsreplattr.Creator(), "madkins/replattr", plainFlash, "source", true},
	{madkinssloggy.Creator(), "madkins/sloggy", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return sloggy.NewHandler(w, o) }, "source", true},
	{slogjson.Creator(), "slog/JSONHandler", plainJSON, "source", true},
	{phusluslog.Creator(), "phuslu/slog", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return phuslu.SlogNewJSONHandler(w, o) }, "source", true},
	{veqryndedup.Creator(veqryndedup.Append), "veqryn/dedup/Append", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		return slogdedup.NewAppendHandler(plainJSON(w, o), nil)
	}, "source", true},
	{veqryndedup.Creator(veqryndedup.Ignore), "veqryn/dedup/Ignore", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		return slogdedup.NewIgnoreHandler(plainJSON(w, o), nil)
	}, "source", true},
	{veqryndedup.Creator(veqryndedup.Increment), "veqryn/dedup/Increment", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		return slogdedup.NewIncrementHandler(plainJSON(w, o), nil)
	}, "source", true},
	{veqryndedup.Creator(veqryndedup.Overwrite), "veqryn/dedup/Overwrite", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		return slogdedup.NewOverwriteHandler(plainJSON(w, o), nil)
	}, "source", true},
	{phsymzerolog.Creator(), "phsym/zeroslog", nil, "caller", false},
	{samberlogrus.Creator(), "samber/slog-logrus", nil, "source", true},
	{samberzap.Creator(), "samber/slog-zap", nil, "caller", true},
	{samberzerolog.Creator(), "samber/slog-zerolog", nil, "source", true},
}

// c11: creators make the handlers that they describe, with the options given, for the writer given.
func c11(c *kit.Ctx) {
	c.Rule("case = creator x options (level fixed or variable, source, replace function) x derivation chain x record, drawn from the seed; own handlers and those of slog, phuslu and veqryn are compared byte by byte with a handler made directly, the others by level, message, attributes and source; the level variable is moved between records; a second handler from the same creator must stay silent; distinct by full description")
	c.Assume("log/slog and the wrapped libraries do what they do; creators whose module is not available offline (chanchal, svcrunner, snqk/meld) are not built.")
	describing(c)
	conversions(c)
	refused(c)
	n := c.N(30000, 600000)
	list := pcs()
	for i := 0; i < n && c.Violations() < 20; i++ {
		if c.Only >= 0 && c.Only != i {
			continue
		}
		g := &gen{Rand: c.Rng("creator", i)}
		cr := creations[i%len(creations)]
		var what string
		c.Guard(cr.name, func() any { return map[string]any{"case": i, "creator": cr.name, "what": what} }, func() {
			if cr.same != nil {
				what = sameHandler(c, g, cr, i, list[g.IntN(len(list))])
			} else {
				what = likeHandler(c, g, cr, i, list[1+g.IntN(len(list)-1)])
			}
		})
		c.Eval(cr.name + what)
		c.Count("cases of "+cr.name, 1)
		c.Seen("creators", cr.name)
		count(c, g)
	}
	for _, cr := range creations {
		c.Need("cases of "+cr.name, 50)
	}
	c.Need("lines compared", 1000)
	c.Need("lines below the level", 100)
	c.Need("lines of other handlers of the creator in between", 500)
	c.Need("lines of madkins/replattr with a function of the user", 20)
}

// make lets the creator make a handler in one of the two ways.
func (cr *creation) make(g *gen, w io.Writer, o *slog.HandlerOptions) slog.Handler {
	if g.IntN(2) == 0 {
		return cr.NewLogger(w, o).Handler()
	}
	return cr.NewHandler(w, o)
}

func unchanged(o *slog.HandlerOptions, before slog.HandlerOptions) bool {
	return o.AddSource == before.AddSource && o.Level == before.Level &&
		reflect.ValueOf(o.ReplaceAttr).Pointer() == reflect.ValueOf(before.ReplaceAttr).Pointer()
}

func sameHandler(c *kit.Ctx, g *gen, cr creation, i int, pc uintptr) string {
	o := &slog.HandlerOptions{AddSource: g.IntN(2) == 0}
	level := &slog.LevelVar{}
	switch g.IntN(3) {
	case 0:
		o.Level = slog.Level(g.IntN(20) - 8)
	case 1:
		level.Set(slog.Level(g.IntN(20) - 8))
		o.Level = level
	}
	rep := "-"
	if g.IntN(3) == 0 {
		r := g.replacer()
		o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			if b := r.real(groups, a); b.Value.Resolve().Kind() != slog.KindGroup {
				return b
			}
			return a // log/slog would go on replacing within the group, perhaps for ever
		}
		rep = fmt.Sprint(r.seed)
	}
	before := *o
	w, v, silent, aside := &sink{}, &sink{}, &sink{}, &sink{}
	var early, late slog.Handler
	if g.IntN(2) == 0 {
		early = cr.make(g, aside, stranger(g))
	}
	if g.IntN(3) == 0 {
		// Options and writer used before, for something else.
		*o = *stranger(g)
		cr.make(g, w, o)
		*o = before
	}
	h := cr.make(g, w, o)
	other := cr.make(g, silent, o)
	if g.IntN(2) == 0 {
		late = cr.make(g, aside, stranger(g))
	}
	ref := cr.same(v, o)
	ops := g.ops(3)
	// phuslu/log panics on certain attributes: whatever the wrapped handler does, the made one has to do.
	if p, q := caught(func() { h, other = derive(h, ops), derive(other, ops) }), caught(func() { ref = derive(ref, ops) }); (p == "") != (q == "") {
		c.Violate(fmt.Sprintf("%s: the handler panics or not, other than the handler it is said to be", cr.name), map[string]any{"case": i, "ops": testCase{ops, record{}}.String(), "got": p, "want": q})
		return ""
	} else if p != "" {
		c.Count("panics of the wrapped handler", 1)
		return ""
	}
	out := ""
	for k := 1 + g.IntN(3); k > 0; k-- {
		rec := g.record()
		rec.PC = pc
		if cr.name == "madkins/replattr" && (fixed(rec.Attrs) || fixedOps(ops)) {
			c.Count("left open", 1)
			return out
		}
		if o.Level == slog.Leveler(level) {
			level.Set(slog.Level(g.IntN(20) - 8))
		}
		en, want := h.Enabled(ctxBackground, rec.Level), ref.Enabled(ctxBackground, rec.Level)
		detail := func() any {
			return map[string]any{"case": i, "creator": cr.name, "level": fmt.Sprint(o.Level), "source": o.AddSource, "replace": rep, "handler": testCase{ops, rec}.String()}
		}
		if en != want {
			c.Violate(fmt.Sprintf("%s: Enabled(%d) is %v", cr.name, rec.Level, en), detail())
		}
		if !want {
			c.Count("lines below the level", 1)
			slog.New(h).LogAttrs(ctxBackground, rec.Level, rec.Msg)
			if b := w.bytes(); len(b) > 0 {
				c.Violate(fmt.Sprintf("%s: a record below the level is written", cr.name), map[string]any{"case": detail(), "line": string(b)})
			}
			continue
		}
		for _, s := range []slog.Handler{early, late} {
			if s != nil && g.IntN(2) == 0 {
				_ = caught(func() { _ = s.Handle(ctxBackground, rec.slog()) })
				c.Count("lines of other handlers of the creator in between", 1)
			}
		}
		var err, refErr error
		p, q := caught(func() { err = h.Handle(ctxBackground, rec.slog()) }), caught(func() { refErr = ref.Handle(ctxBackground, rec.slog()) })
		if (p == "") != (q == "") {
			c.Violate(fmt.Sprintf("%s: the handler panics or not, other than the handler it is said to be", cr.name), map[string]any{"case": detail(), "got": p, "want": q})
			return out
		} else if p != "" {
			c.Count("panics of the wrapped handler", 1)
			return out
		}
		got, exp := w.bytes(), v.bytes()
		if (err == nil) != (refErr == nil) || !bytes.Equal(got, exp) {
			again := cr.same(v, o)
			again = derive(again, ops)
			_ = again.Handle(ctxBackground, rec.slog())
			if bytes.Equal(v.bytes(), exp) { // otherwise there is no telling
				c.Violate(fmt.Sprintf("%s: another line than from the handler it is said to make", cr.name), map[string]any{"case": detail(), "got": string(got), "want": string(exp), "error": fmt.Sprint(err), "want error": fmt.Sprint(refErr)})
			}
		}
		if o.AddSource && pc != 0 {
			c.Count("lines with source", 1)
		}
		c.Count("lines compared", 1)
		if rep != "-" {
			c.Count("lines of "+cr.name+" with a function of the user", 1)
		}
		out += testCase{ops, rec}.String()
	}
	if b := silent.bytes(); len(b) > 0 {
		c.Violate(fmt.Sprintf("%s: a line is written by a handler which was not used", cr.name), map[string]any{"case": i, "line": string(b)})
	}
	if !unchanged(o, before) {
		c.Violate(fmt.Sprintf("%s: the options are changed", cr.name), map[string]any{"case": i})
	}
	return fmt.Sprint(before.Level, before.AddSource, rep, out)
}

// stranger gives options for another handler of the same creator.
func stranger(g *gen) *slog.HandlerOptions {
	o := &slog.HandlerOptions{AddSource: g.IntN(2) == 0, Level: slog.Level(g.IntN(20) - 8)}
	if g.IntN(2) == 0 {
		o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return slog.String("strange", "stranger") }
	}
	return o
}

func caught(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// fixed tells whether the replace functions of madkins/replattr touch an attribute of the user.
func fixed(as []attr) bool {
	for _, a := range as {
		switch a.Key {
		case "message", "lvl", "level":
			return true
		}
		if (a.V.Kind == "group" || a.V.Kind == "valuer") && fixed(append(a.V.Kids, subs(a.V)...)) {
			return true
		}
	}
	return false
}

func subs(v val) []attr {
	if v.Sub == nil {
		return nil
	}
	return []attr{{Key: "", V: *v.Sub}}
}

func fixedOps(ops []op) bool {
	for _, o := range ops {
		if fixed(o.Attrs) {
			return true
		}
	}
	return false
}

// likeHandler checks the handlers of other libraries for what the creator is responsible for.
func likeHandler(c *kit.Ctx, g *gen, cr creation, i int, pc uintptr) string {
	o := &slog.HandlerOptions{AddSource: g.IntN(2) == 0}
	level := &slog.LevelVar{}
	level.Set(pick(g, levels...))
	o.Level = slog.Leveler(level)
	fixedLevel := g.IntN(2) == 0
	if fixedLevel {
		o.Level = level.Level()
	}
	replace := cr.replaces && g.IntN(2) == 0
	key, other := "alpha", "beta"
	if replace {
		o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr {
			if a.Key == "alpha" {
				a.Key = "gamma"
			}
			return a
		}
		key = "gamma"
	}
	before := *o
	w, silent := &sink{}, &sink{}
	h := cr.make(g, w, o)
	unused := cr.make(g, silent, &slog.HandlerOptions{Level: slog.LevelDebug})
	out := ""
	for k := 0; k < 4; k++ {
		if !fixedLevel {
			level.Set(pick(g, levels...))
		}
		l := pick(g, levels...)
		msg := pick(g, "hello", "a b", "x\"y", "done: 100%", "ünï")
		num := g.IntN(2000000) - 1000000
		txt := pick(g, "v", "some text", "q\"uote", "")
		rec := record{Time: g.time(), Level: l, Msg: msg, PC: pc, Attrs: []attr{{"alpha", val{Kind: "int", I: int64(num)}}, {"beta", val{Kind: "str", S: txt}}}}
		with := g.IntN(3) == 0
		hh := h
		if with {
			hh = h.WithAttrs([]slog.Attr{slog.Int("delta", num)})
			unused.WithAttrs([]slog.Attr{slog.Int("delta", num)})
		}
		desc := fmt.Sprintf("%s level=%d at %d msg=%q alpha=%d beta=%q with=%v source=%v replace=%v", cr.name, l, o.Level.Level(), msg, num, txt, with, o.AddSource, replace)
		out += desc
		bad := func(format string, a ...any) {
			c.Violate(cr.name+": "+fmt.Sprintf(format, a...), map[string]any{"case": i, "record": desc})
		}
		want := l >= o.Level.Level()
		if en := hh.Enabled(ctxBackground, l); en != want {
			bad("Enabled(%d) is %v with level %d", l, en, o.Level.Level())
		}
		if !want {
			slog.New(hh).LogAttrs(ctxBackground, l, msg)
			if b := w.bytes(); len(b) > 0 {
				bad("a record below the level is written: %s", b)
			}
			c.Count("lines below the level", 1)
			continue
		}
		if err := hh.Handle(ctxBackground, rec.slog()); err != nil {
			bad("Handle: %v", err)
		}
		b := w.bytes()
		node, err := line(b)
		if err != nil {
			bad("%v: %s", err, b)
			continue
		}
		got := map[string]kit.Node{}
		for _, m := range node.Kids {
			got[m.Key] = m.Val
		}
		if m := either(got, "msg", "message"); m.Kind != 's' || m.Str != msg {
			bad("the message is %s: %s", m, b)
		}
		name := got["level"].Str
		if ok := strings.EqualFold(name, l.String()) || l == slog.LevelWarn && strings.EqualFold(name, "warning"); !ok {
			bad("the level is %q: %s", name, b)
		}
		if v := got[key]; v.Kind != 'n' || !kit.SameNumber(fmt.Sprint(num), v.Num) {
			bad("%s is %s: %s", key, v, b)
		}
		if v := got[other]; v.Kind != 's' || v.Str != txt {
			bad("%s is %s: %s", other, v, b)
		}
		if _, found := got["alpha"]; found && replace {
			bad("an attribute that was replaced is still there: %s", b)
		}
		if v := got["delta"]; with && (v.Kind != 'n' || !kit.SameNumber(fmt.Sprint(num), v.Num)) {
			bad("delta is %s: %s", v, b)
		}
		if v, found := got["time"]; !found || v.Kind != 's' {
			bad("the time is %s: %s", v, b)
		}
		if src, found := got[cr.source]; found != o.AddSource || found && !strings.Contains(src.String(), "checks.go") && !strings.Contains(src.String(), "creators.go") {
			bad("the source is %s: %s", src, b)
		}
		c.Count("lines compared", 1)
	}
	if b := silent.bytes(); len(b) > 0 {
		c.Violate(fmt.Sprintf("%s: a line is written by a handler which was not used", cr.name), map[string]any{"case": i, "line": string(b)})
	}
	if !unchanged(o, before) {
		c.Violate(fmt.Sprintf("%s: the options are changed", cr.name), map[string]any{"case": i})
	}
	return out
}

func either(m map[string]kit.Node, keys ...string) kit.Node {
	for _, k := range keys {
		if v, found := m[k]; found {
			return v
		}
	}
	return kit.Node{}
}

// describing checks what creators and options say of themselves.
func describing(c *kit.Ctx) {
	names := map[string]bool{}
	for _, cr := range creations {
		if cr.Name() != cr.name || names[cr.Name()] || !cr.CanMakeHandler() || !cr.HasSummary() || cr.Summary() == "" || !cr.HasLinks() {
			c.Violate(fmt.Sprintf("creator %s: name %q, can make handler %v, summary %q, links %v", cr.name, cr.Name(), cr.CanMakeHandler(), cr.Summary(), cr.Links()), nil)
		}
		names[cr.Name()] = true
		for n, l := range cr.Links() {
			if u, err := url.Parse(l); n == "" || err != nil || u.Host == "" {
				c.Violate(fmt.Sprintf("creator %s: link %q to %q", cr.name, n, l), nil)
			}
		}
	}
	for _, m := range veqryndedup.ModeValues() {
		if back, err := veqryndedup.ModeString(m.String()); err != nil || back != m || veqryndedup.Name(m) != "veqryn/dedup/"+m.String() || !m.IsAMode() {
			c.Violate(fmt.Sprintf("mode %d: %s, %s, %v", m, m, veqryndedup.Name(m), err), nil)
		}
		c.Count("modes", 1)
	}
	for i := 0; i < 4000; i++ {
		g := &gen{Rand: c.Rng("describe", i)}
		var calls []string
		w, o := &sink{}, &slog.HandlerOptions{Level: slog.Level(g.IntN(100))}
		theHandler, theLogger := plainJSON(w, o), slog.New(plainJSON(w, o))
		hf := func(iw io.Writer, io *slog.HandlerOptions) slog.Handler {
			calls = append(calls, fmt.Sprint("handler ", iw == w && io == o))
			return theHandler
		}
		lf := func(iw io.Writer, io *slog.HandlerOptions) *slog.Logger {
			calls = append(calls, fmt.Sprint("logger ", iw == w && io == o))
			return theLogger
		}
		name, summary, links := "n"+g.text(), "", infra.Links(nil)
		if g.IntN(2) == 0 {
			summary = "s" + g.text()
		}
		for k := g.IntN(3); k > 0; k-- {
			if links == nil {
				links = infra.Links{}
			}
			links[g.text()] = g.text()
		}
		if g.IntN(4) == 0 {
			links = infra.Links{}
		}
		kind := i % 3
		var cr infra.Creator
		switch kind {
		case 0:
			cr = infra.NewCreator(name, hf, nil, summary, links)
		case 1:
			cr = infra.NewCreator(name, nil, lf, summary, links)
		case 2:
			cr = infra.NewCreator(name, hf, lf, summary, links)
		}
		cp := cr // creators are passed by value
		detail := fmt.Sprintf("kind %d name %q summary %q links %v", kind, name, summary, links)
		if cp.Name() != name || cp.Summary() != summary || cp.HasSummary() != (summary != "") || cp.HasLinks() != (len(links) > 0) || len(cp.Links()) != len(links) {
			c.Violate("a creator does not describe itself as it was told to", detail)
		}
		for k, l := range links {
			if cp.Links()[k] != l {
				c.Violate("a creator has lost a link", detail)
			}
		}
		if cp.CanMakeHandler() != (kind != 1) {
			c.Violate("CanMakeHandler is wrong", detail)
		}
		h, l := cp.NewHandler(w, o), cp.NewLogger(w, o)
		want := [][]string{{"handler true", "handler true"}, {"logger true"}, {"handler true", "logger true"}}[kind]
		if fmt.Sprint(calls) != fmt.Sprint(want) {
			c.Violate(fmt.Sprintf("creator functions called: %v, not %v", calls, want), detail)
		}
		if (h == nil) != (kind == 1) || h != nil && h != theHandler || l == nil || kind != 0 && l != theLogger || kind == 0 && l.Handler() != theHandler {
			c.Violate("another handler or logger than the function made", detail)
		}
		// Once more with other options, for the same writer or another one.
		calls, o = nil, &slog.HandlerOptions{Level: slog.Level(-1 - g.IntN(100))}
		if g.IntN(2) == 0 {
			w = &sink{}
		}
		theHandler, theLogger = plainJSON(w, o), slog.New(plainJSON(w, o))
		l, h = cp.NewLogger(w, o), cp.NewHandler(w, o)
		want = [][]string{{"handler true", "handler true"}, {"logger true"}, {"logger true", "handler true"}}[kind]
		if fmt.Sprint(calls) != fmt.Sprint(want) {
			c.Violate(fmt.Sprintf("creator functions called the second time: %v, not %v", calls, want), detail)
		}
		if kind != 1 && h != theHandler || l == nil || kind != 0 && l != theLogger || kind == 0 && l.Handler() != theHandler {
			c.Violate("the handler or logger of a second call is not the one that the function made", detail)
		}
		c.Count("creators described", 1)
		// Options.
		lev := &slog.LevelVar{}
		fn := infra.AttrFn(func(_ []string, a slog.Attr) slog.Attr { return a })
		check := func(what string, a, b *slog.HandlerOptions, src bool, level slog.Leveler, rep bool) {
			if a == b || a.AddSource != src || a.Level != level || (a.ReplaceAttr != nil) != rep {
				c.Violate(what+": wrong options", fmt.Sprintf("%+v", a))
			}
			a.AddSource, a.Level, a.ReplaceAttr = !src, slog.Level(77), nil
			if b.AddSource != src || b.Level != level || (b.ReplaceAttr != nil) != rep {
				c.Violate(what+": options are shared", fmt.Sprintf("%+v", b))
			}
		}
		check("SimpleOptions", infra.SimpleOptions(), infra.SimpleOptions(), false, slog.LevelInfo, false)
		check("SourceOptions", infra.SourceOptions(), infra.SourceOptions(), true, slog.LevelInfo, false)
		check("LevelOptions", infra.LevelOptions(lev), infra.LevelOptions(lev), false, lev, false)
		for _, l := range []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError, slog.Level(g.IntN(60) - 30)} {
			check("LevelOptions", infra.LevelOptions(l), infra.LevelOptions(l), false, l, false)
		}
		check("ReplaceAttrOptions without a function", infra.ReplaceAttrOptions(nil), infra.ReplaceAttrOptions(nil), false, slog.LevelInfo, false)
		check("ReplaceAttrOptions", infra.ReplaceAttrOptions(fn), infra.ReplaceAttrOptions(fn), false, slog.LevelInfo, true)
	}
}

// refusals are creators that can't be made.
var refusals = map[string]func(){
	"no name": func() { infra.NewCreator("", plainJSON2, nil, "s", nil) },
	"no name, both functions": func() {
		infra.NewCreator("", plainJSON2, func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(plainJSON2(w, o)) }, "", nil)
	},
	"no function":       func() { infra.NewCreator("name", nil, nil, "s", nil) },
	"nothing":           func() { infra.NewCreator("", nil, nil, "", nil) },
	"a handler":         func() { infra.NewCreator("name", plainJSON2, nil, "", nil) },
	"name of one blank": func() { infra.NewCreator(" ", plainJSON2, nil, "", nil) },
}

func plainJSON2(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }

// refusing does what a process started by refused has to do, if this is one.
func refusing() {
	if f := refusals[os.Getenv("VERIF_REFUSAL")]; f != nil {
		f()
		fmt.Println("made")
		os.Exit(0)
	}
}

// refused checks, in processes of their own, that no creator is made which could not make loggers.
func refused(c *kit.Ctx) {
	for what := range refusals {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_REFUSAL="+what)
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		made := out.String() == "made\n" && err == nil
		want := what == "a handler" || what == "name of one blank"
		if _, exited := err.(*exec.ExitError); err != nil && !exited {
			panic(err)
		}
		if made != want || !made && errs.Len() == 0 {
			c.Violate(fmt.Sprintf("creator with %s: made is %v", what, made), fmt.Sprintf("%v: %s", err, errs.String()))
		}
		c.Count("creators refused or made by a process of their own", 1)
	}
}

// conversions checks that levels of other libraries have the same thresholds.
func conversions(c *kit.Ctx) {
	zaps := map[slog.Level]zapcore.Level{slog.LevelDebug: zapcore.DebugLevel, slog.LevelInfo: zapcore.InfoLevel, slog.LevelWarn: zapcore.WarnLevel, slog.LevelError: zapcore.ErrorLevel}
	logruses := map[slog.Level]logrus.Level{slog.LevelDebug: logrus.DebugLevel, slog.LevelInfo: logrus.InfoLevel, slog.LevelWarn: logrus.WarnLevel, slog.LevelError: logrus.ErrorLevel}
	for l := slog.Level(-1000); l <= 1000; l++ {
		base := slog.LevelDebug
		for _, s := range levels {
			if l >= s {
				base = s
			}
		}
		if got := utilzap.ConvertLevelToZap(l); got != zaps[base] {
			c.Violate(fmt.Sprintf("level %d is %s for zap", l, got), nil)
		}
		if got := utillogrus.ConvertSlogLevel2Logrus(l); got != logruses[base] {
			c.Violate(fmt.Sprintf("level %d is %s for logrus", l, got), nil)
		}
		c.Count("levels converted", 1)
	}
}
