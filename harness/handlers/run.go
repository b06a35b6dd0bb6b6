package main

import (
	"bytes"
	"context"
	"fmt"
	"log/slog"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// sink records every Write on its own, and whether two of them overlapped.
type sink struct {
	mu     sync.Mutex
	writes [][]byte
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes = append(s.writes, bytes.Clone(p))
	return len(p), nil
}

func (s *sink) take() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	w := s.writes
	s.writes = nil
	return w
}

func (s *sink) bytes() []byte { return bytes.Join(s.take(), nil) }

var ctxBackground = context.Background()

func derive(h slog.Handler, ops []op) slog.Handler {
	for _, o := range ops {
		if o.IsGrp {
			h = h.WithGroup(o.Group)
		} else {
			h = h.WithAttrs(toSlog(o.Attrs))
		}
	}
	return h
}

type record struct {
	Time  time.Time
	Level slog.Level
	Msg   string
	Attrs []attr
	PC    uintptr
}

func (r record) slog() slog.Record {
	rec := slog.NewRecord(r.Time, r.Level, r.Msg, r.PC)
	rec.AddAttrs(toSlog(r.Attrs)...)
	return rec
}

func (r record) String() string {
	return fmt.Sprintf("Handle(time=%s level=%d msg=%q attrs=%s)", r.Time.Format(time.RFC3339Nano), r.Level, r.Msg, attrsString(r.Attrs))
}

type testCase struct {
	Ops []op
	Rec record
}

func (t testCase) String() string {
	parts := make([]string, 0, len(t.Ops)+1)
	for _, o := range t.Ops {
		parts = append(parts, o.String())
	}
	return strings.Join(append(parts, t.Rec.String()), ".")
}

var levels = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}

func (g *gen) ops(max int) []op {
	var ops []op
	n, size := g.IntN(max+1), 4
	if g.IntN(12) == 0 {
		g.mark("many calls")
		n, size = max+g.IntN(14), 2
	}
	for ; n > 0; n-- {
		if g.IntN(2) == 0 {
			name := g.groupName()
			if g.IntN(12) == 0 {
				name = ""
			}
			g.mark("WithGroup")
			ops = append(ops, op{IsGrp: true, Group: name})
		} else {
			g.mark("WithAttrs")
			ops = append(ops, op{Attrs: g.attrs(g.IntN(size), 2)})
		}
	}
	switch g.IntN(huge) {
	case 0:
		g.mark("huge call of With")
		ops = append(ops, op{Attrs: g.attrs(100+g.IntN(2000), 0)})
	case 1:
		g.mark("huge chain of calls")
		for n := 20 + g.IntN(150); n > 0; n-- {
			ops = append(ops, op{IsGrp: true, Group: g.groupName()})
			if g.IntN(4) == 0 {
				ops = append(ops, op{Attrs: g.attrs(g.IntN(3), 0)})
			}
		}
	}
	return ops
}

// huge is how rare each sort of unusually large input is.
const huge = 1000

func (g *gen) hugeText() string {
	unit := g.text()
	for len(unit) < 8 {
		unit += g.text() + "x"
	}
	return strings.Repeat(unit, (1<<20+g.IntN(3<<20))/len(unit)+1)
}

func (g *gen) record() record {
	r := record{Level: pick(g, levels...), Msg: g.text(), Attrs: g.attrs(g.IntN(5), 3)}
	switch g.IntN(24) {
	case 0, 1, 2:
		r.Attrs = nil
	case 3:
		// More than a slog.Record keeps without a slice.
		g.mark("many attributes")
		r.Attrs = g.attrs(5+g.IntN(36), 1)
	}
	if g.IntN(6) != 0 {
		r.Time = g.time()
	}
	if g.IntN(10) == 0 {
		r.Level = slog.Level(g.IntN(40) - 20)
	}
	switch g.IntN(huge) {
	case 0:
		g.mark("huge record")
		r.Attrs = append(r.Attrs, g.attrs(100+g.IntN(3000), 0)...)
	case 1:
		// A line of more than a megabyte.
		g.mark("huge text")
		v := val{Kind: "str", S: g.hugeText()}
		switch g.IntN(4) {
		case 0:
			r.Msg = v.S
		case 1:
			r.Attrs = append(r.Attrs, attr{v.S, nilVal()})
		case 2:
			text := v.S
			v = anyVal("stringer", text, func() any { return tStringer{text} }, str(text))
			fallthrough
		default:
			r.Attrs = append(append(g.attrs(g.IntN(3), 1), attr{g.key(), v}), r.Attrs...)
		}
	case 2:
		g.mark("huge group")
		v := val{Kind: "group", Kids: g.attrs(1+g.IntN(3), 0)}
		for n := 20 + g.IntN(180); n > 0; n-- {
			kids := append(g.attrs(g.IntN(2), 0), attr{g.groupName(), v})
			v = val{Kind: "group", Kids: append(kids, g.attrs(g.IntN(2), 0)...)}
		}
		r.Attrs = append(r.Attrs, attr{g.groupName(), v})
	case 3:
		g.mark("huge group")
		r.Attrs = append(r.Attrs, attr{g.groupName(), val{Kind: "group", Kids: g.attrs(100+g.IntN(2000), 0)}})
	}
	return r
}

// line takes the single line of a record apart.
func line(out []byte) (kit.Node, error) {
	if !bytes.HasSuffix(out, []byte("\n")) {
		return kit.Node{}, fmt.Errorf("no newline at the end")
	}
	if n := bytes.Count(out, []byte("\n")); n != 1 {
		return kit.Node{}, fmt.Errorf("%d lines", n)
	}
	body := bytes.TrimRight(out, "\r\n")
	if bytes.ContainsRune(body, '\r') {
		return kit.Node{}, fmt.Errorf("carriage return within the line")
	}
	return kit.ParseLine(body)
}

// sourceNode is what the source field of a record with this program counter has to say.
func sourceNode(pc uintptr) kit.Node {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return kit.Node{Kind: 'u', Kids: []kit.Member{
		{Key: "function", Val: kit.Node{Kind: 's', Str: f.Function}},
		{Key: "file", Val: kit.Node{Kind: 's', Str: f.File}},
		{Key: "line", Val: kit.Node{Kind: 'n', Num: strconv.Itoa(f.Line)}},
	}}
}
