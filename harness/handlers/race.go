package main

import (
	"bytes"
	"fmt"
	"log/slog"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// raceSink has no lock of its own: the handler has to see to it that there is one Write at a time. It watches
// whether the bytes it was given stay what they are until it returns.
type raceSink struct {
	in       atomic.Int32
	overlaps atomic.Int32
	unstable atomic.Int32
	yields   int
	writes   [][]byte
}

func (s *raceSink) Write(p []byte) (int, error) {
	if s.in.Add(1) != 1 {
		s.overlaps.Add(1)
	}
	kept := bytes.Clone(p)
	for i := 0; i < s.yields; i++ {
		runtime.Gosched()
	}
	if !bytes.Equal(kept, p) {
		s.unstable.Add(1)
	}
	s.writes = append(s.writes, kept)
	s.in.Add(-1)
	return len(p), nil
}

// c05: many goroutines, one family of handlers.
func c05(c *kit.Ctx) {
	c.Rule("case = 2-12 goroutines which derive handlers and log through a shared family while the threshold and the pools are in use, under the race detector; the writer yields at random; oracle: no race, no two writes at once, the bytes stay unchanged during a write, every record is one whole write and the line of the model, exactly once, in the order of its goroutine; distinct by the order of goroutines in the output")
	rounds := c.N(250, 4000)
	for i := 0; i < rounds && c.Violations() < 20; i++ {
		g := &gen{Rand: c.Rng("race", i), special: true}
		s := g.subject("", true)
		if s.rep != nil {
			s.rep.only = 15
			// The message must stay readable as it identifies the record.
			for s.rep.action(nil, s.ext.msgKey()) != 0 {
				s.rep.seed++
			}
		}
		w := &raceSink{yields: pick(g, 0, 0, 1, 3)}
		opts := s.options()
		lv := &slog.LevelVar{}
		lv.Set(everything)
		opts.Level = lv
		shared := []derived{{s.buildWith(w, opts), nil}}
		for k := 0; k < 4; k++ {
			p := shared[g.IntN(len(shared))]
			o := g.ops(3)
			shared = append(shared, derived{derive(p.h, o), append(append([]op(nil), p.ops...), o...)})
		}
		workers := 2 + g.IntN(11)
		each := 10 + g.IntN(30)
		type plan struct {
			t testCase
			h slog.Handler
			o []op
			r slog.Record
		}
		plans := make([][]plan, workers)
		for a := range plans {
			for b := 0; b < each; b++ {
				d := shared[g.IntN(len(shared))]
				var o []op
				if g.IntN(2) == 0 {
					o = g.ops(2)
				}
				t := testCase{append(append([]op(nil), d.ops...), o...), g.record()}
				t.Rec.Msg = fmt.Sprintf("id-%d-%d ", a, b) + t.Rec.Msg
				if g.IntN(10) == 0 {
					t.Rec.Attrs = append(t.Rec.Attrs, attr{"fill", val{Kind: "str", S: strings.Repeat("long", 600)}})
				}
				plans[a] = append(plans[a], plan{t, d.h, o, t.Rec.slog()})
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		var failures sync.Map
		for a := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						failures.Store(a, fmt.Sprintf("panic: %v", r))
					}
				}()
				<-start
				for b, p := range plans[a] {
					h := p.h
					for _, o := range p.o {
						h = derive(h, []op{o})
					}
					if b%7 == 0 {
						lv.Set(everything + slog.Level(b))
					}
					_ = h.Enabled(ctxBackground, p.t.Rec.Level)
					if err := h.Handle(ctxBackground, p.r); err != nil {
						failures.Store(a, err.Error())
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		c.Tick()
		failures.Range(func(k, v any) bool {
			c.Violate(fmt.Sprintf("round %d: goroutine %v: %v", i, k, v), s.String())
			return true
		})
		if n := w.overlaps.Load(); n > 0 {
			c.Violate(fmt.Sprintf("round %d: %d writes overlapped another one", i, n), s.String())
		}
		if n := w.unstable.Load(); n > 0 {
			c.Violate(fmt.Sprintf("round %d: the bytes of %d writes changed while they were being written", i, n), s.String())
		}
		if len(w.writes) != workers*each {
			c.Violate(fmt.Sprintf("round %d: %d writes for %d records", i, len(w.writes), workers*each), s.String())
		}
		seen := map[[2]int]bool{}
		last := make([]int, workers)
		for a := range last {
			last[a] = -1
		}
		var order strings.Builder
		prev, switches := -1, 0
		for _, out := range w.writes {
			c.Count("lines", 1)
			n, err := line(out)
			if err != nil {
				c.Violate(fmt.Sprintf("round %d: %v", i, err), fmt.Sprintf("%q", out))
				continue
			}
			a, b, ok := ident(n, s.ext.msgKey())
			if !ok || a >= workers || b >= each {
				c.Violate(fmt.Sprintf("round %d: a line without identity", i), fmt.Sprintf("%q", out))
				continue
			}
			if seen[[2]int{a, b}] {
				c.Violate(fmt.Sprintf("round %d: record %d of goroutine %d was written twice", i, b, a), fmt.Sprintf("%q", out))
			}
			seen[[2]int{a, b}] = true
			if b <= last[a] {
				c.Violate(fmt.Sprintf("round %d: record %d of goroutine %d was written after record %d", i, b, a, last[a]), s.String())
			}
			last[a] = b
			if d := s.compare(out, plans[a][b].t); d != "" {
				c.Violate(fmt.Sprintf("round %d: %s", i, d), detail(s, plans[a][b].t, out))
			}
			if a != prev {
				switches++
			}
			prev = a
			order.WriteByte(byte('a' + a))
		}
		c.Count("switches between goroutines", switches)
		c.Seen("orders of goroutines in the output", order.String())
		c.Eval(s.name + order.String())
		if i < 2 {
			c.Sample(map[string]any{"handler": s.String(), "goroutines": workers, "records each": each, "order": order.String()})
		}
	}
	c.Need("switches between goroutines", 500)
	c.Need("lines", 5000)
}

func ident(n kit.Node, key string) (int, int, bool) {
	for _, m := range n.Kids {
		if kit.SameText(key, m.Key) && m.Val.Kind == 's' && strings.HasPrefix(m.Val.Str, "id-") {
			parts := strings.SplitN(strings.SplitN(m.Val.Str, " ", 2)[0], "-", 3)
			if len(parts) == 3 {
				a, err1 := strconv.Atoi(parts[1])
				b, err2 := strconv.Atoi(parts[2])
				return a, b, err1 == nil && err2 == nil
			}
		}
	}
	return 0, 0, false
}
