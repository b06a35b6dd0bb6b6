package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// scale maps a value to 0..100 over the range of the values of all handlers for one test.
type scale struct{ low, high float64 }

func (s scale) spread() bool            { return s.high > s.low }
func (s scale) at(v float64) float64    { return 100 * (s.high - v) / (s.high - s.low) }
func (s *scale) add(v float64)          { s.low, s.high = math.Min(s.low, v), math.Max(s.high, v) }
func empty() *scale                     { return &scale{math.Inf(1), math.Inf(-1)} }
func mean(total, count float64) float64 { return total / count }

// expected scores of one handler.
type expected struct {
	byTest, byData, total float64
	tests                 map[string]float64
	measured              bool // it has results for tests in scope
	differs               bool // and some of them can be told apart
}

var order = []bench.Weight{bench.Nanoseconds, bench.AllocBytes, bench.Allocations}

// model computes the scores from the documented algorithm.
func (s *set) model(weight map[bench.Weight]uint, scope map[string]bool) map[string]*expected {
	ranges := map[string][3]*scale{}
	for _, t := range s.tests {
		if !scope[t] {
			continue
		}
		rs := [3]*scale{empty(), empty(), empty()}
		for _, h := range s.handlers {
			if v, ok := s.results[h][t]; ok {
				for k := range rs {
					rs[k].add(v.item(k))
				}
			}
		}
		ranges[t] = rs
	}
	out := map[string]*expected{}
	for _, h := range s.handlers {
		e := &expected{tests: map[string]float64{}}
		var items, itemsN [3]float64
		var sum, n float64
		for _, t := range s.tests {
			v, ok := s.results[h][t]
			if !ok || !scope[t] {
				continue
			}
			e.measured = true
			var tot, wt float64
			for k, w := range order {
				if !ranges[t][k].spread() {
					continue
				}
				x := ranges[t][k].at(v.item(k))
				tot += x * float64(weight[w])
				wt += float64(weight[w])
				items[k] += x
				itemsN[k]++
			}
			if wt > 0 {
				e.tests[t] = tot / wt
				sum += tot / wt
				n++
			}
		}
		if n > 0 {
			e.differs = true
			e.byTest = mean(sum, n)
			var tot, wt float64
			for k, w := range order {
				if itemsN[k] > 0 {
					tot += mean(items[k], itemsN[k]) * float64(weight[w])
					wt += float64(weight[w])
				}
			}
			e.byData = tot / wt
			e.total = (e.byData + e.byTest) / 2
		}
		out[h] = e
	}
	return out
}

func genWeights(r *rand.Rand) map[bench.Weight]uint {
	switch r.IntN(4) {
	case 0:
		return map[bench.Weight]uint{bench.Allocations: 1, bench.AllocBytes: 2, bench.Nanoseconds: 3}
	case 1:
		return map[bench.Weight]uint{bench.Allocations: 1, bench.Nanoseconds: 2}
	}
	w := map[bench.Weight]uint{}
	for w[order[0]]+w[order[1]]+w[order[2]] == 0 {
		for _, k := range order {
			switch r.IntN(9) {
			case 0, 1, 2:
			case 3:
				w[k] = []uint{0, 100, 127, 128, 255, 256, 300, 65535, 65536, 1 << 20}[r.IntN(10)]
			default:
				w[k] = uint(1 + r.IntN(6))
			}
		}
	}
	return w
}

func genOptions(r *rand.Rand) (*axis.BenchOptions, func(test string) bool) {
	pick := func() []data.TestTag {
		var l []data.TestTag
		for _, t := range testNames {
			if r.IntN(2) == 0 {
				l = append(l, data.TestTag("Bench."+t))
			}
		}
		if r.IntN(6) == 0 {
			l = append(l, "Bench.NoSuchTest")
		}
		if r.IntN(8) == 0 {
			l = []data.TestTag{} // a list, but no test
		}
		return l
	}
	o := &axis.BenchOptions{}
	switch r.IntN(6) {
	case 0:
		return nil, func(string) bool { return true }
	case 1:
		o.Name = "Named"
	case 2:
		o.IncludeTests = pick()
	case 3:
		o.ExcludeTests = pick()
	case 4:
		o.IncludeTests, o.ExcludeTests = pick(), pick()
	}
	return o, func(t string) bool {
		if slices.Contains(o.ExcludeTests, data.TestTag(t)) {
			return false
		}
		return o.IncludeTests == nil || slices.Contains(o.IncludeTests, data.TestTag(t))
	}
}

var benchTypes = []score.Type{score.Default, score.ByData, score.ByTest, score.Original}

func benchScores(c *kit.Ctx) {
	c.Rule("benchmark outputs for generated handlers and tests (missing results, many ties, items or whole tests without any difference, single handlers), with generated weights and included and excluded tests, scored by axis.Benchmarks and compared with the documented algorithm; distinct by output and configuration")
	c.Assume("weights are not all zero")
	if err := exhibit.Setup(); err != nil {
		c.Violate("exhibit.Setup: "+err.Error(), nil)
	}
	if err := axis.Setup(); err != nil {
		c.Violate("axis.Setup: "+err.Error(), nil)
	}
	for i := 0; i < c.N(6000, 250000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("bench", i)
		s := gen(r)
		weight := genWeights(r)
		opts, in := genOptions(r)
		fail := func(what string, detail any) {
			c.Violate(what, map[string]any{"case": i, "detail": detail, "weights": weight, "options": opts, "output": s.text})
		}
		c.Guard("scoring", func() any { return s.text }, func() { benchCase(c, r, s, weight, opts, in, fail) })
		c.Eval(fmt.Sprint(weight, opts, s.text))
		if i < 2 {
			c.Sample(map[string]any{"weights": weight, "options": opts, "output": s.text})
		}
	}
	c.Need("scores compared", 20000)
	c.Need("handlers that cannot be told apart", 100)
	c.Need("tests without any difference", 100)
	c.Need("pairs ordered by dominance", 200)
}

func benchCase(c *kit.Ctx, r *rand.Rand, s *set, weight map[bench.Weight]uint, opts *axis.BenchOptions, in func(string) bool, fail func(string, any)) {
	if err := s.load(); err != nil {
		fail("the output is rejected: "+err.Error(), nil)
		return
	}
	ax := axis.NewBenchmarks(weight, "<p>summary</p>", opts)
	if err := ax.Setup(s.bench, s.warns); err != nil {
		fail("Setup fails: "+err.Error(), nil)
		return
	}
	b := ax.(*axis.Benchmarks)
	scope := map[string]bool{}
	for _, t := range s.tests {
		scope[t] = in(t)
	}
	want := s.model(weight, scope)
	for _, h := range s.handlers {
		e, tag := want[h], data.HandlerTag(h)
		if !e.measured {
			c.Count("handlers without a test in scope", 1)
			continue
		}
		if !e.differs {
			// Nothing tells the handlers apart in the tests it ran.
			c.Count("handlers that cannot be told apart", 1)
			e.byTest, e.byData, e.total = 100, 100, 100
		}
		for _, t := range benchTypes {
			w := e.total
			switch t {
			case score.ByData:
				w = e.byData
			case score.ByTest, score.Original:
				w = e.byTest
			}
			if got := ax.ScoreForType(tag, t); !near(got, w) {
				fail(fmt.Sprintf("score %q of %s is %v instead of %v", t, h, got, w), nil)
				return
			}
			c.Count("scores compared", 1)
		}
		if got := ax.ScoreFor(tag); !near(got, e.total) {
			fail(fmt.Sprintf("the score of %s is %v instead of %v", h, got, e.total), nil)
		}
		for t, w := range e.tests {
			if got := ax.ScoreForTest(tag, data.TestTag(t)); !near(got, w) {
				fail(fmt.Sprintf("the score of %s for %s is %v instead of %v", h, t, got, w), nil)
				return
			}
			c.Count("scores compared", 1)
		}
	}
	// A handler which is nowhere worse than another one in the same tests never scores less.
	for _, h := range s.handlers {
		for _, g := range s.handlers {
			if h == g || !want[h].measured || !want[g].measured {
				continue
			}
			same, worse := true, false
			for _, t := range s.tests {
				v, ok1 := s.results[h][t]
				u, ok2 := s.results[g][t]
				same = same && ok1 == ok2
				worse = worse || v.nanos > u.nanos || v.bytes > u.bytes || v.allocs > u.allocs
			}
			if same && !worse {
				c.Count("pairs ordered by dominance", 1)
				// Not even by a rounding error: handlers of the same results are shown in an order of their scores.
				for _, t := range score.TypeValues() {
					if a, z := ax.ScoreForType(data.HandlerTag(h), t), ax.ScoreForType(data.HandlerTag(g), t); !(a >= z) {
						fail(fmt.Sprintf("%s is nowhere worse than %s but has %v against %v (%s)", h, g, a, z, t), nil)
						return
					}
				}
			}
		}
	}
	// The tests that count, and only those, have scores.
	for _, t := range append([]string{"Bench.NoSuchTest", "Verify.Simple"}, s.tests...) {
		has := false
		for _, e := range want {
			_, ok := e.tests[t]
			has = has || ok
		}
		if scope[t] && !has {
			c.Count("tests without any difference", 1)
			continue
		}
		for k := 0; k < 2; k++ {
			if got := b.HasTest(data.TestTag(t)); got != has {
				fail(fmt.Sprintf("HasTest(%s) is %v", t, got), nil)
				return
			}
		}
	}
	name := "Benchmarks"
	if opts != nil && opts.Name != "" {
		name = opts.Name
	}
	if ax.Name() != name || ax.Summary() != "<p>summary</p>" || ax.Documentation() == "" {
		fail("name, summary or documentation of the axis is wrong", nil)
	}
	// The exhibits show the weights and the lists of tests.
	var html strings.Builder
	for _, x := range ax.Exhibits() {
		html.WriteString(string(x.HTML(x)))
	}
	if why := exhibits(html.String(), weight, opts); why != "" {
		fail("exhibits: "+why, html.String())
	}
}

// exhibits compares the cells of all exhibits with the configuration.
func exhibits(html string, weight map[bench.Weight]uint, opts *axis.BenchOptions) string {
	got := cells(html)
	want := []string{"Data", "Weight"}
	for _, w := range order {
		if n, ok := weight[w]; ok {
			want = append(want, string(w), fmt.Sprint(n))
		}
	}
	if opts != nil {
		for _, l := range []struct {
			caption string
			tests   []data.TestTag
		}{{"Included", opts.IncludeTests}, {"Excluded", opts.ExcludeTests}} {
			if l.tests == nil {
				continue
			}
			want = append(want, l.caption)
			for _, t := range l.tests {
				want = append(want, t.Name())
			}
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		return fmt.Sprintf("show %q instead of %q", got, want)
	}
	return ""
}

// cells returns the texts of all cells of the tables in html.
func cells(html string) []string {
	var all []string
	for _, part := range strings.Split(html, "<")[1:] {
		if strings.HasPrefix(part, "td") || strings.HasPrefix(part, "th") || strings.HasPrefix(part, "caption") {
			if _, text, ok := strings.Cut(part, ">"); ok && strings.TrimSpace(text) != "" {
				all = append(all, strings.TrimSpace(text))
			}
		}
	}
	return all
}
