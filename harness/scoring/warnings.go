package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

func genLevelWeights(r *rand.Rand) map[warning.Level]uint {
	switch r.IntN(4) {
	case 0:
		return map[warning.Level]uint{warning.LevelRequired: 8, warning.LevelImplied: 4, warning.LevelSuggested: 2, warning.LevelAdmin: 1}
	case 1:
		return map[warning.Level]uint{warning.LevelRequired: 2, warning.LevelImplied: 1}
	}
	w := map[warning.Level]uint{}
	for len(w) == 0 {
		for _, l := range warning.LevelOrder {
			if r.IntN(3) > 0 {
				w[l] = uint(1 + r.IntN(9))
				if r.IntN(12) == 0 {
					w[l] = []uint{100, 255, 256, 300, 65536}[r.IntN(5)]
				}
			}
		}
	}
	return w
}

func warningScores(c *kit.Ctx) {
	c.Rule("verification and benchmark reports in which generated handlers issue generated choices of the predefined warnings and of others, with generated weights of the levels, scored by axis.Warnings and compared with the documented algorithm; distinct by report and weights")
	c.Assume("a warning has one level in all reports; weights are not all zero")
	if err := exhibit.Setup(); err != nil {
		c.Violate("exhibit.Setup: "+err.Error(), nil)
	}
	if err := axis.Setup(); err != nil {
		c.Violate("axis.Setup: "+err.Error(), nil)
	}
	for i := 0; i < c.N(5000, 200000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("warn", i)
		s := gen(r)
		weight := genLevelWeights(r)
		fail := func(what string, detail any) {
			c.Violate(what, map[string]any{"case": i, "detail": detail, "weights": weight, "output": s.text, "verify": s.verify})
		}
		c.Guard("scoring", func() any { return s.text + s.verify }, func() { warnCase(c, s, weight, fail) })
		c.Eval(fmt.Sprint(weight, s.text, s.verify))
		if i < 2 {
			c.Sample(map[string]any{"weights": weight, "output": s.text, "verify": s.verify})
		}
	}
	c.Need("warnings asked for before", 500)
	c.Need("warnings which are not predefined", 2000)
	c.Need("scores compared", 20000)
	c.Need("handlers without warnings", 500)
	c.Need("handlers without a report", 200)
	c.Need("handlers with all warnings", 200)
	c.Need("pairs ordered by dominance", 2000)
}

func warnCase(c *kit.Ctx, s *set, weight map[warning.Level]uint, fail func(string, any)) {
	if err := s.load(); err != nil {
		fail("the reports are rejected: "+err.Error(), nil)
		return
	}
	// What has been asked before says nothing about the handlers.
	if r := c.Rng("asked", int(weight[warning.LevelRequired])*7919+len(s.text)); r.IntN(3) == 0 {
		for _, l := range warning.LevelOrder {
			for _, x := range warning.WarningsForLevel(l) {
				if r.IntN(2) == 0 {
					s.warns.FindWarning(x.Name)
					c.Count("warnings asked for before", 1)
				}
			}
		}
	}
	c.Count("warnings which are not predefined", s.own)
	c.Count("handlers without a report", s.unreported)
	ax := axis.NewWarnings(weight, "<p>summary</p>")
	if err := ax.Setup(s.bench, s.warns); err != nil {
		fail("Setup fails: "+err.Error(), nil)
		return
	}
	w := ax.(*axis.Warnings)
	possible := map[warning.Level]map[*warning.Warning]bool{}
	for _, l := range warning.LevelOrder {
		possible[l] = map[*warning.Warning]bool{}
	}
	for _, m := range s.issued {
		for x := range m {
			possible[x.Level][x] = true
		}
	}
	for h, m := range s.issued {
		tag := data.HandlerTag(h)
		var sum, wt, most, own float64
		for _, l := range warning.LevelOrder {
			n := 0
			for x := range m {
				if x.Level == l {
					n++
				}
			}
			x := 100.0
			if n > 0 {
				x = 100 * (1 - float64(n)/float64(len(possible[l])))
			}
			sum += x * float64(weight[l])
			wt += float64(weight[l])
			most += float64(weight[l]) * float64(len(possible[l]))
			own += float64(weight[l]) * float64(n)
			if got := w.CountForLevel(tag, l); got != score.Value(n) {
				fail(fmt.Sprintf("%s has %v warnings at level %s instead of %d", h, got, l, n), nil)
				return
			}
			if got := w.ScoreForLevel(tag, l); !near(got, x) {
				fail(fmt.Sprintf("the score of %s for level %s is %v instead of %v", h, l, got, x), nil)
				return
			}
			c.Count("scores compared", 2)
		}
		want := map[score.Type]float64{score.Default: sum / wt, score.ByData: sum / wt, score.Original: 100}
		if most > 0 {
			want[score.Original] = 100 * (most - own) / most
		}
		if len(m) == 0 {
			c.Count("handlers without warnings", 1)
			want[score.Default], want[score.ByData], want[score.Original] = 100, 100, 100
		}
		for t, x := range want {
			if got := ax.ScoreForType(tag, t); !near(got, x) {
				fail(fmt.Sprintf("score %q of %s is %v instead of %v", t, h, got, x), nil)
				return
			}
			c.Count("scores compared", 1)
		}
		if got := ax.ScoreFor(tag); !near(got, want[score.Default]) {
			fail(fmt.Sprintf("the score of %s is %v instead of %v", h, got, want[score.Default]), nil)
			return
		}
		all := len(m) > 0
		for _, l := range warning.LevelOrder {
			for x := range possible[l] {
				all = all && m[x]
			}
		}
		if all {
			c.Count("handlers with all warnings", 1)
		}
	}
	// More warnings never make a better score.
	for h, m := range s.issued {
		for g, n := range s.issued {
			subset := true
			for x := range m {
				subset = subset && n[x]
			}
			if !subset || h == g {
				continue
			}
			c.Count("pairs ordered by dominance", 1)
			for _, t := range []score.Type{score.Default, score.Original} {
				if a, z := ax.ScoreForType(data.HandlerTag(h), t), ax.ScoreForType(data.HandlerTag(g), t); !(a >= z) {
					fail(fmt.Sprintf("%s has no warning which %s has not but a score of %v against %v", h, g, a, z), nil)
					return
				}
			}
		}
	}
	if ax.Name() != "Warnings" || ax.Summary() != "<p>summary</p>" || ax.Documentation() == "" || !ax.HasTest("Bench.Simple") {
		fail("name, summary or documentation of the axis is wrong", nil)
	}
	var html strings.Builder
	for _, x := range ax.Exhibits() {
		html.WriteString(string(x.HTML(x)))
	}
	want := []string{"Level", "Weight"}
	for _, l := range warning.LevelOrder {
		if n, ok := weight[l]; ok {
			want = append(want, l.String(), fmt.Sprint(n))
		}
	}
	got := cells(html.String())
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		fail(fmt.Sprintf("the exhibit shows %q instead of %q", got, want), html.String())
	}
}
