package main

import (
	"fmt"
	"html/template"
	"math/rand/v2"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/filter"
	"github.com/madkins23/go-slog/internal/scoring/keeper"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

func keepers(c *kit.Ctx) {
	c.Rule("filters composed of generated names and nested groups, compared with sets; score keepers with generated filters, axes and data, read by several goroutines at once under the race detector right after setup; registration of generated keepers; and the keepers of the repository set up with recorded or generated data; distinct by configuration and data")
	realKeepers(c)
	for i := 0; i < c.N(4000, 100000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		filters(c, i, c.Rng("filter", i))
	}
	for i := 0; i < c.N(300, 8000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("keeper", i)
		s := gen(r)
		c.Guard("keeper", func() any { return s.text + s.verify }, func() { keeperCase(c, i, r, s) })
	}
	registry(c)
	c.Need("filter decisions", 50000)
	c.Need("concurrent readings", 1000)
	c.Need("handlers kept", 300)
	c.Need("handlers left out", 100)
	c.Need("handlers of the keepers of the repository", 30)
}

// genItems makes the items of a filter or group, and the set of names they stand for.
func genItems(r *rand.Rand, depth int) ([]any, map[string]bool) {
	var items []any
	set := map[string]bool{}
	for n := r.IntN(4); n > 0; n-- {
		if depth > 0 && r.IntN(3) == 0 {
			sub, names := genItems(r, depth-1)
			items = append(items, score.NewFilterGroup(sub...))
			for k := range names {
				set[k] = true
			}
			continue
		}
		k := known[r.IntN(len(known))][1]
		if r.IntN(10) == 0 {
			k = "nobody"
		}
		items = append(items, k)
		set[k] = true
	}
	return items, set
}

func genFilter(r *rand.Rand) (score.Filter, func(name string) bool, string) {
	items, set := genItems(r, 3)
	var names []string
	for k := range set {
		names = append(names, k)
	}
	sort.Strings(names)
	if r.IntN(2) == 0 {
		return score.NewIncludeFilter(items...), func(n string) bool { return set[n] }, "include " + strings.Join(names, ",")
	}
	return score.NewExcludeFilter(items...), func(n string) bool { return !set[n] }, "exclude " + strings.Join(names, ",")
}

func filters(c *kit.Ctx, i int, r *rand.Rand) {
	f, keep, text := genFilter(r)
	for k := 0; k < 2; k++ {
		for _, h := range append([][2]string{{"", "nobody"}, {"", ""}, {"", "Slog/jsonhandler"}}, known...) {
			c.Count("filter decisions", 1)
			if got := f.Keep(h[1]); got != keep(h[1]) {
				c.Violate(fmt.Sprintf("a filter answers %v for %q", got, h[1]), map[string]any{"case": i, "filter": text})
				return
			}
		}
	}
	c.Eval(text)
}

// reading is everything a score page reads from a keeper.
func reading(k *score.Keeper, s *set) string {
	var w strings.Builder
	fmt.Fprintln(&w, k.Name(), k.Tag(), k.Title, k.ChartTitle(), k.ChartCaption(), k.Summary(), len(k.Overview()), k.HandlerTags())
	for which, a := range map[string]score.Axis{"X": k.X(), "Y": k.Y()} {
		if k.Axes()[which] != a {
			fmt.Fprintln(&w, "Axes is wrong")
		}
	}
	for _, a := range []score.Axis{k.X(), k.Y()} {
		fmt.Fprintln(&w, a.Name(), a.Summary(), len(a.Documentation()))
		for _, x := range a.Exhibits() {
			fmt.Fprintln(&w, x.HTML(x))
		}
		for _, t := range append([]string{"Bench.Unknown"}, s.tests...) {
			fmt.Fprintln(&w, t, data.TestTag(t).Name(), a.HasTest(data.TestTag(t)))
		}
		for _, h := range k.HandlerTags() {
			fmt.Fprint(&w, h, s.bench.HandlerName(h))
			for _, t := range []score.Type{score.Default, score.ByData, score.ByTest, score.Original} {
				fmt.Fprint(&w, " ", t.ColHeader(), a.ScoreForType(h, t))
			}
			fmt.Fprint(&w, a.ScoreFor(h))
			for _, t := range s.tests {
				fmt.Fprint(&w, " ", a.ScoreForTest(h, data.TestTag(t)))
			}
			if ws, ok := a.(*axis.Warnings); ok {
				for _, l := range warning.LevelOrder {
					fmt.Fprint(&w, " ", ws.CountForLevel(h, l), ws.ScoreForLevel(h, l))
				}
			}
			fmt.Fprintln(&w)
		}
	}
	return w.String()
}

func genAxis(r *rand.Rand) (func() score.Axis, string) {
	if r.IntN(2) == 0 {
		lw := genLevelWeights(r)
		return func() score.Axis { return axis.NewWarnings(lw, "w") }, fmt.Sprint("warnings ", lw)
	}
	bw := genWeights(r)
	opts, _ := genOptions(r)
	return func() score.Axis { return axis.NewBenchmarks(bw, "b", opts) }, fmt.Sprint("benchmarks ", bw, opts)
}

func keeperCase(c *kit.Ctx, i int, r *rand.Rand, s *set) {
	x, xs := genAxis(r)
	y, ys := genAxis(r)
	f, keep, fs := genFilter(r)
	if r.IntN(8) == 0 {
		f, keep, fs = nil, func(string) bool { return true }, "none"
	}
	var opts *score.KeeperOptions
	var title, caption template.HTML // if empty, the keeper has something to show all the same
	switch r.IntN(6) {
	case 0:
	case 1:
		opts = &score.KeeperOptions{}
	case 2:
		title = "the title"
	case 3:
		caption = "the caption"
	default:
		title, caption = "the title", "the caption"
	}
	if title+caption != "" {
		opts = &score.KeeperOptions{Title: title, ChartCaption: caption}
	}
	shows := func(text, given template.HTML) bool { return text == given || given == "" && text != "" }
	about := map[string]any{"case": i, "x": xs, "y": ys, "filter": fs, "output": s.text, "verify": s.verify}
	build := func() *score.Keeper {
		if err := s.load(); err != nil {
			c.Violate("the data are rejected: "+err.Error(), about)
			return nil
		}
		k := score.NewKeeper("K", x(), y(), "doc", opts, f)
		if err := k.Setup(s.bench, s.warns); err != nil {
			c.Violate("Setup fails: "+err.Error(), about)
			return nil
		}
		return k
	}
	k := build()
	if k == nil {
		return
	}
	const readers = 6
	got := make([]string, readers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for n := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					got[n] = fmt.Sprint("panic: ", p)
				}
			}()
			<-start
			got[n] = reading(k, s)
		}()
	}
	close(start)
	wg.Wait()
	c.Count("concurrent readings", readers)
	want := reading(k, s)
	for _, g := range got {
		if g != want {
			c.Violate("a reading of a score keeper by one of several readers differs from a later one: "+diff(g, want), about)
			return
		}
	}
	if k.Overview() == "" || k.Tag() != "K" || k.Name() != "K" || k.Summary() != "doc" || !shows(k.ChartCaption(), caption) || !shows(k.ChartTitle(), title) {
		c.Violate("name, documentation, title or caption of the keeper is wrong", about)
	}
	// The handlers are those of the benchmarks which the filter keeps, in the same order.
	var handlers []data.HandlerTag
	for _, h := range s.bench.HandlerTags() {
		if keep(s.names[string(h)]) {
			handlers = append(handlers, h)
			c.Count("handlers kept", 1)
		} else {
			c.Count("handlers left out", 1)
		}
	}
	if !slices.Equal(k.HandlerTags(), handlers) {
		c.Violate(fmt.Sprintf("the keeper has the handlers %v instead of %v", k.HandlerTags(), handlers), about)
		return
	}
	// The filter chooses what is shown. It does not change the scores.
	for _, p := range []struct {
		have score.Axis
		make func() score.Axis
	}{{k.X(), x}, {k.Y(), y}} {
		a := p.make()
		if err := a.Setup(s.bench, s.warns); err != nil {
			c.Violate("Setup fails: "+err.Error(), about)
			return
		}
		for _, h := range handlers {
			g, w := p.have.ScoreFor(h), a.ScoreFor(h)
			if !near(g, float64(w)) && !(g != g && w != w) {
				c.Violate(fmt.Sprintf("the score of %s is %v but %v outside the keeper", h, g, w), about)
				return
			}
		}
	}
	c.Eval(xs + ys + fs + s.text + s.verify)
	c.Seen("filters", fs)
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := ""
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("%.300q instead of %.300q", x[i], w)
		}
	}
	return "it is shorter"
}

// registry watches the list of keepers while keepers are added.
func registry(c *kit.Ctx) {
	have := map[score.KeeperTag]*score.Keeper{}
	for _, t := range score.Keepers() {
		have[t] = score.GetKeeper(t)
	}
	r := c.Rng("registry", 0)
	ax := func() score.Axis { return axis.NewBenchmarks(map[bench.Weight]uint{bench.Nanoseconds: 1}, "", nil) }
	for n := 0; n < 200; n++ {
		tag := score.KeeperTag(fmt.Sprintf("%s%c%d", []string{"", "+", "x"}[r.IntN(3)], 'A'+r.IntN(26), r.IntN(8)))
		k := score.NewKeeper(tag, ax(), ax(), "", nil, nil)
		err := score.AddKeeper(k)
		if (err == nil) == (have[tag] != nil) {
			c.Violate(fmt.Sprintf("AddKeeper(%s) returns %v", tag, err), nil)
			return
		}
		if err == nil {
			have[tag] = k
		}
		if score.GetKeeper(tag) != have[tag] {
			c.Violate(fmt.Sprintf("GetKeeper(%s) returns another keeper", tag), nil)
			return
		}
		if why := listed(have); why != "" {
			c.Violate(why, nil)
			return
		}
		c.Count("keepers added", 1)
	}
	if k := score.GetKeeper("nobody"); k != nil || k.Tag() != "" {
		c.Violate("an unknown keeper is not nil or has a tag", nil)
	}
	for t, k := range have {
		if k.Tag() != t || score.GetKeeper(t) != k {
			c.Violate("a keeper is not found under its tag", t)
		}
	}
}

// listed compares the list of keepers with the keepers there are: ordinary ones first, then those with a plus, each by name.
func listed(have map[score.KeeperTag]*score.Keeper) string {
	var plain, plus []string
	for t := range have {
		if strings.HasPrefix(string(t), "+") {
			plus = append(plus, string(t))
		} else {
			plain = append(plain, string(t))
		}
	}
	sort.Strings(plain)
	sort.Strings(plus)
	var got []string
	for _, t := range score.Keepers() {
		got = append(got, string(t))
	}
	if want := append(plain, plus...); !slices.Equal(got, want) {
		return fmt.Sprintf("the keepers are listed as %v instead of %v", got, want)
	}
	return ""
}

// realKeepers sets up the keepers of the repository, once per process, and has them read concurrently.
func realKeepers(c *kit.Ctx) {
	var s *set
	if c.Seed%2 == 1 {
		s = recordedSet()
	}
	if s == nil {
		r := c.Rng("real", 0)
		for s = gen(r); len(s.handlers) < len(known); {
			s = gen(r)
		}
		if err := s.load(); err != nil {
			c.Violate("the data are rejected: "+err.Error(), s.text)
			return
		}
	}
	if err := scoring.Setup(s.bench, s.warns); err != nil {
		c.Violate("scoring.Setup: "+err.Error(), nil)
		return
	}
	tags := score.Keepers()
	have := map[score.KeeperTag]*score.Keeper{}
	for _, t := range tags {
		have[t] = score.GetKeeper(t)
	}
	if why := listed(have); why != "" {
		c.Violate(why, nil)
	}
	for _, t := range []score.KeeperTag{keeper.DefaultName, "Simple", "Size", "+Dedup", "+ReplAttr"} {
		if have[t] == nil {
			c.Violate(fmt.Sprintf("there is no keeper %s", t), tags)
			return
		}
	}
	const readers = 8
	got := make([][]string, readers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for n := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					got[n] = []string{fmt.Sprint("panic: ", p)}
				}
			}()
			<-start
			for _, t := range score.Keepers() {
				got[n] = append(got[n], reading(score.GetKeeper(t), s))
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("concurrent readings", readers*len(tags))
	for n := 1; n < readers; n++ {
		if !slices.Equal(got[n], got[0]) {
			c.Violate("two readers of the same score keepers see different things", nil)
			break
		}
	}
	// Which handlers each keeper compares.
	special := func(name string) string {
		switch {
		case name == "madkins/replattr":
			return "replattr"
		case name == "snqk/meld" || strings.HasPrefix(name, "veqryn/dedup/"):
			return "dedup"
		}
		return ""
	}
	for _, t := range tags {
		var want, have []string
		for _, h := range s.bench.HandlerTags() {
			name := s.bench.HandlerName(h)
			kind := special(name)
			show := kind == ""
			switch t {
			case "+Dedup":
				show = kind == "dedup" || name == "slog/JSONHandler"
			case "+ReplAttr":
				show = kind == "replattr" || name == "madkins/flash"
			}
			if show {
				want = append(want, string(h))
			}
		}
		for _, h := range score.GetKeeper(t).HandlerTags() {
			have = append(have, string(h))
		}
		c.Count("handlers of the keepers of the repository", len(have))
		if !slices.Equal(have, want) {
			c.Violate(fmt.Sprintf("keeper %s compares %v instead of %v", t, have, want), nil)
		}
	}
	// The axes of the keepers are what their pages say.
	lw := map[score.KeeperTag]map[warning.Level]uint{
		"Simple": {warning.LevelRequired: 2, warning.LevelImplied: 1},
	}
	bw := map[score.KeeperTag]map[bench.Weight]uint{
		"Simple": {bench.Allocations: 1, bench.Nanoseconds: 2},
	}
	large := []data.TestTag{"Bench.BigGroup", "Bench.Logging"}
	for _, t := range tags {
		k := score.GetKeeper(t)
		l, b := lw[t], bw[t]
		if l == nil {
			l = map[warning.Level]uint{warning.LevelRequired: 8, warning.LevelImplied: 4, warning.LevelSuggested: 2, warning.LevelAdmin: 1}
		}
		if b == nil {
			b = map[bench.Weight]uint{bench.Allocations: 1, bench.AllocBytes: 2, bench.Nanoseconds: 3}
		}
		x, y := axis.NewWarnings(l, ""), axis.NewBenchmarks(b, "", nil)
		if t == "Size" {
			x = axis.NewBenchmarks(b, "", &axis.BenchOptions{Name: "Large", IncludeTests: large})
			y = axis.NewBenchmarks(b, "", &axis.BenchOptions{Name: "Small", ExcludeTests: large})
		}
		for _, p := range [][2]score.Axis{{k.X(), x}, {k.Y(), y}} {
			if err := p[1].Setup(s.bench, s.warns); err != nil {
				c.Violate("Setup: "+err.Error(), nil)
				return
			}
			if p[0].Name() != p[1].Name() {
				c.Violate(fmt.Sprintf("keeper %s has the axis %s instead of %s", t, p[0].Name(), p[1].Name()), nil)
			}
			for _, h := range k.HandlerTags() {
				if g, w := p[0].ScoreFor(h), p[1].ScoreFor(h); !near(g, float64(w)) && !(g != g && w != w) {
					c.Violate(fmt.Sprintf("keeper %s scores %s as %v instead of %v (%s)", t, h, g, w, p[0].Name()), nil)
				}
			}
		}
	}
	if filter.Basic() != filter.Basic() || filter.Dedup() != filter.Dedup() || filter.ReplAttr() != filter.ReplAttr() {
		c.Violate("a filter is made twice", nil)
	}
}

func recordedSet() *set {
	b, err1 := os.ReadFile(repo() + "/docs/bench.txt")
	v, err2 := os.ReadFile(repo() + "/docs/verify.txt")
	if err1 != nil || err2 != nil {
		return nil
	}
	s := &set{text: string(b), verify: string(v)}
	if s.load() != nil || len(s.bench.HandlerTags()) == 0 {
		return nil
	}
	for _, t := range s.bench.TestTags() {
		s.tests = append(s.tests, string(t))
	}
	return s
}

func repo() string {
	if p := os.Getenv("VERIF_REPO"); p != "" {
		return p
	}
	return "/repo"
}
