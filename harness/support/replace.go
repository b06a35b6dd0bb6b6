package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log/slog"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zverif/kit"
	"github.com/madkins23/go-slog/replace"
)

var replKeys = []string{"level", "Level", "LEVEL", "msg", "Msg", "a", "A", "key", "Key", "kEY", "käse", "KÄSE", "K", "k",
	"ſize", "size", "\u212aey", "ⱥb", "Ⱥb", "ȺB", "straße", "STRASSE", "", "a.b", "grp", "\xff", "ǆ", "Ǆ", "σ", "ς", "Σ"}

// foldedKeys returns three names, most of which are the same one in different cases.
func foldedKeys(r *rand.Rand) []string {
	letters := []rune("abkKsSiIµθβεκρϐåÅßẞǆⱥɐɡɫɱʞəʇꙋԥǰ9_ -ΣſἈᾳⅧⓐꭰ𐐀𞤀")
	word := make([]rune, 1+r.IntN(4))
	for i := range word {
		word[i] = letters[r.IntN(len(letters))]
	}
	pool := make([]string, 3)
	for i := range pool {
		w := slices.Clone(word)
		for j := range w {
			for range r.IntN(4) {
				w[j] = unicode.SimpleFold(w[j])
			}
		}
		if r.IntN(8) == 0 {
			w[r.IntN(len(w))] = letters[r.IntN(len(letters))]
		}
		pool[i] = string(w)
	}
	return pool
}

type namer struct{ s string }

func (n namer) String() string { return n.s }

func replValue(r *rand.Rand) slog.Value {
	switch r.IntN(9) {
	case 0:
		return slog.StringValue([]string{"", "Info", "WARN", "héllo Wörld", "ß", "ŉ", "x\xffY"}[r.IntN(7)])
	case 1:
		return slog.IntValue(r.IntN(1000) - 500)
	case 2:
		return slog.BoolValue(r.IntN(2) == 0)
	case 3:
		return slog.AnyValue(slog.Level(r.IntN(20) - 8))
	case 4:
		return slog.AnyValue(namer{"Mixed Case"})
	case 5:
		return slog.TimeValue(time.Unix(int64(r.IntN(1<<30)), 0).UTC())
	case 6:
		return slog.DurationValue(time.Duration(r.IntN(1 << 30)))
	case 7:
		return slog.Float64Value(r.Float64() * 1e30)
	default:
		return slog.Value{}
	}
}

// replSpec describes one replacement function twice: the real one and what it has to do.
type replSpec struct {
	name string
	real infra.AttrFn
	want func(groups []string, a slog.Attr) slog.Attr
}

type grpSpec struct {
	name string
	real replace.GroupCheckFn
	want func(groups []string) bool
}

func genGroupCheck(r *rand.Rand) grpSpec {
	switch r.IntN(5) {
	case 0:
		return grpSpec{"none", nil, func([]string) bool { return true }}
	case 1, 2:
		return grpSpec{"top", replace.TopCheck, func(g []string) bool { return len(g) == 0 }}
	case 3:
		name := []string{"g", "h", "", "G", "a b"}[r.IntN(5)]
		return grpSpec{"current " + name, replace.Current(name), func(g []string) bool { return len(g) > 0 && g[len(g)-1] == name }}
	default:
		n := r.IntN(3)
		fn := func(g []string) bool { return len(g) == n }
		return grpSpec{fmt.Sprintf("depth %d", n), fn, fn}
	}
}

func genRepl(r *rand.Rand, depth int, pool []string) replSpec {
	key := pool[r.IntN(len(pool))]
	fold := r.IntN(2) == 0
	grp := genGroupCheck(r)
	match := func(g []string, a slog.Attr) bool {
		same := a.Key == key
		if fold {
			same = strings.EqualFold(a.Key, key)
		}
		return same && grp.want(g)
	}
	desc := fmt.Sprintf("(%q fold=%v %s)", key, fold, grp.name)
	k := r.IntN(6)
	if depth > 0 && r.IntN(3) == 0 {
		k = 6
	}
	switch k {
	case 0:
		to := pool[r.IntN(len(pool))]
		return replSpec{"ChangeKey" + desc + "->" + to, replace.ChangeKey(key, to, fold, grp.real),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					a.Key = to
				}
				return a
			}}
	case 1:
		return replSpec{"RemoveKey" + desc, replace.RemoveKey(key, fold, grp.real),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					return slog.Attr{}
				}
				return a
			}}
	case 2:
		v := replValue(r)
		return replSpec{fmt.Sprintf("SetValueTo%s=%v", desc, v), replace.ChangeValue(key, replace.SetValueTo(v), fold, grp.real),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					a.Value = v
				}
				return a
			}}
	case 3:
		fn := func(v slog.Value) slog.Value { return slog.StringValue(v.Kind().String() + ":" + v.String()) }
		return replSpec{"ChangeValue" + desc, replace.ChangeValue(key, fn, fold, grp.real),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					a.Value = fn(a.Value)
				}
				return a
			}}
	case 4, 5:
		how := []replace.ChangeCases{replace.CaseNone, replace.CaseLower, replace.CaseUpper, replace.CaseUpper, replace.CaseLower, 77}[r.IntN(6)]
		return replSpec{fmt.Sprintf("ChangeCase%s %d", desc, how), replace.ChangeCase(key, how, fold, grp.real),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					switch how {
					case replace.CaseLower:
						a.Value = slog.StringValue(strings.ToLower(a.Value.String()))
					case replace.CaseUpper:
						a.Value = slog.StringValue(strings.ToUpper(a.Value.String()))
					}
				}
				return a
			}}
	default:
		n := r.IntN(4)
		subs := make([]replSpec, n)
		reals := make([]infra.AttrFn, n)
		names := make([]string, n)
		for i := range subs {
			subs[i] = genRepl(r, depth-1, pool)
			reals[i], names[i] = subs[i].real, subs[i].name
		}
		return replSpec{"Multiple[" + strings.Join(names, ", ") + "]", replace.Multiple(reals...),
			func(g []string, a slog.Attr) slog.Attr {
				for _, s := range subs {
					a = s.want(g, a)
					if a.Equal(slog.Attr{}) {
						break
					}
				}
				return a
			}}
	}
}

func genGroups(r *rand.Rand) []string {
	var g []string
	for range r.IntN(4) {
		g = append(g, []string{"g", "h", "", "G", "a b", "level"}[r.IntN(6)])
	}
	return g
}

func sameAttr(a, b slog.Attr) bool {
	if a.Key != b.Key || a.Value.Kind() != b.Value.Kind() {
		return false
	}
	return a.Value.Equal(b.Value)
}

func replaceFunctions(c *kit.Ctx) {
	c.Rule("replacement functions with generated keys, matching, group checks and nestings of Multiple, applied to generated attributes at generated depths: directly in sequence, from several goroutines, and inside slog.JSONHandler, flash and sloggy; a case is distinct by function and attribute, and non-trivial when the function changes the attribute or a near miss of the key occurs")
	for i := 0; i < c.N(6000, 200000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("repl", i)
		at := r.IntN(len(replKeys) - 3)
		pool := replKeys[at : at+3]
		if r.IntN(3) == 0 {
			pool = foldedKeys(r)
		}
		spec := genRepl(r, 2, pool)
		type call struct {
			groups []string
			a      slog.Attr
		}
		calls := make([]call, 8)
		for j := range calls {
			calls[j] = call{genGroups(r), slog.Attr{Key: pool[r.IntN(3)], Value: replValue(r)}}
		}
		apply := func(cl call) {
			groups := slices.Clone(cl.groups)
			want := spec.want(cl.groups, cl.a)
			var got slog.Attr
			c.Guard("replacement function", func() any { return spec.name }, func() { got = spec.real(groups, cl.a) })
			if !sameAttr(got, want) {
				c.Violate("a replacement function returned the wrong attribute", map[string]any{
					"case": i, "function": spec.name, "groups": cl.groups, "attr": cl.a.String(),
					"got": fmt.Sprintf("%q=%v(%s)", got.Key, got.Value, got.Value.Kind()), "want": fmt.Sprintf("%q=%v(%s)", want.Key, want.Value, want.Value.Kind())})
			}
			if !slices.Equal(groups, cl.groups) {
				c.Violate("a replacement function changed the list of groups", map[string]any{"case": i, "function": spec.name})
			}
			fp := ""
			if !sameAttr(want, cl.a) {
				fp = fmt.Sprint(spec.name, cl.groups, cl.a)
				c.Count("changes", 1)
			} else {
				c.Count("unchanged", 1)
			}
			c.Eval(fp)
		}
		for _, cl := range calls {
			apply(cl)
		}
		apply(calls[0]) // no memory of earlier calls
		if i%4 == 0 {
			// Another function of the same sort, which meets most of these attributes for the first time.
			r2 := c.Rng("repl", i)
			at := r2.IntN(len(replKeys) - 3)
			pool := replKeys[at : at+3]
			if r2.IntN(3) == 0 {
				pool = foldedKeys(r2)
			}
			spec = genRepl(r2, 2, pool)
			lists := make([][]call, 4)
			for g := range lists {
				for range 6 {
					lists[g] = append(lists[g], call{genGroups(r2), slog.Attr{Key: pool[r2.IntN(3)], Value: replValue(r2)}})
				}
				lists[g] = append(lists[g], calls...)
			}
			var wg sync.WaitGroup
			for _, list := range lists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, cl := range list {
						apply(cl)
					}
				}()
			}
			wg.Wait()
			c.Count("concurrent uses", 4)
		}
		if i < 3 {
			c.Sample(map[string]any{"function": spec.name, "groups": calls[0].groups, "attr": calls[0].a.String()})
		}
	}
	// Within handlers: what the function did must show in the line, in comparison with the plain description.
	for i := 0; i < c.N(1500, 30000); i++ {
		r := c.Rng("handler", i)
		pool := [][]string{{"a", "A", "x"}, {"key", "Key", "kEY"}}[r.IntN(2)]
		spec := genRepl(r, 2, pool)
		key := pool[r.IntN(3)]
		val := []string{"Info", "wArN", "höher"}[r.IntN(3)]
		depth := r.IntN(3)
		groups := []string{"g", "h"}[:depth]
		// Handlers may write values of other kinds in their own ways.
		if w := spec.want(groups, slog.String(key, val)); !w.Equal(slog.Attr{}) && (w.Key == "" ||
			(w.Value.Kind() != slog.KindString && w.Value.Kind() != slog.KindInt64 && w.Value.Kind() != slog.KindBool)) {
			continue
		}
		log := func(h slog.Handler) {
			l := slog.New(h)
			for _, g := range groups {
				l = l.WithGroup(g)
			}
			l.Info("x", slog.String(key, val))
		}
		opts := func(fn infra.AttrFn) *slog.HandlerOptions {
			return &slog.HandlerOptions{ReplaceAttr: func(g []string, a slog.Attr) slog.Attr {
				if len(g) == 0 && (a.Key == "time" || a.Key == "level" || a.Key == "msg") {
					return a
				}
				return fn(g, a)
			}}
		}
		var refBuf, flBuf, slBuf bytes.Buffer
		log(slog.NewJSONHandler(&refBuf, opts(spec.want)))
		c.Guard("flash with "+spec.name, nil, func() { log(flash.NewHandler(&flBuf, opts(spec.real), nil)) })
		c.Guard("sloggy with "+spec.name, nil, func() { log(sloggy.NewHandler(&slBuf, opts(spec.real))) })
		want := members(refBuf.Bytes())
		for name, b := range map[string][]byte{"flash": flBuf.Bytes(), "sloggy": slBuf.Bytes()} {
			if got := members(b); got != want {
				c.Violate("a replacement function in "+name+" did not have its effect", map[string]any{
					"case": i, "function": spec.name, "groups": groups, "key": key, "value": val, "got": got, "want": want})
			}
			c.Eval("")
			c.Count("lines of handlers", 1)
		}
	}
	c.Need("changes", 500)
	c.Need("lines of handlers", 1000)
}

// members renders what was logged beyond the built-in fields; empty groups do not count.
func members(line []byte) string {
	var m map[string]any
	if err := json.Unmarshal(line, &m); err != nil {
		return "invalid: " + string(line)
	}
	delete(m, "time")
	delete(m, "level")
	delete(m, "msg")
	raw, _ := json.Marshal(prune(m))
	return string(raw)
}

func prune(m map[string]any) map[string]any {
	for k, v := range m {
		if sub, ok := v.(map[string]any); ok {
			if len(prune(sub)) == 0 {
				delete(m, k)
			}
		}
	}
	return m
}
