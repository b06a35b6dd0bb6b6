package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"math"
	"math/rand/v2"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// ---------------------------------------------------------------------------
// Values: a description from which both the slog.Value and the expected JSON are derived.

type val struct {
	Kind string // bool int uint float str dur time group valuer any
	B    bool
	I    int64
	U    uint64
	F    float64
	S    string
	T    time.Time
	Kids []attr
	Sub  *val
	Name string // any: which type
	mk   func() any
	exp  kit.Node
}

type attr struct {
	Key string
	V   val
}

func (v val) slog() slog.Value {
	switch v.Kind {
	case "bool":
		return slog.BoolValue(v.B)
	case "int":
		return slog.Int64Value(v.I)
	case "uint":
		return slog.Uint64Value(v.U)
	case "float":
		return slog.Float64Value(v.F)
	case "str":
		return slog.StringValue(v.S)
	case "dur":
		return slog.DurationValue(time.Duration(v.I))
	case "time":
		return slog.TimeValue(v.T)
	case "group":
		return slog.GroupValue(toSlog(v.Kids)...)
	case "valuer":
		return slog.AnyValue(valuer{*v.Sub})
	case "any":
		return slog.AnyValue(v.mk())
	}
	panic("kind " + v.Kind)
}

type valuer struct{ v val }

func (l valuer) LogValue() slog.Value { return l.v.slog() }

func (a attr) slog() slog.Attr { return slog.Attr{Key: a.Key, Value: a.V.slog()} }

func toSlog(as []attr) []slog.Attr {
	out := make([]slog.Attr, len(as))
	for i, a := range as {
		out[i] = a.slog()
	}
	return out
}

func (v val) String() string {
	switch v.Kind {
	case "bool":
		return fmt.Sprint(v.B)
	case "int", "dur":
		return fmt.Sprintf("%s(%d)", v.Kind, v.I)
	case "uint":
		return fmt.Sprintf("uint(%d)", v.U)
	case "float":
		return fmt.Sprintf("float(%v)", v.F)
	case "str":
		return strconv.Quote(v.S)
	case "time":
		return v.T.Format(time.RFC3339Nano)
	case "group":
		return "group" + attrsString(v.Kids)
	case "valuer":
		return "valuer(" + v.Sub.String() + ")"
	}
	return "any:" + v.Name + "(" + strconv.Quote(v.S) + ")"
}

func attrsString(as []attr) string {
	parts := make([]string, len(as))
	for i, a := range as {
		parts[i] = strconv.Quote(a.Key) + "=" + a.V.String()
	}
	return "[" + strings.Join(parts, " ") + "]"
}

func resolve(v val) val {
	for v.Kind == "valuer" {
		v = *v.Sub
	}
	return v
}

func isNilAny(v val) bool { return v.Kind == "any" && v.Name == "nil" }

// leaf is the expected JSON of a resolved value which is no group.
func leaf(v val, timeFormat string) kit.Node {
	switch v.Kind {
	case "bool":
		return kit.Node{Kind: 'b', Bool: v.B}
	case "int", "dur":
		return kit.Node{Kind: 'n', Num: strconv.FormatInt(v.I, 10)}
	case "uint":
		return kit.Node{Kind: 'n', Num: strconv.FormatUint(v.U, 10)}
	case "float":
		if math.IsNaN(v.F) || math.IsInf(v.F, 0) {
			return kit.Node{Kind: 'x'}
		}
		return kit.Node{Kind: 'n', Num: strconv.FormatFloat(v.F, 'e', -1, 64)}
	case "str":
		return kit.Node{Kind: 's', Str: v.S}
	case "time":
		if timeFormat != "" {
			// The configured format is that of the built-in field, nothing is said about other times.
			return kit.Node{Kind: 'S'}
		}
		return kit.Node{Kind: 's', Str: v.T.Format(time.RFC3339Nano)}
	case "any":
		return v.exp
	}
	panic("leaf " + v.Kind)
}

// ---------------------------------------------------------------------------
// Types for KindAny

type tStringer struct{ s string }

func (t tStringer) String() string { return t.s }

type tPtrStringer struct{ s string }

func (t *tPtrStringer) String() string { return t.s }

type tError struct{ s string }

func (t tError) Error() string { return t.s }

type tPtrError struct{ s string }

func (t *tPtrError) Error() string { return t.s }

type tText struct{ s string }

func (t tText) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type tTextBad struct{ s string }

func (t tTextBad) MarshalText() ([]byte, error) { return nil, errors.New(t.s) }

type tJSON struct{ s string }

func (t tJSON) MarshalJSON() ([]byte, error) { return []byte(t.s), nil }

type tJSONBad struct{ s string }

func (t tJSONBad) MarshalJSON() ([]byte, error) { return nil, errors.New(t.s) }

type tPanic struct{ s string }

func (t tPanic) String() string { panic(t.s) }

type tStruct struct {
	Name  string            `json:"name"`
	Count int               `json:"count"`
	Tags  []string          `json:"tags"`
	Map   map[string]string `json:"map,omitempty"`
}

func anyVal(name, s string, mk func() any, exp kit.Node) val {
	return val{Kind: "any", Name: name, S: s, mk: mk, exp: exp}
}

func marshalled(name, s string, mk func() any) val {
	raw, err := json.Marshal(mk())
	if err != nil {
		panic(err)
	}
	n, err := kit.ParseAny(raw)
	if err != nil {
		panic(err)
	}
	return anyVal(name, s, mk, n)
}

func nilVal() val {
	return anyVal("nil", "", func() any { return nil }, kit.Node{Kind: 'z'})
}

func str(s string) kit.Node { return kit.Node{Kind: 's', Str: s} }

// ---------------------------------------------------------------------------
// Generators

type gen struct {
	*rand.Rand
	special bool // values whose marshalling fails or panics
	last    time.Time
	feat    map[string]bool
}

func (g *gen) mark(f string) {
	if g.feat == nil {
		g.feat = map[string]bool{}
	}
	g.feat[f] = true
}

func pick[T any](g *gen, xs ...T) T { return xs[g.IntN(len(xs))] }

var hostile = []string{
	`"`, `\`, `\"`, `"}`, `","x":"y`, `", "injected": "yes`, "{", "}", "[", "x{", ",", ", ", ": ", `": {`,
	"\n", "\r\n", "\r", "\t", "\b", "\f", "\v", "\a", "\x00", "\x01", "\x1b[31m", "\x1f", "\x7f", "a\nb", "/", "</script>", "<&>", "'",
	"é", "€", "😀", "日本語", "\u2028", "\u2029", "\ufeff", "\u00a0", "\u0085", "\U0010FFFF", "\ufffd", "ﬃ", "e\u0301", "\u202e", "\ufffe", "\uffff",
	"\xff", "\xfe", "\x80", "\xbf", "\xc3", "\xc3\"", "\xe2\x82", "\xe2\"}", "\xe2\x82\"", "\xf0\x9f\x98", "\xf0\x9f\"", "\xf0\"}\n", "\xed\xa0\x80", "\xc0\x80", "\xc0\xaf", "\xf8\x88\x80\x80\x80", "\xf4\x90\x80\x80",
	"\x80abc", "abc\x80def", "é\x80é", "ok\xc3", "😀\xf0", "%s%d%!", "null", "true", "0", "-1", "!ERROR:", "!BADKEY", "\\u0041", "\\n",
}

func (g *gen) text() string {
	switch g.IntN(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return pick(g, "alpha", "bravo", "charlie", "Hello, world", "delta echo", "x", "group", "The quick brown fox jumps over the lazy dog")
	case 4, 5:
		g.mark("hostile text")
		return pick(g, hostile...)
	case 6, 7, 8:
		g.mark("hostile text")
		var b strings.Builder
		for n := 1 + g.IntN(6); n > 0; n-- {
			if g.IntN(3) == 0 {
				b.WriteString(pick(g, "a", "bc", " ", "def", "0"))
			} else {
				b.WriteString(pick(g, hostile...))
			}
		}
		return b.String()
	case 9:
		g.mark("random bytes")
		b := make([]byte, g.IntN(40))
		for i := range b {
			b[i] = byte(g.IntN(256))
		}
		return string(b)
	case 10:
		g.mark("random runes")
		var b strings.Builder
		for n := g.IntN(20); n > 0; n-- {
			b.WriteRune(rune(g.IntN(0x11000)))
		}
		return b.String()
	default:
		if g.IntN(6) == 0 {
			g.mark("long text")
			if g.IntN(2) == 0 {
				return straddle(1<<(5+g.IntN(12)), g.IntN(5), pick(g, "é", "€", "😀", "\"", "\\", "\n", "\x00", "\xff"))
			}
			return strings.Repeat(pick(g, "long ", "\"", "é", "😀", "\\", "x\n", "\xe2"), 100+g.IntN(900))
		}
		return pick(g, hostile...) + pick(g, hostile...)
	}
}

// straddle is a text in which something begins a few bytes before a round number.
func straddle(size, before int, what string) string {
	return strings.Repeat("x", max(0, size-before)) + what + "tail " + what + what
}

func (g *gen) key() string {
	switch g.IntN(10) {
	case 0:
		return pick(g, "time", "level", "msg", "source", "message")
	case 1:
		return g.text()
	case 2:
		return ""
	default:
		return pick(g, "a", "b", "c", "d", "e", "f", "key", "Key", "k1", "k2", "group", "user", "id")
	}
}

func (g *gen) groupName() string {
	if g.IntN(8) == 0 {
		return g.text()
	}
	return pick(g, "g", "h", "group", "sub", "a", "b", "msg", "time")
}

var times = []time.Time{
	time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2000, 1, 1, 12, 0, 0, 120000000, time.FixedZone("X", -7*3600-1800)),
	time.Date(9999, 12, 31, 23, 59, 59, 1, time.FixedZone("Y", 14*3600)),
	time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC),
	time.Date(2024, 7, 4, 1, 2, 3, 4000, time.FixedZone("Z", 3600)),
	// Instants of the list in other zones.
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).In(time.FixedZone("W", -3600)),
	time.Date(2024, 7, 4, 1, 2, 3, 4000, time.FixedZone("Z", 3600)).UTC(),
	time.Date(2024, 7, 4, 1, 2, 3, 4000, time.FixedZone("Z", 3600)).In(time.FixedZone("V", 7200)),
	// Almost the same instant.
	time.Date(2024, 7, 4, 1, 2, 3, 4001, time.FixedZone("Z", 3600)),
	time.Date(2024, 7, 4, 1, 2, 3, 0, time.FixedZone("Z", 3600)),
	time.Date(2024, 7, 5, 1, 2, 3, 4000, time.FixedZone("Z", 3600)),
}

func (g *gen) time() time.Time {
	switch {
	case g.IntN(3) == 0:
		g.last = time.Unix(g.Int64N(4e9), g.Int64N(1e9)).UTC()
	case !g.last.IsZero() && g.IntN(3) == 0:
		g.last = g.last.In(pick(g, time.UTC, time.FixedZone("A", 3600), time.FixedZone("B", -5*3600)))
	case !g.last.IsZero() && g.IntN(3) == 0:
		g.last = g.last.Add(pick(g, 1, time.Microsecond, time.Second, time.Minute, 24*time.Hour))
	default:
		g.last = pick(g, times...)
	}
	return g.last
}

func (g *gen) value(depth int) val {
	n := 12
	if depth > 0 {
		n = 15
	}
	switch g.IntN(n) {
	case 0:
		return val{Kind: "bool", B: g.IntN(2) == 0}
	case 1:
		return val{Kind: "int", I: pick(g, 0, 1, -1, math.MaxInt64, math.MinInt64, 42, 1<<53+1, math.MaxInt32, math.MinInt32, 1<<31, 1<<32, -1<<53-1, 1e18, g.Int64(), int64(g.IntN(2000)-1000))}
	case 2:
		return val{Kind: "uint", U: pick(g, 0, 1, math.MaxUint64, 1<<63, 1<<63-1, 1<<53+1, 1<<32, g.Uint64(), uint64(g.IntN(1000)))}
	case 3:
		f := pick(g, 0, 1.5, -2.25, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 123456789012345680, math.Float64frombits(g.Uint64()))
		switch g.IntN(6) {
		case 0: // around the limits of integers
			f = math.Ldexp(pick(g, 1.0, -1), pick(g, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 100))
			f = pick(g, f, math.Nextafter(f, 0), math.Nextafter(f, 2*f), f+1, f-1)
		case 1:
			f = pick(g, math.Copysign(0, -1), 0.1, 1.0/3, -1e15, 1e16, 1e17, 1e20, 1e22, 1e300, -1e-300, 100, 1e6, 1e-5, 1e-6, float64(float32(0.1)), 5e-324, 0.30000000000000004, float64(g.IntN(1000)), float64(g.IntN(100000))/1000)
		}
		if g.IntN(12) == 0 {
			f = pick(g, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			g.mark("non-finite float")
		}
		return val{Kind: "float", F: f}
	case 4, 5, 6:
		return val{Kind: "str", S: g.text()}
	case 7:
		return val{Kind: "dur", I: pick(g, 0, 1, int64(time.Hour+3*time.Minute), -5, int64(time.Microsecond), 1e9, 999, math.MinInt64, math.MaxInt64, g.Int64())}
	case 8:
		return val{Kind: "time", T: g.time()}
	case 9, 10, 11:
		return g.any()
	case 12:
		g.mark("valuer")
		sub := g.value(depth - 1)
		if isNilAny(sub) {
			sub = val{Kind: "int", I: 7}
		}
		if g.IntN(12) == 0 {
			g.mark("chain of valuers")
			for n := g.IntN(40); n > 0; n-- {
				inner := sub
				sub = val{Kind: "valuer", Sub: &inner}
			}
		}
		return val{Kind: "valuer", Sub: &sub}
	default:
		g.mark("group value")
		if g.IntN(16) == 0 {
			g.mark("deep group")
			v := val{Kind: "group", Kids: g.attrs(g.IntN(3), 0)}
			for n := 3 + g.IntN(14); n > 0; n-- {
				kids := append(g.attrs(g.IntN(2), 0), attr{g.groupName(), v})
				v = val{Kind: "group", Kids: append(kids, g.attrs(g.IntN(2), 0)...)}
			}
			return v
		}
		return val{Kind: "group", Kids: g.attrs(g.IntN(4), depth-1)}
	}
}

func (g *gen) any() val {
	n := 12
	if g.special {
		n = 21
	}
	s := g.text()
	switch g.IntN(n) {
	case 0:
		return anyVal("stringer", s, func() any { return tStringer{s} }, str(s))
	case 1:
		return anyVal("*stringer", s, func() any { return &tPtrStringer{s} }, str(s))
	case 2:
		return anyVal("error", s, func() any { return tError{s} }, str(s))
	case 3:
		return anyVal("errors.New", s, func() any { return errors.New(s) }, str(s))
	case 4:
		return anyVal("text", s, func() any { return tText{s} }, str(s))
	case 5:
		raw := pick(g, `{"a":1,"b":[true,null]}`, `"text"`, `12.5`, `[]`, `{}`, `null`, `{"q":"\"}"}`,
			"{\n  \"a\": 1,\n\t\"b\": [\r\n1, 2]\n}\n", " [1 , 2] ", "[\n]", "\n\"x\"", "{\"u\":\"\u2028\"}", `{"<a>":"&"}`, `-0.0e+1`)
		return anyVal("json", raw, func() any { return tJSON{raw} }, kit.Node{Kind: 'j', Str: raw})
	case 6:
		return marshalled("[]string", s, func() any { return []string{"x", s, "y"} })
	case 7:
		return marshalled("map", s, func() any { return map[string]any{"k": s, "n": 3.5, "l": []int{1, 2}} })
	case 8:
		return marshalled("struct", s, func() any { return tStruct{Name: s, Count: 3, Tags: []string{s}} })
	case 9:
		return marshalled("*struct", s, func() any { return &tStruct{Name: s, Map: map[string]string{"m": s}} })
	case 10:
		ip := net.IPv4(10, 1, byte(g.IntN(256)), byte(g.IntN(256)))
		switch g.IntN(6) {
		case 0:
			ip = net.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(g.IntN(256))}
		case 1:
			ip = net.IP(pick(g, nil, []byte{1, 2, 3}, []byte{1, 2, 3, 4}, make([]byte, 16)))
		}
		return pick(g,
			anyVal("ip", ip.String(), func() any { return ip }, str(ip.String())),
			anyVal("*ipnet", ip.String(), func() any { return &net.IPNet{IP: ip, Mask: net.CIDRMask(24, 32)} }, str((&net.IPNet{IP: ip, Mask: net.CIDRMask(24, 32)}).String())),
			anyVal("mac", "", func() any { return net.HardwareAddr{0, 0, 0x5e, 0, 0x53, 1} }, str("00:00:5e:00:53:01")))
	case 11:
		return pick(g,
			anyVal("nil", "", func() any { return nil }, kit.Node{Kind: 'z'}),
			marshalled("[]byte", s, func() any { return []byte(s) }),
			marshalled("[]int", "", func() any { return []int{1, -2, 3} }),
			marshalled("nilslice", "", func() any { return []int(nil) }),
			marshalled("nilmap", "", func() any { return map[string]int(nil) }),
			marshalled("[]any", s, func() any { return []any{s, 1, nil, true, map[string]any{s: s}} }))
	case 12:
		g.mark("failing value")
		return anyVal("text error", s, func() any { return tTextBad{s} }, kit.Node{Kind: 'e', Str: ""})
	case 13:
		g.mark("failing value")
		return anyVal("json error", s, func() any { return tJSONBad{s} }, kit.Node{Kind: 'e', Str: ""})
	case 14:
		g.mark("failing value")
		return anyVal("chan", "", func() any { return make(chan int) }, kit.Node{Kind: 'x'})
	case 15:
		g.mark("failing value")
		return anyVal("func", "", func() any { return []any{1, func() {}} }, kit.Node{Kind: 'x'})
	case 16:
		g.mark("failing value")
		return anyVal("nan slice", "", func() any { return []float64{1, math.NaN()} }, kit.Node{Kind: 'x'})
	case 17:
		g.mark("failing value")
		raw := pick(g, "", "{", "}", `{"a":1}}`, `1, "x": 2`, "nope", "\n", `"`, "{\"a\":\"\xff\"}", "[1,]", "\"a\nb\"", s)
		return anyVal("wrong json", raw, func() any { return tJSON{raw} }, kit.Node{Kind: 'x'})
	case 18:
		g.mark("failing value")
		return anyVal("nil error", "", func() any { return (*tPtrError)(nil) }, kit.Node{Kind: 'x'})
	case 19:
		g.mark("failing value")
		return anyVal("nil *stringer", "", func() any { return (*tPtrStringer)(nil) }, kit.Node{Kind: 'x'})
	default:
		g.mark("failing value")
		return anyVal("panic", s, func() any { return tPanic{s} }, kit.Node{Kind: 'x'})
	}
}

func (g *gen) attrs(n, depth int) []attr {
	out := make([]attr, 0, n)
	for i := 0; i < n; i++ {
		switch {
		case g.IntN(14) == 0:
			g.mark("empty attr")
			out = append(out, attr{"", nilVal()})
		default:
			out = append(out, attr{g.key(), g.value(depth)})
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// The reference model of a logger: what the one line of a record has to contain.

type op struct {
	Group string // WithGroup
	Attrs []attr // WithAttrs
	IsGrp bool
}

func (o op) String() string {
	if o.IsGrp {
		return "WithGroup(" + strconv.Quote(o.Group) + ")"
	}
	return "With" + attrsString(o.Attrs)
}

type replaceFn func(groups []string, a attr) attr

type model struct {
	replace    replaceFn
	timeFormat string
}

// encode gives the members which the attributes contribute to the object with the given group path.
func (m *model) encode(groups []string, as []attr) []kit.Member {
	var out []kit.Member
	for _, a := range as {
		a.V = resolve(a.V)
		if m.replace != nil && a.V.Kind != "group" {
			a = m.replace(append([]string(nil), groups...), a)
			a.V = resolve(a.V)
		}
		if a.Key == "" && isNilAny(a.V) {
			continue
		}
		if a.V.Kind == "group" {
			if a.Key == "" {
				out = append(out, m.encode(groups, a.V.Kids)...)
			} else if kids := m.encode(append(append([]string(nil), groups...), a.Key), a.V.Kids); len(kids) > 0 {
				out = append(out, kit.Member{Key: a.Key, Val: kit.Node{Kind: 'o', Kids: kids}})
			}
			continue
		}
		out = append(out, kit.Member{Key: a.Key, Val: leaf(a.V, m.timeFormat)})
	}
	return out
}

// body gives the members of everything that is not a built-in field.
func (m *model) body(ops []op, rec []attr) []kit.Member {
	var build func(groups []string, ops []op) []kit.Member
	build = func(groups []string, ops []op) []kit.Member {
		var out []kit.Member
		for i, o := range ops {
			if !o.IsGrp {
				out = append(out, m.encode(groups, o.Attrs)...)
			} else if o.Group != "" {
				if kids := build(append(append([]string(nil), groups...), o.Group), ops[i+1:]); len(kids) > 0 {
					out = append(out, kit.Member{Key: o.Group, Val: kit.Node{Kind: 'o', Kids: kids}})
				}
				return out
			}
		}
		return append(out, m.encode(groups, rec)...)
	}
	return build(nil, ops)
}
