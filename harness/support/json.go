package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"sync"

	intjson "github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

var nameBits = []string{"a", "b", "time", "level", "fields", "é", "\\u0061", "\\n", "\\\"", "\\\\", "{", "}", "[", "]", ":", ",", " ", "\\/", "\\ud83d\\ude00", "😀", "\\u00e9", "\\u0000", "true", "1",
	"A", "Time", "LEVEL", "Fields", "\\b", "\\f", "\\r", "\\t", "\\u000A", "\\ud800", "\\uDE00x", "\xff", "\xe2\x82", "\u2028", "\x7f", "\u0130", "\ufeff", "\u00a0", "\ufffd", "\\ufffd", "\\u0041", "'", "/", "\U0010ffff"}

func genName(r *rand.Rand) string {
	if r.IntN(3) == 0 {
		return []string{"", "a", "time", "msg", "\\u0061", "x y"}[r.IntN(6)]
	}
	var b strings.Builder
	n := 1 + r.IntN(3)
	if r.IntN(60) == 0 {
		n = 1 + r.IntN(400)
	}
	for range n {
		b.WriteString(nameBits[r.IntN(len(nameBits))])
	}
	return b.String()
}

func ws(r *rand.Rand) string { return []string{"", "", "", " ", "\n", "\t", "\r\n  "}[r.IntN(7)] }

func genJSON(r *rand.Rand, b *strings.Builder, depth int) {
	b.WriteString(ws(r))
	defer func() { b.WriteString(ws(r)) }()
	k := r.IntN(9)
	if depth <= 0 && k < 3 {
		k += 3
	}
	switch k {
	case 0, 1:
		genObject(r, b, depth, "")
	case 2:
		b.WriteString("[")
		n := r.IntN(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(",")
			}
			genJSON(r, b, depth-1)
		}
		if n == 0 {
			b.WriteString(ws(r))
		}
		b.WriteString("]")
	case 3:
		b.WriteString([]string{"true", "false", "null"}[r.IntN(3)])
	case 4, 5:
		b.WriteString([]string{"0", "-0", "1", "-17", "3.25", "1e5", "1E-7", "-2.5e+300", "12345678901234567890", "0.1", "0e0", "-0.0E+00", "1E5", strconv.FormatFloat(math.Exp(600*r.Float64()-300), "efg"[r.IntN(3)], -1, 64)}[r.IntN(14)])
	default:
		b.WriteString(`"` + genName(r) + genName(r) + `"`)
	}
}

// genObject writes an object; at the top level no member called fields holds an object unless apex is set.
func genObject(r *rand.Rand, b *strings.Builder, depth int, apex string) {
	b.WriteString("{")
	n := r.IntN(6)
	at := -1
	if apex != "" {
		n++
		at = r.IntN(n)
	}
	if n == 0 {
		b.WriteString(ws(r))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(ws(r))
		if i == at {
			b.WriteString(`"fields"` + ws(r) + ":" + ws(r) + apex + ws(r))
			continue
		}
		b.WriteString(`"` + genName(r) + `"` + ws(r) + ":")
		genJSON(r, b, depth-1)
	}
	b.WriteString("}")
}

// genMany writes an object whose counts or lengths are beyond what small types and buffers hold.
func genMany(r *rand.Rand, b *strings.Builder) {
	b.Reset()
	b.WriteString("{")
	sizes := []int{7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 1024, 4095, 4096, 4097}
	n := sizes[r.IntN(len(sizes))]
	if r.IntN(40) == 0 {
		n = 65535 + r.IntN(3)
	}
	kind := r.IntN(3)
	long := strings.Repeat("xy", n)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		switch kind {
		case 0: // One name again and again, others between.
			if r.IntN(50) == 0 {
				fmt.Fprintf(b, `"n%d":%d,`, r.IntN(9), i)
			}
			b.WriteString(`"again":1`)
		case 1: // Many names, most of them once.
			fmt.Fprintf(b, `"n%d":"%d"`, i-r.IntN(8)/7, i)
		default: // A few names that differ in the end only, with long values.
			if i >= 9 {
				fmt.Fprintf(b, `"last":1`)
				i = n
				break
			}
			fmt.Fprintf(b, `"%s%d":"%s"`, long, r.IntN(4), long)
		}
	}
	b.WriteString("}")
}

// fieldModel counts the member names of the top level; ok is false where the special member "fields" is unclear.
func fieldModel(text string) (map[string]uint, bool) {
	n, err := kit.ParseAny([]byte(text))
	if err != nil || n.Kind != 'o' {
		return nil, false
	}
	counts := map[string]uint{}
	var inner *kit.Node
	names := 0
	for _, m := range n.Kids {
		if m.Key == "fields" {
			names++
			if m.Val.Kind == 'o' {
				inner = &m.Val
				continue
			}
		}
		counts[m.Key]++
	}
	if inner != nil {
		if names > 1 {
			return nil, false
		}
		for _, m := range inner.Kids {
			if m.Key == "fields" {
				return nil, false
			}
			counts[m.Key]++
		}
	}
	return counts, true
}

// fieldsTogether counts different texts at the same time, each with a counter of its own.
func fieldsTogether(c *kit.Ctx) {
	for round := 0; round < c.N(40, 2000); round++ {
		const workers = 8
		errs := make([]string, workers)
		var start, done sync.WaitGroup
		start.Add(1)
		for w := range workers {
			r := c.Rng("together", round*workers+w)
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[w] = fmt.Sprint("panic: ", p)
					}
				}()
				start.Wait()
				for range 8 {
					var b strings.Builder
					genObject(r, &b, 3, "")
					text := b.String()
					want, ok := fieldModel(text)
					if !ok {
						continue
					}
					ctr := intjson.NewFieldCounter([]byte(text))
					err := ctr.Parse()
					dups := map[string]uint{}
					for k, n := range want {
						if n > 1 {
							dups[k] = n
						}
					}
					if err != nil || ctr.NumFields() != uint(len(want)) || fmt.Sprint(ctr.Duplicates()) != fmt.Sprint(dups) {
						errs[w] = fmt.Sprintf("%q: %v, %d fields instead of %d, duplicates %v instead of %v", text, err, ctr.NumFields(), len(want), ctr.Duplicates(), dups)
					}
					_ = ctr.String()
				}
			}()
		}
		start.Done()
		done.Wait()
		c.Count("texts counted by several goroutines at once", workers*8)
		for _, e := range errs {
			if e != "" {
				c.Violate("field counter used next to others: "+e, map[string]any{"round": round})
				return
			}
		}
	}
}

// status compares what the counter says about itself with what the documentation of String says.
func status(got string, text []rune, at, fields int, dups map[string]uint) string {
	plain := func(r []rune) string { return strings.ReplaceAll(string(r), "\n", " ") }
	after, end := plain(text[at:min(at+15, len(text))]), ""
	if at+15 > len(text) {
		end = "<EOF>"
	}
	rest, ok := strings.CutPrefix(got, fmt.Sprintf("@%d '", at))
	if !ok {
		return fmt.Sprintf("status %q is not at %d", got, at)
	}
	word := "fields"
	if fields == 1 {
		word = "field"
	}
	tail := fmt.Sprintf("<^>%s%s' %d %s,", after, end, fields, word)
	for n := min(at, 10); ; n++ { // how much of what was read is shown
		if n > at || n > 15 {
			return fmt.Sprintf("status %q does not show what is before and after the cursor at %d, or the %d fields", got, at, fields)
		}
		more, ok := strings.CutPrefix(rest, plain(text[at-n:at])+tail)
		if !ok {
			continue
		}
		if len(dups) == 0 {
			if more != " no duplicates" {
				return fmt.Sprintf("status %q ends with %q without duplicates", got, more)
			}
			return ""
		}
		length := 0
		for k, n := range dups {
			item := fmt.Sprintf(" %s:%d", k, n)
			if !strings.Contains(more, item) {
				return fmt.Sprintf("status %q does not show the duplicates %v", got, dups)
			}
			length += len(item)
		}
		if len(more) != length {
			return fmt.Sprintf("status %q shows more than the duplicates %v", got, dups)
		}
		return ""
	}
}

const junk = "{}[]:,\"\\tfn-+.eE0 1\xffx"

func fieldCounter(c *kit.Ctx) {
	c.Rule("generated JSON objects with repeated, escaped and nested member names in all positions, white space variants and the special member named fields, against a count over the token stream of encoding/json; plus mutated, truncated and random texts which must end without a crash; distinct by text")
	for i := 0; i < c.N(25000, 1000000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("json", i)
		var b strings.Builder
		b.WriteString(ws(r))
		apex := ""
		if r.IntN(5) == 0 {
			var in strings.Builder
			genObject(r, &in, 2, "")
			apex = in.String()
		}
		genObject(r, &b, 1+r.IntN(4), apex)
		if r.IntN(300) == 0 {
			n := 1 + r.IntN(3000)
			b.Reset()
			b.WriteString(`{"a":` + strings.Repeat(`{"a":[`, n) + "1" + strings.Repeat("]}", n) + `,"b":1}`)
		}
		if r.IntN(100) == 0 {
			genMany(r, &b)
			c.Count("objects with many members or long names", 1)
		}
		b.WriteString(ws(r))
		text := b.String()
		if !json.Valid([]byte(text)) {
			c.Violate("the generator made invalid JSON", text)
			return
		}
		want, ok := fieldModel(text)
		if !ok {
			c.Count("texts with an unclear member named fields", 1)
			continue
		}
		var ctr *intjson.FieldCounter
		var err error
		c.Guard("FieldCounter", func() any { return text }, func() {
			src := []byte(text)
			ctr = intjson.NewFieldCounter(src)
			err = ctr.Parse()
			if string(src) != text {
				c.Violate("the field counter changes its source", map[string]any{"case": i, "text": text})
			}
		})
		if ctr == nil {
			continue
		}
		why := ""
		dups := map[string]uint{}
		var names []string
		for k, n := range want {
			names = append(names, k)
			if n > 1 {
				dups[k] = n
			}
		}
		slices.Sort(names)
		if err != nil {
			why = "a valid JSON object is rejected: " + err.Error()
		} else if got := ctr.Fields(); !slices.Equal(got, names) && len(got)+len(names) > 0 {
			why = fmt.Sprintf("fields %q instead of %q", got, names)
		} else if ctr.NumFields() != uint(len(names)) {
			why = fmt.Sprintf("%d fields instead of %d", ctr.NumFields(), len(names))
		} else if got := ctr.Duplicates(); fmt.Sprint(got) != fmt.Sprint(dups) {
			why = fmt.Sprintf("duplicates %v instead of %v", got, dups)
		}
		if why != "" {
			c.Violate("field counter: "+why, map[string]any{"case": i, "text": text})
		}
		c.Guard("FieldCounter.String", func() any { return text }, func() {
			runes := []rune(text)
			end := len([]rune(strings.TrimRight(text, " \t\r\n")))
			for range 1 + r.IntN(2) { // asking changes nothing
				if why := status(ctr.String(), runes, end, len(names), dups); why != "" {
					c.Violate("field counter after parsing: "+why, map[string]any{"case": i, "text": text})
					return
				}
				c.Count("status texts compared", 1)
			}
			if i%3 > 0 {
				return
			}
			early := intjson.NewFieldCounter([]byte(text))
			why := status(early.String(), runes, 0, 0, nil)
			if why == "" {
				why = status(early.String(), runes, 0, 0, nil)
			}
			if why != "" {
				c.Violate("field counter before parsing: "+why, map[string]any{"case": i, "text": text})
			} else if err := early.Parse(); err != nil || !slices.Equal(early.Fields(), names) && len(names) > 0 {
				c.Violate(fmt.Sprintf("asking for the status before parsing changes the fields: %q, %v", early.Fields(), err), map[string]any{"case": i, "text": text})
			}
		})
		// The plain parser must agree with encoding/json.
		var ref map[string]any
		_ = json.Unmarshal([]byte(text), &ref)
		c.Guard("json.Parse", func() any { return text }, func() {
			if m, err := intjson.Parse([]byte(text)); err != nil || fmt.Sprint(m) != fmt.Sprint(ref) {
				c.Violate("json.Parse does not return the object", map[string]any{"case": i, "text": text, "err": fmt.Sprint(err)})
			}
		})
		c.Eval(text)
		if len(dups) > 0 {
			c.Count("objects with duplicates", 1)
		}
		if apex != "" {
			c.Count("objects with a member named fields", 1)
		}
		if i < 4 {
			c.Sample(text)
		}
	}
	fieldsTogether(c)
	for i := 0; i < c.N(25000, 1000000); i++ {
		r := c.Rng("broken", i)
		var b strings.Builder
		genObject(r, &b, 3, "")
		raw := []byte(b.String())
		switch r.IntN(3) {
		case 0:
			raw = raw[:r.IntN(len(raw)+1)]
		case 1:
			for range 1 + r.IntN(3) {
				raw[r.IntN(len(raw))] = byte(r.IntN(256))
			}
		default:
			for k := range raw {
				raw[k] = junk[r.IntN(len(junk))]
			}
		}
		c.Guard("FieldCounter", func() any { return string(raw) }, func() {
			ctr := intjson.NewFieldCounter(raw)
			_ = ctr.Parse()
			_, _, _, _ = ctr.Fields(), ctr.Duplicates(), ctr.NumFields(), ctr.String()
		})
		c.Guard("json.Parse", func() any { return string(raw) }, func() {
			m, err := intjson.Parse(raw)
			var ref map[string]any
			if refErr := json.Unmarshal(raw, &ref); (refErr == nil) != (err == nil) || fmt.Sprint(m) != fmt.Sprint(ref) && err == nil {
				c.Violate("json.Parse and encoding/json disagree", map[string]any{"case": i, "text": string(raw), "err": fmt.Sprint(err)})
			}
			_ = intjson.Expect(string(raw))
		})
		c.Eval("")
		c.Count("broken texts", 1)
	}
	c.Need("objects with many members or long names", 100)
	c.Need("status texts compared", 10000)
	c.Need("texts counted by several goroutines at once", 1000)
	c.Need("objects with duplicates", 1000)
	c.Need("objects with a member named fields", 500)
}
