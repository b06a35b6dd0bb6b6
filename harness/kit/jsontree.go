package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Node is a JSON value which keeps the order of members and duplicate keys.
type Node struct {
	Kind byte // o a s n b z, and in expectations ? (anything), S (any string), e (an error text), j (JSON inline or quoted)
	Str  string
	Num  string
	Bool bool
	Kids []Member
	Arr  []Node
}

// Member of an object.
type Member struct {
	Key string
	Val Node
}

// ParseLine demands a valid JSON object and returns its tree.
func ParseLine(line []byte) (Node, error) {
	if !utf8.Valid(line) {
		return Node{}, fmt.Errorf("not valid UTF-8")
	}
	if !json.Valid(line) {
		return Node{}, fmt.Errorf("not valid JSON")
	}
	n, err := ParseAny(line)
	if err != nil {
		return n, err
	}
	if n.Kind != 'o' {
		return n, fmt.Errorf("not a JSON object")
	}
	return n, nil
}

// ParseAny parses any JSON value.
func ParseAny(raw []byte) (Node, error) {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	n, err := parseNode(dec)
	if err != nil {
		return n, err
	}
	if dec.More() {
		return n, fmt.Errorf("data after the JSON value")
	}
	return n, nil
}

func parseNode(dec *json.Decoder) (Node, error) {
	tok, err := dec.Token()
	if err != nil {
		return Node{}, err
	}
	switch t := tok.(type) {
	case json.Delim:
		switch t {
		case '{':
			n := Node{Kind: 'o'}
			for dec.More() {
				key, err := dec.Token()
				if err != nil {
					return n, err
				}
				val, err := parseNode(dec)
				if err != nil {
					return n, err
				}
				n.Kids = append(n.Kids, Member{key.(string), val})
			}
			_, err := dec.Token()
			return n, err
		case '[':
			n := Node{Kind: 'a'}
			for dec.More() {
				val, err := parseNode(dec)
				if err != nil {
					return n, err
				}
				n.Arr = append(n.Arr, val)
			}
			_, err := dec.Token()
			return n, err
		}
	case string:
		return Node{Kind: 's', Str: t}, nil
	case json.Number:
		return Node{Kind: 'n', Num: t.String()}, nil
	case bool:
		return Node{Kind: 'b', Bool: t}, nil
	case nil:
		return Node{Kind: 'z'}, nil
	}
	return Node{}, fmt.Errorf("unexpected token %v", tok)
}

func (n Node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n Node) write(b *strings.Builder) {
	switch n.Kind {
	case 'o':
		b.WriteByte('{')
		for i, m := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(m.Key))
			b.WriteByte(':')
			m.Val.write(b)
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for i, m := range n.Arr {
			if i > 0 {
				b.WriteByte(',')
			}
			m.write(b)
		}
		b.WriteByte(']')
	case 's':
		b.WriteString(strconv.Quote(n.Str))
	case 'n':
		b.WriteString(n.Num)
	case 'b':
		fmt.Fprint(b, n.Bool)
	case 'z':
		b.WriteString("null")
	default:
		fmt.Fprintf(b, "<%c:%s>", n.Kind, n.Str)
	}
}

// CollapseFFFD makes one replacement character out of a run of them.
func CollapseFFFD(s string) string {
	for strings.Contains(s, "\uFFFD\uFFFD") {
		s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
	}
	return s
}

// SameText compares a logged string with the original; invalid bytes read back as U+FFFD.
func SameText(want, got string) bool {
	if utf8.ValidString(want) {
		return want == got
	}
	return CollapseFFFD(strings.ToValidUTF8(want, "\uFFFD")) == CollapseFFFD(got)
}

// Diff explains the first difference of an actual tree from an expected one, "" if there is none.
func Diff(path string, want, got Node) string {
	switch want.Kind {
	case '?':
		return ""
	case 'S':
		if got.Kind != 's' {
			return fmt.Sprintf("%s: want a string, got %s", path, got)
		}
		return ""
	case 'u': // object, in any order
		if got.Kind != 'o' || len(got.Kids) != len(want.Kids) {
			return fmt.Sprintf("%s: want an object with %d members, got %s", path, len(want.Kids), got)
		}
		for _, w := range want.Kids {
			found := false
			for _, m := range got.Kids {
				if m.Key == w.Key {
					found = true
					if d := Diff(path+"."+w.Key, w.Val, m.Val); d != "" {
						return d
					}
				}
			}
			if !found {
				return fmt.Sprintf("%s: member %q is missing", path, w.Key)
			}
		}
		return ""
	case 'x': // string or null
		if got.Kind != 's' && got.Kind != 'z' {
			return fmt.Sprintf("%s: want a string or null, got %s", path, got)
		}
		return ""
	case 'e':
		if got.Kind != 's' || !strings.Contains(got.Str, want.Str) {
			return fmt.Sprintf("%s: want a string which names the error %q, got %s", path, want.Str, got)
		}
		return ""
	case 'j':
		if got.Kind == 's' {
			if SameText(want.Str, got.Str) {
				return ""
			}
			return fmt.Sprintf("%s: want the JSON %q, got %s", path, want.Str, got)
		}
		inner, err := ParseAny([]byte(want.Str))
		if err != nil {
			return fmt.Sprintf("%s: want the JSON %q, got %s", path, want.Str, got)
		}
		return Diff(path, inner, got)
	}
	if want.Kind != got.Kind {
		return fmt.Sprintf("%s: want %s, got %s", path, want, got)
	}
	switch want.Kind {
	case 's':
		if !SameText(want.Str, got.Str) {
			return fmt.Sprintf("%s: want string %q, got %q", path, want.Str, got.Str)
		}
	case 'n':
		if !SameNumber(want.Num, got.Num) {
			return fmt.Sprintf("%s: want number %s, got %s", path, want.Num, got.Num)
		}
	case 'b':
		if want.Bool != got.Bool {
			return fmt.Sprintf("%s: want %v, got %v", path, want.Bool, got.Bool)
		}
	case 'a':
		if len(want.Arr) != len(got.Arr) {
			return fmt.Sprintf("%s: want %s, got %s", path, want, got)
		}
		for i := range want.Arr {
			if d := Diff(fmt.Sprintf("%s[%d]", path, i), want.Arr[i], got.Arr[i]); d != "" {
				return d
			}
		}
	case 'o':
		for i := range want.Kids {
			if i >= len(got.Kids) {
				return fmt.Sprintf("%s: member %q is missing", path, want.Kids[i].Key)
			}
			if !SameText(want.Kids[i].Key, got.Kids[i].Key) {
				return fmt.Sprintf("%s: member %d: want key %q, got %q", path, i, want.Kids[i].Key, got.Kids[i].Key)
			}
			if d := Diff(path+"."+want.Kids[i].Key, want.Kids[i].Val, got.Kids[i].Val); d != "" {
				return d
			}
		}
		if len(got.Kids) > len(want.Kids) {
			return fmt.Sprintf("%s: surplus member %q", path, got.Kids[len(want.Kids)].Key)
		}
	}
	return ""
}

// SameNumber compares JSON numbers: whole numbers exactly, others as the same float64.
func SameNumber(want, got string) bool {
	if want == got {
		return true
	}
	a, ok1 := new(big.Rat).SetString(want)
	b, ok2 := new(big.Rat).SetString(got)
	if ok1 && ok2 && a.Cmp(b) == 0 {
		return true
	}
	if !strings.ContainsAny(want, ".eE") {
		return false
	}
	x, err1 := strconv.ParseFloat(want, 64)
	y, err2 := strconv.ParseFloat(got, 64)
	return err1 == nil && err2 == nil && x == y
}
