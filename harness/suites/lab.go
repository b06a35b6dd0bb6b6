package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"time"
)

// look is how a handler writes its lines, which no verdict may depend on.
type look struct {
	html    bool // escape HTML characters
	space   bool // white space between tokens
	ascii   bool // escape all other characters
	pieces  bool // several writes per line
	newline string
	builtin [4]int // order of the built-in fields
	last    bool   // message and time after the attributes
	zone    *time.Location
}

func newLook(r *rand.Rand) look {
	l := look{newline: "\n", builtin: [4]int{0, 1, 2, 3}}
	if r == nil {
		return l
	}
	l.html, l.space, l.ascii, l.pieces, l.last = r.IntN(2) == 0, r.IntN(3) == 0, r.IntN(3) == 0, r.IntN(3) == 0, r.IntN(3) == 0
	if r.IntN(3) == 0 {
		l.newline = " \n"
	}
	r.Shuffle(4, func(i, j int) { l.builtin[i], l.builtin[j] = l.builtin[j], l.builtin[i] })
	return l
}

func (l look) String() string {
	return fmt.Sprintf("html=%v space=%v ascii=%v pieces=%v last=%v newline=%q order=%v", l.html, l.space, l.ascii, l.pieces, l.last, l.newline, l.builtin)
}

// lab is a slog handler that keeps to the documentation except for the flaws it was given.
type lab struct {
	w      io.Writer
	mu     *sync.Mutex
	opts   slog.HandlerOptions
	static slog.Level
	flaws  map[string]bool
	look   look
	steps  []step
	// shared is what a flawed handler lets its relatives write to
	shared *[]step
	log    *session
}

// session is what a handler and its relatives did.
type session struct {
	mu     sync.Mutex
	writer string
	lines  int
	bytes  int
}

func (s *session) note(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lines++
	s.bytes += n
}

type step struct {
	group string
	attrs []slog.Attr
}

type field struct {
	key   string
	raw   string   // a JSON value
	group *[]field // or a group
	with  bool     // a group opened by WithGroup
}

func newLab(w io.Writer, opts *slog.HandlerOptions, flaws map[string]bool, l look) *lab {
	h := &lab{w: w, mu: &sync.Mutex{}, flaws: flaws, look: l, shared: &[]step{}, log: &session{writer: fmt.Sprintf("%T", w)}}
	if opts != nil {
		h.opts = *opts
	}
	if h.opts.Level == nil {
		h.opts.Level = slog.LevelInfo
		if flaws["default-warn"] {
			h.opts.Level = slog.LevelWarn
		}
		if flaws["default-debug"] {
			h.opts.Level = slog.LevelDebug
		}
	}
	h.static = h.opts.Level.Level()
	if flaws["no-replattr"] {
		h.opts.ReplaceAttr = nil
	}
	return h
}

func (h *lab) Enabled(_ context.Context, level slog.Level) bool {
	threshold := h.opts.Level.Level()
	if h.flaws["level-static"] {
		threshold = h.static
	}
	if h.flaws["level-names-only"] && level%4 != 0 {
		return false
	}
	if h.flaws["always-enabled"] {
		return true
	}
	if h.flaws["threshold-open"] {
		return level > threshold
	}
	return level >= threshold
}

func (h *lab) derive(s step) slog.Handler {
	d := *h
	d.steps = append(append([]step{}, h.steps...), s)
	if h.flaws["derive-shares"] {
		*h.shared = append(*h.shared, s)
	}
	return &d
}

func (h *lab) WithAttrs(attrs []slog.Attr) slog.Handler {
	if len(attrs) == 0 || h.flaws["with-lost"] {
		return h
	}
	return h.derive(step{attrs: append([]slog.Attr{}, attrs...)})
}

func (h *lab) WithGroup(name string) slog.Handler {
	if name == "" {
		return h
	}
	return h.derive(step{group: name})
}

func (h *lab) Handle(ctx context.Context, r slog.Record) error {
	if ctx.Err() != nil {
		if h.flaws["canceled-silent"] {
			return nil
		}
		if h.flaws["canceled-error"] {
			return ctx.Err()
		}
	}
	root := &[]field{}
	late := &[]field{}
	for _, i := range h.look.builtin {
		to := root
		if h.look.last && i%2 == 0 {
			to = late
		}
		switch i {
		case 0:
			if (!r.Time.IsZero() || h.flaws["zero-time"]) && !h.flaws["no-time"] {
				h.builtin(to, slog.Time(slog.TimeKey, r.Time))
			}
		case 1:
			if !h.flaws["no-level"] {
				h.builtin(to, slog.Any(slog.LevelKey, r.Level))
			}
		case 2:
			key := slog.MessageKey
			if h.flaws["message-key"] {
				key = "message"
			}
			if !h.flaws["no-message"] {
				h.builtin(to, slog.String(key, r.Message))
			}
		case 3:
			if h.opts.AddSource && (r.PC != 0 || h.flaws["zero-pc"]) {
				h.source(to, r.PC)
			}
		}
	}
	steps := h.steps
	if h.flaws["derive-shares"] {
		steps = *h.shared
	}
	cur := root
	parent := root
	var groups []string
	with := false
	for _, s := range steps {
		if s.group != "" {
			child := &[]field{}
			*cur = append(*cur, field{key: s.group, group: child, with: true})
			parent, cur = cur, child
			groups = append(groups[:len(groups):len(groups)], s.group)
			with = false
			continue
		}
		to := cur
		if h.flaws["with-top"] && len(groups) > 0 {
			to = root
		}
		for _, a := range s.attrs {
			h.withAttr(to, groups, a)
		}
		with = true
	}
	to := cur
	if h.flaws["with-group-top"] || h.flaws["message-attr-top"] && with {
		to = root
	}
	if h.flaws["with-group-parent"] {
		to = parent
	}
	r.Attrs(func(a slog.Attr) bool {
		h.attr(to, groups, a)
		return true
	})
	*root = append(*root, *late...)
	h.prune(root, 0)
	var b strings.Builder
	h.render(&b, root)
	line := b.String() + h.look.newline
	if h.flaws["broken-json"] {
		line = strings.Replace(line, ":", "=", 1)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.log.note(len(line))
	pieces := h.look.pieces
	switch {
	case h.flaws["write-lost"] && h.log.lines%5 == 0:
		return nil
	case h.flaws["write-twice"] && h.log.lines%5 == 0:
		line += line
		pieces = true
	}
	if pieces {
		half := len(line) / 2
		if _, err := io.WriteString(h.w, line[:half]); err != nil {
			return err
		}
		line = line[half:]
	}
	_, err := io.WriteString(h.w, line)
	return err
}

// source writes the position of the call.
func (h *lab) source(to *[]field, pc uintptr) {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	src := &slog.Source{Function: f.Function, File: f.File, Line: f.Line}
	switch {
	case h.flaws["no-source"]:
	case h.flaws["source-null"]:
		*to = append(*to, field{key: slog.SourceKey, raw: "null"})
	case h.flaws["source-text"]:
		*to = append(*to, field{key: slog.SourceKey, raw: h.str(src.File)})
	case h.flaws["caller"]:
		*to = append(*to, field{key: "caller", raw: h.str(fmt.Sprintf("%s:%d", src.File, src.Line))})
	default:
		h.builtin(to, slog.Any(slog.SourceKey, src))
	}
}

// builtin writes a built-in field.
func (h *lab) builtin(to *[]field, a slog.Attr) {
	if h.opts.ReplaceAttr != nil && !h.flaws["no-replattr-basic"] {
		a = h.opts.ReplaceAttr(nil, a)
		if a.Equal(slog.Attr{}) && !h.flaws["empty-attr"] {
			return
		}
	}
	switch v := a.Value.Any().(type) {
	case slog.Level:
		s := v.String()
		switch {
		case h.flaws["level-lower"]:
			s = strings.ToLower(s)
		case h.flaws["level-title"]:
			s = s[:1] + strings.ToLower(s[1:])
		case h.flaws["level-wrong"] && v == slog.LevelWarn:
			s = "WARNING"
		case h.flaws["level-number"]:
			*to = append(*to, field{key: a.Key, raw: fmt.Sprint(int(v))})
			return
		}
		*to = append(*to, field{key: a.Key, raw: h.str(s)})
		return
	case time.Time:
		if a.Key == slog.TimeKey {
			if h.flaws["time-number"] {
				*to = append(*to, field{key: a.Key, raw: fmt.Sprint(v.Unix())})
				return
			}
			*to = append(*to, field{key: a.Key, raw: h.str(v.Format(time.RFC3339Nano))})
			return
		}
	case *slog.Source:
		g := []field{{key: "function", raw: h.str(v.Function)}, {key: "file", raw: h.str(v.File)}, {key: "line", raw: fmt.Sprint(v.Line)}}
		if h.flaws["source-no-function"] {
			g = g[1:]
		}
		*to = append(*to, field{key: a.Key, group: &g})
		return
	}
	h.put(to, a.Key, h.value(a, false))
}

// withAttr writes an attribute given to WithAttrs.
func (h *lab) withAttr(to *[]field, groups []string, a slog.Attr) {
	d := *h
	d.flaws = map[string]bool{}
	for f := range h.flaws {
		d.flaws[strings.TrimPrefix(f, "in-with:")] = true
	}
	if d.flaws["no-replattr"] {
		d.opts.ReplaceAttr = nil
	}
	d.attr(to, groups, a)
}

// attr writes any other attribute.
func (h *lab) attr(to *[]field, groups []string, a slog.Attr) {
	if !h.flaws["no-resolve"] && !(h.flaws["no-resolve-grouped"] && len(groups) > 0) {
		a.Value = a.Value.Resolve()
	}
	if a.Value.Kind() == slog.KindGroup {
		sub := to
		attrs := a.Value.Group()
		if h.flaws["group-lost"] {
			return
		}
		if (a.Key != "" || h.flaws["group-inline"]) && !h.flaws["group-flat"] {
			sub = &[]field{}
			if h.flaws["duplicates"] || !replaced(*to, a.Key, sub) {
				*to = append(*to, field{key: a.Key, group: sub})
			}
			groups = append(groups[:len(groups):len(groups)], a.Key)
		}
		for _, m := range attrs {
			h.attr(sub, groups, m)
		}
		return
	}
	if a.Equal(slog.Attr{}) && !h.flaws["empty-attr"] {
		return
	}
	if h.opts.ReplaceAttr != nil && !(h.flaws["replattr-top-only"] && len(groups) > 0) {
		gs := groups
		if h.flaws["replattr-no-groups"] {
			gs = nil
		}
		a = h.opts.ReplaceAttr(gs, a)
		a.Value = a.Value.Resolve()
		if a.Equal(slog.Attr{}) && !h.flaws["empty-attr"] {
			return
		}
	}
	if a.Key == "" && h.flaws["no-empty-name"] && !a.Equal(slog.Attr{}) {
		return
	}
	if a.Value.Kind() == slog.KindAny && a.Value.Any() == nil && a.Key != "" && h.flaws["no-nil"] {
		return
	}
	h.put(to, a.Key, h.value(a, len(groups) > 0))
}

// replaced puts the group in the place of one with the same name.
func replaced(fs []field, key string, group *[]field) bool {
	for i, f := range fs {
		if f.key == key && f.group != nil && !f.with {
			fs[i].group = group
			return true
		}
	}
	return false
}

func (h *lab) put(to *[]field, key, raw string) {
	if !h.flaws["duplicates"] {
		for i, f := range *to {
			if f.key == key && f.group == nil {
				(*to)[i].raw = raw
				return
			}
		}
	}
	*to = append(*to, field{key: key, raw: raw})
}

func (h *lab) value(a slog.Attr, grouped bool) string {
	v := a.Value
	switch v.Kind() {
	case slog.KindString:
		s := v.String()
		if h.flaws["strings-cut"] && len(s) > 4 {
			s = s[:4]
		}
		return h.str(s)
	case slog.KindBool:
		if h.flaws["bool-number"] {
			if v.Bool() {
				return "1"
			}
			return "0"
		}
		return fmt.Sprint(v.Bool())
	case slog.KindInt64:
		if h.flaws["int-string"] {
			return h.str(fmt.Sprint(v.Int64()))
		}
		if h.flaws["int-unsigned"] && v.Int64() < 0 {
			return fmt.Sprint(-v.Int64())
		}
		return fmt.Sprint(v.Int64())
	case slog.KindUint64:
		return fmt.Sprint(v.Uint64())
	case slog.KindFloat64:
		if h.flaws["float-short"] {
			return fmt.Sprintf("%.3f", v.Float64())
		}
		b, err := json.Marshal(v.Float64())
		if err != nil {
			return h.str(err.Error())
		}
		return string(b)
	case slog.KindDuration:
		d := v.Duration()
		if grouped && h.flaws["duration-group"] {
			return fmt.Sprint(d.Nanoseconds())
		}
		switch {
		case h.flaws["duration-millis"]:
			return fmt.Sprint(float64(d.Milliseconds()))
		case h.flaws["duration-seconds"]:
			return fmt.Sprint(d.Seconds())
		case h.flaws["duration-string"]:
			return h.str(d.String())
		}
		return fmt.Sprint(d.Nanoseconds())
	case slog.KindTime:
		f := time.RFC3339Nano
		if h.flaws["time-millis"] {
			f = "2006-01-02T15:04:05.999Z07:00"
		}
		if h.flaws["time-seconds"] {
			f = time.RFC3339
		}
		return h.str(v.Time().Format(f))
	case slog.KindLogValuer:
		return "{}"
	}
	if err, ok := v.Any().(error); ok {
		return h.str(err.Error())
	}
	b, err := h.marshal(v.Any())
	if err != nil {
		return h.str("!ERROR:" + err.Error())
	}
	if h.flaws["any-string"] {
		if strings.HasPrefix(b, "{") {
			return h.str(b)
		}
	}
	return b
}

func (h *lab) marshal(v any) (string, error) {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(h.look.html)
	if err := e.Encode(v); err != nil {
		return "", err
	}
	return strings.TrimSuffix(b.String(), "\n"), nil
}

func (h *lab) str(s string) string {
	if h.flaws["unescaped-quote"] {
		s = strings.ReplaceAll(s, `"`, `'`)
	}
	t, err := h.marshal(s)
	if err != nil {
		panic(err)
	}
	if !h.look.ascii {
		return t
	}
	var b strings.Builder
	for _, r := range t {
		if r < 0x80 {
			b.WriteRune(r)
		} else if r < 0x10000 {
			fmt.Fprintf(&b, `\u%04x`, r)
		} else {
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04X\u%04X`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		}
	}
	return b.String()
}

// prune removes groups without members and tells whether any member remains.
func (h *lab) prune(fs *[]field, depth int) {
	kept := (*fs)[:0]
	for _, f := range *fs {
		if f.group != nil {
			h.prune(f.group, depth+1)
			if len(*f.group) == 0 && !(f.with && h.flaws["with-group-empty"]) && !(!f.with && h.flaws["group-empty"]) &&
				!(f.with && depth > 0 && h.flaws["group-empty"]) {
				continue
			}
		}
		kept = append(kept, f)
	}
	*fs = kept
}

func (h *lab) render(b *strings.Builder, fs *[]field) {
	gap := ""
	if h.look.space {
		gap = " "
	}
	b.WriteString("{" + gap)
	for i, f := range *fs {
		if i > 0 {
			b.WriteString("," + gap)
		}
		b.WriteString(h.str(f.key) + gap + ":" + gap)
		if f.group != nil {
			h.render(b, f.group)
		} else {
			b.WriteString(f.raw)
		}
	}
	b.WriteString(gap + "}")
}
