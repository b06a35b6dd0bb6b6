package main

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/gin-gonic/gin"

	ginslog "github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// recorder is the default logger's handler during a run.
type recorder struct {
	mu   sync.Mutex
	min  slog.Level
	recs []rec
}

type rec struct {
	Level slog.Level
	Msg   string
	Attrs map[string]string // path -> kind:value
	N     int
}

func (h *recorder) Enabled(_ context.Context, l slog.Level) bool { return l >= h.min }
func (h *recorder) WithAttrs([]slog.Attr) slog.Handler           { panic("unexpected WithAttrs") }
func (h *recorder) WithGroup(string) slog.Handler                { panic("unexpected WithGroup") }
func (h *recorder) Handle(_ context.Context, r slog.Record) error {
	out := rec{Level: r.Level, Msg: r.Message, Attrs: map[string]string{}}
	r.Attrs(func(a slog.Attr) bool { out.add("", a); return true })
	h.mu.Lock()
	h.recs = append(h.recs, out)
	h.mu.Unlock()
	return nil
}

func (r *rec) add(prefix string, a slog.Attr) {
	if a.Value.Kind() == slog.KindGroup {
		for _, k := range a.Value.Group() {
			r.add(prefix+a.Key+"/", k)
		}
		return
	}
	r.N++
	r.Attrs[prefix+a.Key] = valText(a.Value)
}

func valText(v slog.Value) string {
	switch v.Kind() {
	case slog.KindInt64, slog.KindUint64:
		return "int:" + v.String()
	}
	return v.Kind().String() + ":" + v.String()
}

func (h *recorder) take() []rec {
	h.mu.Lock()
	defer h.mu.Unlock()
	out := h.recs
	h.recs = nil
	return out
}

// traffic is one request as gin's own formatter would describe it.
type traffic struct {
	code    int
	elapsed time.Duration
	client  string
	method  string
	url     string
}

// line renders like gin's default formatter (gin/logger.go), without colours.
func (t traffic) text() string {
	lat := t.elapsed
	if lat > time.Minute {
		lat = lat.Truncate(time.Second)
	}
	return fmt.Sprintf("%3d | %13v | %15s | %-7s %#v", t.code, lat, t.client, t.method, t.url)
}

func (t traffic) want() map[string]string {
	lat := t.elapsed
	if lat > time.Minute {
		lat = lat.Truncate(time.Second)
	}
	return map[string]string{"code": fmt.Sprintf("int:%d", t.code), "elapsed": "String:" + lat.String(),
		"client": "String:" + t.client, "method": "String:" + t.method, "url": "String:" + t.url}
}

var urlBits = []string{"/", "/a", "/chart.svg", "?tag=x&item=MemBytes", " ", "  ", "|", "\"", "\\", "`", "%20", "é", "世界", "\n", "\t", "\x00", "\xff", "[GIN]", "[ERROR] ", "=", "--> ", "'", "\u2028", "🐹", "\x7f", "200 | 1s | ::1 | GET "}

func genTraffic(r *rand.Rand) traffic {
	t := traffic{
		code:    []int{200, 404, 500, 101, 302, 0, 7, 99, 999, 100 + r.IntN(500), 1000}[r.IntN(11)],
		elapsed: time.Duration(r.Int64N(int64(1) << (1 + r.IntN(50)))),
		client:  []string{"::1", "127.0.0.1", "192.168.100.200", "2001:db8:85a3::8a2e:370:7334", "", "fe80::1%eth0", "2001:0db8:85a3:0000:0000:8a2e:0370:7334"}[r.IntN(7)],
		method:  []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "CONNECT", "TRACE", "PROPFIND", "M-SEARCH", "VERSION-CONTROL", "x"}[r.IntN(13)],
	}
	var b strings.Builder
	if r.IntN(8) > 0 {
		b.WriteString("/")
	}
	for range r.IntN(6) {
		b.WriteString(urlBits[r.IntN(len(urlBits))])
	}
	if r.IntN(100) == 0 {
		b.WriteString(strings.Repeat("x", 1+r.IntN(70000)))
	}
	t.url = b.String()
	return t
}

func attrsOf(args []any) (map[string]string, int, error) {
	var out rec
	out.Attrs = map[string]string{}
	for _, a := range args {
		at, ok := a.(slog.Attr)
		if !ok {
			return nil, 0, fmt.Errorf("argument of type %T", a)
		}
		out.add("", at)
	}
	return out.Attrs, out.N, nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func ginParse(c *kit.Ctx) {
	c.Rule("traffic texts rendered from generated status codes, durations, clients, methods and URLs the way gin's default formatter does, with varied padding, and real requests through a gin engine; distinct by text; malformed texts (no bars, no number, random bytes) only must not crash or yield a code that is not there")
	for i := 0; i < c.N(30000, 1500000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("parse", i)
		t := genTraffic(r)
		text := t.text()
		if r.IntN(3) == 0 {
			text = " " + text
		}
		var args []any
		var err error
		c.Guard("gin.Parse", func() any { return text }, func() { args, err = ginslog.Parse(text) })
		got, n, aerr := attrsOf(args)
		if err != nil || aerr != nil || n != 5 || !sameMap(got, t.want()) {
			c.Violate("gin.Parse does not return the five fields of a traffic text", map[string]any{
				"case": i, "text": text, "err": fmt.Sprint(err, aerr), "got": got, "want": t.want()})
		}
		c.Eval(text)
		if strings.ContainsAny(t.url, "| \"\\\n") {
			c.Count("URLs with separators or escapes", 1)
		}
		if i < 3 {
			c.Sample(text)
		}
	}
	for i := 0; i < c.N(20000, 500000); i++ {
		r := c.Rng("junk", i)
		var text string
		switch r.IntN(3) {
		case 0:
			for range r.IntN(12) {
				text += urlBits[r.IntN(len(urlBits))]
			}
		case 1:
			t := []byte([]string{"", "0", "00", "0x", "0b1", "0_", "1_", "+", "-", "1e2 ", "\u0661"}[max(0, r.IntN(22)-11)] + genTraffic(r).text())
			for range 1 + r.IntN(4) {
				t[r.IntN(len(t))] = byte(r.IntN(256))
			}
			text = string(t)
		default:
			t := genTraffic(r).text()
			text = t[:r.IntN(len(t)+1)]
		}
		var args []any
		var err error
		c.Guard("gin.Parse", func() any { return text }, func() { args, err = ginslog.Parse(text) })
		if err == nil {
			got, _, aerr := attrsOf(args)
			first, _, _ := strings.Cut(text, "|")
			digits := strings.TrimSpace(first)
			if aerr != nil || strings.Count(text, "|") < 3 || digits == "" || strings.Trim(digits, "0123456789") != "" {
				c.Violate("gin.Parse accepts a text that is not traffic", map[string]any{"case": i, "text": text, "got": got})
			} else if num := strings.TrimLeft(digits, "0"); got["code"] != "int:"+num && !(num == "" && got["code"] == "int:0") {
				c.Violate("gin.Parse returns another code than the text has", map[string]any{"case": i, "text": text, "got": got})
			}
			c.Count("malformed texts accepted in part", 1)
		} else if len(args) > 0 {
			c.Count("arguments with an error", 1)
		}
		c.Eval("")
		c.Count("malformed texts", 1)
	}
	realEngine(c, c.N(1500, 30000))
	c.Need("URLs with separators or escapes", 5000)
	c.Need("requests through a gin engine", 1000)
}

// tee monitors each Write call of gin on the writer under test.
type tee struct {
	w  io.Writer
	mu sync.Mutex
	n  int
	f  func(p []byte, n int, err error)
}

func (t *tee) Write(p []byte) (int, error) {
	n, err := t.w.Write(p)
	t.mu.Lock()
	t.n++
	t.f(p, n, err)
	t.mu.Unlock()
	return n, err
}

func realEngine(c *kit.Ctx, count int) {
	old := slog.Default()
	defer slog.SetDefault(old)
	gin.SetMode(gin.ReleaseMode)
	h := &recorder{min: -100}
	slog.SetDefault(slog.New(h))
	w := &tee{w: ginslog.NewWriter(&ginslog.Options{Traffic: ginslog.Traffic{Parse: true, Embed: true, Level: slog.Level(3), Message: "req"}})}
	w.f = func(p []byte, n int, err error) {
		if n != len(p) || err != nil {
			c.Violate("the gin writer rejects a line of gin", map[string]any{"line": string(p), "n": n, "err": fmt.Sprint(err)})
		}
	}
	eng := gin.New()
	eng.Use(gin.LoggerWithWriter(w), gin.RecoveryWithWriter(w))
	var status int
	eng.NoRoute(func(g *gin.Context) {
		if g.Query("panic") == "yes" {
			panic("[oops] | x")
		}
		g.Status(status)
		g.Writer.WriteHeaderNow()
	})
	for i := 0; i < count; i++ {
		r := c.Rng("engine", i)
		t := genTraffic(r)
		status = []int{200, 404, 500, 204, 418, 302}[r.IntN(6)]
		u := &url.URL{Path: t.url}
		if r.IntN(3) == 0 {
			u.RawQuery = "a=" + url.QueryEscape(urlBits[r.IntN(len(urlBits))]) + "|&b=x y"
		}
		boom := r.IntN(20) == 0
		if boom {
			u.RawQuery, status = "panic=yes", 500
		}
		req := httptest.NewRequest("GET", "/", nil)
		req.Method, req.URL = t.method, u
		ip := []string{"192.0.2.1", "::1", "2001:db8::7"}[r.IntN(3)]
		req.RemoteAddr = "[" + ip + "]:4711"
		if !strings.Contains(ip, ":") {
			req.RemoteAddr = ip + ":4711"
		}
		h.take()
		before := w.n
		c.Guard("gin engine", func() any { return u.String() }, func() { eng.ServeHTTP(httptest.NewRecorder(), req) })
		recs := h.take()
		path := u.Path
		if u.RawQuery != "" {
			path += "?" + u.RawQuery
		}
		want := map[string]string{"code": fmt.Sprintf("int:%d", status), "client": "String:" + ip, "method": "String:" + t.method, "url": "String:" + path}
		var traf []rec
		others := 0
		for _, rc := range recs {
			if rc.Msg == "req" {
				traf = append(traf, rc)
			} else if rc.Level != slog.LevelDebug || rc.Attrs["err"] == "" {
				others++
			}
		}
		ok := len(traf) == 1 && traf[0].Level == slog.Level(3) && others == w.n-before-1
		if ok {
			if d, err := time.ParseDuration(strings.TrimPrefix(traf[0].Attrs["elapsed"], "String:")); err != nil || d < 0 {
				ok = false
			}
			delete(traf[0].Attrs, "elapsed")
			ok = ok && sameMap(traf[0].Attrs, want)
		}
		if !ok {
			c.Violate("a request served by gin is not logged as one traffic record with its fields", map[string]any{
				"case": i, "path": path, "got": recs, "want": want, "writes": w.n - before})
		}
		c.Eval(path + t.method)
		c.Count("requests through a gin engine", 1)
		if boom {
			c.Count("requests with a panic recovered by gin", 1)
		}
	}
}

// ---------------------------------------------------------------------------

type ginCase struct {
	line    string
	level   slog.Level
	msg     string
	attrs   map[string]string
	reject  bool
	traffic bool
}

var ginLevels = []struct {
	text  string
	level slog.Level
}{{"DEBUG", slog.LevelDebug}, {"INFO", slog.LevelInfo}, {"WARNING", slog.LevelWarn}, {"ERROR", slog.LevelError}}

var msgBits = []string{"Listening and serving", " ", "GET    /ping", "--> main.main.func1 (3 handlers)", "|", "x", "\"debug\"", "é", "\t", "[x]", "[ERROR]", "\n - using env:", "\xfe", "%d", "{}", "\\n", "a=b", "\x1b[31m"}

func genGinLine(r *rand.Rand, opts ginslog.Options) ginCase {
	base := slog.LevelInfo
	if opts.Level != nil {
		base = opts.Level.Level()
	}
	gc := ginCase{level: base, attrs: map[string]string{}}
	var b strings.Builder
	if r.IntN(10) < 3 { // traffic
		t := genTraffic(r)
		b.WriteString("[GIN] ")
		b.WriteString(time.Unix(r.Int64N(1<<32), 0).UTC().Format("2006/01/02 - 15:04:05"))
		b.WriteString(" | ")
		b.WriteString(t.text())
		gc.traffic = true
		gc.line = b.String() + "\n"
		gc.msg = strings.TrimLeft(t.text(), " ")
		if opts.Traffic.Parse {
			gc.level = slog.LevelInfo
			if opts.Traffic.Level != nil {
				gc.level = opts.Traffic.Level.Level()
			}
			gc.msg = opts.Traffic.Message
			if gc.msg == "" {
				gc.msg = ginslog.DefaultTrafficMessage
			}
			prefix := ""
			if !opts.Traffic.Embed {
				prefix = opts.Traffic.Group + "/"
				if opts.Traffic.Group == "" {
					prefix = ginslog.DefaultTrafficGroup + "/"
				}
			}
			for k, v := range t.want() {
				gc.attrs[prefix+k] = v
			}
		}
		return gc
	}
	sp := func() string { return []string{" ", " ", "", "  ", "\t"}[r.IntN(5)] }
	switch r.IntN(4) {
	case 0:
		for b.WriteString("[GIN]" + sp()); r.IntN(3) == 0; { // passed on by another writer
			b.WriteString("[GIN]" + sp())
		}
	case 1, 2:
		for r.IntN(4) == 0 {
			b.WriteString("[GIN]" + sp())
		}
		b.WriteString("[GIN-debug]" + sp())
		gc.level = slog.LevelDebug
	}
	switch r.IntN(5) {
	case 0, 1:
		l := ginLevels[r.IntN(4)]
		b.WriteString("[" + l.text + "]" + sp())
		gc.level = l.level
	case 2:
		if r.IntN(6) == 0 {
			b.WriteString("[" + []string{"BAD", "Info", "warning", "DEBUGGER", "", "E RROR"}[r.IntN(6)] + "] ")
			gc.reject = true
		}
	}
	var m strings.Builder
	m.WriteString([]string{"Loaded", "x", "é", "a|b", "(1)", "{", "2024/01/02 - 10:11:12 x", "2024/01/02", "10:11:12"}[r.IntN(9)])
	for range r.IntN(6) {
		m.WriteString(msgBits[r.IntN(len(msgBits))])
	}
	if r.IntN(150) == 0 {
		m.WriteString(strings.Repeat("long ", r.IntN(30000)))
		m.WriteString("end")
	}
	gc.msg = strings.TrimRight(m.String(), "\n")
	if gc.reject {
		// Whether brackets later in the line belong to the level is nobody's business.
		gc.msg = strings.Map(func(c rune) rune {
			if c == '[' || c == ']' {
				return '-'
			}
			return c
		}, gc.msg)
	}
	gc.line = b.String() + gc.msg + []string{"\n", "\n\n", ""}[r.IntN(3)]
	return gc
}

func genGinOptions(r *rand.Rand) ginslog.Options {
	levels := []slog.Leveler{nil, slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError, slog.Level(2), slog.Level(-7), slog.Level(11)}
	o := ginslog.Options{Level: levels[r.IntN(len(levels))]}
	if r.IntN(4) == 0 {
		lv := &slog.LevelVar{}
		lv.Set(slog.Level(r.IntN(16) - 6))
		o.Level = lv
	}
	if r.IntN(4) > 0 {
		o.Traffic.Parse = true
		o.Traffic.Embed = r.IntN(2) == 0
		o.Traffic.Level = levels[r.IntN(len(levels))]
		if r.IntN(4) == 0 {
			lv := &slog.LevelVar{}
			lv.Set(slog.Level(r.IntN(16) - 6))
			o.Traffic.Level = lv
		}
		o.Traffic.Message = []string{"", "req", "Gin"}[r.IntN(3)]
		o.Traffic.Group = []string{"", "web", "a.b"}[r.IntN(3)]
	}
	return o
}

// judge compares the records one line led to with what they have to be.
func (gc *ginCase) judge(recs []rec, parse bool, min slog.Level) string {
	var own []rec
	for _, rc := range recs {
		if parse && !gc.traffic && rc.Level == slog.LevelDebug && rc.Attrs["err"] != "" {
			continue // the note that a line is not traffic
		}
		own = append(own, rc)
	}
	if gc.reject || gc.level < min {
		if len(own) > 0 {
			return fmt.Sprintf("%d records for a line that has none", len(own))
		}
		return ""
	}
	if len(own) != 1 {
		return fmt.Sprintf("%d records for one line", len(own))
	}
	switch {
	case own[0].Level != gc.level:
		return fmt.Sprintf("level %v instead of %v", own[0].Level, gc.level)
	case own[0].Msg != gc.msg:
		return fmt.Sprintf("message %q instead of %q", own[0].Msg, gc.msg)
	case own[0].N != len(gc.attrs) || !sameMap(own[0].Attrs, gc.attrs):
		return fmt.Sprintf("attributes %v instead of %v", own[0].Attrs, gc.attrs)
	}
	return ""
}

func ginWriter(c *kit.Ctx) {
	c.Rule("lines with gin's prefixes, levels, messages of odd bytes and traffic, written through writers with generated options while a recording handler is the default logger: one at a time, then by several goroutines over shared writers; distinct by line and options")
	old := slog.Default()
	defer slog.SetDefault(old)
	for i := 0; i < c.N(2500, 60000); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("writer", i)
		opts := genGinOptions(r)
		h := &recorder{min: []slog.Level{-100, -100, slog.LevelDebug, slog.LevelInfo, slog.LevelWarn}[r.IntN(5)]}
		slog.SetDefault(slog.New(h))
		given := opts
		var w io.Writer
		c.Guard("NewWriter", nil, func() { w = ginslog.NewWriter(&given) })
		if w == nil {
			continue
		}
		if given != opts {
			c.Violate("NewWriter changes the options it is given", map[string]any{"case": i})
		}
		for j := 0; j < 8; j++ {
			if lv, ok := opts.Level.(*slog.LevelVar); ok && j == 4 {
				lv.Set(slog.Level(r.IntN(16) - 6))
				c.Count("level changes", 1)
			}
			if lv, ok := opts.Traffic.Level.(*slog.LevelVar); ok && j%3 == 2 {
				lv.Set(slog.Level(r.IntN(16) - 6))
				c.Count("changes of the traffic level", 1)
			}
			if j == 6 && r.IntN(2) == 0 { // another default logger
				former := h
				h = &recorder{min: former.min}
				slog.SetDefault(slog.New(h))
				defer func() {
					if n := len(former.take()); n > 0 {
						c.Violate("gin writer: a line goes to a former default logger", map[string]any{"case": i, "records": n})
					}
				}()
			}
			gc := genGinLine(r, opts)
			raw := []byte(gc.line)
			var n int
			var err error
			c.Guard("Write", func() any { return gc.line }, func() { n, err = w.Write(raw) })
			recs := h.take()
			why := gc.judge(recs, opts.Traffic.Parse, h.min)
			if gc.reject {
				if err == nil {
					why = "a line with an unknown level is accepted"
				}
			} else if err != nil || n != len(gc.line) {
				why = fmt.Sprintf("Write returned %d, %v for %d bytes", n, err, len(gc.line))
			}
			if string(raw) != gc.line {
				why = "Write changes the bytes it is given"
			}
			if why != "" {
				c.Violate("gin writer: "+why, map[string]any{"case": i, "line": gc.line, "options": fmt.Sprintf("%+v", opts), "threshold": h.min, "got": recs})
			}
			c.Eval(gc.line + fmt.Sprintf("%+v", opts))
			switch {
			case gc.reject:
				c.Count("lines rejected", 1)
			case gc.traffic && opts.Traffic.Parse:
				c.Count("traffic lines parsed", 1)
			case gc.traffic:
				c.Count("traffic lines passed on", 1)
			default:
				c.Count("other lines", 1)
			}
			if i < 2 && j < 2 {
				c.Sample(gc.line)
			}
		}
	}
	ginConcurrent(c)
	ginStartup(c)
	c.Need("traffic lines parsed", 1000)
	c.Need("changes of the traffic level", 100)
	c.Need("lines rejected", 50)
	c.Need("lines written concurrently", 1000)
}

// ginConcurrent shares two writers (gin has two streams) between goroutines: every line must lead to its own record.
func ginConcurrent(c *kit.Ctx) {
	for i := 0; i < c.N(40, 800); i++ {
		r := c.Rng("concurrent", i)
		h := &recorder{min: -100}
		slog.SetDefault(slog.New(h))
		o1, o2 := genGinOptions(r), genGinOptions(r)
		o1.Traffic.Parse = true
		ws := []io.Writer{ginslog.NewWriter(&o1), ginslog.NewWriter(&o2)}
		os := []ginslog.Options{o1, o2}
		const workers, lines = 6, 25
		var wg sync.WaitGroup
		want := make(map[string]int)
		var mu sync.Mutex
		for g := 0; g < workers; g++ {
			wg.Add(1)
			rr := c.Rng("worker", i*workers+g)
			go func() {
				defer wg.Done()
				for k := 0; k < lines; k++ {
					x := rr.IntN(2)
					gc := genGinLine(rr, os[x])
					if gc.reject || !gc.traffic && os[x].Traffic.Parse && gc.level == slog.LevelDebug {
						continue
					}
					n, err := ws[x].Write([]byte(gc.line))
					if err != nil || n != len(gc.line) {
						c.Violate("gin writer: Write fails when used concurrently", map[string]any{"line": gc.line, "err": fmt.Sprint(err), "n": n})
					}
					mu.Lock()
					want[rec{gc.level, gc.msg, gc.attrs, len(gc.attrs)}.key()]++
					mu.Unlock()
					c.Eval("")
					c.Count("lines written concurrently", 1)
				}
			}()
		}
		wg.Wait()
		got := make(map[string]int)
		var order []string
		for _, rc := range h.take() {
			if rc.Level == slog.LevelDebug && rc.Attrs["err"] != "" {
				continue
			}
			got[rc.key()]++
			order = append(order, rc.key())
		}
		c.Seen("orders of concurrent records", strings.Join(order, "\n"))
		for k, n := range want {
			if got[k] != n {
				c.Violate("gin writer: concurrent lines do not lead to one record each", map[string]any{"record": k, "lines": n, "records": got[k]})
			}
		}
		for k, n := range got {
			if want[k] == 0 {
				c.Violate("gin writer: a record belongs to no line", map[string]any{"record": k, "records": n})
			}
		}
	}
}

func (r rec) key() string { return fmt.Sprint(r.Level, " ", r.Msg, " ", r.Attrs) }

// ginStartup has gin itself report its start in debug mode through both streams.
func ginStartup(c *kit.Ctx) {
	h := &recorder{min: -100}
	slog.SetDefault(slog.New(h))
	var levels []slog.Level
	f := func(p []byte, n int, err error) {
		if n != len(p) || err != nil {
			c.Violate("the gin writer rejects a line of gin", map[string]any{"line": string(p), "err": fmt.Sprint(err)})
		}
		recs := h.take()
		if len(recs) != 1 {
			c.Violate("a line of gin leads to several or no records", map[string]any{"line": string(p), "records": recs})
			return
		}
		want := slog.LevelDebug
		for _, l := range ginLevels {
			if strings.HasPrefix(string(p), "[GIN-debug] ["+l.text+"]") {
				want = l.level
			}
		}
		if recs[0].Level != want {
			c.Violate("a line of gin is logged at the wrong level", map[string]any{"line": string(p), "level": recs[0].Level})
		}
		levels = append(levels, recs[0].Level)
		c.Eval(string(p))
		c.Count("lines of gin in debug mode", 1)
	}
	oldW, oldE := gin.DefaultWriter, gin.DefaultErrorWriter
	gin.DefaultWriter = &tee{w: ginslog.NewWriter(&ginslog.Options{}), f: f}
	gin.DefaultErrorWriter = &tee{w: ginslog.NewWriter(&ginslog.Options{Level: slog.LevelError}), f: f}
	gin.SetMode(gin.DebugMode)
	defer func() {
		gin.SetMode(gin.ReleaseMode)
		gin.DefaultWriter, gin.DefaultErrorWriter = oldW, oldE
	}()
	e := gin.New()
	for i := 0; i < 20; i++ {
		e.GET(fmt.Sprintf("/x%d/:id/*rest", i), func(*gin.Context) {})
		e.Handle(http.MethodPost, fmt.Sprintf("/y%d|z", i), func(*gin.Context) {})
	}
	_ = e.Run("256.256.256.256:99999") // fails: gin reports the error
	_ = levels
}
