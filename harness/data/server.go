package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/net/html"
	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

// alone re-runs this process in a network of its own where that is possible: the server has a fixed port.
func alone() {
	if !slices.Contains(os.Args, "C26") {
		return
	}
	if os.Getenv("VERIF_ALONE") != "" {
		if os.Getenv("VERIF_ALONE") == "probe" {
			if loopbackUp() != nil {
				os.Exit(1)
			}
			l, err := net.Listen("tcp", "127.0.0.1:8080")
			if err != nil {
				os.Exit(1)
			}
			_ = l.Close()
			os.Exit(0)
		}
		if err := loopbackUp(); err != nil {
			fmt.Fprintln(os.Stderr, "loopback:", err)
			os.Exit(3)
		}
		return
	}
	again := func(mode string) *exec.Cmd {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_ALONE="+mode)
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
			Pdeathsig:   syscall.SIGKILL,
		}
		return cmd
	}
	if again("probe").Run() != nil {
		return
	}
	cmd := again("run")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err := cmd.Run()
	if err == nil {
		os.Exit(0)
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
		os.Exit(e.ExitCode())
	}
	os.Exit(3)
}

func loopbackUp() error {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(s)
	var req [40]byte
	copy(req[:], "lo")
	for _, op := range []uintptr{syscall.SIOCGIFFLAGS, syscall.SIOCSIFFLAGS} {
		if op == syscall.SIOCSIFFLAGS {
			req[16] |= syscall.IFF_UP
		}
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), op, uintptr(unsafe.Pointer(&req))); e != 0 {
			return e
		}
	}
	return nil
}

// site is a data set and what the pages about it have to show.
type site struct {
	d          *benchDoc
	t          *truth
	lookup     map[string]data.HandlerTag
	bText      string
	vText      string
	tab        string
	args       []string
	tag        language.Tag
	p          *message.Printer
	bench      *data.Benchmarks
	warns      *data.Warnings
	light      bool
	unreported int // handlers with results and no report
}

var keeperNames = [][2]string{
	{"SlogJSON", "slog/JSONHandler"}, {"MadkinsFlash", "madkins/flash"}, {"MadkinsReplAttr", "madkins/replattr"}, {"SnqkMeld", "snqk/meld"},
	{"VeqrynDedupAppend", "veqryn/dedup/Append"}, {"VeqrynDedupIgnore", "veqryn/dedup/Ignore"}, {"PhsymZerolog", "phsym/zeroslog"},
	{"ChanchalZap", "chanchal/zaphandler"}, {"SamberZap", "samber/slog-zap"}, {"SamberLogrus", "samber/slog-logrus"}, {"MySloggy", "madkins/sloggy"},
	{"Mine", "my own handler"}, {"Épée", "épée/ü"}, {"X2", "x2"}, {"HandlerA", "a"}, {"HandlerB", "my own/handler"}, {"HandlerC", "é/x:y"}, {"HandlerD", "[odd]"},
	{"mysloggy", "Madkins/Sloggy"}, {"Handlera", "A"},
}

func genSite(r *rand.Rand) *site {
	s := &site{lookup: map[string]data.HandlerTag{}}
	s.d = &benchDoc{rows: map[string]map[string]data.TestRecord{}, names: map[string]string{}, shown: map[string]string{}}
	handlers := slices.Clone(keeperNames)
	r.Shuffle(len(handlers), func(i, j int) { handlers[i], handlers[j] = handlers[j], handlers[i] })
	handlers = handlers[:r.IntN(len(handlers)+1)]
	var tests []string
	nt := r.IntN(9)
	if r.IntN(3) == 0 {
		nt = 9 + r.IntN(12)
	}
	for range nt {
		t, _ := camel(r)
		switch r.IntN(8) {
		case 0:
			t = "BigGroup"
		case 1:
			t = "Logging"
		case 2:
			t = []string{"A", "simple", "X2", "Über", "_x", "JSON"}[r.IntN(6)]
		case 3:
			if len(tests) > 0 {
				t = strings.ToLower(tests[r.IntN(len(tests))]) // another one but for its case
			}
		}
		if !slices.Contains(tests, t) {
			tests = append(tests, t)
		}
	}
	var b strings.Builder
	b.WriteString("goos: linux\ngoarch: amd64\n")
	missing := r.IntN(4) == 0
	cpus := 1 + r.IntN(8)
	results := map[string]string{}
	var benched []string
	twins := r.IntN(2) == 0
	var last map[string]string // the results of the handler before
	for _, h := range handlers {
		fmt.Fprintf(&b, "# Handler[%s]=\"%s\"\n", h[0], h[1])
		s.d.names[h[0]] = h[1]
		s.lookup[h[1]] = data.HandlerTag(h[0])
		if r.IntN(10) == 0 {
			continue // a handler without results
		}
		done := 0
		twin, mine := twins && r.IntN(2) == 0, map[string]string{}
		for _, t := range tests {
			if missing && r.IntN(5) == 0 {
				continue
			}
			res, ok := "", false
			if twin && last[t] != "" {
				res, ok = last[t], true
			}
			if prev, have := results[t]; have && r.IntN(6) == 0 {
				res, ok = prev, true // the same as another one
			}
			for !ok {
				res, ok = genResult(r)
			}
			results[t], mine[t] = res, res
			line := benchName(r, h[0], t, cpus) + "\t" + res
			if s.d.row(h[0], t, line) {
				b.WriteString(line + "\n")
				done++
			}
		}
		if done > 0 {
			last = mine
			benched = append(benched, h[1])
		}
	}
	pool := genWarnings(r)
	if r.IntN(2) == 0 {
		pool = slices.DeleteFunc(pool, func(w *warning.Warning) bool { return warning.ByName(w.Name) == nil })
	}
	var all []string
	for _, h := range handlers {
		all = append(all, h[1])
	}
	if part := r.IntN(6); part < 2 { // no report on some of the handlers, or on none at all
		quiet := map[string]bool{}
		for _, n := range all {
			quiet[n] = part == 0 || r.IntN(3) == 0
		}
		for _, n := range benched {
			if quiet[n] {
				s.unreported++
			}
		}
		benched = slices.DeleteFunc(benched, func(n string) bool { return quiet[n] })
		all = slices.DeleteFunc(all, func(n string) bool { return quiet[n] })
	}
	bench := s.genReport(r, "Bench", "# ", "Benchmark", pool, benched, all)
	verify := s.genReport(r, "Verify", "", "Test", pool, benched, all)
	s.bText = b.String() + strings.Replace(bench.render(r, pool, "Benchmark"), "BenchmarkX/BenchmarkY-4   100   5 ns/op\n", "", 1)
	s.vText = verify.render(r, pool, "Test")
	s.t = combine([]*run{bench, verify}, s.lookup)
	var tab strings.Builder
	for range r.IntN(40) {
		tab.WriteString(textLine(r) + "\n")
	}
	s.tab = tab.String()
	lang := []string{"", "de", "fr", "en", "sv", "ja", "de-CH"}[r.IntN(7)]
	s.tag = language.AmericanEnglish
	if lang != "" {
		s.args = append(s.args, "-language", lang)
		s.tag = language.MustParse(lang)
	}
	s.p = message.NewPrinter(s.tag)
	return s
}

// genReport makes a run in which each of the benched handlers has a section.
func (s *site) genReport(r *rand.Rand, source, prefix, fnPrefix string, pool []*warning.Warning, benched, all []string) *run {
	ru := genRun(r, source, prefix, fnPrefix, pool)
	names := slices.Clone(benched)
	for _, n := range all {
		if !slices.Contains(names, n) && r.IntN(2) == 0 {
			names = append(names, n)
		}
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	old := ru.about
	ru.about = map[string]about{}
	var have []*handlerReport
	for i, n := range names {
		h := &handlerReport{name: n, warns: map[string]*warn{}}
		if i < len(ru.handlers) {
			if a, ok := old[ru.handlers[i].name]; ok {
				ru.about[n] = a
			}
			h.warns = ru.handlers[i].warns
		} else if r.IntN(3) > 0 && len(pool) > 0 {
			for range r.IntN(5) {
				w := pool[r.IntN(len(pool))]
				if h.warns[w.Name] == nil {
					h.warns[w.Name] = &warn{level: w.Level, name: w.Name, summary: w.Summary}
				}
				e := h.warns[w.Name]
				e.insts = append(e.insts, inst{source, genFn(r, fnPrefix), genText(r), genRecord(r)})
			}
		}
		have = append(have, h)
	}
	ru.handlers = have
	for _, h := range have {
		for _, w := range h.warns {
			for i := range w.insts {
				// Names of functions: there is no slash in them.
				w.insts[i].fn = strings.NewReplacer("/", "", ":", "", ".", "").Replace(w.insts[i].fn)
				if r.IntN(6) == 0 {
					w.insts[i].text = strings.TrimSpace([]string{"<script>alert(1)</script>", "a <b id=zz>bold</b> & more", "</td></tr></table>", "x\n<img src=zz>\ny", "&lt;p&gt; &amp;"}[r.IntN(5)])
				}
				if r.IntN(12) == 0 {
					w.insts[i].record = `{"msg":"</pre><b id=zz>\u003ci\u003e&amp;"}`
				}
			}
		}
	}
	return ru
}

// load parses the texts, as a reference for the scores.
func (s *site) load() error {
	s.bench, s.warns = data.NewBenchmarks(), data.NewWarnings()
	if err := s.bench.ParseBenchmarkData(strings.NewReader(s.bText)); err != nil {
		return err
	}
	if err := s.warns.ParseWarningData(bytes.NewReader(s.bench.WarningText()), "Bench", s.bench.HandlerLookup()); err != nil {
		return err
	}
	return s.warns.ParseWarningData(strings.NewReader(s.vText), "Verify", s.bench.HandlerLookup())
}

// live is a running server.
type live struct {
	cmd    *exec.Cmd
	errs   *tail
	done   chan struct{}
	err    error
	client *http.Client
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

const base = "http://127.0.0.1:8080"

// start runs the server on the files of a data set and waits until it listens.
func (s *site) start(c *kit.Ctx, dir string) (*live, string) {
	for i := 0; ; i++ { // nobody else may have the port
		l, err := net.Listen("tcp", ":8080")
		if err == nil {
			_ = l.Close()
			break
		}
		if i == 200 {
			fmt.Fprintln(os.Stderr, "port 8080 is not free:", err)
			os.Exit(3)
		}
		c.Tick()
		time.Sleep(100 * time.Millisecond)
	}
	args := append([]string{"-bench", "docs/bench.txt", "-verify", "docs/verify.txt"}, s.args...)
	l := &live{cmd: exec.Command(os.Getenv("VERIF_BIN"), args...), errs: &tail{}, done: make(chan struct{})}
	l.cmd.Dir = dir
	l.cmd.Env = append(os.Environ(), "GIN_MODE=release")
	l.cmd.Stdout, l.cmd.Stderr = l.errs, l.errs
	l.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := l.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start the server:", err)
		os.Exit(3)
	}
	go func() { l.err = l.cmd.Wait(); close(l.done) }()
	l.client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for i := 0; i < 600; i++ {
		select {
		case <-l.done:
			return nil, fmt.Sprintf("the server ends (%v) instead of serving: %s", l.err, clipped(l.errs.String()))
		default:
		}
		if conn, err := net.Dial("tcp", "127.0.0.1:8080"); err == nil {
			_ = conn.Close()
			return l, ""
		}
		c.Tick()
		time.Sleep(20 * time.Millisecond)
	}
	fmt.Fprintln(os.Stderr, "the server does not listen:", l.errs.String())
	os.Exit(3)
	return nil, ""
}

func (l *live) stop() {
	l.client.CloseIdleConnections()
	_ = l.cmd.Process.Kill()
	<-l.done
}

func (l *live) alive() bool {
	select {
	case <-l.done:
		return false
	default:
		return true
	}
}

type reply struct {
	status int
	ctype  string
	body   string
}

var timestamp = regexp.MustCompile(`<span class="fixed">\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [^<]*</span>`)

func (l *live) get(path string) (reply, error) {
	resp, err := l.client.Get(base + path)
	if err != nil {
		return reply{}, err
	}
	defer resp.Body.Close()
	raw, err := io.ReadAll(resp.Body)
	return reply{resp.StatusCode, resp.Header.Get("Content-Type"), timestamp.ReplaceAllString(string(raw), "<span>NOW</span>")}, err
}

func pathOf(parts ...string) string {
	for i, p := range parts {
		parts[i] = url.PathEscape(p)
	}
	return "/go-slog/" + strings.Join(parts, "/")
}

func svgFile(name string) string { return name + ".svg" }

var chartItems = []data.BenchItems{data.Runs, data.Nanos, data.MemAllocs, data.MemBytes, data.MbPerSec, data.GbPerSec, data.TbPerSec}

var realKeepers = []string{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"}

// oddPaths are requests nobody gets by following a link.
var oddPaths = []string{
	pathOf("handler", "Nobody.html"), pathOf("test", "Bench.Nothing.html"), pathOf("test", "Verify.Nothing.html"), pathOf("test", "x.html"), pathOf("handler", "a"),
	pathOf("scores", "Nobody", "summary.html"), pathOf("scores", "Nobody", "0", "chart.svg"), pathOf("scores", "Default", "99", "chart.svg"), pathOf("scores", "Default", "-1", "chart.svg"),
	pathOf("scores", "Size", "x", "chart.svg"), pathOf("chart", "Nobody", "Nanos.svg"), pathOf("chart", "Bench.Nothing", "Nanos.svg"), pathOf("chart", "SlogJSON", "Nothing.svg"), pathOf("chart", "SlogJSON", ".svg"),
	pathOf("text", "other.txt", "display.html"), pathOf("text", "..", "display.html"), pathOf("nothing.html"), "/", pathOf("test", ""), pathOf("error.html"), pathOf("handler", ".html"), pathOf("test", ".html"),
	pathOf("handler", `<b id=zz>.html`), pathOf("test", `<b id=zz>.html`), pathOf("test", `Verify.<b id=zz>.html`), pathOf("text", `<b id=zz>`, "display.html"), pathOf("scores", `<b id=zz>`, "summary.html"),
	pathOf("chart", `<b id=zz>`, "Nanos.svg"), pathOf("chart", "SlogJSON", `<b id=zz>.svg`), pathOf("scores", `<b id=zz>`, "1", "chart.svg"),
	pathOf("handler", `');alert(1);('.html`), pathOf("handler", "a%zz.html"), pathOf("test", "é\u202e\x00.html"),
}

var requestKinds = []string{"chart.svg", "Nanos.svg", "/test/", "/handler/", "summary.html", "/warnings", "display.html", "/go-slog/"}

func server(c *kit.Ctx) {
	c.Rule("the real server (built with the race detector) run on generated benchmark outputs, verification outputs and text files, and on the recorded ones; every page, chart and link is read through HTTP and compared with what the outputs say; a second server on the same data is hit by 16 clients in different orders from its first request on and must answer each request like the first; unknown and hostile names in requests; distinct by data set")
	defer quiet()()
	for i := -1; i < c.N(16, 300); i++ {
		if c.Only >= 0 && i != c.Only {
			continue
		}
		r := c.Rng("server", i)
		var s *site
		if i < 0 {
			s = recordedSite()
			if s == nil {
				continue
			}
		} else {
			s = genSite(r)
			c.Count("handlers with results and no report", s.unreported)
		}
		s.run(c, i, r)
		if c.Violations() > 12 {
			break
		}
	}
	c.Need("pages compared", 500)
	c.Need("concurrent requests", 1000)
	c.Need("bars compared", 500)
	c.Need("dots compared", 100)
	c.Need("score rows compared", 300)
	c.Need("instances on pages", 500)
	c.Need("links followed", 800)
}

func recordedSite() *site {
	b, err1 := os.ReadFile(repo() + "/docs/bench.txt")
	v, err2 := os.ReadFile(repo() + "/docs/verify.txt")
	if err1 != nil || err2 != nil {
		return nil
	}
	t, _ := os.ReadFile(repo() + "/docs/tabular.txt")
	return &site{bText: string(b), vText: string(v), tab: string(t), light: true, tag: language.AmericanEnglish, p: message.NewPrinter(language.AmericanEnglish)}
}

func (s *site) run(c *kit.Ctx, i int, r *rand.Rand) {
	bad := func(what string, more ...any) {
		c.Violate("server: "+what, map[string]any{"case": i, "args": s.args, "bench": clipped(s.bText), "verify": clipped(s.vText), "more": more})
	}
	if err := s.load(); err != nil {
		bad("the data are rejected: " + err.Error())
		return
	}
	dir, err := os.MkdirTemp("", "server")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	_ = os.Mkdir(filepath.Join(dir, "docs"), 0o755)
	for n, text := range map[string]string{"bench.txt": s.bText, "verify.txt": s.vText, "tabular.txt": s.tab} {
		if err := os.WriteFile(filepath.Join(dir, "docs", n), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	l, why := s.start(c, dir)
	if why != "" {
		bad(why)
		return
	}
	// First reader: everything once, in order, following links.
	seen := map[string]reply{}
	var order []string
	broken := map[string]bool{}
	fetch := func(path, from string) (reply, bool) {
		if rep, ok := seen[path]; ok {
			return rep, !broken[path]
		}
		if !l.alive() {
			return reply{}, false
		}
		rep, err := l.get(path)
		if err != nil {
			broken[path] = true
			bad(fmt.Sprintf("no answer to %s (%v)", path, err), clipped(l.errs.String()))
			return rep, false
		}
		c.Count("requests", 1)
		seen[path] = rep
		order = append(order, path)
		if rep.status >= 500 {
			broken[path] = true
			bad(fmt.Sprintf("status %d for %s (%s)", rep.status, path, from), clipped(rep.body), clipped(l.errs.String()))
			return rep, false
		}
		return rep, true
	}
	queue := [][2]string{{"/go-slog/", "start"}, {"/go-slog/index.html", "start"}}
	add := func(from string, parts ...string) { queue = append(queue, [2]string{pathOf(parts...), from}) }
	for _, h := range s.bench.HandlerTags() {
		add("handlers", "handler", string(h)+".html")
	}
	for _, h := range s.warns.HandlerTags() {
		add("handlers", "handler", string(h)+".html")
	}
	for _, t := range append(s.bench.TestTags(), s.warns.TestTags()...) {
		add("tests", "test", string(t)+".html")
	}
	for _, k := range realKeepers {
		add("keepers", "scores", k, "summary.html")
	}
	queued := map[string]bool{}
	for n := 0; n < len(queue); n++ {
		path, from := queue[n][0], queue[n][1]
		if queued[path] {
			continue
		}
		queued[path] = true
		rep, ok := fetch(path, from)
		if !ok {
			continue
		}
		c.Count("links followed", 1)
		if rep.status != 200 {
			bad(fmt.Sprintf("status %d for %s, a link on %s", rep.status, path, from))
			continue
		}
		if !strings.HasPrefix(rep.ctype, "text/html") {
			continue
		}
		doc, err := html.Parse(strings.NewReader(rep.body))
		if err != nil {
			bad("the page " + path + " cannot be parsed: " + err.Error())
			continue
		}
		here, _ := url.Parse(base + path)
		for _, a := range find(doc, func(n *html.Node) bool { return true }) {
			for _, at := range a.Attr {
				if at.Key != "href" && at.Key != "src" {
					continue
				}
				u, err := here.Parse(at.Val)
				if err != nil {
					bad(fmt.Sprintf("%s has the link %q", path, at.Val))
					continue
				}
				if u.Host == here.Host {
					u.Fragment = ""
					queue = append(queue, [2]string{u.RequestURI(), path})
				}
			}
		}
	}
	// The charts which no page shows.
	var charts [][2]string
	for _, h := range s.bench.HandlerTags() {
		if len(s.bench.TestRecordsFor(h)) > 0 {
			charts = append(charts, [2]string{string(h), "handler"})
		}
	}
	for _, t := range s.bench.TestTags() {
		charts = append(charts, [2]string{string(t), "test"})
	}
	for _, ch := range charts {
		item := chartItems[r.IntN(len(chartItems))]
		for _, it := range append([]data.BenchItems{data.Nanos, data.MemAllocs, data.MemBytes, data.GbPerSec}, item) {
			rep, ok := fetch(pathOf("chart", ch[0], svgFile(it.String())), "charts")
			if !ok {
				continue
			}
			if rep.status != 200 {
				bad(fmt.Sprintf("status %d for the chart of %s, %s", rep.status, ch[0], it))
				continue
			}
			if why := s.barChart(c, rep.body, ch[0], ch[1] == "test", it); why != "" {
				bad(fmt.Sprintf("chart of %s, %s: %s", ch[0], it, why), clipped(rep.body))
			}
		}
	}
	if !s.light {
		for _, why := range s.pages(c, seen) {
			bad(why)
		}
	}
	for _, why := range s.scores(c, seen) {
		bad(why)
	}
	for _, path := range oddPaths {
		rep, ok := fetch(path, "odd requests")
		if !ok {
			continue
		}
		c.Count("odd requests", 1)
		if why := s.unknown(path, rep); why != "" {
			bad(fmt.Sprintf("the answer %d to %s: %s", rep.status, path, why), clipped(rep.body))
		}
		if strings.Contains(rep.ctype, "html") {
			if doc, err := html.Parse(strings.NewReader(rep.body)); err != nil || len(find(doc, func(n *html.Node) bool { return attr(n, "id") == "zz" })) > 0 {
				bad("text from the request becomes markup in the answer to "+path, clipped(rep.body))
			}
		}
	}
	if !l.alive() {
		bad("the server has died: " + clipped(l.errs.String()))
	} else if log := l.errs.String(); strings.Contains(log, "panic recovered") {
		bad("a request panics", clipped(log[max(0, strings.Index(log, "panic recovered")-200):]))
	}
	l.stop()
	// Second server, same data, many readers from the first request on.
	if c.Violations() > 0 || len(order) == 0 {
		return
	}
	l, why = s.start(c, dir)
	if why != "" {
		bad("second start: " + why)
		return
	}
	const clients = 16
	var wg sync.WaitGroup
	var mu sync.Mutex
	diffs := 0
	answers := map[string][]reply{}
	start := make(chan struct{})
	for n := range clients {
		perm := slices.Clone(order)
		rr := c.Rng("clients", (i+1)*clients+n)
		switch {
		case n < 2: // two follow the same order
			k := i + 1
			slices.SortFunc(perm, func(a, b string) int { return strings.Compare(rot(a, k), rot(b, k)) })
		default:
			rr.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		}
		// The first requests of four clients are of the same kind.
		first := requestKinds[(4*(i+1)+n/4)%len(requestKinds)]
		slices.SortStableFunc(perm, func(a, b string) int {
			if fa, fb := strings.Contains(a, first), strings.Contains(b, first); fa != fb {
				if fa {
					return -1
				}
				return 1
			}
			return 0
		})
		for k := 3; k < len(perm); k++ { // but not the rest
			m := k + rr.IntN(len(perm)-k)
			perm[k], perm[m] = perm[m], perm[k]
		}
		if limit := c.N(90, 250); len(perm) > limit && n >= 2 {
			perm = perm[:limit]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, path := range perm {
				rep, err := l.get(path)
				c.Count("concurrent requests", 1)
				mu.Lock()
				if err != nil {
					if diffs++; diffs <= 3 {
						bad(fmt.Sprintf("no answer to %s among many readers: %v", path, err), clipped(l.errs.String()))
					}
				} else if !slices.Contains(answers[path], rep) {
					answers[path] = append(answers[path], rep)
				}
				mu.Unlock()
				if err != nil && !l.alive() {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if !l.alive() {
		bad("the server has died under many readers: " + clipped(l.errs.String()))
	} else if log := l.errs.String(); strings.Contains(log, "panic recovered") {
		bad("a request panics among many readers", clipped(log[max(0, strings.Index(log, "panic recovered")-200):]))
	} else {
		for path, list := range answers {
			// A single reader asks this server, too.
			rep, err := l.get(path)
			switch {
			case err != nil:
				bad(fmt.Sprintf("no answer to %s after many readers: %v", path, err))
			case len(list) != 1 || list[0] != rep:
				other := list[0]
				if other == rep && len(list) > 1 {
					other = list[1]
				}
				bad("different answers to many readers for "+path, clipped(firstDiff(other.body, rep.body)), other.status)
			case rep != seen[path] && (rep.status != seen[path].status || rep.ctype != seen[path].ctype || !same(path, rep.body, seen[path].body)):
				bad("another answer after many readers than to a single reader for "+path, clipped(firstDiff(rep.body, seen[path].body)), rep.status)
			}
		}
	}
	l.stop()
	c.Eval(s.bText + s.vText)
	c.Seen("languages", s.tag.String())
}

func rot(s string, k int) string {
	k %= len(s)
	return s[k:] + s[:k]
}

// same tells whether two processes serve the same at a path. Scores are summed up in the order of a map, so that the
// last digit of one may differ from process to process, and with it the order of things that score the same.
func same(path, a, b string) bool {
	if a == b {
		return true
	} else if !strings.Contains(path, "/scores/") && !strings.Contains(path, "/chart/") {
		return false
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	slices.Sort(x)
	slices.Sort(y)
	return slices.Equal(x, y) || sameDrawing(a, b)
}

var number = regexp.MustCompile(`-?\d+(\.\d+)?`)

// sameDrawing compares drawings whose coordinates may be rounded to the next pixel: the last digit of a score
// depends on the order in which it is summed up.
func sameDrawing(a, b string) bool {
	if !strings.HasPrefix(a, "<svg") || number.ReplaceAllString(a, "0") != number.ReplaceAllString(b, "0") {
		return false
	}
	x, y := number.FindAllString(a, -1), number.FindAllString(b, -1)
	for i := range x {
		f, _ := strconv.ParseFloat(x[i], 64)
		g, _ := strconv.ParseFloat(y[i], 64)
		if f-g > 1.01 || g-f > 1.01 {
			return false
		}
	}
	return true
}

func firstDiff(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	at := max(0, n-200)
	return fmt.Sprintf("at byte %d: %q instead of %q", n, a[at:min(len(a), n+300)], b[at:min(len(b), n+300)])
}

// ---- reading HTML

func find(n *html.Node, ok func(*html.Node) bool) []*html.Node {
	var list []*html.Node
	var walk func(*html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.ElementNode && ok(n) {
			list = append(list, n)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k)
		}
	}
	walk(n)
	return list
}

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

func has(n *html.Node, key string) bool {
	for _, a := range n.Attr {
		if a.Key == key {
			return true
		}
	}
	return false
}

func class(n *html.Node, name string) bool {
	return slices.Contains(strings.Fields(attr(n, "class")), name)
}

func tagged(n *html.Node, name, cls string) []*html.Node {
	return find(n, func(n *html.Node) bool { return n.Data == name && (cls == "" || class(n, cls)) })
}

func raw(n *html.Node) string {
	var b strings.Builder
	var walk func(*html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k)
		}
	}
	walk(n)
	return b.String()
}

// blank are the characters HTML layout collapses: not the non-breaking ones used in numbers.
func blank(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f' }

func text(n *html.Node) string { return strings.Join(strings.FieldsFunc(raw(n), blank), " ") }

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// direct are the rows of a table, without those of tables inside.
func direct(table *html.Node) [][]*html.Node {
	var rows [][]*html.Node
	var walk func(*html.Node)
	walk = func(n *html.Node) {
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if k.Type != html.ElementNode {
				continue
			}
			switch k.Data {
			case "tbody", "thead":
				walk(k)
			case "tr":
				var cells []*html.Node
				for x := k.FirstChild; x != nil; x = x.NextSibling {
					if x.Type == html.ElementNode && (x.Data == "td" || x.Data == "th") {
						cells = append(cells, x)
					}
				}
				rows = append(rows, cells)
			}
		}
	}
	walk(table)
	return rows
}

func texts(rows [][]*html.Node) [][]string {
	out := make([][]string, len(rows))
	for i, row := range rows {
		for _, cell := range row {
			out[i] = append(out[i], text(cell))
		}
	}
	return out
}

func urlUnescape(href string) (string, error) {
	u, err := url.Parse(href)
	if err != nil {
		return "", err
	}
	return u.Path, nil
}
