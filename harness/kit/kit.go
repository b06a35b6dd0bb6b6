// Package kit is the common frame of the runtime monitors: deterministic
// pseudo-random case lists, counting of what was observed, verdicts, evidence.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx carries one check run.
type Ctx struct {
	Prop string
	Tier string
	Seed uint64
	Only int // replay: only this case number (-1: all)

	mu         sync.Mutex
	rule       string
	evals      int
	distinct   map[uint64]struct{}
	samples    []any
	counters   map[string]int
	sets       map[string]map[string]struct{}
	violations []violation
	nviol      int
	known      map[string]string // key -> what
	knownSeen  map[string]bool
	minimum    map[string]int
	replayDir  string
	start      time.Time
	progress   atomic.Int64
	assumes    []string
}

type violation struct {
	What   string `json:"what"`
	Detail any    `json:"detail"`
}

// Thorough reports whether this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases per tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng returns the generator for one case: the case list is a function of the seed alone.
func (c *Ctx) Rng(stream string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", c.Prop, stream, i)
	return rand.New(rand.NewPCG(c.Seed, h.Sum64()))
}

// Rule sets the text which explains how cases are made and counted.
func (c *Ctx) Rule(text string) { c.rule = text }

// Assume records an assumption of the verdict.
func (c *Ctx) Assume(text string) { c.assumes = append(c.assumes, text) }

// Eval counts one evaluation of the oracle; a non-empty fingerprint counts as a distinct non-trivial case.
func (c *Ctx) Eval(fingerprint string) {
	c.progress.Add(1)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if fingerprint != "" {
		h := fnv.New64a()
		h.Write([]byte(fingerprint))
		c.distinct[h.Sum64()] = struct{}{}
	}
}

// Tick reports progress to the watchdog.
func (c *Ctx) Tick() { c.progress.Add(1) }

// Count adds to a named counter that is part of the evidence.
func (c *Ctx) Count(name string, n int) {
	c.progress.Add(1)
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Seen adds a member to a named set, the size of which is part of the evidence.
func (c *Ctx) Seen(set, member string) {
	c.mu.Lock()
	s := c.sets[set]
	if s == nil {
		s = make(map[string]struct{})
		c.sets[set] = s
	}
	s[member] = struct{}{}
	c.mu.Unlock()
}

// Need states that a counter must reach a minimum: a run which observed less is no run at all.
func (c *Ctx) Need(name string, n int) { c.minimum[name] = n }

// Sample keeps a few actual cases.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Violate records a violation; detail must be enough to replay by hand.
func (c *Ctx) Violate(what string, detail any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	if len(c.violations) < 8 {
		c.violations = append(c.violations, violation{what, detail})
	}
}

// Finding records a deviation with an identity: a violation unless that very identity is listed as known.
func (c *Ctx) Finding(key, what string, detail any) {
	c.mu.Lock()
	_, ok := c.known[key]
	if ok {
		c.knownSeen[key] = true
	}
	c.mu.Unlock()
	if !ok {
		c.Violate(what+" ["+key+"]", detail)
	}
}

// Violations returns the number of violations up to now.
func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol
}

// Guard runs fn and turns a panic of it into a violation.
func (c *Ctx) Guard(what string, detail func() any, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			var d any
			if detail != nil {
				d = detail()
			}
			c.Violate(fmt.Sprintf("%s: panic: %v", what, r), map[string]any{"case": d, "stack": string(debug.Stack())})
		}
	}()
	fn()
}

// Main runs the check named on the command line.
func Main(checks map[string]func(*Ctx)) {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed of the case list")
	out := flag.String("out", "", "evidence file")
	replays := flag.String("replays", "", "directory for replay files")
	only := flag.Int("case", -1, "replay only this case")
	racelog := flag.String("racelog", "", "prefix of race detector logs")
	knownFile := flag.String("known", "", "known findings file")
	flag.Parse()
	fn, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %q\n", *prop)
		os.Exit(3)
	}
	c := &Ctx{
		Prop: *prop, Tier: *tier, Seed: *seed, Only: *only,
		distinct: make(map[uint64]struct{}), counters: make(map[string]int),
		sets: make(map[string]map[string]struct{}), minimum: make(map[string]int),
		known: make(map[string]string), knownSeen: make(map[string]bool),
		replayDir: *replays, start: time.Now(),
	}
	c.loadKnown(*knownFile)
	go c.watchdog(*out)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Violate(fmt.Sprintf("panic: %v", r), string(debug.Stack()))
			}
		}()
		fn(c)
	}()
	c.races(*racelog)
	os.Exit(c.finish(*out))
}

func (c *Ctx) loadKnown(path string) {
	if path == "" {
		return
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var list struct {
		Known []struct{ Property, Key, What string } `json:"known"`
	}
	if err := json.Unmarshal(raw, &list); err != nil {
		fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
		os.Exit(3)
	}
	for _, k := range list.Known {
		if k.Property == c.Prop {
			c.known[k.Key] = k.What
		}
	}
}

// watchdog notices a run in which nothing moves any more. A goroutine that waits for a lock inside the
// code under test is a violation (the lock is never released: everything else has stopped); anything else
// is inconclusive.
func (c *Ctx) watchdog(out string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		if p := c.progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) < 100*time.Second {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		stuck := false
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if (strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "semacquire") ||
				strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "chan ") || strings.Contains(head, "sync.WaitGroup")) &&
				strings.Contains(strings.ReplaceAll(g, "go-slog/internal/zverif", ""), "madkins23/go-slog/") {
				stuck = true
			}
			if strings.Contains(head, "running") || strings.Contains(head, "runnable") {
				if strings.Contains(strings.ReplaceAll(g, "go-slog/internal/zverif", ""), "madkins23/go-slog/") {
					stuck = true
				}
			}
		}
		if stuck {
			c.Violate("the code under test made no progress any more (a lock is never released, or a loop never ends)", string(buf))
			os.Exit(c.finish(out))
		}
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: no progress\n%s\n", buf)
		os.Exit(4)
	}
}

// races turns reports of the race detector into violations.
func (c *Ctx) races(prefix string) {
	if prefix == "" {
		return
	}
	files, _ := filepath.Glob(prefix + ".*")
	sort.Strings(files)
	for _, f := range files {
		raw, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		// In a process other than this one runs a command of the repository, and all races there are its own.
		command := !strings.HasSuffix(f, fmt.Sprintf(".%d", os.Getpid()))
		blocks := strings.Split(string(raw), "WARNING: DATA RACE")
		for _, b := range blocks[1:] {
			if command || strings.Contains(strings.ReplaceAll(b, "go-slog/internal/zverif", ""), "madkins23/go-slog/") {
				c.Violate("data race", "WARNING: DATA RACE"+b)
			} else {
				fmt.Fprintf(os.Stderr, "race outside the code under test:\n%s\n", b)
				os.Exit(3)
			}
		}
	}
}

func (c *Ctx) finish(out string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	obs := map[string]int{}
	for k, v := range c.counters {
		obs[k] = v
	}
	for k, v := range c.sets {
		obs["distinct "+k] = len(v)
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": c.nviol,
	}
	if len(c.assumes) > 0 {
		ev["assumptions"] = c.assumes
	}
	if out != "" {
		raw, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
		if err := os.WriteFile(out, append(raw, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}
	keys := make([]string, 0, len(c.knownSeen))
	for k := range c.knownSeen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, c.known[k])
	}
	if c.nviol > 0 {
		path := "-"
		if c.replayDir != "" {
			_ = os.MkdirAll(c.replayDir, 0o755)
			path = filepath.Join(c.replayDir, c.Prop+".json")
			raw, _ := json.MarshalIndent(map[string]any{
				"property": c.Prop, "tier": c.Tier, "seed": c.Seed,
				"total": c.nviol, "violations": c.violations,
			}, "", " ")
			_ = os.WriteFile(path, raw, 0o644)
		}
		for _, v := range c.violations {
			fmt.Printf("  %s\n", clip(v.What, 400))
			if raw, err := json.Marshal(v.Detail); err == nil {
				fmt.Printf("    %s\n", clip(string(raw), 3000))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		return 1
	}
	if c.Only < 0 {
		for name, n := range c.minimum {
			if obs[name] < n {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed only %d of %q, need %d\n", obs[name], name, n)
				return 4
			}
		}
		if c.evals == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was evaluated")
			return 4
		}
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d\n", c.Prop, c.evals, len(c.distinct))
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
