// Command scoring monitors the scores and score keepers built from benchmark data and warnings.
package main

import (
	"fmt"
	"io"
	"log/slog"
	"maps"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zverif/kit"
)

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	kit.Main(map[string]func(*kit.Ctx){
		"C20": benchScores,
		"C21": warningScores,
		"C22": keepers,
	})
}

// values of one benchmark result.
type values struct {
	nanos         float64
	bytes, allocs uint64
}

func (v values) item(k int) float64 {
	switch k {
	case 0:
		return v.nanos
	case 1:
		return float64(v.bytes)
	default:
		return float64(v.allocs)
	}
}

// set is a generated data set: what the suites reported.
type set struct {
	names      map[string]string                    // handler tag -> name
	handlers   []string                             // tags with results, sorted
	tests      []string                             // tests with results, "Bench.X", sorted
	results    map[string]map[string]values         // handler tag -> test -> values
	issued     map[string]map[*warning.Warning]bool // handler tag -> warnings
	text       string                               // benchmark output
	verify     string                               // verification output
	unreported int                                  // handlers with benchmarks that no report is about
	own        int                                  // warnings which are not predefined ones with their level
	bench      *data.Benchmarks
	warns      *data.Warnings
}

// known are handlers which the score keepers select by name.
var known = [][2]string{
	{"SlogJSON", "slog/JSONHandler"},
	{"MadkinsFlash", "madkins/flash"},
	{"MadkinsReplAttr", "madkins/replattr"},
	{"SnqkMeld", "snqk/meld"},
	{"VeqrynDedupAppend", "veqryn/dedup/Append"},
	{"VeqrynDedupIgnore", "veqryn/dedup/Ignore"},
	{"VeqrynDedupIncrement", "veqryn/dedup/Increment"},
	{"VeqrynDedupOverwrite", "veqryn/dedup/Overwrite"},
	{"ChanchalZap", "chanchal/zaphandler"},
	{"PhsymZerolog", "phsym/zeroslog"},
	{"SamberLogrus", "samber/slog-logrus"},
	{"SamberZap", "samber/slog-zap"},
	{"Mine", "my own handler"},
	{"Other", "slog/other"},
}

var testNames = []string{"Attributes", "BigGroup", "Disabled", "KeyValues", "Logging", "Simple", "SimpleSource", "WithAttrsSimple",
	"Aa", "Bee", "Cede", "DeeDum", "Eff", "Gee", "Haitch", "Eye", "Jay", "Kay", "Ell", "Emm"}

func gen(r *rand.Rand) *set {
	s := &set{
		names:   map[string]string{},
		results: map[string]map[string]values{},
		issued:  map[string]map[*warning.Warning]bool{},
	}
	nh := 1 + r.IntN(6)
	if r.IntN(8) == 0 {
		nh = len(known)
	}
	nt := 1 + r.IntN(5)
	if r.IntN(4) == 0 {
		nt = len(testNames) - r.IntN(12)
	}
	perm := r.Perm(len(known))[:nh]
	sort.Ints(perm)
	tests := r.Perm(len(testNames))[:nt]
	mode := r.IntN(7)
	pool := make([]values, 1+r.IntN(3))
	for i := range pool {
		pool[i] = randomValues(r)
	}
	var w strings.Builder
	seen := map[string]bool{}
	twin, better := r.IntN(4) == 0, r.IntN(2) == 0
	var last map[string]values
	for _, k := range perm {
		tag, name := known[k][0], known[k][1]
		rows := map[string]values{}
		for _, t := range tests {
			if nh > 1 && r.IntN(12) == 0 {
				continue
			}
			v := randomValues(r)
			switch mode {
			case 0: // everything alike
				v = pool[0]
			case 1: // many ties
				v = pool[r.IntN(len(pool))]
			case 2: // memory alike
				v.bytes, v.allocs = pool[0].bytes, pool[0].allocs
			case 3: // one item differs in one test
				v.bytes, v.allocs = pool[0].bytes, uint64(r.IntN(2))
				v.nanos = pool[0].nanos
			case 6: // everything beyond 32 bits
				v.bytes, v.allocs = v.bytes<<20+1<<33, v.allocs<<20+1<<33
				v.nanos = float64(1<<32) + float64(r.Int64N(1<<40))
				fmt.Sscan(decimal(v.nanos), &v.nanos)
			}
			rows["Bench."+testNames[t]] = v
		}
		if twin && len(last) > 0 && r.IntN(2) == 0 { // has the results of another one, or slightly better ones
			rows = maps.Clone(last)
			if better {
				for t, v := range rows {
					if r.IntN(3) == 0 && v.bytes > 0 && v.bytes < 1<<50 {
						v.bytes--
						rows[t] = v
					}
				}
			}
		}
		if len(rows) == 0 {
			continue
		}
		last = rows
		fmt.Fprintf(&w, "# Handler[%s]=\"%s\"\n", tag, name)
		for _, t := range tests {
			v, ok := rows["Bench."+testNames[t]]
			if !ok {
				continue
			}
			seen["Bench."+testNames[t]] = true
			fmt.Fprintf(&w, "Benchmark%s/Benchmark%s-8 \t  %8d\t%s ns/op\t  %d.%02d MB/s\t%8d B/op\t%8d allocs/op\n",
				tag, testNames[t], 1+r.IntN(1000000), decimal(v.nanos), r.IntN(1000), r.IntN(100), v.bytes, v.allocs)
		}
		s.names[tag] = name
		s.handlers = append(s.handlers, tag)
		s.results[tag] = rows
	}
	for t := range seen {
		s.tests = append(s.tests, t)
	}
	sort.Strings(s.handlers)
	sort.Strings(s.tests)
	var v strings.Builder
	some := r.IntN(3) > 0 // a common choice of warnings, so that ranges have ties
	own := max(0, r.IntN(6)-3)
	var all []*warning.Warning
	for _, l := range warning.LevelOrder {
		list := warning.WarningsForLevel(l)
		n := r.IntN(len(list) + 1)
		if r.IntN(4) == 0 {
			n = 0
		}
		if some && n > 3 {
			n = 3
		}
		for _, k := range r.Perm(len(list))[:n] {
			all = append(all, list[k])
		}
		// A report may have warnings that are not predefined ones:
		// a suite has its own, or comes from another version of the module.
		if own > 0 {
			n := r.IntN(4)
			if r.IntN(30) == 0 {
				n = 30 + r.IntN(300)
			}
			for k := range n {
				name := fmt.Sprintf("Own%s%d", l, k)
				if k > 0 && r.IntN(5) == 0 {
					name = strings.ToLower(fmt.Sprintf("Own%s%d", l, k-1)) // another one but for its case
				}
				if other := warning.WarningsForLevel(warning.LevelOrder[r.IntN(len(warning.LevelOrder))]); own > 1 && len(other) > 0 {
					if x := other[r.IntN(len(other))]; x.Level != l {
						name = x.Name
					}
				}
				if !slices.ContainsFunc(all, func(x *warning.Warning) bool { return x.Name == name }) {
					all = append(all, &warning.Warning{Level: l, Name: name, Summary: "Something of its own"})
					s.own++
				}
			}
		}
	}
	// A few sections for handlers which have no benchmark results.
	tags := append([]string{}, s.handlers...)
	for k := range known {
		if s.results[known[k][0]] == nil && r.IntN(10) == 0 {
			tags = append(tags, known[k][0])
			s.names[known[k][0]] = known[k][1]
			fmt.Fprintf(&w, "# Handler[%s]=\"%s\"\n", known[k][0], known[k][1])
		}
	}
	silent := r.IntN(8) == 0 // benchmarks of a package whose TestMain reports nothing, without a verification
	for _, tag := range tags {
		s.issued[tag] = map[*warning.Warning]bool{}
		if s.results[tag] != nil && (silent || r.IntN(10) == 0) {
			s.unreported++
			continue // no word of it, so there is no warning
		}
		chance := r.IntN(5)
		var mine, bench []*warning.Warning
		for _, x := range all {
			if r.IntN(4) < chance {
				mine = append(mine, x)
				s.issued[tag][x] = true
				if r.IntN(5) == 0 {
					bench = append(bench, x)
					if r.IntN(2) == 0 {
						mine = mine[:len(mine)-1]
					}
				}
			}
		}
		report(r, &v, "", s.names[tag], "Test", mine)
		report(r, &w, "# ", s.names[tag], "Benchmark", bench)
	}
	s.text, s.verify = w.String(), v.String()
	return s
}

func report(r *rand.Rand, w io.Writer, prefix, name, fn string, list []*warning.Warning) {
	fmt.Fprintf(w, "%s\n%sWarnings for %s:\n", prefix, prefix, name)
	if len(list) == 0 {
		fmt.Fprintf(w, "%s  None\n", prefix)
		return
	}
	for _, l := range warning.LevelOrder {
		first := true
		for _, x := range list {
			if x.Level != l {
				continue
			}
			if first {
				fmt.Fprintf(w, "%s  %s\n", prefix, l)
				first = false
			}
			n := 1 + r.IntN(3)
			fmt.Fprintf(w, "%s  %4d [%s] %s\n", prefix, n, x.Name, x.Summary)
			for k := 0; k < n; k++ {
				fmt.Fprintf(w, "%s         %s%s: text %d\n", prefix, fn, testNames[r.IntN(len(testNames))], k)
			}
		}
	}
}

// decimal prints a number the way package testing does, so that it can be read back exactly enough.
func decimal(x float64) string {
	switch y := math.Abs(x); {
	case y == 0 || y >= 999.95:
		return fmt.Sprintf("%10.0f", x)
	case y >= 99.995:
		return fmt.Sprintf("%12.1f", x)
	case y >= 9.9995:
		return fmt.Sprintf("%13.2f", x)
	default:
		return fmt.Sprintf("%15.4f", x)
	}
}

func randomValues(r *rand.Rand) values {
	v := values{
		nanos:  float64(r.IntN(3_000_000)),
		bytes:  uint64(r.IntN(20000)),
		allocs: uint64(r.IntN(300)),
	}
	switch r.IntN(6) {
	case 0:
		v.nanos = float64(r.IntN(9000)) / 1000
	case 1:
		v.bytes, v.allocs = 0, 0
	case 2:
		v.nanos = float64(10+r.IntN(40)) / 4
		v.bytes, v.allocs = uint64(r.IntN(3))*8, uint64(r.IntN(3))
	case 3:
		if r.IntN(6) == 0 {
			v.bytes, v.nanos = 1<<40+uint64(r.IntN(1000)), 1e9+float64(r.IntN(1e9))
		}
	}
	// What is printed is what counts.
	fmt.Sscan(decimal(v.nanos), &v.nanos)
	return v
}

// load reads the set the way the viewers do.
func (s *set) load() error {
	s.bench, s.warns = data.NewBenchmarks(), data.NewWarnings()
	if err := s.bench.ParseBenchmarkData(strings.NewReader(s.text)); err != nil {
		return err
	}
	if err := s.warns.ParseWarningData(strings.NewReader(string(s.bench.WarningText())), "Bench", s.bench.HandlerLookup()); err != nil {
		return err
	}
	return s.warns.ParseWarningData(strings.NewReader(s.verify), "Verify", s.bench.HandlerLookup())
}

func near(a score.Value, b float64) bool {
	return math.Abs(float64(a)-b) <= 1e-6
}
