// Package h is the support code shared by all property checks: it runs rapid
// with the case counts of the tier, counts and classifies the generated cases,
// and writes the statistics the driver turns into the evidence file.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one run of a check measured.
type Stats struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Distinct    int               `json:"distinct_nontrivial"`
	Parts       map[string]*Part  `json:"parts"`
	Samples     []string          `json:"samples"`
	Rules       map[string]string `json:"rules"`
}

// Part is the share of one sub-property.
type Part struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels,omitempty"`
	seen        map[uint64]bool
	samples     []string
}

var (
	mu      sync.Mutex
	parts   = map[string]*Part{}
	rules   = map[string]string{}
	journal *os.File
)

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Pick returns q in the quick tier and th in the thorough tier.
func Pick(q, th int) int {
	if Tier() == "thorough" {
		return th
	}
	return q
}

// Case records one generated case.
type Case struct {
	part   string
	key    string
	nt     bool
	labels []string
	done   bool
}

// Input states the case in words (also journalled, so that a crash of the
// process names the input that caused it).
func (c *Case) Input(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if c.key != "" {
		c.key += "; "
	}
	c.key += s
	Journal(c.part + ": " + c.key)
}

// Journal notes what is about to run; a later note replaces an earlier one.
func Journal(s string) {
	mu.Lock()
	defer mu.Unlock()
	if journal == nil {
		return
	}
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	journal.Truncate(0)
	journal.WriteAt([]byte(s), 0)
}

// NonTrivial marks the case when cond holds.
func (c *Case) NonTrivial(cond bool) {
	if cond {
		c.nt = true
	}
}

// Label counts the case under name when cond holds.
func (c *Case) Label(name string, cond bool) {
	if cond {
		c.labels = append(c.labels, name)
	}
}

func (c *Case) finish() {
	if c.done {
		return
	}
	c.done = true
	mu.Lock()
	defer mu.Unlock()
	p := parts[c.part]
	p.Evaluations++
	for _, l := range c.labels {
		p.Labels[l]++
	}
	if c.nt {
		p.NonTrivial++
		hh := fnv.New64a()
		hh.Write([]byte(c.key))
		k := hh.Sum64()
		if !p.seen[k] {
			p.seen[k] = true
			p.Distinct++
			// keep samples spread over the run
			if len(p.samples) < 2 || (p.Distinct&(p.Distinct-1)) == 0 {
				s := c.key
				if len(s) > 400 {
					s = s[:400] + "..."
				}
				if len(p.samples) >= 4 {
					p.samples = p.samples[1:]
				}
				p.samples = append(p.samples, c.part+": "+s)
			}
		}
	}
}

// Check runs prop on q (quick) or th (thorough) generated cases as subtest part.
// rule says how cases are made and which are non-trivial.
func Check(t *testing.T, part, rule string, q, th int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	t.Run(part, func(t *testing.T) {
		mu.Lock()
		if parts[part] == nil {
			parts[part] = &Part{Labels: map[string]int{}, seen: map[uint64]bool{}}
		}
		rules[part] = rule
		mu.Unlock()
		flag.Set("rapid.checks", strconv.Itoa(Pick(q, th)))
		rapid.Check(t, func(rt *rapid.T) {
			if outOfTime(part, q) {
				return
			}
			c := &Case{part: part}
			caseStart.Store(time.Now().UnixNano())
			defer caseStart.Store(0)
			defer c.finish()
			defer func() {
				if rt.Failed() {
					noteFailure(c)
				}
			}()
			prop(rt, c)
		})
	})
}

// noteFailure keeps the first failing case for the driver, in case shrinking
// does not come to an end.
func noteFailure(c *Case) {
	if failedOnce.Swap(true) {
		return
	}
	failedAt.Store(time.Now().UnixNano())
	if f := os.Getenv("VERIF_FAILNOTE"); f != "" {
		os.WriteFile(f, []byte(c.part+": "+c.key+"\n"), 0666)
	}
}

var failedOnce atomic.Bool
var failedAt atomic.Int64
var processStart = time.Now()

// Budget bounds the time a run spends on generating cases: on a machine, or
// with code, so slow that the planned number does not fit, the rest is left
// out (the evidence counts what ran). After a failure the search for a smaller
// failing case gets 40 s.
func outOfTime(part string, q int) bool {
	if at := failedAt.Load(); at != 0 {
		return time.Now().UnixNano()-at > int64(40*time.Second)
	}
	budget := 400 * time.Second
	if Tier() == "thorough" {
		budget = 740 * time.Second
	}
	if time.Since(processStart) < budget {
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	return parts[part].Evaluations > q/20
}

// Patience is how long to wait for what must happen. Once a case failed, the
// attempts to shrink it wait less.
func Patience(d time.Duration) time.Duration {
	if failedOnce.Load() && d > 4*time.Second {
		return 4 * time.Second
	}
	return d
}

// Main runs the tests of a package and writes the statistics.
func Main(m *testing.M) {
	flag.Parse()
	if f := os.Getenv("VERIF_JOURNAL"); f != "" {
		journal, _ = os.Create(f)
	}
	code := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		s := Stats{Parts: parts, Rules: rules}
		var names []string
		for n := range parts {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p := parts[n]
			s.Evaluations += p.Evaluations
			s.NonTrivial += p.NonTrivial
			s.Distinct += p.Distinct
			s.Samples = append(s.Samples, p.samples...)
		}
		b, _ := json.MarshalIndent(s, "", " ")
		os.WriteFile(f, b, 0666)
	}
	os.Exit(code)
}

// Infra ends the run as an error of the harness, neither pass nor violation.
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// Wide draws from min to max about evenly; rapid.IntRange draws mostly small
// numbers from a large range.
func Wide(min, max int) *rapid.Generator[int] {
	return rapid.Custom(func(rt *rapid.T) int {
		if max-min < 64 {
			return rapid.IntRange(min, max).Draw(rt, "n")
		}
		k := rapid.IntRange(0, 31).Draw(rt, "slice")
		lo := min + (max-min)/32*k
		hi := lo + (max-min)/32
		if k == 31 {
			hi = max
		}
		return rapid.IntRange(lo, hi).Draw(rt, "n")
	})
}

// Panics runs f and returns the value it panicked with, if it did.
func Panics(f func()) (val interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	panicked = false
	return
}
