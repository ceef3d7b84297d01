// Package mon is the monitoring runtime shared by all checks: it records what
// was observed, attributes crashes to cases, and collects violations.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type Violation struct {
	Kind   string `json:"kind"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type Report struct {
	ID           string           `json:"id"`
	Evaluations  int64            `json:"evaluations"`
	DistinctKeys []string         `json:"distinct_keys"`
	Distinct     int              `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []any            `json:"samples"`
	Rule         string           `json:"rule"`
	Violations   []Violation      `json:"violations"`
	Exhaustive   []string         `json:"exhaustive,omitempty"`
	Complete     bool             `json:"complete"`
	HarnessError string           `json:"harness_error,omitempty"`
}

// C is one running check.
type C struct {
	ID       string
	T        *testing.T
	Seed     int64
	Thorough bool
	Rng      *rand.Rand

	mu       sync.Mutex
	rep      Report
	distinct map[uint64]struct{}
	seenKind map[string]int
	jf       *os.File
	start    time.Time
	budget   time.Duration
	curCase  string
}

const maxViolations = 12

// Start begins a check; Finish must be deferred.
func Start(t *testing.T, id, rule string) *C {
	if os.Getenv("VERIF_SHOWLOG") == "" {
		log.SetOutput(io.Discard)
	}
	c := &C{ID: id, T: t, start: time.Now(), distinct: map[uint64]struct{}{}, seenKind: map[string]int{}}
	c.Seed = envInt("VERIF_SEED", 1)*1000003 + envInt("VERIF_PROC", 0)*7919
	c.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	c.Rng = rand.New(rand.NewSource(c.Seed))
	c.budget = time.Duration(envInt("VERIF_BUDGET", 60)) * time.Second
	c.rep = Report{ID: id, Rule: rule, Counters: map[string]int64{}}
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		c.jf, _ = os.Create(p)
	}
	// Make a hard memory wall visible as a Go fatal error rather than an OOM kill.
	debug.SetMemoryLimit(6 << 30)
	return c
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// Proc is the number of this process among the processes of the check.
func (c *C) Proc() int { return int(envInt("VERIF_PROC", 0)) }

// Budget reports whether time is left; it only bounds the amount of exploration.
func (c *C) TimeLeft() bool { return realSince(c.start) < c.budget }

// N picks the number of cases for the tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Case journals the case that is about to run, for crash attribution.
func (c *C) Case(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	c.mu.Lock()
	c.curCase = s
	if c.jf != nil {
		b := []byte(s)
		c.jf.WriteAt(append(b, 0), 0)
	}
	c.mu.Unlock()
}

// Violate records a violation. Only the first of each kind is kept in detail.
func (c *C) Violate(kind, cas, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seenKind[kind]++
	c.rep.Counters["violation:"+kind]++
	if c.seenKind[kind] > 3 || len(c.rep.Violations) >= maxViolations {
		return
	}
	if cas == "" {
		cas = c.curCase
	}
	if len(cas) > 6000 {
		cas = cas[:6000] + "..."
	}
	c.rep.Violations = append(c.rep.Violations, Violation{kind, cas, d})
	fmt.Fprintf(os.Stderr, "violation %s [%s]: %s\n", c.ID, kind, d)
}

func (c *C) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Violations)
}

// Stop reports whether the check has seen enough violations to stop early.
func (c *C) Stop() bool { return c.Violations() >= 4 }

// Eval counts an evaluated case; key identifies it for distinctness, and is
// empty for trivial ones.
func (c *C) Eval(key string) {
	c.mu.Lock()
	c.rep.Evaluations++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// EvalHash is Eval for hot loops; zero is trivial.
func (c *C) EvalHash(h uint64) {
	c.mu.Lock()
	c.rep.Evaluations++
	if h != 0 {
		c.distinct[h] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.rep.Counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if c.rep.Counters[name] < int64(n) {
		c.rep.Counters[name] = int64(n)
	}
	c.mu.Unlock()
}

func (c *C) Sample(format string, args ...any) {
	c.mu.Lock()
	if len(c.rep.Samples) < 8 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, s)
	}
	c.mu.Unlock()
}

func (c *C) Exhaustive(what string) { c.rep.Exhaustive = append(c.rep.Exhaustive, what) }

// HarnessError marks the run as unusable (not a violation).
func (c *C) HarnessError(format string, args ...any) {
	c.mu.Lock()
	if c.rep.HarnessError == "" {
		c.rep.HarnessError = fmt.Sprintf(format, args...)
	}
	c.mu.Unlock()
}

// Guard runs fn and turns a panic into a violation.
func (c *C) Guard(kind, cas string, fn func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			c.Violate(kind, cas, "panic: %v\n%s", e, trimStack(debug.Stack()))
			ok = false
		}
	}()
	fn()
	return true
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic.go"); i > 0 {
		s = s[i:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}

// Finish writes the report.
func (c *C) Finish() {
	e := recover()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Complete = e == nil
	keys := make([]string, 0, len(c.distinct))
	// The driver counts the union over processes; cap what is shipped.
	c.rep.Distinct = len(c.distinct)
	for k := range c.distinct {
		if len(c.distinct) > 200000 {
			break
		}
		keys = append(keys, strconv.FormatUint(k, 36))
	}
	sort.Strings(keys)
	c.rep.DistinctKeys = keys
	if p := os.Getenv("VERIF_OUT"); p != "" {
		b, err := json.Marshal(&c.rep)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		c.rep.DistinctKeys = nil
		b, _ := json.MarshalIndent(&c.rep, "", " ")
		fmt.Fprintf(os.Stderr, "%s\ndistinct=%d wall=%v\n", b, c.rep.Distinct, realSince(c.start))
	}
	if e != nil {
		panic(e)
	}
}

var processStart = time.Now()

func realSince(t time.Time) time.Duration { return time.Since(t) }
