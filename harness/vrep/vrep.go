// Package vrep is the reporting side of every monitor: seed and tier handling, counters of
// what was observed, violations with a replay description, and the JSON report the driver
// turns into evidence.
package vrep

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Key    string `json:"key"`    // stable identification of what failed
	Detail string `json:"detail"` // human readable
	Replay string `json:"replay"` // case id that reproduces it
}

type Report struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Samples    []interface{}    `json:"samples"`
	Counters   map[string]int64 `json:"counters"`
	Violations []Violation      `json:"violations"`
	Assume     []string         `json:"assumptions"`
	Done       bool             `json:"done"`
}

type R struct {
	mu       sync.Mutex
	rep      Report
	out      string
	seen     map[[8]byte]struct{}
	Seed     int64
	Thorough bool
	OnlyCase string // VERIF_CASE: replay only this case
	start    time.Time
	budget   time.Duration
	maxViol  int
}

// Open reads VERIF_SEED, VERIF_TIER, VERIF_OUT, VERIF_CASE, VERIF_BUDGET_S.
func Open(property, rule string) *R {
	r := &R{seen: map[[8]byte]struct{}{}, start: time.Now(), maxViol: 20}
	r.rep.Property = property
	r.rep.Rule = rule
	r.rep.Counters = map[string]int64{}
	r.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = v
		}
	}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.out = os.Getenv("VERIF_OUT")
	r.OnlyCase = os.Getenv("VERIF_CASE")
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if v, err := strconv.Atoi(b); err == nil {
			r.budget = time.Duration(v) * time.Second
		}
	}
	return r
}

// Scale returns q in the quick tier and t in the thorough tier.
func (r *R) Scale(q, t int) int {
	if r.Thorough {
		return t
	}
	return q
}

// OverBudget is true when a thorough run has used its time; quick runs are never cut.
func (r *R) OverBudget() bool {
	return r.budget > 0 && time.Since(r.start) > r.budget
}

// Rand gives the deterministic source of one case.
func (r *R) Rand(caseID string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", r.Seed, r.rep.Property, caseID)))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8]) >> 1)))
}

// Want tells whether this case is selected (all, unless a replay names one).
func (r *R) Want(caseID string) bool {
	return r.OnlyCase == "" || r.OnlyCase == caseID || strings.HasPrefix(r.OnlyCase, caseID+"/")
}

func (r *R) Count(name string, n int64) {
	r.mu.Lock()
	r.rep.Counters[name] += n
	r.mu.Unlock()
}

func (r *R) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.rep.Counters[name] {
		r.rep.Counters[name] = n
	}
	r.mu.Unlock()
}

// Eval records one evaluation; sig identifies it, nontrivial says whether it counts.
func (r *R) Eval(sig string, nontrivial bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Evals++
	if !nontrivial {
		return
	}
	h := sha256.Sum256([]byte(sig))
	var k [8]byte
	copy(k[:], h[:8])
	if _, ok := r.seen[k]; !ok {
		r.seen[k] = struct{}{}
		r.rep.Distinct++
	}
}

func (r *R) Sample(s interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.rep.Samples) < 12 {
		r.rep.Samples = append(r.rep.Samples, s)
	}
}

func (r *R) Assume(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Assume = append(r.rep.Assume, s)
}

// Violate records a violation. key must be stable for the same defect.
func (r *R) Violate(caseID, key, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Counters["violations_raw"]++
	for _, v := range r.rep.Violations {
		if v.Key == key {
			return
		}
	}
	if len(r.rep.Violations) >= r.maxViol {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	r.rep.Violations = append(r.rep.Violations, Violation{Key: key, Detail: d, Replay: caseID})
	fmt.Fprintf(os.Stderr, "violation [%s] case %s: %s\n", key, caseID, d)
}

func (r *R) NumViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.rep.Violations)
}

// Guard runs f; a panic inside is a violation of the property under the given key.
func (r *R) Guard(caseID, key string, f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			r.Violate(caseID, key, "panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f()
	return false
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3500 {
		s = s[:3500]
	}
	return s
}

// Close writes the report. The driver treats a missing or not-done report as a broken run.
func (r *R) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Done = true
	if r.rep.Violations == nil {
		r.rep.Violations = []Violation{}
	}
	if r.rep.Samples == nil {
		r.rep.Samples = []interface{}{}
	}
	b, err := json.MarshalIndent(r.rep, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
		os.Exit(3)
	}
	if r.out != "" {
		if err := os.WriteFile(r.out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "report:", err)
			os.Exit(3)
		}
		return
	}
	keys := make([]string, 0)
	for k := range r.rep.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("evals=%d distinct=%d violations=%d wall=%.1fs\n", r.rep.Evals, r.rep.Distinct, len(r.rep.Violations), time.Since(r.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, r.rep.Counters[k])
	}
	for _, v := range r.rep.Violations {
		fmt.Printf("  VIOL %s %s\n    %s\n", v.Key, v.Replay, v.Detail)
	}
}

// Parallel runs f(i) for i in [0,n) on w goroutines.
func Parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
