// Package verifkit holds the exploration engine shared by all checks. It is injected into the
// modules under test with a go build overlay and imports nothing from them.
package verifkit

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one reported property violation.
type Violation struct {
	Key    string      `json:"key"`    // identifies the failing input, call site or history
	Msg    string      `json:"msg"`    // what went wrong
	Replay interface{} `json:"replay"` // how to reproduce
}

// Run collects what one check job explored and found.
type Run struct {
	Job   string
	Tier  string
	Seed  int64
	out   string
	start time.Time
	dl    time.Time

	mu         sync.Mutex
	violations []Violation
	seenKeys   map[string]bool
	samples    []interface{}
	notes      []string
	incomplete []string
	counters   map[string]int64
	distinct   map[string]map[uint64]struct{}
	stop       int32
	rules      []string
	assume     []string
}

// Start begins a job. The environment is set by check.py.
func Start(job string) *Run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{
		Job: job, Tier: os.Getenv("VERIF_TIER"), Seed: seed, out: os.Getenv("VERIF_OUT"),
		start: time.Now(), seenKeys: map[string]bool{}, counters: map[string]int64{},
		distinct: map[string]map[uint64]struct{}{},
	}
	budget := 240.0
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil && v > 0 {
		budget = v
	}
	r.dl = r.start.Add(time.Duration(budget * float64(time.Second)))
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(ioutil.Discard)
	}
	return r
}

// Thorough tells whether the deep tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Expired tells whether the time budget of the job is used up, or enough violations were found.
func (r *Run) Expired() bool {
	return atomic.LoadInt32(&r.stop) != 0 || time.Now().After(r.dl)
}

// Remaining returns the rest of the time budget.
func (r *Run) Remaining() time.Duration { return time.Until(r.dl) }

// Count adds to a named counter.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Distinct records a hash in a named set and tells whether it is new.
func (r *Run) Distinct(name string, h uint64) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.distinct[name]
	if s == nil {
		s = map[uint64]struct{}{}
		r.distinct[name] = s
	}
	if _, ok := s[h]; ok {
		return false
	}
	s[h] = struct{}{}
	return true
}

// Sample keeps a few written out cases for the evidence file.
func (r *Run) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Rule describes how cases are made.
func (r *Run) Rule(s string) { r.mu.Lock(); r.rules = append(r.rules, s); r.mu.Unlock() }

// Assume records an assumption.
func (r *Run) Assume(s string) { r.mu.Lock(); r.assume = append(r.assume, s); r.mu.Unlock() }

// Incomplete records that a bounded space was not enumerated completely.
func (r *Run) Incomplete(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.incomplete {
		if x == why {
			return
		}
	}
	r.incomplete = append(r.incomplete, why)
}

// Violation reports a violation. Only the first of each key is kept.
func (r *Run) Violation(key, msg string, replay interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seenKeys[key] {
		return
	}
	r.seenKeys[key] = true
	r.violations = append(r.violations, Violation{key, msg, replay})
	if len(r.violations) >= 40 {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Violations returns the number of violations so far.
func (r *Run) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.violations) }

type result struct {
	Job        string           `json:"job"`
	Counters   map[string]int64 `json:"counters"`
	Distinct   map[string]int64 `json:"distinct"`
	Samples    []interface{}    `json:"samples"`
	Rules      []string         `json:"rules"`
	Assume     []string         `json:"assumptions"`
	Incomplete []string         `json:"incomplete"`
	Violations []Violation      `json:"violations"`
	Wall       float64          `json:"wall_s"`
	Done       bool             `json:"done"`
}

// Finish writes the result of the job.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := map[string]int64{}
	for k, v := range r.distinct {
		d[k] = int64(len(v))
	}
	sort.Slice(r.violations, func(i, j int) bool { return r.violations[i].Key < r.violations[j].Key })
	res := result{r.Job, r.counters, d, r.samples, r.rules, r.assume, r.incomplete, r.violations, time.Since(r.start).Seconds(), true}
	buf, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	if r.out == "" {
		os.Stdout.Write(append(buf, '\n'))
		return
	}
	if err := ioutil.WriteFile(r.out, buf, 0o644); err != nil {
		panic(err)
	}
}

// Catch runs f and returns the panic it raised, if any, as a string.
func Catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
			st := string(debug.Stack())
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "verifkit") &&
					!strings.Contains(l, "_verif_test.go") {
					l = strings.TrimSpace(l)
					if i := strings.LastIndex(l, " +0x"); i > 0 {
						l = l[:i]
					}
					if i := strings.LastIndex(l, "/"); i > 0 {
						l = l[i+1:]
					}
					msg += " at " + l
					break
				}
			}
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Hash is FNV-1a over a string.
func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
