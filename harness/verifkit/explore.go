package verifkit

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Chooser resolves the nondeterminism of one execution. Every call of Choose is a branching point;
// Explore enumerates all sequences of results.
type Chooser struct {
	prefix  []int
	base    []int // choices of the steps before, in a Search
	trace   []int
	widths  []int
	costs   []bool // does a non-zero choice here cost a deviation?
	labels  []string
	spent   int
	bound   int
	pruned  bool
	visited func(uint64) bool
}

type prunedT struct{}

// Choose returns a number in [0, n).
func (c *Chooser) Choose(n int, label string) int { return c.choose(n, label, false) }

// Bool chooses between false (first) and true.
func (c *Chooser) Bool(label string) bool { return c.choose(2, label, false) == 1 }

// Deviate is like Choose, but results other than 0 each use up one unit of the deviation bound; once
// it is used up the result is always 0.
func (c *Chooser) Deviate(n int, label string) int {
	if c.bound >= 0 && c.spent >= c.bound {
		return 0
	}
	return c.choose(n, label, true)
}

func (c *Chooser) choose(n int, label string, cost bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("verifkit: Choose(%d, %q)", n, label))
	}
	if n == 1 {
		return 0
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("verifkit: nondeterministic execution: choice %d of %d at %q", v, n, label))
		}
	}
	c.trace = append(c.trace, v)
	c.widths = append(c.widths, n)
	c.costs = append(c.costs, cost)
	c.labels = append(c.labels, label)
	if cost && v != 0 {
		c.spent++
	}
	return v
}

// Spent is the number of deviations used so far.
func (c *Chooser) Spent() int { return c.spent }

// Prune ends this execution here (only past its prefix, so that nothing is lost) if the state was
// seen before. The state must determine the rest of the execution, the remaining bound included.
func (c *Chooser) Prune(state uint64) {
	if c.visited == nil || len(c.trace) < len(c.prefix) {
		return
	}
	state = state*1099511628211 + uint64(c.spent)
	if !c.visited(state) {
		c.pruned = true
		panic(prunedT{})
	}
}

// Trace returns the choices made, with labels, for replay files.
func (c *Chooser) Trace() []string {
	var r []string
	for i, v := range c.trace {
		r = append(r, fmt.Sprintf("%s=%d/%d", c.labels[i], v, c.widths[i]))
	}
	return r
}

// Choices returns the raw choice sequence.
func (c *Chooser) Choices() []int { return append(append([]int(nil), c.base...), c.trace...) }

// Options of an exploration.
type Options struct {
	Bound    int   // deviation bound, -1 for none
	MaxExec  int64 // 0 for none
	Workers  int
	Dedup    bool // enable Prune
	Name     string
	Deadline time.Duration // of this exploration only; 0 for none
}

// Stats of an exploration.
type Stats struct {
	Executions int64
	Choices    int64
	Pruned     int64
	States     int64
	Complete   bool
}

// branches are the executions that branch off an execution at choices that cost a deviation, or at
// those that do not.
type branches struct {
	first  bool // the very first execution
	trace  []int
	widths []int
	costs  []bool
	cost   bool
	i, v   int // the next one takes v at choice i
	from   int
}

// level has the executions with the same number of deviations.
type level struct{ pending []*branches }

func (l *level) add(c *Chooser, from int, cost bool) {
	b := &branches{trace: c.trace, widths: c.widths, costs: c.costs, cost: cost, i: len(c.trace) - 1, v: 0, from: from}
	if b.advance() {
		l.pending = append(l.pending, b)
	}
}

// advance moves to the next branch: the later choices first.
func (b *branches) advance() bool {
	for b.v++; b.i >= b.from; b.i, b.v = b.i-1, 1 {
		if b.costs[b.i] == b.cost && b.v < b.widths[b.i] {
			return true
		}
	}
	return false
}

func (l *level) next() ([]int, bool) {
	if len(l.pending) == 0 {
		return nil, false
	}
	b := l.pending[len(l.pending)-1]
	if b.first {
		l.pending = l.pending[:len(l.pending)-1]
		return nil, true
	}
	p := make([]int, b.i+1)
	copy(p, b.trace[:b.i])
	p[b.i] = b.v
	if !b.advance() {
		l.pending = l.pending[:len(l.pending)-1]
	}
	return p, true
}

// Explore runs f on every choice sequence. A panic in f that is not a prune is reported as a
// violation with key "panic:..." unless f handles it.
func (r *Run) Explore(o Options, f func(c *Chooser)) Stats {
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	if choices, name, ok := replayRequest(); ok {
		if name == o.Name {
			if msg := runOne(&Chooser{prefix: choices, bound: o.Bound}, f); msg != "" {
				r.Violation(o.Name+":"+msg, "unexpected "+msg, map[string]interface{}{"exploration": o.Name, "choices": choices})
			}
		}
		return Stats{Executions: 1, Complete: true}
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	// what is left to do, by the number of deviations used: executions with fewer deviations first
	levels := []*level{{pending: []*branches{{first: true}}}}
	next := func() []int {
		for _, l := range levels {
			if p, ok := l.next(); ok {
				return p
			}
		}
		return nil
	}
	left := func() bool {
		for _, l := range levels {
			if len(l.pending) > 0 {
				return true
			}
		}
		return false
	}
	active := 0
	var st Stats
	st.Complete = true
	var vmu sync.Mutex
	visited := map[uint64]struct{}{}
	visit := func(h uint64) bool {
		vmu.Lock()
		defer vmu.Unlock()
		if _, ok := visited[h]; ok {
			return false
		}
		visited[h] = struct{}{}
		return true
	}
	var end time.Time
	if o.Deadline > 0 {
		end = time.Now().Add(o.Deadline)
	}
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for !left() && active > 0 {
					cond.Wait()
				}
				if !left() {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if r.Expired() || (o.MaxExec > 0 && st.Executions >= o.MaxExec) || (!end.IsZero() && time.Now().After(end)) {
					st.Complete = false
					levels = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := next()
				active++
				st.Executions++
				mu.Unlock()

				c := &Chooser{prefix: p, bound: o.Bound}
				if o.Dedup {
					c.visited = visit
				}
				msg := runOne(c, f)
				if strings.Contains(msg, "verifkit: nondeterministic") {
					r.Incomplete("an execution of " + o.Name + " could not be repeated")
				} else if msg != "" {
					r.Violation(o.Name+":"+msg, "unexpected "+msg, map[string]interface{}{"exploration": o.Name, "choices": c.trace, "trace": c.Trace()})
				}

				mu.Lock()
				st.Choices += int64(len(c.trace) - len(p))
				if c.pruned {
					st.Pruned++
				}
				if levels != nil && len(c.trace) > len(p) {
					for len(levels) < c.spent+2 {
						levels = append(levels, &level{})
					}
					levels[c.spent].add(c, len(p), false)
					if o.Bound < 0 || c.spent < o.Bound {
						levels[c.spent+1].add(c, len(p), true)
					}
				}
				active--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	st.States = int64(len(visited))
	if !st.Complete {
		r.Incomplete("exploration " + o.Name + " stopped by its time or execution limit")
	}
	return st
}

func runOne(c *Chooser, f func(c *Chooser)) (msg string) {
	return Catch(func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(prunedT); ok {
					return
				}
				panic(e)
			}
		}()
		f(c)
	})
}

// replayRequest reads the file named by VERIF_REPLAY, as written by check.py for a violation.
func replayRequest() (choices []int, name string, ok bool) {
	path := os.Getenv("VERIF_REPLAY")
	if path == "" {
		return nil, "", false
	}
	buf, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f struct {
		Replay struct {
			Exploration string
			Choices     []int
		}
	}
	if err := json.Unmarshal(buf, &f); err != nil {
		panic(err)
	}
	return f.Replay.Choices, f.Replay.Exploration, true
}

// Replay builds the replay information of the current execution.
func (c *Chooser) Replay(exploration string) map[string]interface{} {
	return map[string]interface{}{"exploration": exploration, "choices": c.Choices(), "trace": c.Trace()}
}

// Replay runs f once on the given choices.
func Replay(choices []int, f func(c *Chooser)) string {
	return runOne(&Chooser{prefix: choices, bound: -1}, f)
}

// Parallel runs f(i) for all i in [0, n) on all processors until the run expires; it returns how
// many were run.
func (r *Run) Parallel(n int, f func(i int)) int {
	var mu sync.Mutex
	next, done := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				if i >= n || r.Expired() {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				msg := Catch(func() { f(i) })
				if msg != "" {
					r.Violation(r.Job+":"+msg, fmt.Sprintf("unexpected %s in case %d", msg, i), map[string]interface{}{"case": i})
				}
				mu.Lock()
				done++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if done < n {
		r.Incomplete(fmt.Sprintf("%s: %d of %d cases run", r.Job, done, n))
	}
	return done
}
