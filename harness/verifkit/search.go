package verifkit

import (
	"runtime"
	"sync"
	"time"
)

// State is a state of a Search. Clone must share nothing with the original that a step changes; Hash
// must cover everything that determines what can follow.
type State interface {
	Clone() State
	Hash() uint64
}

type searchNode struct {
	s       State
	choices []int
	spent   int
}

// Search visits all states reachable from the initial one, each once per number of deviations
// spent. step performs one step on a private copy of a state, with any number of choices; it returns
// false if nothing follows. All choices of a step are tried from every state.
func (r *Run) Search(o Options, init func() State, step func(s State, c *Chooser) bool) Stats {
	if choices, name, ok := replayRequest(); ok {
		if name == o.Name {
			msg := runOne(&Chooser{prefix: choices, bound: o.Bound}, func(c *Chooser) {
				s := init()
				for first := true; first || len(c.trace) < len(choices); first = false {
					if !step(s, c) {
						break
					}
				}
			})
			if msg != "" {
				r.Violation(o.Name+":"+msg, "unexpected "+msg, map[string]interface{}{"exploration": o.Name, "choices": choices})
			}
		}
		return Stats{Executions: 1, Complete: true}
	}
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	s0 := init()
	key := func(s State, spent int) uint64 { return s.Hash()*1099511628211 + uint64(spent) }
	visited := map[uint64]struct{}{key(s0, 0): {}}
	stack := []searchNode{{s: s0}}
	active := 0
	st := Stats{Complete: true}
	var end time.Time
	if o.Deadline > 0 {
		end = time.Now().Add(o.Deadline)
	}
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 {
					cond.Wait()
				}
				if len(stack) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if r.Expired() || (!end.IsZero() && time.Now().After(end)) || (o.MaxExec > 0 && st.Executions >= o.MaxExec) {
					st.Complete = false
					stack = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				nd := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()

				prefixes := [][]int{nil}
				steps, choices, pruned := int64(0), int64(0), int64(0)
				for len(prefixes) > 0 {
					p := prefixes[len(prefixes)-1]
					prefixes = prefixes[:len(prefixes)-1]
					c := &Chooser{prefix: p, bound: o.Bound, spent: nd.spent, base: nd.choices}
					s := nd.s.Clone()
					more := false
					msg := runOne(c, func(c *Chooser) { more = step(s, c) })
					if msg != "" {
						r.Violation(o.Name+":"+msg, "unexpected "+msg, map[string]interface{}{"exploration": o.Name, "choices": c.Choices()})
					}
					steps++
					choices += int64(len(c.trace) - len(p))
					spent := nd.spent
					for i := range c.trace {
						if i >= len(p) && !(c.costs[i] && o.Bound >= 0 && spent >= o.Bound) {
							for v := c.widths[i] - 1; v >= 1; v-- {
								prefixes = append(prefixes, append(append([]int(nil), c.trace[:i]...), v))
							}
						}
						if c.costs[i] && c.trace[i] != 0 {
							spent++
						}
					}
					if !more {
						continue
					}
					k := key(s, c.spent)
					mu.Lock()
					if _, ok := visited[k]; ok {
						pruned++
					} else {
						visited[k] = struct{}{}
						stack = append(stack, searchNode{s: s, choices: c.Choices(), spent: c.spent})
						cond.Signal()
					}
					mu.Unlock()
				}

				mu.Lock()
				st.Executions += steps
				st.Choices += choices
				st.Pruned += pruned
				active--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	st.States = int64(len(visited))
	if !st.Complete {
		r.Incomplete("search " + o.Name + " stopped by its time or execution limit")
	}
	return st
}
