package verifobserve

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

const patience = 20 * time.Second

// TestC26Loop: the loop that follows the main chain, over a connection that may fail.
func TestC26Loop(t *testing.T) {
	r := verifkit.Start("loop")
	defer r.Finish()
	depth := r.Pick(3, 4)
	r.Rule(fmt.Sprintf("the loop that follows the main chain over a websocket: all sequences of %d events out of {next head, head three blocks on, the same head again, next head but a request fails, connection cut and restored}, then stopped: idle, while handing over a view, or with the node unreachable", depth))
	events := []string{"next head", "jump", "same head", "failing request", "cut"}
	st := r.Explore(verifkit.Options{Name: "loop", Bound: -1}, func(c *verifkit.Chooser) {
		var evs []int
		for i := 0; i < depth; i++ {
			evs = append(evs, c.Choose(len(events), "event"))
		}
		end := c.Choose(3, "end")
		h := richHistory(0)
		for len(h.node.Blocks) < 16 {
			h.block()
		}
		n := &verifeth.Node{Blocks: h.node.Blocks}
		link := n.Connect()
		defer link.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		out := make(chan *observe.MainChain)
		type result struct {
			panicked string
			err      error
		}
		done := make(chan result, 1)
		go func() {
			var err error
			p := verifkit.Catch(func() { err = observe.SyncMain(ctx, link.Calls, observe.NewMainChain(1), out) })
			done <- result{p, err}
		}()
		var trace []string
		fail := func(key, msg string) {
			rep := c.Replay("loop")
			rep["events"] = trace
			r.Violation("loop:"+key, fmt.Sprintf("%v: %s", trace, msg), rep)
		}
		subscribed := func(k int) bool {
			for t0 := time.Now(); n.Subscriptions() < k; time.Sleep(time.Millisecond) {
				if time.Since(t0) > patience {
					return false
				}
			}
			time.Sleep(2 * time.Millisecond)
			return true
		}
		if !subscribed(1) {
			fail("not-subscribed", "the loop did not subscribe")
			return
		}
		subs := 1
		head, last := uint64(1), uint64(0)
		expect := func() bool {
			select {
			case m := <-out:
				if m.CurrentBlock < last {
					fail("regression", fmt.Sprintf("view at %d after one at %d", m.CurrentBlock, last))
					return false
				}
				last = m.CurrentBlock
				if last != head-1 {
					fail("wrong-block", fmt.Sprintf("view at block %d, head %d, follow distance 1", last, head))
					return false
				}
				if viewText(m) != h.views[last] {
					fail("wrong-view", fmt.Sprintf("view at block %d:\n%s\nbut the chain has\n%s", last, viewText(m), h.views[last]))
					return false
				}
			case <-time.After(patience):
				fail("no-view", fmt.Sprintf("no view after head %d", head))
				return false
			case x := <-done:
				fail("ended", fmt.Sprintf("the loop ended: %v", x))
				done <- x
				return false
			}
			return true
		}
		ok := true
		for _, ev := range evs {
			trace = append(trace, events[ev])
			r.Count("transitions", 1)
			switch ev {
			case 0, 1, 2:
				if ev == 0 {
					head++
				} else if ev == 1 {
					head += 3
				}
				must(n.PushHead(head))
				ok = expect()
			case 3:
				head++
				failed := make(chan bool, 1)
				var once sync.Once
				n.Lock(func() {
					n.Fail = func(m string) error {
						if strings.HasPrefix(m, "getLogs:TransactionAdded") {
							var err error
							once.Do(func() {
								failed <- true
								err = errors.New("connection refused")
							})
							return err
						}
						return nil
					}
				})
				must(n.PushHead(head))
				select {
				case <-failed:
				case <-out:
					fail("view-with-error", "got a view though a request failed")
					ok = false
				case <-time.After(patience):
					fail("no-request", "no request after a new head")
					ok = false
				}
			case 4:
				link.Cut(n)
				subs++
				if ok = subscribed(subs); !ok {
					fail("not-resubscribed", "the loop did not subscribe again after its connection was cut")
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			r.Count("traces", 1)
		}
		trace = append(trace, []string{"stop", "stop while handing over", "stop while unreachable"}[end])
		switch end {
		case 1:
			head++
			must(n.PushHead(head))
			time.Sleep(50 * time.Millisecond)
		case 2:
			link.Down()
			time.Sleep(50 * time.Millisecond)
		}
		cancel()
		select {
		case x := <-done:
			if x.panicked != "" {
				fail("panic", "the loop crashed when it was stopped: "+x.panicked)
			} else if x.err == nil {
				fail("no-error", "the loop returned no error")
			}
		case <-time.After(patience):
			fail("not-stopped", "the loop did not stop when asked to")
		}
		r.Distinct("states", verifkit.Hash(fmt.Sprint(evs, end)))
	})
	r.Count("schedules", st.Executions)
}
