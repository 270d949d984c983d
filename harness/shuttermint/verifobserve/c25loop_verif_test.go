package verifobserve

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/core"
	rpcserver "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	"github.com/tendermint/tendermint/state/txindex/kv"
	tmdb "github.com/tendermint/tm-db"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// TestC25Loop: the loop that follows the Shuttermint chain.
func TestC25Loop(t *testing.T) {
	r := verifkit.Start("loop")
	defer r.Finish()
	depth := r.Pick(3, 4)
	events := []string{"block", "two blocks", "same head", "failing request", "filter", "silence"}
	r.Rule(fmt.Sprintf("the loop that follows the Shuttermint chain: all sequences of %d events out of %v (silence, until it subscribes again, at most once and first), then stopped: idle or while handing over a view", depth, events))
	st := r.Explore(verifkit.Options{Name: "loop", Bound: -1, Workers: 64}, func(c *verifkit.Chooser) {
		var evs []int
		for i := 0; i < depth; i++ {
			n := len(events) - 1
			if i == 0 {
				n++
			}
			evs = append(evs, c.Choose(n, "event"))
		}
		end := c.Choose(2, "end")
		h := richShHistory(0)
		h.skip(10)
		n := h.node
		n.Head = 1
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		out := make(chan *observe.Shutter)
		filters := make(chan observe.ShutterFilter, 3)
		type result struct {
			panicked string
			err      error
		}
		done := make(chan result, 1)
		go func() {
			var err error
			p := verifkit.Catch(func() { err = observe.SyncShutter(ctx, n, observe.NewShutter(), out, filters) })
			done <- result{p, err}
		}()
		var trace []string
		fail := func(key, msg string) {
			rep := c.Replay("loop")
			rep["events"] = trace
			r.Violation("loop:"+key, fmt.Sprintf("%v: %s", trace, msg), rep)
		}
		subscribed := func(k int) bool {
			for t0 := time.Now(); n.Subscriptions() < k; time.Sleep(time.Millisecond) {
				if time.Since(t0) > 2*patience {
					return false
				}
			}
			return true
		}
		if !subscribed(1) {
			fail("not-subscribed", "the loop did not subscribe")
			return
		}
		subs, head, filtered := 1, int64(1), int64(0)
		ok := true
		var seen int64 = -1
		for _, ev := range evs {
			trace = append(trace, events[ev])
			r.Count("transitions", 1)
			switch ev {
			case 0, 1, 2:
				head += []int64{1, 2, 0}[ev]
				n.Push(head)
				select {
				case v := <-out:
					if v.CurrentBlock != head-1 {
						fail("wrong-block", fmt.Sprintf("view at block %d, last committed %d", v.CurrentBlock, head-1))
						ok = false
						break
					}
					if filtered == 0 && shText(v) != h.views[head-1] {
						fail("wrong-view", fmt.Sprintf("view at block %d:\n%s\nbut the chain has\n%s", v.CurrentBlock, shText(v), h.views[head-1]))
						ok = false
					}
					// nothing at or above the filtered height is missing
					for _, e := range v.Eons {
						var got, want []string
						for _, x := range e.GetEpochSecretKeyShares(filtered) {
							got = append(got, dump(x))
						}
						for _, x := range e.GetPolyCommitments(filtered) {
							got = append(got, dump(x))
						}
						for _, l := range []int{4, 0} {
							for _, x := range h.eonEvents {
								if x.eon == e.Eon && x.height >= filtered && x.height <= v.CurrentBlock && x.list == l {
									want = append(want, x.text)
								}
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							fail("events", fmt.Sprintf("of eon %d from height %d to %d the keyper sees\n%v\nbut the chain has\n%v", e.Eon, filtered, v.CurrentBlock, got, want))
							ok = false
						}
					}
					seen = v.CurrentBlock
				case <-time.After(patience):
					fail("no-view", fmt.Sprintf("no view after head %d", head))
					ok = false
				case x := <-done:
					fail("ended", fmt.Sprintf("the loop ended: %v", x))
					done <- x
					ok = false
				}
			case 3:
				head++
				failed := make(chan bool, 1)
				var once sync.Once
				n.Lock(func() {
					n.Fail = func(m string) error {
						var err error
						if m == "txsearch" {
							once.Do(func() {
								failed <- true
								err = errors.New("connection refused")
							})
						}
						return err
					}
				})
				n.Push(head)
				select {
				case <-failed:
				case <-out:
					fail("view-with-error", "got a view though a request failed")
					ok = false
				case <-time.After(patience):
					fail("no-request", "no request after a new block")
					ok = false
				}
			case 4:
				filtered = seen + 1
				filters <- observe.ShutterFilter{SyncHeight: filtered}
				for len(filters) > 0 {
					time.Sleep(time.Millisecond)
				}
			case 5:
				subs++
				if ok = subscribed(subs); !ok {
					fail("not-resubscribed", "the loop did not subscribe again after a long silence")
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			r.Count("traces", 1)
		}
		trace = append(trace, []string{"stop", "stop while handing over"}[end])
		if end == 1 {
			head++
			n.Push(head)
			time.Sleep(20 * time.Millisecond)
		}
		cancel()
		select {
		case x := <-done:
			if x.panicked != "" {
				fail("panic", "the loop crashed when it was stopped: "+x.panicked)
			} else if x.err == nil {
				fail("no-error", "the loop returned no error")
			}
		case <-time.After(patience):
			fail("not-stopped", "the loop did not stop when asked to")
		}
		r.Distinct("states", verifkit.Hash(fmt.Sprint(evs, end)))
	})
	r.Count("schedules", st.Executions)
}

// TestC25Node compares the stand-in's transaction search with that of tendermint.
func TestC25Node(t *testing.T) {
	r := verifkit.Start("node-conformance")
	defer r.Finish()
	r.Rule("all height ranges, page numbers and page sizes of a chain of 12 blocks with 0 to 60 transactions each, against tendermint's own transaction index and search")
	h := newShHistory()
	idx := kv.NewTxIndex(tmdb.NewMemDB())
	for b := 0; b < 12; b++ {
		h.block()
		if b == 0 {
			h.do(12)
		}
		for i := 0; i < []int{0, 1, 60, 3, 0, 0, 41, 2, 7, 60, 60, 1}[b]; i++ {
			h.do(8)
		}
		for i, x := range h.node.Txs[h.head] {
			must(idx.Index(&abcitypes.TxResult{Height: h.head, Index: uint32(i), Tx: []byte(fmt.Sprint(h.head, i)), Result: x}))
		}
	}
	h.node.Head = h.head
	core.SetEnvironment(&core.Environment{TxIndexer: idx})
	for lo := int64(0); lo <= h.head+1; lo++ {
		for hi := lo - 1; hi <= h.head+1; hi++ {
			q := fmt.Sprintf("tx.height >= %d and tx.height <= %d", lo, hi)
			for page := 0; page < 5; page++ {
				for _, per := range []int{0, 1, 30, 99, 100, 101, 500} {
					if per == 1 && (lo > 1 || hi > 3) {
						continue
					}
					pg, pp := page, per
					want, werr := core.TxSearch(&rpcserver.Context{}, q, false, &pg, &pp, "")
					got, gerr := h.node.TxSearch(context.Background(), q, false, &pg, &pp, "")
					r.Count("evaluations", 1)
					same := (werr == nil) == (gerr == nil)
					if same && werr == nil {
						same = want.TotalCount == got.TotalCount && len(want.Txs) == len(got.Txs)
						for i := 0; same && i < len(want.Txs); i++ {
							same = want.Txs[i].Height == got.Txs[i].Height && want.Txs[i].Index == got.Txs[i].Index
						}
					}
					if !same {
						panic(fmt.Sprintf("verifkit: the stand-in's search differs from tendermint's: %s page %d size %d: %v %v, %v %v", q, page, per, got, gerr, want, werr))
					}
				}
			}
		}
	}
	r.Count("traces", 1)
}
