package verifobserve

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// world is the reference model of the contracts' state.
type world struct {
	configs  []contract.BatchConfig
	half     uint64
	receipts map[uint64]contract.CipherExecutionReceipt
	skipped  map[uint64]bool
	txs      map[uint64][2][]string
	hash     map[uint64][2]common.Hash
	deposits map[common.Address]string
	accused  map[uint64]string
	appealed map[uint64]bool
}

func newWorld() *world {
	return &world{receipts: map[uint64]contract.CipherExecutionReceipt{}, skipped: map[uint64]bool{}, txs: map[uint64][2][]string{},
		hash: map[uint64][2]common.Hash{}, deposits: map[common.Address]string{}, accused: map[uint64]string{}, appealed: map[uint64]bool{}}
}

func (w *world) clone() *world {
	c := newWorld()
	c.configs = append(c.configs, w.configs...)
	c.half = w.half
	for k, v := range w.receipts {
		c.receipts[k] = v
	}
	for k, v := range w.skipped {
		c.skipped[k] = v
	}
	for k, v := range w.txs {
		c.txs[k] = [2][]string{append([]string{}, v[0]...), append([]string{}, v[1]...)}
	}
	for k, v := range w.hash {
		c.hash[k] = v
	}
	for k, v := range w.deposits {
		c.deposits[k] = v
	}
	for k, v := range w.accused {
		c.accused[k] = v
	}
	for k, v := range w.appealed {
		c.appealed[k] = v
	}
	return c
}

func describeConfig(c contract.BatchConfig) string {
	return fmt.Sprintf("{start %d@%d keypers %x threshold %d span %d sizes %d/%d gas %d fee %s %x %x %x timeout %d}", c.StartBatchIndex, c.StartBlockNumber,
		c.Keypers, c.Threshold, c.BatchSpan, c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.FeeReceiver, c.TargetAddress,
		c.TargetFunctionSelector, c.ExecutionTimeout, 0)
}

func describeReceipt(r contract.CipherExecutionReceipt) string {
	return fmt.Sprintf("{executed %v executor %x half %d %x %x}", r.Executed, r.Executor, r.HalfStep, r.CipherBatchHash, r.BatchHash)
}

func joinSorted(l []string) string {
	sort.Strings(l)
	return strings.Join(l, " ")
}

// text writes the state in a form that the view can be compared with.
func (w *world) text() string {
	var cfg, rec, txs, dep, acc []string
	for _, c := range w.configs {
		cfg = append(cfg, describeConfig(c))
	}
	for k, r := range w.receipts {
		rec = append(rec, fmt.Sprintf("%d:%s", k, describeReceipt(r)))
	}
	for k, l := range w.txs {
		txs = append(txs, fmt.Sprintf("%d:%q/%q %x", k, l[0], l[1], w.hash[k]))
	}
	for k, d := range w.deposits {
		dep = append(dep, fmt.Sprintf("%x:%s", k, d))
	}
	for k, a := range w.accused {
		acc = append(acc, fmt.Sprintf("%d:%s appealed %v", k, a, w.appealed[k]))
	}
	return fmt.Sprintf("configs %s\nhalf steps %d\nreceipts %s\ntxs %s\ndeposits %s\naccusations %s", strings.Join(cfg, " "), w.half,
		joinSorted(rec), joinSorted(txs), joinSorted(dep), joinSorted(acc))
}

// viewText writes what a keyper has seen in the same form. A receipt that says that nothing was
// executed is the same as none at all, if it is for the half step in question.
func viewText(m *observe.MainChain) string {
	var cfg, rec, txs, dep, acc []string
	for _, c := range m.BatchConfigs {
		cfg = append(cfg, describeConfig(c))
	}
	for k, r := range m.CipherExecutionReceipts {
		if r != nil {
			rec = append(rec, fmt.Sprintf("%d:%s", k, describeReceipt(*r)))
		}
	}
	for k, b := range m.Batches {
		e, p := []string{}, []string{}
		for _, t := range b.EncryptedTransactions {
			e = append(e, string(t))
		}
		for _, t := range b.PlainTransactions {
			p = append(p, string(t))
		}
		if len(e)+len(p) == 0 {
			continue
		}
		txs = append(txs, fmt.Sprintf("%d:%q/%q %x", k, e, p, [2]common.Hash{b.EncryptedBatchHash, b.PlainBatchHash}))
		if b.BatchIndex != k {
			txs = append(txs, "WRONG INDEX")
		}
	}
	for k, d := range m.Deposits {
		if d.Amount == nil && !d.Slashed && d.WithdrawalDelayBlocks == 0 && d.WithdrawalRequestedBlock == 0 {
			continue
		}
		dep = append(dep, fmt.Sprintf("%x:%v %d %d %v %v", k, d.Amount, d.WithdrawalDelayBlocks, d.WithdrawalRequestedBlock, d.Slashed, d.Account == k))
	}
	for k, a := range m.Accusations {
		acc = append(acc, fmt.Sprintf("%d:%x by %x at %d of %d appealed %v", k, a.Executor, a.Accuser, a.BlockNumber, a.HalfStep, a.Appealed))
	}
	return fmt.Sprintf("configs %s\nhalf steps %d\nreceipts %s\ntxs %s\ndeposits %s\naccusations %s", strings.Join(cfg, " "), m.NumExecutionHalfSteps,
		joinSorted(rec), joinSorted(txs), joinSorted(dep), joinSorted(acc))
}

func acct(i int) common.Address {
	var a common.Address
	a[0], a[19] = byte(i+1), byte(0xa0+i)
	return a
}

const nOps = 12

var opNames = []string{"nothing", "config", "cipher tx", "cipher tx (next batch)", "plain tx", "execute", "skip", "deposit", "slash", "accuse", "appeal", "unschedule"}

// history is a chain under construction.
type history struct {
	node  *verifeth.Node
	w     *world
	views []string // expected view after each block
	n     int
	ops   []string
}

func newHistory() *history {
	h := &history{node: &verifeth.Node{}, w: newWorld()}
	h.w.configs = []contract.BatchConfig{{FeeReceiver: acct(9)}}
	h.block()
	return h
}

// block opens the next block.
func (h *history) block() {
	b := &verifeth.Block{Receipts: map[uint64]contract.CipherExecutionReceipt{}}
	h.node.Blocks = append(h.node.Blocks, b)
	h.views = append(h.views, "")
	h.sync()
}

func (h *history) sync() {
	i := len(h.node.Blocks) - 1
	b := h.node.Blocks[i]
	w := h.w.clone()
	b.Configs, b.HalfSteps, b.Receipts = w.configs, w.half, w.receipts
	h.views[i] = w.text()
}

// cipherHalf is the latest executed cipher half step.
func (h *history) cipherHalf() (uint64, bool) {
	best, ok := uint64(0), false
	for k := range h.w.receipts {
		if !ok || k > best {
			best, ok = k, true
		}
	}
	return best, ok
}

func (h *history) enabled(op int) bool {
	c, executed := h.cipherHalf()
	switch op {
	case 3:
		return len(h.w.txs) > 0
	case 5:
		return h.w.half < 6
	case 6:
		return h.w.half%2 == 0 && h.w.half < 6
	case 9:
		return executed && h.w.accused[c] == ""
	case 10:
		return executed && h.w.accused[c] != "" && !h.w.appealed[c]
	case 11:
		return len(h.w.configs) > 1 && h.w.configs[len(h.w.configs)-1].StartBlockNumber > uint64(len(h.node.Blocks)-1)
	}
	return true
}

func (h *history) do(op int) {
	w := h.w
	blk := len(h.node.Blocks) - 1
	h.n++
	h.ops = append(h.ops, fmt.Sprintf("%s@%d", opNames[op], blk))
	switch op {
	case 1:
		start := uint64(blk + 2)
		if last := w.configs[len(w.configs)-1].StartBlockNumber; start <= last {
			start = last + 1
		}
		w.configs = append(w.configs, contract.BatchConfig{StartBatchIndex: uint64(h.n), StartBlockNumber: start, Keypers: []common.Address{acct(0), acct(1 + h.n%3)},
			Threshold: uint64(h.n % 2), BatchSpan: uint64(h.n), BatchSizeLimit: 7, TransactionSizeLimit: 8, TransactionGasLimit: 9, FeeReceiver: acct(4),
			TargetAddress: acct(5), TargetFunctionSelector: [4]byte{1, 2, 3, byte(h.n)}, ExecutionTimeout: 11})
	case 2, 3, 4:
		batch, kind := uint64(0), 0
		if op == 3 {
			batch = 1
		}
		if op == 4 {
			kind = 1
		}
		tx := fmt.Sprintf("tx%d", h.n)
		l := w.txs[batch]
		l[kind] = append(append([]string{}, l[kind]...), tx)
		w.txs[batch] = l
		hs := w.hash[batch]
		hs[kind] = common.BytesToHash([]byte("hash" + tx))
		w.hash[batch] = hs
		h.node.AddLog(blk, verifeth.BatcherAddr, "TransactionAdded", batch, uint8(kind), []byte(tx), [32]byte(hs[kind]))
	case 5:
		if w.half%2 == 0 {
			w.receipts[w.half] = contract.CipherExecutionReceipt{Executed: true, Executor: acct(h.n % 3), HalfStep: w.half,
				CipherBatchHash: w.hash[w.half/2][0], BatchHash: common.BytesToHash([]byte(fmt.Sprintf("result%d", h.n)))}
		}
		w.half++
	case 6:
		w.skipped[w.half] = true
		w.half++
	case 7, 8:
		a := acct(h.n % 2)
		w.deposits[a] = fmt.Sprintf("%d %d %d %v %v", h.n, 20+h.n, 30+h.n, op == 8, true)
		h.node.AddLog(blk, verifeth.DepositAddr, "DepositChanged", a, big.NewInt(int64(h.n)), uint64(20+h.n), uint64(30+h.n), false, op == 8)
	case 9:
		c, _ := h.cipherHalf()
		w.accused[c] = fmt.Sprintf("%x by %x at %d of %d", w.receipts[c].Executor, acct(7), blk, c)
		h.node.AddLog(blk, verifeth.SlasherAddr, "Accused", c, w.receipts[c].Executor, acct(7))
	case 10:
		c, _ := h.cipherHalf()
		w.appealed[c] = true
		h.node.AddLog(blk, verifeth.SlasherAddr, "Appealed", c, w.receipts[c].Executor)
	case 11:
		w.configs = w.configs[:len(w.configs)-1]
	}
	h.sync()
}

// follower is a keyper following the chain, and what it should have seen.
type follower struct {
	h      *history
	view   *observe.MainChain
	at     uint64
	first  bool
	old    []*observe.MainChain
	oldTxt []string
	caller *contract.Caller
	follow uint64
}

func follow(h *history, caller *contract.Caller, distance uint64) *follower {
	return &follower{h: h, view: observe.NewMainChain(distance), first: true, caller: caller, follow: distance}
}

var ctx = context.Background()

// step lets the keyper see a head; it returns what is wrong.
func (f *follower) step(head uint64) (failed bool, key, msg string) {
	var asked int
	f.h.node.Lock(func() { f.h.node.Head = head })
	_ = asked
	before := f.view
	f.old = append(f.old, before)
	f.oldTxt = append(f.oldTxt, viewText(before)+fmt.Sprint(before.CurrentBlock))
	next, err := before.SyncToHead(ctx, f.caller)
	if err != nil {
		failed = true
		if next != nil && next != before {
			return true, "view-with-error", "a failed synchronisation returned another view"
		}
	} else {
		b := uint64(0)
		if head > f.follow {
			b = head - f.follow
		}
		if b > f.at {
			f.at = b
		}
		f.first = false
		f.view = next
		if next.CurrentBlock != f.at {
			return false, "wrong-block", fmt.Sprintf("the view is at block %d instead of %d (head %d, follow distance %d)", next.CurrentBlock, f.at, head, f.follow)
		}
	}
	if !f.first {
		if got, want := viewText(f.view), f.h.views[f.at]; got != want {
			return failed, "wrong-view", fmt.Sprintf("view at block %d (head %d, follow distance %d):\n%s\nbut the chain has\n%s", f.at, head, f.follow, got, want)
		}
	}
	for i, o := range f.old {
		if viewText(o)+fmt.Sprint(o.CurrentBlock) != f.oldTxt[i] {
			return failed, "earlier-view-changed", fmt.Sprintf("the view handed out before step %d changed:\n%s\nbefore:\n%s", i, viewText(o)+fmt.Sprint(o.CurrentBlock), f.oldTxt[i])
		}
	}
	return failed, "", ""
}

// pool hands out callers whose node can be replaced.
var callers = sync.Pool{New: func() interface{} {
	n := &verifeth.Node{}
	return &nodeCaller{n, n.Caller(nil)}
}}

type nodeCaller struct {
	node   *verifeth.Node
	caller *contract.Caller
}

// use points the pooled node at a history.
func (nc *nodeCaller) use(h *history) {
	nc.node.Lock(func() {
		nc.node.Blocks, nc.node.Head, nc.node.Fail, nc.node.Syncing = h.node.Blocks, 0, nil, false
	})
	h.node = nc.node
}

func TestC26(t *testing.T) {
	r := verifkit.Start("main-chain")
	defer r.Finish()
	r.Rule(fmt.Sprintf("histories: all sequences of operations out of %v, each in a new block or in the block of its predecessor, followed by partitions of the blocks into sync steps with follow distance 0, and by one step per block with follow distance 1", opNames[1:]))
	if r.Thorough() {
		allHistories(r, "histories-4", 4, true, true)
		allHistories(r, "histories-5", 5, false, false)
	} else {
		allHistories(r, "histories-3", 3, true, true)
		allHistories(r, "histories-4", 4, false, false)
	}
}

// allHistories follows all histories of a number of operations, with all partitions into steps or
// only the coarsest, the finest and one in between.
func allHistories(r *verifkit.Run, name string, depth int, join, allPartitions bool) {
	r.Rule(fmt.Sprintf("%s: operations in shared blocks: %v, all partitions into steps: %v", name, join, allPartitions))
	st := r.Explore(verifkit.Options{Name: name, Bound: -1}, func(c *verifkit.Chooser) {
		h := newHistory()
		h.block()
		for i := 0; i < depth; i++ {
			var en []int
			for op := 1; op < nOps; op++ {
				if h.enabled(op) {
					en = append(en, op)
				}
			}
			op := en[c.Choose(len(en), "operation")]
			if i > 0 && !(join && c.Bool("same block")) {
				h.block()
			}
			h.do(op)
		}
		h.block()
		n := len(h.node.Blocks) - 1
		nc := callers.Get().(*nodeCaller)
		defer callers.Put(nc)
		nc.use(h)
		run := func(distance uint64, heads []uint64) {
			f := follow(h, nc.caller, distance)
			for _, hd := range heads {
				failed, key, msg := f.step(hd)
				r.Count("transitions", 1)
				if failed {
					key, msg = "failed-without-failure", "a synchronisation failed though no request did"
				}
				if key != "" {
					rep := c.Replay(name)
					rep["operations"], rep["heads"] = h.ops, heads
					r.Violation("histories:"+key, fmt.Sprintf("%v heads %v: %s", h.ops, heads, msg), rep)
					return
				}
			}
			r.Count("traces", 1)
		}
		parts := []int{0, 1<<uint(n-1) - 1, 2}
		if allPartitions {
			parts = nil
			for m := 0; m < 1<<uint(n-1); m++ {
				parts = append(parts, m)
			}
		}
		for _, m := range parts {
			var heads []uint64
			for b := 1; b <= n; b++ {
				if b == n || m>>uint(b-1)&1 == 1 {
					heads = append(heads, uint64(b))
				}
			}
			run(0, heads)
		}
		heads := []uint64{}
		for b := 1; b <= n; b++ {
			heads = append(heads, uint64(b))
		}
		run(1, heads)
		r.Distinct("states", verifkit.Hash(strings.Join(h.views, "|")))
		if strings.Contains(strings.Join(h.ops, ""), "accuse") {
			r.Sample(h.ops)
		}
	})
	r.Count("schedules", st.Executions)
}

// rich are fixed histories with everything in them.
var rich = [][]int{
	{1, -1, 2, 3, -1, 5, 4, -1, 9, 7, -1, 5, 10, 2, -1, 5, 8, -1, 1, 2},
	{2, 4, -1, 6, 7, -1, 5, -1, 5, 2, -1, 9, 5, -1, 6, 10, 7, -1, 3, 1},
	{7, 1, 1, -1, 5, 2, -1, 9, 11, -1, 5, 6, 1, 10, 5, 5, -1, 9, 8, -1, 10, 2, 1, -1, 11, 2},
}

func richHistory(i int) *history {
	h := newHistory()
	h.block()
	for _, op := range rich[i] {
		if op < 0 {
			h.block()
			continue
		}
		if !h.enabled(op) {
			panic(fmt.Sprintf("history %d: %s is not possible after %v", i, opNames[op], h.ops))
		}
		h.do(op)
	}
	return h
}

// TestC26Heads: all head observation sequences, regressions and repeats included.
func TestC26Heads(t *testing.T) {
	r := verifkit.Start("heads")
	defer r.Finish()
	depth := r.Pick(4, 5)
	r.Rule(fmt.Sprintf("three histories of 8 to 9 blocks with all operations; all sequences of %d observed heads (repeats and regressions included) and follow distances 0, 1 and 3, each view stored and reloaded or not", depth))
	st := r.Explore(verifkit.Options{Name: "heads", Bound: -1}, func(c *verifkit.Chooser) {
		k := c.Choose(len(rich), "history")
		h := richHistory(k)
		n := len(h.node.Blocks) - 1
		distance := []uint64{0, 1, 3}[c.Choose(3, "follow distance")]
		store := c.Bool("store and reload")
		nc := callers.Get().(*nodeCaller)
		defer callers.Put(nc)
		nc.use(h)
		f := follow(h, nc.caller, distance)
		var heads []uint64
		for i := 0; i < depth; i++ {
			hd := uint64(1 + c.Choose(n, "head"))
			heads = append(heads, hd)
			failed, key, msg := f.step(hd)
			r.Count("transitions", 1)
			if failed {
				key, msg = "failed-without-failure", "a synchronisation failed though no request did"
			}
			if key != "" {
				rep := c.Replay("heads")
				rep["operations"], rep["heads"] = h.ops, heads
				r.Violation("heads:"+key, fmt.Sprintf("history %d heads %v: %s", k, heads, msg), rep)
				return
			}
			if store {
				m := new(observe.MainChain)
				roundTrip(f.view, m)
				f.view = m
			}
		}
		r.Count("traces", 1)
		r.Distinct("states", verifkit.Hash(fmt.Sprint(k, distance, heads, f.view.CurrentBlock)))
	})
	r.Count("schedules", st.Executions)
}

var errNode = errors.New("connection reset by peer")

// TestC26Failures: every request may fail.
func TestC26Failures(t *testing.T) {
	r := verifkit.Start("failures")
	defer r.Finish()
	r.Rule("the same histories followed in up to 6 attempts to chosen heads, with one failing request anywhere, and one of them (thorough: all) with two")
	failures(r, "failures-1", 1, len(rich), 2)
	failures(r, "failures-2", 2, r.Pick(1, len(rich)), r.Pick(1, 2))
}

func failures(r *verifkit.Run, name string, bound, histories, variants int) {
	st := r.Explore(verifkit.Options{Name: name, Bound: bound}, func(c *verifkit.Chooser) {
		k := c.Choose(histories, "history")
		h := richHistory(k)
		n := uint64(len(h.node.Blocks) - 1)
		nc := callers.Get().(*nodeCaller)
		defer callers.Put(nc)
		nc.use(h)
		f := follow(h, nc.caller, 1)
		var trace []string
		var failedNow bool
		nc.node.Lock(func() {
			nc.node.Fail = func(m string) error {
				if c.Deviate(2, m) == 1 {
					failedNow = true
					trace = append(trace, m)
					return errNode
				}
				return nil
			}
		})
		mid := uint64(2 + 3*c.Choose(variants, "middle"))
		for _, hd := range []uint64{mid, mid + 2, n, n, n} {
			failedNow = false
			var syncing bool
			if hd == mid+2 {
				syncing = c.Choose(variants, "node is syncing") == 1
			}
			nc.node.Lock(func() { nc.node.Syncing = syncing })
			trace = append(trace, fmt.Sprint(hd))
			failed, key, msg := f.step(hd)
			r.Count("transitions", 1)
			if key == "" && failedNow != failed {
				key, msg = "failure-lost", fmt.Sprintf("a request failed: %v, but the synchronisation failed: %v", failedNow, failed)
			}
			if key == "" && !failed && hd != n && f.view.IsSynced() == syncing {
				key, msg = "sync-progress", fmt.Sprintf("the node is syncing: %v, but the view says synced: %v", syncing, f.view.IsSynced())
			}
			if key != "" {
				rep := c.Replay(name)
				rep["operations"], rep["steps"] = h.ops, trace
				r.Violation("failures:"+key, fmt.Sprintf("history %d steps and failed requests %v: %s", k, trace, msg), rep)
				return
			}
		}
		nc.node.Lock(func() { nc.node.Fail = nil })
		if _, key, msg := f.step(n); key != "" || f.view.CurrentBlock != n-1 {
			rep := c.Replay(name)
			rep["operations"], rep["steps"] = h.ops, trace
			r.Violation("failures:recovery:"+key, fmt.Sprintf("history %d steps and failed requests %v: %s; view at %d of %d", k, trace, msg, f.view.CurrentBlock, n-1), rep)
		}
		r.Count("traces", 1)
		r.Distinct("states", verifkit.Hash(fmt.Sprint(k, trace)))
	})
	r.Count("schedules", st.Executions)
}
