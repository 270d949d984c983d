package verifobserve

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// shWorld is the reference model of what a keyper knows about the Shuttermint chain.
type shWorld struct {
	keys    map[common.Address]string
	configs []string
	sigs    map[uint64][]sigEvent
	eons    []*eonWorld
}

type sigEvent struct {
	height int64
	text   string
}

type eonWorld struct {
	start string
	lists [5][]sigEvent // commitments, evals, accusations, apologies, shares
}

func (w *shWorld) text() string {
	var keys, sigs, eons []string
	for a, k := range w.keys {
		keys = append(keys, fmt.Sprintf("%x=%s", a, k))
	}
	for b, l := range w.sigs {
		s := ""
		for _, e := range l {
			s += e.text + ";"
		}
		if s != "" {
			sigs = append(sigs, fmt.Sprintf("%d: %s", b, s))
		}
	}
	for _, e := range w.eons {
		s := e.start
		for _, l := range e.lists {
			s += "\n   "
			for _, x := range l {
				s += x.text + ";"
			}
		}
		eons = append(eons, s)
	}
	sort.Strings(keys)
	sort.Strings(sigs)
	return fmt.Sprintf("keys %s\nconfigs %s\nsignatures %s\neons %s", strings.Join(keys, " "), strings.Join(w.configs, " "), strings.Join(sigs, " "), strings.Join(eons, "\n "))
}

func dump(x interface{}) string { return verifkit.Dump(x) }

// shText describes a view in the same form as the model.
func shText(s *observe.Shutter) string {
	w := &shWorld{keys: map[common.Address]string{}, sigs: map[uint64][]sigEvent{}}
	for a, k := range s.KeyperEncryptionKeys {
		w.keys[a] = fmt.Sprintf("%x", crypto.FromECDSAPub((*ecies.PublicKey)(k).ExportECDSA()))
	}
	for _, c := range s.BatchConfigs {
		w.configs = append(w.configs, dump(c))
	}
	for b, d := range s.Batches {
		if d.BatchIndex != b {
			w.configs = append(w.configs, "WRONG BATCH INDEX")
		}
		for _, e := range d.DecryptionSignatures {
			w.sigs[b] = append(w.sigs[b], sigEvent{e.Height, dump(e)})
		}
	}
	for _, e := range s.Eons {
		x := &eonWorld{start: fmt.Sprintf("%d from %d: %s", e.Eon, e.StartHeight, dump(e.StartEvent))}
		for _, v := range e.Commitments {
			x.lists[0] = append(x.lists[0], sigEvent{v.Height, dump(v)})
		}
		for _, v := range e.PolyEvals {
			x.lists[1] = append(x.lists[1], sigEvent{v.Height, dump(v)})
		}
		for _, v := range e.Accusations {
			x.lists[2] = append(x.lists[2], sigEvent{v.Height, dump(v)})
		}
		for _, v := range e.Apologies {
			x.lists[3] = append(x.lists[3], sigEvent{v.Height, dump(v)})
		}
		for _, v := range e.EpochSecretKeyShares {
			x.lists[4] = append(x.lists[4], sigEvent{v.Height, dump(v)})
		}
		w.eons = append(w.eons, x)
	}
	return w.text()
}

type abciEvent interface{ MakeABCIEvent() abcitypes.Event }

// shHistory is a Shuttermint chain under construction.
type shHistory struct {
	node  *veriftm.Node
	w     *shWorld
	views map[int64]string
	n     int
	ops   []string
	head  int64
	// all events of eons and signatures, for the filter check
	eonEvents []eonEvent
	sigEvents []sigAt
}

type eonEvent struct {
	eon    uint64
	list   int
	height int64
	text   string
}

type sigAt struct {
	batch uint64
	sigEvent
}

func newShHistory() *shHistory {
	h := &shHistory{node: veriftm.New(), w: &shWorld{keys: map[common.Address]string{}, sigs: map[uint64][]sigEvent{}}, views: map[int64]string{}}
	h.views[0] = h.w.text()
	h.views[-1] = h.views[0]
	return h
}

// block opens a new block.
func (h *shHistory) block() {
	h.head++
	h.views[h.head] = h.w.text()
}

// skip opens empty blocks.
func (h *shHistory) skip(n int) {
	for i := 0; i < n; i++ {
		h.block()
	}
}

var (
	gamma   = shcrypto.Gammas{new(bn256.G2).ScalarBaseMult(big.NewInt(7))}
	eshare  = (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(big.NewInt(5)))
	encKeys = func() (l []*ecies.PublicKey) {
		for i := 0; i < 3; i++ {
			k, err := crypto.ToECDSA(crypto.Keccak256([]byte{byte(i)}))
			must(err)
			l = append(l, &ecies.ImportECDSA(k).PublicKey)
		}
		return l
	}()
)

func init() {
	// the points are shared by all workers; marshalling normalises them in place
	gamma[0].Marshal()
	(*bn256.G1)(eshare).Marshal()
}

const nShOps = 13

var shOpNames = []string{"config", "check-in", "eon start", "commitment", "commitment in first eon", "evals", "accusation", "apology", "share", "share in first eon", "signature", "signature (other batch)", "config and eon start"}

func (h *shHistory) do(op int) {
	h.n++
	h.ops = append(h.ops, fmt.Sprintf("%s@%d", shOpNames[op], h.head))
	snd := acct(h.n % 4)
	eon := uint64(0)
	if k := len(h.w.eons); k > 0 {
		eon = uint64(k)
		if op == 4 || op == 9 {
			eon = 1
		}
	}
	var evs []abciEvent
	config := func() {
		evs = append(evs, shutterevents.BatchConfig{StartBatchIndex: uint64(10 * h.n), Keypers: []common.Address{acct(0), acct(h.n % 4)}, Threshold: 1, ConfigIndex: uint64(len(h.w.configs)), ConfigContractAddress: acct(8)})
	}
	start := func() {
		evs = append(evs, shutterevents.EonStarted{Eon: uint64(len(h.w.eons) + 1), BatchIndex: uint64(h.n)})
	}
	switch op {
	case 0:
		config()
	case 1:
		evs = append(evs, shutterevents.CheckIn{Sender: snd, EncryptionPublicKey: encKeys[h.n%3]})
	case 2:
		start()
	case 3, 4:
		g := gamma
		evs = append(evs, shutterevents.PolyCommitment{Eon: eon, Sender: snd, Gammas: &g})
	case 5:
		evs = append(evs, shutterevents.PolyEval{Eon: eon, Sender: snd, Receivers: []common.Address{acct(h.n % 3)}, EncryptedEvals: [][]byte{{byte(h.n)}}})
	case 6:
		evs = append(evs, shutterevents.Accusation{Eon: eon, Sender: snd, Accused: []common.Address{acct(h.n % 3)}})
	case 7:
		evs = append(evs, shutterevents.Apology{Eon: eon, Sender: snd, Accusers: []common.Address{acct(h.n % 3)}, PolyEval: []*big.Int{big.NewInt(int64(h.n))}})
	case 8, 9:
		evs = append(evs, shutterevents.EpochSecretKeyShare{Eon: eon, Epoch: uint64(h.n), Sender: snd, Share: eshare})
	case 10, 11:
		evs = append(evs, shutterevents.DecryptionSignature{BatchIndex: uint64(op - 10), Sender: snd, Signature: []byte{byte(h.n), byte(h.n >> 8)}})
	case 12:
		config()
		start()
	}
	res := abcitypes.ResponseDeliverTx{}
	for _, e := range evs {
		ae := e.MakeABCIEvent()
		res.Events = append(res.Events, ae)
		ev, err := shutterevents.MakeEvent(ae, h.head)
		must(err)
		w := h.w
		list := func(e uint64, i int, x string) {
			l := &w.eons[e-1].lists[i]
			*l = append(append([]sigEvent{}, *l...), sigEvent{h.head, x})
			h.eonEvents = append(h.eonEvents, eonEvent{e, i, h.head, x})
		}
		switch v := ev.(type) {
		case *shutterevents.BatchConfig:
			w.configs = append(w.configs, dump(*v))
		case *shutterevents.CheckIn:
			w.keys[v.Sender] = fmt.Sprintf("%x", crypto.FromECDSAPub(v.EncryptionPublicKey.ExportECDSA()))
		case *shutterevents.EonStarted:
			w.eons = append(w.eons, &eonWorld{start: fmt.Sprintf("%d from %d: %s", v.Eon, h.head, dump(*v))})
		case *shutterevents.PolyCommitment:
			list(v.Eon, 0, dump(*v))
		case *shutterevents.PolyEval:
			list(v.Eon, 1, dump(*v))
		case *shutterevents.Accusation:
			list(v.Eon, 2, dump(*v))
		case *shutterevents.Apology:
			list(v.Eon, 3, dump(*v))
		case *shutterevents.EpochSecretKeyShare:
			list(v.Eon, 4, dump(*v))
		case *shutterevents.DecryptionSignature:
			w.sigs[v.BatchIndex] = append(w.sigs[v.BatchIndex], sigEvent{h.head, dump(*v)})
			h.sigEvents = append(h.sigEvents, sigAt{v.BatchIndex, sigEvent{h.head, dump(*v)}})
		}
	}
	if op == 3 && h.n%2 == 0 {
		// something a keyper cannot read
		res.Events = append(res.Events, abcitypes.Event{Type: "shutter.unknown"}, abcitypes.Event{Type: res.Events[0].Type})
	}
	h.node.Txs[h.head] = append(h.node.Txs[h.head], abcitypes.ResponseDeliverTx{Code: 1, Log: "refused"}, res)
	h.views[h.head] = h.w.text()
}

// shFollower follows the chain.
type shFollower struct {
	h    *shHistory
	view *observe.Shutter
	old  []*observe.Shutter
	txt  []string
	last string // text of view, if known
}

func followSh(h *shHistory) *shFollower { return &shFollower{h: h, view: observe.NewShutter()} }

// step lets the keyper synchronise up to the block before the head.
func (f *shFollower) step(head int64, toHeight int64) (failed bool, key, msg string) {
	f.h.node.Lock(func() { f.h.node.Head = head })
	f.old = append(f.old, f.view)
	if f.txt = append(f.txt, f.last); f.last == "" {
		f.txt[len(f.txt)-1] = shText(f.view) + fmt.Sprint(f.view.CurrentBlock)
	}
	var next *observe.Shutter
	var err error
	want := head - 1
	if toHeight >= 0 {
		want = toHeight
		next, err = f.view.SyncToHeight(context.Background(), f.h.node, toHeight)
	} else {
		next, err = f.view.SyncToHead(context.Background(), f.h.node)
	}
	if err != nil {
		failed = true
	} else {
		f.view = next
		if next.CurrentBlock != want {
			return false, "wrong-block", fmt.Sprintf("the view is at block %d instead of %d", next.CurrentBlock, want)
		}
		if next.LastCommittedHeight != head-1 && toHeight >= 0 {
			return false, "wrong-committed-height", fmt.Sprintf("last committed height %d instead of %d", next.LastCommittedHeight, head-1)
		}
		got, want := shText(next), f.h.views[next.CurrentBlock]
		f.last = got + fmt.Sprint(next.CurrentBlock)
		if got != want {
			return false, "wrong-view", fmt.Sprintf("view at block %d:\n%s\nbut the chain has\n%s", next.CurrentBlock, got, want)
		}
	}
	return failed, "", ""
}

// unchanged checks that the views handed out stayed as they were.
func (f *shFollower) unchanged() (key, msg string) {
	for i, o := range f.old {
		if shText(o)+fmt.Sprint(o.CurrentBlock) != f.txt[i] {
			return "earlier-view-changed", fmt.Sprintf("the view handed out before step %d changed:\n%s\nbefore:\n%s", i, shText(o)+fmt.Sprint(o.CurrentBlock), f.txt[i])
		}
	}
	return "", ""
}

// TestC25: all short histories, all partitions into steps.
func TestC25(t *testing.T) {
	r := verifkit.Start("histories")
	defer r.Finish()
	depth := r.Pick(3, 4)
	r.Rule(fmt.Sprintf("all sequences of %d transactions out of %v after an eon started, each in a new block or in that of its predecessor, followed by all partitions of the blocks into synchronisation steps, the finest (thorough: all) also with storing and reloading the view in between", depth, shOpNames))
	st := r.Explore(verifkit.Options{Name: "histories", Bound: -1}, func(c *verifkit.Chooser) {
		h := newShHistory()
		h.block()
		h.do(12)
		for i := 0; i < depth; i++ {
			op := c.Choose(nShOps, "transaction")
			if !c.Bool("same block") {
				h.block()
			}
			h.do(op)
		}
		h.block()
		n := h.head
		for m := 0; m < 1<<uint(n-1); m++ {
			for _, store := range []bool{false, true} {
				if store && !r.Thorough() && m != 1<<uint(n-1)-1 {
					continue
				}
				f := followSh(h)
				var heads []int64
				for b := int64(1); b <= n; b++ {
					if b < n && m>>uint(b-1)&1 == 0 {
						continue
					}
					heads = append(heads, b)
					failed, key, msg := f.step(b, -1)
					r.Count("transitions", 1)
					if failed {
						key, msg = "failed-without-failure", "a synchronisation failed though no request did"
					}
					if key == "" && b == n {
						key, msg = f.unchanged()
					}
					if key != "" {
						rep := c.Replay("histories")
						rep["operations"], rep["heads"] = h.ops, heads
						r.Violation("histories:"+key, fmt.Sprintf("%v heads %v: %s", h.ops, heads, msg), rep)
						return
					}
					if store {
						s := new(observe.Shutter)
						roundTrip(f.view, s)
						f.view = s
					}
				}
				r.Count("traces", 1)
			}
		}
		r.Distinct("states", verifkit.Hash(h.views[n]))
		if h.n%7 == 0 {
			r.Sample(h.ops)
		}
	})
	r.Count("schedules", st.Executions)
}

// TestC25Pages: ranges and numbers of transactions around the page sizes.
func TestC25Pages(t *testing.T) {
	r := verifkit.Start("pages")
	defer r.Finish()
	r.Rule("transactions in numbers around the page size (0, 1, 99, 100, 101, 199, 200, 201, 250), in one block or spread, in the first, second or last block of ranges of lengths around the query size, in one step or two")
	numbers := []int{0, 1, 99, 100, 101, 199, 200, 201, 250}
	ranges := []int{1, 499, 500, 501, 1001}
	if r.Thorough() {
		ranges = []int{1, 2, 499, 500, 501, 502, 999, 1000, 1001, 1500}
	}
	st := r.Explore(verifkit.Options{Name: "pages", Bound: -1}, func(c *verifkit.Chooser) {
		num := numbers[c.Choose(len(numbers), "transactions")]
		rng := ranges[c.Choose(len(ranges), "blocks")]
		where := c.Choose(4, "where")
		h := newShHistory()
		h.block()
		h.do(12)
		mids := []int64{}
		add := func(k int) {
			for i := 0; i < k; i++ {
				h.do([]int{8, 10, 3, 11}[i%4])
			}
		}
		switch where {
		case 0: // first block of the range
			h.block()
			add(num)
			h.skip(rng)
		case 1: // last block of the range, and one after
			h.skip(rng)
			add(num)
			h.block()
			add(1)
			h.block()
		case 2: // spread over the range
			for i := 0; i < rng; i++ {
				h.block()
				add((num*(i+1))/rng - (num*i)/rng)
			}
			h.block()
		case 3: // half in the first and half in the last
			h.block()
			add(num / 2)
			h.skip(rng)
			add(num - num/2)
			h.block()
		}
		if c.Bool("two steps") {
			mids = append(mids, 2+int64(rng)/2)
		}
		f := followSh(h)
		for _, hd := range append(mids, h.head) {
			failed, key, msg := f.step(hd, -1)
			r.Count("transitions", 1)
			if failed {
				key, msg = "failed-without-failure", "a synchronisation failed though no request did"
			}
			if key != "" {
				rep := c.Replay("pages")
				r.Violation("pages:"+key, fmt.Sprintf("%d transactions in %d blocks, placement %d: %.3000s", num, rng, where, msg), rep)
				return
			}
		}
		r.Count("traces", 1)
		r.Distinct("states", verifkit.Hash(fmt.Sprint(num, rng, where, mids)))
	})
	r.Count("schedules", st.Executions)
}

var richSh = [][]int{
	{12, -1, 3, 1, -1, 5, 8, -1, 2, 10, -1, 4, 9, 6, -1, -1, 11, 7, 0, -1},
	{1, -1, 12, 8, -1, 10, 10, -1, 3, -1, -1, 9, 2, 5, -1, 8, 8, 11, -1},
}

func richShHistory(i int) *shHistory {
	h := newShHistory()
	h.block()
	for _, op := range richSh[i] {
		if op < 0 {
			h.block()
			continue
		}
		h.do(op)
	}
	return h
}

// TestC25Failures: every request may fail, views are reloaded, steps go to the head or some height.
func TestC25Failures(t *testing.T) {
	r := verifkit.Start("failures")
	defer r.Finish()
	r.Rule("two histories of 8 blocks followed in up to 5 attempts to all increasing choices of heads, with one failing request or reload anywhere, and in 3 attempts with two (thorough: 4, three)")
	shFailures(r, "failures-1", 1, 5, 2)
	shFailures(r, "failures-2", r.Pick(2, 3), r.Pick(3, 4), r.Pick(1, 2))
}

func shFailures(r *verifkit.Run, name string, bound, attempts, histories int) {
	st := r.Explore(verifkit.Options{Name: name, Bound: bound}, func(c *verifkit.Chooser) {
		k := c.Choose(histories, "history")
		h := richShHistory(k)
		f := followSh(h)
		var trace []string
		var failedNow bool
		h.node.Fail = func(m string) error {
			if c.Deviate(2, m) == 1 {
				failedNow = true
				trace = append(trace, m)
				return errors.New("connection refused")
			}
			return nil
		}
		head := int64(1)
		for i := 0; i < attempts; i++ {
			step := int64(c.Choose(3, "blocks"))
			head += step
			if head > h.head {
				head = h.head
			}
			to := int64(-1)
			if step == 2 && f.view.CurrentBlock <= head-2 && f.view.CurrentBlock >= 0 {
				if c.Bool("to height") {
					to = head - 2
				}
			}
			failedNow = false
			up := c.Deviate(2, "node is catching up") == 1
			h.node.CatchingUp = up
			trace = append(trace, fmt.Sprint(head, to))
			at := f.view.CurrentBlock
			failed, key, msg := f.step(head, to)
			r.Count("transitions", 1)
			if key == "" && failed != failedNow {
				key, msg = "failure-lost", fmt.Sprintf("a request failed: %v, but the synchronisation failed: %v", failedNow, failed)
			}
			if key == "" && !failed && f.view.CurrentBlock != at && f.view.IsSynced() == up {
				key, msg = "sync-progress", fmt.Sprintf("the node is catching up: %v, but the view says synced: %v", up, f.view.IsSynced())
			}
			if key != "" {
				rep := c.Replay(name)
				rep["operations"], rep["steps"] = h.ops, trace
				r.Violation("failures:"+key, fmt.Sprintf("history %d steps and failed requests %v: %s", k, trace, msg), rep)
				return
			}
			if c.Deviate(2, "store and reload") == 1 {
				s := new(observe.Shutter)
				roundTrip(f.view, s)
				f.view = s
			}
		}
		h.node.Fail = nil
		_, key, msg := f.step(h.head, -1)
		if key == "" {
			key, msg = f.unchanged()
		}
		if key != "" || f.view.CurrentBlock != h.head-1 {
			rep := c.Replay(name)
			rep["operations"], rep["steps"] = h.ops, trace
			r.Violation("failures:recovery:"+key, fmt.Sprintf("history %d steps and failed requests %v: %s; view at %d of %d", k, trace, msg, f.view.CurrentBlock, h.head-1), rep)
		}
		r.Count("traces", 1)
		r.Distinct("states", verifkit.Hash(fmt.Sprint(k, trace)))
	})
	r.Count("schedules", st.Executions)
}

// TestC25Filter: views are filtered while a keyper processes them.
func TestC25Filter(t *testing.T) {
	r := verifkit.Start("filter")
	defer r.Finish()
	depth := r.Pick(6, 7)
	r.Rule(fmt.Sprintf("a keyper that processes views, or leaves them for later because a node is not synced, while the follower applies its filters late, coalesced, or not at all: all sequences of %d events out of {one or two blocks and a view processed, one block and a view left, first queued filter applied, half steps executed}", depth))
	base := newShHistory()
	// the chain has every kind of event of both eons and batches in every block
	base.block()
	base.do(12)
	for b := 0; b < 2*depth+2; b++ {
		base.block()
		if b == 1 {
			base.do(2)
		}
		for _, op := range []int{3, 4, 5, 6, 7, 8, 9, 10, 11} {
			base.do(op)
		}
	}
	st := r.Explore(verifkit.Options{Name: "filter", Bound: -1}, func(c *verifkit.Chooser) {
		h := *base
		h.node = veriftm.New()
		h.node.Txs = base.node.Txs
		view := observe.NewShutter()
		var queue []observe.ShutterFilter
		syncHeight, half := int64(0), uint64(0)
		head := int64(2)
		var trace []string
		fail := func(key, msg string) {
			rep := c.Replay("filter")
			rep["steps"] = trace
			r.Violation("filter:"+key, fmt.Sprintf("%v: %s", trace, msg), rep)
		}
		var old []*observe.Shutter
		var oldTxt []string
		for i := 0; i < depth; i++ {
			n := 4
			if len(queue) > 0 {
				n = 5
			}
			ev := c.Choose(n, "event")
			trace = append(trace, []string{"block", "two blocks", "block left for later", "half steps", "filter"}[ev])
			r.Count("transitions", 1)
			switch ev {
			case 0, 1, 2:
				head++
				if ev == 1 {
					head++
				}
				h.node.Head = head
				v, err := view.SyncToHead(context.Background(), h.node)
				if err != nil {
					fail("failed", err.Error())
					return
				}
				view = v
				old, oldTxt = append(old, v), append(oldTxt, shText(v))
				if ev != 2 {
					// process: what is not processed yet has to be there, once and in order
					for _, e := range v.Eons {
						var got [5][]string
						for _, x := range e.GetPolyCommitments(syncHeight) {
							got[0] = append(got[0], dump(x))
						}
						for _, x := range e.GetPolyEvals(syncHeight) {
							got[1] = append(got[1], dump(x))
						}
						for _, x := range e.GetAccusations(syncHeight) {
							got[2] = append(got[2], dump(x))
						}
						for _, x := range e.GetApologies(syncHeight) {
							got[3] = append(got[3], dump(x))
						}
						for _, x := range e.GetEpochSecretKeyShares(syncHeight) {
							got[4] = append(got[4], dump(x))
						}
						var want [5][]string
						for _, x := range h.eonEvents {
							if x.eon == e.Eon && x.height >= syncHeight && x.height <= v.CurrentBlock {
								want[x.list] = append(want[x.list], x.text)
							}
						}
						for l := range want {
							if fmt.Sprint(got[l]) != fmt.Sprint(want[l]) {
								fail(fmt.Sprintf("events:%s", []string{"commitments", "evals", "accusations", "apologies", "shares"}[l]),
									fmt.Sprintf("of eon %d from height %d to %d the keyper sees\n%v\nbut the chain has\n%v", e.Eon, syncHeight, v.CurrentBlock, got[l], want[l]))
								return
							}
						}
					}
					// so do the signatures that were not processed yet, even those of
					// batches that are not needed any more for executing them
					for b := uint64(0); b < half/2 && b < 2; b++ {
						var got, want []string
						if d := v.Batches[b]; d != nil {
							for _, x := range d.DecryptionSignatures {
								if x.Height >= syncHeight {
									got = append(got, dump(x))
								}
							}
						}
						for _, x := range h.sigEvents {
							if x.batch == b && x.height >= syncHeight && x.height <= v.CurrentBlock {
								want = append(want, x.text)
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							fail("late-signatures", fmt.Sprintf("of batch %d (next half step %d) from height %d the keyper sees\n%v\nbut the chain has\n%v", b, half, syncHeight, got, want))
							return
						}
					}
					syncHeight = v.CurrentBlock + 1
				}
				for b := half / 2; b < 2; b++ {
					var got, want []string
					if d := v.Batches[b]; d != nil {
						for _, x := range d.DecryptionSignatures {
							got = append(got, dump(x))
						}
					}
					for _, x := range h.sigEvents {
						if x.batch == b && x.height <= v.CurrentBlock {
							want = append(want, x.text)
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						fail("signatures", fmt.Sprintf("of batch %d (next half step %d) the keyper sees\n%v\nbut the chain has\n%v", b, half, got, want))
						return
					}
				}
				if len(v.Eons) != len(viewEons(&h, v.CurrentBlock)) {
					fail("eons", fmt.Sprintf("%d eons at %d", len(v.Eons), v.CurrentBlock))
					return
				}
				if len(queue) < 3 {
					queue = append(queue, observe.ShutterFilter{SyncHeight: syncHeight, BatchIndex: half / 2})
				}
			case 3:
				half += 2
			case 4:
				view = view.ApplyFilter(queue[0])
				queue = queue[1:]
			}
		}
		for i, o := range old {
			if shText(o) != oldTxt[i] {
				fail("earlier-view-changed", fmt.Sprintf("view %d changed from\n%s\nto\n%s", i, oldTxt[i], shText(o)))
				return
			}
		}
		r.Count("traces", 1)
		r.Distinct("states", verifkit.Hash(shText(view)+fmt.Sprint(syncHeight, half, queue)))
	})
	r.Count("schedules", st.Executions)
}

func viewEons(h *shHistory, height int64) []int {
	var l []int
	for i := range h.w.eons {
		// eon 1 starts at block 1, eon 2 at block 3
		if int64(1+2*i) <= height {
			l = append(l, i)
		}
	}
	return l
}
