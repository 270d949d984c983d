//go:build go1.25
// +build go1.25

package verifdecide

import (
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/core/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// genesis is a chain whose first eon has started.
func (sp *runSpec) genesis(checkedIn bool) *dkgChain {
	g := verifapp.Genesis{Keypers: sp.cfgs[1].keypers, Threshold: len(sp.cfgs[1].keypers)}
	ch := &dkgChain{app: g.NewApp(), node: veriftm.New(), digest: verifkit.Hash(sp.name), nonces: map[int]uint64{}}
	var txs []dkgTx
	for _, i := range sp.cfgs[1].keypers {
		if k := verifapp.K(i); checkedIn || i != sp.me {
			txs = append(txs, newTx(i, verifapp.MCheckIn(k.Val, k), 0))
		}
	}
	ch = ch.block(txs)
	txs = nil
	c := sp.cfgs[1]
	for _, i := range sp.cfgs[1].keypers {
		m := verifapp.MConfigVote(verifapp.CfgSpec{Index: 1, Start: c.start, Threshold: c.threshold, Keypers: c.keypers})
		m.GetBatchConfig().ConfigContractAddress = sp.config(i).ConfigContractAddress.Bytes()
		txs = append(txs, newTx(i, m, 0))
	}
	return ch.block(txs)
}

// beginning is the start with fresh files.
func (sp *runSpec) beginning(checkedIn bool) func(w *runWorld) {
	ch := sp.genesis(checkedIn)
	return func(w *runWorld) {
		w.ch = ch
		for _, i := range sp.others {
			w.others = append(w.others, &dkgNode{who: i, cfg: sp.config(i), snap: newSnap(keyper.NewState()), view: newView(observe.NewShutter(), 0)})
		}
	}
}

// sameKeys checks that the keyper ends with the same results of key generation as the others.
func sameKeys(w *runWorld, fail func(key, msg string)) {
	mine := map[uint64]*keyper.EKG{}
	for _, k := range w.state().EKGs {
		mine[k.Eon] = k
	}
	for _, n := range w.others {
		for _, k := range n.snap.st.EKGs {
			m := mine[k.Eon]
			if m == nil {
				fail("key", fmt.Sprintf("keyper %d has a key of eon %d, the keyper that was interrupted has none", n.who, k.Eon))
				return
			}
			if verifkit.Dump(m.EpochKG.PublicKey) != verifkit.Dump(k.EpochKG.PublicKey) || verifkit.Dump(m.EpochKG.PublicKeyShares) != verifkit.Dump(k.EpochKG.PublicKeyShares) {
				fail("key", fmt.Sprintf("the keys of eon %d differ from those of keyper %d", k.Eon, n.who))
				return
			}
		}
	}
	if len(mine) == 0 {
		fail("key", "no key was generated")
	}
}

// continued is the start with what another scenario has led to.
func (sp *runSpec) continued(before *runSpec, t *testing.T, r *verifkit.Run) *runSpec {
	var end *runWorld
	before.final = func(w *runWorld, _ func(key, msg string)) {
		w.stop()
		w.files = w.cur.fs.Files()
		end = w
	}
	if msg := verifkit.Replay(nil, func(c *verifkit.Chooser) { bubble(t, func() { before.run(r, c) }) }); msg != "" || end == nil {
		panic("cannot prepare " + sp.name + ": " + msg)
	}
	sp.start = func(w *runWorld) {
		w.files, w.ch, w.blocks, w.nonce, w.half = end.files, end.ch, end.blocks, end.nonce, end.half
		for _, n := range end.others {
			w.others = append(w.others, n.clone())
		}
	}
	sp.before = end
	return sp
}

// execution makes executed batches count.
func execution(w *runWorld, tx *types.Transaction) {
	name, args := verifeth.Describe(tx)
	var half uint64
	switch name {
	case "executeCipherBatch", "skipCipherExecution":
		half = 2 * args[0].(uint64)
	case "executePlainBatch":
		half = 2*args[0].(uint64) + 1
	default:
		return
	}
	if half == w.half {
		w.half++
	}
}

func runSpecs(t *testing.T, r *verifkit.Run) []*runSpec {
	a := &runSpec{name: "key generation", me: 0, others: []int{1, 2}, l: 6, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2)},
		script: "SSSSSSMSSSSSSMSSSSSSMSS", final: sameKeys}
	a.start = a.beginning(false)
	a.drop = func(who int, m *shmsg.Message) bool { return who == 2 && m.GetPolyEval() != nil }
	a.inject = func(ch *dkgChain) []dkgTx {
		if len(ch.eons) == 0 || ch.node.Head+1 != ch.eons[0].start+int64(a.l)+1 {
			return nil
		}
		return []dkgTx{newTx(2, verifapp.MAccuse(1, [][]byte{kaddr(0).Bytes()}), 0)}
	}
	cfgs := []mainCfg{guard, {start: 0, block: 8, span: 2, timeout: 20, threshold: 2, keypers: []int{0, 1, 2}}}
	b := &runSpec{name: "executions", me: 0, others: []int{1, 2}, l: 3, cfgs: cfgs}
	p := &runSpec{name: "before executions", me: 0, others: []int{1, 2}, l: 3, cfgs: cfgs, script: "SSSSSSSMSSSSMM"}
	p.start = p.beginning(true)
	b.continued(p, t, r)
	b.script, b.mined = "BBBBBBB", execution
	pub := b.before.others[0].snap.st.EKGs[0].EpochKG.PublicKey
	for i, m := range []string{"a", "b"} {
		sigma, err := shcrypto.RandomSigma(reader(int64(77 + i)))
		must(err)
		b.txs = append(b.txs, batchTx{uint64(i), 8 + 2*uint64(i), true, shcrypto.Encrypt([]byte(m), pub, epochID(uint64(i)), sigma).Marshal()})
	}
	b.txs = append(b.txs, batchTx{0, 9, false, []byte("plain")})
	b.final = func(w *runWorld, fail func(key, msg string)) {
		w.debug("half steps %d, main chain %d", w.half, len(w.blocks))
		if w.half < 4 {
			fail("executions", fmt.Sprintf("only %d half steps were executed", w.half))
		}
	}
	return []*runSpec{a, b}
}

// TestC23: the whole keyper is interrupted and restarted.
func TestC23(t *testing.T) {
	r := verifkit.Start("keyper-restarts")
	defer r.Finish()
	prepareProcess()
	bound := r.Pick(2, 3)
	if os.Getenv("VERIF_DEBUG") == "0" {
		bound = 0
	}
	r.Rule("The whole real keyper runs: LoadState and Run with its worker goroutines, the observers of both chains, the decider and the action runner, against stand-ins for both nodes (the Shuttermint one driven by the real application, with the other keypers real too) and an in-memory file system. Time stands still, so one can wait until everything is blocked: at an operation on a file, at a message or a transaction being sent, at a receipt being waited for, or idle; then the exploration chooses. " +
		"All combinations of up to the bound deviations: a crash before every operation on the state and action files, before and after each message and transaction takes effect; every image a crash of the process or the machine can leave (lost and torn writes that were not synced, renames done or not); a failure of a node, an answer that is lost, a receipt that is not there yet; every other order in which waiting calls end; an orderly stop between blocks. " +
		"The monitor keeps all actions that saved steps have decided. Whatever is sent must be an action decided by a saved step, with the same content; after a restart actions keep their numbers, none that was carried out may come from a step that is not on disk; one whose completion is on record is not sent again; counters of saved steps follow each other; each state file loads and is one that was saved. In the end, after a restart and some blocks, everything decided was carried out unless it has expired, and the scenario's outcome is there: the same key as the other keypers; all half steps executed.")
	verifapp.K(0)
	ss := runSpecs(t, r)
	for i, s := range ss {
		st := r.Explore(verifkit.Options{Name: r.Job + ":" + s.name, Bound: bound, Dedup: true, Deadline: 2 * r.Remaining() / time.Duration(len(ss)-i+1)},
			func(c *verifkit.Chooser) { bubble(t, func() { s.run(r, c) }) })
		r.Count("schedules", st.Executions)
		r.Sample(map[string]interface{}{"scenario": s.name, "executions": st.Executions, "pruned": st.Pruned, "complete": st.Complete})
	}
}

// state is the state that the keyper has saved.
func (w *runWorld) state() *keyper.State {
	f := fs.New(map[string]string{"state.gob": w.cur.fs.Files()["state.gob"]})
	defer f.Close()
	cfg := w.sp.config(w.sp.me)
	cfg.DBDir = f.Root
	k := keyper.NewKeyper(cfg)
	must(k.LoadState())
	return k.State
}
