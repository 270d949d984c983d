package verifdecide

import (
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func disputeScenarios(thorough bool) []*execScenario {
	d1, d2 := deal(1, 3, 1, 11), deal(2, 3, 1, 12)
	all := []int{0, 1, 2}
	var ss []*execScenario
	for me := 0; me < 2; me++ {
		s := &execScenario{name: fmt.Sprintf("disputes, keyper %d", me), me: me, staggering: 0,
			cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 5, threshold: 2, keypers: all}}, eons: []eonOf{{d1, 0}},
			from: 4, horizon: 6, jumps: []uint64{1, 2}, perStep: 2, receipts: []string{"right", "wrong"}, progress: 2 - me, fewer: 1 - me, accuse: true, deviations: 5}
		s.cipherTxs(d1, 0, 2, "a", "b")
		s.plainTxs(0, 3, "p")
		s.script = []execEvent{key(0, 2), sig(0, 1-me, "valid"), sig(0, 2, "valid")}
		if me == 1 {
			s.script = []execEvent{sig(0, 2, "valid"), sig(0, 0, "valid"), key(0, 2)}
		}
		ss = append(ss, s)
	}
	// the keyper learns the key of the batch from Shuttermint only long after it was executed
	s := &execScenario{name: "contents in several blocks", me: 1, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 3, timeout: 6, threshold: 1, keypers: all}}, eons: []eonOf{{d1, 0}},
		from: 4, horizon: 7, jumps: []uint64{1, 3}, perStep: 2, receipts: []string{"right", "wrong"}, progress: 1, accuse: true, deviations: 5}
	s.cipherTxs(d1, 0, 2, "a")
	s.cipherTxs(d1, 0, 4, "b")
	s.script = []execEvent{key(0, 0), sig(0, 2, "valid")}
	ss = append(ss, s)
	// two configs with different members; the second batch is the keyper's own, the first is not
	s = &execScenario{name: "change of keypers", me: 3, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 4, threshold: 1, keypers: all}, {start: 1, block: 4, span: 2, timeout: 4, threshold: 1, keypers: []int{2, 3, 4}}},
		eons: []eonOf{{d1, 0}, {d2, 1}},
		from: 4, horizon: 7, jumps: []uint64{3}, perStep: 2, receipts: []string{"right", "wrong"}, progress: 2, accuse: true, deviations: 5}
	s.cipherTxs(d1, 0, 3, "a")
	s.cipherTxs(d2, 1, 4, "b")
	s.script = []execEvent{key(1, 2), sig(1, 2, "valid")}
	ss = append(ss, s)
	// many half steps between two looks
	s = &execScenario{name: "many half steps", me: 0, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 1, span: 1, timeout: 12, threshold: 1, keypers: all}}, eons: []eonOf{{d1, 0}},
		from: 3, horizon: 4, jumps: []uint64{1}, perStep: 3, receipts: []string{"right", "order", "nothing"}, progress: 5, accuse: false, deviations: 5}
	s.cipherTxs(d1, 0, 1, "a", "b", "c")
	s.cipherTxs(d1, 2, 3, "c", "d", "e")
	s.script = []execEvent{key(0, 2), key(2, 2), key(1, 2)}
	ss = append(ss, s)
	// two half steps are under accusation at once, one of them wrongly: which accusation the keyper
	// looks at first is up to the runtime
	s = &execScenario{name: "two accusations at once", me: 0, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 1, timeout: 8, threshold: 1, keypers: all}}, eons: []eonOf{{d1, 0}},
		from: 5, horizon: 7, jumps: []uint64{1}, perStep: 4, receipts: []string{"right", "wrong"}, progress: 3, accuse: true, deviations: 5, fewer: 1}
	s.cipherTxs(d1, 0, 2, "a", "b")
	s.cipherTxs(d1, 1, 3, "c", "d")
	s.script = []execEvent{key(0, 2), key(1, 2)}
	ss = append(ss, s)
	if thorough {
		for _, s := range ss {
			s.jumps, s.horizon, s.fewer = append(s.jumps, 0), s.horizon+2, 0
		}
		s = &execScenario{name: "two disputes", me: 0, staggering: 0,
			cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 8, threshold: 2, keypers: all}}, eons: []eonOf{{d1, 0}},
			from: 3, horizon: 11, jumps: []uint64{2, 4}, perStep: 2, receipts: []string{"right", "wrong", "order"}, progress: 2, accuse: true, deviations: 5}
		s.cipherTxs(d1, 0, 2, "a", "b")
		s.cipherTxs(d1, 1, 5, "c", "!d")
		s.script = []execEvent{key(0, 2), sig(0, 1, "valid"), key(1, 2), sig(1, 1, "valid"), sig(1, 2, "valid")}
		ss = append(ss, s)
	}
	return ss
}

// TestC21: whom the keyper accuses, and what it appeals.
func TestC21(t *testing.T) {
	r := verifkit.Start("disputes")
	defer r.Finish()
	bound := r.Pick(1, 2)
	r.Rule(fmt.Sprintf("all sequences of steps of one keyper over main chain heights, over the keys and signatures that appear on Shuttermint, over how others execute the half steps (rightly, with other contents, in another order, with nothing; skips after the timeout) and over accusations and appeals by others, with up to %d restarts, late filters, unsynced nodes or unchanged views", bound))
	verifapp.K(0)
	searchAll(r, bound, disputeScenarios(r.Thorough()))
}
