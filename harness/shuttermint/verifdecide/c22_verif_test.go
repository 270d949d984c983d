package verifdecide

import (
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

var sigKinds = []string{"valid", "high-s", "v+27", "v+2", "long", "short", "empty", "zero", "other-result", "other-batch", "other-batcher", "no-prefix", "copied"}

func zooScenarios(thorough bool) []*execScenario {
	d1 := deal(1, 3, 1, 11)
	d4 := deal(2, 4, 1, 12)
	all := []int{0, 1, 2}
	var ss []*execScenario
	// signatures of every kind by two others, in every order, around the decryption; the keyper's own
	// signature comes late or early
	s := &execScenario{name: "every kind of signature", me: 1, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 20, threshold: 2, keypers: all}}, eons: []eonOf{{d1, 0}},
		from: 2, horizon: 6, jumps: []uint64{4, 0}, perStep: 2, maxZoo: 3, receipts: []string{"right"}, accuse: false, progress: 0, steps: 4, ownDelay: true}
	s.cipherTxs(d1, 0, 2, "a", "b")
	s.zoo = []execEvent{key(0, 2)}
	for _, k := range sigKinds {
		s.zoo = append(s.zoo, sig(0, 0, k))
	}
	s.zoo = append(s.zoo, sig(0, 2, "valid"), sig(0, 2, "copied"), sig(0, 7, "valid"))
	ss = append(ss, s)
	// threshold 3 of 4: which signatures go into an appeal, and in which order
	s = &execScenario{name: "signer order", me: 2, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 20, threshold: 3, keypers: []int{3, 0, 2, 1}}}, eons: []eonOf{{d4, 0}},
		from: 6, horizon: 6, perStep: 2, maxZoo: 4, receipts: []string{"right"}, accuse: true, progress: 1, steps: 4, ownDelay: true}
	s.cipherTxs(d4, 0, 2, "a")
	s.zoo = []execEvent{key(0, 1), sig(0, 0, "valid"), sig(0, 1, "valid"), sig(0, 3, "valid")}
	ss = append(ss, s)
	// two batches side by side
	s = &execScenario{name: "two batches", me: 0, staggering: 0,
		cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 20, threshold: 2, keypers: all}}, eons: []eonOf{{d1, 0}},
		from: 6, horizon: 6, perStep: 2, maxZoo: 4, receipts: []string{"right"}, accuse: false, progress: 1, steps: 3, deviations: 5}
	s.cipherTxs(d1, 0, 2, "a")
	s.cipherTxs(d1, 1, 5, "b")
	s.zoo = []execEvent{key(0, 1), key(1, 1), sig(0, 1, "valid"), sig(1, 1, "valid")}
	ss = append(ss, s)
	if thorough {
		ss[0].maxZoo, ss[0].steps = 4, 5
		ss[1].maxZoo, ss[2].maxZoo = 6, 6
		ss[2].zoo = append(ss[2].zoo, sig(1, 2, "other-batch"), sig(0, 2, "valid"))
		ss[1].steps, ss[2].steps = 5, 4
		ss[1].zoo = append(ss[1].zoo, sig(0, 3, "other-result"))
	}
	return ss
}

// TestC22: which signatures the keyper counts.
func TestC22(t *testing.T) {
	r := verifkit.Start("signatures")
	defer r.Finish()
	bound := r.Pick(1, 2)
	r.Rule(fmt.Sprintf("all sequences, up to a length, of keys and of signatures of %d kinds by keypers and others, in all groupings into steps of the keyper, before and after the decryption, with the keyper's own signature included at once or later, execution and accusation by others at any time, and up to %d restarts, late filters, unsynced nodes or unchanged views", len(sigKinds), bound))
	verifapp.K(0)
	searchAll(r, bound, zooScenarios(r.Thorough()))
}
