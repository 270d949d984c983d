package verifdecide

import (
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// cipherTxs encrypts messages for a batch; "!" marks one that does not decrypt.
func (s *execScenario) cipherTxs(d *dealing, batch, block uint64, msgs ...string) {
	if s.plain == nil {
		s.plain = map[uint64][][]byte{}
	}
	for i, m := range msgs {
		if m[0] == '!' {
			s.txs = append(s.txs, batchTx{batch, block, true, []byte(m)})
			continue
		}
		s.txs = append(s.txs, batchTx{batch, block, true, d.encrypt(batch, []byte(m), int64(batch*100+block*10)+int64(i)+1)})
		s.plain[batch] = append(s.plain[batch], []byte(m))
	}
}

func (s *execScenario) plainTxs(batch, block uint64, msgs ...string) {
	for _, m := range msgs {
		s.txs = append(s.txs, batchTx{batch, block, false, []byte(m)})
	}
}

func key(batch uint64, sender int) execEvent {
	return execEvent{batch: batch, share: true, sender: sender}
}

func sig(batch uint64, sender int, kind string) execEvent {
	return execEvent{batch: batch, sender: sender, kind: kind}
}

func execScenarios(thorough bool) []*execScenario {
	d1, d2 := deal(1, 3, 1, 11), deal(2, 3, 1, 12)
	all := []int{0, 1, 2}
	var ss []*execScenario
	one := mainCfg{start: 0, block: 2, span: 2, timeout: 3, threshold: 2, keypers: all}
	for me, stag := range []uint64{1, 0, 100} {
		s := &execScenario{name: fmt.Sprintf("one config, keyper %d, staggering %d", me, stag), me: me, staggering: stag,
			cfgs: []mainCfg{guard, one}, eons: []eonOf{{d1, 0}}, from: 3, horizon: 7, jumps: []uint64{1, 3}, perStep: 2, receipts: []string{"right"}, progress: 2, deviations: 5}
		if me != 1 { // long enough for staggering
			s.cfgs = []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 4 + uint64(me), threshold: 2, keypers: all}}
			s.horizon = 10
		}
		s.cipherTxs(d1, 0, 2, "a", "!garbage", "b")
		s.plainTxs(0, 3, "plain 1", "plain 2")
		s.plainTxs(1, 4, "plain 3")
		o := (me + 1) % 3
		s.script = []execEvent{key(0, 2), sig(0, o, "valid"), key(1, 2), sig(0, (me+2)%3, "valid")}
		ss = append(ss, s)
	}
	// a batch with transactions in two blocks, executed without the keyper
	s := &execScenario{name: "late main chain", me: 1, staggering: 0, cfgs: []mainCfg{guard, {start: 3, block: 3, span: 3, timeout: 6, threshold: 2, keypers: all}},
		eons: []eonOf{{d1, 3}}, from: 3, horizon: 13, jumps: []uint64{1, 0, 3, 6}, perStep: 3, receipts: []string{"right"}, progress: 1, deviations: 5}
	s.cipherTxs(d1, 3, 3, "a")
	s.cipherTxs(d1, 3, 5, "b")
	s.script = []execEvent{key(3, 0), sig(3, 0, "valid"), sig(3, 2, "valid")}
	ss = append(ss, s)
	// the last batches of a config that is followed by an inactive one
	s = &execScenario{name: "pause", me: 0, staggering: 1, cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 2, threshold: 2, keypers: all}, {start: 2, block: 6, threshold: 1, keypers: all}},
		eons: []eonOf{{d1, 0}}, from: 5, horizon: 9, jumps: []uint64{1, 3}, perStep: 2, receipts: []string{"right"}, progress: 2, deviations: 5}
	s.cipherTxs(d1, 1, 5, "a")
	s.script = []execEvent{key(0, 1), key(1, 1), sig(1, 2, "valid"), sig(1, 1, "valid")}
	ss = append(ss, s)
	// a change of the keyper set, seen by one that leaves and one that joins
	for _, me := range []int{0, 3} {
		s = &execScenario{name: fmt.Sprintf("change of keypers, keyper %d", me), me: me, staggering: 1, cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 4, threshold: 2, keypers: all}, {start: 1, block: 4, span: 2, timeout: 2, threshold: 1, keypers: []int{2, 3, 4}}},
			eons: []eonOf{{d1, 0}, {d2, 1}}, from: 3, horizon: 7, jumps: []uint64{1, 3}, perStep: 2, receipts: []string{"right"}, progress: 2, deviations: 5}
		s.cipherTxs(d1, 0, 3, "a")
		s.cipherTxs(d2, 1, 4, "b")
		s.script = []execEvent{key(0, 1), key(1, 2), sig(0, 1, "valid"), sig(1, 2, "valid"), sig(0, 2, "valid")}
		ss = append(ss, s)
	}
	// many batches at once
	s = &execScenario{name: "many batches", me: 1, staggering: 0, cfgs: []mainCfg{guard, {start: 0, block: 1, span: 1, timeout: 20, threshold: 1, keypers: all}},
		eons: []eonOf{{d1, 0}}, from: 1, horizon: 12, jumps: []uint64{3, 11}, perStep: 3, receipts: []string{"right"}, progress: 3, deviations: 5}
	for b := uint64(0); b < 7; b++ {
		if b != 5 {
			s.script = append(s.script, key(b, 2))
		}
	}
	ss = append(ss, s)
	// a config without keypers
	s = &execScenario{name: "no keypers", me: 0, staggering: 1, cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 3, threshold: 2, keypers: all}, {start: 1, block: 4, span: 3, timeout: 2, threshold: 0}},
		eons: []eonOf{{d1, 0}}, from: 3, horizon: 10, jumps: []uint64{1, 3}, perStep: 1, receipts: []string{"right"}, progress: 1, deviations: 5}
	s.script = []execEvent{key(0, 2)}
	ss = append(ss, s)
	// a single keyper
	s = &execScenario{name: "single keyper", me: 0, staggering: 3, cfgs: []mainCfg{guard, {start: 0, block: 2, span: 3, timeout: 2, threshold: 1, keypers: []int{0}}},
		eons: []eonOf{{deal(1, 1, 1, 13), 0}}, from: 2, horizon: 10, jumps: []uint64{1, 4}, perStep: 1, receipts: []string{"right"}, progress: 1, deviations: 5}
	s.cipherTxs(s.eons[0].d, 0, 4, "a")
	s.script = []execEvent{key(0, 0), key(1, 0)}
	ss = append(ss, s)
	ss[0].fewer, ss[2].fewer, ss[5].fewer, ss[7].fewer = 1, 1, 1, 1
	if thorough {
		for _, s := range ss {
			s.jumps, s.fewer = append(s.jumps, 0), 0
		}
		four := []int{0, 1, 2, 3}
		d4 := deal(1, 4, 1, 14)
		for me := 0; me < 4; me++ {
			s := &execScenario{name: fmt.Sprintf("four keypers, keyper %d", me), me: me, staggering: 2, cfgs: []mainCfg{guard, {start: 0, block: 2, span: 2, timeout: 12, threshold: 2, keypers: four}},
				eons: []eonOf{{d4, 0}}, horizon: 18, jumps: []uint64{1, 0, 3, 9}, perStep: 2, receipts: []string{"right"}, progress: 2, deviations: 5, ownDelay: true}
			s.cipherTxs(d4, 0, 2, "a", "b")
			s.plainTxs(1, 5, "p")
			s.script = []execEvent{key(0, 2), sig(0, (me+1)%4, "valid"), key(1, 2), sig(0, (me+2)%4, "valid")}
			ss = append(ss, s)
		}
	}
	return append(append(ss[:1:1], ss[2:]...), ss[1])
}

// TestC20: what the keyper executes, and when.
func TestC20(t *testing.T) {
	r := verifkit.Start("executions")
	defer r.Finish()
	bound := r.Pick(1, 2)
	r.Rule(fmt.Sprintf("all sequences of steps of one keyper over main chain heights (several jump sizes, no progress included), over the keys and signatures that appear on Shuttermint (in order, up to 3 per step) and over the half steps that get executed meanwhile, with up to %d restarts, late filters, unsynced nodes or unchanged views, in scenarios with several places in the execution order, empty and undecryptable contents, missing keys, pauses, keyper set changes, one keyper and none", bound))
	verifapp.K(0)
	searchAll(r, bound, execScenarios(r.Thorough()))
}
