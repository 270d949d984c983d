package verifapp

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func all(as ...[]Action) []Action {
	var r []Action
	for _, a := range as {
		r = append(r, a...)
	}
	return r
}

// votes makes a prefix in which signers vote for a config.
func votes(c CfgSpec, signers ...int) []Action { return By("vote", MConfigVote(c), signers...) }

func TestC04(t *testing.T) {
	r := verifkit.Start("config-voting")
	defer r.Finish()
	g3 := Genesis{Keypers: []int{0, 1, 2}, Threshold: 2, Validators: genesisVals(1)}

	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 2, 1}}
	c := CfgSpec{Index: 2, Start: 10, Threshold: 1, Keypers: []int{0, 3}}
	d := CfgSpec{Index: 3, Start: 20, Threshold: 2, Keypers: []int{0, 1, 2}}

	// every vote for good configs, to closure
	s := &Scenario{
		Name: "good", Genesis: g3, Depth: r.Pick(7, 40),
		Actions: all(By("vote a", MConfigVote(a), 0, 1, 2, 3), By("vote b", MConfigVote(b), 0, 1, 2, 3),
			By("vote c", MConfigVote(c), 0, 1, 2, 3), By("vote d", MConfigVote(d), 0, 1, 2, 3), []Action{EndBlock}),
	}
	s.Run(r, "C04")

	// variations in a single field, stale and invalid configs
	vary := func(f func(*shmsg.BatchConfig)) *shmsg.Message {
		m := MConfigVote(a)
		f(m.GetBatchConfig())
		return m
	}
	bad := all(
		By("other contract", vary(func(x *shmsg.BatchConfig) { x.ConfigContractAddress = contractAddr(9) }), 0, 1, 3),
		By("other start", vary(func(x *shmsg.BatchConfig) { x.StartBatchIndex = 11 }), 0, 1, 3),
		By("other threshold", vary(func(x *shmsg.BatchConfig) { x.Threshold = 3 }), 0, 1, 3),
		By("other keypers", vary(func(x *shmsg.BatchConfig) { x.Keypers = Bytes(0, 1, 3) }), 0, 1, 3),
		By("fewer keypers", vary(func(x *shmsg.BatchConfig) { x.Keypers = Bytes(0, 1) }), 0, 1, 3),
		By("no keypers", vary(func(x *shmsg.BatchConfig) { x.Keypers = nil }), 0, 1),
		By("no keypers, no threshold", vary(func(x *shmsg.BatchConfig) { x.Keypers = nil; x.Threshold = 0 }), 0, 1),
		By("threshold 0", vary(func(x *shmsg.BatchConfig) { x.Threshold = 0 }), 0, 1),
		By("threshold 4", vary(func(x *shmsg.BatchConfig) { x.Threshold = 4 }), 0, 1),
		By("threshold 2^63", vary(func(x *shmsg.BatchConfig) { x.Threshold = 1 << 63 }), 0, 1),
		By("threshold 2^64-1", vary(func(x *shmsg.BatchConfig) { x.Threshold = ^uint64(0) }), 0, 1),
		By("threshold 2^32+1", vary(func(x *shmsg.BatchConfig) { x.Threshold = 1<<32 + 1 }), 0, 1),
		By("duplicate keyper", vary(func(x *shmsg.BatchConfig) { x.Keypers = Bytes(0, 1, 0) }), 0, 1),
		By("short keyper", vary(func(x *shmsg.BatchConfig) { x.Keypers[1] = x.Keypers[1][1:] }), 0, 1),
		By("long keyper", vary(func(x *shmsg.BatchConfig) { x.Keypers[1] = append([]byte{0}, x.Keypers[1]...) }), 0, 1),
		By("short contract", vary(func(x *shmsg.BatchConfig) { x.ConfigContractAddress = x.ConfigContractAddress[1:] }), 0, 1),
		By("index 0", vary(func(x *shmsg.BatchConfig) { x.ConfigIndex = 0 }), 0, 1),
		By("huge", vary(func(x *shmsg.BatchConfig) { x.ConfigIndex = ^uint64(0); x.StartBatchIndex = ^uint64(0) }), 0, 1),
	)
	s = &Scenario{
		Name: "variations", Genesis: g3, Depth: r.Pick(7, 40),
		Actions: all(By("vote a", MConfigVote(a), 0, 1, 2), bad, []Action{EndBlock}),
	}
	s.Run(r, "C04")
	// after a config was accepted: the old set has lost its say, older starts and indices are refused
	c5 := CfgSpec{Index: 5, Start: 100, Threshold: 2, Keypers: []int{1, 3, 4}}
	after := func(idx, start uint64) *shmsg.Message {
		return MConfigVote(CfgSpec{Index: idx, Start: start, Threshold: 1, Keypers: []int{0, 1}})
	}
	var acts []Action
	for _, x := range [][2]uint64{{4, 100}, {5, 100}, {6, 99}, {6, 100}, {6, 101}, {7, 101}, {7, 100}} {
		acts = append(acts, By("vote "+itoa(x[0])+"@"+itoa(x[1]), after(x[0], x[1]), 0, 1, 3, 4)...)
	}
	s = &Scenario{
		Name: "second-config", Genesis: g3, Depth: r.Pick(7, 40), Prefix: votes(c5, 0, 2),
		Actions: all(acts, By("vote again", MConfigVote(c5), 0, 1, 2, 3), By("started", MStarted(5), 0, 1),
			[]Action{EndBlock}),
	}
	s.Run(r, "C04")
	// four keypers, thresholds one, three and four
	for _, th := range []int{1, 3, 4} {
		g := Genesis{Keypers: []int{0, 1, 2, 3}, Threshold: th, Validators: genesisVals(1)}
		s = &Scenario{
			Name: "four-" + itoa(uint64(th)), Genesis: g, Depth: r.Pick(6, 40), Max: r.Pick(60000, 600000),
			Actions: all(By("vote a", MConfigVote(CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2, 3}}), 0, 1, 2, 3, 4),
				By("vote b", MConfigVote(CfgSpec{Index: 1, Start: 10, Threshold: 3, Keypers: []int{0, 1, 2, 3}}), 0, 1, 2, 3, 4),
				By("vote c", MConfigVote(CfgSpec{Index: 2, Start: 10, Threshold: 1, Keypers: []int{4}}), 0, 1, 2, 3, 4)),
		}
		s.Run(r, "C04")
	}
}
