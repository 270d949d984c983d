package verifapp

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func TestC05(t *testing.T) {
	r := verifkit.Start("config-start")
	defer r.Finish()
	g3 := Genesis{Keypers: []int{0, 1, 2}, Threshold: 2, Validators: genesisVals(1)}
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 3}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 1, Keypers: []int{0, 3}}
	c := CfgSpec{Index: 4, Start: 30, Threshold: 2, Keypers: []int{0, 1}}

	(&Scenario{
		Name: "start-of-three-configs", Genesis: g3, Depth: r.Pick(40, 60), Max: r.Pick(150000, 1500000),
		Actions: all(By("vote a", MConfigVote(a), 0, 1), By("vote b", MConfigVote(b), 0, 1, 3), By("vote c", MConfigVote(c), 0, 3),
			By("started 0", MStarted(0), 0, 1), By("started 1", MStarted(1), 0, 1, 2, 3), By("started 2", MStarted(2), 0, 1, 3),
			By("started 4", MStarted(4), 0, 3), []Action{EndBlock}),
	}).Run(r, "C05")
	// deeper, from the second config on
	(&Scenario{
		Name: "start-of-second", Genesis: g3, Depth: r.Pick(40, 60), Max: r.Pick(150000, 1500000),
		Prefix: all(votes(a, 0, 1)),
		Actions: all(By("vote b", MConfigVote(b), 0, 1, 3), By("started 1", MStarted(1), 0, 1, 2, 3, 4), By("started 2", MStarted(2), 0, 1, 2, 3),
			By("started 3", MStarted(3), 0, 1), By("check in", MCheckIn(K(0).Val, K(0)), 0, 3), []Action{EndBlock}),
	}).Run(r, "C05")
	// different sizes of the preceding set
	for n := 1; n <= 4; n++ {
		for th := 1; th <= n; th++ {
			ks := []int{0, 1, 2, 3}[:n]
			g := Genesis{Keypers: ks, Threshold: th, Validators: genesisVals(2)}
			for _, next := range []CfgSpec{
				{Index: 1, Start: 10, Threshold: 1, Keypers: []int{0, 1, 2, 3}},
				{Index: 7, Start: 0, Threshold: 3, Keypers: []int{4, 3, 5}},
			} {
				acts := all(By("started", MStarted(next.Index), 0, 1, 2, 3, 4), By("started "+itoa(next.Index+1), MStarted(next.Index+1), 0, 1),
					By("started 0", MStarted(0), 0), []Action{EndBlock})
				(&Scenario{
					Name: "sizes-" + itoa(uint64(n)) + "-" + itoa(uint64(th)) + "-" + itoa(next.Index), Genesis: g, Depth: r.Pick(40, 60), Max: 100000,
					Prefix: votes(next, ks[:th]...), Actions: acts,
				}).Run(r, "C05")
			}
		}
	}
	_ = shmsg.Message{}
}
