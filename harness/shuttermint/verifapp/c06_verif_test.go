package verifapp

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func TestC06(t *testing.T) {
	r := verifkit.Start("eon-start")
	defer r.Finish()
	g3 := Genesis{Keypers: []int{0, 1, 2}, Threshold: 2, Validators: genesisVals(1)}
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{0, 1, 3}}

	eon := func(batch uint64, signers ...int) []Action {
		return By("eon "+itoa(batch), MEonVote(batch), signers...)
	}
	// votes before and after the first config
	(&Scenario{
		Name: "first-config", Genesis: g3, Depth: r.Pick(6, 8), Max: r.Pick(120000, 1500000),
		Actions: all(By("vote a", MConfigVote(a), 0, 1), eon(0, 0, 1, 3), eon(9, 0, 2), eon(10, 0, 1, 2, 3), eon(11, 0, 1), []Action{EndBlock}),
	}).Run(r, "C06")
	// two configs with different keypers
	(&Scenario{
		Name: "two-configs", Genesis: g3, Depth: r.Pick(5, 7), Max: r.Pick(120000, 1500000), Prefix: all(votes(a, 0, 1)),
		Actions: all(By("vote b", MConfigVote(b), 0, 1), eon(10, 0, 1, 2, 3), eon(19, 0, 2), eon(20, 0, 1, 2, 3), eon(21, 1, 3), eon(^uint64(0), 0, 3)),
	}).Run(r, "C06")
	// same list or threshold changes: which configs start an eon by themselves
	chain := []CfgSpec{
		{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}},
		{Index: 2, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}, Contract: 1},
		{Index: 3, Start: 20, Threshold: 2, Keypers: []int{0, 2, 1}},
		{Index: 4, Start: 30, Threshold: 3, Keypers: []int{0, 2, 1}},
		{Index: 5, Start: 30, Threshold: 2, Keypers: []int{0, 1}},
		{Index: 6, Start: 40, Threshold: 2, Keypers: []int{0, 1}},
	}
	var acts []Action
	for _, c := range chain {
		acts = append(acts, By("vote "+itoa(c.Index), MConfigVote(c), 0, 1)...)
	}
	acts = append(acts, By("vote 3", MConfigVote(chain[2]), 2)...)
	acts = append(acts, By("vote 5", MConfigVote(chain[4]), 2)...)
	acts = append(acts, eon(10, 0, 1)...)
	(&Scenario{Name: "config-chain", Genesis: g3, Depth: r.Pick(8, 10), Max: r.Pick(100000, 1500000), Actions: acts}).Run(r, "C06")
	// every vote by every keyper over three batch indices, several set sizes
	for n := 1; n <= 4; n++ {
		for th := 1; th <= n; th++ {
			ks := []int{0, 1, 2, 3}[:n]
			g := Genesis{Keypers: ks, Threshold: th, Validators: genesisVals(1)}
			(&Scenario{
				Name: "sizes-" + itoa(uint64(n)) + "-" + itoa(uint64(th)), Genesis: g, Depth: r.Pick(5, 7), Max: r.Pick(20000, 300000),
				Actions: all(eon(0, append([]int{4}, ks...)...), eon(7, ks...), eon(8, ks...)),
			}).Run(r, "C06")
		}
	}
}
