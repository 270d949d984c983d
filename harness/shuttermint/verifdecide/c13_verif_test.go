package verifdecide

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func cfgAt(start, block, threshold uint64, keypers ...int) mainCfg {
	return mainCfg{start: start, block: block, span: 5, timeout: 20, threshold: threshold, keypers: keypers}
}

func allScripts() []script {
	var l []script
	for _, d := range dealScripts {
		for _, a := range accuseScripts {
			for _, y := range apologiseScripts {
				l = append(l, script{d, a, y})
			}
		}
	}
	return l
}

func dkgSpecs(thorough bool) []*dkgSpec {
	firstOnly := func(eon uint64, s script) script {
		if eon > 1 {
			return script{"honest", "honest", "honest"}
		}
		return s
	}
	inactive := cfgAt(10, 1000, 2, 0, 1, 2)
	inactive.span = 0
	l := []*dkgSpec{
		{name: "phases", keypers: []int{0, 1, 2}, byz: -1, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2)}, checkedIn: true, horizon: 13, eons: 1},
		{name: "long phases", keypers: []int{0, 1, 2}, byz: -1, l: 4, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2)}, checkedIn: true, horizon: 16, eons: 1, fewer: 1},
		{name: "check in", keypers: []int{2, 0, 1}, byz: -1, l: 5, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2)}, horizon: 19, eons: 1, fewer: 1},
		{name: "misbehaviour", keypers: []int{0, 1, 2}, byz: 2, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2)}, checkedIn: true, horizon: 13, eons: 1, scripts: allScripts(), fewer: 1},
		{name: "misbehaviour first", keypers: []int{0, 1, 2}, byz: 0, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 2, 1, 0)}, checkedIn: true, horizon: 13, eons: 1, scripts: allScripts(), fewer: 2},
		{name: "all needed", keypers: []int{0, 1, 2}, byz: 1, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 3, 0, 1, 2)}, checkedIn: true, horizon: 24, eons: 1, fewer: 1,
			scripts: []script{{"honest", "honest", "honest"}, {"silent", "honest", "honest"}, {"eval wrong", "honest", "none"}, {"evals wrong", "all", "honest"}, {"honest", "one", "honest"}}, scriptOf: firstOnly},
		{name: "two configs", keypers: []int{0, 1, 2, 3}, byz: -1, l: 3, cfgs: []mainCfg{guard, inactive, cfgAt(10, 1100, 3, 3, 1, 0)}, checkedIn: true, horizon: 20, eons: 2, fewer: 1},
		{name: "next config", keypers: []int{0, 1, 2, 3}, byz: -1, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 2, 0, 1, 2), cfgAt(12, 1010, 2, 2, 3)}, checkedIn: true, horizon: 20, eons: 2, fewer: 1},
	}
	if thorough {
		l = append(l,
			&dkgSpec{name: "four keypers", keypers: []int{0, 1, 2, 3}, byz: 0, l: 3, cfgs: []mainCfg{guard, cfgAt(10, 1000, 3, 3, 2, 1, 0)}, checkedIn: true, horizon: 13, eons: 1, scripts: allScripts(), fewer: 1})
	}
	return l
}

// TestC13: key generation by several keypers over the real application.
func TestC13(t *testing.T) {
	r := verifkit.Start("key-generation")
	defer r.Finish()
	bound := r.Pick(2, 3)
	r.Rule(fmt.Sprintf("all runs of key generation by real keypers over the real application, until a given block, that differ from the undisturbed one in at most %d places (the larger scenarios one less): a keyper sleeps for one or two blocks, one to three phases or to the end, does not see the main chain, or restarts; a message is delayed by one or two blocks or a phase; a block has its messages in reverse order; with every combination of %d ways to deal, %d to accuse and %d to apologise of one misbehaving keyper", bound, len(dealScripts), len(accuseScripts), len(apologiseScripts)))
	verifapp.K(0)
	ss := dkgSpecs(r.Thorough())
	sort.SliceStable(ss, func(i, j int) bool { return len(ss[i].scripts)-10*ss[i].fewer < len(ss[j].scripts)-10*ss[j].fewer }) // the largest ones last
	for i, s := range ss {
		s.prepare()
		b := bound - s.fewer
		st := r.Search(verifkit.Options{Name: r.Job + ":" + s.name, Bound: b, Deadline: 2 * r.Remaining() / time.Duration(len(ss)-i+1)},
			s.init, func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*dkgState).step(r, c) })
		r.Count("schedules", st.Executions)
		r.Count("states", st.States)
		r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "steps": st.Executions, "keyper steps computed": stepCount, "blocks computed": len(chainCache), "complete": st.Complete})
	}
}
