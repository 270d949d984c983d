package verifapp

import (
	"fmt"
	"strings"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifmap"
)

// perms returns the orders explored for an iteration over n keys: all of them up to four keys, else
// the sorted and the reversed order and all rotations.
func perms(n int) [][]int {
	if c := permCache[n]; c != nil {
		return c
	}
	var r [][]int
	if n > 4 {
		return append(rotations(n), reversed(n))
	}
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			r = append(r, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return r
}

var permCache = map[int][][]int{}

func init() {
	for i := 0; i <= 12; i++ {
		permCache[i] = perms(i)
	}
}

func rotations(n int) [][]int {
	var r [][]int
	for s := 0; s < n; s++ {
		var p []int
		for i := 0; i < n; i++ {
			p = append(p, (i+s)%n)
		}
		r = append(r, p)
	}
	return r
}

func reversed(n int) []int {
	var p []int
	for i := n - 1; i >= 0; i-- {
		p = append(p, i)
	}
	return p
}

// orders runs f once for every combination of map iteration orders with at most dev iterations not
// in sorted order.
func orders(dev int, f func()) int {
	var prefix []int
	count := 0
	for {
		var trace, widths []int
		pick := func(n int) []int {
			ps := perms(n)
			v := 0
			spent := 0
			for _, t := range trace {
				if t != 0 {
					spent++
				}
			}
			w := len(ps)
			if spent >= dev {
				w = 1
			}
			if len(trace) < len(prefix) {
				v = prefix[len(trace)]
			}
			trace = append(trace, v)
			widths = append(widths, w)
			return ps[v]
		}
		verifmap.With(pick, f)
		count++
		i := len(trace) - 1
		for i >= 0 && trace[i]+1 >= widths[i] {
			i--
		}
		if i < 0 {
			return count
		}
		prefix = append(append([]int(nil), trace[:i]...), trace[i]+1)
	}
}

func TestC01Order(t *testing.T) {
	r := verifkit.Start("map-order")
	defer r.Finish()
	g2 := Genesis{Keypers: []int{0, 1}, Threshold: 2, Validators: genesisVals(3)}
	g4 := Genesis{Keypers: []int{0, 1, 2, 3}, Threshold: 2, Validators: genesisVals(2)}
	g1 := Genesis{Keypers: []int{0, 1, 2, 3}, Threshold: 1, Validators: genesisVals(2)}
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1}}
	for _, s := range []*replicas{
		{name: "validators", g: g2, prefix: votes(a, 0, 1), depth: r.Pick(8, 10), max: r.Pick(20000, 200000),
			actions: all(By("started 1", MStarted(1), 0, 1), By("check in", MCheckIn(K(0).Val, K(0)), 0), By("check in", MCheckIn(K(1).Val, K(1)), 1),
				By("check in", MCheckIn(K(2).Val, K(2)), 2), []Action{EndBlock})},
		{name: "votes", g: g4, depth: r.Pick(5, 7), max: r.Pick(20000, 200000),
			actions: all(By("vote a", MConfigVote(a), 0, 1, 2), By("vote b", MConfigVote(b), 1, 2, 3), By("eon 5", MEonVote(5), 0, 1, 2), By("eon 6", MEonVote(6), 1, 2, 3), []Action{EndBlock})},
		{name: "votes-threshold-1", g: g1, depth: r.Pick(4, 6), max: r.Pick(20000, 200000),
			actions: all(By("vote a", MConfigVote(a), 0, 1, 2), By("vote b", MConfigVote(b), 1, 2, 3), By("eon 5", MEonVote(5), 0, 1), By("eon 6", MEonVote(6), 1, 2), []Action{EndBlock})},
		{name: "mixed", g: g2, depth: r.Pick(4, 5), max: r.Pick(20000, 200000), actions: mixed()},
	} {
		s.runOrders(r)
	}
}

func (s *replicas) runOrders(r *verifkit.Run) {
	step := func(x *app.ShutterApp, act Action, nonce uint64) string {
		if act.End {
			res := endString(x.EndBlock(abcitypes.RequestEndBlock{Height: x.LastBlockHeight + 1}))
			x.Commit()
			return res
		}
		return respString(x.DeliverTx(abcitypes.RequestDeliverTx{Tx: Tx(s.g.Chain(), act.Signer, nonce, act.Msg)}))
	}
	root := &pair{a: s.g.NewApp(), b: s.g.NewApp()}
	for _, a := range s.prefix {
		step(root.a, a, root.n)
		step(root.b, a, root.n)
		root.n++
	}
	dump := func(a *app.ShutterApp) string {
		return verifkit.Dump(a, "LastSaved", "Gobpath", "LastBlockHeight", "NonceTracker")
	}
	seen := map[string]bool{}
	level := []*pair{root}
	depth := 0
	for ; depth < s.depth && len(level) > 0; depth++ {
		outs := make([][]*pair, len(level))
		keys := make([][]string, len(level))
		if r.Parallel(len(level), func(i int) {
			p := level[i]
			for _, act := range s.actions {
				a := verifkit.DeepCopy(p.a).(*app.ShutterApp)
				x := step(a, act, p.n)
				da := fmt.Sprint(verifkit.Hash(dump(a)))
				local := map[string]bool{}
				n := orders(2, func() {
					b := verifkit.DeepCopy(p.b).(*app.ShutterApp)
					y := step(b, act, p.n)
					path := append(append([]string(nil), p.path...), act.Name)
					if x != y {
						r.Violation(s.name+":order", fmt.Sprintf("%s: after %s the result depends on the iteration order of a map: %s and %s", s.name, strings.Join(path, "; "), x, y),
							map[string]interface{}{"scenario": s.name, "actions": path})
						return
					}
					k := da + "|" + fmt.Sprint(verifkit.Hash(dump(b)))
					if !local[k] {
						local[k] = true
						outs[i] = append(outs[i], &pair{a, b, path, p.n + 1})
						keys[i] = append(keys[i], k)
					}
				})
				r.Count("transitions", int64(n))
			}
		}) < len(level) {
			break
		}
		var next []*pair
		for i := range outs {
			for j, p := range outs[i] {
				if !seen[keys[i][j]] {
					seen[keys[i][j]] = true
					next = append(next, p)
				}
			}
		}
		level = next
		if len(seen) > s.max {
			r.Incomplete(fmt.Sprintf("%s: stopped after depth %d with %d states", s.name, depth+1, len(seen)))
			depth++
			break
		}
	}
	r.Count("states", int64(len(seen)))
	r.Count("traces", int64(len(level)))
	r.Rule(fmt.Sprintf("%s: every sequence of %d actions up to length %d with every order of up to two map iterations per action (all permutations up to four keys): %d pairs of states", s.name, len(s.actions), depth, len(seen)))
}
