package verifapp

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// mixed is an alphabet that reaches all parts of the application.
func mixed() []Action {
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	a2 := CfgSpec{Index: 1, Start: 10, Threshold: 1, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}
	return all(
		By("vote a", MConfigVote(a), 0, 1, 2), By("vote a2", MConfigVote(a2), 0, 1), By("vote b", MConfigVote(b), 0, 1, 3),
		By("started 1", MStarted(1), 0, 1), By("started 2", MStarted(2), 0, 1, 2),
		By("check in", MCheckIn(K(0).Val, K(0)), 0), By("check in", MCheckIn(K(1).Val, K(1)), 1), By("check in", MCheckIn(K(3).Val, K(3)), 3),
		By("eon 10", MEonVote(10), 0, 1), By("eon 25", MEonVote(25), 1, 3), By("eon 0", MEonVote(0), 0),
		By("sign 12", MDecSig(12, []byte{1}), 0, 1), By("sign 22", MDecSig(22, []byte{2}), 1, 3),
		By("commit 1", MCommitment(1, Gammas(1, 2)), 0, 3), By("eval 1", MEval(1, Bytes(1, 2), [][]byte{{1}, {2}}), 0),
		By("accuse 1", MAccuse(1, Bytes(1)), 0), By("apologise 1", MApologise(1, Bytes(0), [][]byte{{5}}), 1),
		By("share", MShare(1, 7, Share(1)), 0),
		[]Action{EndBlock},
	)
}

func respString(d abcitypes.ResponseDeliverTx) string {
	d.Log, d.Info = "", ""
	b, err := d.Marshal()
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", b)
}

func endString(e abcitypes.ResponseEndBlock) string {
	b, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", b)
}

type pair struct {
	a, b *app.ShutterApp
	path []string
	n    uint64
}

// replicas explores pairs of replicas that get the same blocks; the second one is perturbed.
type replicas struct {
	name    string
	g       Genesis
	prefix  []Action
	actions []Action
	depth   int
	max     int
}

// burst sends a mempool full of checks to an application.
func burst(g *Genesis, x *app.ShutterApp, actions []Action, nonce uint64, next Action) {
	chk := func(tx []byte) { x.CheckTx(abcitypes.RequestCheckTx{Tx: tx}) }
	if !next.End {
		tx := Tx(g.Chain(), next.Signer, nonce, next.Msg)
		chk(tx)
		chk(tx)
	}
	for i := 0; i < 4; i++ {
		if a := actions[i*7%len(actions)]; !a.End {
			chk(Tx(g.Chain(), a.Signer, nonce+uint64(i%2), a.Msg))
		}
	}
	chk(Tx("other chain", 0, nonce, MEonVote(0)))
	chk(Tx(g.Chain(), 7, nonce, MEonVote(0)))
	chk([]byte("!"))
	chk(nil)
}

func (s *replicas) run(r *verifkit.Run) {
	dir, err := ioutil.TempDir("", "c01")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	root := &pair{a: s.g.NewApp(), b: s.g.NewApp()}
	type variant struct {
		name           string
		burst, restart bool
		gob            bool
	}
	vs := []variant{{name: ""}, {name: " [second replica: mempool checks first]", burst: true}}
	ve := []variant{{name: ""}, {name: " [second replica: mempool checks first]", burst: true}, {name: " [second replica: saved and restarted]", restart: true}, {name: " [second replica: saved]", gob: true}}
	var files int64
	step := func(p *pair, act Action, v variant) string {
		nonce := p.n
		p.n += 2
		p.path = append(append([]string(nil), p.path...), act.Name+v.name)
		if v.burst {
			burst(&s.g, p.b, s.actions, nonce, act)
		}
		if act.End {
			h := p.a.Info(abcitypes.RequestInfo{}).LastBlockHeight + 1
			x := endString(p.a.EndBlock(abcitypes.RequestEndBlock{Height: h}))
			y := endString(p.b.EndBlock(abcitypes.RequestEndBlock{Height: h}))
			p.a.Commit()
			if v.restart || v.gob {
				// persisting happens in Commit
				p.b.Gobpath = filepath.Join(dir, fmt.Sprint(atomic.AddInt64(&files, 1)))
				p.b.Commit()
				if v.restart {
					l, err := app.LoadShutterAppFromFile(p.b.Gobpath)
					if err != nil {
						return "cannot load: " + err.Error()
					}
					os.Remove(p.b.Gobpath)
					p.b = &l
				}
				os.Remove(p.b.Gobpath)
				p.b.Gobpath = ""
			} else {
				p.b.Commit()
			}
			if x != y {
				return fmt.Sprintf("validator updates differ: %s and %s", x, y)
			}
			return ""
		}
		req := abcitypes.RequestDeliverTx{Tx: Tx(s.g.Chain(), act.Signer, nonce, act.Msg)}
		cp := abcitypes.RequestDeliverTx{Tx: append([]byte(nil), req.Tx...)}
		x := respString(p.a.DeliverTx(req))
		y := respString(p.b.DeliverTx(cp))
		if !bytes.Equal(req.Tx, cp.Tx) {
			return "the transaction was overwritten"
		}
		if x != y {
			return fmt.Sprintf("responses differ: %s and %s", x, y)
		}
		return ""
	}
	report := func(p *pair, msg string) {
		k := msg
		if i := strings.Index(k, ":"); i > 0 {
			k = k[:i]
		}
		r.Violation(s.name+":"+k, fmt.Sprintf("%s: after %s: %s", s.name, strings.Join(p.path, "; "), msg), map[string]interface{}{"scenario": s.name, "actions": p.path})
	}
	dump := func(a *app.ShutterApp) string {
		return verifkit.Dump(a, "LastSaved", "Gobpath", "LastBlockHeight", "NonceTracker")
	}
	// Replicas whose states differ (apart from the mempool) need not be distinguishable, but if they
	// are, it is from here: all sequences of actions up to a length are tried on them.
	core := func(a *app.ShutterApp) string {
		return verifkit.Dump(a, "LastSaved", "Gobpath", "LastBlockHeight", "NonceTracker", "CheckTxState")
	}
	var probes int64
	var probe func(p *pair, depth int) bool
	probe = func(p *pair, depth int) bool {
		for _, act := range s.actions {
			q := &pair{verifkit.DeepCopy(p.a).(*app.ShutterApp), verifkit.DeepCopy(p.b).(*app.ShutterApp), p.path, p.n}
			m := ""
			if x := verifkit.Catch(func() { m = step(q, act, vs[0]) }); x != "" {
				m = x
			}
			r.Count("transitions", 1)
			if m != "" {
				report(q, m)
				return true
			} else if depth > 1 && probe(q, depth-1) {
				return true
			}
		}
		return false
	}
	var probed sync.Map
	key := func(p *pair) uint64 { return verifkit.Hash(dump(p.a) + "|" + dump(p.b)) }
	for _, a := range s.prefix {
		if m := step(root, a, vs[0]); m != "" {
			report(root, m)
			return
		}
	}
	seen := map[uint64]bool{key(root): true}
	level := []*pair{root}
	complete := true
	depth := 0
	for ; depth < s.depth && len(level) > 0; depth++ {
		outs := make([][]*pair, len(level))
		keys := make([][]uint64, len(level))
		if r.Parallel(len(level), func(i int) {
			for _, act := range s.actions {
				vars := vs
				if act.End {
					vars = ve
				}
				for _, v := range vars {
					p := &pair{verifkit.DeepCopy(level[i].a).(*app.ShutterApp), verifkit.DeepCopy(level[i].b).(*app.ShutterApp), level[i].path, level[i].n}
					m := ""
					if x := verifkit.Catch(func() { m = step(p, act, v) }); x != "" {
						m = x
					}
					r.Count("transitions", 1)
					if m != "" {
						report(p, m)
						continue
					}
					if x, y := core(p.a), core(p.b); x != y {
						if _, dup := probed.LoadOrStore(verifkit.Hash(x+"|"+y), true); !dup {
							switch n := atomic.AddInt64(&probes, 1); {
							case n <= 3:
								_ = probe(p, 1) || probe(p, 2) || probe(p, 3)
							case n <= 200:
								_ = probe(p, 1) || probe(p, 2)
							}
						}
					}
					outs[i] = append(outs[i], p)
					keys[i] = append(keys[i], key(p))
				}
			}
		}) < len(level) {
			complete = false
			break
		}
		var next []*pair
		for i := range outs {
			for j, p := range outs[i] {
				if !seen[keys[i][j]] {
					seen[keys[i][j]] = true
					next = append(next, p)
				}
			}
		}
		level = next
		if len(seen) > s.max {
			r.Incomplete(fmt.Sprintf("%s: stopped after depth %d with %d states", s.name, depth+1, len(seen)))
			depth++
			break
		}
	}
	if len(level) > 0 && level[len(level)/2] != nil {
		r.Sample(level[len(level)/2].path)
	}
	_ = complete
	r.Count("states", int64(len(seen)))
	r.Count("traces", int64(len(level)))
	r.Rule(fmt.Sprintf("%s: every sequence of %d actions up to length %d on two replicas, the second one additionally with none, a burst of mempool checks, saving or a restart before each action: %d pairs of states", s.name, len(s.actions), depth, len(seen)))
}

func TestC01(t *testing.T) {
	r := verifkit.Start("replicas")
	defer r.Finish()
	app.PersistMinDuration = 0
	vote := func(c CfgSpec, ks ...int) []Action { return votes(c, ks...) }
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	g := Genesis{Keypers: []int{0, 1}, Threshold: 2, Validators: genesisVals(3)}
	c := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}
	by := func(i int, name string, m *shmsg.Message) Action { return By(name, m, i)[0] }
	rich := append(vote(a, 0, 1), by(0, "started 1", MStarted(1)), by(1, "check in", MCheckIn(K(1).Val, K(1))), by(0, "sign 12", MDecSig(12, []byte{1})),
		by(1, "eon 10", MEonVote(10)), by(0, "sign 5", MDecSig(5, []byte{1})), by(0, "commit 1", MCommitment(1, Gammas(1, 2))),
		by(0, "eval 1", MEval(1, Bytes(1, 2), [][]byte{{1}, {2}})), by(0, "accuse 1", MAccuse(1, Bytes(1))), by(1, "apologise 1", MApologise(1, Bytes(0), [][]byte{{5}})), EndBlock)
	rich = append(append(rich, vote(c, 0, 2)...), by(1, "sign 22", MDecSig(22, []byte{2})), by(3, "eon 25", MEonVote(25)), by(1, "started 2", MStarted(2)),
		by(1, "vote d", MConfigVote(CfgSpec{Index: 3, Start: 30, Threshold: 1, Keypers: []int{0}})))
	more := append(mixed(), by(0, "sign 5", MDecSig(5, []byte{1})), by(2, "vote d", MConfigVote(CfgSpec{Index: 3, Start: 30, Threshold: 1, Keypers: []int{0}})))
	(&replicas{name: "mixed-late", g: g, prefix: rich, actions: more, depth: r.Pick(2, 4), max: r.Pick(30000, 400000)}).run(r)
	// validator changes of several keys at once
	(&replicas{
		name: "validators", g: g, prefix: vote(a, 0, 1), depth: r.Pick(7, 9), max: r.Pick(30000, 400000),
		actions: all(By("started 1", MStarted(1), 0, 1), By("check in", MCheckIn(K(0).Val, K(0)), 0), By("check in", MCheckIn(K(1).Val, K(1)), 1),
			By("check in", MCheckIn(K(2).Val, K(2)), 2), []Action{EndBlock}),
	}).run(r)
	// competing votes
	g4 := Genesis{Keypers: []int{0, 1, 2, 3}, Threshold: 2, Validators: genesisVals(1)}
	b := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1}}
	(&replicas{
		name: "votes", g: g4, depth: r.Pick(5, 7), max: r.Pick(30000, 400000),
		actions: all(By("vote a", MConfigVote(a), 0, 1, 2), By("vote b", MConfigVote(b), 1, 2, 3), By("eon 5", MEonVote(5), 0, 1, 2), By("eon 6", MEonVote(6), 1, 2, 3), []Action{EndBlock}),
	}).run(r)
	// everything, from the start
	(&replicas{name: "mixed", g: g, actions: mixed(), depth: r.Pick(3, 5), max: r.Pick(30000, 400000)}).run(r)
	// with a key generation running
	(&replicas{name: "mixed-with-eon", g: g, prefix: vote(a, 0, 1), actions: mixed(), depth: r.Pick(3, 5), max: r.Pick(30000, 400000)}).run(r)
}
