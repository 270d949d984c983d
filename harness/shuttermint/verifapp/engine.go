package verifapp

import (
	"crypto/ecdsa"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func eciesPub(p *ecdsa.PublicKey) *ecies.PublicKey { return ecies.ImportECDSAPublic(p) }

// Action is one step of an explored history: a transaction, or the end of a block.
type Action struct {
	Name   string
	Signer int
	Msg    *shmsg.Message
	End    bool // end the block (EndBlock and Commit)
}

// EndBlock is the action that ends a block.
var EndBlock = Action{Name: "end of block", End: true}

// By makes transactions of one message for several signers.
func By(name string, msg *shmsg.Message, signers ...int) []Action {
	var r []Action
	for _, s := range signers {
		r = append(r, Action{Name: fmt.Sprintf("k%d: %s", s, name), Signer: s, Msg: msg})
	}
	return r
}

// Scenario is a bounded exploration.
type Scenario struct {
	Name    string
	Genesis Genesis
	Prefix  []Action // executed first
	Actions []Action
	Depth   int
	Max     int // bound on the number of states, 0 for none
	// Filter may forbid an action in a state (partial order and symmetry reductions).
	Filter func(m *Model, a Action) bool
	// Each, if set, is called after every transition instead of the default comparison.
	Visit func(n *Node, what func(key, msg string))
}

// Node is a state of an exploration.
type Node struct {
	App   *app.ShutterApp
	M     *Model
	Path  []int
	Nonce uint64
}

// DumpApp prints the state of an application without the parts that cannot influence it.
func DumpApp(a *app.ShutterApp) string {
	return verifkit.Dump(a, "LastSaved", "Gobpath", "NonceTracker", "LastBlockHeight")
}

func (n *Node) key() uint64 { return verifkit.Hash(DumpApp(n.App) + "|" + verifkit.Dump(n.M)) }

// Problem is a difference between the application and the model.
type Problem struct {
	Cat string // property it belongs to
	Key string
	Msg string
}

func catOf(msg *shmsg.Message) string {
	switch msg.GetPayload().(type) {
	case *shmsg.Message_BatchConfig:
		return "C04"
	case *shmsg.Message_BatchConfigStarted:
		return "C05"
	case *shmsg.Message_CheckIn:
		return "C08"
	case *shmsg.Message_EonStartVote:
		return "C06"
	}
	return "C07"
}

// EvString is a canonical form of a decoded event.
func EvString(e shutterevents.IEvent) string {
	return fmt.Sprintf("%T", e) + verifkit.Dump(e, "Height", "ConfigContractAddress", "Started", "ValidatorsUpdated")
}

// DecodeEvents decodes events as a keyper does.
func DecodeEvents(evs []abcitypes.Event) ([]string, error) {
	var r []string
	for _, e := range evs {
		d, err := shutterevents.MakeEvent(e, 0)
		if err != nil {
			return nil, err
		}
		r = append(r, EvString(d))
	}
	return r, nil
}

func split(evs []string) (eon, other []string) {
	for _, e := range evs {
		if strings.HasPrefix(e, "*shutterevents.EonStarted") {
			eon = append(eon, e)
		} else {
			other = append(other, e)
		}
	}
	return
}

// Step performs an action on the application and the model and compares the results.
func Step(g *Genesis, a *app.ShutterApp, m *Model, act Action, nonce uint64) (ps []Problem) {
	ps, _ = stepBoth(g, a, m, act, nonce)
	return ps
}

// stepBoth also returns a word for what happened.
func stepBoth(g *Genesis, a *app.ShutterApp, m *Model, act Action, nonce uint64) (ps []Problem, what string) {
	bad := func(cat, key, msg string) { ps = append(ps, Problem{cat, key, msg}) }
	if act.End {
		h := a.Info(abcitypes.RequestInfo{}).LastBlockHeight + 1
		a.BeginBlock(abcitypes.RequestBeginBlock{})
		res := a.EndBlock(abcitypes.RequestEndBlock{Height: h})
		a.Commit()
		m.EndBlock()
		what = "block"
		if len(res.ValidatorUpdates) > 0 {
			what = "block_with_validator_updates"
		}
		diverged := false
		for i, c := range m.Configs {
			if i < len(a.Configs) && a.Configs[i].Started != c.Started {
				bad("C05", "started", fmt.Sprintf("config %d: started is %t, should be %t", c.Index, a.Configs[i].Started, c.Started))
				diverged = true
			}
		}
		if diverged {
			return ps, what
		}
		if m.DevMode {
			if len(res.ValidatorUpdates) > 0 {
				bad("C08", "devmode", "validator updates in development mode")
			}
		} else if e := m.ApplyUpdates(res.ValidatorUpdates); e != "" {
			bad("C08", "validators", e)
		}
		return ps, what
	}
	cat := catOf(act.Msg)
	want := m.Deliver(K(act.Signer).Addr, act.Msg)
	res := a.DeliverTx(abcitypes.RequestDeliverTx{Tx: Tx(g.Chain(), act.Signer, nonce, act.Msg)})
	if (res.Code == 0) != want.OK && (cat == "C07" || cat == "C08") {
		bad(cat, "code", fmt.Sprintf("code %d (%s), should be accepted: %t", res.Code, res.Log, want.OK))
	}
	what = "refused_transaction"
	if want.OK {
		what = "accepted_transaction"
	}
	for _, e := range want.Events {
		what += "_" + strings.TrimPrefix(fmt.Sprintf("%T", e), "*shutterevents.")
	}
	got, err := DecodeEvents(res.Events)
	if err != nil {
		bad(cat, "event", "published event cannot be decoded: "+err.Error())
		return ps, what
	}
	var exp []string
	for _, e := range want.Events {
		exp = append(exp, EvString(e))
	}
	gotEon, gotOther := split(got)
	expEon, expOther := split(exp)
	if fmt.Sprint(gotEon) != fmt.Sprint(expEon) {
		bad("C06", "eon", fmt.Sprintf("eons started %v, should be %v", gotEon, expEon))
	}
	if fmt.Sprint(gotOther) != fmt.Sprint(expOther) {
		bad(cat, "events", fmt.Sprintf("published %v, should be %v", gotOther, expOther))
	}
	return ps, what
}

// Run explores the scenario. Problems of property prop are reported; a difference that belongs to
// another property ends the branch.
func (s *Scenario) Run(r *verifkit.Run, prop string) {
	root := &Node{App: s.Genesis.NewApp(), M: NewModel(&s.Genesis)}
	names := func(path []int) []string {
		var ns []string
		for _, a := range s.Prefix {
			ns = append(ns, a.Name)
		}
		for _, i := range path {
			ns = append(ns, s.Actions[i].Name)
		}
		return ns
	}
	report := func(p Problem, path []int) {
		if p.Cat != prop {
			r.Count("branches_ended_by_problems_of_other_properties", 1)
			return
		}
		ns := names(path)
		r.Violation(s.Name+":"+p.Key, fmt.Sprintf("%s: after %s: %s", s.Name, strings.Join(ns, "; "), p.Msg),
			map[string]interface{}{"scenario": s.Name, "genesis": s.Genesis.Keypers, "threshold": s.Genesis.Threshold, "actions": ns})
	}
	step := func(n *Node, act Action, path []int) bool {
		var ps []Problem
		what := ""
		msg := verifkit.Catch(func() { ps, what = stepBoth(&s.Genesis, n.App, n.M, act, n.Nonce) })
		r.Count("outcome_"+what, 1)
		n.Nonce++
		if msg != "" {
			ps = append(ps, Problem{prop, "panic:" + msg, msg})
		}
		for _, p := range ps {
			report(p, path)
		}
		if s.Visit != nil {
			s.Visit(n, func(key, m string) { report(Problem{prop, key, m}, path) })
		}
		return len(ps) == 0
	}
	for _, a := range s.Prefix {
		if !step(root, a, nil) {
			return
		}
	}
	seen := map[uint64]struct{}{root.key(): {}}
	var seenMu sync.Mutex
	level := []*Node{root}
	var trans, states int64
	states = 1
	var leaves [][]int
	complete := true
	depth := 0
	for ; depth < s.Depth && len(level) > 0 && complete; depth++ {
		var next []*Node
		var nextMu sync.Mutex
		var idx int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := atomic.AddInt64(&idx, 1)
					if i >= int64(len(level)) {
						return
					}
					if r.Expired() || (s.Max > 0 && atomic.LoadInt64(&states) > int64(s.Max)) {
						complete = false
						return
					}
					n := level[i]
					for ai, act := range s.Actions {
						if s.Filter != nil && !s.Filter(n.M, act) {
							continue
						}
						c := &Node{
							App: verifkit.DeepCopy(n.App).(*app.ShutterApp), M: n.M.Copy(), Nonce: n.Nonce,
							Path: append(append(make([]int, 0, len(n.Path)+1), n.Path...), ai),
						}
						atomic.AddInt64(&trans, 1)
						if !step(c, act, c.Path) {
							continue
						}
						k := c.key()
						seenMu.Lock()
						_, old := seen[k]
						if !old {
							seen[k] = struct{}{}
						}
						seenMu.Unlock()
						if old {
							continue
						}
						atomic.AddInt64(&states, 1)
						nextMu.Lock()
						next = append(next, c)
						nextMu.Unlock()
					}
					level[i] = nil
				}
			}()
		}
		wg.Wait()
		if len(next) > 0 {
			leaves = leaves[:0]
			for i := 0; i < len(next); i += 1 + len(next)/400 {
				leaves = append(leaves, next[i].Path)
			}
		}
		level = next
	}
	if !complete {
		r.Incomplete(fmt.Sprintf("%s: stopped within depth %d by its limits", s.Name, depth))
	}
	r.Count("states", states)
	r.Count("transitions", trans)
	// replay paths from scratch on a fresh application
	for _, p := range leaves {
		if r.Violations() > 0 {
			break
		}
		n := &Node{App: s.Genesis.NewApp(), M: NewModel(&s.Genesis)}
		for _, a := range s.Prefix {
			step(n, a, nil)
		}
		for i, ai := range p {
			if !step(n, s.Actions[ai], p[:i+1]) {
				break
			}
		}
		r.Count("traces", 1)
	}
	if len(leaves) > 0 {
		r.Sample(map[string]interface{}{"scenario": s.Name, "actions": names(leaves[len(leaves)/2])})
	}
	closed := ""
	if len(level) == 0 && complete {
		closed = " (all reachable states)"
	}
	r.Rule(fmt.Sprintf("%s: every sequence of %d actions up to length %d after a prefix of %d, %d keypers, threshold %d: %d states%s",
		s.Name, len(s.Actions), depth, len(s.Prefix), len(s.Genesis.Keypers), s.Genesis.Threshold, states, closed))
}
