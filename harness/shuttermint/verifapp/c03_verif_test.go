package verifapp

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// ntx is a transaction of the nonce exploration.
type ntx struct {
	signer int
	nonce  uint64
	chain  string
	msg    int // index into nmsgs
}

type nact struct {
	kind string // check, deliver, end, restart
	tx   ntx
}

func (a nact) String() string {
	if a.kind == "end" || a.kind == "restart" {
		return a.kind
	}
	return fmt.Sprintf("%s(k%d nonce %d chain %q message %d)", a.kind, a.tx.signer, a.tx.nonce, a.tx.chain, a.tx.msg)
}

// nmodel is what should happen.
type nmodel struct {
	Used    map[string]bool
	Pending map[string]bool
	Counts  map[int]int
	Members map[common.Address]bool
	M       *Model
}

type nonceExp struct {
	name  string
	g     Genesis
	msgs  []*shmsg.Message
	acts  []nact
	depth int
}

func nkey(t ntx) string { return fmt.Sprintf("%d/%d", t.signer, t.nonce) }

// restart stores and reloads an application.
func restart(a *app.ShutterApp, dir string) (*app.ShutterApp, error) {
	path := filepath.Join(dir, "app.gob")
	old := a.Gobpath
	a.Gobpath = path
	err := a.PersistToDisk()
	a.Gobpath = old
	if err != nil {
		return nil, err
	}
	b, err := app.LoadShutterAppFromFile(path)
	if err != nil {
		return nil, err
	}
	b.Gobpath = old
	return &b, nil
}

type nnode struct {
	a    *app.ShutterApp
	m    *nmodel
	path []int
}

func (e *nonceExp) step(n *nnode, act nact, dir string) (key, msg string) {
	switch act.kind {
	case "end":
		h := n.a.Info(abcitypes.RequestInfo{}).LastBlockHeight + 1
		n.a.EndBlock(abcitypes.RequestEndBlock{Height: h})
		n.a.Commit()
		n.m.M.EndBlock()
		n.m.Pending = map[string]bool{}
		n.m.Counts = map[int]int{}
		return
	case "restart":
		// restarts are explored at block boundaries, where nothing is pending
		b, err := restart(n.a, dir)
		if err != nil {
			return "restart", err.Error()
		}
		n.a = b
		return
	}
	t := act.tx
	tx := Tx(t.chain, t.signer, t.nonce, e.msgs[t.msg])
	k := nkey(t)
	right := t.chain == e.g.Chain()
	if act.kind == "check" {
		want := right && !n.m.Used[k] && !n.m.Pending[k] && n.m.Counts[t.signer] < 10 &&
			(len(n.m.Members) == 0 || n.m.Members[K(t.signer).Addr])
		res := n.a.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
		if want {
			n.m.Pending[k] = true
			n.m.Counts[t.signer]++
		}
		if (res.Code == 0) != want {
			return "checktx", fmt.Sprintf("%s: admitted is %t, should be %t", act, res.Code == 0, want)
		}
		return
	}
	want := Want{}
	if right && !n.m.Used[k] {
		n.m.Used[k] = true
		want = n.m.M.Deliver(K(t.signer).Addr, e.msgs[t.msg])
		for _, c := range n.m.M.Configs {
			for _, a := range c.Keypers {
				n.m.Members[a] = true
			}
		}
	}
	res := n.a.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
	if (res.Code == 0) != want.OK {
		return "delivertx", fmt.Sprintf("%s: executed is %t, should be %t (%s)", act, res.Code == 0, want.OK, res.Log)
	}
	if len(res.Events) != len(want.Events) {
		return "delivertx", fmt.Sprintf("%s: %d events, should be %d", act, len(res.Events), len(want.Events))
	}
	return
}

// run explores with a Chooser, pruning known states.
func (e *nonceExp) run(r *verifkit.Run) {
	dirs, _ := ioutil.TempDir("", "c03")
	defer os.RemoveAll(dirs)
	var level []*nnode
	a := app.NewShutterApp()
	if len(e.g.Keypers) > 0 {
		e.g.Init(a)
	} else {
		a.ChainID = e.g.Chain()
	}
	m := &nmodel{Used: map[string]bool{}, Pending: map[string]bool{}, Counts: map[int]int{}, Members: map[common.Address]bool{}, M: NewModel(&e.g)}
	for _, k := range e.g.Keypers {
		m.Members[K(k).Addr] = true
	}
	level = append(level, &nnode{a: a, m: m})
	key := func(n *nnode) uint64 {
		return verifkit.Hash(verifkit.Dump(n.a, "LastSaved", "Gobpath", "LastBlockHeight") + verifkit.Dump(n.m))
	}
	seen := map[uint64]bool{key(level[0]): true}
	complete := true
	depth := 0
	for ; depth < e.depth && len(level) > 0; depth++ {
		outs := make([][]*nnode, len(level))
		keys := make([][]uint64, len(level))
		ok := r.Parallel(len(level), func(i int) {
			n := level[i]
			dir := filepath.Join(dirs, fmt.Sprint(i))
			for ai, act := range e.acts {
				if act.kind == "restart" {
					if len(n.m.Counts) > 0 || len(n.path) > 0 && e.acts[n.path[len(n.path)-1]].kind == "restart" {
						continue
					}
					os.MkdirAll(dir, 0o700)
				}
				c := &nnode{verifkit.DeepCopy(n.a).(*app.ShutterApp), verifkit.DeepCopy(n.m).(*nmodel), append(append([]int(nil), n.path...), ai)}
				k, msg := "", ""
				if p := verifkit.Catch(func() { k, msg = e.step(c, act, dir) }); p != "" {
					k, msg = p, p
				}
				r.Count("transitions", 1)
				if msg != "" {
					var h []string
					for _, x := range c.path {
						h = append(h, e.acts[x].String())
					}
					r.Violation(e.name+":"+k, fmt.Sprintf("%s: after %s: %s", e.name, strings.Join(h, "; "), msg), map[string]interface{}{"scenario": e.name, "actions": h})
					continue
				}
				outs[i] = append(outs[i], c)
				keys[i] = append(keys[i], key(c))
			}
			os.RemoveAll(dir)
			level[i] = nil
		})
		if ok < len(level) {
			complete = false
		}
		var next []*nnode
		for i := range outs {
			for j, c := range outs[i] {
				if !seen[keys[i][j]] {
					seen[keys[i][j]] = true
					next = append(next, c)
				}
			}
		}
		if len(next) > 0 {
			var h []string
			for _, x := range next[len(next)/2].path {
				h = append(h, e.acts[x].String())
			}
			if depth == e.depth-1 {
				r.Sample(h)
			}
		}
		if !complete {
			break
		}
		level = next
	}
	// from scratch, without copying
	traces := 0
	for i := 0; i < len(level); i += 1 + len(level)/200 {
		if level[i] == nil {
			continue
		}
		a := app.NewShutterApp()
		if len(e.g.Keypers) > 0 {
			e.g.Init(a)
		} else {
			a.ChainID = e.g.Chain()
		}
		m := &nmodel{Used: map[string]bool{}, Pending: map[string]bool{}, Counts: map[int]int{}, Members: map[common.Address]bool{}, M: NewModel(&e.g)}
		for _, k := range e.g.Keypers {
			m.Members[K(k).Addr] = true
		}
		n := &nnode{a: a, m: m}
		os.MkdirAll(dirs, 0o700)
		for _, x := range level[i].path {
			if k, msg := e.step(n, e.acts[x], dirs); msg != "" {
				r.Violation(e.name+":replay:"+k, "from scratch: "+msg, level[i].path)
				break
			}
		}
		traces++
	}
	r.Count("traces", int64(traces))
	r.Count("states", int64(len(seen)))
	closed := ""
	if len(level) == 0 {
		closed = " (all reachable states)"
	}
	r.Rule(fmt.Sprintf("%s: every sequence of %d actions up to length %d: %d states%s", e.name, len(e.acts), depth, len(seen), closed))
}

func TestC03(t *testing.T) {
	r := verifkit.Start("nonces")
	defer r.Finish()
	share, badShare := MShare(1, 1, Share(1)), MShare(1, 1, []byte{1})
	share2 := MShare(1, 2, Share(2))
	g := Genesis{Keypers: []int{0, 1}, Threshold: 1, Validators: genesisVals(1)}
	both := func(ts ...ntx) []nact {
		var as []nact
		for _, t := range ts {
			as = append(as, nact{"check", t}, nact{"deliver", t})
		}
		return as
	}
	end, rst := nact{kind: "end"}, nact{kind: "restart"}
	ch := ChainID
	add := MConfigVote(CfgSpec{Index: 1, Start: 5, Threshold: 1, Keypers: []int{1, 3}})

	(&nonceExp{
		name: "replays", g: g, msgs: []*shmsg.Message{share, badShare, share2}, depth: r.Pick(12, 30),
		acts: append(both(ntx{0, 1, ch, 0}, ntx{0, 1, ch, 1}, ntx{0, 1, ch, 2}, ntx{0, 2, ch, 0}, ntx{1, 1, ch, 0}, ntx{3, 1, ch, 0}, ntx{0, 1, "other", 0}), end, rst),
	}).run(r)
	(&nonceExp{
		name: "chain-ids", g: g, msgs: []*shmsg.Message{share}, depth: r.Pick(12, 30),
		acts: append(both(ntx{0, 1, ch, 0}, ntx{0, 1, "", 0}, ntx{0, 1, ch + "x", 0}, ntx{0, 1, ch[:len(ch)-1], 0}, ntx{0, 2, strings.ToUpper(ch), 0}, ntx{0, 2, ch + "\x00", 0}, ntx{0, 2, ch, 0}), end),
	}).run(r)
	empty := Genesis{Keypers: []int{0}, Threshold: 1, Validators: genesisVals(1), ChainID: "\x00"}
	(&nonceExp{
		name: "chain-id-null-byte", g: empty, msgs: []*shmsg.Message{share}, depth: r.Pick(12, 30),
		acts: append(both(ntx{0, 1, "\x00", 0}, ntx{0, 1, "", 0}, ntx{0, 1, ch, 0}, ntx{0, 2, "\x00\x00", 0}), end, rst),
	}).run(r)
	(&nonceExp{
		name: "nonce-values", g: g, msgs: []*shmsg.Message{share}, depth: r.Pick(7, 30),
		acts: append(both(ntx{0, 0, ch, 0}, ntx{0, 1, ch, 0}, ntx{0, 1<<32 + 1, ch, 0}, ntx{0, 1 << 63, ch, 0}, ntx{0, ^uint64(0), ch, 0}, ntx{0, 1<<63 + 1, ch, 0}), end, rst),
	}).run(r)
	(&nonceExp{
		name: "members", g: g, msgs: []*shmsg.Message{share, add}, depth: r.Pick(9, 30),
		acts: append(both(ntx{0, 1, ch, 0}, ntx{0, 2, ch, 1}, ntx{1, 1, ch, 0}, ntx{3, 1, ch, 0}, ntx{3, 2, ch, 0}, ntx{4, 1, ch, 0}), end, rst),
	}).run(r)
	(&nonceExp{
		name: "no-keypers", g: Genesis{Validators: nil}, msgs: []*shmsg.Message{share}, depth: r.Pick(12, 30),
		acts: append(both(ntx{0, 1, ch, 0}, ntx{1, 1, ch, 0}, ntx{1, 2, ch, 0}, ntx{0, 1, "x", 0}), end, rst),
	}).run(r)
	// the limit of ten: prefixes of consecutive checks are forced by choosing the next free nonce
	limit(r, g, share, ch)
	long(r, g, share, ch)
}

// long delivers many nonces over many blocks and then replays every one of them.
func long(r *verifkit.Run, g Genesis, share *shmsg.Message, ch string) {
	total := r.Pick(400, 4000)
	dir, _ := ioutil.TempDir("", "c03long")
	defer os.RemoveAll(dir)
	for _, perBlock := range []int{1, 7, 50} {
		for _, withRestart := range []bool{false, true} {
			e := &nonceExp{name: "long", g: g, msgs: []*shmsg.Message{share}}
			n := &nnode{a: g.NewApp(), m: &nmodel{Used: map[string]bool{}, Pending: map[string]bool{}, Counts: map[int]int{}, Members: map[common.Address]bool{}, M: NewModel(&g)}}
			for _, k := range g.Keypers {
				n.m.Members[K(k).Addr] = true
			}
			do := func(a nact) {
				r.Count("transitions", 1)
				if k, msg := e.step(n, a, dir); msg != "" {
					r.Violation("long:"+k, fmt.Sprintf("long: %d transactions per block, restarts %t: %s", perBlock, withRestart, msg), a.String())
				}
			}
			for pass := 0; pass < 2; pass++ {
				for i := 0; i < total && !r.Expired(); i++ {
					t := ntx{i % 2, uint64(i / 2 * 3), ch, 0}
					if pass == 1 {
						do(nact{"check", t})
					}
					do(nact{"deliver", t})
					if i%perBlock == 0 {
						do(nact{kind: "end"})
						if withRestart && i%(10*perBlock) == 0 {
							do(nact{kind: "restart"})
						}
					}
				}
			}
		}
	}
	r.Rule(fmt.Sprintf("long: %d nonces of two signers in blocks of 1, 7 and 50, then all of them again, with and without restarts", total))
}

// limit explores all interleavings of checks and deliveries of two signers around the limit.
func limit(r *verifkit.Run, g Genesis, share *shmsg.Message, ch string) {

	// all block histories: per block choose how many to check for k0 and k1 (0, 9, 10, 11, 12), whether to
	// repeat one, deliver some, and end
	st := r.Explore(verifkit.Options{Name: "limit", Bound: -1}, func(c *verifkit.Chooser) {
		e := &nonceExp{name: "limit", g: g, msgs: []*shmsg.Message{share}}
		n := &nnode{a: g.NewApp(), m: &nmodel{Used: map[string]bool{}, Pending: map[string]bool{}, Counts: map[int]int{}, Members: map[common.Address]bool{}, M: NewModel(&g)}}
		for _, k := range g.Keypers {
			n.m.Members[K(k).Addr] = true
		}
		next := [2]uint64{1, 1}
		var hist []string
		do := func(a nact) {
			hist = append(hist, a.String())
			r.Count("transitions", 1)
			if k, msg := e.step(n, a, ""); msg != "" {
				r.Violation("limit:"+k, "limit: "+msg, map[string]interface{}{"exploration": "limit", "choices": c.Choices(), "actions": hist})
			}
		}
		for b := 0; b < 2; b++ {
			first := c.Choose(2, "who first")
			for i := 0; i < 2; i++ {
				who := (first + i) % 2
				cnt := []int{0, 10, 11, 9}[c.Choose(r.Pick(3, 4), "how many")]
				rep := c.Choose(3, "extra")
				for j := 0; j < cnt; j++ {
					do(nact{"check", ntx{who, next[who], ch, 0}})
					if j == 8 && rep == 1 {
						do(nact{"check", ntx{who, next[who], ch, 0}}) // a repetition does not count
						do(nact{"check", ntx{who, 500, "other", 0}})
					}
					if j == 8 && rep == 2 {
						do(nact{"deliver", ntx{who, next[who], ch, 0}})
						do(nact{"check", ntx{who, next[who], ch, 0}})
						do(nact{"check", ntx{3, 1, ch, 0}})
					}
					next[who]++
				}
			}
			do(nact{kind: "end"})
		}
		r.Distinct("limit_histories", verifkit.Hash(fmt.Sprint(c.Choices())))
	})
	r.Count("states", st.Executions)
	r.Rule(fmt.Sprintf("limit: %d histories of blocks with 0, 9, 10 or 11 checks per signer, repetitions and deliveries", st.Executions))
}
