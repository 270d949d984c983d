package verifdecide

import (
	"bytes"
	"context"
	"crypto/rand"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// Several keypers run key generation over the real application. Keyper states, views and chains are
// values that never change once made; what follows from them is computed once and remembered.

// Randomness. A step of a keyper draws from a stream that depends on the keyper and on the number of
// eons it knows, so that a step has only one outcome.

type streams struct{ orig io.Reader }

var (
	streamMu sync.Mutex
	streamOf = map[uint64]io.Reader{}
)

func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func (s streams) Read(p []byte) (int, error) {
	id := goid()
	streamMu.Lock()
	r := streamOf[id]
	streamMu.Unlock()
	if r == nil && streamFallback != nil {
		r = streamFallback()
	}
	if r == nil {
		r = s.orig
	}
	return r.Read(p)
}

var installStreams sync.Once

// streamFallback finds the stream of a goroutine that has none yet.
var streamFallback func() io.Reader

func withStream(seed int64, f func()) {
	installStreams.Do(func() { rand.Reader = streams{rand.Reader} })
	id := goid()
	streamMu.Lock()
	streamOf[id] = reader(seed)
	streamMu.Unlock()
	defer func() {
		streamMu.Lock()
		delete(streamOf, id)
		streamMu.Unlock()
	}()
	f()
}

// dkgTx is a message on its way to the chain.
type dkgTx struct {
	from    int
	msg     *shmsg.Message
	release int64 // first block that may have it
	text    string
}

func newTx(from int, m *shmsg.Message, release int64) dkgTx {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	return dkgTx{from, m, release, string(b)}
}

// landed is a message that the application accepted.
type landed struct {
	height int64
	from   int
	msg    *shmsg.Message
}

// eonFact is what the application started.
type eonFact struct {
	eon     uint64
	batch   uint64
	start   int64
	keypers []common.Address
	t       uint64
}

// dkgChain is the chain up to a block.
type dkgChain struct {
	app    *app.ShutterApp
	node   *veriftm.Node
	digest uint64
	nonces map[int]uint64
	log    []landed
	eons   []eonFact
}

type chainKey struct {
	digest uint64
	txs    uint64
}

var (
	chainMu    sync.Mutex
	chainCache = map[chainKey]*dkgChain{}
)

// block is the chain with one more block.
func (ch *dkgChain) block(txs []dkgTx) *dkgChain {
	var b strings.Builder
	for _, t := range txs {
		fmt.Fprintf(&b, "%d:%d:", t.from, len(t.text))
		b.WriteString(t.text)
	}
	k := chainKey{ch.digest, verifkit.Hash(b.String())}
	chainMu.Lock()
	n := chainCache[k]
	chainMu.Unlock()
	if n != nil {
		return n
	}
	n = &dkgChain{
		app: verifkit.DeepCopy(ch.app).(*app.ShutterApp), node: veriftm.New(), digest: verifkit.Hash(fmt.Sprint(k.digest, k.txs, "b")),
		nonces: map[int]uint64{}, log: append([]landed(nil), ch.log...), eons: append([]eonFact(nil), ch.eons...),
	}
	for i, x := range ch.nonces {
		n.nonces[i] = x
	}
	h := ch.node.Head + 1
	n.node.Head = h
	for x, t := range ch.node.Txs {
		n.node.Txs[x] = t
	}
	n.app.BeginBlock(abcitypes.RequestBeginBlock{})
	for _, t := range txs {
		n.nonces[t.from]++
		res := n.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: verifapp.Tx(verifapp.ChainID, t.from, n.nonces[t.from], t.msg)})
		n.node.Txs[h] = append(n.node.Txs[h], res)
		if res.Code == 0 {
			n.log = append(n.log, landed{h, t.from, t.msg})
		}
		for e := uint64(len(n.eons)) + 1; n.app.DKGMap[e] != nil; e++ {
			c := n.app.DKGMap[e].Config
			f := eonFact{eon: e, start: h, keypers: c.Keypers, t: c.Threshold, batch: c.StartBatchIndex}
			if v := t.msg.GetEonStartVote(); v != nil {
				f.batch = v.StartBatchIndex
			}
			n.eons = append(n.eons, f)
		}
	}
	n.app.EndBlock(abcitypes.RequestEndBlock{Height: h})
	n.app.Commit()
	chainMu.Lock()
	defer chainMu.Unlock()
	if o := chainCache[k]; o != nil {
		return o
	}
	chainCache[k] = n
	return n
}

// dkgView is a view of the Shuttermint chain.
type dkgView struct {
	sh  *observe.Shutter
	key uint64
}

func newView(sh *observe.Shutter, digest uint64) *dkgView {
	verifkit.Dump(sh) // normalises all points
	return &dkgView{sh, verifkit.Hash(fmt.Sprint(digest, "|") + shDump(sh))}
}

type viewKey struct {
	view, chain uint64
	op          string
}

var (
	viewMu    sync.Mutex
	viewCache = map[viewKey]*dkgView{}
)

func cachedView(k viewKey, f func() *dkgView) *dkgView {
	viewMu.Lock()
	v := viewCache[k]
	viewMu.Unlock()
	if v != nil {
		return v
	}
	v = f()
	viewMu.Lock()
	defer viewMu.Unlock()
	if o := viewCache[k]; o != nil {
		return o
	}
	viewCache[k] = v
	return v
}

// follow is the view after catching up with the chain.
func (v *dkgView) follow(ch *dkgChain) *dkgView {
	return cachedView(viewKey{v.key, ch.digest, "follow"}, func() *dkgView {
		sh, err := v.sh.SyncToHead(context.Background(), ch.node)
		must(err)
		if sh != v.sh {
			sh.LastCommittedHeight++ // another block is there already
		}
		return newView(sh, ch.digest)
	})
}

// filter is the view with a filter applied.
func (v *dkgView) filter(f observe.ShutterFilter) *dkgView {
	return cachedView(viewKey{v.key, 0, fmt.Sprint(f)}, func() *dkgView { return newView(v.sh.ApplyFilter(f), v.key) })
}

// dkgSnap is a keyper's own state.
type dkgSnap struct {
	st   *keyper.State
	hash uint64
}

func newSnap(st *keyper.State) *dkgSnap {
	return &dkgSnap{st, verifkit.Hash(verifkit.Dump(st))}
}

// outcome is what a step of a keyper leads to.
type outcome struct {
	snap    *dkgSnap
	actions []fx.IAction
	panics  string
}

type stepKey struct {
	who        int
	snap, view uint64
	main       string
}

var (
	stepMu    sync.Mutex
	stepCache = map[stepKey]*outcome{}
	stepCount int64
)

// decideStep runs one step of the real decision code.
func decideStep(who int, cfg keyper.Config, s *dkgSnap, v *dkgView, m *observe.MainChain, mkey string) *outcome {
	k := stepKey{who, s.hash, v.key, mkey}
	stepMu.Lock()
	o := stepCache[k]
	stepMu.Unlock()
	if o != nil {
		return o
	}
	o = &outcome{}
	st := verifkit.DeepCopy(s.st).(*keyper.State)
	withStream(int64(1000*who+len(v.sh.Eons)), func() {
		o.panics = verifkit.Catch(func() {
			d := keyper.Decider{
				Config: cfg, State: st, Shutter: v.sh, MainChain: m, Actions: []fx.IAction{},
				PhaseLength: keyper.NewConstantPhaseLength(int64(cfg.DKGPhaseLength)),
			}
			d.Decide()
			o.actions = d.Actions
		})
	})
	o.snap = newSnap(st)
	stepMu.Lock()
	defer stepMu.Unlock()
	stepCount++
	if x := stepCache[k]; x != nil {
		return x
	}
	stepCache[k] = o
	return o
}

type reloaded struct {
	snap *dkgSnap
	view *dkgView
}

var (
	reloadMu    sync.Mutex
	reloadCache = map[stepKey]reloaded{}
)

// reload is the keyper's state and view after storing and loading them.
func (n *dkgNode) reload(m *observe.MainChain, mkey string) {
	k := stepKey{n.who, n.snap.hash, n.view.key, mkey}
	reloadMu.Lock()
	o, ok := reloadCache[k]
	reloadMu.Unlock()
	if !ok {
		st, w := reload(n.cfg, n.snap.st, observe.World{Shutter: n.view.sh, MainChain: m})
		o = reloaded{newSnap(st), newView(w.Shutter, n.view.key)}
		reloadMu.Lock()
		reloadCache[k] = o
		reloadMu.Unlock()
	}
	n.snap, n.view = o.snap, o.view
}

// dkgNode is one keyper.
type dkgNode struct {
	who    int
	cfg    keyper.Config
	snap   *dkgSnap
	view   *dkgView
	awake  int64            // no steps while the head is below this
	blind  int64            // main chain not synced while the head is below this
	reboot bool             // restarts before its next step
	marks  map[uint64]uint8 // by eon: phases in which it took a step in time
	owed   map[uint64]uint8 // by eon: nodes whose encryption key it knew in a step of the dealing phase
	late   map[uint64]uint8 // by eon: phases whose messages landed outside of the phase
	votes  map[uint64]int   // requests to restart, by batch
	bcasts map[string]int   // announced eon keys
}

func (n *dkgNode) clone() *dkgNode {
	c := *n
	c.marks, c.late, c.owed = copyBits(n.marks), copyBits(n.late), copyBits(n.owed)
	c.votes, c.bcasts = map[uint64]int{}, map[string]int{}
	for k, v := range n.votes {
		c.votes[k] = v
	}
	for k, v := range n.bcasts {
		c.bcasts[k] = v
	}
	return &c
}

func copyBits(m map[uint64]uint8) map[uint64]uint8 {
	c := map[uint64]uint8{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

const (
	bitDeal = 1 << iota
	bitAccuse
	bitApologise
)

var phaseBits = []uint8{bitDeal, bitAccuse, bitApologise}

// eonOfMsg is the eon and the phase (0, 1, 2) of a key generation message.
func eonOfMsg(m *shmsg.Message) (uint64, int, bool) {
	switch {
	case m.GetPolyCommitment() != nil:
		return m.GetPolyCommitment().Eon, 0, true
	case m.GetPolyEval() != nil:
		return m.GetPolyEval().Eon, 0, true
	case m.GetAccusation() != nil:
		return m.GetAccusation().Eon, 1, true
	case m.GetApology() != nil:
		return m.GetApology().Eon, 2, true
	}
	return 0, 0, false
}

// eonTruth is the public record of an eon's key generation: what landed in time.
type eonTruth struct {
	f           eonFact
	l           int64
	commitments map[common.Address][]*bn256.G2
	inTime      map[common.Address]bool                    // the commitment landed in time
	evals       map[common.Address]map[common.Address]bool // by dealer: receivers whose evaluation landed in time
	accused     map[common.Address]map[common.Address]bool
	apologised  map[common.Address]map[common.Address]bool
}

func (ch *dkgChain) truth(f eonFact, l int64) *eonTruth {
	t := &eonTruth{f: f, l: l, commitments: map[common.Address][]*bn256.G2{}, inTime: map[common.Address]bool{},
		evals: map[common.Address]map[common.Address]bool{}, accused: map[common.Address]map[common.Address]bool{}, apologised: map[common.Address]map[common.Address]bool{}}
	for _, x := range ch.log {
		eon, phase, ok := eonOfMsg(x.msg)
		if !ok || eon != f.eon {
			continue
		}
		in := x.height >= f.start+int64(phase)*l && x.height < f.start+int64(phase+1)*l
		from := kaddr(x.from)
		if m := x.msg.GetPolyCommitment(); m != nil && t.commitments[from] == nil {
			var g []*bn256.G2
			for _, b := range m.Gammas {
				p := new(bn256.G2)
				_, err := p.Unmarshal(b)
				must(err)
				g = append(g, p)
			}
			t.commitments[from], t.inTime[from] = g, in
		}
		if m := x.msg.GetPolyEval(); m != nil && in {
			if t.evals[from] == nil {
				t.evals[from] = map[common.Address]bool{}
			}
			for _, a := range m.Receivers {
				t.evals[from][common.BytesToAddress(a)] = true
			}
		}
		if m := x.msg.GetAccusation(); m != nil && in {
			for _, a := range m.Accused {
				d := common.BytesToAddress(a)
				if t.accused[d] == nil {
					t.accused[d] = map[common.Address]bool{}
				}
				t.accused[d][from] = true
			}
		}
		if m := x.msg.GetApology(); m != nil && in {
			if t.apologised[from] == nil {
				t.apologised[from] = map[common.Address]bool{}
			}
			for _, a := range m.Accusers {
				t.apologised[from][common.BytesToAddress(a)] = true
			}
		}
	}
	return t
}

type setKey struct {
	digest, eon uint64
	key         string
}

var (
	setMu    sync.Mutex
	setCache = map[setKey][]bool{}
)

// dealers finds the set of dealers whose commitments make up an eon key.
func (ch *dkgChain) dealers(t *eonTruth, pk []byte) ([]bool, bool) {
	k := setKey{ch.digest, t.f.eon, string(pk)}
	setMu.Lock()
	s, ok := setCache[k]
	setMu.Unlock()
	if ok {
		return s, s != nil
	}
	n := len(t.f.keypers)
search:
	for m := 1; m < 1<<uint(n); m++ {
		sum := new(bn256.G2).ScalarBaseMult(big.NewInt(0))
		for i := 0; i < n; i++ {
			if m&(1<<uint(i)) != 0 {
				g := t.commitments[t.f.keypers[i]]
				if len(g) == 0 {
					continue search
				}
				sum = new(bn256.G2).Add(sum, g[0])
			}
		}
		if bytes.Equal(sum.Marshal(), pk) {
			s = make([]bool, n)
			for i := range s {
				s[i] = m&(1<<uint(i)) != 0
			}
			break
		}
	}
	setMu.Lock()
	setCache[k] = s
	setMu.Unlock()
	return s, s != nil
}

// ownShare says whether a secret share is the one that belongs to the public share.
func ownShare(secret *shcrypto.EonSecretKeyShare, public *shcrypto.EonPublicKeyShare) bool {
	k := setKey{key: (*big.Int)(secret).String() + "/" + string((*bn256.G2)(public).Marshal())}
	setMu.Lock()
	s, ok := setCache[k]
	setMu.Unlock()
	if !ok {
		s = []bool{bytes.Equal(new(bn256.G2).ScalarBaseMult((*big.Int)(secret)).Marshal(), (*bn256.G2)(public).Marshal())}
		setMu.Lock()
		setCache[k] = s
		setMu.Unlock()
	}
	return s[0]
}

// script is what a misbehaving keyper does: one behaviour for each phase.
type script struct {
	deal, accuse, apologise string
}

var (
	dealScripts      = []string{"honest", "silent", "evals only", "commitment only", "degree+1", "degree-1", "eval wrong", "eval garbage", "evals wrong", "eval too large", "all late", "commitment late", "evals late", "other commitment", "evals swapped", "half the evals", "twice", "eval zero"}
	accuseScripts    = []string{"honest", "none", "one", "all", "early", "late"}
	apologiseScripts = []string{"honest", "none", "wrong", "late", "unasked right", "unasked wrong", "early"}
)

// dkgSpec is a scenario of several keypers generating keys.
type dkgSpec struct {
	name      string
	keypers   []int // all that take part
	byz       int   // position of the misbehaving one, or -1
	l         int64
	t         int
	cfgs      []mainCfg // main chain configs; [1] is accepted at the start
	checkedIn bool
	horizon   int64 // last block
	scripts   []script
	fewer     int
	eons      int // eons that have to be started in an undisturbed run
	genesis   *dkgChain
	mview     *observe.MainChain
	scriptOf  func(eon uint64, s script) script
}

// dkgState is the world of a scenario.
type dkgState struct {
	sp      *dkgSpec
	ch      *dkgChain
	nodes   []*dkgNode
	pending []dkgTx
	script  *script
	log     []string
	final   bool
}

func (s *dkgState) Clone() verifkit.State {
	c := *s
	c.nodes = make([]*dkgNode, len(s.nodes))
	for i, n := range s.nodes {
		c.nodes[i] = n.clone()
	}
	c.pending = append([]dkgTx(nil), s.pending...)
	c.log = append([]string(nil), s.log...)
	return &c
}

func (s *dkgState) Hash() uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", s.ch.digest)
	for _, n := range s.nodes {
		aw := n.awake * 2
		if n.blind == n.awake {
			aw++
		}
		if n.awake <= s.ch.node.Head {
			aw = 0
		}
		if n.reboot {
			aw += 1 << 20
		}
		fmt.Fprintf(&b, "%d,%d,%d,%v,%v,%v,%v,%v|", n.snap.hash, n.view.key, aw, n.marks, n.late, n.owed, n.votes, n.bcasts)
	}
	for _, t := range s.pending {
		fmt.Fprintf(&b, "%d,%d,%d|", t.from, t.release, verifkit.Hash(t.text))
	}
	if s.script != nil {
		sc := *s.script
		// with a single eon, what was to be done in phases that are over does not matter any more
		if s.sp.eons == 1 && len(s.ch.eons) == 1 {
			h, e := s.ch.node.Head, s.ch.eons[0]
			if h > e.start+s.sp.l+1 {
				sc.deal = ""
			}
			if h > e.start+2*s.sp.l+1 {
				sc.accuse = ""
			}
			if h > e.start+3*s.sp.l+1 {
				sc.apologise = ""
			}
		}
		fmt.Fprintf(&b, "%v", sc)
	}
	return verifkit.Hash(b.String())
}

func (s *dkgState) note(f string, args ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(f, args...))
}

// prepare builds the chain up to the first eon.
func (sp *dkgSpec) prepare() {
	g := verifapp.Genesis{Keypers: sp.cfgs[1].keypers, Threshold: len(sp.cfgs[1].keypers)}
	ch := &dkgChain{app: g.NewApp(), node: veriftm.New(), digest: verifkit.Hash(sp.name), nonces: map[int]uint64{}}
	var txs []dkgTx
	if sp.checkedIn {
		for _, i := range sp.cfgs[1].keypers {
			k := verifapp.K(i)
			txs = append(txs, newTx(i, verifapp.MCheckIn(k.Val, k), 0))
		}
	}
	ch = ch.block(txs)
	txs = nil
	c := sp.cfgs[1]
	for _, i := range sp.cfgs[1].keypers {
		txs = append(txs, newTx(i, verifapp.MConfigVote(verifapp.CfgSpec{Index: 1, Start: c.start, Threshold: c.threshold, Keypers: c.keypers}), 0))
	}
	ch = ch.block(txs)
	sp.genesis = ch.block(nil)
	if len(sp.genesis.eons) != 1 {
		panic("the first eon did not start")
	}
	m := &mainChain{cfgs: sp.cfgs}
	sp.mview = m.view(1, true)
}

func (sp *dkgSpec) init() verifkit.State {
	s := &dkgState{sp: sp, ch: sp.genesis}
	for _, i := range sp.keypers {
		cfg := keyperConfig(i, 0, uint64(sp.l))
		// the application was told this contract's address with the first config
		cfg.ConfigContractAddress = common.BytesToAddress(verifapp.MConfigVote(verifapp.CfgSpec{}).GetBatchConfig().ConfigContractAddress)
		s.nodes = append(s.nodes, &dkgNode{who: i, cfg: cfg, snap: newSnap(keyper.NewState()), view: newView(observe.NewShutter(), 0),
			marks: map[uint64]uint8{}, late: map[uint64]uint8{}, owed: map[uint64]uint8{}, votes: map[uint64]int{}, bcasts: map[string]int{}})
	}
	return s
}

// windowAt is the phase in which messages of a step land if all goes well.
func (sp *dkgSpec) windowAt(view, start int64) (int, bool) {
	if view < start {
		return 0, false
	}
	p := (view + 1 - start) / sp.l
	return int(p), p < 3
}

// run takes a step of node i and returns the messages it sends.
func (s *dkgState) run(r *verifkit.Run, i int, fail func(key, msg string)) []*shmsg.Message {
	n := s.nodes[i]
	n.view = n.view.follow(s.ch)
	o := decideStep(n.who, n.cfg, n.snap, n.view, s.sp.mview, s.sp.name)
	if o.panics != "" {
		fail("crash", fmt.Sprintf("keyper %d: %s", n.who, o.panics))
		return nil
	}
	n.snap = o.snap
	c := n.view.sh.CurrentBlock
	for _, e := range s.ch.eons {
		if _, ok := position(e.keypers, kaddr(n.who)); !ok {
			continue
		}
		if p, ok := s.sp.windowAt(c, e.start); ok {
			n.marks[e.eon] |= phaseBits[p]
			if p == 0 {
				for j, x := range s.nodes {
					if n.view.sh.KeyperEncryptionKeys[kaddr(x.who)] != nil {
						n.owed[e.eon] |= 1 << uint(j)
					}
				}
			}
		}
	}
	var out []*shmsg.Message
	for _, a := range o.actions {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			out = append(out, x.Msg)
			if v := x.Msg.GetEonStartVote(); v != nil {
				n.votes[v.StartBatchIndex]++
			}
		case *fx.EonKeyBroadcast:
			n.bcasts[fmt.Sprintf("%d/%d/%x", x.StartBatchIndex, x.KeyperIndex, (*bn256.G2)(x.EonPublicKey).Marshal())]++
		default:
			fail("unexpected-action", fmt.Sprintf("keyper %d decided %T", n.who, a))
		}
	}
	n.view = n.view.filter(n.snap.st.GetShutterFilter(s.sp.mview))
	return out
}

func position(l []common.Address, a common.Address) (int, bool) {
	for i, x := range l {
		if x == a {
			return i, true
		}
	}
	return 0, false
}

var dkgSleeps = []string{"", "asleep for 1 block", "asleep for 2 blocks", "asleep for a phase", "asleep for two phases", "asleep for three phases", "asleep until the end", "main chain not synced", "main chain not synced for a phase", "restarted", "main chain not synced for 2 blocks, then restarted"}

// step is one round: every keyper may take a step, then a block is made.
func (s *dkgState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	sp := s.sp
	failed := false
	fail := func(key, msg string) {
		failed = true
		rep := c.Replay(r.Job + ":" + sp.name)
		rep["events"] = s.log
		r.Violation(sp.name+":"+key, fmt.Sprintf("%s: %s; misbehaviour %v; %v", sp.name, msg, s.script, s.log), rep)
	}
	if sp.byz >= 0 && s.script == nil {
		x := sp.scripts[c.Choose(len(sp.scripts), "misbehaviour")]
		s.script = &x
		return true
	}
	head := s.ch.node.Head
	r.Count("transitions", 1)
	last := head >= sp.horizon
	for i, n := range s.nodes {
		byz := i == sp.byz
		if !last {
			if head < n.blind {
				n.view = n.view.follow(s.ch)
			}
			if head < n.awake {
				continue
			}
			if n.reboot {
				n.reboot = false
				n.view = n.view.follow(s.ch)
				n.reload(sp.mview, sp.name)
			}
			if !byz {
				opt := c.Deviate(len(dkgSleeps), "keyper")
				if opt > 0 {
					s.note("head %d: keyper %d %s", head, n.who, dkgSleeps[opt])
				}
				switch opt {
				case 1, 2:
					n.awake = head + int64(opt)
					continue
				case 3, 4, 5:
					n.awake = head + int64(opt-2)*sp.l
					continue
				case 6:
					n.awake = sp.horizon + 1
					continue
				case 7, 8:
					n.awake = head + 1
					if opt == 8 {
						n.awake = head + sp.l
					}
					n.blind = n.awake
				case 9:
					n.reload(sp.mview, sp.name)
				case 10:
					n.awake = head + 2
					n.blind, n.reboot = n.awake, true
				}
			}
		}
		if !last && head < n.blind {
			// the view of Shuttermint gets on, but no decision is made
			n.view = n.view.follow(s.ch)
			continue
		}
		msgs := s.run(r, i, fail)
		if failed {
			return false
		}
		for _, m := range msgs {
			if byz {
				s.pending = append(s.pending, s.twist(n, m)...)
				continue
			}
			t := newTx(n.who, m, head+1)
			if !last {
				if d := c.Deviate(4, "delay"); d > 0 {
					t.release += []int64{0, 1, 2, sp.l}[d]
					s.note("head %d: keyper %d's message %T is delayed by %d", head, n.who, m.Payload, t.release-head-1)
				}
			}
			s.pending = append(s.pending, t)
		}
	}
	if last {
		s.judge(r, fail)
		r.Count("traces", 1)
		return false
	}
	s.pending = append(s.pending, s.inject(head+1)...)
	var txs, rest []dkgTx
	for _, t := range s.pending {
		if t.release <= head+1 {
			txs = append(txs, t)
		} else {
			rest = append(rest, t)
		}
	}
	s.pending = rest
	if len(txs) > 1 && txs[0].from != txs[len(txs)-1].from && c.Deviate(2, "order") == 1 {
		for a, b := 0, len(txs)-1; a < b; a, b = a+1, b-1 {
			txs[a], txs[b] = txs[b], txs[a]
		}
		s.note("block %d: messages in reverse order", head+1)
	}
	s.ch = s.ch.block(txs)
	for _, t := range txs {
		eon, p, ok := eonOfMsg(t.msg)
		if !ok {
			continue
		}
		for _, e := range s.ch.eons {
			if e.eon == eon && (head+1 < e.start+int64(p)*sp.l || head+1 >= e.start+int64(p+1)*sp.l) {
				for _, n := range s.nodes {
					if n.who == t.from {
						n.late[eon] |= phaseBits[p]
					}
				}
			}
		}
	}
	return true
}

// twist is what a misbehaving keyper makes of its own messages.
func (s *dkgState) twist(n *dkgNode, m *shmsg.Message) []dkgTx {
	head := s.ch.node.Head
	now := []dkgTx{newTx(n.who, m, head+1)}
	eon, p, ok := eonOfMsg(m)
	if !ok {
		return now
	}
	var f eonFact
	for _, e := range s.ch.eons {
		if e.eon == eon {
			f = e
		}
	}
	late := func(m *shmsg.Message) []dkgTx { return []dkgTx{newTx(n.who, m, f.start+int64(p+1)*s.sp.l)} }
	one := func(m *shmsg.Message) []dkgTx { return []dkgTx{newTx(n.who, m, head+1)} }
	sc := *s.script
	if s.sp.scriptOf != nil {
		sc = s.sp.scriptOf(eon, sc)
	}
	victim := s.victim()
	switch p {
	case 0:
		com, ev := m.GetPolyCommitment(), m.GetPolyEval()
		switch sc.deal {
		case "silent":
			return nil
		case "evals only":
			if com != nil {
				return nil
			}
		case "commitment only":
			if ev != nil {
				return nil
			}
		case "all late":
			return late(m)
		case "commitment late":
			if com != nil {
				return late(m)
			}
		case "evals late":
			if ev != nil {
				return late(m)
			}
		case "degree+1":
			if com != nil {
				return one(verifapp.MCommitment(eon, append(append([][]byte(nil), com.Gammas...), new(bn256.G2).ScalarBaseMult(big.NewInt(77)).Marshal())))
			}
		case "degree-1":
			if com != nil {
				return one(verifapp.MCommitment(eon, com.Gammas[:len(com.Gammas)-1]))
			}
		case "other commitment":
			if com != nil {
				g := append([][]byte(nil), com.Gammas...)
				g[0] = new(bn256.G2).ScalarBaseMult(big.NewInt(99)).Marshal()
				return one(verifapp.MCommitment(eon, g))
			}
		case "eval zero":
			if com != nil {
				g := append([][]byte(nil), com.Gammas...)
				g0 := new(bn256.G2)
				_, err := g0.Unmarshal(g[0])
				must(err)
				neg := new(big.Int).Sub(bn256.Order, s.shift(n, f))
				g[0] = new(bn256.G2).Add(g0, new(bn256.G2).ScalarBaseMult(neg)).Marshal()
				return one(verifapp.MCommitment(eon, g))
			}
			if ev != nil {
				return one(verifapp.MEval(eon, ev.Receivers, s.encrypt(n, f, ev, func(_ int, v *big.Int) *big.Int { return s.sub(v, s.shift(n, f)) })))
			}
		case "twice":
			g := one(m)
			if com != nil {
				x := append([][]byte(nil), com.Gammas...)
				x[0] = new(bn256.G2).ScalarBaseMult(big.NewInt(99)).Marshal()
				return append(g, one(verifapp.MCommitment(eon, x))...)
			}
			if ev != nil {
				return append(g, one(verifapp.MEval(eon, ev.Receivers, s.encrypt(n, f, ev, func(int, *big.Int) *big.Int { return big.NewInt(5) })))...)
			}
		case "half the evals":
			if ev != nil {
				return one(verifapp.MEval(eon, ev.Receivers[:1], ev.EncryptedEvals[:1]))
			}
		case "evals swapped":
			if ev != nil && len(ev.Receivers) > 1 {
				x := append([][]byte(nil), ev.EncryptedEvals...)
				x[0], x[1] = x[1], x[0]
				return one(verifapp.MEval(eon, ev.Receivers, x))
			}
		case "eval garbage":
			if ev != nil {
				x := append([][]byte(nil), ev.EncryptedEvals...)
				for i, a := range ev.Receivers {
					if common.BytesToAddress(a) == victim {
						x[i] = bytes.Repeat([]byte{4}, len(x[i]))
					}
				}
				return one(verifapp.MEval(eon, ev.Receivers, x))
			}
		case "eval wrong", "evals wrong", "eval too large":
			if ev != nil {
				return one(verifapp.MEval(eon, ev.Receivers, s.encrypt(n, f, ev, func(i int, v *big.Int) *big.Int {
					if sc.deal != "evals wrong" && common.BytesToAddress(ev.Receivers[i]) != victim {
						return v
					}
					if sc.deal == "eval too large" {
						return new(big.Int).Add(v, bn256.Order)
					}
					return new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), bn256.Order)
				})))
			}
		}
	case 1:
		if sc.accuse != "honest" {
			return nil
		}
	case 2:
		y := m.GetApology()
		switch sc.apologise {
		case "none", "unasked right", "unasked wrong", "early":
			return nil
		case "late":
			return late(m)
		case "wrong":
			var x [][]byte
			for range y.PolyEvals {
				x = append(x, []byte{42})
			}
			return one(verifapp.MApologise(eon, y.Accusers, x))
		}
		if sc.deal == "eval zero" {
			var x [][]byte
			for _, b := range y.PolyEvals {
				x = append(x, s.sub(new(big.Int).SetBytes(b), s.shift(n, f)).Bytes())
			}
			return one(verifapp.MApologise(eon, y.Accusers, x))
		}
	}
	return now
}

func (s *dkgState) sub(a, b *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).Sub(a, b), bn256.Order)
}

// shift is the victim's value of a keyper's polynomial; without it, the victim gets zero.
func (s *dkgState) shift(n *dkgNode, f eonFact) *big.Int {
	i, ok := position(f.keypers, s.victim())
	if !ok {
		return big.NewInt(0)
	}
	return s.pure(n, f.eon).Polynomial.EvalForKeyper(i)
}

// victim is the honest keyper that the misbehaviour is aimed at.
func (s *dkgState) victim() common.Address {
	for i, n := range s.nodes {
		if i != s.sp.byz {
			return kaddr(n.who)
		}
	}
	panic("no honest keyper")
}

func (s *dkgState) pure(n *dkgNode, eon uint64) *puredkg.PureDKG {
	for i := range n.snap.st.DKGs {
		if n.snap.st.DKGs[i].Eon == eon {
			return n.snap.st.DKGs[i].Pure
		}
	}
	return nil
}

// encrypt makes encrypted evaluations for the receivers of a message.
func (s *dkgState) encrypt(n *dkgNode, f eonFact, ev *shmsg.PolyEval, change func(i int, v *big.Int) *big.Int) [][]byte {
	var res [][]byte
	for i, a := range ev.Receivers {
		p, _ := position(f.keypers, common.BytesToAddress(a))
		v := change(i, s.pure(n, f.eon).Polynomial.EvalForKeyper(p))
		for _, x := range s.nodes {
			if kaddr(x.who) == common.BytesToAddress(a) {
				withStream(int64(7000+100*n.who+x.who), func() {
					b, err := ecies.Encrypt(rand.Reader, verifapp.K(x.who).EncPub(), v.Bytes(), nil, nil)
					must(err)
					res = append(res, b)
				})
			}
		}
	}
	return res
}

// inject is what a misbehaving keyper sends into a block by itself.
func (s *dkgState) inject(h int64) []dkgTx {
	if s.sp.byz < 0 {
		return nil
	}
	n := s.nodes[s.sp.byz]
	var res []dkgTx
	add := func(m *shmsg.Message) { res = append(res, newTx(n.who, m, h)) }
	victim := s.victim()
	for _, e := range s.ch.eons {
		sc := *s.script
		if s.sp.scriptOf != nil {
			sc = s.sp.scriptOf(e.eon, sc)
		}
		var others [][]byte
		for _, a := range e.keypers {
			if a != kaddr(n.who) {
				others = append(others, a.Bytes())
			}
		}
		at := map[string]int64{"one": e.start + s.sp.l, "all": e.start + s.sp.l, "early": e.start + s.sp.l - 1, "late": e.start + 2*s.sp.l}
		if x, ok := at[sc.accuse]; ok && x == h {
			if sc.accuse == "all" {
				add(verifapp.MAccuse(e.eon, others))
			} else {
				add(verifapp.MAccuse(e.eon, [][]byte{victim.Bytes()}))
			}
		}
		at = map[string]int64{"unasked right": e.start + 2*s.sp.l, "unasked wrong": e.start + 2*s.sp.l, "early": e.start + 2*s.sp.l - 1}
		if x, ok := at[sc.apologise]; ok && x == h {
			p := s.pure(n, e.eon)
			if p == nil || p.Polynomial == nil {
				continue
			}
			var evals [][]byte
			for _, a := range others {
				i, _ := position(e.keypers, common.BytesToAddress(a))
				v := p.Polynomial.EvalForKeyper(i)
				if sc.deal == "eval zero" {
					v = s.sub(v, s.shift(n, e))
				}
				if sc.apologise == "unasked wrong" {
					v = new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), bn256.Order)
				}
				evals = append(evals, v.Bytes())
			}
			add(verifapp.MApologise(e.eon, others, evals))
		}
	}
	return res
}

// judge compares the verdicts of all honest keypers about all eons that are over.
func (s *dkgState) judge(r *verifkit.Run, fail func(key, msg string)) {
	sp := s.sp
	over := 0
	failures := make([]map[uint64]int, len(s.nodes))
	wins := make([]map[string]int, len(s.nodes))
	for i := range s.nodes {
		failures[i], wins[i] = map[uint64]int{}, map[string]int{}
	}
	var verdicts []string
	for _, f := range s.ch.eons {
		if s.ch.node.Head-1 < f.start+3*sp.l-1 {
			for _, n := range s.nodes {
				if _, err := n.snap.st.FindEKGByEon(f.eon); err == nil {
					fail("early", fmt.Sprintf("keyper %d has a result of eon %d before the last phase is over", n.who, f.eon))
					return
				}
			}
			continue
		}
		over++
		t := s.ch.truth(f, sp.l)
		type member struct {
			n       *dkgNode
			pos     int
			idx     int
			ekg     *keyper.EKG
			timely  bool
			excused bool
		}
		var ms []*member
		timely := 0
		for i, n := range s.nodes {
			if i == sp.byz {
				continue
			}
			pos, ok := position(f.keypers, kaddr(n.who))
			if !ok {
				continue
			}
			m := &member{n: n, pos: pos, idx: i}
			bad := n.late[f.eon] | s.waiting(n, f)
			m.timely = n.marks[f.eon] == bitDeal|bitAccuse|bitApologise && bad == 0
			m.excused = n.marks[f.eon]&bitAccuse == 0 || bad&bitAccuse != 0
			if m.timely {
				timely++
			}
			for _, k := range n.snap.st.EKGs {
				if k.Eon == f.eon {
					if m.ekg != nil {
						fail("twice", fmt.Sprintf("keyper %d has two results of eon %d", n.who, f.eon))
						return
					}
					m.ekg = k
				}
			}
			if m.ekg == nil {
				failures[i][f.batch]++
			} else {
				wins[i][fmt.Sprintf("%d/%d/%x", f.batch, pos, (*bn256.G2)(m.ekg.EpochKG.PublicKey).Marshal())]++
			}
			ms = append(ms, m)
		}
		var first *member
		for _, m := range ms {
			if m.ekg == nil {
				continue
			}
			e := m.ekg.EpochKG
			if e.Eon != f.eon || e.Keyper != uint64(m.pos) || e.NumKeypers != uint64(len(f.keypers)) || e.Threshold != f.t || fmt.Sprint(m.ekg.Keypers) != fmt.Sprint(f.keypers) {
				fail("result", fmt.Sprintf("keyper %d's result of eon %d is for keyper %d of %v, threshold %d", m.n.who, f.eon, e.Keyper, m.ekg.Keypers, e.Threshold))
				return
			}
			if len(e.PublicKeyShares) != len(f.keypers) || !ownShare(e.SecretKeyShare, e.PublicKeyShares[m.pos]) {
				fail("share", fmt.Sprintf("keyper %d's share in eon %d is not the one the others attribute to it", m.n.who, f.eon))
				return
			}
			if first == nil {
				first = m
				continue
			}
			if verifkit.Dump(e.PublicKey) != verifkit.Dump(first.ekg.EpochKG.PublicKey) || verifkit.Dump(e.PublicKeyShares) != verifkit.Dump(first.ekg.EpochKG.PublicKeyShares) {
				fail("keys", fmt.Sprintf("keypers %d and %d have different public keys of eon %d", first.n.who, m.n.who, f.eon))
				return
			}
		}
		for _, m := range ms {
			if m.ekg != nil || m.excused {
				continue
			}
			if first != nil {
				fail("verdict", fmt.Sprintf("the generation of eon %d succeeded for keyper %d but failed for keyper %d", f.eon, first.n.who, m.n.who))
				return
			}
			if uint64(timely) >= f.t {
				fail("failed", fmt.Sprintf("the generation of eon %d failed for keyper %d though %d keypers did everything in time and the threshold is %d", f.eon, m.n.who, timely, f.t))
				return
			}
		}
		for _, m := range ms {
			for _, d := range ms {
				me, a := kaddr(m.n.who), kaddr(d.n.who)
				if m != d && d.n.owed[f.eon]&(1<<uint(m.idx)) != 0 && (d.n.late[f.eon]|s.waiting(d.n, f))&bitDeal == 0 && !t.evals[a][me] {
					fail("no-evaluation", fmt.Sprintf("keyper %d knew the encryption key of keyper %d in the dealing phase of eon %d but sent it no evaluation", d.n.who, m.n.who, f.eon))
					return
				}
				if t.accused[a][me] && t.inTime[a] && t.evals[a][me] {
					fail("accusation", fmt.Sprintf("keyper %d accuses keyper %d in eon %d though its commitment and evaluation landed in time", m.n.who, d.n.who, f.eon))
					return
				}
			}
		}
		verdict := "failed"
		if first != nil {
			set, ok := s.ch.dealers(t, (*bn256.G2)(first.ekg.EpochKG.PublicKey).Marshal())
			if !ok {
				fail("key", fmt.Sprintf("the key of eon %d is not made of the dealers' commitments", f.eon))
				return
			}
			verdict = fmt.Sprint(set)
			count := 0
			for i, in := range set {
				a := f.keypers[i]
				if !in {
					continue
				}
				count++
				if !t.inTime[a] {
					fail("late-commitment", fmt.Sprintf("dealer %d counts in eon %d though its commitment landed outside of the dealing phase", i, f.eon))
					return
				}
				if uint64(len(t.commitments[a])) != f.t {
					fail("degree", fmt.Sprintf("dealer %d counts in eon %d though it committed to a polynomial of another degree", i, f.eon))
					return
				}
				for _, m := range ms {
					me := kaddr(m.n.who)
					if m.timely && m.pos != i && !t.evals[a][me] && !t.accused[a][me] {
						fail("late-evaluation", fmt.Sprintf("dealer %d counts in eon %d without accusation by keyper %d, for which it sent no evaluation in the dealing phase", i, f.eon, m.n.who))
						return
					}
				}
				for by := range t.accused[a] {
					if _, ok := position(f.keypers, by); ok && !t.apologised[a][by] {
						fail("no-apology", fmt.Sprintf("dealer %d counts in eon %d though it was accused in time and did not apologise in time", i, f.eon))
						return
					}
				}
			}
			if uint64(count) < f.t {
				fail("too-few", fmt.Sprintf("the key of eon %d is made of %d dealers, the threshold is %d", f.eon, count, f.t))
				return
			}
			for _, m := range ms {
				if m.timely && !set[m.pos] {
					fail("excluded", fmt.Sprintf("keyper %d did everything in time but does not count in eon %d", m.n.who, f.eon))
					return
				}
			}
		}
		for _, m := range ms {
			verdict += fmt.Sprint(m.ekg != nil)
		}
		verdicts = append(verdicts, verdict)
	}
	for i, n := range s.nodes {
		if i == sp.byz {
			continue
		}
		if fmt.Sprint(n.votes) != fmt.Sprint(failures[i]) {
			fail("votes", fmt.Sprintf("keyper %d asked for restarts %v (batch: times), the failed ones are %v", n.who, n.votes, failures[i]))
			return
		}
		if fmt.Sprint(sortedCounts(n.bcasts)) != fmt.Sprint(sortedCounts(wins[i])) {
			fail("announcements", fmt.Sprintf("keyper %d announced %v, its results are %v", n.who, n.bcasts, wins[i]))
			return
		}
		if len(n.snap.st.EKGs) != sumCounts(wins[i]) {
			fail("results", fmt.Sprintf("keyper %d has %d results, %d are of eons it takes part in", n.who, len(n.snap.st.EKGs), sumCounts(wins[i])))
			return
		}
	}
	r.Distinct("verdicts", verifkit.Hash(sp.name+fmt.Sprint(verdicts)))
	if len(s.log) == 0 && (s.script == nil || *s.script == script{"honest", "honest", "honest"}) && over < sp.eons {
		panic(fmt.Sprintf("scenario %s: only %d eons are over", sp.name, over))
	}
}

// waiting says which of a keyper's messages have not been included at all.
func (s *dkgState) waiting(n *dkgNode, f eonFact) uint8 {
	var bits uint8
	for _, t := range s.pending {
		if eon, p, ok := eonOfMsg(t.msg); ok && eon == f.eon && t.from == n.who {
			bits |= phaseBits[p]
		}
	}
	return bits
}

func sumCounts(m map[string]int) int {
	n := 0
	for _, x := range m {
		n += x
	}
	return n
}

func sortedCounts(m map[string]int) []string {
	var l []string
	for k, x := range m {
		l = append(l, fmt.Sprintf("%s x%d", k, x))
	}
	sort.Strings(l)
	return l
}
