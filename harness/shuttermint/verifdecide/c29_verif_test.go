package verifdecide

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// usable says whether a set of keypers can run with a config at all.
func (m mainCfg) usable() bool {
	seen := map[int]bool{}
	for _, k := range m.keypers {
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return m.threshold > 0 && m.threshold <= uint64(len(m.keypers))
}

// nextUsable is the first usable config after the given one among those known at a block.
func nextUsable(cfgs []mainCfg, after, block uint64) (uint64, bool) {
	for i := after + 1; i < uint64(len(cfgs)); i++ {
		if cfgs[i].scheduled > block {
			return 0, false
		}
		if cfgs[i].usable() {
			return i, true
		}
	}
	return 0, false
}

// voteFor describes a vote by what it says.
func voteFor(b *shmsg.BatchConfig) string {
	var ks []string
	for _, k := range b.Keypers {
		ks = append(ks, fmt.Sprintf("%x", k))
	}
	return fmt.Sprintf("config %d from batch %d by %v, threshold %d, contract %x, started %v, validators updated %v",
		b.ConfigIndex, b.StartBatchIndex, ks, b.Threshold, b.ConfigContractAddress, b.Started, b.ValidatorsUpdated)
}

func voteOf(cfgs []mainCfg, i uint64, cfg keyper.Config) string {
	var ks []string
	for _, k := range cfgs[i].keypers {
		ks = append(ks, fmt.Sprintf("%x", kaddr(k)))
	}
	return fmt.Sprintf("config %d from batch %d by %v, threshold %d, contract %x, started %v, validators updated %v",
		i, cfgs[i].start, ks, cfgs[i].threshold, cfg.ConfigContractAddress, false, false)
}

func isOwnCheckIn(cfg keyper.Config, m *shmsg.CheckIn) bool {
	return bytes.Equal(m.ValidatorPublicKey, cfg.ValidatorKey.Public().(ed25519.PublicKey)) &&
		bytes.Equal(m.EncryptionPublicKey, crypto.CompressPubkey(cfg.EncryptionKey.PublicKey.ExportECDSA()))
}

// One keyper.

type regScenario struct {
	name     string
	me       int
	cfgs     []mainCfg
	foreign  []mainCfg // configs that Shuttermint may adopt though the main chain has others; index by its own counting
	adoption int       // most adoptions
}

type regFact struct {
	index   uint64
	keypers []int
}

type regState struct {
	*world
	s         *regScenario
	adopted   []regFact // on the chain
	seen      int       // how many of them the keyper's view has
	checked   bool      // checked in, on the chain
	checkSeen bool
	other     bool
	asked     int // check-ins sent
	votes     map[uint64]string
	highest   uint64
	mknown    uint64 // main chain block of the view
}

func (x *regState) Clone() verifkit.State {
	c := *x
	c.world = x.world.clone()
	c.adopted = append([]regFact(nil), x.adopted...)
	c.votes = map[uint64]string{}
	for k, v := range x.votes {
		c.votes[k] = v
	}
	return &c
}

func (x *regState) Hash() uint64 {
	return verifkit.Hash(fmt.Sprint(x.adopted, x.seen, x.checked, x.checkSeen, x.other, x.asked, x.votes, x.highest, x.block, x.mknown,
		x.mview != nil, len(x.sh.BatchConfigs), x.view == nil, "|", verifkit.Dump(x.st, append([]string{"SyncHeight"}, stateSkip...)...)))
}

func (x *regState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	s, w := x.s, x.world
	r.Count("transitions", 1)
	last := uint64(0)
	if n := len(x.adopted); n > 0 {
		last = x.adopted[n-1].index
	}
	var names []string
	var todo []func()
	add := func(name string, f func()) { names, todo = append(names, name), append(todo, f) }
	add("decide", nil)
	add("decide, main chain not synced", nil)
	add("decide, Shuttermint not synced", nil)
	add("decide without news of the main chain", nil)
	end := uint64(0)
	for _, m := range s.cfgs {
		if m.scheduled > end {
			end = m.scheduled
		}
	}
	if w.mview != nil {
		add("restart", w.restart)
	}
	if w.block < end {
		add("main chain block", func() { w.block++ })
	}
	adopt := func(i uint64, m mainCfg) {
		w.addBlock(evConfig(i, m.start, m.threshold, m.keypers))
		x.adopted = append(x.adopted, regFact{i, m.keypers})
	}
	if len(x.adopted) < s.adoption {
		if i, ok := nextUsable(s.cfgs, last, end); ok {
			add(fmt.Sprintf("Shuttermint adopts config %d", i), func() { adopt(i, s.cfgs[i]) })
		}
		for j, m := range s.foreign {
			i := last + 1 + uint64(j)
			m := m
			add(fmt.Sprintf("Shuttermint adopts a foreign config %d", i), func() { adopt(i, m) })
		}
	}
	if !x.checked {
		add("check-in appears", func() { w.addBlock(evCheckIn(s.me)); x.checked = true })
	}
	if !x.other {
		add("another check-in appears", func() { w.addBlock(evCheckIn(9)); x.other = true })
	}
	i := c.Choose(len(names), "event")
	w.note("%s", names[i])
	if todo[i] != nil {
		todo[i]()
		return true
	}
	fail := func(key, f string, args ...interface{}) bool {
		rep := c.Replay(r.Job + ":" + s.name)
		rep["steps"] = w.log
		r.Violation(s.name+":"+key, fmt.Sprintf("%s: ", s.name)+fmt.Sprintf(f, args...)+fmt.Sprintf("; %v", w.log), rep)
		return false
	}
	w.applyFilters()
	w.node.CatchingUp = i == 2
	if i == 2 {
		w.node.Head++ // so that the view is renewed
	}
	w.syncShutter()
	w.node.CatchingUp = false
	if i != 3 || w.mview == nil {
		w.syncMain(i != 1)
		x.mknown = w.block
	}
	x.seen, x.checkSeen = len(x.adopted), x.checked
	var actions []fx.IAction
	if p := verifkit.Catch(func() { actions = w.decide() }); p != "" {
		return fail("crash", "the keyper crashes: %s", p)
	}
	if i == 2 {
		w.node.Head++
		w.syncShutter()
	}
	member := false
	for _, a := range x.adopted {
		for _, k := range a.keypers {
			member = member || k == s.me
		}
	}
	able := i != 1 && i != 2 && w.mview.IsSynced() && member
	wantVote := ""
	if able {
		if j, ok := nextUsable(s.cfgs, last, x.mknown); ok && j > x.highest {
			wantVote = voteOf(s.cfgs, j, w.cfg)
			x.highest = j
		}
	}
	wantCheckIn := able && !x.checkSeen && x.asked == 0
	gotVote, gotCheckIn := "", 0
	for _, m := range messages(actions) {
		if b := m.GetBatchConfig(); b != nil {
			if gotVote != "" {
				return fail("votes", "the keyper votes twice in one step")
			}
			gotVote = voteFor(b)
			continue
		}
		if ci := m.GetCheckIn(); ci != nil {
			gotCheckIn++
			if !isOwnCheckIn(w.cfg, ci) {
				return fail("check-in-keys", "the keyper checks in with keys that are not its own")
			}
			continue
		}
		return fail("message", "the keyper sends %T", m.Payload)
	}
	if gotVote != wantVote {
		return fail("vote", "the keyper's vote is %q, it should be %q", gotVote, wantVote)
	}
	if want := b2i(wantCheckIn); gotCheckIn != want {
		return fail("check-in", "the keyper checks in %d times, it should %d times (member %v, checked in %v, sent before %v)", gotCheckIn, want, member, x.checkSeen, x.asked > 0)
	}
	x.asked += gotCheckIn
	r.Distinct("decisions", verifkit.Hash(fmt.Sprint(s.name, gotVote, gotCheckIn, last, x.mknown, i)))
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func laterCfg(start, scheduled, threshold uint64, keypers ...int) mainCfg {
	return mainCfg{start: start, block: 100000 + 10*start, span: 5, timeout: 20, threshold: threshold, keypers: keypers, scheduled: scheduled}
}

func regScenarios() []*regScenario {
	nobody := laterCfg(20, 2, 0)
	nobody.span = 0
	return []*regScenario{
		{"member from the start", 1, []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), laterCfg(20, 1, 1, 2, 1), laterCfg(30, 2, 3, 2, 0, 1)}, nil, 3},
		{"joins later", 3, []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), laterCfg(20, 1, 2, 2, 3), laterCfg(25, 2, 1, 0), laterCfg(25, 3, 1, 0, 1)}, nil, 4},
		{"configs that cannot be used", 0, []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), nobody, laterCfg(20, 2, 0, 0, 1), laterCfg(30, 3, 2, 1, 1, 0), laterCfg(40, 4, 2, 1, 0), nobody, laterCfg(50, 5, 1, 0)}, nil, 3},
		{"Shuttermint differs", 0, []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), laterCfg(20, 1, 2, 2, 0), laterCfg(30, 2, 1, 0, 1), laterCfg(40, 3, 1, 1)},
			[]mainCfg{laterCfg(15, 0, 1, 4), laterCfg(16, 0, 1, 4, 0)}, 3},
	}
}

// TestC29: what one keyper registers and votes for.
func TestC29(t *testing.T) {
	r := verifkit.Start("one-keyper")
	defer r.Finish()
	r.Rule("all orders in which one keyper takes steps (with and without news of the main chain, with either chain not synced), restarts, main chain configs become known and Shuttermint adopts them or others or records check-ins, in scenarios of up to seven configs, some of which nobody can run")
	ss := regScenarios()
	for i, s := range ss {
		s := s
		st := r.Search(verifkit.Options{Name: r.Job + ":" + s.name, Bound: 0, Deadline: r.Remaining() / time.Duration(len(ss)-i)},
			func() verifkit.State {
				return &regState{world: newWorld(s.me, 0, 10, &mainChain{cfgs: s.cfgs}), s: s, votes: map[uint64]string{}}
			}, func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*regState).step(r, c) })
		r.Count("states", st.States)
		r.Count("schedules", st.Executions)
		r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "complete": st.Complete})
	}
}

// Several keypers and the application.

type netSpec struct {
	name    string
	keypers []int
	byz     int // position, or -1
	scripts []string
	cfgs    []mainCfg // [1] is voted for at the start by the initial keypers
	calm    int64     // no disturbances start after this block
	horizon int64
	fewer   int
	genesis *dkgChain
}

type regNode struct {
	who    int
	cfg    keyper.Config
	snap   *dkgSnap
	view   *dkgView
	awake  int64
	lag    int64 // sees no main chain news while the head is below this
	dark   int64 // main chain not synced while the head is below this
	behind int64 // Shuttermint node catching up while the head is below this
	block  uint64
	joined map[uint64]int
}

type netState struct {
	sp      *netSpec
	ch      *dkgChain
	nodes   []*regNode
	pending []dkgTx
	script  string
	done    map[int]bool // byzantine one-off messages
	log     []string
}

func (s *netState) Clone() verifkit.State {
	c := *s
	c.nodes = nil
	for _, n := range s.nodes {
		m := *n
		c.nodes = append(c.nodes, &m)
	}
	c.pending = append([]dkgTx(nil), s.pending...)
	c.log = append([]string(nil), s.log...)
	c.done = map[int]bool{}
	for k, v := range s.done {
		c.done[k] = v
	}
	return &c
}

func (s *netState) Hash() uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s%v|", s.ch.digest, s.script, s.done)
	h := s.ch.node.Head
	left := func(x int64) int64 {
		if x <= h {
			return 0
		}
		return x
	}
	for _, n := range s.nodes {
		fmt.Fprintf(&b, "%d,%d,%d,%d,%d,%d,%d|", n.snap.hash, n.view.key, left(n.awake), left(n.lag), left(n.dark), left(n.behind), n.block)
	}
	for _, t := range s.pending {
		fmt.Fprintf(&b, "%d,%d,%d|", t.from, t.release, verifkit.Hash(t.text))
	}
	return verifkit.Hash(b.String())
}

func (s *netState) note(f string, args ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, args...)) }

func (sp *netSpec) prepare() {
	g := verifapp.Genesis{Keypers: sp.cfgs[1].keypers, Threshold: len(sp.cfgs[1].keypers)}
	ch := &dkgChain{app: g.NewApp(), node: veriftm.New(), digest: verifkit.Hash(sp.name), nonces: map[int]uint64{}}
	var txs []dkgTx
	for _, i := range sp.cfgs[1].keypers {
		txs = append(txs, newTx(i, verifapp.MConfigVote(verifapp.CfgSpec{Index: 1, Start: sp.cfgs[1].start, Threshold: sp.cfgs[1].threshold, Keypers: sp.cfgs[1].keypers}), 0))
	}
	sp.genesis = ch.block(txs).block(nil)
	if len(sp.genesis.app.Configs) != 2 {
		panic("the first config is not adopted")
	}
}

func (sp *netSpec) init() verifkit.State {
	s := &netState{sp: sp, ch: sp.genesis, done: map[int]bool{}}
	for _, i := range sp.keypers {
		cfg := keyperConfig(i, 0, 1000) // no phase of key generation ends
		cfg.ConfigContractAddress = common.BytesToAddress(verifapp.MConfigVote(verifapp.CfgSpec{}).GetBatchConfig().ConfigContractAddress)
		s.nodes = append(s.nodes, &regNode{who: i, cfg: cfg, snap: newSnap(keyper.NewState()), view: newView(observe.NewShutter(), 0)})
	}
	return s
}

// due are the configs that Shuttermint has to adopt, in order.
func (sp *netSpec) due() []uint64 {
	var l []uint64
	last := uint64(0)
	for {
		i, ok := nextUsable(sp.cfgs, last, 1<<60)
		if !ok {
			return l
		}
		l = append(l, i)
		last = i
	}
}

var netOptions = []string{"", "asleep for 1 block", "asleep for 3 blocks", "sees no main chain news for 2 blocks", "sees no main chain news for 4 blocks", "main chain not synced for 2 blocks", "Shuttermint not synced for 2 blocks", "restarted"}

func (s *netState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	sp := s.sp
	fail := func(key, f string, args ...interface{}) bool {
		rep := c.Replay(r.Job + ":" + sp.name)
		rep["events"] = s.log
		r.Violation(sp.name+":"+key, fmt.Sprintf("%s: ", sp.name)+fmt.Sprintf(f, args...)+fmt.Sprintf("; misbehaviour %q; %v", s.script, s.log), rep)
		return false
	}
	if sp.byz >= 0 && s.script == "" {
		s.script = sp.scripts[c.Choose(len(sp.scripts), "misbehaviour")]
		return true
	}
	r.Count("transitions", 1)
	head := s.ch.node.Head
	main := uint64(head) // the main chain grows at the same pace
	for i, n := range s.nodes {
		if head < n.awake {
			continue
		}
		if head <= sp.calm && i != sp.byz {
			o := c.Deviate(len(netOptions), "keyper")
			if o > 0 {
				s.note("block %d: keyper %d %s", head, n.who, netOptions[o])
			}
			switch o {
			case 1, 2:
				n.awake = head + 1 + int64(o-1)*2
				continue
			case 3, 4:
				n.lag = head + 2*int64(o-2)
			case 5:
				n.dark = head + 2
			case 6:
				n.behind = head + 2
			case 7:
				m := (&mainChain{cfgs: sp.cfgs}).view(n.block, true)
				d := dkgNode{who: n.who, cfg: n.cfg, snap: n.snap, view: n.view}
				d.reload(m, fmt.Sprint(sp.name, n.block))
				n.snap, n.view = d.snap, d.view
			}
		}
		if head >= n.lag {
			n.block = main
		}
		if head < n.behind {
			continue // nothing is decided: explored with one keyper
		}
		n.view = n.view.follow(s.ch)
		if head < n.dark {
			continue
		}
		mv := (&mainChain{cfgs: sp.cfgs}).view(n.block, true)
		o := decideStep(n.who, n.cfg, n.snap, n.view, mv, fmt.Sprint(sp.name, n.block))
		if o.panics != "" {
			return fail("crash", "keyper %d: %s", n.who, o.panics)
		}
		n.snap = o.snap
		n.view = n.view.filter(n.snap.st.GetShutterFilter(mv))
		for _, m := range messages(o.actions) {
			if i == sp.byz {
				for _, x := range s.twist(n, m) {
					s.pending = append(s.pending, newTx(n.who, x, head+1))
				}
				continue
			}
			t := newTx(n.who, m, head+1)
			if head <= sp.calm && (m.GetBatchConfig() != nil || m.GetCheckIn() != nil) {
				if d := c.Deviate(3, "delay"); d > 0 {
					t.release += []int64{0, 1, 3}[d]
					s.note("block %d: keyper %d's message %T is delayed by %d", head, n.who, m.Payload, t.release-head-1)
				}
			}
			s.pending = append(s.pending, t)
		}
	}
	var txs, rest []dkgTx
	for _, t := range s.pending {
		if t.release <= head+1 {
			txs = append(txs, t)
		} else {
			rest = append(rest, t)
		}
	}
	s.pending = rest
	if len(txs) > 1 && txs[0].from != txs[len(txs)-1].from && c.Deviate(2, "order") == 1 {
		for a, b := 0, len(txs)-1; a < b; a, b = a+1, b-1 {
			txs[a], txs[b] = txs[b], txs[a]
		}
		s.note("block %d: messages in reverse order", head+1)
	}
	s.ch = s.ch.block(txs)
	due := sp.due()
	got := s.ch.app.Configs[1:]
	for i, g := range got {
		if i >= len(due) {
			return fail("more", "Shuttermint adopts config %d, which is not on the main chain", g.ConfigIndex)
		}
		m := sp.cfgs[due[i]]
		if g.ConfigIndex != due[i] || g.StartBatchIndex != m.start || g.Threshold != m.threshold || fmt.Sprint(g.Keypers) != fmt.Sprint(verifapp.Addrs(m.keypers...)) ||
			g.ConfigContractAddress != s.nodes[0].cfg.ConfigContractAddress {
			return fail("config", "config %d of Shuttermint (from batch %d, threshold %d, %d keypers) is not the main chain's config %d", g.ConfigIndex, g.StartBatchIndex, g.Threshold, len(g.Keypers), due[i])
		}
		if i > 0 && m.scheduled > uint64(head) {
			return fail("early", "Shuttermint adopts config %d before it is on the main chain", due[i])
		}
	}
	if head+1 < sp.horizon {
		return true
	}
	r.Count("traces", 1)
	if len(got) < len(due) {
		return fail("stuck", "Shuttermint has adopted %d of the %d configs of the main chain, the first missing one is config %d", len(got), len(due), due[len(got)])
	}
	for i, n := range s.nodes {
		if i == sp.byz {
			continue
		}
		member := false
		for _, d := range due {
			if _, ok := sp.cfgs[d].has(n.who); ok {
				member = true
			}
		}
		v, ok := s.ch.app.Identities[kaddr(n.who)]
		if ok != member {
			return fail("check-in", "keyper %d is checked in: %v, it is a keyper: %v", n.who, ok, member)
		}
		if ok && v.Ed25519pubkey != string(n.cfg.ValidatorKey.Public().(ed25519.PublicKey)) {
			return fail("validator", "keyper %d is checked in with a validator key that is not its own", n.who)
		}
		view := n.view.follow(s.ch).sh
		for j, x := range s.nodes {
			k, ok := view.KeyperEncryptionKeys[kaddr(x.who)]
			if j == sp.byz || !ok {
				continue
			}
			if !bytes.Equal(crypto.CompressPubkey((*ecies.PublicKey)(k).ExportECDSA()), crypto.CompressPubkey(x.cfg.EncryptionKey.PublicKey.ExportECDSA())) {
				return fail("encryption-key", "keyper %d takes another key for keyper %d's encryption key", n.who, x.who)
			}
		}
	}
	// the key generation of every config has been started with its keypers
	var eons []string
	for _, e := range s.ch.eons {
		eons = append(eons, fmt.Sprint(e.keypers, e.t))
	}
	want := map[string]bool{}
	prev := ""
	for _, d := range due {
		x := fmt.Sprint(verifapp.Addrs(sp.cfgs[d].keypers...), sp.cfgs[d].threshold)
		if x != prev {
			want[x] = true
		}
		prev = x
	}
	for x := range want {
		found := false
		for _, e := range eons {
			found = found || e == x
		}
		if !found {
			return fail("eon", "key generation has not been started for keypers and threshold %s", x)
		}
	}
	r.Distinct("ends", verifkit.Hash(fmt.Sprint(sp.name, s.ch.digest)))
	return false
}

// twist is what a misbehaving keyper makes of its messages.
func (s *netState) twist(n *regNode, m *shmsg.Message) []*shmsg.Message {
	b := m.GetBatchConfig()
	if b == nil {
		if m.GetCheckIn() != nil && s.script == "no check-in" {
			return nil
		}
		return []*shmsg.Message{m}
	}
	c := &shmsg.BatchConfig{StartBatchIndex: b.StartBatchIndex, Keypers: append([][]byte(nil), b.Keypers...), Threshold: b.Threshold,
		ConfigContractAddress: b.ConfigContractAddress, ConfigIndex: b.ConfigIndex}
	switch s.script {
	case "no votes":
		return nil
	case "other threshold":
		c.Threshold = 1
	case "other keypers":
		c.Keypers = [][]byte{kaddr(n.who).Bytes()}
		c.Threshold = 1
	case "next index":
		c.ConfigIndex++
	case "large index":
		c.ConfigIndex = 1 << 40
	case "other contract":
		c.ConfigContractAddress = common.HexToAddress("0x77").Bytes()
	case "started":
		c.Started, c.ValidatorsUpdated = true, true
	case "other start":
		c.StartBatchIndex++
	case "votes twice":
		return []*shmsg.Message{m, m}
	default:
		return []*shmsg.Message{m}
	}
	return []*shmsg.Message{{Payload: &shmsg.Message_BatchConfig{BatchConfig: c}}, m}
}

func netSpecs(thorough bool) []*netSpec {
	at := func(b uint64, m mainCfg) mainCfg { m.scheduled = b; return m }
	nobody := at(6, laterCfg(20, 0, 0))
	nobody.span = 0
	byz := []string{"honest", "no votes", "other threshold", "other keypers", "next index", "large index", "other contract", "started", "other start", "votes twice", "no check-in"}
	l := []*netSpec{
		{name: "growing", keypers: []int{0, 1, 2, 3}, byz: -1, cfgs: []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), at(4, laterCfg(20, 0, 3, 3, 2, 1, 0)), at(7, laterCfg(30, 0, 2, 3, 0))}, calm: 8, horizon: 20},
		{name: "all at once", keypers: []int{0, 1, 2, 3}, byz: -1, cfgs: []mainCfg{guard, laterCfg(10, 0, 3, 0, 1, 2), at(5, laterCfg(10, 0, 2, 1, 2, 3)), at(5, laterCfg(10, 0, 1, 3)), at(5, laterCfg(40, 0, 2, 0, 3))}, calm: 9, horizon: 22, fewer: 1},
		{name: "unusable configs", keypers: []int{0, 1, 2}, byz: -1, cfgs: []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), at(4, nobody), at(6, laterCfg(20, 0, 0, 0, 1)), at(7, laterCfg(20, 0, 2, 1, 0)), at(7, laterCfg(30, 0, 2, 1, 1)), at(8, laterCfg(30, 0, 2, 0, 1, 2))}, calm: 9, horizon: 24, fewer: 1},
		{name: "misbehaviour", keypers: []int{0, 1, 2, 3}, byz: 1, scripts: byz, cfgs: []mainCfg{guard, laterCfg(10, 0, 2, 0, 1, 2), at(4, laterCfg(20, 0, 2, 3, 1, 0)), at(7, laterCfg(30, 0, 2, 3, 0, 1)), at(8, laterCfg(35, 0, 2, 3, 0))}, calm: 9, horizon: 24, fewer: 1},
	}
	_ = thorough
	return l
}

// TestC29Network: several keypers register and vote over the real application.
func TestC29Network(t *testing.T) {
	r := verifkit.Start("network")
	defer r.Finish()
	bound := r.Pick(2, 3)
	r.Rule(fmt.Sprintf("all runs of several real keypers over the real application while configs are added on the main chain that differ from the undisturbed run in at most %d places (the larger scenarios one less): a keyper sleeps, does not see the main chain or Shuttermint for some blocks, or restarts; a vote or check-in is delayed by one or three blocks; a block has its messages in reverse order; with every way of voting wrongly of one misbehaving keyper", bound))
	ss := netSpecs(r.Thorough())
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].fewer > ss[j].fewer })
	for i, s := range ss {
		s := s
		s.prepare()
		st := r.Search(verifkit.Options{Name: r.Job + ":" + s.name, Bound: bound - s.fewer, Deadline: 2 * r.Remaining() / time.Duration(len(ss)-i+1)},
			s.init, func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*netState).step(r, c) })
		r.Count("states", st.States)
		r.Count("schedules", st.Executions)
		r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "schedules": st.Executions, "complete": st.Complete})
	}
}
