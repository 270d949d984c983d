//go:build go1.25
// +build go1.25

package verifdecide

import (
	"context"
	"crypto/rand"
	"encoding/base64"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	realeth "github.com/ethereum/go-ethereum/ethclient"
	"github.com/tendermint/tendermint/rpc/client"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifnet/ethclient"
	tmhttp "github.com/shutter-network/shutter/shuttermint/verifnet/http"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// The whole real keyper is run (LoadState, Run) with stand-ins for both nodes and the file system. All
// its goroutines live in a bubble in which time stands still and where one can wait until everything
// is blocked: at a gate (an operation on the state file, a message or transaction being sent, a
// transaction being waited for) or idle. Then the exploration says what happens next.

// bubble runs f in a bubble. Panics of f come out of it.
func bubble(t *testing.T, f func()) {
	var p interface{}
	synctest.Test(t, func(*testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}

type gateAnswer struct {
	err  error
	res  *rpctypes.ResultBroadcastTxCommit
	rcpt *types.Receipt
}

// gate is a call that waits.
type gate struct {
	kind  string // op, message, tx, receipt
	label string
	key   string // what a message or a transaction contains
	text  string
	seen  bool
	msg   *shmsg.Message
	tx    *types.Transaction
	hash  common.Hash
	ch    chan gateAnswer
}

// life is a keyper process.
type life struct {
	w       *runWorld
	n       int
	fs      *fs.FS
	k       *keyper.Keyper
	cancel  func()
	done    chan struct{}
	deadCh  chan struct{}
	err     error
	mu      sync.Mutex
	dead    bool
	stopped bool
	gates   []*gate
	seen    int             // operations that have been looked at for saved states
	moved   map[string]bool // files that have been renamed
	rands   int
	base    savedStep
	eth     *verifeth.Node
	clients []*realeth.Client
	urls    []string
}

var errDead = errors.New("the process is dead")

func (l *life) isDead() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.dead }

// kill ends the process now.
func (l *life) kill() {
	l.mu.Lock()
	if !l.dead {
		l.dead = true
		close(l.deadCh)
	}
	l.mu.Unlock()
	l.cancel()
}

// wait waits at a gate.
func (l *life) wait(ctx context.Context, g *gate) (gateAnswer, bool) {
	g.ch = make(chan gateAnswer, 1)
	l.mu.Lock()
	if l.dead {
		l.mu.Unlock()
		return gateAnswer{err: errDead}, false
	}
	l.gates = append(l.gates, g)
	l.mu.Unlock()
	select {
	case a := <-g.ch:
		return a, true
	case <-l.deadCh:
		return gateAnswer{err: errDead}, false
	case <-ctx.Done():
		l.remove(g)
		return gateAnswer{err: ctx.Err()}, true
	}
}

func (l *life) remove(g *gate) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i, x := range l.gates {
		if x == g {
			l.gates = append(append([]*gate(nil), l.gates[:i]...), l.gates[i+1:]...)
			return
		}
	}
}

func (l *life) pending() []*gate {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]*gate(nil), l.gates...)
}

// before is called before each operation of the file system.
func (l *life) before(o fs.Op) {
	if l.isDead() {
		runtime.Goexit()
	}
	name := filepath.Base(o.Path)
	if o.Kind == "read" {
		l.w.reads(name)
		return
	}
	// Operations on a file that is not read after a crash make no difference, unless it is one that has
	// been given the name of one that is.
	l.mu.Lock()
	moved := l.moved[name]
	switch o.Kind {
	case "create":
		delete(l.moved, name)
	case "rename":
		l.moved[name] = true
	}
	l.mu.Unlock()
	if o.Kind == "create" || !moved && o.Kind != "rename" {
		if !l.w.isRead(name) {
			return
		}
	}
	if strings.HasPrefix(name, "actions") {
		// made with a lock held, so the keyper cannot wait here
		if !l.w.quiet && l.w.c.Deviate(2, "crash before "+o.String()) == 1 {
			l.w.note("crash before %s", o)
			l.kill()
			runtime.Goexit()
		}
		return
	}
	if _, ok := l.wait(context.Background(), &gate{kind: "op", label: o.String()}); !ok {
		runtime.Goexit()
	}
}

// tmClient is a connection to the Shuttermint node.
type tmClient struct {
	*veriftm.Node
	l *life
}

func (c *tmClient) Start() error          { return nil }
func (c *tmClient) Stop() error           { return nil }
func (c *tmClient) IsRunning() bool       { return true }
func (c *tmClient) Quit() <-chan struct{} { return nil }

// BroadcastTxCommit sends a message.
func (c *tmClient) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*rpctypes.ResultBroadcastTxCommit, error) {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	must(err)
	from, err := shmsg.GetSigner(raw)
	must(err)
	m, err := shmsg.GetMessage(raw)
	must(err)
	t := newTx(c.l.w.sp.me, m.Msg, 0)
	if from != kaddr(c.l.w.sp.me) {
		t.text = "signed by " + from.Hex()
	}
	a, ok := c.l.wait(ctx, &gate{kind: "message", label: fmt.Sprintf("message %T", m.Msg.Payload), key: "message " + t.text, text: t.text, msg: m.Msg})
	if !ok {
		runtime.Goexit()
	}
	return a.res, a.err
}

// Goroutines belong to lives.

var (
	lifeMu sync.Mutex
	lifeOf = map[uint64]*life{}
)

func noteLife(l *life) {
	id := goid()
	lifeMu.Lock()
	lifeOf[id] = l
	lifeMu.Unlock()
	l.w.mu.Lock()
	l.w.goids = append(l.w.goids, id)
	l.w.mu.Unlock()
}

// lifeStream is the randomness of a goroutine that belongs to a keyper process.
func lifeStream() io.Reader {
	id := goid()
	lifeMu.Lock()
	l := lifeOf[id]
	lifeMu.Unlock()
	if l == nil {
		buf := make([]byte, 16384)
		s := string(buf[:runtime.Stack(buf, false)])
		i := strings.LastIndex(s, " in goroutine ")
		if i < 0 {
			return nil
		}
		var parent uint64
		fmt.Sscanf(s[i+len(" in goroutine "):], "%d", &parent)
		lifeMu.Lock()
		l = lifeOf[parent]
		lifeMu.Unlock()
		if l == nil {
			return nil
		}
		noteLife(l)
	}
	l.mu.Lock()
	l.rands++
	seed := int64(l.n*100000 + l.rands)
	l.mu.Unlock()
	r := reader(seed)
	streamMu.Lock()
	streamOf[id] = r
	streamMu.Unlock()
	return r
}

// decision is an action that was decided by a saved step.
type decision struct {
	id       uint64
	key      string
	what     string
	tx       bool
	action   fx.IAction
	reached  int  // how often it was about to be carried out
	landed   int  // how often it took effect
	answered bool // the keyper was told that it is over
	recorded int  // in this life: operations after which the answer is on record, -1: not yet
	done     bool // on record since before this life
}

type savedStep struct {
	counter uint64
	keys    []string
	whats   []string
	txs     []bool
	acts    []fx.IAction
	dump    uint64
	err     string
}

func (s savedStep) end() uint64 { return s.counter + uint64(len(s.keys)) }

// runSpec is a scenario.
type runSpec struct {
	name   string
	me     int
	others []int
	l      uint64
	stag   uint64
	before *runWorld // the end of the scenario before this one
	cfgs   []mainCfg
	script string // B: both nodes have a block; S: Shuttermint only; M: main chain only
	start  func(w *runWorld)
	final  func(w *runWorld, fail func(key, msg string))
	onTick func(w *runWorld, i int)
	mined  func(w *runWorld, tx *types.Transaction)
	txs    []batchTx // what is submitted to batches
	drop   func(who int, m *shmsg.Message) bool
	inject func(ch *dkgChain) []dkgTx
}

// runWorld is everything outside of the keyper.
type runWorld struct {
	sp       *runSpec
	r        *verifkit.Run
	c        *verifkit.Chooser
	mu       sync.Mutex
	ch       *dkgChain
	pend     []dkgTx
	others   []*dkgNode
	tm       *veriftm.Node
	blocks   []*verifeth.Block
	nonce    uint64
	txs      map[common.Hash]*decisionTx
	decided  map[uint64]*decision
	cur      *life
	lives    int
	tick     int
	half     uint64
	receipts map[uint64]contract.CipherExecutionReceipt
	greeting bool
	quiet    bool   // no more deviations
	first    uint64 // first action of this scenario
	log      []string
	goids    []uint64
	rec      *realeth.Client
	recNode  *verifeth.Node
	bad      bool
	files    map[string]string
}

type decisionTx struct {
	tx    *types.Transaction
	mined bool
}

func (w *runWorld) debug(f string, a ...interface{}) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%d "+f+"\n", append([]interface{}{w.tick}, a...)...)
	}
}

func (w *runWorld) note(f string, a ...interface{}) {
	w.mu.Lock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

var (
	readMu  sync.Mutex
	readSet = map[string]bool{"state.gob": true, "actions.gob": true}
)

// reads notes that a file is read; what is never read does not tell crashes apart.
func (w *runWorld) reads(name string) {
	readMu.Lock()
	readSet[name] = true
	readMu.Unlock()
}

func (w *runWorld) isRead(name string) bool {
	readMu.Lock()
	defer readMu.Unlock()
	return readSet[name]
}

func (w *runWorld) fail(key, msg string) {
	w.bad = true
	rep := w.c.Replay(w.r.Job + ":" + w.sp.name)
	rep["events"] = w.log
	w.r.Violation(w.sp.name+":"+key, fmt.Sprintf("%s: %s; %v", w.sp.name, msg, w.log), rep)
}

// start starts a keyper process on files.
func (w *runWorld) startLife(files map[string]string) {
	w.lives++
	l := &life{w: w, n: w.lives, fs: fs.New(files), done: make(chan struct{}), deadCh: make(chan struct{}), moved: map[string]bool{}}
	w.cur = l
	l.fs.Before = l.before
	l.base = w.saved(files["state.gob"])
	cfg := w.sp.config(w.sp.me)
	cfg.DBDir = l.fs.Root
	cfg.EthereumURL, cfg.ShuttermintURL = "ws://eth"+l.fs.Root, "http://tm"+l.fs.Root
	l.urls = []string{cfg.EthereumURL, cfg.ShuttermintURL}
	l.eth = &verifeth.Node{Blocks: w.blocks, Head: uint64(len(w.blocks) - 1), Nonce: w.nonce}
	l.eth.Send = func(tx *types.Transaction) error {
		a, _ := l.wait(context.Background(), &gate{kind: "tx", label: "transaction", key: txKey(tx), tx: tx})
		return a.err
	}
	l.eth.Receipt = func(h common.Hash) (*types.Receipt, error) {
		a, _ := l.wait(context.Background(), &gate{kind: "receipt", label: "receipt", hash: h})
		return a.rcpt, a.err
	}
	w.tm = veriftm.New()
	w.tm.Head, w.tm.Txs = w.ch.node.Head, w.ch.node.Txs
	ethclient.VerifRegister(cfg.EthereumURL, func() *realeth.Client {
		c := l.eth.Client()
		l.mu.Lock()
		l.clients = append(l.clients, c)
		l.mu.Unlock()
		return c
	})
	tmhttp.VerifRegister(cfg.ShuttermintURL, func() client.Client { return &tmClient{w.tm, l} })
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	k := keyper.NewKeyper(cfg)
	l.k = &k
	if err := l.k.LoadState(); err != nil {
		w.fail("load", "the state file left on disk cannot be loaded: "+err.Error())
		close(l.done)
		return
	}
	go func() {
		defer close(l.done)
		noteLife(l)
		l.err = l.k.Run(ctx)
	}()
}

// config is the configuration of a keyper.
func (sp *runSpec) config(i int) keyper.Config {
	cfg := keyperConfig(i, sp.stag, sp.l)
	cfg.KeyBroadcastContractAddress, cfg.ExecutorContractAddress = verifeth.BroadcastAddr, verifeth.ExecutorAddr
	cfg.DepositContractAddress, cfg.KeyperSlasherAddress = verifeth.DepositAddr, verifeth.SlasherAddr
	cfg.BatcherContractAddress, cfg.ConfigContractAddress = verifeth.BatcherAddr, verifeth.ConfigAddr
	return cfg
}

// end waits for the end of a process.
func (l *life) end() {
	<-l.done
	for _, c := range l.clients {
		c.Close()
	}
	l.fs.Close()
	ethclient.VerifForget(l.urls[0])
	tmhttp.VerifForget(l.urls[1])
	synctest.Wait()
	lifeMu.Lock()
	streamMu.Lock()
	for _, id := range l.w.goids {
		delete(lifeOf, id)
		delete(streamOf, id)
	}
	streamMu.Unlock()
	lifeMu.Unlock()
	l.w.goids = nil
}

func txKey(tx *types.Transaction) string {
	return fmt.Sprintf("transaction to %s: %x", tx.To().Hex(), tx.Data())
}

var (
	savedMu    sync.Mutex
	savedCache = map[uint64]savedStep{}
)

// saved is the step that a state file holds, loaded by the real code.
func (w *runWorld) saved(content string) savedStep {
	if content == "" {
		return savedStep{}
	}
	h := verifkit.Hash(w.sp.name + content)
	savedMu.Lock()
	s, ok := savedCache[h]
	savedMu.Unlock()
	if ok {
		return s
	}
	f := fs.New(map[string]string{"state.gob": content})
	defer f.Close()
	cfg := w.sp.config(w.sp.me)
	cfg.DBDir = f.Root
	k := keyper.NewKeyper(cfg)
	if err := k.LoadState(); err != nil {
		s.err = err.Error()
	} else {
		s.counter = k.State.ActionCounter
		w.actions(&s, k.State.Actions)
		world := k.CurrentWorld()
		s.dump = verifkit.Hash(verifkit.Dump(k.State) + shDump(world.Shutter) + verifkit.Dump(world.MainChain))
	}
	savedMu.Lock()
	savedCache[h] = s
	savedMu.Unlock()
	return s
}

// step is the step that a state file holds; only what is needed is decoded.
func (w *runWorld) step(content string) savedStep {
	var x struct {
		State struct {
			ActionCounter uint64
			Actions       []fx.IAction
		}
	}
	if gob.NewDecoder(strings.NewReader(content)).Decode(&x) != nil {
		return w.saved(content)
	}
	s := savedStep{counter: x.State.ActionCounter}
	w.actions(&s, x.State.Actions)
	return s
}

func (w *runWorld) actions(s *savedStep, l []fx.IAction) {
	for _, a := range l {
		key, tx := w.keyOf(a)
		s.keys, s.txs, s.whats, s.acts = append(s.keys, key), append(s.txs, tx), append(s.whats, fmt.Sprint(a)), append(s.acts, a)
	}
}

// keyOf is what carrying out an action sends.
func (w *runWorld) keyOf(a fx.IAction) (string, bool) {
	switch x := a.(type) {
	case *fx.SendShuttermintMessage:
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(x.Msg)
		must(err)
		return "message " + string(b), false
	case fx.MainChainTX:
		caller := verifeth.CallerOf(w.rec, verifapp.K(w.sp.me).Key)
		auth, err := bind.NewKeyedTransactorWithChainID(verifapp.K(w.sp.me).Key, big.NewInt(1337))
		must(err)
		auth.NoSend, auth.Nonce, auth.GasPrice, auth.Context = true, big.NewInt(0), big.NewInt(1), context.Background()
		tx, err := x.SendTX(caller, auth)
		must(err)
		return txKey(tx), true
	}
	panic(fmt.Sprintf("action %T", a))
}

// look notes the steps that have been saved.
func (w *runWorld) look() {
	l := w.cur
	log := l.fs.Log()
	for ; l.seen < len(log); l.seen++ {
		o := log[l.seen]
		if o.Kind != "rename" && !(w.isRead(filepath.Base(o.Path)) && filepath.Base(o.Path) == "state.gob") {
			continue
		}
		if o.Kind == "rename" && filepath.Base(o.To) != "state.gob" {
			continue
		}
		content := l.fs.Files()["state.gob"]
		for _, o := range log[l.seen+1:] {
			if filepath.Base(o.To) == "state.gob" || filepath.Base(o.Path) == "state.gob" {
				content = l.fs.Process(log, l.seen+1).Files["state.gob"]
				break
			}
		}
		s := w.step(content)
		if s.err != "" {
			w.fail("load", "a state file that was saved cannot be loaded: "+s.err)
			return
		}
		if s.counter == l.base.counter && len(s.keys) > 0 && fmt.Sprint(s.keys) == fmt.Sprint(l.base.keys) {
			continue
		}
		if s.counter != l.base.end() {
			w.fail("counter", fmt.Sprintf("a saved step has actions from %d, the step before it had those up to %d", s.counter, l.base.end()))
			return
		}
		for i, k := range s.keys {
			id := s.counter + uint64(i)
			w.decided[id] = &decision{id: id, key: k, what: s.whats[i], tx: s.txs[i], action: s.acts[i], recorded: -1}
		}
		l.base = s
	}
	// everything is blocked, so what was answered has been dealt with
	for _, d := range w.decided {
		if d.answered && !d.done && d.recorded < 0 {
			d.recorded = len(log)
		}
	}
}

// find is the decision that is being carried out.
func (w *runWorld) find(key string) *decision {
	var best *decision
	for _, d := range w.sorted() {
		if d.key == key && (best == nil || (best.done || best.recorded >= 0) && !d.done && d.recorded < 0) {
			best = d
		}
	}
	return best
}

func (w *runWorld) sorted() []*decision {
	var l []*decision
	for _, d := range w.decided {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// arrive judges calls that have just been made.
func (w *runWorld) arrive(g *gate) {
	if g.kind != "message" && g.kind != "tx" || g.seen {
		return
	}
	g.seen = true
	d := w.find(g.key)
	if d == nil {
		w.fail("forged", fmt.Sprintf("sends a %s that no saved step has decided: %.200q", g.label, g.key))
		return
	}
	d.reached++
	if d.done || d.recorded >= 0 {
		w.fail("again", fmt.Sprintf("carries out action %d (%s) again after it was completed and recorded", d.id, d.what))
	}
}

// restart starts a new process on what a crash has left.
func (w *runWorld) restart(img fs.Image, k int, log []fs.Op, machine bool) {
	durable := k
	if machine {
		for durable > 0 && log[durable-1].Kind != "sync" {
			durable--
		}
	}
	files := map[string]string{}
	for n, d := range img.Files {
		if w.isRead(n) {
			files[n] = d
		}
	}
	s := w.saved(files["state.gob"])
	if s.err != "" {
		w.fail("load", "the state file left on disk cannot be loaded: "+s.err)
		return
	}
	for _, d := range w.sorted() {
		if d.id >= s.end() {
			if d.reached > 0 {
				w.fail("unsaved", fmt.Sprintf("action %d (%s) was carried out, but the step that decided it is not on disk", d.id, d.what))
				return
			}
			delete(w.decided, d.id)
			continue
		}
		if i := int(d.id - s.counter); d.id >= s.counter && s.keys[i] != d.key {
			w.fail("identity", fmt.Sprintf("action %d is %s after the restart, it was %s", d.id, s.whats[i], d.what))
			return
		}
		if d.recorded >= 0 {
			d.done = d.recorded <= durable
			if !d.done {
				d.answered = false
			}
		} else {
			d.answered = d.done
		}
		d.recorded = -1
	}
	if s.end() < w.first || s.end() > w.first && w.decided[s.end()-1] == nil {
		w.fail("counter", "the state on disk is one that was never saved")
		return
	}
	w.files = files
	x := w.hash(files)
	w.c.Prune(x)
	w.r.Distinct("states", x)
	w.startLife(files)
}

// hash is the state of everything, with these files on disk.
func (w *runWorld) hash(files map[string]string) uint64 {
	h := []interface{}{w.saved(files["state.gob"]).dump, w.pendingText(files["actions.gob"]), w.ch.digest, w.tick, w.lives, w.nonce, w.half, len(w.blocks)}
	for _, t := range w.pend {
		h = append(h, t.from, t.text)
	}
	for _, n := range w.others {
		h = append(h, n.snap.hash, n.view.key)
	}
	for _, d := range w.sorted() {
		x := *d
		x.action = nil
		x.reached, x.recorded = min(x.reached, 1), min(x.recorded, 0)
		h = append(h, x)
	}
	var hs []string
	for x, t := range w.txs {
		hs = append(hs, fmt.Sprint(x, t.mined))
	}
	sort.Strings(hs)
	return verifkit.Hash(fmt.Sprint(h, hs))
}

// pendingDump is what a file of pending actions holds.
func (w *runWorld) pendingText(content string) string {
	if content == "" {
		return ""
	}
	f := fs.New(map[string]string{"actions.gob": content})
	defer f.Close()
	p := fx.NewPendingActions(f.Root + "/actions.gob")
	if err := p.Load(); err != nil {
		return fmt.Sprintf("unreadable, %d bytes", len(content))
	}
	var b strings.Builder
	fmt.Fprint(&b, p.CurrentID)
	for _, id := range p.SortedIDs() {
		k, _ := w.keyOf(p.ActionMap[id])
		fmt.Fprintf(&b, "|%d %s %x", id, k, p.MainChainTXHashes[id])
	}
	return b.String()
}

// crashed chooses what a crash leaves and restarts.
func (w *runWorld) crashed() {
	l := w.cur
	l.kill()
	l.mu.Lock()
	l.mu.Unlock()
	log := l.fs.Log()
	l.end()
	k := len(log)
	images := []fs.Image{l.fs.Process(log, k)}
	machine := []bool{false}
	seen := map[string]bool{w.imageKey(images[0]): true}
	for _, m := range l.fs.Machine(log, k) {
		if key := w.imageKey(m); !seen[key] {
			seen[key] = true
			images, machine = append(images, m), append(machine, true)
		}
	}
	i := 0
	if len(images) > 1 {
		i = w.c.Choose(len(images), "what is left on disk")
	}
	w.debug("crash, head %d", w.ch.node.Head)
	w.note("left on disk: %s", images[i].What)
	w.r.Count("crashes", 1)
	w.restart(images[i], k, log, machine[i])
}

func (w *runWorld) imageKey(m fs.Image) string {
	var l []string
	for n, d := range m.Files {
		if w.isRead(n) {
			// The order of what is in these files is not always the same.
			x := fmt.Sprintf("unreadable, %d bytes", len(d))
			if n == "actions.gob" {
				x = w.pendingText(d)
			} else if n == "state.gob" {
				if s := w.saved(d); s.err == "" {
					x = fmt.Sprint(s.counter, s.keys, s.dump)
				}
			} else {
				x = fmt.Sprintf("%x", verifkit.Hash(d))
			}
			l = append(l, n+":"+x)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// stop ends the process in an orderly way.
func (w *runWorld) stop() map[string]string {
	l := w.cur
	l.mu.Lock()
	l.stopped = true
	l.mu.Unlock()
	l.cancel()
	for {
		synctest.Wait()
		select {
		case <-l.done:
		default:
			moved := false
			for _, g := range l.pending() {
				if g.kind == "op" {
					l.remove(g)
					g.ch <- gateAnswer{}
					moved = true
				} else if g.kind != "message" {
					l.remove(g)
					g.ch <- gateAnswer{err: errors.New("connection closed")}
					moved = true
				}
			}
			if !moved {
				time.Sleep(2 * time.Second)
			}
			continue
		}
		break
	}
	w.look()
	l.kill()
	l.end()
	return l.fs.Files()
}

// deliver puts a message into the next block.
func (w *runWorld) deliver(g *gate) *rpctypes.ResultBroadcastTxCommit {
	t := newTx(w.sp.me, g.msg, 0)
	w.pend = append(w.pend, t)
	next := w.ch.block(w.pend)
	w.debug("%T for block %d of %v", g.msg.Payload, next.node.Head, next.eons)
	l := next.node.Txs[next.node.Head]
	res := &rpctypes.ResultBroadcastTxCommit{Height: next.node.Head, DeliverTx: l[len(l)-1]}
	w.find(g.key).landed++
	return res
}

func (w *runWorld) mine(g *gate) {
	w.find(g.key).landed++
	w.txs[g.tx.Hash()] = &decisionTx{tx: g.tx}
	w.nonce++
	w.cur.eth.Lock(func() { w.cur.eth.Nonce = w.nonce })
	if w.sp.mined != nil {
		w.sp.mined(w, g.tx)
	}
}

// answer lets a gate's call succeed.
func (w *runWorld) answer(g *gate) {
	l := w.cur
	var a gateAnswer
	switch g.kind {
	case "message":
		a.res = w.deliver(g)
		w.find(g.key).answered = true
	case "tx":
		w.mine(g)
	case "receipt":
		t := w.txs[g.hash]
		if t == nil {
			w.fail("hash", "waits for a transaction that was never sent")
			return
		}
		a.rcpt = &types.Receipt{Status: 1, TxHash: g.hash, BlockNumber: big.NewInt(1), GasUsed: 5, Logs: []*types.Log{}}
		if d := w.find(txKey(t.tx)); d != nil {
			d.answered = true
		}
	}
	l.remove(g)
	g.ch <- a
}

// push makes blocks and tells the keyper.
func (w *runWorld) push(what byte) {
	if len(w.cur.pending()) > 0 {
		what = 'S' // with more than one event waiting, which one is taken would be up to chance
	}
	if what == 'M' || what == 'B' {
		b := w.nextMain()
		w.blocks = append(w.blocks, b)
		w.cur.eth.Lock(func() { w.cur.eth.Blocks = w.blocks })
		if w.cur.eth.Subscriptions() > 0 {
			must(w.cur.eth.PushHead(uint64(len(w.blocks) - 1)))
		}
		synctest.Wait()
		if !w.greeting && what == 'B' {
			if !w.settle(true) || len(w.cur.pending()) > 0 {
				return
			}
		}
	}
	if what == 'S' || what == 'B' {
		mview := w.mainView(uint64(len(w.blocks) - 1))
		for _, n := range w.others {
			n.view = n.view.follow(w.ch)
			o := decideStep(n.who, n.cfg, n.snap, n.view, mview, w.mainKey())
			if o.panics != "" {
				panic(o.panics)
			}
			n.snap = o.snap
			for _, a := range o.actions {
				if m, ok := a.(*fx.SendShuttermintMessage); ok && !(w.sp.drop != nil && w.sp.drop(n.who, m.Msg)) {
					w.pend = append(w.pend, newTx(n.who, m.Msg, 0))
				}
			}
			n.view = n.view.filter(n.snap.st.GetShutterFilter(mview))
		}
		if w.sp.inject != nil {
			w.pend = append(w.pend, w.sp.inject(w.ch)...)
		}
		w.ch = w.ch.block(w.pend)
		w.pend = nil
		w.tm.Lock(func() { w.tm.Txs = w.ch.node.Txs })
		w.tm.TryPush(w.ch.node.Head)
		synctest.Wait()
	}
}

// mainView is the main chain as the others see it.
func (w *runWorld) mainView(block uint64) *observe.MainChain {
	mainMu.Lock()
	defer mainMu.Unlock()
	k := w.mainKey()
	if v := mainViews[k]; v != nil {
		return v
	}
	m := &mainChain{cfgs: w.sp.cfgs, txs: w.sp.txs, half: w.half}
	mainViews[k] = m.view(block, true)
	return mainViews[k]
}

func (w *runWorld) mainKey() string {
	return fmt.Sprintf("%s/%d/%d", w.sp.name, len(w.blocks), w.half)
}

var (
	mainMu    sync.Mutex
	mainViews = map[string]*observe.MainChain{}
)

// nextMain is the next block of the main chain.
func (w *runWorld) nextMain() *verifeth.Block {
	n := len(w.blocks)
	b := &verifeth.Block{HalfSteps: w.half, Receipts: map[uint64]contract.CipherExecutionReceipt{}}
	for h, x := range w.receipts {
		b.Receipts[h] = x
	}
	for _, c := range w.sp.cfgs {
		if c.scheduled <= uint64(n) {
			b.Configs = append(b.Configs, c.contract())
		}
	}
	var rolling [2]map[uint64]common.Hash
	rolling[0], rolling[1] = map[uint64]common.Hash{}, map[uint64]common.Hash{}
	tmp := &verifeth.Node{Blocks: append(append([]*verifeth.Block(nil), w.blocks...), b)}
	for _, t := range w.sp.txs {
		kind := uint8(1)
		if t.cipher {
			kind = 0
		}
		old := rolling[kind][t.batch]
		rolling[kind][t.batch] = crypto.Keccak256Hash(t.data, old[:])
		if t.block == uint64(n) {
			tmp.AddLog(n, verifeth.BatcherAddr, "TransactionAdded", t.batch, kind, t.data, [32]byte(rolling[kind][t.batch]))
		}
	}
	return b
}

// settle lets everything finish that is under way. op: deviations are possible.
func (w *runWorld) settle(free bool) bool {
	for n := 0; !w.bad; n++ {
		synctest.Wait()
		l := w.cur
		if l.isDead() {
			w.look0()
			w.crashed()
			if !w.bad {
				w.greet()
			}
			continue
		}
		w.look()
		gates := l.pending()
		for _, g := range gates {
			w.arrive(g)
		}
		if w.bad {
			return false
		}
		select {
		case <-l.done:
			w.fail("ended", fmt.Sprintf("the keyper ended by itself: %v", l.err))
			return false
		default:
		}
		if len(gates) == 0 {
			return true
		}
		for _, g := range gates {
			w.debug("gate %s %s", g.kind, g.label)
		}
		sort.SliceStable(gates, func(i, j int) bool { return rank(gates[i]) < rank(gates[j]) })
		g := gates[0]
		if g.kind == "op" {
			opts := []string{"", "crash before " + g.label}
			for _, o := range gates[1:] {
				if o.kind != "op" {
					opts = append(opts, "answer "+o.label+" before "+g.label)
				}
			}
			o := w.deviate(len(opts), g.label)
			if o > 0 {
				w.note("%s", opts[o])
			}
			switch {
			case o == 1:
				l.kill()
				continue
			case o > 1:
				w.answer(gates[o-1])
				continue
			}
			w.answer(g)
			continue
		}
		opts := []string{""}
		if free && !w.quiet {
			opts = append(opts, "crash before "+g.label, "the node fails at "+g.label)
			if g.kind == "receipt" {
				opts = append(opts, "not mined yet")
			} else {
				opts = append(opts, "crash after "+g.label, g.label+" takes effect, but the answer gets lost")
			}
			if n < 50 {
				opts = append(opts, "later: "+g.label)
				for _, o := range gates[1:] {
					opts = append(opts, "first "+o.label)
				}
			}
		}
		o := w.deviate(len(opts), g.label)
		if o > 0 {
			w.note("%s", opts[o])
		}
		switch {
		case o == 0:
			w.answer(g)
		case o == 1:
			l.kill()
		case o == 2:
			l.remove(g)
			g.ch <- gateAnswer{err: errors.New("connection refused")}
			time.Sleep(1500 * time.Millisecond)
		case o == 3 && g.kind == "receipt":
			l.remove(g)
			g.ch <- gateAnswer{}
		case o == 4 && g.kind == "receipt":
			return true
		case o == 3:
			w.effect(g)
			l.kill()
		case o == 4:
			w.effect(g)
			l.remove(g)
			g.ch <- gateAnswer{err: errors.New("connection reset")}
			time.Sleep(1500 * time.Millisecond)
		case o == 5 && g.kind != "receipt":
			return true
		default:
			off := 5
			if g.kind == "receipt" {
				off = 4
			}
			w.answer(gates[o-off])
		}
	}
	return false
}

func (w *runWorld) deviate(n int, label string) int {
	if w.quiet {
		return 0
	}
	return w.c.Deviate(n, label)
}

func (w *runWorld) effect(g *gate) {
	if g.kind == "message" {
		w.deliver(g)
	} else {
		w.mine(g)
	}
}

// look0 notes saved steps of a process that has died.
func (w *runWorld) look0() {
	for _, d := range w.decided {
		if d.recorded < 0 && !d.done && d.answered {
			d.answered = false // the record may be incomplete
		}
	}
	w.look()
}

func rank(g *gate) int {
	switch g.kind {
	case "op":
		return 0
	case "message":
		return 1
	case "tx":
		return 2
	}
	return 3
}

// greet lets a new process see both chains.
func (w *runWorld) greet() {
	synctest.Wait()
	w.greeting = true
	w.push('B')
	w.greeting = false
}

// run is one execution.
func (sp *runSpec) run(r *verifkit.Run, c *verifkit.Chooser) {
	w := &runWorld{sp: sp, r: r, c: c, decided: map[uint64]*decision{}, txs: map[common.Hash]*decisionTx{}}
	w.recNode = &verifeth.Node{Blocks: []*verifeth.Block{{}}}
	w.rec = w.recNode.Client()
	defer func() {
		if w.cur != nil {
			w.cur.kill()
			w.cur.end()
		}
		w.rec.Close()
		synctest.Wait()
	}()
	w.blocks = []*verifeth.Block{{}}
	sp.start(w)
	if s := w.saved(w.files["state.gob"]); s.end() > 0 {
		// what was decided before the scenario is done
		w.first = s.end()
		for i, k := range s.keys {
			id := s.counter + uint64(i)
			w.decided[id] = &decision{id: id, key: k, what: s.whats[i], tx: s.txs[i], action: s.acts[i], recorded: -1, done: true, answered: true, landed: 1}
		}
	}
	w.tick = -1
	w.startLife(w.files)
	if w.bad {
		return
	}
	w.greet()
	for w.tick = 0; w.tick < len(sp.script) && !w.bad; w.tick++ {
		if !w.settle(true) {
			return
		}
		if files := w.cur.fs.Files(); len(w.cur.pending()) == 0 && !strings.Contains(w.pendingText(files["actions.gob"]), "|") {
			x := w.hash(files)
			c.Prune(x)
			r.Distinct("states", x)
		}
		o := c.Deviate(3, "between blocks")
		switch o {
		case 1:
			w.note("crash before tick %d", w.tick)
			w.cur.kill()
			w.look0()
			w.crashed()
			if w.bad {
				return
			}
			w.greet()
			w.settle(true)
		case 2:
			w.note("stopped before tick %d", w.tick)
			w.orderly()
			if w.bad {
				return
			}
			w.greet()
			w.settle(true)
		}
		if w.bad {
			return
		}
		if sp.onTick != nil {
			sp.onTick(w, w.tick)
		}
		time.Sleep(1200 * time.Millisecond)
		w.push(sp.script[w.tick])
		r.Count("transitions", 1)
	}
	if !w.settle(true) {
		return
	}
	w.quiet = true
	for i := 0; i < 6; i++ {
		if !w.settle(false) {
			return
		}
		if i == 3 {
			w.orderly()
			if w.bad {
				return
			}
			w.greet()
		}
		time.Sleep(1200 * time.Millisecond)
		w.push('B')
	}
	if !w.settle(false) {
		return
	}
	for _, d := range w.sorted() {
		if d.landed == 0 && !d.action.IsExpired(w.cur.k.CurrentWorld()) {
			w.fail("lost", fmt.Sprintf("action %d (%s) was never carried out", d.id, d.what))
			return
		}
	}
	if sp.final != nil {
		sp.final(w, w.fail)
	}
	r.Count("traces", 1)
}

// orderly stops the keyper and starts it again.
func (w *runWorld) orderly() {
	l := w.cur
	files := w.stop()
	if w.bad {
		return
	}
	if l.err != nil && !errors.Is(l.err, context.Canceled) && !strings.Contains(l.err.Error(), "context canceled") {
		w.note("ended with %v", l.err)
	}
	log := l.fs.Log()
	w.restart(fs.Image{Files: files, What: "all"}, len(log), log, false)
}

var prepareSignals sync.Once

// prepareProcess starts what has to live outside of bubbles.
func prepareProcess() {
	prepareSignals.Do(func() {
		installStreams.Do(func() { rand.Reader = streams{rand.Reader} })
		streamFallback = lifeStream
		signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR1)
	})
}
