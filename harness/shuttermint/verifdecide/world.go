package verifdecide

import (
	"context"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

func kaddr(i int) common.Address { return verifapp.K(i).Addr }

// keyperConfig is the configuration of keyper i.
func keyperConfig(i int, staggering, phase uint64) keyper.Config {
	k := verifapp.K(i)
	seed := crypto.Keccak256([]byte(fmt.Sprintf("verif validator seed %d", i)))
	return keyper.Config{
		SigningKey:              k.Key,
		ValidatorKey:            ed25519.NewKeyFromSeed(seed),
		EncryptionKey:           ecies.ImportECDSA(k.Enc),
		ConfigContractAddress:   common.HexToAddress("0xc0"),
		BatcherContractAddress:  common.HexToAddress("0xba7c4e7000000000000000000000000000000001"),
		ExecutionStaggering:     staggering,
		DKGPhaseLength:          phase,
		MainChainFollowDistance: 0,
		GasPriceMultiplier:      1,
	}
}

// mainCfg is a batch config of the main chain: keypers are account numbers.
type mainCfg struct {
	start, block, span, timeout, threshold uint64
	keypers                                []int
	scheduled                              uint64 // main chain block at which it becomes known
}

func (m mainCfg) contract() contract.BatchConfig {
	c := contract.BatchConfig{
		StartBatchIndex: m.start, StartBlockNumber: m.block, BatchSpan: m.span, ExecutionTimeout: m.timeout,
		Threshold: m.threshold, TransactionGasLimit: 1000 + m.start, TransactionSizeLimit: 1000, BatchSizeLimit: 10000,
	}
	for _, k := range m.keypers {
		c.Keypers = append(c.Keypers, kaddr(k))
	}
	return c
}

func (m mainCfg) has(i int) (int, bool) {
	for p, k := range m.keypers {
		if k == i {
			return p, true
		}
	}
	return 0, false
}

// window is the time in which a batch is open, found by walking along the blocks.
type window struct {
	cfg        int // index of the config
	start, end uint64
}

// windows walks along the main chain up to the given block and returns the batches that opened.
func windows(cfgs []mainCfg, horizon uint64) map[uint64]window {
	w := map[uint64]window{}
	for b := uint64(0); b <= horizon; b++ {
		act := -1
		for i, c := range cfgs {
			if c.block <= b {
				act = i
			}
		}
		if act < 0 || cfgs[act].span == 0 {
			continue
		}
		c := cfgs[act]
		k := c.start
		for s := c.block; s+c.span <= b; s += c.span {
			k++
		}
		x, ok := w[k]
		if !ok {
			x = window{cfg: act, start: b}
		}
		x.end = b + 1
		w[k] = x
	}
	// batches that are still open at the horizon end a full span after they started
	for k, x := range w {
		if x.end == horizon+1 {
			x.end = x.start + cfgs[x.cfg].span
			w[k] = x
		}
	}
	return w
}

// batchTx is a transaction submitted to a batch in a block.
type batchTx struct {
	batch  uint64
	block  uint64
	cipher bool
	data   []byte
}

func rollingHash(txs [][]byte) common.Hash {
	var h common.Hash
	for _, t := range txs {
		h = crypto.Keccak256Hash(t, h[:])
	}
	return h
}

// mainChain is the main chain as its script and the exploration decide it.
type mainChain struct {
	cfgs     []mainCfg
	txs      []batchTx
	half     uint64 // executed half steps
	receipts map[uint64]*contract.CipherExecutionReceipt
	accused  map[uint64]*observe.Accusation
}

// view is what the keyper's view of the main chain is as of a block.
func (m *mainChain) view(block uint64, synced bool) *observe.MainChain {
	v := observe.NewMainChain(0)
	v.CurrentBlock = block
	for _, c := range m.cfgs {
		if c.scheduled <= block {
			v.BatchConfigs = append(v.BatchConfigs, c.contract())
		}
	}
	for _, t := range m.txs {
		if t.block > block {
			continue
		}
		b, ok := v.Batches[t.batch]
		if !ok {
			b = &observe.Batch{BatchIndex: t.batch}
			v.Batches[t.batch] = b
		}
		if t.cipher {
			b.EncryptedTransactions = append(b.EncryptedTransactions, t.data)
			b.EncryptedBatchHash = rollingHash(b.EncryptedTransactions)
		} else {
			b.PlainTransactions = append(b.PlainTransactions, t.data)
			b.PlainBatchHash = rollingHash(b.PlainTransactions)
		}
	}
	v.NumExecutionHalfSteps = m.half
	for h, r := range m.receipts {
		c := *r
		v.CipherExecutionReceipts[h] = &c
	}
	for h, a := range m.accused {
		c := *a
		v.Accusations[h] = &c
	}
	if !synced {
		v.NodeSyncProgress = &ethereum.SyncProgress{}
	}
	return v
}

// world is one keyper with its views of both chains.
type world struct {
	me    int
	cfg   keyper.Config
	st    *keyper.State
	node  *veriftm.Node
	sh    *observe.Shutter // what the follower has
	view  *observe.Shutter // what the keyper has
	main  *mainChain
	block uint64
	mview *observe.MainChain
	queue []observe.ShutterFilter
	chain uint64 // digest of the Shuttermint chain
	log   []string
}

func newWorld(me int, staggering, phase uint64, m *mainChain) *world {
	n := veriftm.New()
	n.Head = 1
	return &world{me: me, cfg: keyperConfig(me, staggering, phase), st: keyper.NewState(), node: n, sh: observe.NewShutter(), main: m}
}

// clone shares the views, which never change once made.
func (w *world) clone() *world {
	c := *w
	c.st = verifkit.DeepCopy(w.st).(*keyper.State)
	c.node = &veriftm.Node{Head: w.node.Head, Txs: map[int64][]abcitypes.ResponseDeliverTx{}}
	for h, t := range w.node.Txs {
		c.node.Txs[h] = t
	}
	m := *w.main
	m.receipts = map[uint64]*contract.CipherExecutionReceipt{}
	m.accused = map[uint64]*observe.Accusation{}
	for h, x := range w.main.receipts {
		y := *x
		m.receipts[h] = &y
	}
	for h, x := range w.main.accused {
		y := *x
		m.accused[h] = &y
	}
	c.main = &m
	c.queue = append([]observe.ShutterFilter(nil), w.queue...)
	c.log = append([]string(nil), w.log...)
	return &c
}

func (w *world) note(f string, args ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, args...)) }

type eventMaker interface{ MakeABCIEvent() abcitypes.Event }

// addBlock puts a block with one transaction per event on the Shuttermint chain.
func (w *world) addBlock(evs ...eventMaker) int64 {
	h := w.node.Head // the block that becomes the last committed one
	w.node.Head++
	for _, e := range evs {
		ev := e.MakeABCIEvent()
		w.node.Txs[h] = append(w.node.Txs[h], abcitypes.ResponseDeliverTx{Events: []abcitypes.Event{ev}})
		w.chain = verifkit.Hash(fmt.Sprint(w.chain, h, ev.Type))
		for _, a := range ev.Attributes {
			w.chain = verifkit.Hash(fmt.Sprint(w.chain, a.Key, a.Value))
		}
	}
	return h
}

type syncKey struct {
	view, chain uint64
	head        int64
	catchingUp  bool
}

var (
	syncMu    sync.Mutex
	syncCache = map[syncKey]*observe.Shutter{}
)

// syncShutter brings the keyper's view up to date. Views never change, so that the result of
// following the same chain from the same view can be taken from an earlier time.
func (w *world) syncShutter() {
	k := syncKey{verifkit.Hash(shDump(w.sh)), w.chain, w.node.Head, w.node.CatchingUp}
	syncMu.Lock()
	v, ok := syncCache[k]
	syncMu.Unlock()
	if ok {
		w.sh, w.view = v, v
		return
	}
	defer func() {
		syncMu.Lock()
		syncCache[k] = w.sh
		syncMu.Unlock()
	}()
	v, err := w.sh.SyncToHead(context.Background(), w.node)
	must(err)
	if v != w.sh {
		v.LastCommittedHeight++ // another block is there already
	}
	w.sh = v
	w.view = v
}

func (w *world) syncMain(synced bool) { w.mview = w.main.view(w.block, synced) }

// applyFilters is the follower taking the filters that the keyper sent it.
func (w *world) applyFilters() {
	for _, f := range w.queue {
		w.sh = w.sh.ApplyFilter(f)
	}
	w.queue = nil
}

// decide runs one step of the keyper.
func (w *world) decide() []fx.IAction {
	d := keyper.Decider{
		Config: w.cfg, State: w.st, Shutter: w.view, MainChain: w.mview, Actions: []fx.IAction{},
		PhaseLength: keyper.NewConstantPhaseLength(int64(w.cfg.DKGPhaseLength)),
	}
	d.Decide()
	if len(w.queue) < 3 {
		w.queue = append(w.queue, w.st.GetShutterFilter(w.mview))
	}
	return d.Actions
}

// restart stores and loads what the keyper stores.
func (w *world) restart() {
	var world observe.World
	w.st, world = reload(w.cfg, w.st, observe.World{Shutter: w.view, MainChain: w.mview})
	w.view, w.sh, w.mview = world.Shutter, world.Shutter, world.MainChain
	w.queue = nil
}

// holdKey makes the keyper hold the key of an eon as after its key generation.
func (w *world) holdKey(d *dealing, keypers []int) {
	pos := -1
	var addrs []common.Address
	for i, k := range keypers {
		addrs = append(addrs, kaddr(k))
		if k == w.me {
			pos = i
		}
	}
	if pos < 0 {
		panic("not a keyper")
	}
	w.st.EKGs = append(w.st.EKGs, &keyper.EKG{Eon: d.eon, Keypers: addrs, EpochKG: epochkg.NewEpochKG(d.result(pos))})
}

var stateSkip = []string{"SecretKeyShare", "PublicKey", "PublicKeyShares"}

// hash of everything that determines what the keyper does next.
func (w *world) hash(extra ...interface{}) uint64 {
	var b strings.Builder
	b.WriteString(verifkit.Dump(w.st, stateSkip...))
	fmt.Fprintf(&b, "|%d %d %v|", w.block, w.node.Head, w.queue)
	b.WriteString(shDump(w.sh))
	if w.view != w.sh {
		b.WriteString(shDump(w.view))
	}
	fmt.Fprintf(&b, "|%d", w.main.half)
	if w.mview != nil {
		b.WriteString(mainDump(w.mview))
	}
	for _, e := range extra {
		b.WriteString("|")
		b.WriteString(verifkit.Dump(e))
	}
	return verifkit.Hash(b.String())
}

// mainDump is a cheap canonical form of a view that was made from a given script.
func mainDump(m *observe.MainChain) string {
	var b strings.Builder
	fmt.Fprintf(&b, "|%d %d %v", m.CurrentBlock, m.NumExecutionHalfSteps, m.IsSynced())
	for h := uint64(0); h <= m.NumExecutionHalfSteps; h++ {
		if r := m.CipherExecutionReceipts[h]; r != nil {
			fmt.Fprintf(&b, " r%d:%x", h, r.BatchHash[:3])
		}
		if a := m.Accusations[h]; a != nil {
			fmt.Fprintf(&b, " a%d:%v", h, a.Appealed)
		}
	}
	return b.String()
}

// shDump is a cheap canonical form of a view: which events of which heights it holds.
func shDump(s *observe.Shutter) string {
	if s == nil {
		return "-"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d %v %d %d", s.CurrentBlock, s.Filter, len(s.BatchConfigs), len(s.KeyperEncryptionKeys))
	var ks []uint64
	for k := range s.Batches {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		fmt.Fprintf(&b, " b%d", k)
		for _, x := range s.Batches[k].DecryptionSignatures {
			fmt.Fprintf(&b, ",%d:%x:%x", x.Height, x.Sender[:2], verifkit.Hash(string(x.Signature)))
		}
	}
	for _, e := range s.Eons {
		fmt.Fprintf(&b, " e%d@%d/%d", e.Eon, e.StartHeight, e.StartEvent.BatchIndex)
		for _, x := range e.EpochSecretKeyShares {
			fmt.Fprintf(&b, ",%d:%x:%d", x.Height, x.Sender[:2], x.Epoch)
		}
		for _, x := range e.Commitments {
			fmt.Fprintf(&b, ",c%d:%x", x.Height, x.Sender[:2])
		}
		for _, x := range e.PolyEvals {
			fmt.Fprintf(&b, ",p%d:%x", x.Height, x.Sender[:2])
		}
		for _, x := range e.Accusations {
			fmt.Fprintf(&b, ",a%d:%x", x.Height, x.Sender[:2])
		}
		for _, x := range e.Apologies {
			fmt.Fprintf(&b, ",y%d:%x", x.Height, x.Sender[:2])
		}
	}
	return b.String()
}

// Events of the Shuttermint chain.

func evConfig(index, start, threshold uint64, keypers []int) eventMaker {
	return shutterevents.BatchConfig{StartBatchIndex: start, Threshold: threshold, Keypers: verifapp.Addrs(keypers...), ConfigIndex: index}
}

func evEon(eon, batch uint64) eventMaker {
	return shutterevents.EonStarted{Eon: eon, BatchIndex: batch}
}

func evShare(eon, epoch uint64, sender int, s *shcrypto.EpochSecretKeyShare) eventMaker {
	return shutterevents.EpochSecretKeyShare{Sender: kaddr(sender), Eon: eon, Epoch: epoch, Share: s}
}

func evSig(batch uint64, sender int, sig []byte) eventMaker {
	return shutterevents.DecryptionSignature{BatchIndex: batch, Sender: kaddr(sender), Signature: sig}
}

func evCheckIn(i int) eventMaker {
	return shutterevents.CheckIn{Sender: kaddr(i), EncryptionPublicKey: verifapp.K(i).EncPub()}
}

// Reference computations.

type cacheKey struct {
	d     *dealing
	i     int
	epoch uint64
}

var (
	cacheMu    sync.Mutex
	shareCache = map[cacheKey]*shcrypto.EpochSecretKeyShare{}
	keyCache   = map[cacheKey]*shcrypto.EpochSecretKey{}
)

func (d *dealing) cshare(i int, epoch uint64) *shcrypto.EpochSecretKeyShare {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	k := cacheKey{d, i, epoch}
	s, ok := shareCache[k]
	if !ok {
		s = d.share(i, epoch)
		s.Marshal() // normalises the point, so that it can be shared
		shareCache[k] = s
	}
	return s
}

func (d *dealing) ckey(epoch uint64) *shcrypto.EpochSecretKey {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	k := cacheKey{d, -1, epoch}
	s, ok := keyCache[k]
	if !ok {
		s = d.key(epoch)
		s.Marshal()
		keyCache[k] = s
	}
	return s
}

// authHash is the message keypers sign about the result of a batch, as the slasher contract has it.
func authHash(batcher common.Address, batch uint64, cipherHash common.Hash, result common.Hash) []byte {
	return crypto.Keccak256([]byte{0x19, 'd', 'e', 'c', 't', 'x'}, batcher.Bytes(), epochBytes(batch), cipherHash[:], result[:])
}

func signHash(i int, h []byte) []byte {
	s, err := crypto.Sign(h, verifapp.K(i).Key)
	must(err)
	return s
}

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// malleate turns a signature into the other valid one of the same message and key.
func malleate(sig []byte) []byte {
	s := new(big.Int).SetBytes(sig[32:64])
	s.Sub(curveN, s)
	r := append([]byte(nil), sig...)
	copy(r[32:64], common.LeftPadBytes(s.Bytes(), 32))
	r[64] ^= 1
	return r
}

// slasherAccepts is what the slasher contract's library makes of a signature.
func slasherAccepts(sig []byte, hash []byte, who common.Address) bool {
	if len(sig) != 65 {
		return false
	}
	if sig[64] != 27 && sig[64] != 28 {
		return false
	}
	s := new(big.Int).SetBytes(sig[32:64])
	if s.Cmp(new(big.Int).Rsh(curveN, 1)) > 0 {
		return false
	}
	c := append([]byte(nil), sig...)
	c[64] -= 27
	pub, err := crypto.SigToPub(hash, c)
	return err == nil && crypto.PubkeyToAddress(*pub) == who
}

// sent lists the Shuttermint messages of one kind among actions.
func messages(actions []fx.IAction) []*shmsg.Message {
	var r []*shmsg.Message
	for _, a := range actions {
		if m, ok := a.(*fx.SendShuttermintMessage); ok {
			r = append(r, m.Msg)
		}
	}
	return r
}
