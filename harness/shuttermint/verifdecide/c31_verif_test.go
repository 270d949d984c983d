package verifdecide

import (
	"context"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifevm"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/veriftm"
)

// Several keypers over the real application and the real contracts, from the first vote to the executed
// transactions of users.

// e2eAddrs are the contracts.
type e2eAddrs struct {
	config, broadcast, feeBank, batcher, token, deposit, executor, target, slasher common.Address
}

const (
	e2eHeadsUp = 2
	e2eAppeal  = 9 // blocks in which an accusation can be appealed
	e2eSpan    = 4
	e2eTimeout = 14
)

var (
	e2eOwner    = detKey("e2e owner")
	e2eUser     = detKey("e2e user")
	e2eStranger = detKey("e2e stranger")
)

// e2eSend makes a transaction on top of a chain and what waits there already, without mining it.
func e2eSend(c *verifevm.Chain, pool []*types.Transaction, f func(b bind.ContractBackend) (*types.Transaction, error)) (*types.Transaction, error) {
	n := &verifevm.Node{Chain: c, Pool: pool}
	cl := n.Client()
	defer cl.Close()
	return f(cl)
}

func e2eMust(c *verifevm.Chain, k *ecdsa.PrivateKey, f func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error)) *verifevm.Chain {
	tx, err := e2eSend(c, nil, func(b bind.ContractBackend) (*types.Transaction, error) { return f(verifevm.Auth(k), b) })
	must(err)
	c = c.Mine(tx)
	if r := c.Receipt(tx.Hash()); r == nil || r.Status != 1 {
		panic("a transaction of the preparation fails")
	}
	return c
}

// e2eDeploy is a main chain with all contracts, on which some accounts have deposits.
func e2eDeploy(keypers []int) (*verifevm.Chain, e2eAddrs) {
	accounts := []common.Address{addrOf(e2eOwner), addrOf(e2eUser), addrOf(e2eStranger)}
	for _, k := range keypers {
		accounts = append(accounts, kaddr(k))
	}
	c := verifevm.Genesis(accounts...)
	var a e2eAddrs
	c = e2eMust(c, e2eOwner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
		return sendEther(o, b, erc1820.DeployerAddress, erc1820.DeployerAmount)
	})
	c = c.Mine(erc1820.DeploymentTransaction)
	deploy := func(p *common.Address, f func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error)) {
		c = e2eMust(c, e2eOwner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
			x, tx, err := f(o, b)
			*p = x
			return tx, err
		})
	}
	deploy(&a.config, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployConfigContract(o, b, e2eHeadsUp)
		return x, tx, err
	})
	deploy(&a.broadcast, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployKeyBroadcastContract(o, b, a.config)
		return x, tx, err
	})
	deploy(&a.feeBank, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployFeeBankContract(o, b)
		return x, tx, err
	})
	deploy(&a.batcher, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployBatcherContract(o, b, a.config, a.feeBank)
		return x, tx, err
	})
	deploy(&a.token, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployTestDepositTokenContract(o, b)
		return x, tx, err
	})
	deploy(&a.deposit, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployDepositContract(o, b, a.token)
		return x, tx, err
	})
	deploy(&a.executor, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployExecutorContract(o, b, a.config, a.batcher, a.deposit)
		return x, tx, err
	})
	deploy(&a.target, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployMockTargetContract(o, b)
		return x, tx, err
	})
	deploy(&a.slasher, func(o *bind.TransactOpts, b bind.ContractBackend) (common.Address, *types.Transaction, error) {
		x, tx, _, err := contract.DeployKeyperSlasher(o, b, big.NewInt(e2eAppeal), a.config, a.executor, a.deposit)
		return x, tx, err
	})
	delay := common.LeftPadBytes([]byte{50}, 32)
	for _, k := range keypers {
		to := kaddr(k)
		c = e2eMust(c, e2eOwner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
			t, err := contract.NewERC777(a.token, b)
			must(err)
			return t.Send(o, to, big.NewInt(100), nil)
		})
		c = e2eMust(c, verifapp.K(k).Key, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
			t, err := contract.NewERC777(a.token, b)
			must(err)
			return t.Send(o, a.deposit, big.NewInt(100), delay)
		})
	}
	return c, a
}

func sendEther(o *bind.TransactOpts, b bind.ContractBackend, to common.Address, amount *big.Int) (*types.Transaction, error) {
	n, err := b.PendingNonceAt(context.Background(), o.From)
	if err != nil {
		return nil, err
	}
	tx, err := o.Signer(o.From, types.NewTransaction(n, to, amount, params.TxGas, big.NewInt(1), nil))
	if err != nil {
		return nil, err
	}
	return tx, b.SendTransaction(context.Background(), tx)
}

// e2eSchedule are the transactions that schedule a config.
func (a e2eAddrs) schedule(c *verifevm.Chain, m mainCfg, gas uint64) []*types.Transaction {
	n := &verifevm.Node{Chain: c}
	cl := n.Client()
	defer cl.Close()
	cc, err := contract.NewConfigContract(a.config, cl)
	must(err)
	o := verifevm.Auth(e2eOwner)
	o.GasLimit = 2000000
	var ks []common.Address
	for _, k := range m.keypers {
		ks = append(ks, kaddr(k))
	}
	sel := crypto.Keccak256([]byte("call(bytes)"))
	var selector [4]byte
	copy(selector[:], sel)
	for _, f := range []func() (*types.Transaction, error){
		func() (*types.Transaction, error) { return cc.NextConfigSetStartBatchIndex(o, m.start) },
		func() (*types.Transaction, error) { return cc.NextConfigSetStartBlockNumber(o, m.block) },
		func() (*types.Transaction, error) { return cc.NextConfigAddKeypers(o, ks) },
		func() (*types.Transaction, error) { return cc.NextConfigSetThreshold(o, m.threshold) },
		func() (*types.Transaction, error) { return cc.NextConfigSetBatchSpan(o, m.span) },
		func() (*types.Transaction, error) { return cc.NextConfigSetBatchSizeLimit(o, 100000) },
		func() (*types.Transaction, error) { return cc.NextConfigSetTransactionSizeLimit(o, 10000) },
		func() (*types.Transaction, error) { return cc.NextConfigSetTransactionGasLimit(o, gas) },
		func() (*types.Transaction, error) { return cc.NextConfigSetTargetAddress(o, a.target) },
		func() (*types.Transaction, error) { return cc.NextConfigSetTargetFunctionSelector(o, selector) },
		func() (*types.Transaction, error) { return cc.NextConfigSetExecutionTimeout(o, m.timeout) },
		func() (*types.Transaction, error) { return cc.ScheduleNextConfig(o) },
	} {
		_, err := f()
		must(err)
	}
	return n.Pool
}

func (a e2eAddrs) caller(n *verifevm.Node, k *ecdsa.PrivateKey) (*contract.Caller, func()) {
	cl := n.Client()
	var cc contract.Caller
	config, err := contract.NewConfigContract(a.config, cl)
	must(err)
	broadcast, err := contract.NewKeyBroadcastContract(a.broadcast, cl)
	must(err)
	batcher, err := contract.NewBatcherContract(a.batcher, cl)
	must(err)
	executor, err := contract.NewExecutorContract(a.executor, cl)
	must(err)
	deposit, err := contract.NewDepositContract(a.deposit, cl)
	must(err)
	slasher, err := contract.NewKeyperSlasher(a.slasher, cl)
	must(err)
	cc = contract.NewCaller(cl, k, config, broadcast, batcher, executor, deposit, slasher)
	return &cc, cl.Close
}

// mainView is a view of the main chain.
type mainView struct {
	m    *observe.MainChain
	key  uint64
	text string
}

func newMainView(m *observe.MainChain) *mainView {
	d := verifkit.Hash(verifkit.Dump(m))
	return &mainView{m, d, fmt.Sprintf("main %x", d)}
}

type mainViewKey struct {
	view uint64
	head common.Hash
}

var (
	mainViewMu    sync.Mutex
	mainViewCache = map[mainViewKey]*mainView{}
)

// follow is the view after catching up with the main chain.
func (v *mainView) follow(a e2eAddrs, c *verifevm.Chain) *mainView {
	k := mainViewKey{v.key, c.Head().Hash}
	mainViewMu.Lock()
	n := mainViewCache[k]
	mainViewMu.Unlock()
	if n != nil {
		return n
	}
	cc, done := a.caller(&verifevm.Node{Chain: c}, e2eStranger)
	m, err := v.m.SyncToHead(context.Background(), cc)
	done()
	must(err)
	n = newMainView(m)
	mainViewMu.Lock()
	defer mainViewMu.Unlock()
	if o := mainViewCache[k]; o != nil {
		return o
	}
	mainViewCache[k] = n
	return n
}

// e2eUserTx is what a user submits. Blocks are counted from the start of the scenario.
type e2eUserTx struct {
	block   int64
	batch   uint64
	cipher  bool
	garbage bool // cannot be decrypted
	data    string
}

// e2eSpec is a scenario.
type e2eSpec struct {
	name    string
	keypers []int
	byz     int
	scripts []string
	cfgs    []mainCfg // blocks are counted from the start of the scenario; [1] is there at the start
	txs     []e2eUserTx
	stagger uint64
	from    int64 // no disturbances before this block
	calm    int64 // none start after this block
	horizon int64
	fewer   int
	gas     uint64 // that a transaction may use, 100000 if 0
	fails   bool   // it does not suffice
	batches uint64 // so many have to be executed in the end

	base    uint64 // main chain block at the start
	chain   *verifevm.Chain
	addrs   e2eAddrs
	genesis *dkgChain
	first   *mainView
}

type e2eAction struct {
	act  fx.MainChainTX
	text string
}

type e2eNode struct {
	who   int
	cfg   keyper.Config
	snap  *dkgSnap
	view  *dkgView
	mv    *mainView
	awake int64
	lag   int64
	slow  int64 // its main chain transactions are mined later while the block is below this
	queue []e2eAction
}

// e2eTx is a transaction on its way into the main chain.
type e2eTx struct {
	tx      *types.Transaction
	who     int // keyper, or -1
	act     fx.MainChainTX
	release int64
}

type e2eState struct {
	sp        *e2eSpec
	ch        *dkgChain
	main      *verifevm.Chain
	nodes     []*e2eNode
	pending   []dkgTx
	pool      []e2eTx
	submitted []e2eUserTx
	script    string
	lies      map[uint64]bool // half steps that the misbehaving keyper went for
	log       []string
}

func (s *e2eState) Clone() verifkit.State {
	c := *s
	c.nodes = nil
	for _, n := range s.nodes {
		m := *n
		m.queue = append([]e2eAction(nil), n.queue...)
		c.nodes = append(c.nodes, &m)
	}
	c.pending = append([]dkgTx(nil), s.pending...)
	c.pool = append([]e2eTx(nil), s.pool...)
	c.submitted = append([]e2eUserTx(nil), s.submitted...)
	c.log = append([]string(nil), s.log...)
	c.lies = map[uint64]bool{}
	for k, v := range s.lies {
		c.lies[k] = v
	}
	return &c
}

func (s *e2eState) Hash() uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%x|%s|%v|%d|", s.ch.digest, s.main.Head().Hash, s.script, s.lies, len(s.submitted))
	now := s.now()
	left := func(x int64) int64 {
		if x <= now {
			return 0
		}
		return x
	}
	for _, n := range s.nodes {
		fmt.Fprintf(&b, "%d,%d,%d,%d,%d,%d", n.snap.hash, n.view.key, n.mv.key, left(n.awake), left(n.lag), left(n.slow))
		for _, q := range n.queue {
			fmt.Fprintf(&b, ",%x", verifkit.Hash(q.text))
		}
		b.WriteString("|")
	}
	for _, t := range s.pending {
		fmt.Fprintf(&b, "%d,%d,%d|", t.from, left(t.release), verifkit.Hash(t.text))
	}
	for _, t := range s.pool {
		fmt.Fprintf(&b, "%x,%d|", t.tx.Hash(), left(t.release))
	}
	return verifkit.Hash(b.String())
}

func (s *e2eState) note(f string, args ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(f, args...))
}

// now is the number of blocks since the start.
func (s *e2eState) now() int64 { return int64(s.main.Head().Number - s.sp.base) }

func (sp *e2eSpec) vote(a e2eAddrs, i int) *shmsg.Message {
	m := verifapp.MConfigVote(verifapp.CfgSpec{Index: 1, Start: sp.cfgs[1].start, Threshold: sp.cfgs[1].threshold, Keypers: sp.cfgs[1].keypers})
	m.GetBatchConfig().ConfigContractAddress = a.config.Bytes()
	return m
}

var e2eBases = map[string]struct {
	c *verifevm.Chain
	a e2eAddrs
}{}

func (sp *e2eSpec) prepare() {
	key := fmt.Sprint(sp.keypers)
	b, ok := e2eBases[key]
	if !ok {
		b.c, b.a = e2eDeploy(sp.keypers)
		e2eBases[key] = b
	}
	if sp.gas == 0 {
		sp.gas = 100000
	}
	sp.addrs = b.a
	sp.base = b.c.Head().Number + 1
	cfgs := append([]mainCfg(nil), sp.cfgs...)
	for i := range cfgs {
		if i > 0 {
			cfgs[i].block += sp.base
		}
	}
	sp.cfgs = cfgs
	sp.chain = b.c.Mine(b.a.schedule(b.c, cfgs[1], sp.gas)...)
	// a keyper does nothing before it has seen the main chain
	sp.first = newMainView(observe.NewMainChain(0)).follow(sp.addrs, sp.chain)
	if c := sp.first.m.BatchConfigs; len(c) != 2 || c[1].StartBlockNumber != cfgs[1].block {
		panic("the first config is not scheduled")
	}
	g := verifapp.Genesis{Keypers: cfgs[1].keypers, Threshold: len(cfgs[1].keypers)}
	ch := &dkgChain{app: g.NewApp(), node: veriftm.New(), digest: verifkit.Hash(sp.name), nonces: map[int]uint64{}}
	var txs []dkgTx
	for _, i := range cfgs[1].keypers {
		k := verifapp.K(i)
		txs = append(txs, newTx(i, verifapp.MCheckIn(k.Val, k), 0))
	}
	ch = ch.block(txs)
	txs = nil
	for _, i := range cfgs[1].keypers {
		txs = append(txs, newTx(i, sp.vote(sp.addrs, i), 0))
	}
	sp.genesis = ch.block(txs).block(nil)
	if len(sp.genesis.eons) != 1 {
		panic("the first eon did not start")
	}
}

func (sp *e2eSpec) init() verifkit.State {
	s := &e2eState{sp: sp, ch: sp.genesis, main: sp.chain, lies: map[uint64]bool{}}
	for _, i := range sp.keypers {
		cfg := keyperConfig(i, sp.stagger, 3)
		a := sp.addrs
		cfg.ConfigContractAddress, cfg.KeyBroadcastContractAddress, cfg.BatcherContractAddress = a.config, a.broadcast, a.batcher
		cfg.ExecutorContractAddress, cfg.DepositContractAddress, cfg.KeyperSlasherAddress = a.executor, a.deposit, a.slasher
		s.nodes = append(s.nodes, &e2eNode{who: i, cfg: cfg, snap: newSnap(keyper.NewState()), view: newView(observe.NewShutter(), 0), mv: sp.first})
	}
	return s
}

// node is a node of the main chain with everything that waits.
func (s *e2eState) node() *verifevm.Node {
	n := &verifevm.Node{Chain: s.main}
	for _, t := range s.pool {
		n.Pool = append(n.Pool, t.tx)
	}
	return n
}

// run sends the keyper's transactions in order, as its environment does.
func (s *e2eState) run(n *e2eNode) {
	for len(n.queue) > 0 {
		q := n.queue[0]
		if q.act.IsExpired(observe.World{Shutter: n.view.sh, MainChain: n.mv.m}) {
			n.queue = n.queue[1:]
			continue
		}
		nd := s.node()
		cc, done := s.sp.addrs.caller(nd, n.cfg.SigningKey)
		auth, err := cc.Auth(context.Background())
		must(err)
		auth.Context = context.Background()
		tx, err := q.act.SendTX(cc, auth)
		done()
		if err != nil {
			if fx.IsRetriable(err) {
				return
			}
			n.queue = n.queue[1:]
			continue
		}
		n.queue = n.queue[1:]
		now := s.now()
		t := e2eTx{tx: tx, who: n.who, act: q.act, release: now + 1}
		if now < n.slow {
			t.release = n.slow
		}
		s.pool = append(s.pool, t)
	}
}

// by signs and sends a transaction of somebody else.
func (s *e2eState) by(k *ecdsa.PrivateKey, who int, f func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error)) bool {
	nd := s.node()
	cc, done := s.sp.addrs.caller(nd, k)
	defer done()
	auth, err := cc.Auth(context.Background())
	must(err)
	auth.Context = context.Background()
	tx, err := f(cc, auth)
	if err != nil {
		return false
	}
	s.pool = append(s.pool, e2eTx{tx: tx, who: who, release: s.now() + 1})
	return true
}

// eonKey is the key that users find for a batch.
func (s *e2eState) eonKey(batch uint64) *shcrypto.EonPublicKey {
	cc, done := s.sp.addrs.caller(&verifevm.Node{Chain: s.main}, e2eUser)
	defer done()
	start := s.cfgOf(batch).start
	votes, err := cc.KeyBroadcastContract.GetBestKeyNumVotes(nil, start)
	must(err)
	if votes.Uint64() < s.cfgOf(batch).threshold {
		return nil
	}
	b, err := cc.KeyBroadcastContract.GetBestKey(nil, start)
	must(err)
	k := new(shcrypto.EonPublicKey)
	if err := k.Unmarshal(b); err != nil {
		return nil
	}
	return k
}

func (s *e2eState) cfgOf(batch uint64) mainCfg {
	c := s.sp.cfgs[1]
	for _, m := range s.sp.cfgs[2:] {
		if m.start <= batch {
			c = m
		}
	}
	return c
}

func (s *e2eState) endOf(batch uint64) uint64 {
	c := s.cfgOf(batch)
	return c.block + (batch-c.start+1)*c.span
}

// submit is what users do before the next block.
func (s *e2eState) submit() {
	for _, t := range s.sp.txs {
		if t.block != s.now()+1 {
			continue
		}
		data, kind := []byte(t.data), contract.TransactionTypePlain
		if t.cipher {
			kind = contract.TransactionTypeCipher
			if !t.garbage {
				key := s.eonKey(t.batch)
				if key == nil {
					s.note("block %d: no key for batch %d", s.now()+1, t.batch)
					continue
				}
				// equal transactions are copies of the first one
				sigma, err := shcrypto.RandomSigma(reader(int64(verifkit.Hash(t.data) >> 1)))
				must(err)
				data = shcrypto.Encrypt(data, key, epochID(t.batch), sigma).Marshal()
			}
		}
		t := t
		if !s.by(e2eUser, -1, func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error) {
			o.GasLimit = 1000000
			return cc.BatcherContract.AddTransaction(o, t.batch, uint8(kind), data)
		}) {
			panic("a user cannot send a transaction")
		}
		s.submitted = append(s.submitted, t)
	}
}

var e2eOptions = []string{"", "asleep for 1 block", "asleep for 3 blocks", "sees no main chain news for 5 blocks", "restarted", "main chain transactions are mined 2 blocks later"}

func (s *e2eState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	sp := s.sp
	fail := func(key, f string, args ...interface{}) bool {
		rep := c.Replay(r.Job + ":" + sp.name)
		rep["events"] = s.log
		r.Violation(sp.name+":"+key, fmt.Sprintf("%s: ", sp.name)+fmt.Sprintf(f, args...)+fmt.Sprintf("; misbehaviour %q; %v", s.script, s.log), rep)
		return false
	}
	if sp.byz >= 0 && s.script == "" {
		s.script = sp.scripts[c.Choose(len(sp.scripts), "misbehaviour")]
		return true
	}
	r.Count("transitions", 1)
	now := s.now()
	head := s.ch.node.Head
	for i, n := range s.nodes {
		if now < n.awake {
			continue
		}
		if now >= sp.from && now <= sp.calm && i != sp.byz {
			o := c.Deviate(len(e2eOptions), "keyper")
			if o > 0 {
				s.note("block %d: keyper %d %s", now, n.who, e2eOptions[o])
			}
			switch o {
			case 1, 2:
				n.awake = now + 1 + int64(o-1)*2
				continue
			case 3:
				n.lag = now + 5
			case 4:
				d := dkgNode{who: n.who, cfg: n.cfg, snap: n.snap, view: n.view}
				// the state and both views are loaded from the disk
				n.snap, n.view, n.mv = reloadAll(&d, n.mv)
			case 5:
				n.slow = now + 3
			}
		}
		if now >= n.lag {
			n.mv = n.mv.follow(sp.addrs, s.main)
		}
		n.view = n.view.follow(s.ch)
		o := decideStep(n.who, n.cfg, n.snap, n.view, n.mv.m, n.mv.text)
		if o.panics != "" {
			return fail("crash", "keyper %d: %s", n.who, o.panics)
		}
		n.snap = o.snap
		n.view = n.view.filter(n.snap.st.GetShutterFilter(n.mv.m))
		for _, m := range messages(o.actions) {
			if i == sp.byz {
				m = s.twist(n, m)
			}
			if m != nil {
				s.pending = append(s.pending, newTx(n.who, m, head+1))
			}
		}
		for _, a := range o.actions {
			if t, ok := a.(fx.MainChainTX); ok && !(i == sp.byz && !s.tells(t)) {
				n.queue = append(n.queue, e2eAction{t, fmt.Sprintf("%T %s", t, verifkit.Dump(t))})
			}
		}
		if i == sp.byz {
			s.lie(n)
		}
		s.run(n)
	}
	s.submit()
	for i, m := range sp.cfgs {
		if i > 1 && int64(m.scheduled) == now+1 {
			for _, tx := range sp.addrs.schedule(s.main, m, sp.gas) {
				s.pool = append(s.pool, e2eTx{tx: tx, who: -1, release: now + 1})
			}
		}
	}
	// the main chain's next block
	var rest, next []e2eTx
	held := map[common.Address]bool{}
	for _, t := range s.pool {
		from, err := types.Sender(types.NewEIP155Signer(verifevm.ChainID), t.tx)
		must(err)
		if t.release > now+1 || held[from] {
			held[from] = true
			rest = append(rest, t)
		} else {
			next = append(next, t)
		}
	}
	s.pool = rest
	if len(next) > 1 && differentSenders(next) && now >= sp.from && now <= sp.calm && c.Deviate(2, "order") == 1 {
		next = otherSenderFirst(next)
		s.note("block %d: another order of transactions", now+1)
	}
	var txs []*types.Transaction
	for _, t := range next {
		txs = append(txs, t.tx)
	}
	s.main = s.main.Mine(txs...)
	if key, msg := s.judgeBlock(next); key != "" {
		return fail(key, "%s", msg)
	}
	// the Shuttermint chain's next block
	var shm, later []dkgTx
	for _, t := range s.pending {
		if t.release <= head+1 {
			shm = append(shm, t)
		} else {
			later = append(later, t)
		}
	}
	s.pending = later
	s.ch = s.ch.block(shm)
	if s.now() < sp.horizon {
		return true
	}
	r.Count("traces", 1)
	if key, msg := s.judge(r); key != "" {
		return fail(key, "%s", msg)
	}
	r.Distinct("ends", verifkit.Hash(fmt.Sprint(sp.name, s.ch.digest, s.main.Head().Hash)))
	return false
}

var (
	reloadAllMu    sync.Mutex
	reloadAllCache = map[stepKey]reloadedAll{}
)

type reloadedAll struct {
	snap *dkgSnap
	view *dkgView
	mv   *mainView
}

// reloadAll is what a keyper has after storing and loading it.
func reloadAll(n *dkgNode, mv *mainView) (*dkgSnap, *dkgView, *mainView) {
	k := stepKey{n.who, n.snap.hash, n.view.key, mv.text}
	reloadAllMu.Lock()
	o, ok := reloadAllCache[k]
	reloadAllMu.Unlock()
	if !ok {
		st, w := reload(n.cfg, n.snap.st, observe.World{Shutter: n.view.sh, MainChain: mv.m})
		o = reloadedAll{newSnap(st), newView(w.Shutter, n.view.key), newMainView(w.MainChain)}
		reloadAllMu.Lock()
		reloadAllCache[k] = o
		reloadAllMu.Unlock()
	}
	return o.snap, o.view, o.mv
}

func differentSenders(l []e2eTx) bool {
	for _, t := range l {
		if t.who != l[0].who {
			return true
		}
	}
	return false
}

// otherSenderFirst keeps the order of each sender's transactions.
func otherSenderFirst(l []e2eTx) []e2eTx {
	var ws []int
	for _, t := range l {
		ws = append(ws, t.who)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ws)))
	if ws[0] == l[0].who {
		sort.Ints(ws)
	}
	rank := map[int]int{}
	for _, w := range ws {
		if _, ok := rank[w]; !ok {
			rank[w] = len(rank)
		}
	}
	c := append([]e2eTx(nil), l...)
	sort.SliceStable(c, func(i, j int) bool { return rank[c[i].who] < rank[c[j].who] })
	return c
}

// halfStepOf is the half step that an action is about.
func halfStepOf(a fx.MainChainTX) (uint64, bool) {
	switch x := a.(type) {
	case *fx.ExecuteCipherBatch:
		return 2 * x.BatchIndex, true
	case *fx.SkipCipherBatch:
		return 2 * x.BatchIndex, true
	case *fx.ExecutePlainBatch:
		return 2*x.BatchIndex + 1, true
	}
	return 0, false
}

// judgeBlock looks at the transactions that honest keypers and users have in the last block.
func (s *e2eState) judgeBlock(txs []e2eTx) (string, string) {
	cc, done := s.sp.addrs.caller(&verifevm.Node{Chain: s.main}, e2eStranger)
	defer done()
	half, err := cc.ExecutorContract.NumExecutionHalfSteps(nil)
	must(err)
	for _, t := range txs {
		rc := s.main.Receipt(t.tx.Hash())
		if rc != nil && rc.Status == 1 {
			continue
		}
		if t.who < 0 {
			panic("a transaction of the owner or a user fails")
		}
		if s.sp.byz >= 0 && t.who == s.sp.keypers[s.sp.byz] {
			continue
		}
		if rc == nil {
			return "not-mined", fmt.Sprintf("a transaction of keyper %d (%T) cannot be mined", t.who, t.act)
		}
		if h, ok := halfStepOf(t.act); ok && half > h {
			continue // somebody else did it
		}
		switch x := t.act.(type) {
		case *fx.Accuse:
			if a, err := cc.KeyperSlasher.Accusations(nil, x.HalfStep); err == nil && a.Accused {
				continue
			}
		case *fx.Appeal:
			if a, err := cc.KeyperSlasher.Accusations(nil, x.Authorization.HalfStep); err == nil && a.Appealed {
				continue
			}
		}
		return "reverts", fmt.Sprintf("keyper %d's transaction %v fails", t.who, t.act)
	}
	return "", ""
}

// executed is what a half step did.
type executed struct {
	by      common.Address
	txs     [][]byte
	skipped bool
	block   uint64
	failed  int
}

// executions are found in the main chain's logs.
func (s *e2eState) executions() []executed {
	var l []executed
	mock, err := contract.NewMockTargetContract(s.sp.addrs.target, nil)
	must(err)
	ex, err := contract.NewExecutorContract(s.sp.addrs.executor, nil)
	must(err)
	for _, b := range s.main.Blocks[s.sp.base:] {
		for i, rc := range b.Receipts {
			var called [][]byte
			failed := 0
			from, err := types.Sender(types.NewEIP155Signer(verifevm.ChainID), b.Txs[i])
			must(err)
			for _, lg := range rc.Logs {
				switch lg.Address {
				case s.sp.addrs.target:
					e, err := mock.ParseCalled(*lg)
					must(err)
					called = append(called, e.Transaction)
				case s.sp.addrs.executor:
					if _, err := ex.ParseTransactionFailed(*lg); err == nil && lg.Topics[0] == topicFailed {
						failed++
					}
					if e, err := ex.ParseBatchExecuted(*lg); err == nil && lg.Topics[0] == topicExecuted {
						if e.NumExecutionHalfSteps != uint64(len(l))+1 {
							panic("half steps out of order")
						}
						l = append(l, executed{by: from, txs: called, block: b.Number, failed: failed})
						called, failed = nil, 0
					}
					if e, err := ex.ParseCipherExecutionSkipped(*lg); err == nil && lg.Topics[0] == topicSkipped {
						if e.NumExecutionHalfSteps != uint64(len(l))+1 {
							panic("half steps out of order")
						}
						l = append(l, executed{by: from, skipped: true, block: b.Number})
					}
				}
			}
		}
	}
	return l
}

var (
	topicFailed   = crypto.Keccak256Hash([]byte("TransactionFailed(uint64,bytes32,bytes)"))
	topicExecuted = crypto.Keccak256Hash([]byte("BatchExecuted(uint64,bytes32)"))
	topicSkipped  = crypto.Keccak256Hash([]byte("CipherExecutionSkipped(uint64)"))
)

// eonOf is the eon that the keyper uses for a batch.
func (sp *e2eSpec) eonOf(n *e2eNode, batch uint64) uint64 {
	e, err := n.view.sh.FindEonByBatchIndex(batch)
	must(err)
	return e.Eon
}

func multiset(l [][]byte) string {
	var x []string
	for _, b := range l {
		x = append(x, fmt.Sprintf("%q", b))
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

// judge looks at what became of the batches.
func (s *e2eState) judge(r *verifkit.Run) (string, string) {
	sp := s.sp
	quiet := len(s.log) == 0
	if quiet && len(s.submitted) != len(sp.txs) && (s.script == "" || s.script == "honest") {
		panic(fmt.Sprintf("%s: only %d of %d transactions were submitted", sp.name, len(s.submitted), len(sp.txs)))
	}
	want := func(batch uint64, cipher bool) (l [][]byte) {
		for _, t := range s.submitted {
			if t.batch == batch && t.cipher == cipher && !t.garbage {
				l = append(l, []byte(t.data))
			}
		}
		return l
	}
	submitted := func(batch uint64, cipher bool) bool {
		for _, t := range s.submitted {
			if t.batch == batch && t.cipher == cipher {
				return true
			}
		}
		return false
	}
	liar := common.Address{}
	if sp.byz >= 0 {
		liar = kaddr(sp.keypers[sp.byz])
	}
	l := s.executions()
	cc, done := sp.addrs.caller(&verifevm.Node{Chain: s.main}, e2eStranger)
	defer done()
	outcome := ""
	for h, x := range l {
		k := uint64(h / 2)
		if sp.fails && !x.skipped {
			if n := len(want(k, h%2 == 0)); x.failed != n || len(x.txs) != 0 {
				return "failed", fmt.Sprintf("%d transactions of batch %d are executed without success, %d were submitted", x.failed, k, n)
			}
			continue
		}
		if x.failed > 0 {
			return "failed", fmt.Sprintf("%d transactions of batch %d fail", x.failed, k)
		}
		if h%2 == 1 {
			if !sameTxs(x.txs, want(k, false)) {
				return "plain", fmt.Sprintf("the plain transactions executed for batch %d are %q, those submitted are %q", k, x.txs, want(k, false))
			}
			continue
		}
		if x.block < s.endOf(k) {
			return "early", fmt.Sprintf("batch %d, which ends at block %d, is executed in block %d", k, s.endOf(k), x.block)
		}
		if x.skipped {
			if s.script == "skips empty batches" && x.by == liar && !submitted(k, true) && x.block >= s.endOf(k) {
				outcome += "empty"
				continue
			}
			if x.block < s.endOf(k)+s.cfgOf(k).timeout {
				return "skipped-early", fmt.Sprintf("batch %d is skipped before its timeout", k)
			}
			if s.script != "keeps its shares" {
				return "skipped", fmt.Sprintf("batch %d was skipped", k)
			}
			outcome += "skip"
			continue
		}
		if s.script == "keeps its shares" && len(want(k, true)) > 0 {
			return "no-key", fmt.Sprintf("batch %d is executed although too few shares are known", k)
		}
		wrong := multiset(x.txs) != multiset(want(k, true))
		outcome += fmt.Sprint(wrong)
		if wrong && x.by != liar {
			return "cipher", fmt.Sprintf("keyper %x executed %s for batch %d, submitted were %s", x.by[:3], multiset(x.txs), k, multiset(want(k, true)))
		}
		a, err := cc.KeyperSlasher.Accusations(nil, uint64(h))
		must(err)
		over := a.Accused && s.main.Head().Number >= a.BlockNumber+e2eAppeal
		if x.by != liar && a.Accused && !a.Appealed && over {
			return "slashable", fmt.Sprintf("keyper %x executed batch %d rightly, was accused and nobody appealed", x.by[:3], k)
		}
		if wrong {
			if s.main.Head().Number >= x.block+10 && !a.Accused {
				return "unpunished", fmt.Sprintf("keyper %x executed %s for batch %d, submitted were %s, but nobody has accused it", x.by[:3], multiset(x.txs), k, multiset(want(k, true)))
			}
			if a.Appealed {
				return "unpunished", fmt.Sprintf("the wrong execution of batch %d was appealed successfully", k)
			}
			if over {
				st := s.main
				tx, err := e2eSend(st, nil, func(b bind.ContractBackend) (*types.Transaction, error) {
					ks, err := contract.NewKeyperSlasher(sp.addrs.slasher, b)
					must(err)
					return ks.Slash(verifevm.Auth(e2eStranger), uint64(h))
				})
				if err != nil || st.Mine(tx).Receipt(tx.Hash()).Status != 1 {
					return "unpunished", fmt.Sprintf("the executor of batch %d cannot be slashed: %v", k, err)
				}
				outcome += "slashed"
			}
		}
	}
	for _, m := range sp.cfgs[1:] {
		k := s.eonKey(m.start)
		if k == nil {
			return "no-eon-key", fmt.Sprintf("too few keypers have published the eon key for batches from %d", m.start)
		}
		for i, n := range s.nodes {
			for _, e := range n.snap.st.EKGs {
				if i != sp.byz && e.Eon == sp.eonOf(n, m.start) && !e.EpochKG.PublicKey.Equal(k) {
					return "eon-key", fmt.Sprintf("the published eon key for batches from %d is not that of keyper %d", m.start, n.who)
				}
			}
		}
	}
	if uint64(len(l)) < 2*sp.batches {
		return "stuck", fmt.Sprintf("only %d half steps are executed in the end, there should be %d", len(l), 2*sp.batches)
	}
	for i, k := range sp.keypers {
		ok, err := cc.DepositContract.IsSlashed(nil, kaddr(k))
		must(err)
		if ok && i != sp.byz {
			return "slashed", fmt.Sprintf("keyper %d is slashed", k)
		}
	}
	r.Distinct("outcomes", verifkit.Hash(sp.name+s.script+outcome))
	return "", ""
}

// twist is what the misbehaving keyper makes of its messages.
func (s *e2eState) twist(n *e2eNode, m *shmsg.Message) *shmsg.Message {
	switch s.script {
	case "silent":
		if m.GetEpochSecretKeyShare() != nil || m.GetDecryptionSignature() != nil {
			return nil
		}
	case "deals nothing":
		if m.GetPolyEval() != nil || m.GetPolyCommitment() != nil {
			return nil
		}
	case "keeps its shares":
		if m.GetEpochSecretKeyShare() != nil {
			return nil
		}
	case "bad shares and signatures":
		if x := m.GetEpochSecretKeyShare(); x != nil {
			return shmsg.NewEpochSecretKeyShare(x.Eon, x.Epoch+1, (*shcrypto.EpochSecretKeyShare)(epochID(77)))
		}
		if x := m.GetDecryptionSignature(); x != nil {
			return shmsg.NewDecryptionSignature(x.BatchIndex, signHash(n.who, crypto.Keccak256([]byte("nothing"))))
		}
	}
	return m
}

// tells says if the misbehaving keyper sends a transaction that it should send.
func (s *e2eState) tells(t fx.MainChainTX) bool {
	switch t.(type) {
	case *fx.EonKeyBroadcast:
		return s.script != "another eon key"
	case *fx.ExecuteCipherBatch, *fx.Accuse, *fx.Appeal:
		return s.script == "honest" || s.script == "another eon key" || s.script == "accuses" || s.script == "bad shares and signatures" || s.script == "deals nothing"
	}
	return s.script != "silent"
}

// lie sends the misbehaving keyper's own inventions.
func (s *e2eState) lie(n *e2eNode) {
	if s.script == "honest" || s.script == "silent" || s.script == "deals nothing" || s.script == "keeps its shares" || s.script == "bad shares and signatures" {
		return
	}
	cc, done := s.sp.addrs.caller(&verifevm.Node{Chain: s.main}, e2eStranger)
	defer done()
	if s.script == "another eon key" {
		c := s.cfgOf(0)
		p, ok := c.has(n.who)
		if voted, err := cc.KeyBroadcastContract.HasVoted(nil, kaddr(n.who), c.start); err == nil && !voted && ok && !s.lies[1<<40] {
			s.lies[1<<40] = true
			s.by(n.cfg.SigningKey, n.who, func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error) {
				return cc.KeyBroadcastContract.Vote(o, uint64(p), c.start, deal(9, 1, 1, 3).pub.Marshal())
			})
		}
		return
	}
	half, err := cc.ExecutorContract.NumExecutionHalfSteps(nil)
	must(err)
	if s.script == "skips empty batches" {
		if s.main.Head().Number >= s.endOf(half/2) {
			s.by(n.cfg.SigningKey, n.who, func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error) {
				return cc.ExecutorContract.SkipEmptyOrTimedOutBatches(o, 3)
			})
		}
		return
	}
	if s.script == "accuses" {
		for h := uint64(0); h < half; h += 2 {
			p, ok := s.cfgOf(h / 2).has(n.who)
			if ok && !s.lies[h] {
				s.lies[h] = true
				s.by(n.cfg.SigningKey, n.who, func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error) {
					return cc.KeyperSlasher.Accuse(o, h, uint64(p))
				})
			}
		}
		return
	}
	k := half / 2
	p, ok := s.cfgOf(k).has(n.who)
	if half%2 == 1 || !ok || s.lies[half] || s.main.Head().Number+1 < s.endOf(k) {
		return
	}
	hash, err := cc.BatcherContract.BatchHashes(nil, k, contract.TransactionTypeCipher)
	must(err)
	if hash == (common.Hash{}) {
		return
	}
	var txs [][]byte
	switch s.script {
	case "executes nothing at once":
	case "executes something at once":
		txs = [][]byte{[]byte("made up")}
	default:
		b := n.snap.st.Batches[k]
		if b == nil || len(b.DecryptedTransactions) == 0 {
			return
		}
		txs = append(txs, b.DecryptedTransactions...)
		switch s.script {
		case "executes less":
			txs = txs[1:]
		case "executes more":
			txs = append(txs, []byte("one more"))
		case "executes something twice":
			txs = append(txs, txs[0])
		default:
			panic(s.script)
		}
	}
	s.lies[half] = true
	s.by(n.cfg.SigningKey, n.who, func(cc *contract.Caller, o *bind.TransactOpts) (*types.Transaction, error) {
		o.GasLimit = 2000000
		return cc.ExecutorContract.ExecuteCipherBatch(o, k, hash, txs, uint64(p))
	})
}

func e2eCfg(start, block, threshold uint64, keypers ...int) mainCfg {
	return mainCfg{start: start, block: block, span: e2eSpan, timeout: e2eTimeout, threshold: threshold, keypers: keypers}
}

func e2eSpecs(thorough bool) []*e2eSpec {
	at := func(b uint64, m mainCfg) mainCfg { m.scheduled = b; return m }
	users := []e2eUserTx{
		{15, 0, true, false, "first"}, {16, 0, true, false, "second"}, {16, 0, false, false, "in clear"}, {17, 0, true, true, "garbage"}, {17, 0, true, false, "first"}, {17, 0, true, false, "third"}, {17, 0, false, false, "in clear too"}, {18, 0, true, false, "last"},
		{19, 1, true, false, "fourth"}, {21, 1, true, false, "fifth"}, {22, 1, true, false, "last"},
		{23, 2, false, false, "plain only"}, {24, 2, false, false, "plain only"},
	}
	// as many and as large ones as fit
	var large []e2eUserTx
	for i := 0; i < 10; i++ {
		large = append(large, e2eUserTx{int64(15 + i/3), 0, i%2 == 0, false, strings.Repeat(string(rune('a'+i)), 9000)})
	}
	for i := 0; i < 60; i++ {
		large = append(large, e2eUserTx{int64(20 + i/30), 1, i%2 == 0, false, fmt.Sprint(i)})
	}
	change := append(users[:11:11], e2eUserTx{24, 2, true, false, "sixth"}, e2eUserTx{25, 2, true, false, "seventh"}, e2eUserTx{26, 2, false, false, "clear again"})
	three := []int{0, 1, 2}
	byz := []string{"honest", "silent", "bad shares and signatures", "another eon key", "accuses", "deals nothing", "skips empty batches", "executes nothing at once", "executes something at once", "executes less", "executes more", "executes something twice"}
	l := []*e2eSpec{
		{name: "three keypers", keypers: three, byz: -1, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...)}, txs: users, stagger: 2, calm: 30, horizon: 44, batches: 4},
		{name: "misbehaviour", keypers: three, byz: 1, scripts: byz, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...)}, txs: users, stagger: 2, from: 16, calm: 30, horizon: 46, batches: 4},
		{name: "large transactions", keypers: three, byz: -1, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...)}, txs: large, stagger: 2, from: 17, calm: 24, horizon: 40, batches: 3},
		{name: "transactions without effect", gas: 1500, fails: true, keypers: three, byz: -1, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...)}, txs: large, stagger: 2, from: 17, calm: 24, horizon: 40, batches: 3},
		{name: "missing share", keypers: three, byz: 2, scripts: []string{"keeps its shares"}, cfgs: []mainCfg{guard, e2eCfg(0, 15, 3, three...)}, txs: users[:10], stagger: 2, from: 16, calm: 38, horizon: 50, batches: 2},
		{name: "misbehaviour at a handover", keypers: three, byz: 1, scripts: []string{"executes nothing at once", "executes less", "accuses", "another eon key"}, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...), at(7, e2eCfg(2, 23, 2, 2, 1, 0))}, txs: change, stagger: 1, from: 18, calm: 28, horizon: 46, batches: 4},
		{name: "handover", keypers: []int{0, 1, 2, 3}, byz: -1, cfgs: []mainCfg{guard, e2eCfg(0, 15, 2, three...), at(7, e2eCfg(2, 23, 2, 3, 1, 0))}, txs: change,
			stagger: 1, calm: 30, horizon: 44, batches: 4},
	}
	_ = thorough
	return l
}

// TestC31: what users submit is executed.
func TestC31(t *testing.T) {
	r := verifkit.Start("end-to-end")
	defer r.Finish()
	bound := r.Pick(1, 2)
	r.Rule(fmt.Sprintf("all runs of several real keypers over the real application and the real contracts, from the vote for the first config over key generation to the execution of the users' transactions, that differ from the undisturbed run in at most %d places (the larger scenarios one less): a keyper sleeps for one or three blocks, does not see the main chain for two, restarts, or has its transactions mined later; a block has its transactions in another order; with every way of misbehaving of one keyper", bound))
	ss := e2eSpecs(r.Thorough())
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].fewer > ss[j].fewer })
	for i, s := range ss {
		s := s
		s.prepare()
		st := r.Search(verifkit.Options{Name: r.Job + ":" + s.name, Bound: bound - s.fewer, Deadline: 2 * r.Remaining() / time.Duration(len(ss)-i+1)},
			s.init, func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*e2eState).step(r, c) })
		r.Count("states", st.States)
		r.Count("schedules", st.Executions)
		r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "schedules": st.Executions, "complete": st.Complete})
	}
}
