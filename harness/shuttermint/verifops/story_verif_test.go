package verifops

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/pelletier/go-toml"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmlog "github.com/tendermint/tendermint/libs/log"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmrpc "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	tmrpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifevm"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// tmNode is a node of a Shuttermint chain that makes a block of every transaction.
type tmNode struct {
	mu   sync.Mutex
	w    *world
	app  *app.ShutterApp
	srv  *httptest.Server
	seen [][]byte
}

func newTM(w *world) *tmNode {
	n := &tmNode{w: w}
	g := &verifapp.Genesis{Keypers: []int{0}, Threshold: 1, Validators: []abcitypes.ValidatorUpdate{verifapp.ValUpdate(verifapp.K(0).Val, 10)}}
	n.app = g.NewApp()
	n.block()
	mux := http.NewServeMux()
	tmrpc.RegisterRPCFuncs(mux, map[string]*tmrpc.RPCFunc{
		"blockchain":          tmrpc.NewRPCFunc(n.blockchain, "minHeight,maxHeight"),
		"broadcast_tx_commit": tmrpc.NewRPCFunc(n.broadcast, "tx"),
	}, tmlog.NewNopLogger())
	n.srv = httptest.NewServer(mux)
	return n
}

func (n *tmNode) block(txs ...[]byte) (r []abcitypes.ResponseDeliverTx) {
	h := n.app.Info(abcitypes.RequestInfo{}).LastBlockHeight + 1
	n.app.BeginBlock(abcitypes.RequestBeginBlock{})
	for _, tx := range txs {
		r = append(r, n.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}))
	}
	n.app.EndBlock(abcitypes.RequestEndBlock{Height: h})
	n.app.Commit()
	return r
}

// ask is what happens to a request.
func (n *tmNode) ask(method string) (err error) {
	n.w.node.Lock(func() { err = n.w.before(method) })
	return err
}

func (n *tmNode) blockchain(_ *tmrpctypes.Context, _, _ int64) (*ctypes.ResultBlockchainInfo, error) {
	if err := n.ask("tm blockchain"); err != nil {
		return nil, err
	}
	return &ctypes.ResultBlockchainInfo{LastHeight: 1, BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: verifapp.ChainID, Height: 1}}}}, nil
}

func (n *tmNode) broadcast(_ *tmrpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	if err := n.ask("tm broadcast"); err != nil {
		return nil, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	res := &ctypes.ResultBroadcastTxCommit{}
	res.CheckTx = n.app.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
	if res.CheckTx.Code != 0 {
		return res, nil
	}
	n.seen = append(n.seen, tx)
	res.DeliverTx = n.block(tx)[0]
	if err := n.ask("tm answer"); err != nil { // the answer gets lost
		return nil, err
	}
	return res, nil
}

func (n *tmNode) config() app.BatchConfig {
	n.mu.Lock()
	defer n.mu.Unlock()
	return *n.app.LastConfig()
}

// stage is where an operator is.
type stage struct {
	chain *verifevm.Chain
	files map[string][]byte
}

func (s stage) restore(w *world) {
	w.node.Chain = s.chain
	for p, b := range s.files {
		must(os.MkdirAll(filepath.Dir(filepath.Join(w.dir, p)), 0o755))
		must(ioutil.WriteFile(filepath.Join(w.dir, p), b, 0o600))
	}
}

func save(w *world) stage {
	s := stage{w.node.Chain, map[string][]byte{}}
	must(filepath.Walk(w.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(w.dir, p)
		s.files[rel] = b
		return err
	}))
	return s
}

type tale struct {
	*session
	tm *tmNode
}

func tell(r *verifkit.Run, c *verifkit.Chooser, name string, s stage) *tale {
	t := &tale{session: &session{w: newWorld(s.chain), r: r, c: c, name: name, headsUp: 20}}
	s.restore(t.w)
	t.w.mode(mineEach)
	t.tm = newTM(t.w)
	return t
}

func (t *tale) close() {
	t.tm.srv.CloseClientConnections()
	t.tm.srv.Close()
	t.w.close()
}

func (t *tale) path(p string) string { return filepath.Join(t.w.dir, p) }

func (t *tale) do(args ...string) run {
	r := t.w.cli(args...)
	t.say("%s: exit %d (killed %v)", strings.Join(args, " "), r.code, r.killed)
	if r.hangs {
		t.fail("hangs", "the command does not end")
	}
	return r
}

func (t *tale) deploy() run {
	return t.do("deploy", "-k", keyHex(owner), "-e", t.w.srv.URL, "-o", "contracts.json")
}

func (t *tale) configs(n int) run {
	return t.do("prepare", "configs", "-n", fmt.Sprint(n), "-c", "contracts.json", "-d", "testrun", "-e", "http://eth.example:1", "-s", "http://shm.example:2")
}

func (t *tale) fund() run {
	return t.do("prepare", "fund", "-k", keyHex(owner), "-e", t.w.srv.URL, "--config", "testrun/config.json")
}

func (t *tale) scheduleIt() run {
	return t.do("config", "schedule", "-e", t.w.srv.URL, "-c", "contracts.json", "-k", keyHex(owner), "--config", "testrun/config.json")
}

func (t *tale) bootstrap(who int, index int) run {
	args := []string{"bootstrap", "-s", t.tm.srv.URL, "-e", t.w.srv.URL, "-c", "contracts.json", "-k", keyHex(verifapp.K(who).Key)}
	if index >= 0 {
		args = append(args, "-i", fmt.Sprint(index))
	}
	return t.do(args...)
}

func (t *tale) unfund(to string, n int) run {
	args := []string{"prepare", "unfund", "-e", t.w.srv.URL, "--to", to}
	for i := 0; i < n; i++ {
		args = append(args, fmt.Sprintf("testrun/keyper%d/config.toml", i))
	}
	return t.do(args...)
}

var names = []string{"ConfigContract", "KeyBroadcastContract", "FeeBankContract", "BatcherContract", "ExecutorContract", "TokenContract", "DepositContract", "KeyperSlasherContract", "TargetProxyContract", "TargetContract"}

func (t *tale) addresses() map[string]common.Address {
	b, err := ioutil.ReadFile(t.path("contracts.json"))
	if err != nil {
		return nil
	}
	m := map[string]string{}
	if json.Unmarshal(b, &m) != nil {
		return map[string]common.Address{}
	}
	r := map[string]common.Address{}
	for k, v := range m {
		if common.HexToAddress(v).Hex() == v {
			r[k] = common.HexToAddress(v)
		}
	}
	return r
}

// checkDeployed judges the contracts named by the file.
func (t *tale) checkDeployed(out string) {
	m := t.addresses()
	n := &verifevm.Node{Chain: t.w.node.Chain}
	cl := n.Client()
	defer cl.Close()
	st := n.Chain.Head().State()
	seen := map[common.Address]string{}
	for _, k := range names {
		a, ok := m[k]
		if !ok || len(st.GetCode(a)) == 0 {
			t.fail("deploy-missing", "deploying succeeded, but there is no %s at %s", k, a.Hex())
			return
		}
		if o := seen[a]; o != "" {
			t.fail("deploy-missing", "%s is %s", k, o)
			return
		}
		seen[a] = k
		if !strings.Contains(out, a.Hex()) {
			t.fail("deploy-output", "the output does not show %s at %s:\n%s", k, a.Hex(), out)
			return
		}
	}
	o := &bind.CallOpts{}
	is := func(what string, want common.Address) func(common.Address, error) {
		return func(got common.Address, err error) {
			if err != nil || got != want {
				t.fail("deploy-wiring", "%s is %s instead of %s (%v)", what, seen[got]+" "+got.Hex(), seen[want]+" "+want.Hex(), err)
			}
		}
	}
	cc, _ := contract.NewConfigContract(m["ConfigContract"], cl)
	kb, _ := contract.NewKeyBroadcastContract(m["KeyBroadcastContract"], cl)
	ba, _ := contract.NewBatcherContract(m["BatcherContract"], cl)
	ex, _ := contract.NewExecutorContract(m["ExecutorContract"], cl)
	de, _ := contract.NewDepositContract(m["DepositContract"], cl)
	ks, _ := contract.NewKeyperSlasher(m["KeyperSlasherContract"], cl)
	tp, _ := contract.NewTargetProxyContract(m["TargetProxyContract"], cl)
	is("owner of the config contract", addr(owner))(cc.Owner(o))
	is("config contract of the key broadcast contract", m["ConfigContract"])(kb.ConfigContract(o))
	is("config contract of the batcher", m["ConfigContract"])(ba.ConfigContract(o))
	is("fee bank of the batcher", m["FeeBankContract"])(ba.FeeBankContract(o))
	is("config contract of the executor", m["ConfigContract"])(ex.ConfigContract(o))
	is("batcher of the executor", m["BatcherContract"])(ex.BatcherContract(o))
	is("deposit contract of the executor", m["DepositContract"])(ex.DepositContract(o))
	is("token of the deposit contract", m["TokenContract"])(de.Token(o))
	is("slasher of the deposit contract", m["KeyperSlasherContract"])(de.Slasher(o))
	is("config contract of the slasher", m["ConfigContract"])(ks.ConfigContract(o))
	is("executor of the slasher", m["ExecutorContract"])(ks.ExecutorContract(o))
	is("deposit contract of the slasher", m["DepositContract"])(ks.DepositContract(o))
	is("executor of the target proxy", m["ExecutorContract"])(tp.Executor(o))
	tt, _ := contract.NewTestTargetContract(m["TargetContract"], cl)
	is("executor of the target", m["TargetProxyContract"])(tt.Executor(o))
}

type keyperFile struct {
	BatcherContract, ConfigContract, DepositContract, ExecutorContract, KeyBroadcastContract, KeyperSlasher string
	EthereumURL, ShuttermintURL, DBDir                                                                      string
	EncryptionKey, SigningKey, ValidatorSeed                                                                string
}

func (t *tale) keyper(i int) (keyperFile, common.Address) {
	var f keyperFile
	b, err := ioutil.ReadFile(t.path(fmt.Sprintf("testrun/keyper%d/config.toml", i)))
	if err != nil || toml.Unmarshal(b, &f) != nil {
		return f, common.Address{}
	}
	k, err := crypto.HexToECDSA(f.SigningKey)
	if err != nil {
		return f, common.Address{}
	}
	return f, addr(k)
}

func (t *tale) batchConfig() map[string]interface{} {
	m := map[string]interface{}{}
	b, err := ioutil.ReadFile(t.path("testrun/config.json"))
	if err != nil || json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func (t *tale) checkConfigs(n int) {
	m := t.addresses()
	c := t.batchConfig()
	ks, _ := c["Keypers"].([]interface{})
	if len(ks) != n {
		t.fail("configs-keypers", "config.json has %d keypers instead of %d", len(ks), n)
		return
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f, a := t.keyper(i)
		for _, s := range []string{f.SigningKey, f.EncryptionKey, f.ValidatorSeed} {
			if len(s) != 64 || seen[s] {
				t.fail("configs-secrets", "keyper %d has the secret %q", i, s)
			}
			seen[s] = true
		}
		if ks[i] != a.Hex() {
			t.fail("configs-keypers", "keyper %d in config.json is %v instead of %s", i, ks[i], a.Hex())
		}
		want := keyperFile{
			m["BatcherContract"].Hex(), m["ConfigContract"].Hex(), m["DepositContract"].Hex(), m["ExecutorContract"].Hex(), m["KeyBroadcastContract"].Hex(), m["KeyperSlasherContract"].Hex(),
			"http://eth.example:1", "http://shm.example:2", f.DBDir, f.EncryptionKey, f.SigningKey, f.ValidatorSeed,
		}
		if f != want {
			t.fail("configs-contracts", "the file of keyper %d is for %v instead of %v", i, f, want)
		}
		if st, err := os.Stat(t.path(fmt.Sprintf("testrun/keyper%d/config.toml", i))); err != nil || st.Mode().Perm()&0o077 != 0 {
			t.fail("configs-secrets", "others can read the keys of keyper %d (%v)", i, err)
		}
	}
	th, _ := c["Threshold"].(float64)
	if k := int(th); 3*k < 2*n || 3*(k-1) >= 2*n || k > n {
		t.fail("configs-threshold", "the threshold for %d keypers is %d", n, k)
	}
	if c["TargetAddress"] != m["TargetContract"].Hex() {
		t.fail("configs-target", "the target is %v instead of %s", c["TargetAddress"], m["TargetContract"].Hex())
	}
}

func (t *tale) balance(a common.Address) *big.Int { return t.w.node.Chain.Head().State().GetBalance(a) }

func (t *tale) transfer(to common.Address, v *big.Int) {
	if v.Sign() == 0 {
		return
	}
	st := t.w.node.Chain.Head().State()
	tx, err := types.SignTx(types.NewTransaction(st.GetNonce(addr(stranger)), to, v, 21000, big.NewInt(1), nil), types.NewEIP155Signer(verifevm.ChainID), stranger)
	must(err)
	t.w.node.Chain = t.w.node.Chain.Mine(tx)
	if r := t.w.node.Chain.Receipt(tx.Hash()); r == nil || r.Status != 1 {
		panic("cannot transfer")
	}
}

func eth(thousandths int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(thousandths), big.NewInt(params.Ether/1000))
}

func (t *tale) checkFunded(before []*big.Int) {
	for i, b := range before {
		_, a := t.keyper(i)
		want := b
		if b.Cmp(eth(500)) < 0 {
			want = eth(1000)
		}
		if got := t.balance(a); got.Cmp(want) != 0 {
			t.fail("fund", "keyper %d had %s and now has %s instead of %s", i, b, got, want)
		}
	}
}

func (t *tale) checkSchedule(b, a view) {
	c := contract.BatchConfig{}
	f, err := ioutil.ReadFile(t.path("testrun/config.json"))
	must(err)
	if err := json.Unmarshal(f, &c); err != nil {
		t.fail("configs-file", "config.json: %v", err)
		return
	}
	if len(a.Configs) == 0 {
		t.fail("schedule-differs", "scheduling succeeded, but there are no configs")
		return
	}
	last := a.Configs[len(a.Configs)-1]
	c.StartBlockNumber, c.StartBatchIndex = last.StartBlockNumber, last.StartBatchIndex
	t.checkScheduled(b, a, c)
}

// checkBootstrapped judges the application.
func (t *tale) checkBootstrapped(index int) {
	v := t.look()
	c := v.Configs[index]
	got := t.tm.config()
	if got.ConfigIndex != uint64(index) || got.StartBatchIndex != c.StartBatchIndex || got.Threshold != c.Threshold || fmt.Sprint(got.Keypers) != fmt.Sprint(c.Keypers) ||
		got.ConfigContractAddress != t.cc || !got.Started {
		t.fail("bootstrap-differs", "bootstrapping with config %d %s succeeded, but Shuttermint has %+v", index, describe(c), got)
	}
}

// calm is the history without any trouble.
var calm struct {
	sync.Once
	stages []stage
}

const numKeypers = 3

func stages(r *verifkit.Run) []stage {
	calm.Do(func() {
		c := verifevm.Genesis(addr(owner), addr(stranger)).MineEmpty(3)
		t := tell(r, nil, "story", stage{chain: c})
		defer t.close()
		keep := func() { calm.stages = append(calm.stages, save(t.w)) }
		keep()
		ok := func(x run) {
			if x.code != 0 {
				panic(fmt.Sprintf("%v: %s", t.story, x.log))
			}
			keep()
		}
		ok(t.deploy())
		ok(t.configs(numKeypers))
		ok(t.fund())
		t.cc = t.addresses()["ConfigContract"]
		ok(t.scheduleIt())
		ok(t.bootstrap(0, -1))
	})
	return calm.stages
}

func TestC30Story(t *testing.T) {
	r := verifkit.Start("operator-story")
	defer r.Finish()
	r.Rule("deploying, preparing, funding, scheduling, bootstrapping and draining succeed, and have the whole effect if they say so")
	r.Rule("after a failed request, a lost answer or the death of a command, running it again has the whole effect")
	r.Assume("the operator runs the commands in their order, and none at the same time; the node mines what it has taken before the next command starts")
	if e := verifkit.Catch(func() { stages(r) }); e != "" {
		r.Violation("story", "the commands do not even work without any trouble: "+tail(e, 1500), nil)
		return
	}
	f := func(c *verifkit.Chooser) {
		k := c.Choose(6, "stage")
		t := tell(r, c, "story", stages(r)[k])
		defer t.close()
		if k > 0 {
			t.cc = t.addresses()["ConfigContract"]
		}
		t.w.mode(c.Choose(2, "mining"))
		faults := 0
		hook := func(i int, method string) string {
			if faults >= r.Pick(1, 2) || t.bad {
				return ""
			}
			x := c.Deviate(3, method)
			if x == 0 {
				return ""
			}
			faults++
			t.say("request %d (%s): %s", i, method, []string{"", "error", "kill"}[x])
			return []string{"", "error", "kill"}[x]
		}
		// trouble runs a command, and again if it fails
		trouble := func(f func() run) (run, bool) {
			t.w.hook = hook
			x := f()
			t.w.hook = nil
			if x.code == 0 || t.bad {
				return x, !t.bad
			}
			if faults == 0 {
				t.fail("fails", "the command failed although nothing went wrong: %s", tail(x.log, 600))
				return x, false
			}
			x = f()
			if x.code != 0 {
				t.fail("fails-again", "the command failed when it was run again: %s", tail(x.log, 600))
				return x, false
			}
			return x, true
		}
		switch k {
		case 0:
			if c.Choose(2, "registry") == 1 {
				t.transfer(erc1820.DeployerAddress, erc1820.DeployerAmount)
				t.w.node.Chain = t.w.node.Chain.Mine(erc1820.DeploymentTransaction)
				t.say("the registry is there")
			}
			if x, ok := trouble(t.deploy); ok {
				t.checkDeployed(x.out)
			}
		case 1:
			n := 1 + c.Choose(r.Pick(5, 8), "keypers")
			x := t.configs(n)
			if x.code != 0 {
				t.fail("fails", "cannot prepare configs: %s", tail(x.log, 600))
				return
			}
			t.checkConfigs(n)
			b := save(t.w)
			if x := t.configs(n); x.code == 0 {
				t.fail("configs-overwrite", "preparing again in the same directory succeeds")
			}
			if a := save(t.w); fmt.Sprint(a.files) != fmt.Sprint(b.files) {
				t.fail("configs-overwrite", "preparing again in the same directory changes the files of the first time")
			}
		case 2:
			vals := []*big.Int{eth(0), eth(300), new(big.Int).Sub(eth(500), big.NewInt(1)), eth(500), eth(700), eth(2000)}
			var before []*big.Int
			for i := 0; i < numKeypers; i++ {
				_, a := t.keyper(i)
				v := vals[c.Choose(len(vals), "balance")]
				t.transfer(a, v)
				before = append(before, v)
				t.say("keyper %d has %s", i, v)
			}
			if fmt.Sprint(before) != fmt.Sprint([]*big.Int{vals[0], vals[1], vals[4]}) && fmt.Sprint(before) != fmt.Sprint([]*big.Int{vals[0], vals[0], vals[0]}) {
				faults = 9 // in calm weather only
			}
			if _, ok := trouble(t.fund); ok {
				t.checkFunded(before)
			}
			x := t.do("prepare", "fund", "query", "-e", t.w.srv.URL, "--config", "testrun/config.json")
			for i := 0; i < numKeypers; i++ {
				_, a := t.keyper(i)
				f := new(big.Float).Quo(new(big.Float).SetInt(t.balance(a)), big.NewFloat(params.Ether))
				if want := fmt.Sprintf("%d %s %f", i, a.Hex(), f); x.code != 0 || !strings.Contains(strings.Join(strings.Fields(x.out), " "), want) {
					t.fail("fund-query", "querying balances shows\n%s\nwithout %q", x.out, want)
				}
			}
		case 3:
			b := t.look()
			if _, ok := trouble(t.scheduleIt); ok {
				if a := t.look(); len(a.Configs) == len(b.Configs)+2 { // the first attempt has scheduled it
					b.Configs = a.Configs[:len(a.Configs)-1]
				}
				t.checkSchedule(b, t.look())
			}
		case 4:
			n := len(t.look().Configs)
			second := c.Choose(2, "second config") == 1
			if second {
				if x := t.scheduleIt(); x.code != 0 {
					t.fail("fails", "cannot schedule again: %s", tail(x.log, 600))
					return
				}
				n++
			}
			index, want := -1, n-1
			if i := c.Choose(3, "index"); i == 1 {
				index, want = n-1, n-1
			} else if i == 2 && second {
				index, want = n-2, n-2
			}
			if c.Choose(2, "who") == 1 {
				before := verifkit.Dump(t.tm.app.Configs)
				if x := t.bootstrap(1, index); x.code == 0 {
					t.fail("bootstrap-stranger", "bootstrapping succeeds for a stranger")
				}
				if verifkit.Dump(t.tm.app.Configs) != before {
					t.fail("bootstrap-stranger", "a stranger has changed the configs")
				}
				return
			}
			t.w.hook = hook
			x := t.bootstrap(0, index)
			t.w.hook = nil
			if x.code != 0 && faults == 0 {
				t.fail("fails", "the command failed although nothing went wrong: %s", tail(x.log, 600))
				return
			}
			if x.code != 0 && !t.bad {
				x = t.bootstrap(0, index)
			}
			// the second run may be refused when the first one was complete
			if !t.bad {
				t.checkBootstrapped(want)
			}
			for _, tx := range t.tm.seen {
				if _, err := base64.RawURLEncoding.DecodeString(string(tx)); err != nil {
					t.fail("bootstrap-encoding", "%v", err)
				}
			}
		case 5:
			receiver := addr(people[0])
			to := receiver.Hex()
			if c.Choose(2, "receiver") == 1 {
				bad := []string{strings.ToLower(to), to[:40], to[2:], ""}[c.Choose(4, "bad receiver")]
				b := verifkit.Dump(t.w.node.Chain.Head().Number)
				x := t.unfund(bad, numKeypers)
				if x.code == 0 || verifkit.Dump(t.w.node.Chain.Head().Number) != b {
					t.fail("unfund-receiver", "the receiver %q is taken", bad)
				}
				return
			}
			// everybody starts with one ether
			fee := big.NewInt(21000 * 1000)
			total := new(big.Int)
			var want []*big.Int
			plain := true
			for i := 0; i < numKeypers; i++ {
				var add *big.Int
				switch c.Choose(3, "balance") {
				case 0:
					add = new(big.Int)
				case 1:
					add = eth(1234)
					plain = plain && i == 0
				case 2:
					add = nil
					plain = plain && i == 1
				}
				f, a := t.keyper(i)
				if add == nil { // has only the fee
					k, err := crypto.HexToECDSA(f.SigningKey)
					must(err)
					v := new(big.Int).Sub(t.balance(a), fee)
					v.Sub(v, big.NewInt(21000))
					tx, err := types.SignTx(types.NewTransaction(0, addr(stranger), v, 21000, big.NewInt(1), nil), types.NewEIP155Signer(verifevm.ChainID), k)
					must(err)
					t.w.node.Chain = t.w.node.Chain.Mine(tx)
					want = append(want, fee)
					t.say("keyper %d has %s", i, t.balance(a))
					continue
				}
				t.transfer(a, add)
				t.say("keyper %d has %s", i, t.balance(a))
				total.Add(total, t.balance(a))
				total.Sub(total, fee)
				want = append(want, new(big.Int))
			}
			if !plain {
				faults = 9
			}
			if faults == 0 {
				t.w.hook = hook
			}
			x := t.unfund(to, numKeypers)
			t.w.hook = nil
			if x.code != 0 && (faults == 0 || faults == 9) {
				t.fail("fails", "the command failed although nothing went wrong: %s", tail(x.log, 600))
				return
			}
			if faults == 1 || faults == 2 { // it goes on when one account fails
				x = t.unfund(to, numKeypers)
				if x.code != 0 {
					t.fail("fails-again", "the command failed when it was run again: %s", tail(x.log, 600))
				}
			}
			for i, v := range want {
				_, a := t.keyper(i)
				if got := t.balance(a); got.Cmp(v) != 0 {
					t.fail("unfund", "keyper %d has %s left instead of %s", i, got, v)
				}
			}
			if got := t.balance(receiver); got.Cmp(total) != 0 {
				t.fail("unfund", "the receiver has got %s instead of %s", got, total)
			}
		}
	}
	st := r.Explore(verifkit.Options{Name: "story", Bound: r.Pick(1, 2)}, f)
	r.Sample(fmt.Sprintf("story: %d executions, complete %v", st.Executions, st.Complete))
}
