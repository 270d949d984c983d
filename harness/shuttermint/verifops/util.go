// Package verifops runs the operator commands, each in its own process, against nodes of the main chain
// (with the real virtual machine and contracts) and of the Shuttermint chain (with the real application).
package verifops

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/verifevm"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func key(s string) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte("verif " + s)))
	must(err)
	return k
}

func addr(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

func keyHex(k *ecdsa.PrivateKey) string { return hex.EncodeToString(crypto.FromECDSA(k)) }

var (
	owner    = key("owner")
	stranger = key("stranger")
	people   = []*ecdsa.PrivateKey{key("k0"), key("k1"), key("k2"), key("k3"), key("k4")}
)

// run is one process.
type run struct {
	code   int
	out    string // stdout
	log    string
	killed bool
	hangs  bool
}

// world is a main chain with its node, and a directory for files.
type world struct {
	node  *verifevm.Node
	srv   *httptest.Server
	dir   string
	count int
	cmd   *exec.Cmd
	mu    sync.Mutex
	reqs  []string
	// hook is asked at every request; "kill" ends the process, "error" fails the request.
	hook func(i int, method string) string
	died bool
}

func newWorld(c *verifevm.Chain) *world {
	d, err := ioutil.TempDir("", "verifops")
	must(err)
	w := &world{node: &verifevm.Node{Chain: c, Alias: map[common.Hash]common.Hash{}}, dir: d}
	w.node.Before = w.before
	w.srv = httptest.NewServer(w.node.Server())
	return w
}

func (w *world) close() {
	w.srv.CloseClientConnections()
	w.srv.Close()
	must(os.RemoveAll(w.dir))
}

func (w *world) before(method string) error {
	i := len(w.reqs)
	w.reqs = append(w.reqs, method)
	if w.died {
		return fmt.Errorf("gone")
	}
	if w.hook == nil {
		return nil
	}
	switch w.hook(i, method) {
	case "kill":
		w.died = true
		w.mu.Lock()
		if w.cmd != nil && w.cmd.Process != nil {
			must(w.cmd.Process.Kill())
		}
		w.mu.Unlock()
		return fmt.Errorf("gone")
	case "error":
		return fmt.Errorf("node is unavailable")
	}
	return nil
}

// mine modes
const (
	mineEach = iota // every transaction at once, in a block of its own
	mineLate        // all together, when the first receipt is asked for
)

func (w *world) mode(m int) {
	w.node.Lock(func() {
		w.node.AfterSend, w.node.BeforeReceipt = nil, nil
		if m == mineEach {
			w.node.AfterSend = func(n *verifevm.Node, tx *types.Transaction) { n.MinePool() }
		} else {
			w.node.BeforeReceipt = func(n *verifevm.Node, h common.Hash) {
				if len(n.Pool) > 0 {
					n.MinePool()
				}
			}
		}
	})
}

// cli runs a command in a process of its own.
func (w *world) cli(args ...string) run {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Dir = w.dir
	cmd.Env = append(os.Environ(), "VERIF_CLI=1", "GOGC=100", "GOMEMLIMIT=2GiB", "GOMAXPROCS=2", "HOME="+w.dir)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	w.node.Lock(func() {
		w.reqs, w.died = nil, false
		w.mu.Lock()
		w.cmd = cmd
		must(cmd.Start())
		w.mu.Unlock()
	})
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	r := run{}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.hangs = true
		_ = cmd.Process.Kill()
		<-done
	}
	w.node.Lock(func() {
		r.killed = w.died
		if len(w.node.Pool) > 0 {
			w.node.MinePool()
		}
	})
	r.code, r.out, r.log = cmd.ProcessState.ExitCode(), out.String(), errs.String()
	return r
}

func (w *world) write(name string, x interface{}) string {
	b, err := json.MarshalIndent(x, "", " ")
	must(err)
	p := filepath.Join(w.dir, name)
	must(ioutil.WriteFile(p, b, 0o600))
	return p
}

// tx sends a transaction of the harness and mines it.
func (w *world) tx(k *ecdsa.PrivateKey, f func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error)) bool {
	c, ok := send(w.node.Chain, k, f)
	w.node.Chain = c
	return ok
}

func send(c *verifevm.Chain, k *ecdsa.PrivateKey, f func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error)) (*verifevm.Chain, bool) {
	n := &verifevm.Node{Chain: c}
	cl := n.Client()
	defer cl.Close()
	o := verifevm.Auth(k)
	tx, err := f(o, cl)
	if err != nil {
		return c, false
	}
	n.MinePool()
	return n.Chain, n.Chain.Receipt(tx.Hash()).Status == 1
}

// view is what the config contract holds.
type view struct {
	Head    uint64
	Configs []contract.BatchConfig
	Next    contract.BatchConfig
}

func look(c *verifevm.Chain, a common.Address) view {
	n := &verifevm.Node{Chain: c}
	cl := n.Client()
	defer cl.Close()
	cc, err := contract.NewConfigContractCaller(a, cl)
	must(err)
	o := &bind.CallOpts{Context: context.Background()}
	num, err := cc.NumConfigs(o)
	must(err)
	v := view{Head: c.Head().Number}
	get := func(i uint64) contract.BatchConfig {
		b, err := cc.ConfigForConfigIndex(o, i)
		must(err)
		return b
	}
	for i := uint64(0); i < num; i++ {
		v.Configs = append(v.Configs, get(i))
	}
	next, err := cc.NextConfigIndex(o)
	must(err)
	v.Next = get(next)
	return v
}

func describe(c contract.BatchConfig) string {
	return fmt.Sprintf("{batch %d block %d keypers %x threshold %d span %d sizes %d/%d gas %d fee %x target %x.%x timeout %d}", c.StartBatchIndex, c.StartBlockNumber,
		c.Keypers, c.Threshold, c.BatchSpan, c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.FeeReceiver, c.TargetAddress,
		c.TargetFunctionSelector, c.ExecutionTimeout)
}

func describeAll(l []contract.BatchConfig) string {
	var r []string
	for _, c := range l {
		r = append(r, describe(c))
	}
	return strings.Join(r, "\n")
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}
