// Package veriffx explores the runner that carries out the keyper's decided actions.
package veriffx

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"golang.org/x/sync/errgroup"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
	vtime "github.com/shutter-network/shutter/shuttermint/verifos/time"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var key, _ = crypto.ToECDSA(crypto.Keccak256([]byte("runner")))

// Tx is a main chain action whose fate the harness decides.
type Tx struct{ Run, ID int }

func init() {
	gob.Register(&Tx{})
	go func() { // waiting ends at once
		for {
			time.Sleep(100 * time.Microsecond)
			vtime.VerifFire()
		}
	}()
}

var ctls sync.Map

func (t *Tx) ctl() *ctl {
	c, _ := ctls.Load(t.Run)
	return c.(*ctl)
}

// IsExpired tells what the harness decided.
func (t *Tx) IsExpired(observe.World) bool {
	c := t.ctl()
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.expired[t.ID]
}

// SendTX waits for the harness.
func (t *Tx) SendTX(_ *contract.Caller, auth *bind.TransactOpts) (*types.Transaction, error) {
	ctx := auth.Context
	if ctx == nil {
		ctx = context.Background()
	}
	a := t.ctl().call(ctx, fmt.Sprintf("send tx %d", t.ID))
	if a.err != nil {
		return nil, a.err
	}
	return txOf(t.ID, a.n), nil
}

func txOf(id, attempt int) *types.Transaction {
	tx, err := types.SignTx(types.NewTransaction(uint64(id*1000+attempt), common.Address{1}, big.NewInt(0), 21000, big.NewInt(1), nil),
		types.NewEIP155Signer(big.NewInt(1337)), key)
	must(err)
	return tx
}

func msgOf(id int) *shmsg.Message { return shmsg.NewBatchConfigStarted(uint64(id)) }

type answer struct {
	err  error // send: what the attempt ended with
	n    int   // send tx: which transaction it is
	rpc  string
	stat int // receipt status
}

type call struct {
	name string
	ch   chan answer
}

// ctl decides how everything the runner calls ends.
type ctl struct {
	run     int
	mu      sync.Mutex
	cond    *sync.Cond
	out     map[string]*call // waiting for an answer
	expired map[int]bool
	armed   map[string]string // eth method: how its next call fails
	hung    map[string]bool
	hashes  map[common.Hash]int
	txs     map[common.Hash]*types.Transaction
	allowed func(name string) string // safety: may this call be made now?
	bad     []string
	calls   int
	stopped bool
}

var runs int64

func newCtl() *ctl {
	c := &ctl{run: int(atomic.AddInt64(&runs, 1)), out: map[string]*call{}, expired: map[int]bool{}, armed: map[string]string{},
		hung: map[string]bool{}, hashes: map[common.Hash]int{}, txs: map[common.Hash]*types.Transaction{}}
	c.cond = sync.NewCond(&c.mu)
	ctls.Store(c.run, c)
	return c
}

func (c *ctl) close() { ctls.Delete(c.run) }

// call registers a call and waits for its answer.
func (c *ctl) call(ctx context.Context, name string) answer {
	c.mu.Lock()
	c.calls++
	k := &call{name, make(chan answer, 1)}
	if ctx.Err() == nil {
		if c.out[name] != nil {
			c.bad = append(c.bad, "twice at the same time: "+name)
		} else if m := c.allowed(name); m != "" && !c.stopped {
			c.bad = append(c.bad, m)
		}
		c.out[name] = k
		c.cond.Broadcast()
	}
	c.mu.Unlock()
	select {
	case a := <-k.ch:
		return a
	case <-ctx.Done():
		c.mu.Lock()
		if c.out[name] == k {
			delete(c.out, name)
		}
		c.mu.Unlock()
		select {
		case a := <-k.ch:
			return a
		default:
		}
		return answer{err: ctx.Err()}
	}
}

// answer ends a waiting call; then runs with the lock held.
func (c *ctl) answer(name string, a answer, then func()) {
	c.mu.Lock()
	k := c.out[name]
	delete(c.out, name)
	if then != nil {
		then()
	}
	c.mu.Unlock()
	k.ch <- a
}

// SendMessage waits for the harness.
func (c *ctl) SendMessage(ctx context.Context, m *shmsg.Message) error {
	return c.call(ctx, fmt.Sprintf("send msg %d", m.GetBatchConfigStarted().GetBatchConfigIndex())).err
}

// RoundTrip is the ethereum node.
func (c *ctl) RoundTrip(req *http.Request) (*http.Response, error) {
	body, err := ioutil.ReadAll(req.Body)
	must(err)
	var q struct {
		ID     json.RawMessage
		Method string
		Params []json.RawMessage
	}
	must(json.Unmarshal(body, &q))
	ctx := req.Context()
	how := ""
	var result interface{}
	switch q.Method {
	case "eth_getTransactionReceipt":
		var h common.Hash
		must(json.Unmarshal(q.Params[0], &h))
		c.mu.Lock()
		id, ok := c.hashes[h]
		if !ok {
			c.bad = append(c.bad, "asks for the receipt of an unknown transaction")
		}
		how = c.armed[q.Method]
		c.mu.Unlock()
		if how == "" {
			a := c.call(ctx, fmt.Sprintf("receipt %d", id))
			if a.err != nil {
				return nil, a.err
			}
			how = a.rpc
			if how == "" {
				result = &types.Receipt{Status: uint64(a.stat), TxHash: h, BlockNumber: big.NewInt(7), GasUsed: 5, Logs: []*types.Log{}}
			}
		}
	default:
		c.mu.Lock()
		how = c.armed[q.Method]
		if how != "" && how != "hang" {
			delete(c.armed, q.Method)
		}
		if how == "hang" {
			c.hung[q.Method] = true
			c.cond.Broadcast()
		}
		c.mu.Unlock()
		switch q.Method {
		case "eth_chainId":
			result = "0x539"
		case "eth_getTransactionCount":
			result = "0x7"
		case "eth_gasPrice":
			result = "0x3b9aca00"
		case "eth_call":
			result = "0x"
		case "eth_getTransactionByHash":
			var h common.Hash
			must(json.Unmarshal(q.Params[0], &h))
			c.mu.Lock()
			tx := c.txs[h]
			c.mu.Unlock()
			b, err := tx.MarshalJSON()
			must(err)
			m := map[string]interface{}{}
			must(json.Unmarshal(b, &m))
			m["blockNumber"], m["from"] = "0x7", crypto.PubkeyToAddress(key.PublicKey)
			result = m
		default:
			how = "error"
		}
	}
	reply := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID, "result": result}
	switch how {
	case "", "null":
	case "hang":
		c.mu.Lock()
		c.hung[q.Method] = true
		c.cond.Broadcast()
		c.mu.Unlock()
		<-ctx.Done()
		return nil, ctx.Err()
	case "down":
		return nil, errors.New("connection refused")
	case "http":
		return &http.Response{StatusCode: 503, Status: "503 Service Unavailable", Body: ioutil.NopCloser(bytes.NewReader(nil)), Header: http.Header{}}, nil
	default:
		delete(reply, "result")
		reply["error"] = map[string]interface{}{"code": -32000, "message": "scripted " + how}
	}
	if how == "null" {
		reply["result"] = nil
	}
	b, err := json.Marshal(reply)
	must(err)
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: ioutil.NopCloser(bytes.NewReader(b)),
		Header: http.Header{"Content-Type": {"application/json"}}, Request: req}, nil
}

// env is one life of the runner.
type env struct {
	c      *ctl
	fs     *fs.FS
	re     *fx.RunEnv
	ctx    context.Context
	cancel func()
	done   chan struct{} // all workers have returned
	sched  chan struct{} // the scheduling goroutine has returned
	err    string
}

const pendingFile = "actions.gob"

// start starts a runner on the given files. first: the action ID of each batch.
func (c *ctl) start(files map[string]string, load bool, first []int, batches [][]fx.IAction) *env {
	e := &env{c: c, fs: fs.New(files), done: make(chan struct{}), sched: make(chan struct{})}
	rc, err := rpc.DialHTTPWithClient("http://node.invalid", &http.Client{Transport: c})
	must(err)
	cl := ethclient.NewClient(rc)
	caller := contract.NewCaller(cl, key, nil, nil, nil, nil, nil, nil)
	world := observe.World{}
	e.re = fx.NewRunEnv(c, &caller, func() observe.World { return world }, e.fs.Root+"/"+pendingFile)
	ctx, cancel := context.WithCancel(context.Background())
	g, gctx := errgroup.WithContext(ctx)
	e.ctx, e.cancel = gctx, cancel
	e.re.StartBackgroundTasks(gctx, g)
	go func() {
		defer close(e.sched)
		if load {
			if _, err := e.re.Load(gctx); err != nil && ctx.Err() == nil {
				e.err = "Load: " + err.Error()
				return
			}
		}
		for i, b := range batches {
			if err := e.re.RunActions(gctx, uint64(first[i]), b); err != nil {
				if ctx.Err() == nil {
					e.err = "RunActions: " + err.Error()
				}
				return
			}
		}
	}()
	go func() {
		_ = g.Wait()
		close(e.done)
	}()
	return e
}

const patience = 5 * time.Second

// stop stops the runner; "": everything returned.
func (e *env) stop() string {
	e.c.mu.Lock()
	e.c.stopped = true
	e.c.mu.Unlock()
	e.cancel()
	end := time.After(patience)
	select {
	case <-e.done:
	case <-end:
		return "a worker does not return after the runner was stopped"
	}
	select {
	case <-e.sched:
	case <-end:
		return "scheduling does not return after the runner was stopped"
	}
	return ""
}
