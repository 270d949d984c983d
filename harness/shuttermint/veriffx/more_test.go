package veriffx

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"context"

	"golang.org/x/sync/errgroup"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/gaspricer"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
)

// TestC24Many stops the runner with many transactions waiting to be mined, and during calls a node
// never answers.
func TestC24Many(t *testing.T) {
	r := verifkit.Start("many-transactions")
	defer r.Finish()
	total := 25
	type job struct{ sent, mined int }
	var jobs []job
	for s := 0; s <= total; s++ {
		for _, m := range []int{0, 1, 5, 20} {
			if m <= s && (r.Thorough() || s == 0 || s >= 19) {
				jobs = append(jobs, job{s, m})
			}
		}
	}
	r.Parallel(len(jobs), func(k int) {
		j := jobs[k]
		msg := many(total, j.sent, j.mined)
		r.Count("transitions", int64(total+j.sent+j.mined))
		r.Count("traces", 1)
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(j)))
		if msg != "" {
			r.Violation("many-transactions: "+msg, fmt.Sprintf("%s, stopped with %d of %d transactions sent and %d mined", msg, j.sent, total, j.mined),
				map[string]interface{}{"sent": j.sent, "mined": j.mined})
		}
	})
	methods := []string{"eth_chainId", "eth_getTransactionCount", "eth_gasPrice", "eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_call"}
	r.Parallel(len(methods), func(k int) {
		msg := hang(methods[k])
		r.Count("transitions", 4)
		r.Count("traces", 1)
		r.Distinct("nontrivial", verifkit.Hash(methods[k]))
		if msg != "" {
			r.Violation("hanging-node: "+methods[k]+": "+msg, msg+", the node does not answer "+methods[k], map[string]interface{}{"method": methods[k]})
		}
	})
	r.Count("states", int64(len(jobs)+len(methods)))
}

func many(total, sent, mined int) string {
	ct := newCtl()
	defer ct.close()
	var mu sync.Mutex
	state := make([]status, total)
	ct.allowed = func(name string) string {
		var i int
		if k, _ := fmt.Sscanf(name, "send tx %d", &i); k == 1 {
			mu.Lock()
			defer mu.Unlock()
			if state[i] != waiting {
				return "done before: " + name
			}
			for j := 0; j < i; j++ {
				if state[j] == waiting {
					return "out of order: " + name
				}
			}
		}
		return ""
	}
	var batch []fx.IAction
	for i := 0; i < total; i++ {
		batch = append(batch, &Tx{ct.run, i})
	}
	answerAll := func(e *env, prefix string, to status, limit int) int {
		n := 0
		last := time.Now()
		for n < limit {
			var name string
			var i int
			ct.mu.Lock()
			for o := range ct.out {
				if strings.HasPrefix(o, prefix) {
					name = o
				}
			}
			ct.mu.Unlock()
			if name == "" {
				if time.Since(last) > 100*time.Millisecond {
					return n // the runner does not get further for now
				}
				time.Sleep(50 * time.Microsecond)
				continue
			}
			f := strings.Fields(name)
			fmt.Sscan(f[len(f)-1], &i)
			ct.answer(name, answer{stat: 1}, func() {
				tx := txOf(i, 0)
				ct.hashes[tx.Hash()] = i
				ct.txs[tx.Hash()] = tx
				mu.Lock()
				state[i] = to
				mu.Unlock()
			})
			n++
			last = time.Now()
		}
		return n
	}
	e := ct.start(nil, false, []int{0}, [][]fx.IAction{batch})
	answerAll(e, "send", inflight, sent)
	if n := answerAll(e, "receipt", gone, mined); n < mined {
		e.stop()
		return fmt.Sprintf("only %d receipts are asked for", n)
	}
	// let it settle
	time.Sleep(20 * time.Millisecond)
	if msg := e.stop(); msg != "" {
		return msg
	}
	files := e.fs.Files()
	e.fs.Close()
	have, err := pendingOnDisk(files)
	if err != nil {
		return err.Error()
	}
	for i := range state {
		hash, ok := have[i]
		if state[i] != gone && !ok {
			return "a transaction that was not mined is not pending any more"
		}
		if ok && hash != (state[i] == inflight) && state[i] != gone {
			return "the hash of a sent transaction was not recorded"
		}
		if ok {
			// a mined one whose removal did not finish before the stop is mined again
			if hash && state[i] == gone {
				state[i] = inflight
			}
		}
	}
	ct.mu.Lock()
	ct.stopped = false
	ct.out = map[string]*call{}
	ct.mu.Unlock()
	e = ct.start(files, true, []int{0}, [][]fx.IAction{batch})
	end := time.Now().Add(patience)
	for len(e.re.PendingActions.SortedIDs()) > 0 || !e.scheduled() {
		if time.Now().After(end) {
			e.stop()
			return fmt.Sprintf("%d actions are never finished after the restart", len(e.re.PendingActions.SortedIDs()))
		}
		a := answerAll(e, "send", inflight, 1)
		b := answerAll(e, "receipt", gone, 1)
		if a+b > 0 {
			end = time.Now().Add(patience)
		}
	}
	msg := e.stop()
	e.fs.Close()
	ct.mu.Lock()
	defer ct.mu.Unlock()
	if len(ct.bad) > 0 {
		return ct.bad[0]
	}
	if msg == "" {
		for i := range state {
			if state[i] != gone {
				return "a transaction was never mined"
			}
		}
	}
	return msg
}

func (e *env) scheduled() bool {
	select {
	case <-e.sched:
		return true
	default:
		return false
	}
}

func hang(method string) string {
	ct := newCtl()
	defer ct.close()
	ct.allowed = func(string) string { return "" }
	ct.armed[method] = "hang"
	e := ct.start(nil, false, []int{0}, [][]fx.IAction{{&Tx{ct.run, 0}}})
	end := time.Now().Add(patience)
	mined := false
	for {
		ct.mu.Lock()
		hung := ct.hung[method]
		var name string
		for o := range ct.out {
			name = o
		}
		ct.mu.Unlock()
		if hung {
			break
		}
		if name != "" {
			mined = mined || strings.HasPrefix(name, "receipt")
			ct.answer(name, answer{stat: 0}, func() {
				tx := txOf(0, 0)
				ct.hashes[tx.Hash()] = 0
				ct.txs[tx.Hash()] = tx
			})
		} else if mined && len(e.re.PendingActions.SortedIDs()) == 0 {
			break // it does without this call
		}
		if time.Now().After(end) {
			e.stop()
			return "nothing happens"
		}
		time.Sleep(50 * time.Microsecond)
	}
	if msg := e.stop(); msg != "" {
		return msg
	}
	have, err := pendingOnDisk(e.fs.Files())
	e.fs.Close()
	if err != nil {
		return err.Error()
	}
	if _, ok := have[0]; !ok && !mined {
		return "the action is not pending any more"
	}
	return ""
}

type detReader struct{ r *rand.Rand }

func (d detReader) Read(p []byte) (int, error) { return d.r.Read(p) }

var _ io.Reader = detReader{}

func eonKey(seed int64) *shcrypto.EonPublicKey {
	p, err := shcrypto.RandomPolynomial(detReader{rand.New(rand.NewSource(seed))}, 1)
	must(err)
	return shcrypto.ComputeEonPublicKey([]*shcrypto.Gammas{p.Gammas()})
}

// act is one real action with what is expected of it.
type act struct {
	name     string
	a        fx.IAction
	to       common.Address
	method   string
	args     []interface{}
	minGas   uint64 // 0: estimated
	halfStep int64  // expired once it was executed; -1: not so
	accuse   int64  // half step accused
	appeal   int64  // half step appealed
	drops    []string
}

func actions() []act {
	h := [32]byte{1, 2, 3}
	var l []act
	for _, b := range []uint64{0, 1, 7} {
		for _, txs := range [][][]byte{{}, {{1}}, {{1}, {}, {3, 4}}} {
			l = append(l, act{name: fmt.Sprintf("execute cipher batch %d with %d", b, len(txs)),
				a:  &fx.ExecuteCipherBatch{BatchIndex: b, CipherBatchHash: h, Transactions: txs, KeyperIndex: 2, TransactionGasLimit: 5000},
				to: verifeth.ExecutorAddr, method: "executeCipherBatch", args: []interface{}{b, h, txs, uint64(2)},
				minGas: uint64(len(txs))*5000 + 1, halfStep: int64(2 * b), accuse: -1, appeal: -1})
			l = append(l, act{name: fmt.Sprintf("execute plain batch %d with %d", b, len(txs)),
				a:  &fx.ExecutePlainBatch{BatchIndex: b, Transactions: txs, TransactionGasLimit: 7000},
				to: verifeth.ExecutorAddr, method: "executePlainBatch", args: []interface{}{b, txs},
				minGas: uint64(len(txs))*7000 + 1, halfStep: int64(2*b + 1), accuse: -1, appeal: -1})
		}
		l = append(l, act{name: fmt.Sprint("skip ", b), a: &fx.SkipCipherBatch{BatchIndex: b}, to: verifeth.ExecutorAddr,
			method: "skipCipherExecution", args: []interface{}{b}, minGas: 1, halfStep: int64(2 * b), accuse: -1, appeal: -1})
		l = append(l, act{name: fmt.Sprint("accuse ", 2*b), a: &fx.Accuse{HalfStep: 2 * b, KeyperIndex: 1}, to: verifeth.SlasherAddr,
			method: "accuse", args: []interface{}{2 * b, uint64(1)}, halfStep: -1, accuse: int64(2 * b), appeal: -1,
			drops: []string{"execution reverted: KeyperSlasher: cannot accuse empty batch", "execution reverted: KeyperSlasher: already accused"}})
		au := contract.Authorization{HalfStep: 2 * b, BatchHash: h, SignerIndices: []uint64{0, 2}, Signatures: [][]byte{{1, 2}, {3}}}
		l = append(l, act{name: fmt.Sprint("appeal ", 2*b), a: &fx.Appeal{Authorization: au}, to: verifeth.SlasherAddr,
			method: "appeal", args: []interface{}{au}, halfStep: -1, accuse: -1, appeal: int64(2 * b),
			drops: []string{"execution reverted: KeyperSlasher: wrong signer"}})
	}
	k := eonKey(3)
	l = append(l, act{name: "eon key", a: &fx.EonKeyBroadcast{KeyperIndex: 1, StartBatchIndex: 9, EonPublicKey: k}, to: verifeth.BroadcastAddr,
		method: "vote", args: []interface{}{uint64(1), uint64(9), k.Marshal()}, minGas: 1, halfStep: -1, accuse: -1, appeal: -1})
	return l
}

type worldCase struct {
	name string
	w    observe.World
}

func worlds() []worldCase {
	var l []worldCase
	mk := func(name string, f func(m *observe.MainChain)) {
		m := observe.NewMainChain(0)
		f(m)
		l = append(l, worldCase{name, observe.World{MainChain: m, Shutter: observe.NewShutter()}})
	}
	for _, n := range []uint64{0, 1, 2, 3, 4, 13, 14, 15, 16, 17} {
		n := n
		mk(fmt.Sprintf("%d half steps executed", n), func(m *observe.MainChain) { m.NumExecutionHalfSteps = n })
	}
	for _, h := range []uint64{0, 2, 14} {
		for _, a := range []bool{false, true} {
			h, a := h, a
			mk(fmt.Sprintf("half step %d accused, appealed=%v", h, a), func(m *observe.MainChain) {
				m.NumExecutionHalfSteps = 20
				m.Accusations[h] = &observe.Accusation{HalfStep: h, Appealed: a}
			})
		}
	}
	return l
}

// expired is the specification.
func (a act) expired(w observe.World) bool {
	m := w.MainChain
	if a.halfStep >= 0 {
		return m.NumExecutionHalfSteps > uint64(a.halfStep)
	}
	if a.accuse >= 0 {
		return m.Accusations[uint64(a.accuse)] != nil
	}
	if a.appeal >= 0 {
		x := m.Accusations[uint64(a.appeal)]
		return x == nil || x.Appealed
	}
	return false
}

// TestC24Actions runs the real actions.
func TestC24Actions(t *testing.T) {
	r := verifkit.Start("actions")
	defer r.Finish()
	acts, ws := actions(), worlds()
	// how sending goes: ok, an error of the node at one of the calls first, an error that ends it
	type job struct {
		a       act
		w       worldCase
		how     string
		restart bool
	}
	var jobs []job
	for _, a := range acts {
		for _, w := range ws {
			jobs = append(jobs, job{a, w, "", false})
		}
		var live worldCase
		for _, w := range ws {
			if !a.expired(w.w) {
				live = w
				break
			}
		}
		for _, m := range []string{"chainId", "getTransactionCount", "gasPrice", "getCode", "estimateGas", "sendRawTransaction"} {
			for _, e := range []string{"connection refused", "execution reverted: something else", "nonce too low"} {
				jobs = append(jobs, job{a, live, m + ": " + e, false})
			}
		}
		for _, d := range append([]string{"cannot accuse empty batch", "already accused", "wrong signer"}, a.drops...) {
			jobs = append(jobs, job{a, live, "estimateGas: " + d, false}, job{a, live, "sendRawTransaction: " + d, false})
		}
		jobs = append(jobs, job{a, live, "", true})
	}
	r.Count("states", int64(len(acts)*len(ws)))
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		msg := runAction(j.a, j.w.w, j.how, j.restart)
		r.Count("transitions", 1)
		r.Count("traces", 1)
		name := fmt.Sprintf("%s, %s, %s, restart=%v", j.a.name, j.w.name, j.how, j.restart)
		r.Sample(name)
		if msg != "" {
			r.Violation("actions: "+j.a.method+": "+msg, msg+": "+name, map[string]interface{}{"case": name})
		}
	})
}

type noMessages struct{}

func (noMessages) SendMessage(context.Context, *shmsg.Message) error { return errors.New("no messages") }

func runAction(a act, w observe.World, how string, restart bool) string {
	node := &verifeth.Node{Blocks: []*verifeth.Block{{}}, Nonce: 11}
	var mu sync.Mutex
	var sent []*types.Transaction
	failed := false
	method, text := "", ""
	if i := strings.Index(how, ": "); i > 0 {
		method, text = how[:i], how[i+2:]
	}
	blocked := restart
	node.Fail = func(m string) error {
		mu.Lock()
		defer mu.Unlock()
		if blocked {
			return errors.New("not now")
		}
		if m == method && !failed {
			failed = true
			return errors.New(text)
		}
		return nil
	}
	node.Send = func(tx *types.Transaction) error { mu.Lock(); sent = append(sent, tx); mu.Unlock(); return nil }
	node.Receipt = func(h common.Hash) (*types.Receipt, error) {
		return &types.Receipt{Status: 1, TxHash: h, BlockNumber: big.NewInt(1), Logs: []*types.Log{}}, nil
	}
	disk := fs.New(nil)
	defer disk.Close()
	life := func(load bool, until func(p *fx.PendingActions) bool) string {
		caller := node.Caller(key)
		re := fx.NewRunEnv(noMessages{}, caller, func() observe.World { return w }, disk.Root+"/"+pendingFile)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		g, gctx := errgroup.WithContext(ctx)
		re.StartBackgroundTasks(gctx, g)
		if load {
			if _, err := re.Load(gctx); err != nil {
				return "Load: " + err.Error()
			}
		}
		if err := re.RunActions(gctx, 0, []fx.IAction{a.a}); err != nil {
			return "RunActions: " + err.Error()
		}
		end := time.Now().Add(patience)
		for !until(re.PendingActions) {
			if time.Now().After(end) {
				return "the action is never finished"
			}
			time.Sleep(50 * time.Microsecond)
		}
		cancel()
		if err := g.Wait(); err != nil {
			return "the runner stops with " + err.Error()
		}
		return ""
	}
	done := func(p *fx.PendingActions) bool { return len(p.SortedIDs()) == 0 }
	if restart {
		if msg := life(false, func(*fx.PendingActions) bool { return true }); msg != "" {
			return msg
		}
		mu.Lock()
		blocked = false
		mu.Unlock()
	}
	if msg := life(restart, done); msg != "" {
		return msg
	}
	want := 1
	if a.expired(w) {
		want = 0
	}
	if failed && (method == "estimateGas" || method == "sendRawTransaction") {
		for _, d := range a.drops {
			if strings.Contains(d, text) || strings.Contains(text, d) {
				want = 0
			}
		}
	}
	if len(sent) != want {
		return fmt.Sprintf("%d transactions are sent instead of %d", len(sent), want)
	}
	if want == 0 {
		return ""
	}
	tx := sent[0]
	m, args := verifeth.Describe(tx)
	if tx.To() == nil || *tx.To() != a.to || m != a.method {
		return fmt.Sprintf("calls %s of %v", m, tx.To())
	}
	if len(args) != len(a.args) {
		return fmt.Sprintf("%d arguments", len(args))
	}
	for i := range args {
		if !same(args[i], a.args[i]) {
			return fmt.Sprintf("argument %d is %v", i, args[i])
		}
	}
	if tx.Nonce() != 11 || tx.ChainId().Cmp(big.NewInt(1337)) != 0 || tx.Value().Sign() != 0 {
		return "wrong nonce, chain or value"
	}
	if tx.GasPrice().Cmp(gaspricer.Adjust(big.NewInt(1000000000))) != 0 {
		return "wrong gas price"
	}
	if tx.Gas() < a.minGas || (a.minGas == 0 && tx.Gas() != 100000) {
		return fmt.Sprintf("gas limit %d", tx.Gas())
	}
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(1337)), tx)
	if err != nil || from != node.Caller(key).Address() {
		return "wrong sender"
	}
	return ""
}

func same(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	return fmt.Sprintf("%x", a) == fmt.Sprintf("%x", b)
}
