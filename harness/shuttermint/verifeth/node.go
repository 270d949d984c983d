// Package verifeth is an ethereum node made of a scripted chain: contract calls and log queries are
// answered from the state recorded for each block. It is used behind the real ethereum client and the
// real contract bindings.
package verifeth

import (
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

// Addresses of the contracts.
var (
	ConfigAddr    = common.HexToAddress("0x0000000000000000000000000000000000c0f161")
	BroadcastAddr = common.HexToAddress("0x0000000000000000000000000000000000b0ca57")
	BatcherAddr   = common.HexToAddress("0x00000000000000000000000000000000000ba7c4")
	ExecutorAddr  = common.HexToAddress("0x000000000000000000000000000000000000e8ec")
	DepositAddr   = common.HexToAddress("0x00000000000000000000000000000000000de905")
	SlasherAddr   = common.HexToAddress("0x0000000000000000000000000000000000051a54")
)

var abis = map[common.Address]*abi.ABI{}

func init() {
	for a, f := range map[common.Address]func() (*abi.ABI, error){
		ConfigAddr: contract.ConfigContractMetaData.GetAbi, BroadcastAddr: contract.KeyBroadcastContractMetaData.GetAbi,
		BatcherAddr: contract.BatcherContractMetaData.GetAbi, ExecutorAddr: contract.ExecutorContractMetaData.GetAbi,
		DepositAddr: contract.DepositContractMetaData.GetAbi, SlasherAddr: contract.KeyperSlasherMetaData.GetAbi,
	} {
		x, err := f()
		if err != nil {
			panic(err)
		}
		abis[a] = x
	}
}

// ABI returns the interface of a contract.
func ABI(a common.Address) *abi.ABI { return abis[a] }

// Block is one block of the scripted chain with the contracts' state after it.
type Block struct {
	Configs   []contract.BatchConfig
	HalfSteps uint64
	Receipts  map[uint64]contract.CipherExecutionReceipt
	Logs      []types.Log
}

// Node answers requests. Blocks is the chain; only blocks up to Head are visible.
type Node struct {
	mu      sync.Mutex
	Blocks  []*Block
	Head    uint64
	Syncing bool
	// Fail is asked before every request is answered.
	Fail func(method string) error
	// Send handles raw transactions.
	Send func(tx *types.Transaction) error
	// Receipt looks up receipts; nil, nil: not mined.
	Receipt func(h common.Hash) (*types.Receipt, error)
	// TxByHash looks up transactions.
	TxByHash func(h common.Hash) (*types.Transaction, error)
	Nonce    uint64
	Calls    []string
	LogCalls bool

	subs []*subscription
}

type subscription struct {
	n  *rpc.Notifier
	id rpc.ID
}

// NewHeads is eth_subscribe newHeads.
func (a api) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	done, err := a.enter("subscribe")
	if err != nil {
		return nil, err
	}
	defer done()
	notifier, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	sub := notifier.CreateSubscription()
	a.n.subs = append(a.n.subs, &subscription{notifier, sub.ID})
	return sub, nil
}

// Subscriptions is the number of subscriptions made so far.
func (n *Node) Subscriptions() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.subs)
}

// PushHead moves the head and tells the latest subscriber.
func (n *Node) PushHead(head uint64) error {
	n.mu.Lock()
	n.Head = head
	var s *subscription
	if len(n.subs) > 0 {
		s = n.subs[len(n.subs)-1]
	}
	n.mu.Unlock()
	if s == nil {
		return errors.New("no subscriber")
	}
	return s.n.Notify(s.id, header(head))
}

// Link is a connection to the node that can be cut.
type Link struct {
	srv   *rpc.Server
	http  *httptest.Server
	Calls *contract.Caller
}

// Connect connects a caller over a websocket.
func (n *Node) Connect() *Link {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", api{n}); err != nil {
		panic(err)
	}
	h := httptest.NewServer(srv.WebsocketHandler([]string{"*"}))
	cl, err := rpc.Dial("ws" + strings.TrimPrefix(h.URL, "http"))
	if err != nil {
		panic(err)
	}
	return &Link{srv, h, caller(ethclient.NewClient(cl), nil)}
}

// Cut closes all connections; new ones can be made.
func (l *Link) Cut(n *Node) {
	h := l.http
	h.CloseClientConnections()
	// websocket connections are hijacked, the server has to close them
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", api{n}); err != nil {
		panic(err)
	}
	h.Config.Handler = srv.WebsocketHandler([]string{"*"})
	l.srv.Stop()
	l.srv = srv
}

// Down makes the node unreachable.
func (l *Link) Down() {
	l.srv.Stop()
	l.http.Listener.Close()
	l.http.CloseClientConnections()
}

// Close ends the link.
func (l *Link) Close() {
	l.Calls.Ethclient.Close()
	l.srv.Stop()
	l.http.Close()
}

// Lock runs f while no request is being answered.
func (n *Node) Lock(f func()) { n.mu.Lock(); f(); n.mu.Unlock() }

// AddLog appends an event to a block. Arguments are in the order of the event's inputs.
func (n *Node) AddLog(block int, addr common.Address, event string, args ...interface{}) {
	ev, ok := abis[addr].Events[event]
	if !ok {
		panic("no event " + event)
	}
	topics := []common.Hash{ev.ID}
	var rest []interface{}
	for i, in := range ev.Inputs {
		if !in.Indexed {
			rest = append(rest, args[i])
			continue
		}
		switch v := args[i].(type) {
		case common.Address:
			topics = append(topics, common.BytesToHash(v.Bytes()))
		case uint64:
			topics = append(topics, common.BigToHash(new(big.Int).SetUint64(v)))
		default:
			panic("topic type")
		}
	}
	data, err := ev.Inputs.NonIndexed().Pack(rest...)
	if err != nil {
		panic(err)
	}
	b := n.Blocks[block]
	b.Logs = append(b.Logs, types.Log{Address: addr, Topics: topics, Data: data, BlockNumber: uint64(block),
		TxHash: common.BigToHash(big.NewInt(int64(block*1000 + len(b.Logs)))), TxIndex: uint(len(b.Logs)), Index: uint(len(b.Logs)),
		BlockHash: common.BigToHash(big.NewInt(int64(block + 1)))})
}

type api struct{ n *Node }

func (a api) enter(method string) (func(), error) {
	a.n.mu.Lock()
	if a.n.LogCalls {
		a.n.Calls = append(a.n.Calls, method)
	}
	fail := a.n.Fail
	if fail != nil {
		a.n.mu.Unlock()
		err := fail(method)
		if err != nil {
			return nil, err
		}
		a.n.mu.Lock()
	}
	return a.n.mu.Unlock, nil
}

// Syncing is eth_syncing.
func (a api) Syncing() (interface{}, error) {
	done, err := a.enter("syncing")
	if err != nil {
		return nil, err
	}
	defer done()
	if !a.n.Syncing {
		return false, nil
	}
	return map[string]interface{}{"startingBlock": "0x0", "currentBlock": "0x1", "highestBlock": "0x9", "pulledStates": "0x0", "knownStates": "0x0"}, nil
}

func (a api) number(s string) (uint64, error) {
	if s == "latest" || s == "pending" || s == "" {
		return a.n.Head, nil
	}
	x, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		return 0, err
	}
	if x > a.n.Head {
		return 0, errors.New("header not found")
	}
	return x, nil
}

func header(i uint64) *types.Header {
	return &types.Header{Number: new(big.Int).SetUint64(i), Difficulty: big.NewInt(1), GasLimit: 8000000, Time: i, Extra: []byte{}}
}

// GetBlockByNumber is eth_getBlockByNumber.
func (a api) GetBlockByNumber(s string, full bool) (*types.Header, error) {
	done, err := a.enter("getBlockByNumber")
	if err != nil {
		return nil, err
	}
	defer done()
	x, err := a.number(s)
	if err != nil {
		return nil, err
	}
	return header(x), nil
}

// GetCode is eth_getCode.
func (a api) GetCode(addr common.Address, s string) (hexutil.Bytes, error) {
	done, err := a.enter("getCode")
	if err != nil {
		return nil, err
	}
	defer done()
	if abis[addr] == nil {
		return hexutil.Bytes{}, nil
	}
	return hexutil.Bytes{1}, nil
}

type callArgs struct {
	From *common.Address `json:"from"`
	To   *common.Address `json:"to"`
	Data hexutil.Bytes   `json:"data"`
}

var errReverted = errors.New("execution reverted")

// Call is eth_call.
func (a api) Call(msg callArgs, s string) (hexutil.Bytes, error) {
	name := "call"
	var m *abi.Method
	if msg.To != nil && abis[*msg.To] != nil && len(msg.Data) >= 4 {
		m, _ = abis[*msg.To].MethodById(msg.Data[:4])
	}
	if m != nil {
		name += ":" + m.Name
	}
	done, err := a.enter(name)
	if err != nil {
		return nil, err
	}
	defer done()
	if m == nil {
		return nil, errReverted
	}
	x, err := a.number(s)
	if err != nil {
		return nil, err
	}
	args, err := m.Inputs.Unpack(msg.Data[4:])
	if err != nil {
		return nil, err
	}
	u := func(i int) uint64 { return args[i].(uint64) }
	b := a.n.Blocks[x]
	pack := func(v ...interface{}) (hexutil.Bytes, error) { return m.Outputs.Pack(v...) }
	switch m.Name {
	case "numConfigs":
		return pack(uint64(len(b.Configs)))
	case "configForConfigIndex":
		if u(0) >= uint64(len(b.Configs)) {
			return nil, errReverted
		}
		return pack(b.Configs[u(0)])
	case "configNumKeypers":
		if u(0) >= uint64(len(b.Configs)) {
			return nil, errReverted
		}
		return pack(uint64(len(b.Configs[u(0)].Keypers)))
	case "configKeypers":
		if u(0) >= uint64(len(b.Configs)) || u(1) >= uint64(len(b.Configs[u(0)].Keypers)) {
			return nil, errReverted
		}
		return pack(b.Configs[u(0)].Keypers[u(1)])
	case "numExecutionHalfSteps":
		return pack(b.HalfSteps)
	case "getReceipt":
		return pack(b.Receipts[u(0)])
	}
	return nil, errReverted
}

type logQuery struct {
	Address   json.RawMessage   `json:"address"`
	Topics    []json.RawMessage `json:"topics"`
	FromBlock string            `json:"fromBlock"`
	ToBlock   string            `json:"toBlock"`
}

// GetLogs is eth_getLogs.
func (a api) GetLogs(q logQuery) ([]types.Log, error) {
	var addrs []common.Address
	if err := json.Unmarshal(q.Address, &addrs); err != nil {
		var one common.Address
		if err := json.Unmarshal(q.Address, &one); err != nil {
			return nil, err
		}
		addrs = []common.Address{one}
	}
	var topics [][]common.Hash
	for _, t := range q.Topics {
		var l []common.Hash
		if err := json.Unmarshal(t, &l); err != nil {
			var one *common.Hash
			if err := json.Unmarshal(t, &one); err != nil {
				return nil, err
			}
			if one != nil {
				l = []common.Hash{*one}
			}
		}
		topics = append(topics, l)
	}
	name := "getLogs"
	if len(addrs) == 1 && len(topics) > 0 && len(topics[0]) == 1 && abis[addrs[0]] != nil {
		if ev, err := abis[addrs[0]].EventByID(topics[0][0]); err == nil {
			name += ":" + ev.Name
		}
	}
	done, err := a.enter(name)
	if err != nil {
		return nil, err
	}
	defer done()
	from, to := uint64(0), a.n.Head
	if q.FromBlock != "" && q.FromBlock != "latest" {
		if from, err = strconv.ParseUint(strings.TrimPrefix(q.FromBlock, "0x"), 16, 64); err != nil {
			return nil, err
		}
	}
	if q.ToBlock != "" && q.ToBlock != "latest" {
		if to, err = strconv.ParseUint(strings.TrimPrefix(q.ToBlock, "0x"), 16, 64); err != nil {
			return nil, err
		}
	}
	res := []types.Log{}
	for x := from; x <= to && x <= a.n.Head; x++ {
	next:
		for _, l := range a.n.Blocks[x].Logs {
			ok := false
			for _, ad := range addrs {
				ok = ok || ad == l.Address
			}
			if !ok {
				continue
			}
			for i, t := range topics {
				if len(t) == 0 {
					continue
				}
				if i >= len(l.Topics) {
					continue next
				}
				ok := false
				for _, h := range t {
					ok = ok || h == l.Topics[i]
				}
				if !ok {
					continue next
				}
			}
			res = append(res, l)
		}
	}
	return res, nil
}

// ChainId is eth_chainId.
func (a api) ChainId() (hexutil.Uint64, error) { //nolint
	done, err := a.enter("chainId")
	if err != nil {
		return 0, err
	}
	defer done()
	return 1337, nil
}

// GetTransactionCount is eth_getTransactionCount.
func (a api) GetTransactionCount(addr common.Address, s string) (hexutil.Uint64, error) {
	done, err := a.enter("getTransactionCount")
	if err != nil {
		return 0, err
	}
	defer done()
	return hexutil.Uint64(a.n.Nonce), nil
}

// GasPrice is eth_gasPrice.
func (a api) GasPrice() (*hexutil.Big, error) {
	done, err := a.enter("gasPrice")
	if err != nil {
		return nil, err
	}
	defer done()
	return (*hexutil.Big)(big.NewInt(1000000000)), nil
}

// EstimateGas is eth_estimateGas.
func (a api) EstimateGas(msg callArgs) (hexutil.Uint64, error) {
	done, err := a.enter("estimateGas")
	if err != nil {
		return 0, err
	}
	defer done()
	return 100000, nil
}

// SendRawTransaction is eth_sendRawTransaction.
func (a api) SendRawTransaction(data hexutil.Bytes) (common.Hash, error) {
	done, err := a.enter("sendRawTransaction")
	if err != nil {
		return common.Hash{}, err
	}
	done()
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(data); err != nil {
		return common.Hash{}, err
	}
	if a.n.Send != nil {
		if err := a.n.Send(tx); err != nil {
			return common.Hash{}, err
		}
	}
	return tx.Hash(), nil
}

// GetTransactionReceipt is eth_getTransactionReceipt.
func (a api) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	done, err := a.enter("getTransactionReceipt")
	if err != nil {
		return nil, err
	}
	done()
	if a.n.Receipt == nil {
		return nil, nil
	}
	return a.n.Receipt(h)
}

// GetTransactionByHash is eth_getTransactionByHash.
func (a api) GetTransactionByHash(h common.Hash) (map[string]interface{}, error) {
	done, err := a.enter("getTransactionByHash")
	if err != nil {
		return nil, err
	}
	done()
	if a.n.TxByHash == nil {
		return nil, nil
	}
	tx, err := a.n.TxByHash(h)
	if tx == nil || err != nil {
		return nil, err
	}
	b, err := json.Marshal(tx)
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	m["blockNumber"] = "0x1"
	return m, nil
}

// Client connects the real client to the node.
func (n *Node) Client() *ethclient.Client {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", api{n}); err != nil {
		panic(err)
	}
	return ethclient.NewClient(rpc.DialInProc(srv))
}

// Caller makes a contract caller that talks to the node through the real bindings.
func (n *Node) Caller(key *ecdsa.PrivateKey) *contract.Caller { return caller(n.Client(), key) }

// CallerOf makes a contract caller of a client.
func CallerOf(cl *ethclient.Client, key *ecdsa.PrivateKey) *contract.Caller { return caller(cl, key) }

func caller(cl *ethclient.Client, key *ecdsa.PrivateKey) *contract.Caller {
	p := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	cfg, err := contract.NewConfigContract(ConfigAddr, cl)
	p(err)
	kb, err := contract.NewKeyBroadcastContract(BroadcastAddr, cl)
	p(err)
	ba, err := contract.NewBatcherContract(BatcherAddr, cl)
	p(err)
	ex, err := contract.NewExecutorContract(ExecutorAddr, cl)
	p(err)
	de, err := contract.NewDepositContract(DepositAddr, cl)
	p(err)
	sl, err := contract.NewKeyperSlasher(SlasherAddr, cl)
	p(err)
	c := contract.NewCaller(cl, key, cfg, kb, ba, ex, de, sl)
	return &c
}

// Describe names the method of a transaction.
func Describe(tx *types.Transaction) (string, []interface{}) {
	if tx.To() == nil || abis[*tx.To()] == nil || len(tx.Data()) < 4 {
		return "?", nil
	}
	m, err := abis[*tx.To()].MethodById(tx.Data()[:4])
	if err != nil {
		return "?", nil
	}
	args, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		return "?" + fmt.Sprint(err), nil
	}
	return m.Name, args
}

var _ = context.Background
