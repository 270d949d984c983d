package verifevm

import (
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
)

// Node answers requests about a chain, and collects transactions for its next block.
type Node struct {
	mu    sync.Mutex
	Chain *Chain
	Pool  []*types.Transaction
	// Before is asked before every request is answered.
	Before func(method string) error
	// AfterSend is told of every transaction taken, with the node locked.
	AfterSend func(n *Node, tx *types.Transaction)
	// BeforeReceipt is told of every request for a receipt, with the node locked.
	BeforeReceipt func(n *Node, h common.Hash)
	// Alias are transactions mined in place of others.
	Alias map[common.Hash]common.Hash
	Price *big.Int
}

// MinePool mines a block with everything that is waiting.
func (n *Node) MinePool() {
	n.Chain = n.Chain.Mine(n.Pool...)
	n.Pool = nil
}

// Lock runs f with the node locked.
func (n *Node) Lock(f func()) { n.mu.Lock(); defer n.mu.Unlock(); f() }

type api struct{ n *Node }

func (a api) enter(method string) (func(), error) {
	a.n.mu.Lock()
	if a.n.Before != nil {
		if err := a.n.Before(method); err != nil {
			a.n.mu.Unlock()
			return nil, err
		}
	}
	return a.n.mu.Unlock, nil
}

func (a api) block(s string) (*Block, error) {
	if s == "latest" || s == "" {
		return a.n.Chain.Head(), nil
	}
	if s == "earliest" {
		return a.n.Chain.Blocks[0], nil
	}
	x, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		return nil, err
	}
	if x >= uint64(len(a.n.Chain.Blocks)) {
		return nil, errors.New("header not found")
	}
	return a.n.Chain.Blocks[x], nil
}

// state after a block, or with the waiting transactions, and the number of the block it is for.
func (a api) state(s string) (*state.StateDB, uint64, error) {
	if s == "pending" {
		e := a.n.Chain.next()
		for _, tx := range a.n.Pool {
			_ = e.apply(tx)
		}
		return e.st, e.block.Number, nil
	}
	b, err := a.block(s)
	if err != nil {
		return nil, 0, err
	}
	return b.State(), b.Number, nil
}

func (a api) ChainId() (hexutil.Uint64, error) { //nolint
	done, err := a.enter("chainId")
	if err != nil {
		return 0, err
	}
	defer done()
	return hexutil.Uint64(ChainID.Uint64()), nil
}

func (a api) BlockNumber() (hexutil.Uint64, error) {
	done, err := a.enter("blockNumber")
	if err != nil {
		return 0, err
	}
	defer done()
	return hexutil.Uint64(a.n.Chain.Head().Number), nil
}

func (a api) Syncing() (interface{}, error) {
	done, err := a.enter("syncing")
	if err != nil {
		return nil, err
	}
	defer done()
	return false, nil
}

func (a api) GetBlockByNumber(s string, full bool) (interface{}, error) {
	done, err := a.enter("getBlockByNumber")
	if err != nil {
		return nil, err
	}
	defer done()
	b, err := a.block(s)
	if err != nil {
		return nil, nil
	}
	return header(b.Number), nil
}

func (a api) GetBalance(addr common.Address, s string) (*hexutil.Big, error) {
	done, err := a.enter("getBalance")
	if err != nil {
		return nil, err
	}
	defer done()
	st, _, err := a.state(s)
	if err != nil {
		return nil, err
	}
	return (*hexutil.Big)(st.GetBalance(addr)), nil
}

func (a api) GetCode(addr common.Address, s string) (hexutil.Bytes, error) {
	done, err := a.enter("getCode")
	if err != nil {
		return nil, err
	}
	defer done()
	st, _, err := a.state(s)
	if err != nil {
		return nil, err
	}
	return st.GetCode(addr), nil
}

func (a api) GetTransactionCount(addr common.Address, s string) (hexutil.Uint64, error) {
	done, err := a.enter("getTransactionCount")
	if err != nil {
		return 0, err
	}
	defer done()
	st, _, err := a.state(s)
	if err != nil {
		return 0, err
	}
	return hexutil.Uint64(st.GetNonce(addr)), nil
}

func (a api) GasPrice() (*hexutil.Big, error) {
	done, err := a.enter("gasPrice")
	if err != nil {
		return nil, err
	}
	defer done()
	if a.n.Price != nil {
		return (*hexutil.Big)(a.n.Price), nil
	}
	return (*hexutil.Big)(big.NewInt(1000)), nil
}

type callArgs struct {
	From  *common.Address `json:"from"`
	To    *common.Address `json:"to"`
	Gas   *hexutil.Uint64 `json:"gas"`
	Value *hexutil.Big    `json:"value"`
	Data  hexutil.Bytes   `json:"data"`
	Input hexutil.Bytes   `json:"input"`
}

func (c callArgs) msg() Msg {
	m := Msg{From: c.From, To: c.To, Data: c.Data}
	if len(m.Data) == 0 {
		m.Data = c.Input
	}
	if c.Gas != nil {
		m.Gas = uint64(*c.Gas)
	}
	if c.Value != nil {
		m.Value = (*big.Int)(c.Value)
	}
	return m
}

func (a api) EstimateGas(c callArgs) (hexutil.Uint64, error) {
	done, err := a.enter("estimateGas")
	if err != nil {
		return 0, err
	}
	defer done()
	st, num, err := a.state("pending")
	if err != nil {
		return 0, err
	}
	res, err := call(st, num, c.msg())
	if err != nil {
		return 0, err
	}
	if err := failure(res); err != nil {
		return 0, err
	}
	return hexutil.Uint64(3 * res.UsedGas), nil // refunds are at most half
}

func (a api) Call(c callArgs, s string) (hexutil.Bytes, error) {
	done, err := a.enter("call")
	if err != nil {
		return nil, err
	}
	defer done()
	st, num, err := a.state(s)
	if err != nil {
		return nil, err
	}
	res, err := call(st, num, c.msg())
	if err != nil {
		return nil, err
	}
	if err := failure(res); err != nil {
		return nil, err
	}
	return res.Return(), nil
}

func (a api) SendRawTransaction(data hexutil.Bytes) (common.Hash, error) {
	done, err := a.enter("sendRawTransaction")
	if err != nil {
		return common.Hash{}, err
	}
	defer done()
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(data); err != nil {
		return common.Hash{}, err
	}
	if err := a.n.Submit(tx); err != nil {
		return common.Hash{}, err
	}
	return tx.Hash(), nil
}

// Submit takes a transaction as a node does. The node must be locked.
func (n *Node) Submit(tx *types.Transaction) error {
	e := n.Chain.next()
	for _, t := range n.Pool {
		_ = e.apply(t)
	}
	if err := e.apply(tx); err != nil {
		return err
	}
	n.Pool = append(n.Pool, tx)
	if n.AfterSend != nil {
		n.AfterSend(n, tx)
	}
	return nil
}

func (a api) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	done, err := a.enter("getTransactionReceipt")
	if err != nil {
		return nil, err
	}
	defer done()
	if a.n.BeforeReceipt != nil {
		a.n.BeforeReceipt(a.n, h)
	}
	if x, ok := a.n.Alias[h]; ok {
		h = x
	}
	return a.n.Chain.Receipt(h), nil
}

func (a api) GetTransactionByHash(h common.Hash) (map[string]interface{}, error) {
	done, err := a.enter("getTransactionByHash")
	if err != nil {
		return nil, err
	}
	defer done()
	for _, b := range a.n.Chain.Blocks {
		for _, tx := range b.Txs {
			if tx.Hash() == h {
				x, err := json.Marshal(tx)
				if err != nil {
					return nil, err
				}
				var m map[string]interface{}
				if err := json.Unmarshal(x, &m); err != nil {
					return nil, err
				}
				m["blockNumber"] = fmt.Sprintf("0x%x", b.Number)
				return m, nil
			}
		}
	}
	return nil, nil
}

type logQuery struct {
	Address   json.RawMessage   `json:"address"`
	Topics    []json.RawMessage `json:"topics"`
	FromBlock string            `json:"fromBlock"`
	ToBlock   string            `json:"toBlock"`
}

func (a api) GetLogs(q logQuery) ([]types.Log, error) {
	var addrs []common.Address
	if err := json.Unmarshal(q.Address, &addrs); err != nil {
		var one common.Address
		if err := json.Unmarshal(q.Address, &one); err != nil {
			return nil, err
		}
		addrs = []common.Address{one}
	}
	var topics [][]common.Hash
	for _, t := range q.Topics {
		var l []common.Hash
		if err := json.Unmarshal(t, &l); err != nil {
			var one *common.Hash
			if err := json.Unmarshal(t, &one); err != nil {
				return nil, err
			}
			if one != nil {
				l = []common.Hash{*one}
			}
		}
		topics = append(topics, l)
	}
	done, err := a.enter("getLogs")
	if err != nil {
		return nil, err
	}
	defer done()
	head := a.n.Chain.Head().Number
	num := func(s string, dflt uint64) (uint64, error) {
		if s == "" || s == "latest" {
			return dflt, nil
		}
		return strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	}
	from, err := num(q.FromBlock, 0)
	if err != nil {
		return nil, err
	}
	to, err := num(q.ToBlock, head)
	if err != nil {
		return nil, err
	}
	res := []types.Log{}
	for x := from; x <= to && x <= head; x++ {
	next:
		for _, l := range a.n.Chain.Blocks[x].Logs {
			ok := false
			for _, ad := range addrs {
				ok = ok || ad == l.Address
			}
			if !ok {
				continue
			}
			for i, t := range topics {
				if len(t) == 0 {
					continue
				}
				if i >= len(l.Topics) {
					continue next
				}
				ok := false
				for _, h := range t {
					ok = ok || h == l.Topics[i]
				}
				if !ok {
					continue next
				}
			}
			res = append(res, *l)
		}
	}
	return res, nil
}

// Server is the node's request handler.
func (n *Node) Server() *rpc.Server {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", api{n}); err != nil {
		panic(err)
	}
	return srv
}

// Client connects the real client to the node.
func (n *Node) Client() *ethclient.Client { return ethclient.NewClient(rpc.DialInProc(n.Server())) }

// Auth makes options for a transaction that is signed with a key.
func Auth(key *ecdsa.PrivateKey) *bind.TransactOpts {
	o, err := bind.NewKeyedTransactorWithChainID(key, ChainID)
	if err != nil {
		panic(err)
	}
	o.Context = context.Background()
	return o
}
