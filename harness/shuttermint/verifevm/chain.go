// Package verifevm is an ethereum node that executes transactions with the real virtual machine, so
// that the compiled contracts run in it. A chain is a value: mining a block makes a new one.
package verifevm

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
)

// ChainID of the chain.
var ChainID = big.NewInt(1337)

var config = &params.ChainConfig{
	ChainID: ChainID, HomesteadBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int), EIP158Block: new(big.Int),
	ByzantiumBlock: new(big.Int), ConstantinopleBlock: new(big.Int), PetersburgBlock: new(big.Int), IstanbulBlock: new(big.Int),
	MuirGlacierBlock: new(big.Int), BerlinBlock: new(big.Int), Ethash: new(params.EthashConfig),
}

// GasLimit of a block.
const GasLimit = 30000000

// Block is a mined block.
type Block struct {
	Number   uint64
	Hash     common.Hash
	Txs      []*types.Transaction
	Receipts []*types.Receipt
	Logs     []*types.Log

	mu    sync.Mutex
	state *state.StateDB
}

// State is a copy of the state after the block.
func (b *Block) State() *state.StateDB {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.state.Copy()
}

// Chain is a sequence of blocks.
type Chain struct {
	Blocks []*Block
	where  map[common.Hash]*types.Receipt
}

// Genesis is a chain of one block in which some accounts have money.
func Genesis(accounts ...common.Address) *Chain {
	st, err := state.New(common.Hash{}, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	if err != nil {
		panic(err)
	}
	for _, a := range accounts {
		st.AddBalance(a, new(big.Int).Mul(big.NewInt(1000000), big.NewInt(params.Ether)))
	}
	st.Finalise(true)
	return &Chain{Blocks: []*Block{{Hash: common.BigToHash(big.NewInt(1)), state: st}}, where: map[common.Hash]*types.Receipt{}}
}

// Head is the last block.
func (c *Chain) Head() *Block { return c.Blocks[len(c.Blocks)-1] }

// Receipt of a transaction, nil if it was not mined.
func (c *Chain) Receipt(h common.Hash) *types.Receipt { return c.where[h] }

func header(number uint64) *types.Header {
	return &types.Header{Number: new(big.Int).SetUint64(number), Difficulty: big.NewInt(1), GasLimit: GasLimit, Time: 1600000000 + 15*number, Extra: []byte{}}
}

func blockContext(number uint64) vm.BlockContext {
	h := header(number)
	return vm.BlockContext{
		CanTransfer: core.CanTransfer, Transfer: core.Transfer,
		GetHash:     func(n uint64) common.Hash { return common.BigToHash(new(big.Int).SetUint64(n + 1)) },
		BlockNumber: h.Number, Time: new(big.Int).SetUint64(h.Time), Difficulty: h.Difficulty, GasLimit: h.GasLimit,
	}
}

// execution of transactions on top of a chain.
type execution struct {
	block *Block
	st    *state.StateDB
	gas   *core.GasPool
	used  uint64
}

func (c *Chain) next() *execution {
	p := c.Head()
	h := crypto.Keccak256Hash(p.Hash[:], []byte("block"))
	return &execution{&Block{Number: p.Number + 1, Hash: h}, p.State(), new(core.GasPool).AddGas(GasLimit), 0}
}

func (e *execution) apply(tx *types.Transaction) error {
	msg, err := tx.AsMessage(types.MakeSigner(config, new(big.Int).SetUint64(e.block.Number)), nil)
	if err != nil {
		return err
	}
	snap := e.st.Snapshot()
	e.st.Prepare(tx.Hash(), len(e.block.Txs))
	evm := vm.NewEVM(blockContext(e.block.Number), core.NewEVMTxContext(msg), e.st, config, vm.Config{})
	res, err := core.ApplyMessage(evm, msg, e.gas)
	if err != nil {
		e.st.RevertToSnapshot(snap)
		return err
	}
	e.st.Finalise(true)
	e.used += res.UsedGas
	r := &types.Receipt{
		Type: tx.Type(), Status: types.ReceiptStatusSuccessful, CumulativeGasUsed: e.used, TxHash: tx.Hash(), GasUsed: res.UsedGas,
		BlockHash: e.block.Hash, BlockNumber: new(big.Int).SetUint64(e.block.Number), TransactionIndex: uint(len(e.block.Txs)),
	}
	if res.Failed() {
		r.Status = types.ReceiptStatusFailed
	}
	if msg.To() == nil {
		r.ContractAddress = crypto.CreateAddress(msg.From(), tx.Nonce())
	}
	r.Logs = append([]*types.Log{}, e.st.GetLogs(tx.Hash(), e.block.Hash)...)
	for _, l := range r.Logs {
		l.BlockNumber = e.block.Number
	}
	r.Bloom = types.CreateBloom(types.Receipts{r})
	e.block.Txs = append(e.block.Txs, tx)
	e.block.Receipts = append(e.block.Receipts, r)
	e.block.Logs = append(e.block.Logs, r.Logs...)
	return nil
}

// Mine is the chain with one more block that has these transactions, as far as they can be included.
func (c *Chain) Mine(txs ...*types.Transaction) *Chain {
	e := c.next()
	for _, tx := range txs {
		if err := e.apply(tx); err == nil {
			e.block.Hash = crypto.Keccak256Hash(e.block.Hash[:], tx.Hash().Bytes())
		}
	}
	n := &Chain{Blocks: append(append([]*Block(nil), c.Blocks...), e.block), where: map[common.Hash]*types.Receipt{}}
	for h, r := range c.where {
		n.where[h] = r
	}
	for i, r := range e.block.Receipts {
		r.BlockHash = e.block.Hash
		for _, l := range r.Logs {
			l.BlockHash = e.block.Hash
		}
		n.where[e.block.Txs[i].Hash()] = r
	}
	e.block.state = e.st
	return n
}

// MineEmpty is the chain with n empty blocks more.
func (c *Chain) MineEmpty(n int) *Chain {
	for ; n > 0; n-- {
		c = c.Mine()
	}
	return c
}

// Msg is a call.
type Msg struct {
	From, To *common.Address
	Gas      uint64
	Value    *big.Int
	Data     []byte
}

// RevertError is what a reverted call returns.
type RevertError struct {
	msg  string
	data []byte
}

func (e *RevertError) Error() string { return e.msg }

func call(st *state.StateDB, number uint64, m Msg) (*core.ExecutionResult, error) {
	var from common.Address
	if m.From != nil {
		from = *m.From
	}
	if m.Gas == 0 || m.Gas > GasLimit {
		m.Gas = GasLimit
	}
	if m.Value == nil {
		m.Value = new(big.Int)
	}
	msg := types.NewMessage(from, m.To, st.GetNonce(from), m.Value, m.Gas, new(big.Int), new(big.Int), new(big.Int), m.Data, nil, false)
	evm := vm.NewEVM(blockContext(number), core.NewEVMTxContext(msg), st, config, vm.Config{})
	return core.ApplyMessage(evm, msg, new(core.GasPool).AddGas(math.MaxUint64))
}

func failure(res *core.ExecutionResult) error {
	if !res.Failed() {
		return nil
	}
	if len(res.Revert()) == 0 {
		return res.Err
	}
	reason := "execution reverted"
	if s, err := unpackRevert(res.Revert()); err == nil {
		reason = fmt.Sprintf("execution reverted: %s", s)
	}
	return &RevertError{reason, res.Revert()}
}

func unpackRevert(b []byte) (string, error) {
	if len(b) < 4+64 {
		return "", errors.New("short")
	}
	n := new(big.Int).SetBytes(b[36:68])
	if !n.IsInt64() || n.Int64() > int64(len(b)-68) {
		return "", errors.New("short")
	}
	return string(b[68 : 68+n.Int64()]), nil
}

// Call executes a call after a block.
func (c *Chain) Call(b *Block, m Msg) ([]byte, error) {
	res, err := call(b.State(), b.Number, m)
	if err != nil {
		return nil, err
	}
	if err := failure(res); err != nil {
		return nil, err
	}
	return res.Return(), nil
}
