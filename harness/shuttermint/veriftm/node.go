// Package veriftm is a stand-in for a tendermint node that follows a scripted chain.
package veriftm

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/pubsub/query"
	"github.com/tendermint/tendermint/rpc/client"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"
)

// Node answers requests about the blocks up to Head. As with a real node the latest block commits to
// its predecessor, so the last committed height is Head-1, but the results of Head are indexed already.
type Node struct {
	client.Client
	Mu         sync.Mutex
	Head       int64
	Txs        map[int64][]abcitypes.ResponseDeliverTx // results by height
	CatchingUp bool
	Fail       func(method string) error
	Requests   int
	Broadcast  func(tx tmtypes.Tx) (*rpctypes.ResultBroadcastTxCommit, error)
	subs       []chan rpctypes.ResultEvent
}

// New makes a node with an empty chain.
func New() *Node { return &Node{Txs: map[int64][]abcitypes.ResponseDeliverTx{}} }

// Lock runs f while no request is being answered.
func (n *Node) Lock(f func()) { n.Mu.Lock(); f(); n.Mu.Unlock() }

func (n *Node) enter(ctx context.Context, m string) error {
	if ctx.Err() != nil {
		return ctx.Err()
	}
	n.Mu.Lock()
	f := n.Fail
	n.Requests++
	n.Mu.Unlock()
	if f != nil {
		return f(m)
	}
	return nil
}

// Status is the status request.
func (n *Node) Status(ctx context.Context) (*rpctypes.ResultStatus, error) {
	if err := n.enter(ctx, "status"); err != nil {
		return nil, err
	}
	n.Mu.Lock()
	defer n.Mu.Unlock()
	s := &rpctypes.ResultStatus{}
	s.SyncInfo.LatestBlockHeight = n.Head
	s.SyncInfo.CatchingUp = n.CatchingUp
	return s, nil
}

// Block is the block request.
func (n *Node) Block(ctx context.Context, height *int64) (*rpctypes.ResultBlock, error) {
	if err := n.enter(ctx, "block"); err != nil {
		return nil, err
	}
	n.Mu.Lock()
	defer n.Mu.Unlock()
	h := n.Head
	if height != nil {
		h = *height
	}
	if h < 1 || h > n.Head {
		return &rpctypes.ResultBlock{}, nil
	}
	b := &tmtypes.Block{LastCommit: &tmtypes.Commit{Height: h - 1}}
	b.Header.Height = h
	return &rpctypes.ResultBlock{Block: b}, nil
}

const maxPerPage, defaultPerPage = 100, 30

type queryKey struct {
	q string
	h int64
}

var queries sync.Map

// matches says whether a query finds transactions of a height. The answers are remembered, because
// parsing queries is slow.
func matches(q string, h int64) (bool, error) {
	if ok, known := queries.Load(queryKey{q, h}); known {
		return ok.(bool), nil
	}
	pq, err := query.New(q)
	if err != nil {
		return false, err
	}
	ok, err := pq.Matches(map[string][]string{"tx.height": {fmt.Sprint(h)}})
	if err == nil {
		queries.Store(queryKey{q, h}, ok)
	}
	return ok, err
}

// TxSearch is the transaction search, with the pages of the real one.
func (n *Node) TxSearch(ctx context.Context, q string, prove bool, pagePtr, perPagePtr *int, orderBy string) (*rpctypes.ResultTxSearch, error) {
	if err := n.enter(ctx, "txsearch"); err != nil {
		return nil, err
	}
	n.Mu.Lock()
	defer n.Mu.Unlock()
	var heights []int64
	for h := range n.Txs {
		if h <= n.Head {
			heights = append(heights, h)
		}
	}
	sort.Slice(heights, func(i, j int) bool { return heights[i] < heights[j] })
	var all []*rpctypes.ResultTx
	for _, h := range heights {
		ok, err := matches(q, h)
		if err != nil {
			return nil, err
		}
		if !ok {
			continue
		}
		for i, t := range n.Txs[h] {
			all = append(all, &rpctypes.ResultTx{Height: h, Index: uint32(i), TxResult: t})
		}
	}
	switch orderBy {
	case "desc":
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	case "asc", "":
	default:
		return nil, errors.New("expected order_by to be either `asc` or `desc` or empty")
	}
	per := defaultPerPage
	if perPagePtr != nil && *perPagePtr >= 1 {
		per = *perPagePtr
		if per > maxPerPage {
			per = maxPerPage
		}
	}
	page := 1
	if pagePtr != nil {
		page = *pagePtr
		pages := (len(all)-1)/per + 1
		if len(all) == 0 {
			pages = 1
		}
		if page <= 0 || page > pages {
			return nil, fmt.Errorf("page should be within [1, %d] range, given %d", pages, page)
		}
	}
	lo := (page - 1) * per
	hi := lo + per
	if hi > len(all) {
		hi = len(all)
	}
	return &rpctypes.ResultTxSearch{Txs: all[lo:hi], TotalCount: len(all)}, nil
}

// Subscribe is the event subscription.
func (n *Node) Subscribe(ctx context.Context, who, q string, capacity ...int) (<-chan rpctypes.ResultEvent, error) {
	if err := n.enter(ctx, "subscribe"); err != nil {
		return nil, err
	}
	n.Mu.Lock()
	defer n.Mu.Unlock()
	c := make(chan rpctypes.ResultEvent, 1)
	n.subs = append(n.subs, c)
	return c, nil
}

// Subscriptions is the number of subscriptions made so far.
func (n *Node) Subscriptions() int { n.Mu.Lock(); defer n.Mu.Unlock(); return len(n.subs) }

// Push moves the head and tells the latest subscriber.
func (n *Node) Push(head int64) {
	n.Mu.Lock()
	n.Head = head
	var c chan rpctypes.ResultEvent
	if len(n.subs) > 0 {
		c = n.subs[len(n.subs)-1]
	}
	n.Mu.Unlock()
	if c != nil {
		c <- rpctypes.ResultEvent{}
	}
}

// TryPush is Push, but the event is lost if the one before has not been taken yet.
func (n *Node) TryPush(head int64) {
	n.Mu.Lock()
	defer n.Mu.Unlock()
	n.Head = head
	if len(n.subs) > 0 {
		select {
		case n.subs[len(n.subs)-1] <- rpctypes.ResultEvent{}:
		default:
		}
	}
}

// BroadcastTxCommit delivers a transaction.
func (n *Node) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*rpctypes.ResultBroadcastTxCommit, error) {
	if err := n.enter(ctx, "broadcast"); err != nil {
		return nil, err
	}
	if n.Broadcast == nil {
		return nil, errors.New("no broadcast")
	}
	return n.Broadcast(tx)
}

// BlockchainInfo is the block header request.
func (n *Node) BlockchainInfo(ctx context.Context, lo, hi int64) (*rpctypes.ResultBlockchainInfo, error) {
	if err := n.enter(ctx, "blockchain"); err != nil {
		return nil, err
	}
	bm := &tmtypes.BlockMeta{}
	bm.Header.ChainID = "verif-chain"
	return &rpctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{bm}}, nil
}
