// Package ethclient stands in for go-ethereum's: addresses that the harness has registered lead to its
// node in this process.
package ethclient

import (
	"context"
	"errors"
	"sync"

	real "github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
)

// Client is the real client.
type Client = real.Client

var nodes sync.Map

// VerifRegister makes an address lead to a node.
func VerifRegister(url string, connect func() *Client) { nodes.Store(url, connect) }

// VerifForget ends that.
func VerifForget(url string) { nodes.Delete(url) }

func Dial(url string) (*Client, error) { return DialContext(context.Background(), url) }

func DialContext(ctx context.Context, url string) (*Client, error) {
	f, ok := nodes.Load(url)
	if !ok {
		return nil, errors.New("connection refused")
	}
	return f.(func() *Client)(), nil
}

func NewClient(c *rpc.Client) *Client { return real.NewClient(c) }
