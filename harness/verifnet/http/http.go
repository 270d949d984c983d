// Package http stands in for tendermint's rpc/client/http: addresses that the harness has registered
// lead to its node in this process.
package http

import (
	"errors"
	"sync"

	"github.com/tendermint/tendermint/rpc/client"
)

// HTTP is a client.
type HTTP struct{ client.Client }

var nodes sync.Map

// VerifRegister makes an address lead to a node.
func VerifRegister(url string, connect func() client.Client) { nodes.Store(url, connect) }

// VerifForget ends that.
func VerifForget(url string) { nodes.Delete(url) }

func New(remote, wsEndpoint string) (*HTTP, error) {
	f, ok := nodes.Load(remote)
	if !ok {
		return nil, errors.New("connection refused")
	}
	return &HTTP{f.(func() client.Client)()}, nil
}

func NewWithTimeout(remote, wsEndpoint string, timeout uint) (*HTTP, error) { return New(remote, wsEndpoint) }
