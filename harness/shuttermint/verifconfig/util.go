// Package verifconfig checks batch configs, keyper configurations and the tools that schedule configs.
package verifconfig

import (
	"crypto/ecdsa"

	"github.com/ethereum/go-ethereum/crypto"
)

func detKey(i int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte{byte(i), 0xc0}))
	if err != nil {
		panic(err)
	}
	return k
}
