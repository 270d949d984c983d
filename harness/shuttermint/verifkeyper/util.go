// Package verifkeyper explores the keyper: message signing, epoch key generation, the decision code
// and the key generation protocol over the Shuttermint chain.
package verifkeyper

import (
	"crypto/ecdsa"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
)

type detReader struct{ r *rand.Rand }

func (d detReader) Read(p []byte) (int, error) { return d.r.Read(p) }

func reader(seed int64) detReader { return detReader{rand.New(rand.NewSource(seed))} }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func detKey(s string) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte(s)))
	must(err)
	return k
}

func addrOf(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

func epochBytes(e uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, e)
	return b
}

func epochID(e uint64) *shcrypto.EpochID { return shcrypto.ComputeEpochID(epochBytes(e)) }

// dealing is a sharing of one eon key whose secret is known.
type dealing struct {
	eon       uint64
	n, t      int
	secret    *big.Int
	shares    []*shcrypto.EonSecretKeyShare
	pubShares []*shcrypto.EonPublicKeyShare
	pub       *shcrypto.EonPublicKey
}

// deal makes an eon key of n keypers, t of which are needed.
func deal(eon uint64, n, t int, seed int64) *dealing {
	d := &dealing{eon: eon, n: n, t: t, secret: new(big.Int)}
	var gammas []*shcrypto.Gammas
	var polys []*shcrypto.Polynomial
	for i := 0; i < n; i++ {
		p, err := shcrypto.RandomPolynomial(reader(seed*100+int64(i)), uint64(t-1))
		must(err)
		polys = append(polys, p)
		gammas = append(gammas, p.Gammas())
		d.secret.Add(d.secret, (*p)[0])
	}
	d.secret.Mod(d.secret, bn256.Order)
	for i := 0; i < n; i++ {
		var evals []*big.Int
		for j := 0; j < n; j++ {
			evals = append(evals, polys[j].EvalForKeyper(i))
		}
		d.shares = append(d.shares, shcrypto.ComputeEonSecretKeyShare(evals))
		d.pubShares = append(d.pubShares, shcrypto.ComputeEonPublicKeyShare(i, gammas))
	}
	d.pub = shcrypto.ComputeEonPublicKey(gammas)
	return d
}

// result is what the key generation hands to keyper i.
func (d *dealing) result(i int) *puredkg.Result {
	return &puredkg.Result{
		Eon: d.eon, NumKeypers: uint64(d.n), Threshold: uint64(d.t), Keyper: uint64(i),
		SecretKeyShare: d.shares[i], PublicKey: d.pub, PublicKeyShares: d.pubShares,
	}
}

// share is keyper i's share of the epoch's secret key.
func (d *dealing) share(i int, epoch uint64) *shcrypto.EpochSecretKeyShare {
	return shcrypto.ComputeEpochSecretKeyShare(d.shares[i], epochID(epoch))
}

// key is the epoch secret key, computed from the secret itself.
func (d *dealing) key(epoch uint64) *shcrypto.EpochSecretKey {
	return (*shcrypto.EpochSecretKey)(new(bn256.G1).ScalarMult((*bn256.G1)(epochID(epoch)), d.secret))
}

// encrypt encrypts a message for an epoch.
func (d *dealing) encrypt(epoch uint64, m []byte, seed int64) []byte {
	sigma, err := shcrypto.RandomSigma(reader(seed))
	must(err)
	return shcrypto.Encrypt(m, d.pub, epochID(epoch), sigma).Marshal()
}

func sprint(f string, args ...interface{}) string { return fmt.Sprintf(f, args...) }
