// Package verifshlib explores the shared crypto library.
package verifshlib

import (
	"fmt"
	"math/big"
	"math/rand"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
)

var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

type detReader struct{ r *rand.Rand }

func (d detReader) Read(p []byte) (int, error) { return d.r.Read(p) }

func reader(seed int64) detReader { return detReader{rand.New(rand.NewSource(seed))} }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// scalar returns a fixed large scalar below the group order.
func scalar(seed int64) *big.Int {
	b := make([]byte, 40)
	_, _ = reader(seed).Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), order)
}

func toScalar(i *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	new(big.Int).Mod(i, order).FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b)
	return s
}

func mulG2(i *big.Int) *blst.P2Affine { return blst.P2Generator().Mult(toScalar(i)).ToAffine() }

func mulG1(p *blst.P1Affine, i *big.Int) *blst.P1Affine {
	q := new(blst.P1)
	q.FromAffine(p)
	return q.Mult(toScalar(i)).ToAffine()
}

// dealing is a sharing of one eon key whose secret is known.
type dealing struct {
	n, t      int
	secret    *big.Int
	shares    []*shcrypto.EonSecretKeyShare
	pubShares []*shcrypto.EonPublicKeyShare
	pub       *shcrypto.EonPublicKey
}

func deal(n, t int, seed int64) *dealing {
	d := &dealing{n: n, t: t, secret: new(big.Int)}
	var gammas []*shcrypto.Gammas
	var polys []*shcrypto.Polynomial
	for i := 0; i < n; i++ {
		p, err := shcrypto.RandomPolynomial(reader(seed*100+int64(i)), uint64(t-1))
		must(err)
		polys = append(polys, p)
		gammas = append(gammas, p.Gammas())
		d.secret.Add(d.secret, (*p)[0])
	}
	d.secret.Mod(d.secret, order)
	for i := 0; i < n; i++ {
		var evals []*big.Int
		for j := 0; j < n; j++ {
			evals = append(evals, polys[j].EvalForKeyper(i))
		}
		d.shares = append(d.shares, shcrypto.ComputeEonSecretKeyShare(evals))
		d.pubShares = append(d.pubShares, shcrypto.ComputeEonPublicKeyShare(i, gammas))
	}
	d.pub = shcrypto.ComputeEonPublicKey(gammas)
	return d
}

// subsets lists all subsets of {0..n-1} with k elements, in order.
func subsets(n, k int) [][]int {
	var res [][]int
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) == k {
			res = append(res, append([]int{}, cur...))
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return res
}

// perms lists all orders of the given elements.
func perms(xs []int) [][]int {
	if len(xs) <= 1 {
		return [][]int{append([]int{}, xs...)}
	}
	var res [][]int
	for i := range xs {
		rest := append(append([]int{}, xs[:i]...), xs[i+1:]...)
		for _, p := range perms(rest) {
			res = append(res, append([]int{xs[i]}, p...))
		}
	}
	return res
}

func hx(b []byte) string { return fmt.Sprintf("%x", b) }
