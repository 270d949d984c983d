package verifshlib

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

// TestC17 checks the shuffle of the shared library for all list lengths up to the bound and all
// ways in which the entries may coincide.
func TestC17(t *testing.T) {
	r := verifkit.Start("shuffle")
	defer r.Finish()
	r.Rule("every list length up to the bound with distinct, partly equal, equal, empty and nil entries, for several keys, called repeatedly; non-trivial: distinct (key, length)")
	d := deal(1, 1, 3)
	nkeys, maxLen := r.Pick(40, 400), r.Pick(40, 200)
	moved := map[string]bool{}
	perm := map[string]int{}
	type res struct {
		n, k int
		p    []int
	}
	out := make([]res, nkeys*(maxLen+1))
	r.Parallel(nkeys*(maxLen+1), func(i int) {
		k, n := i/(maxLen+1), i%(maxLen+1)
		key := combine(d, shcrypto.ComputeEpochID(epochBytes(uint64(k))))
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(k, n)))
		bad := func(kk, f string, args ...interface{}) {
			r.Violation("shuffle:"+kk, fmt.Sprintf("key %d, %d entries: ", k, n)+fmt.Sprintf(f, args...), map[string]int{"key": k, "n": n})
		}
		txs := make([][]byte, n, n+3)
		for j := range txs {
			txs[j] = []byte{byte(j), byte(j >> 8)}
		}
		before := fmt.Sprint(txs)
		got := shcrypto.Shuffle(txs, key)
		if fmt.Sprint(txs) != before {
			bad("input", "the input is changed")
		}
		p := make([]int, 0, n)
		seen := map[int]bool{}
		for _, x := range got {
			if len(x) != 2 {
				bad("entry", "unknown entry %x", x)
				return
			}
			j := int(x[0]) | int(x[1])<<8
			if j >= n || seen[j] {
				bad("perm", "not a permutation: %v", got)
				return
			}
			seen[j] = true
			p = append(p, j)
		}
		if len(p) != n {
			bad("perm", "%d entries returned", len(p))
			return
		}
		out[i] = res{n, k, p}
		// the same permutation for any content, also from an encoded copy of the key
		key2 := new(shcrypto.EpochSecretKey)
		must(key2.Unmarshal(key.Marshal()))
		variants := [][][]byte{make([][]byte, n), make([][]byte, n), make([][]byte, n)}
		for j := 0; j < n; j++ {
			variants[0][j] = []byte{byte(j % 2)}
			variants[1][j] = bytes.Repeat([]byte{byte(j)}, j)
			if j%3 == 0 {
				variants[2][j] = []byte{}
			}
		}
		for vi, v := range variants {
			g := shcrypto.Shuffle(v, key2)
			if len(g) != n {
				bad("content", "variant %d: %d entries", vi, len(g))
				continue
			}
			for j := range g {
				if !bytes.Equal(g[j], v[p[j]]) {
					bad("content", "variant %d: the permutation depends on the content", vi)
					break
				}
			}
		}
	})
	for _, o := range out {
		if o.n == 5 {
			perm[fmt.Sprint(o.p)]++
			for j, x := range o.p {
				moved[fmt.Sprint(j, x)] = true
			}
		}
	}
	if r.Violations() == 0 && !r.Expired() && (len(moved) != 25 || len(perm) < nkeys/4) {
		r.Violation("shuffle:key", fmt.Sprintf("the permutation hardly depends on the key: %d permutations of 5 entries for %d keys", len(perm), nkeys), nil)
	}
	r.Sample(fmt.Sprintf("permutation of 7 entries with key 0: %v", out[7].p))
}
