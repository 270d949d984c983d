package verifshlib

import (
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

// multisets lists all non-decreasing sequences over {0..k-1} with at most max elements.
func multisets(k, max int) [][]int {
	res := [][]int{{}}
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) == max {
			return
		}
		for i := start; i < k; i++ {
			next := append(append([]int{}, cur...), i)
			res = append(res, next)
			rec(i, next)
		}
	}
	rec(0, nil)
	return res
}

// TestC18 verifies every aggregate against every aggregate key and message.
func TestC18(t *testing.T) {
	r := verifkit.Start("bls")
	defer r.Finish()
	r.Rule("every multiset of signers up to the bound, in every order of aggregation, against every multiset of public keys and every message, every single bit flip of signatures and keys; non-trivial: distinct (signers, message, keys, message) with a verdict")
	nk, max := r.Pick(3, 4), r.Pick(4, 5)
	msgs := [][]byte{{}, {0}, []byte("message"), make([]byte, 100)}
	var sks []*shbls.SecretKey
	var pks []*shbls.PublicKey
	for i := 0; i < nk; i++ {
		sk, pk, err := shbls.RandomKeyPair(reader(int64(77 + i)))
		must(err)
		if !shbls.SecretToPublicKey(sk).Equal(pk) {
			r.Violation("bls:pubkey", "the public key of a random pair does not belong to the secret key", nil)
		}
		sks, pks = append(sks, sk), append(pks, pk)
	}
	sigs := make([][]*shbls.Signature, nk)
	for i := range sks {
		for _, m := range msgs {
			sigs[i] = append(sigs[i], shbls.Sign(m, sks[i]))
		}
	}
	for i := range sks {
		for mi, m := range msgs {
			if !shbls.Sign(m, sks[i]).Equal(sigs[i][mi]) {
				r.Violation("bls:nondeterministic", "two signatures of one message differ", nil)
			}
		}
	}
	ms := multisets(nk, max)
	eq := func(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	r.Parallel(len(ms), func(i int) {
		s := ms[i]
		for mi, m := range msgs {
			if mi > 1 && r.Expired() {
				return
			}
			var agg *shbls.Signature
			for oi, o := range perms(s) {
				var l []*shbls.Signature
				for _, k := range o {
					l = append(l, sigs[k][mi])
				}
				before := fmt.Sprint(marshalAll(l))
				a := shbls.AggregateSignatures(l)
				if fmt.Sprint(marshalAll(l)) != before {
					r.Violation("bls:inputs", fmt.Sprintf("aggregating %v changes its inputs", o), s)
				}
				if oi == 0 {
					agg = a
				} else if !a.Equal(agg) {
					r.Violation("bls:order", fmt.Sprintf("the aggregate of %v depends on the order", s), s)
				}
			}
			for _, p := range ms {
				var l []*shbls.PublicKey
				for _, k := range p {
					l = append(l, pks[k])
				}
				apk := shbls.AggregatePublicKeys(l)
				for mj, m2 := range msgs {
					if mj != mi && !eq(p, s) {
						continue
					}
					r.Count("evaluations", 1)
					r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(s, mi, p, mj)))
					ok := shbls.Verify(agg, apk, m2)
					// the empty aggregate is the neutral element, which fits every message
					want := eq(p, s) && (mi == mj || len(s) == 0)
					if ok != want {
						r.Violation(fmt.Sprintf("bls:verify:%v", want), fmt.Sprintf("aggregate of %v over message %d verifies as %v for message %d: %v", s, mi, p, mj, ok), map[string]interface{}{"signers": s, "keys": p})
					}
				}
			}
			// keys aggregated in every order
			var apk *shbls.PublicKey
			for _, o := range perms(s) {
				var l []*shbls.PublicKey
				for _, k := range o {
					l = append(l, pks[k])
				}
				a := shbls.AggregatePublicKeys(l)
				if apk == nil {
					apk = a
				} else if !a.Equal(apk) {
					r.Violation("bls:key-order", fmt.Sprintf("the aggregate key of %v depends on the order", s), s)
				}
			}
			// aggregates of aggregates
			for cut := 1; cut < len(s); cut++ {
				var l, l2 []*shbls.Signature
				for x, k := range s {
					if x < cut {
						l = append(l, sigs[k][mi])
					} else {
						l2 = append(l2, sigs[k][mi])
					}
				}
				a := shbls.AggregateSignatures([]*shbls.Signature{shbls.AggregateSignatures(l), shbls.AggregateSignatures(l2)})
				if !a.Equal(agg) {
					r.Violation("bls:nested", fmt.Sprintf("aggregating %v in two parts gives another signature", s), s)
				}
			}
			_ = m
		}
	})
	// the aggregate of keys' secrets: a signature by the sum of the keys is the aggregate
	// tampering: flip every bit of a signature and a public key
	type flip struct{ what, bit int }
	var flips []flip
	for b := 0; b < 128*8; b++ {
		flips = append(flips, flip{0, b})
	}
	for b := 0; b < 64*8; b++ {
		flips = append(flips, flip{1, b})
	}
	for b := 0; b < 7*8; b++ {
		flips = append(flips, flip{2, b})
	}
	r.Parallel(len(flips), func(i int) {
		f := flips[i]
		sb, pb, m := sigs[0][2].Marshal(), pks[0].Marshal(), append([]byte{}, msgs[2]...)
		switch f.what {
		case 0:
			sb[f.bit/8] ^= 1 << (f.bit % 8)
		case 1:
			pb[f.bit/8] ^= 1 << (f.bit % 8)
		case 2:
			m[f.bit/8] ^= 1 << (f.bit % 8)
		}
		r.Count("evaluations", 1)
		sig, pk := new(shbls.Signature), new(shbls.PublicKey)
		if sig.Unmarshal(sb) != nil || pk.Unmarshal(pb) != nil {
			return
		}
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint("flip", f)))
		if shbls.Verify(sig, pk, m) {
			r.Violation("bls:tampered", fmt.Sprintf("a signature verifies after flipping bit %d of %d", f.bit, f.what), f)
		}
	})
	r.Sample("signers [0 0 1] message 2 against keys [0 0 1], [0 1], [0 1 1], ... and messages 0..3")
}

func marshalAll(l []*shbls.Signature) []string {
	var r []string
	for _, s := range l {
		r = append(r, hx(s.Marshal()))
	}
	return r
}
