package verifshlib

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

func epochBytes(e uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, e)
	return b
}

// TestC14 combines the epoch secret key from every subset of threshold shares in every order, and
// checks the share and key verification against all combinations of wrong inputs.
func TestC14(t *testing.T) {
	r := verifkit.Start("key-combination")
	defer r.Finish()
	r.Rule("every (keypers, threshold) up to the bound, every subset of exactly threshold shares in every order, every subset of another size, and every (share, keyper, epoch, eon) verification combination; non-trivial: distinct case")
	maxN := r.Pick(6, 9)
	type job struct{ n, t int }
	var jobs []job
	for n := maxN; n >= 1; n-- {
		for th := 1; th <= n; th++ {
			jobs = append(jobs, job{n, th})
		}
	}
	epochs := []uint64{0, 1, 255, 1 << 63}
	r.Parallel(len(jobs), func(i int) {
		n, th := jobs[i].n, jobs[i].t
		d := deal(n, th, int64(1000+10*n+th))
		other := deal(n, th, int64(5000+10*n+th))
		bad := func(key, f string, args ...interface{}) {
			r.Violation("key-combination:"+key, fmt.Sprintf("n=%d t=%d: ", n, th)+fmt.Sprintf(f, args...), map[string]interface{}{"n": n, "t": th})
		}
		eval := func(k string) {
			r.Count("evaluations", 1)
			r.Distinct("nontrivial", verifkit.Hash(fmt.Sprintf("%d/%d/%s", n, th, k)))
		}
		for ei, e := range epochs {
			if r.Expired() {
				return
			}
			id := shcrypto.ComputeEpochID(epochBytes(e))
			want := (*shcrypto.EpochSecretKey)(mulG1((*blst.P1Affine)(id), d.secret))
			var shares []*shcrypto.EpochSecretKeyShare
			for k := 0; k < n; k++ {
				shares = append(shares, shcrypto.ComputeEpochSecretKeyShare(d.shares[k], id))
			}
			for size := 0; size <= n; size++ {
				for _, sub := range subsets(n, size) {
					orders := [][]int{sub}
					if ei == 0 && size == th && size <= r.Pick(4, 5) {
						orders = perms(sub)
					} else if size == th {
						rev := make([]int, size)
						for x := range sub {
							rev[size-1-x] = sub[x]
						}
						orders = append(orders, rev)
					}
					for _, o := range orders {
						eval(fmt.Sprintf("%d:%v", e, o))
						var ss []*shcrypto.EpochSecretKeyShare
						for _, k := range o {
							ss = append(ss, shares[k])
						}
						key, err := shcrypto.ComputeEpochSecretKey(o, ss, uint64(th))
						if size != th {
							if err == nil {
								bad("size", "a key is produced from %d shares with threshold %d", size, th)
							}
							continue
						}
						if err != nil {
							bad("refused", "no key from shares of %v: %s", o, err)
							continue
						}
						if !key.Equal(want) || !bytes.Equal(key.Marshal(), want.Marshal()) {
							bad("key", "shares of %v give another key for epoch %d", o, e)
						}
						key2, err := shcrypto.NewLagrangeCoeffs(o).ComputeEpochSecretKey(ss)
						if err != nil || !key2.Equal(want) {
							bad("lagrange", "lagrange coefficients of %v give another key for epoch %d", o, e)
						}
						if len(ss) > 0 {
							if _, err := shcrypto.ComputeEpochSecretKey(o, ss[1:], uint64(th)); err == nil {
								bad("mismatch", "a key is produced from fewer shares than indices")
							}
							if _, err := shcrypto.NewLagrangeCoeffs(o).ComputeEpochSecretKey(ss[1:]); err == nil {
								bad("mismatch2", "a key is produced from fewer shares than coefficients")
							}
							// one foreign share makes another key
							ss[0] = shcrypto.ComputeEpochSecretKeyShare(other.shares[o[0]], id)
							if k, err := shcrypto.ComputeEpochSecretKey(o, ss, uint64(th)); err == nil && k.Equal(want) {
								bad("foreign", "a foreign share gives the right key")
							}
						}
					}
				}
			}
			// share verification
			for k := 0; k < n; k++ {
				for j := 0; j < n; j++ {
					for _, e2 := range epochs {
						eval(fmt.Sprintf("v%d:%d:%d:%d", e, k, j, e2))
						ok := shcrypto.VerifyEpochSecretKeyShare(shares[k], d.pubShares[j], shcrypto.ComputeEpochID(epochBytes(e2)))
						// with threshold 1 all keypers hold the same share
						if expect := (k == j || th == 1) && e == e2; ok != expect {
							bad("verify-share", "share of %d for epoch %d verified for keyper %d epoch %d: %v", k, e, j, e2, ok)
						}
					}
				}
				if shcrypto.VerifyEpochSecretKeyShare(shares[k], other.pubShares[k], id) {
					bad("verify-eon", "share verifies for another eon")
				}
				if shcrypto.VerifyEpochSecretKeyShare(new(shcrypto.EpochSecretKeyShare), d.pubShares[k], id) {
					bad("verify-zero", "the zero share verifies")
				}
			}
			// key verification
			for _, e2 := range epochs {
				for _, pub := range []*shcrypto.EonPublicKey{d.pub, other.pub} {
					ok, err := shcrypto.VerifyEpochSecretKey(want, pub, epochBytes(e2))
					eval(fmt.Sprintf("k%d:%d:%v", e, e2, pub == d.pub))
					if expect := e == e2 && pub == d.pub; err != nil || ok != expect {
						bad("verify-key", "key of epoch %d verified for epoch %d: %v %v", e, e2, ok, err)
					}
				}
			}
		}
		r.Sample(fmt.Sprintf("n=%d t=%d: all %d subsets of size t", n, th, len(subsets(n, th))))
	})
}
