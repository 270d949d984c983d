package verifkeyper

import (
	"bytes"
	"sync"
	"testing"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// ekgMsg is one share message of the alphabet.
type ekgMsg struct {
	sender, epoch uint64
	kind          string
	valid         bool
	share         *shcrypto.EpochSecretKeyShare
}

// TestC14EpochKG visits every reachable state of the share collection of small keyper sets by
// sending every message of the alphabet in every state.
func TestC14EpochKG(t *testing.T) {
	r := verifkit.Start("share-collection")
	defer r.Finish()
	r.Rule("for every (keypers, threshold) up to the bound: closure of the share collection's states under every message (sender, epoch, share in {own, other epoch's, other sender's, other eon's, negated, identity}), kept in step with a set based reference; non-trivial: distinct state")
	maxN := r.Pick(4, 5)
	type cfg struct{ n, t, epochs int }
	var cfgs []cfg
	for n := maxN; n >= 1; n-- {
		for th := n; th >= 1; th-- {
			e := 2
			if n == maxN {
				e = 1
			}
			cfgs = append(cfgs, cfg{n, th, e})
		}
	}
	all := []uint64{7, 1 << 40}
	for _, c := range cfgs {
		c := c
		d := deal(3, c.n, c.t, int64(100*c.n+c.t))
		o := deal(3, c.n, c.t, int64(9100+100*c.n+c.t))
		epochs := all[:c.epochs]
		var msgs []ekgMsg
		for _, e := range epochs {
			for s := 0; s < c.n; s++ {
				add := func(kind string, valid bool, sh *shcrypto.EpochSecretKeyShare) {
					msgs = append(msgs, ekgMsg{uint64(s), e, kind, valid, sh})
				}
				good := d.share(s, e)
				add("own", true, good)
				add("other-epoch", false, d.share(s, e+1))
				if c.n > 1 {
					// with threshold 1 every keyper has the same share
					add("other-sender", c.t == 1, d.share((s+1)%c.n, e))
				}
				add("other-eon", false, o.share(s, e))
				add("negated", false, (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).Neg((*bn256.G1)(good))))
				add("identity", false, (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(bn256.Order)))
				add("eon-share-key", false, (*shcrypto.EpochSecretKeyShare)(d.key(e)))
				if c.t == 1 {
					msgs[len(msgs)-1].valid = true // the key itself is everybody's share
				}
			}
		}
		want := map[uint64]*shcrypto.EpochSecretKey{}
		cipher := map[uint64]*shcrypto.EncryptedMessage{}
		for _, e := range epochs {
			want[e] = d.key(e)
			m := &shcrypto.EncryptedMessage{}
			must(m.Unmarshal(d.encrypt(e, []byte("the message"), 5)))
			cipher[e] = m
		}
		type node struct {
			kg    *epochkg.EpochKG
			got   map[uint64]map[uint64]bool // reference: senders counted per epoch
			trace []string
		}
		start := &node{kg: epochkg.NewEpochKG(d.result(c.n - 1)), got: map[uint64]map[uint64]bool{}}
		for _, e := range epochs {
			start.got[e] = map[uint64]bool{}
		}
		verify := func(nd *node) {
			bad := func(key, f string, args ...interface{}) {
				r.Violation("share-collection:"+key, sprint("n=%d t=%d after %v: ", c.n, c.t, nd.trace)+sprint(f, args...),
					map[string]interface{}{"n": c.n, "t": c.t, "messages": nd.trace})
			}
			for _, e := range epochs {
				key, ok := nd.kg.SecretKeys[e]
				if len(nd.got[e]) >= c.t {
					switch {
					case !ok || key == nil:
						bad("no-key", "epoch %d: no key although %d valid shares arrived", e, len(nd.got[e]))
					case !key.Equal(want[e]):
						bad("wrong-key", "epoch %d: not the eon's epoch secret key", e)
					default:
						p, err := cipher[e].Decrypt(key)
						if err != nil || !bytes.Equal(p, []byte("the message")) {
							bad("no-decrypt", "epoch %d: the key does not decrypt: %v", e, err)
						}
					}
				} else if ok {
					bad("early-key", "epoch %d: key with %d of %d shares", e, len(nd.got[e]), c.t)
				}
			}
			for e := range nd.kg.SecretKeys {
				if nd.got[e] == nil {
					bad("foreign-key", "key for epoch %d nobody sent shares for", e)
				}
			}
		}
		level := []*node{start}
		r.Distinct("nontrivial", verifkit.Hash(sprint("%d/%d/start", c.n, c.t)))
		r.Count("states", 1)
		for len(level) > 0 && !r.Expired() {
			var mu sync.Mutex
			var next []*node
			r.Parallel(len(level), func(i int) {
				nd := level[i]
				before := verifkit.Dump(nd.kg)
				for _, m := range msgs {
					kg := verifkit.DeepCopy(nd.kg).(*epochkg.EpochKG)
					err := kg.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{Eon: 3, Epoch: m.epoch, Sender: m.sender, Share: m.share})
					done := len(nd.got[m.epoch]) >= c.t
					dup := nd.got[m.epoch][m.sender]
					accepted := m.valid && !dup && !done
					nn := &node{kg: kg, got: nd.got, trace: append(append([]string(nil), nd.trace...), sprint("%d:%s@%d", m.sender, m.kind, m.epoch))}
					if accepted {
						g := map[uint64]map[uint64]bool{}
						for e, s := range nd.got {
							g[e] = map[uint64]bool{}
							for k := range s {
								g[e][k] = true
							}
						}
						g[m.epoch][m.sender] = true
						nn.got = g
					}
					bad := func(key, f string, args ...interface{}) {
						r.Violation("share-collection:"+key, sprint("n=%d t=%d %v: ", c.n, c.t, nn.trace)+sprint(f, args...),
							map[string]interface{}{"n": c.n, "t": c.t, "messages": nn.trace})
					}
					if accepted && err != nil {
						bad("refused", "valid share refused: %v", err)
					}
					if !accepted && !done && err == nil {
						bad("not-refused", "invalid or duplicate share accepted")
					}
					after := verifkit.Dump(kg)
					if !accepted && after != before {
						bad("not-neutral", "an ignored share changed the state")
					}
					r.Count("evaluations", 1)
					r.Count("transitions", 1)
					verify(nn)
					if accepted && r.Distinct("nontrivial", verifkit.Hash(sprint("%d/%d/", c.n, c.t)+after)) {
						r.Count("states", 1)
						mu.Lock()
						next = append(next, nn)
						mu.Unlock()
					}
				}
			})
			level = next
		}
	}
	r.Sample(map[string]interface{}{"messages": []string{"0:own@7", "0:own@7", "1:other-sender@7", "1:own@7"}, "n": 3, "t": 2})
}
