package verifkeyper

import (
	"bytes"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)


// TestC17Decrypt decrypts every batch up to a length over an alphabet of good and bad entries.
func TestC17Decrypt(t *testing.T) {
	r := verifkit.Start("batch-decryption")
	defer r.Finish()
	r.Rule("every batch up to the length bound over {message a, a again (same ciphertext), a re-encrypted, message b, empty message, long message, other epoch's, other eon's, truncated, no bytes, bit flipped, trailing byte}; the result must be one permutation, fixed by the number of results, of exactly the plaintexts of the decryptable entries; non-trivial: distinct batch")
	d := deal(1, 3, 2, 11)
	o := deal(2, 3, 2, 12)
	const epoch = 5
	key := d.key(epoch)
	type entry struct {
		name  string
		data  []byte
		plain []byte
		ok    bool
	}
	long := bytes.Repeat([]byte("0123456789"), 7)
	a := d.encrypt(epoch, []byte("aaaa"), 1)
	flip := append([]byte(nil), a...)
	flip[len(flip)-1] ^= 1
	entries := []entry{
		{"a", a, []byte("aaaa"), true},
		{"a-again", d.encrypt(epoch, []byte("aaaa"), 2), []byte("aaaa"), true},
		{"b", d.encrypt(epoch, []byte("bb"), 3), []byte("bb"), true},
		{"empty", d.encrypt(epoch, []byte{}, 4), []byte{}, true},
		{"long", d.encrypt(epoch, long, 5), long, true},
		{"other-epoch", d.encrypt(epoch+1, []byte("cc"), 6), nil, false},
		{"other-eon", o.encrypt(epoch, []byte("dd"), 7), nil, false},
		{"truncated", a[:len(a)-1], nil, false},
		{"nothing", []byte{}, nil, false},
		{"flipped", flip, nil, false},
		{"trailing", append(append([]byte(nil), a...), 0), nil, false},
	}
	// what a single entry decrypts to is settled by C15; a wrong key gives garbage or an error, which
	// is the same for everybody
	for i := range entries {
		b := observe.Batch{BatchIndex: epoch, EncryptedTransactions: [][]byte{entries[i].data}}
		got := b.DecryptTransactions(key)
		if entries[i].ok {
			if len(got) != 1 || !bytes.Equal(got[0], entries[i].plain) {
				r.Violation("batch-decryption:single", sprint("entry %s decrypts to %x", entries[i].name, got), entries[i].name)
			}
			continue
		}
		if len(got) > 1 {
			r.Violation("batch-decryption:single", sprint("entry %s gives %d transactions", entries[i].name, len(got)), entries[i].name)
		}
		m := shcrypto.EncryptedMessage{}
		if err := m.Unmarshal(entries[i].data); err != nil {
			if len(got) != 0 {
				r.Violation("batch-decryption:malformed", sprint("malformed entry %s gives %x", entries[i].name, got), entries[i].name)
			}
			continue
		}
		p, err := m.Decrypt(key)
		if (err == nil) != (len(got) == 1) || (err == nil && !bytes.Equal(p, got[0])) {
			r.Violation("batch-decryption:undecryptable", sprint("entry %s: %x, decryption says %v", entries[i].name, got, err), entries[i].name)
		}
		if err == nil {
			entries[i].ok, entries[i].plain = true, p
		}
	}
	// the permutation for k results, found with k distinct messages
	maxLen := r.Pick(4, 5)
	perms := map[int][]int{}
	for k := 0; k <= maxLen; k++ {
		var txs [][]byte
		for i := 0; i < k; i++ {
			txs = append(txs, d.encrypt(epoch, []byte{byte(i), 77}, int64(100+i)))
		}
		b := observe.Batch{EncryptedTransactions: txs}
		got := b.DecryptTransactions(key)
		if len(got) != k {
			r.Violation("batch-decryption:lost", sprint("%d of %d distinct transactions", len(got), k), nil)
			return
		}
		seen := map[int]bool{}
		for _, g := range got {
			if len(g) != 2 || g[1] != 77 || seen[int(g[0])] {
				r.Violation("batch-decryption:not-a-permutation", sprint("%x", got), nil)
				return
			}
			seen[int(g[0])] = true
			perms[k] = append(perms[k], int(g[0]))
		}
	}
	total := 0
	offs := []int{}
	for l, n := 0, 1; l <= maxLen; l++ {
		offs = append(offs, total)
		total += n
		n *= len(entries)
	}
	r.Parallel(total, func(i int) {
		l := 0
		for l+1 < len(offs) && i >= offs[l+1] {
			l++
		}
		x := i - offs[l]
		var names []string
		var enc, plain [][]byte
		for k := 0; k < l; k++ {
			e := entries[x%len(entries)]
			x /= len(entries)
			names = append(names, e.name)
			enc = append(enc, append([]byte(nil), e.data...))
			if e.ok {
				plain = append(plain, e.plain)
			}
		}
		bad := func(key, f string, args ...interface{}) {
			r.Violation("batch-decryption:"+key, sprint("batch %v: ", names)+sprint(f, args...), names)
		}
		b := observe.Batch{BatchIndex: epoch, EncryptedTransactions: enc, EncryptedBatchHash: common.BigToHash(common.Big1), PlainTransactions: [][]byte{{1}}}
		before := verifkit.Dump(&b)
		got := b.DecryptTransactions(key)
		if verifkit.Dump(&b) != before {
			bad("input-changed", "the batch was changed by decrypting it")
		}
		if len(got) != len(plain) {
			bad("count", "%d transactions instead of %d", len(got), len(plain))
		} else {
			for k, p := range perms[len(plain)] {
				if !bytes.Equal(got[k], plain[p]) {
					bad("order", "transaction %d is %x, expected %x", k, got[k], plain[p])
					break
				}
			}
		}
		c := b
		again := c.DecryptTransactions(key)
		if !sameList(got, again) {
			bad("unstable", "decrypting twice gives different lists")
		}
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(sprint("%v", names)))
	})
	r.Sample(map[string]interface{}{"batch": []string{"a", "other-epoch", "empty", "truncated"}})
}

func sameList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
