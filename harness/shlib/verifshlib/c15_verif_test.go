package verifshlib

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

type encEnv struct {
	d, d2    *dealing
	ids      []*shcrypto.EpochID
	keys     []*shcrypto.EpochSecretKey // of d
	otherKey *shcrypto.EpochSecretKey   // of d2
}

func newEncEnv() *encEnv {
	e := &encEnv{d: deal(3, 2, 1), d2: deal(3, 2, 2)}
	for i := uint64(0); i < 2; i++ {
		id := shcrypto.ComputeEpochID(epochBytes(i))
		e.ids = append(e.ids, id)
		e.keys = append(e.keys, combine(e.d, id))
	}
	e.otherKey = combine(e.d2, e.ids[0])
	return e
}

func combine(d *dealing, id *shcrypto.EpochID) *shcrypto.EpochSecretKey {
	var idx []int
	var ss []*shcrypto.EpochSecretKeyShare
	for i := 0; i < d.t; i++ {
		idx = append(idx, i)
		ss = append(ss, shcrypto.ComputeEpochSecretKeyShare(d.shares[i], id))
	}
	k, err := shcrypto.ComputeEpochSecretKey(idx, ss, uint64(d.t))
	must(err)
	return k
}

func message(n, pattern int) []byte {
	m := make([]byte, n)
	for i := range m {
		switch pattern {
		case 0:
			m[i] = byte(i*7 + 3)
		case 1:
			m[i] = 0
		case 2:
			m[i] = byte(32 - n%32) // looks like padding
		case 3:
			m[i] = 0xff
		}
	}
	return m
}

func sigmaOf(i int) shcrypto.Block {
	s, err := shcrypto.RandomSigma(reader(int64(900 + i)))
	must(err)
	return s
}

// TestC15 enumerates message lengths, contents and buffers for the round trip.
func TestC15(t *testing.T) {
	r := verifkit.Start("encryption-roundtrip")
	defer r.Finish()
	r.Rule("every message length up to the bound in four content patterns and two buffer layouts, decrypted with the right key, with another epoch's and another eon's key, before and after its wire encoding; non-trivial: distinct (length, pattern)")
	e := newEncEnv()
	maxLen := r.Pick(300, 1100)
	lens := []int{}
	for n := 0; n <= maxLen; n++ {
		lens = append(lens, n)
	}
	// the block number of the key stream takes two bytes from block 256 on
	lens = append(lens, 255*32-1, 255*32, 256*32-1, 256*32, 257*32, 257*32+5)
	r.Parallel(len(lens), func(i int) {
		n := lens[i]
		for p := 0; p < 4; p++ {
			m := message(n, p)
			bad := func(key, f string, args ...interface{}) {
				r.Violation("encryption:"+key, fmt.Sprintf("length %d pattern %d: ", n, p)+fmt.Sprintf(f, args...), map[string]int{"length": n, "pattern": p})
			}
			r.Count("evaluations", 1)
			r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(n, p)))
			// a buffer with spare capacity that belongs to the caller
			buf := bytes.Repeat([]byte{0xA5}, n+70)
			copy(buf, m)
			want := append([]byte{}, buf...)
			sigma := sigmaOf(n*4 + p)
			sg := sigma
			c := shcrypto.Encrypt(buf[:n], e.d.pub, e.ids[0], sigma)
			if !bytes.Equal(buf, want) {
				bad("buffer", "encrypting changes the caller's buffer")
			}
			if sigma != sg {
				bad("sigma", "encrypting changes sigma")
			}
			c2 := shcrypto.Encrypt(append([]byte{}, m...), e.d.pub, e.ids[0], sigma)
			if !bytes.Equal(c.Marshal(), c2.Marshal()) {
				bad("nondeterministic", "the ciphertext depends on more than the inputs")
			}
			enc := c.Marshal()
			dec := new(shcrypto.EncryptedMessage)
			if err := dec.Unmarshal(enc); err != nil {
				bad("unmarshal", "%s", err)
				continue
			}
			for k, x := range []*shcrypto.EncryptedMessage{c, dec} {
				for round := 0; round < 2; round++ { // decrypting does not change the ciphertext
					got, err := x.Decrypt(e.keys[0])
					if err != nil {
						bad("decrypt", "decryption fails (%d): %s", k, err)
					} else if !bytes.Equal(got, m) {
						bad("decrypt", "decryption gives %x", got)
					}
				}
				if !bytes.Equal(x.Marshal(), enc) {
					bad("changed", "decrypting changes the ciphertext")
				}
			}
			for k, key := range []*shcrypto.EpochSecretKey{e.keys[1], e.otherKey, new(shcrypto.EpochSecretKey)} {
				if got, err := c.Decrypt(key); err == nil && !bytes.Equal(got, m) {
					bad("wrong-key", "the wrong key %d gives %x", k, got)
				}
			}
			if n < 70 {
				blocks := shcrypto.PadMessage(buf[:n])
				if !bytes.Equal(buf, want) {
					bad("pad-buffer", "padding changes the caller's buffer")
				}
				if len(blocks) != n/32+1 {
					bad("pad", "%d blocks", len(blocks))
				}
				if got, err := shcrypto.UnpadMessage(blocks); err != nil || !bytes.Equal(got, m) {
					bad("unpad", "%x %v", got, err)
				}
			}
		}
	})
	r.Sample("length 33, pattern 2 (bytes equal to the padding length), buffer with 70 spare bytes")
}

// TestC15Tamper enumerates modifications of ciphertexts.
func TestC15Tamper(t *testing.T) {
	r := verifkit.Start("encryption-tampering")
	defer r.Finish()
	r.Rule("every single bit flip, every truncation, every removal, duplication and swap of blocks, exchange of parts between two ciphertexts, every value of the last plaintext byte (padding length) and of padding bytes; non-trivial: the changed ciphertext decodes and is decrypted")
	e := newEncEnv()
	lens := []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 96}
	if r.Thorough() {
		lens = append(lens, 16, 30, 34, 62, 66, 95, 97, 128, 256, 511, 512, 8160, 8192)
	}
	type tcase struct {
		n    int
		name string
		enc  []byte
		m    *shcrypto.EncryptedMessage
	}
	var cases []tcase
	for _, n := range lens {
		m := message(n, 0)
		c := shcrypto.Encrypt(m, e.d.pub, e.ids[0], sigmaOf(n))
		d := shcrypto.Encrypt(message(n, 3), e.d.pub, e.ids[0], sigmaOf(n+5000))
		enc := c.Marshal()
		for b := 0; b < len(enc)*8; b++ {
			x := append([]byte{}, enc...)
			x[b/8] ^= 1 << (b % 8)
			cases = append(cases, tcase{n, fmt.Sprintf("flip %d", b), x, nil})
		}
		for l := 0; l < len(enc); l++ {
			cases = append(cases, tcase{n, fmt.Sprintf("truncate %d", l), enc[:l], nil})
		}
		for l := 1; l <= 64; l++ {
			cases = append(cases, tcase{n, fmt.Sprintf("extend %d", l), append(append([]byte{}, enc...), make([]byte, l)...), nil})
		}
		cp := func(f func(x *shcrypto.EncryptedMessage)) *shcrypto.EncryptedMessage {
			x := &shcrypto.EncryptedMessage{C1: c.C1, C2: c.C2, C3: append([]shcrypto.Block{}, c.C3...)}
			f(x)
			return x
		}
		for i := range c.C3 {
			i := i
			cases = append(cases,
				tcase{n, fmt.Sprintf("drop block %d", i), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = append(x.C3[:i], x.C3[i+1:]...) })},
				tcase{n, fmt.Sprintf("dup block %d", i), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = append(x.C3, x.C3[i]) })},
				tcase{n, fmt.Sprintf("foreign block %d", i), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3[i] = d.C3[i] })})
			for j := 0; j < i; j++ {
				j := j
				cases = append(cases, tcase{n, fmt.Sprintf("swap blocks %d %d", i, j), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3[i], x.C3[j] = x.C3[j], x.C3[i] })})
			}
		}
		cases = append(cases,
			tcase{n, "no blocks", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = nil })},
			tcase{n, "foreign C1", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C1 = d.C1 })},
			tcase{n, "foreign C2", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C2 = d.C2 })},
			tcase{n, "foreign C3", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = d.C3 })},
			tcase{n, "foreign C1 C2", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C1, x.C2 = d.C1, d.C2 })},
			tcase{n, "infinity C1", nil, cp(func(x *shcrypto.EncryptedMessage) { x.C1 = mulG2(order) })})
		// choose the padded plaintext freely (the key stream is an xor): every last byte
		sigma := c.Sigma(e.keys[0])
		plain := shcrypto.DecryptBlocks(c.C3, sigma)
		for v := 0; v < 256; v++ {
			p := append([]shcrypto.Block{}, plain...)
			p[len(p)-1][31] = byte(v)
			cases = append(cases, tcase{n, fmt.Sprintf("last byte %d", v), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = shcrypto.DecryptBlocks(p, sigma) })})
		}
		for i := 0; i < 31; i++ {
			for _, v := range []byte{0, 1, 33, 255} {
				p := append([]shcrypto.Block{}, plain...)
				p[len(p)-1][i] = v
				cases = append(cases, tcase{n, fmt.Sprintf("byte %d of last block = %d", i, v), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = shcrypto.DecryptBlocks(p, sigma) })})
			}
		}
		// a whole further block of padding or of zeros
		for _, v := range []byte{0, 1, 32, 33, 64} {
			var b shcrypto.Block
			for i := range b {
				b[i] = v
			}
			p := append(append([]shcrypto.Block{}, plain...), b)
			cases = append(cases, tcase{n, fmt.Sprintf("further block of %d", v), nil, cp(func(x *shcrypto.EncryptedMessage) { x.C3 = shcrypto.DecryptBlocks(p, sigma) })})
		}
	}
	r.Parallel(len(cases), func(i int) {
		c := cases[i]
		r.Count("evaluations", 1)
		m := c.m
		if m == nil {
			m = new(shcrypto.EncryptedMessage)
			var err error
			if p := verifkit.Catch(func() { err = m.Unmarshal(c.enc) }); p != "" {
				r.Violation("tamper:decode-crash", fmt.Sprintf("length %d, %s: decoding crashes: %s", c.n, c.name, p), c.name)
				return
			}
			if err != nil {
				return
			}
		}
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(c.n, c.name)))
		for ki, key := range []*shcrypto.EpochSecretKey{e.keys[0], e.otherKey} {
			if ki == 1 && i%8 != 0 {
				continue
			}
			var got []byte
			var err error
			if p := verifkit.Catch(func() { got, err = m.Decrypt(key) }); p != "" {
				r.Violation("tamper:crash", fmt.Sprintf("length %d, %s: decryption crashes: %s", c.n, c.name, p), c.name)
				return
			}
			if err == nil && !bytes.Equal(got, message(c.n, 0)) {
				r.Violation("tamper:plaintext", fmt.Sprintf("length %d, %s: decryption succeeds and gives %x", c.n, c.name, got), c.name)
			}
		}
	})
	r.Sample(fmt.Sprintf("%d changed ciphertexts, e.g. %q and %q", len(cases), cases[0].name, cases[len(cases)-1].name))
}
