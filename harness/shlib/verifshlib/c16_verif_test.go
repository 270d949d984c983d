package verifshlib

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common/hexutil"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

// form is one encoding of one type.
type form struct {
	name   string
	enc    func(v interface{}) []byte
	dec    func(b []byte, used bool) (interface{}, error) // used: decode into a receiver that holds another value
	eq     func(a, b interface{}) bool
	valid  func(b []byte) bool // reference: is b a valid encoding?
	canon  func(b []byte) []byte
	values []interface{}
	text   bool
	heavy  bool // decoding is slow
}

func same(b []byte) []byte { return b }

func g2ok(b []byte) bool {
	if len(b) != blst.BLST_P2_COMPRESS_BYTES {
		return false
	}
	p := new(blst.P2Affine).Uncompress(b)
	return p != nil && p.InG2()
}

func g1ok(b []byte) bool {
	if len(b) != blst.BLST_P1_COMPRESS_BYTES {
		return false
	}
	p := new(blst.P1Affine).Uncompress(b)
	return p != nil && p.InG1()
}

func gammasOK(b []byte) bool {
	if len(b)%96 != 0 {
		return false
	}
	for i := 0; i < len(b); i += 96 {
		if !g2ok(b[i : i+96]) {
			return false
		}
	}
	return true
}

func messageOK(b []byte) bool {
	return len(b) >= 1+96+32 && (len(b)-1-96)%32 == 0 && b[0] == shcrypto.VersionIdentifier && g2ok(b[1:97])
}

// asText turns a binary form into its text form.
func asText(f form, enc func(v interface{}) []byte, dec func(b []byte, used bool) (interface{}, error)) form {
	g := f
	g.name += " text"
	g.enc, g.dec, g.text = enc, dec, true
	g.valid = func(b []byte) bool {
		d, err := hexutil.Decode(string(b))
		return err == nil && f.valid(d)
	}
	g.canon = func(b []byte) []byte { return []byte(strings.ToLower(string(b))) }
	return g
}

func forms() []form {
	var g1s, g2s []*big.Int
	for _, i := range []int64{0, 1, 2, 77} {
		g1s, g2s = append(g1s, big.NewInt(i)), append(g2s, big.NewInt(i))
	}
	g1s, g2s = append(g1s, new(big.Int).Sub(order, big.NewInt(1)), scalar(5)), append(g2s, new(big.Int).Sub(order, big.NewInt(1)), scalar(6))
	p1 := func(i *big.Int) *blst.P1Affine { return blst.P1Generator().Mult(toScalar(i)).ToAffine() }
	var fs []form
	add := func(f form) {
		if f.canon == nil {
			f.canon = same
		}
		fs = append(fs, f)
	}
	var v1, v2, v3, v4, v5 []interface{}
	for _, i := range g2s {
		v1 = append(v1, (*shcrypto.EonPublicKeyShare)(mulG2(i)))
		v2 = append(v2, (*shcrypto.EonPublicKey)(mulG2(i)))
	}
	for _, i := range g1s {
		v3 = append(v3, (*shcrypto.EpochID)(p1(i)))
		v4 = append(v4, (*shcrypto.EpochSecretKeyShare)(p1(i)))
		v5 = append(v5, (*shcrypto.EpochSecretKey)(p1(i)))
	}
	other2, other1 := *mulG2(scalar(9)), *p1(scalar(9))
	{
		mk := func(used bool) *shcrypto.EonPublicKeyShare {
			x := new(shcrypto.EonPublicKeyShare)
			if used {
				*x = shcrypto.EonPublicKeyShare(other2)
			}
			return x
		}
		eq := func(a, b interface{}) bool {
			return a.(*shcrypto.EonPublicKeyShare).Equal(b.(*shcrypto.EonPublicKeyShare))
		}
		add(form{name: "eon public key share", values: v1, valid: g2ok, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.EonPublicKeyShare).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }})
		add(form{name: "eon public key share gob", values: v1, valid: g2ok, eq: eq,
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.EonPublicKeyShare).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
	}
	{
		mk := func(used bool) *shcrypto.EonPublicKey {
			x := new(shcrypto.EonPublicKey)
			if used {
				*x = shcrypto.EonPublicKey(other2)
			}
			return x
		}
		eq := func(a, b interface{}) bool { return a.(*shcrypto.EonPublicKey).Equal(b.(*shcrypto.EonPublicKey)) }
		f := form{name: "eon public key", values: v2, valid: g2ok, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.EonPublicKey).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }}
		add(f)
		add(form{name: "eon public key gob", values: v2, valid: g2ok, eq: eq,
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.EonPublicKey).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
		add(asText(f,
			func(v interface{}) []byte { b, err := v.(*shcrypto.EonPublicKey).MarshalText(); must(err); return b },
			func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.UnmarshalText(b) }))
	}
	{
		mk := func(used bool) *shcrypto.EpochID {
			x := new(shcrypto.EpochID)
			if used {
				*x = shcrypto.EpochID(other1)
			}
			return x
		}
		eq := func(a, b interface{}) bool { return a.(*shcrypto.EpochID).Equal(b.(*shcrypto.EpochID)) }
		add(form{name: "epoch id", values: v3, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.EpochID).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }})
		add(form{name: "epoch id gob", values: v3, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.EpochID).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
	}
	{
		mk := func(used bool) *shcrypto.EpochSecretKeyShare {
			x := new(shcrypto.EpochSecretKeyShare)
			if used {
				*x = shcrypto.EpochSecretKeyShare(other1)
			}
			return x
		}
		eq := func(a, b interface{}) bool {
			return a.(*shcrypto.EpochSecretKeyShare).Equal(b.(*shcrypto.EpochSecretKeyShare))
		}
		add(form{name: "epoch secret key share", values: v4, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.EpochSecretKeyShare).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }})
		add(form{name: "epoch secret key share gob", values: v4, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte {
				b, err := v.(*shcrypto.EpochSecretKeyShare).GobEncode()
				must(err)
				return b
			},
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
	}
	{
		mk := func(used bool) *shcrypto.EpochSecretKey {
			x := new(shcrypto.EpochSecretKey)
			if used {
				*x = shcrypto.EpochSecretKey(other1)
			}
			return x
		}
		eq := func(a, b interface{}) bool {
			return a.(*shcrypto.EpochSecretKey).Equal(b.(*shcrypto.EpochSecretKey))
		}
		f := form{name: "epoch secret key", values: v5, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.EpochSecretKey).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }}
		add(f)
		add(form{name: "epoch secret key gob", values: v5, valid: g1ok, eq: eq,
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.EpochSecretKey).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
		add(asText(f,
			func(v interface{}) []byte { b, err := v.(*shcrypto.EpochSecretKey).MarshalText(); must(err); return b },
			func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.UnmarshalText(b) }))
	}
	{
		var vs []interface{}
		for _, i := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Sub(order, big.NewInt(1)), scalar(3)} {
			s := shcrypto.EonSecretKeyShare(*i)
			vs = append(vs, &s)
		}
		mk := func(used bool) *shcrypto.EonSecretKeyShare {
			x := new(shcrypto.EonSecretKeyShare)
			if used {
				*x = shcrypto.EonSecretKeyShare(*scalar(4))
			}
			return x
		}
		eq := func(a, b interface{}) bool {
			return a.(*shcrypto.EonSecretKeyShare).Equal(b.(*shcrypto.EonSecretKeyShare))
		}
		ok := func(b []byte) bool { return new(big.Int).SetBytes(b).Cmp(order) < 0 }
		add(form{name: "eon secret key share", values: vs, valid: ok, eq: eq,
			canon: func(b []byte) []byte { return new(big.Int).SetBytes(b).Bytes() }, // leading zeros are allowed
			enc:   func(v interface{}) []byte { return v.(*shcrypto.EonSecretKeyShare).Marshal() },
			dec:   func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }})
		add(form{name: "eon secret key share gob", values: vs, eq: eq,
			valid: func(b []byte) bool {
				x := new(big.Int)
				return x.GobDecode(b) == nil && x.Sign() >= 0 && x.Cmp(order) < 0
			},
			canon: func(b []byte) []byte {
				x := new(big.Int)
				must(x.GobDecode(b))
				c, err := x.GobEncode()
				must(err)
				return c
			},
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.EonSecretKeyShare).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
	}
	{
		var vs []interface{}
		for n := 0; n <= 3; n++ {
			g := shcrypto.Gammas{}
			for i := 0; i < n; i++ {
				g = append(g, mulG2(scalar(int64(50+i))))
			}
			vs = append(vs, &g)
		}
		vs = append(vs, shcrypto.ZeroGammas(1))
		mk := func(used bool) *shcrypto.Gammas {
			x := new(shcrypto.Gammas)
			if used {
				a, b := other2, other2
				*x = shcrypto.Gammas{&a, &b}
			}
			return x
		}
		eq := func(a, b interface{}) bool { return a.(*shcrypto.Gammas).Equal(*b.(*shcrypto.Gammas)) }
		f := form{name: "gammas", values: vs, valid: gammasOK, eq: eq,
			enc: func(v interface{}) []byte { return v.(*shcrypto.Gammas).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }}
		add(f)
		add(form{name: "gammas gob", values: vs, valid: gammasOK, eq: eq,
			enc: func(v interface{}) []byte { b, err := v.(*shcrypto.Gammas).GobEncode(); must(err); return b },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.GobDecode(b) }})
		add(asText(f,
			func(v interface{}) []byte { b, err := v.(*shcrypto.Gammas).MarshalText(); must(err); return b },
			func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.UnmarshalText(b) }))
	}
	{
		var vs []interface{}
		for i := 0; i < 3; i++ {
			b := sigmaOf(i)
			if i == 0 {
				b = shcrypto.Block{}
			}
			vs = append(vs, &b)
		}
		mk := func(used bool) *shcrypto.Block {
			x := new(shcrypto.Block)
			if used {
				*x = sigmaOf(9)
			}
			return x
		}
		f := form{name: "block", values: vs, valid: func(b []byte) bool { return len(b) == 32 },
			eq: func(a, b interface{}) bool { return *a.(*shcrypto.Block) == *b.(*shcrypto.Block) }}
		add(asText(f,
			func(v interface{}) []byte { b, err := v.(*shcrypto.Block).MarshalText(); must(err); return b },
			func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.UnmarshalText(b) }))
	}
	{
		var vs []interface{}
		e := newEncEnv()
		for _, n := range []int{0, 31, 32, 70} {
			vs = append(vs, shcrypto.Encrypt(message(n, 0), e.d.pub, e.ids[0], sigmaOf(n)))
		}
		vs = append(vs, &shcrypto.EncryptedMessage{C1: mulG2(big.NewInt(1))})
		usedMsg := shcrypto.Encrypt(message(40, 0), e.d.pub, e.ids[1], sigmaOf(40))
		mk := func(used bool) *shcrypto.EncryptedMessage {
			x := new(shcrypto.EncryptedMessage)
			if used {
				c1 := *usedMsg.C1
				*x = shcrypto.EncryptedMessage{C1: &c1, C2: usedMsg.C2, C3: append([]shcrypto.Block{}, usedMsg.C3...)}
			}
			return x
		}
		f := form{name: "encrypted message", values: vs, valid: messageOK,
			eq: func(a, b interface{}) bool {
				x, y := a.(*shcrypto.EncryptedMessage), b.(*shcrypto.EncryptedMessage)
				return x.C1.Equals(y.C1) && x.C2 == y.C2 && fmt.Sprint(x.C3) == fmt.Sprint(y.C3)
			},
			enc: func(v interface{}) []byte { return v.(*shcrypto.EncryptedMessage).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.Unmarshal(b) }}
		add(f)
		add(asText(f,
			func(v interface{}) []byte {
				b, err := v.(*shcrypto.EncryptedMessage).MarshalText()
				must(err)
				return b
			},
			func(b []byte, u bool) (interface{}, error) { x := mk(u); return x, x.UnmarshalText(b) }))
	}
	// BLS
	{
		var sk, pk, sg []interface{}
		for i := 0; i < 2; i++ {
			s, p, err := shbls.RandomKeyPair(reader(int64(70 + i)))
			must(err)
			sk, pk, sg = append(sk, s), append(pk, p), append(sg, shbls.Sign([]byte("m"), s))
		}
		for _, i := range []*big.Int{big.NewInt(1), new(big.Int).Sub(bn256.Order, big.NewInt(1))} {
			s := shbls.SecretKey(*i)
			sk, pk, sg = append(sk, &s), append(pk, shbls.SecretToPublicKey(&s)), append(sg, shbls.Sign([]byte{}, &s))
		}
		pk, sg = append(pk, shbls.AggregatePublicKeys(nil)), append(sg, shbls.AggregateSignatures(nil))
		used := func(u bool, i int64) *big.Int {
			if u {
				return big.NewInt(i)
			}
			return new(big.Int)
		}
		add(form{name: "bls secret key", values: sk,
			valid: func(b []byte) bool { return len(b) == 32 && new(big.Int).SetBytes(b).Cmp(bn256.Order) < 0 },
			eq:    func(a, b interface{}) bool { return a.(*shbls.SecretKey).Equal(b.(*shbls.SecretKey)) },
			enc:   func(v interface{}) []byte { return v.(*shbls.SecretKey).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) {
				x := (*shbls.SecretKey)(used(u, 5))
				return x, x.Unmarshal(b)
			}})
		add(form{name: "bls public key", values: pk, heavy: true,
			valid: func(b []byte) bool {
				if len(b) != 64 {
					return false
				}
				_, err := new(bn256.G1).Unmarshal(b)
				return err == nil
			},
			eq:  func(a, b interface{}) bool { return a.(*shbls.PublicKey).Equal(b.(*shbls.PublicKey)) },
			enc: func(v interface{}) []byte { return v.(*shbls.PublicKey).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) {
				x := new(shbls.PublicKey)
				if u {
					x = (*shbls.PublicKey)(new(bn256.G1).ScalarBaseMult(big.NewInt(5)))
				}
				return x, x.Unmarshal(b)
			}})
		add(form{name: "bls signature", values: sg, heavy: true,
			valid: func(b []byte) bool {
				if len(b) != 128 {
					return false
				}
				_, err := new(bn256.G2).Unmarshal(b)
				return err == nil
			},
			eq:  func(a, b interface{}) bool { return a.(*shbls.Signature).Equal(b.(*shbls.Signature)) },
			enc: func(v interface{}) []byte { return v.(*shbls.Signature).Marshal() },
			dec: func(b []byte, u bool) (interface{}, error) {
				x := new(shbls.Signature)
				if u {
					x = (*shbls.Signature)(new(bn256.G2).ScalarBaseMult(big.NewInt(5)))
				}
				return x, x.Unmarshal(b)
			}})
	}
	return fs
}

// mutants lists bounded corruptions of an encoding.
func mutants(b []byte, text bool, deep bool) [][]byte {
	var res [][]byte
	cp := func() []byte { return append([]byte{}, b...) }
	for i := 0; i < len(b)*8; i++ {
		x := cp()
		x[i/8] ^= 1 << (i % 8)
		res = append(res, x)
	}
	for i := 0; i < len(b); i++ {
		res = append(res, b[:i], b[i:], append(append([]byte{}, b[:i]...), b[i+1:]...))
		x := cp()
		x[i] = 0
		res = append(res, x)
		y := cp()
		y[i] = 0xff
		res = append(res, y)
		if deep || i < 3 {
			for v := 0; v < 256; v++ {
				z := cp()
				z[i] = byte(v)
				res = append(res, z)
			}
		}
	}
	for _, n := range []int{1, 2, 31, 32, 33, 47, 48, 64, 95, 96, 97, 128, 192} {
		res = append(res, append(cp(), make([]byte, n)...), append(make([]byte, n), b...), bytes.Repeat([]byte{0xff}, n), make([]byte, n), append([]byte{0xc0}, make([]byte, n-1)...), append([]byte{0x80}, make([]byte, n-1)...))
	}
	res = append(res, append(cp(), b...), nil, []byte{})
	if text {
		res = append(res, []byte("0x"), []byte("0"), []byte("x"), b[2:], append([]byte("0X"), b[2:]...), []byte(strings.ToUpper(string(b))),
			append([]byte("0x"), []byte(strings.ToUpper(string(b[2:])))...), append(cp(), 'g'), append(cp(), '0'), append(cp(), ' '), append([]byte(" "), b...), append([]byte(`"`), append(cp(), '"')...))
	}
	return res
}

// hard lists points that are on the curve but not in the group, and coordinates that exceed the
// field modulus.
func hard() [][]byte {
	var res [][]byte
	p, _ := new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	for i := int64(0); i < 40; i++ {
		for _, off := range []*big.Int{new(big.Int), p} {
			x := new(big.Int).Add(big.NewInt(i), off)
			for _, flag := range []byte{0x80, 0xa0, 0xc0, 0xe0, 0x00, 0x20} {
				g1 := make([]byte, 48)
				x.FillBytes(g1)
				g1[0] |= flag
				g2 := make([]byte, 96)
				x.FillBytes(g2[48:])
				g2[0] |= flag
				g3 := make([]byte, 96)
				x.FillBytes(g3[:48])
				g3[0] |= flag
				res = append(res, g1, g2, g3, append(append([]byte{}, g2...), g2...))
			}
		}
	}
	for _, o := range []*big.Int{order, bn256.Order, bn256.P} {
		for d := int64(-1); d <= 1; d++ {
			b := make([]byte, 32)
			new(big.Int).Add(o, big.NewInt(d)).FillBytes(b)
			g, _ := new(big.Int).Add(o, big.NewInt(d)).GobEncode()
			ng, _ := new(big.Int).Neg(new(big.Int).Add(o, big.NewInt(d))).GobEncode()
			res = append(res, b, g, ng, append(append([]byte{}, b...), b...), append(bytes.Repeat(b, 2), bytes.Repeat(b, 2)...))
		}
	}
	return res
}

// TestC16 decodes every value from its encodings and enumerates corruptions of the encodings.
func TestC16(t *testing.T) {
	r := verifkit.Start("encodings")
	defer r.Finish()
	r.Rule("every type and encoding (binary, text, gob) with several values; every bit flip, truncation, deleted, zeroed and replaced byte, extension and special point of each encoding, decoded into a fresh and a used value; non-trivial: distinct (form, bytes)")
	type job struct {
		f    form
		v    interface{}
		vi   int
		b    []byte
		kind string
	}
	var jobs []job
	hs := hard()
	for _, f := range forms() {
		for vi, v := range f.values {
			jobs = append(jobs, job{f, v, vi, f.enc(v), "own"})
			if f.heavy && vi >= 1 && !r.Thorough() {
				continue
			}
			ms := mutants(f.enc(v), f.text, r.Thorough() && !f.heavy)
			for _, m := range ms {
				jobs = append(jobs, job{f, v, vi, m, "mutant"})
			}
			if vi == 0 {
				for _, h := range hs {
					if f.text {
						h = []byte(hexutil.Encode(h))
					}
					jobs = append(jobs, job{f, v, vi, h, "special"})
				}
				if strings.HasPrefix(f.name, "encrypted message") {
					for _, h := range hs {
						if len(h) == 96 {
							x := append(append([]byte{shcrypto.VersionIdentifier}, h...), make([]byte, 64)...)
							if f.text {
								x = []byte(hexutil.Encode(x))
							}
							jobs = append(jobs, job{f, v, vi, x, "special"})
						}
					}
				}
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(j.f.name+string(j.b)))
		show := hx(j.b)
		if j.f.text {
			show = string(j.b)
		}
		want := j.f.valid(j.b)
		bad := func(key, f string, args ...interface{}) {
			r.Violation("encodings:"+j.f.name+":"+key, j.f.name+" from "+show+": "+fmt.Sprintf(f, args...), map[string]string{"form": j.f.name, "bytes": show})
		}
		for _, used := range []bool{false, true} {
			in := append([]byte{}, j.b...)
			var v interface{}
			var err error
			if p := verifkit.Catch(func() { v, err = j.f.dec(in, used) }); p != "" {
				bad("crash", "decoding crashes: %s", p)
				continue
			}
			if !bytes.Equal(in, j.b) {
				bad("input", "decoding changes the input")
			}
			if (err == nil) != want {
				if want {
					bad("refused", "a valid encoding is refused: %s", err)
				} else {
					bad("accepted", "an invalid encoding is accepted")
				}
				continue
			}
			if err != nil {
				continue
			}
			if back := j.f.enc(v); !bytes.Equal(back, j.f.canon(j.b)) {
				bad("reencode", "the decoded value (used receiver: %v) encodes to %x", used, back)
			}
			if j.kind == "own" && !j.f.eq(v, j.v) {
				bad("unequal", "the decoded value is not the encoded one")
			}
		}
	})
	gobStructs(r)
	for l := 0; l < 200; l++ { // never crashes on any length
		b := make([]byte, l)
		if l > 0 {
			b[0] = shcrypto.VersionIdentifier
		}
		if p := verifkit.Catch(func() { shcrypto.IdentifyVersion(b) }); p != "" {
			r.Violation("encodings:version", p, nil)
		}
	}
	r.Sample(fmt.Sprintf("%s from %x", jobs[9].f.name, jobs[9].b))
}

type gobAll struct {
	A *shcrypto.EonSecretKeyShare
	B *shcrypto.EonPublicKey
	C []*shcrypto.EonPublicKeyShare
	D *shcrypto.EpochSecretKeyShare
	E *shcrypto.EpochSecretKey
	F *shcrypto.Gammas
	G map[uint64]*shcrypto.EpochSecretKey
	H []*shcrypto.Gammas
	I *shcrypto.EpochID
}

// gobStructs stores the values the way keypers do: as fields of structs, through the gob codec.
func gobStructs(r *verifkit.Run) {
	d := deal(3, 2, 1)
	id := shcrypto.ComputeEpochID(epochBytes(1))
	g1 := shcrypto.Gammas{mulG2(scalar(1)), mulG2(scalar(2))}
	g2 := shcrypto.Gammas{mulG2(scalar(3))}
	empty := shcrypto.Gammas{}
	for mask := 0; mask < 1<<9; mask++ {
		v := gobAll{}
		if mask&1 != 0 {
			v.A = d.shares[0]
		}
		if mask&2 != 0 {
			v.B = d.pub
		}
		if mask&4 != 0 {
			v.C = d.pubShares
		}
		if mask&8 != 0 {
			v.D = shcrypto.ComputeEpochSecretKeyShare(d.shares[1], id)
		}
		if mask&16 != 0 {
			v.E = combine(d, id)
		}
		if mask&32 != 0 {
			v.F = &g1
		}
		if mask&64 != 0 {
			v.G = map[uint64]*shcrypto.EpochSecretKey{7: combine(d, id), 1 << 60: combine(d, id)}
		}
		if mask&128 != 0 {
			v.H = []*shcrypto.Gammas{&g2, &g1, &g2, &empty}
		}
		if mask&256 != 0 {
			v.I = id
		}
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint("gobstruct", mask)))
		bad := func(f string, args ...interface{}) {
			r.Violation("encodings:gob-struct", fmt.Sprintf("fields %b: ", mask)+fmt.Sprintf(f, args...), mask)
		}
		buf := &bytes.Buffer{}
		var out gobAll
		var err error
		if p := verifkit.Catch(func() {
			if err = gob.NewEncoder(buf).Encode(&v); err == nil {
				err = gob.NewDecoder(buf).Decode(&out)
			}
		}); p != "" || err != nil {
			bad("not stored: %v %s", err, p)
			continue
		}
		if a, b := dumpGob(v), dumpGob(out); a != b {
			bad("stored %s, loaded %s", a, b)
		}
	}
}

func dumpGob(v gobAll) string {
	var s strings.Builder
	if v.A != nil {
		fmt.Fprintf(&s, "A%x ", v.A.Marshal())
	}
	if v.B != nil {
		fmt.Fprintf(&s, "B%x ", v.B.Marshal())
	}
	for _, c := range v.C {
		fmt.Fprintf(&s, "C%x ", c.Marshal())
	}
	if v.D != nil {
		fmt.Fprintf(&s, "D%x ", v.D.Marshal())
	}
	if v.E != nil {
		fmt.Fprintf(&s, "E%x ", v.E.Marshal())
	}
	if v.F != nil {
		fmt.Fprintf(&s, "F%x ", v.F.Marshal())
	}
	fmt.Fprintf(&s, "G%d ", len(v.G))
	for _, k := range []uint64{7, 1 << 60} {
		if v.G[k] != nil {
			fmt.Fprintf(&s, "G%x ", v.G[k].Marshal())
		}
	}
	for _, h := range v.H {
		fmt.Fprintf(&s, "H%x ", h.Marshal())
	}
	if v.I != nil {
		fmt.Fprintf(&s, "I%x ", v.I.Marshal())
	}
	return s.String()
}
