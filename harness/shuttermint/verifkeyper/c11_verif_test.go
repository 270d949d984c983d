package verifkeyper

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/gob"
	"errors"
	"math/big"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// sampleMessages are messages of every type with boundary contents.
func sampleMessages() []*shmsg.Message {
	d := deal(1, 3, 2, 21)
	poly, err := shcrypto.RandomPolynomial(reader(5), 2)
	must(err)
	a := func(i int64) common.Address { return common.BigToAddress(big.NewInt(i)) }
	maxU := ^uint64(0)
	enc := ecies.ImportECDSAPublic(&detKey("enc").PublicKey)
	huge := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	return []*shmsg.Message{
		{},
		shmsg.NewBatchConfig(0, nil, 0, common.Address{}, 0, false, false),
		shmsg.NewBatchConfig(maxU, []common.Address{a(1), a(2), a(3)}, maxU, a(1), maxU, true, true),
		shmsg.NewBatchConfig(200, []common.Address{a(1), a(2)}, 2, a(1024), 55, false, false),
		shmsg.NewBatchConfigStarted(0),
		shmsg.NewBatchConfigStarted(maxU),
		shmsg.NewCheckIn([]byte("0123456789abcdef0123456789abcdef"), enc),
		shmsg.NewCheckIn(nil, enc),
		shmsg.NewDecryptionSignature(0, nil),
		shmsg.NewDecryptionSignature(maxU, bytes.Repeat([]byte{0xff}, 65)),
		shmsg.NewPolyCommitment(0, poly.Gammas()),
		shmsg.NewPolyCommitment(maxU, &shcrypto.Gammas{}),
		shmsg.NewPolyEval(1, []common.Address{a(1), a(2)}, [][]byte{[]byte("x"), {}}),
		shmsg.NewPolyEval(1, nil, nil),
		shmsg.NewAccusation(0, []common.Address{a(3)}),
		shmsg.NewAccusation(maxU, nil),
		shmsg.NewApology(0, []common.Address{a(3), a(4)}, []*big.Int{big.NewInt(0), huge}),
		shmsg.NewApology(7, nil, nil),
		shmsg.NewEpochSecretKeyShare(1, 1<<63, d.share(0, 1<<63)),
		shmsg.NewEpochSecretKeyShare(0, 0, d.share(1, 0)),
		shmsg.NewEonStartVote(0),
		shmsg.NewEonStartVote(maxU),
	}
}

func storedCopy(m *shmsg.Message) (*shmsg.Message, error) {
	type rec struct{ Action fx.IAction }
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(rec{&fx.SendShuttermintMessage{Description: "d", Msg: m}}); err != nil {
		return nil, err
	}
	var out rec
	if err := gob.NewDecoder(&buf).Decode(&out); err != nil {
		return nil, err
	}
	a, ok := out.Action.(*fx.SendShuttermintMessage)
	if !ok || a.Description != "d" {
		return nil, errors.New("not the action that was stored")
	}
	return a.Msg, nil
}

// TestC11 signs messages of every type and tries every bounded modification of the signed bytes.
func TestC11(t *testing.T) {
	r := verifkit.Start("signatures")
	defer r.Finish()
	r.Rule("messages of every type with boundary contents x (chain id, nonce) x signers; every single byte replaced by every value, every truncation, every one byte extension and deletion and insertion, all adjacent swaps, all cross-overs of signature and content, and signatures over the same content with other prefixes or hashes; non-trivial: distinct signed byte string tried")
	keys := []string{"signer 1", "signer 2"}
	type item struct {
		signer int
		msg    *shmsg.MessageWithNonce
		signed []byte
		canon  []byte
	}
	var items []item
	for mi, m := range sampleMessages() {
		st, err := storedCopy(m)
		r.Count("evaluations", 1)
		if err != nil || !proto.Equal(st, m) {
			r.Violation("signatures:storage", sprint("message %d does not survive storage: %v", mi, err), m.String())
		}
		for vi, v := range []struct {
			chain string
			nonce uint64
		}{{"verif-chain", 5}, {"", 0}, {"verif-chain", ^uint64(0)}, {"other", 5}} {
			if vi > 1 && mi%4 != 0 {
				continue
			}
			for ki, k := range keys {
				w := &shmsg.MessageWithNonce{ChainId: []byte(v.chain), RandomNonce: v.nonce, Msg: m}
				s, err := shmsg.SignMessage(w, detKey(k))
				if err != nil {
					r.Violation("signatures:sign", sprint("cannot sign: %v", err), w.String())
					continue
				}
				canon, err := proto.MarshalOptions{Deterministic: true}.Marshal(w)
				must(err)
				items = append(items, item{ki, w, s, canon})
			}
		}
	}
	addrs := []common.Address{addrOf(detKey(keys[0])), addrOf(detKey(keys[1]))}
	try := func(it *item, signed []byte, how string, idx int) {
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(string(signed)))
		bad := func(key, f string, args ...interface{}) {
			r.Violation("signatures:"+key, sprint("message %s, %s: ", it.msg.String(), how)+sprint(f, args...),
				map[string]interface{}{"message": it.msg.String(), "signed": base64.StdEncoding.EncodeToString(signed), "how": how})
		}
		var err error
		var signer common.Address
		if msg := verifkit.Catch(func() { signer, err = shmsg.GetSigner(signed) }); msg != "" {
			bad("panic", "%s", msg)
			return
		}
		if err != nil {
			return
		}
		for _, a := range addrs {
			if signer != a {
				continue
			}
			m, err := shmsg.GetMessage(signed)
			if err != nil {
				bad("forged", "attributed to %s, but has no content: %v", a.Hex(), err)
			} else if signer != addrs[it.signer] || !proto.Equal(m, it.msg) {
				bad("forged", "attributed to %s with content %s", a.Hex(), m.String())
			}
		}
	}
	r.Parallel(len(items), func(i int) {
		it := &items[i]
		rep := map[string]interface{}{"message": it.msg.String(), "signed": base64.StdEncoding.EncodeToString(it.signed)}
		signer, err := shmsg.GetSigner(it.signed)
		if err != nil || signer != addrs[it.signer] {
			r.Violation("signatures:signer", sprint("signer %s, %v", signer.Hex(), err), rep)
			return
		}
		m, err := shmsg.GetMessage(it.signed)
		if err != nil || !proto.Equal(m, it.msg) {
			r.Violation("signatures:content", sprint("content %v, %v", m, err), rep)
			return
		}
		s := it.signed
		buf := make([]byte, 0, len(s)+1)
		step := 1
		if !r.Thorough() && len(s) > 200 {
			step = 3
		}
		for p := range s {
			for v := 0; v < 256; v++ {
				if byte(v) == s[p] || (p >= 65 && step > 1 && (v+p)%step != 0 && bitCount(byte(v)^s[p]) != 1) {
					continue
				}
				buf = append(buf[:0], s...)
				buf[p] = byte(v)
				try(it, buf, sprint("byte %d set to %d", p, v), i)
			}
			try(it, append(append(buf[:0], s[:p]...), s[p+1:]...), sprint("byte %d dropped", p), i)
			try(it, s[:p], sprint("cut to %d bytes", p), i)
			for _, v := range []byte{0, 1, 0xff} {
				buf = append(append(append(buf[:0], s[:p]...), v), s[p:]...)
				try(it, buf, sprint("%d inserted at %d", v, p), i)
			}
			if p > 0 && s[p] != s[p-1] {
				buf = append(buf[:0], s...)
				buf[p], buf[p-1] = buf[p-1], buf[p]
				try(it, buf, sprint("bytes %d and %d swapped", p-1, p), i)
			}
		}
		for v := 0; v < 256; v++ {
			try(it, append(append(buf[:0], s...), byte(v)), sprint("%d added", v), i)
		}
		for j := range items {
			if j != i {
				it2 := &items[j]
				x := append(append(buf[:0], s[:65]...), it2.signed[65:]...)
				r.Count("evaluations", 1)
				if bytes.Equal(it2.signed[65:], s[65:]) {
					continue
				}
				sg, err := shmsg.GetSigner(x)
				if err == nil && (sg == addrs[0] || sg == addrs[1]) {
					r.Violation("signatures:crossover", sprint("signature of %s accepted for %s", it.msg.String(), it2.msg.String()), rep)
				}
			}
		}
		// signatures made for other purposes
		for how, h := range otherHashes(s[65:]) {
			sig, err := crypto.Sign(h, detKey(keys[it.signer]))
			must(err)
			x := append(append(buf[:0], sig...), s[65:]...)
			r.Count("evaluations", 1)
			r.Distinct("nontrivial", verifkit.Hash(string(x)))
			sg, err := shmsg.GetSigner(x)
			if err == nil && sg == addrs[it.signer] {
				r.Violation("signatures:domain", "a signature made over "+how+" is taken for a message signature", rep)
			}
		}
	})
	r.Sample(map[string]interface{}{"message": items[0].msg.String(), "modification": "byte 12 set to 7"})
}

func bitCount(b byte) int {
	n := 0
	for ; b != 0; b &= b - 1 {
		n++
	}
	return n
}

// otherHashes are what the same key signs for other purposes.
func otherHashes(content []byte) map[string][]byte {
	sha := func(parts ...[]byte) []byte {
		h := sha3.New256()
		for _, p := range parts {
			_, _ = h.Write(p)
		}
		return h.Sum(nil)
	}
	dec := []byte{0x19, 'd', 'e', 'c', 't', 'x'}
	return map[string][]byte{
		"the bare content (sha3)":                sha(content),
		"the bare content (keccak)":              crypto.Keccak256(content),
		"a decryption signature's data":          crypto.Keccak256(dec, content),
		"decryption data hashed with sha3":       sha(dec, content),
		"an ethereum signed message's data":      crypto.Keccak256([]byte("\x19Ethereum Signed Message:\n32"), crypto.Keccak256(content)),
		"the first half of the content (keccak)": crypto.Keccak256(content[:len(content)/2]),
	}
}

// fakeShuttermint is a Shuttermint node that fails as it is told to.
type fakeShuttermint struct {
	client.Client
	mu       sync.Mutex
	chain    string
	infoFail int // 0 works, 1 error, 2 empty answer
	sendFail int // 0 works, 1 error, 2 refused in DeliverTx, 3 refused in CheckTx
	got      [][]byte
}

var errNode = errors.New("node unreachable")

func (f *fakeShuttermint) BlockchainInfo(ctx context.Context, lo, hi int64) (*rpctypes.ResultBlockchainInfo, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	switch f.infoFail {
	case 1:
		return nil, errNode
	case 2:
		return &rpctypes.ResultBlockchainInfo{}, nil
	}
	bm := &tmtypes.BlockMeta{}
	bm.Header.ChainID = f.chain
	return &rpctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{bm}}, nil
}

func (f *fakeShuttermint) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*rpctypes.ResultBroadcastTxCommit, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	switch f.sendFail {
	case 1:
		return nil, errNode
	case 2:
		return &rpctypes.ResultBroadcastTxCommit{DeliverTx: abcitypes.ResponseDeliverTx{Code: 1, Log: "refused"}}, nil
	case 3: // not in any block
		return &rpctypes.ResultBroadcastTxCommit{CheckTx: abcitypes.ResponseCheckTx{Code: 1}}, nil
	}
	f.got = append(f.got, append([]byte(nil), tx...))
	return &rpctypes.ResultBroadcastTxCommit{}, nil
}

// TestC11Sender sends sequences of messages with all placements of node failures.
func TestC11Sender(t *testing.T) {
	r := verifkit.Start("message-sender")
	defer r.Finish()
	r.Rule("all sequences of (message, chain info outcome, broadcast outcome) up to the bound through the real sender; what reaches the node must decode, with the node's chain id, to the message and its signer, with a fresh nonce each; non-trivial: distinct sequence")
	msgs := sampleMessages()
	pick := []*shmsg.Message{msgs[3], msgs[12], msgs[21]}
	key := detKey("signer 1")
	st := r.Explore(verifkit.Options{Bound: -1, Name: "message-sender"}, func(c *verifkit.Chooser) {
		f := &fakeShuttermint{chain: "verif-chain"}
		ms := fx.NewRPCMessageSender(f, key)
		nonces := map[uint64]bool{}
		known := false
		bad := func(k, fm string, args ...interface{}) {
			r.Violation("message-sender:"+k, sprint(fm, args...), c.Replay("message-sender"))
		}
		for i := 0; i < r.Pick(3, 4); i++ {
			m := pick[c.Choose(len(pick), "message")]
			f.infoFail, f.sendFail = 0, 0
			if !known {
				f.infoFail = c.Choose(3, "info")
			}
			if f.infoFail == 0 {
				f.sendFail = c.Choose(4, "send")
			}
			before := len(f.got)
			var err error
			if msg := verifkit.Catch(func() { err = ms.SendMessage(context.Background(), m) }); msg != "" {
				bad("panic", "%s", msg)
				return
			}
			r.Count("evaluations", 1)
			if f.infoFail == 0 {
				known = true
			}
			if f.infoFail != 0 || f.sendFail != 0 {
				if err == nil {
					bad("silent", "failure %d/%d reported as success", f.infoFail, f.sendFail)
				} else if fx.IsRetriable(err) != (f.sendFail != 2) {
					bad("retriable", "failure %d/%d retriable: %v", f.infoFail, f.sendFail, fx.IsRetriable(err))
				}
				if len(f.got) != before {
					bad("sent", "sent although it failed")
				}
				continue
			}
			if err != nil || len(f.got) != before+1 {
				bad("not-sent", "error %v, %d transactions sent", err, len(f.got)-before)
				return
			}
			raw, err := base64.RawURLEncoding.DecodeString(string(f.got[before]))
			if err != nil {
				bad("encoding", "%v", err)
				return
			}
			signer, err := shmsg.GetSigner(raw)
			if err != nil || signer != addrOf(key) {
				bad("signer", "%s %v", signer.Hex(), err)
				return
			}
			w, err := shmsg.GetMessage(raw)
			if err != nil || string(w.ChainId) != "verif-chain" || !proto.Equal(w.Msg, m) {
				bad("content", "%v %v", w, err)
				return
			}
			if nonces[w.RandomNonce] {
				bad("nonce", "nonce %d used twice", w.RandomNonce)
			}
			nonces[w.RandomNonce] = true
		}
		r.Distinct("nontrivial", verifkit.Hash(sprint("%v", c.Choices())))
	})
	r.Count("schedules", st.Executions)
}
