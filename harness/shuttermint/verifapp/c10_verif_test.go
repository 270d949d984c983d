package verifapp

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

var nums10 = []uint64{0, 1, 9, 10, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, ^uint64(0)}

func addrLists() [][]common.Address {
	z := common.Address{}
	f := common.HexToAddress("0xffffffffffffffffffffffffffffffffffffffff")
	one := common.HexToAddress("0x0000000000000000000000000000000000000001")
	return [][]common.Address{nil, Addrs(0), Addrs(0, 1), Addrs(2, 0, 1), {z}, {f, z, one}, Addrs(5, 4, 3, 2, 1, 0), {one}}
}

// events10 enumerates events of every kind over all field values.
func events10() []shutterevents.IEvent {
	var r []shutterevents.IEvent
	z := common.Address{}
	senders := append(Addrs(0, 1), z, common.HexToAddress("0xabcdefabcdefabcdefabcdefabcdefabcdefabcd"))
	bigs := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), new(big.Int).Sub(bn256.Order, big.NewInt(1)), big.NewInt(0x2c0a)}
	strs := [][]byte{nil, {0}, {1, 0}, {0, 1}, []byte(","), []byte("0x,0x"), make([]byte, 65), []byte(strings.Repeat("\xff", 113)), {0x2c}}
	for _, s := range senders {
		for _, n := range nums10 {
			r = append(r, &shutterevents.EonStarted{Eon: n, BatchIndex: nums10[(int(n)+5)%len(nums10)&7]})
			for _, l := range addrLists() {
				r = append(r, &shutterevents.Accusation{Sender: s, Eon: n, Accused: l})
				r = append(r, &shutterevents.BatchConfig{Keypers: l, StartBatchIndex: n, Threshold: uint64(len(l)), ConfigIndex: n ^ 5})
				var ev []*big.Int
				var en [][]byte
				for i := range l {
					ev = append(ev, bigs[(i+int(n%7))%len(bigs)])
					en = append(en, strs[(i+int(n%11))%len(strs)])
				}
				r = append(r, &shutterevents.Apology{Sender: s, Eon: n, Accusers: l, PolyEval: ev})
				r = append(r, &shutterevents.PolyEval{Sender: s, Eon: n, Receivers: l, EncryptedEvals: en})
			}
			for _, b := range strs {
				r = append(r, &shutterevents.DecryptionSignature{Sender: s, BatchIndex: n, Signature: b})
			}
			for i := 0; i < 3; i++ {
				sh := shcrypto.EpochSecretKeyShare(*new(bn256.G1).ScalarBaseMult(big.NewInt(int64(i * 77))))
				r = append(r, &shutterevents.EpochSecretKeyShare{Sender: s, Eon: n, Epoch: n ^ 3, Share: &sh})
			}
		}
		for i := 0; i < 6; i++ {
			r = append(r, &shutterevents.CheckIn{Sender: s, EncryptionPublicKey: K(i).EncPub()})
		}
		for n := 0; n < 5; n++ {
			gs := shcrypto.Gammas{}
			for i := 0; i < n; i++ {
				gs = append(gs, new(bn256.G2).ScalarBaseMult(big.NewInt(int64(i*5))))
			}
			r = append(r, &shutterevents.PolyCommitment{Sender: s, Eon: uint64(n), Gammas: &gs})
		}
	}
	for _, b := range bigs {
		for _, c := range bigs {
			r = append(r, &shutterevents.Apology{Sender: senders[0], Eon: 1, Accusers: Addrs(0, 1), PolyEval: []*big.Int{b, c}})
		}
	}
	for _, b := range strs {
		for _, c := range strs {
			r = append(r, &shutterevents.PolyEval{Sender: senders[0], Eon: 1, Receivers: Addrs(0, 1), EncryptedEvals: [][]byte{b, c}})
		}
	}
	for _, a := range nums10 {
		for _, b := range nums10 {
			r = append(r, &shutterevents.EonStarted{Eon: a, BatchIndex: b})
			r = append(r, &shutterevents.BatchConfig{Keypers: Addrs(0, 1), StartBatchIndex: a, Threshold: 2, ConfigIndex: b})
		}
	}
	return r
}

func withHeight(e shutterevents.IEvent) string {
	return fmt.Sprintf("%T", e) + verifkit.Dump(e, "ConfigContractAddress", "Started", "ValidatorsUpdated")
}

func setHeight(e shutterevents.IEvent, h int64) shutterevents.IEvent {
	e = verifkit.DeepCopy(e).(shutterevents.IEvent)
	switch x := e.(type) {
	case *shutterevents.Accusation:
		x.Height = h
	case *shutterevents.Apology:
		x.Height = h
	case *shutterevents.BatchConfig:
		x.Height = h
	case *shutterevents.CheckIn:
		x.Height = h
	case *shutterevents.DecryptionSignature:
		x.Height = h
	case *shutterevents.EonStarted:
		x.Height = h
	case *shutterevents.PolyCommitment:
		x.Height = h
	case *shutterevents.PolyEval:
		x.Height = h
	case *shutterevents.EpochSecretKeyShare:
		x.Height = h
	}
	return e
}

func TestC10(t *testing.T) {
	r := verifkit.Start("events")
	defer r.Finish()
	evs := events10()
	// 1. encoding and decoding is the identity
	r.Parallel((len(evs)+63)/64, func(i int) {
		for j := i * 64; j < (i+1)*64 && j < len(evs); j++ {
			for _, h := range []int64{0, 1, 1 << 40} {
				e := evs[j]
				abci := e.MakeABCIEvent()
				d, err := shutterevents.MakeEvent(abci, h)
				kind := fmt.Sprintf("%T", e)
				r.Count("evaluations", 1)
				if err != nil {
					r.Violation("decode:"+kind, fmt.Sprintf("event %s is published but cannot be decoded: %v", EvString(e), err), EvString(e))
					continue
				}
				if want, got := withHeight(setHeight(e, h)), withHeight(d); want != got {
					r.Violation("roundtrip:"+kind, fmt.Sprintf("event %s is decoded to %s", want, got), want)
				}
				r.Distinct("nontrivial", verifkit.Hash(withHeight(d)))
			}
		}
	})
	r.Rule(fmt.Sprintf("round trips of %d events of all kinds over all combinations of field values", len(evs)))

	// 2. whatever the application publishes for a transaction decodes to the transaction's contents
	app10(r)

	// 3. corruption
	corrupt(r, evs)
}

// app10 sends messages through the application.
func app10(r *verifkit.Run) {
	var ms []*shmsg.Message
	for _, n := range []uint64{1, 2} {
		for _, k := range []int{0, 1, 2, 3} {
			ms = append(ms, MCommitment(n, Gammas(int(n), k)))
		}
		for _, l := range [][]int{nil, {1}, {2}, {1, 2}, {2, 1}} {
			ms = append(ms, MAccuse(n, Bytes(l...)))
			for _, x := range [][]byte{nil, {0}, {0, 0, 1}, {7}, make([]byte, 40), []byte(strings.Repeat("\xff", 32))} {
				var e [][]byte
				for i := range l {
					e = append(e, append([]byte(nil), x...))
					if i == 1 {
						e[1] = append(e[1], 1)
					}
				}
				ms = append(ms, MEval(n, Bytes(l...), e), MApologise(n, Bytes(l...), e))
			}
		}
	}
	for _, n := range nums10 {
		for _, x := range [][]byte{nil, {0}, make([]byte, 65), []byte(strings.Repeat("\xfe", 65))} {
			ms = append(ms, MDecSig(n, x))
		}
		for i := 0; i < 3; i++ {
			ms = append(ms, MShare(n, n/3, Share(i)), MShare(n/5, n, Share(i)))
		}
		ms = append(ms, MEonVote(n))
		for _, ks := range [][]int{{0}, {0, 1, 2}, {2, 1, 0}, {4, 5, 6, 7}, {3, 0}} {
			ms = append(ms, MConfigVote(CfgSpec{Index: n, Start: n, Threshold: uint64(len(ks)), Keypers: ks}))
		}
	}
	for i := 0; i < 4; i++ {
		ms = append(ms, MCheckIn(K(i).Val, K(i)))
	}
	g := Genesis{Keypers: []int{0, 1, 2}, Threshold: 1, Validators: genesisVals(1)}
	base := g.NewApp()
	m0 := NewModel(&g)
	for i, a := range all(votes(CfgSpec{Index: 1, Start: 0, Threshold: 1, Keypers: []int{0, 1, 2}}, 0), By("eon", MEonVote(0), 0)) {
		Step(&g, base, m0, a, uint64(i))
	}
	r.Parallel(len(ms), func(i int) {
		x := verifkit.DeepCopy(base).(*app.ShutterApp)
		m := m0.Copy()
		want := m.Deliver(K(0).Addr, ms[i])
		res := x.DeliverTx(abcitypes.RequestDeliverTx{Tx: Tx(ChainID, 0, 99, ms[i])})
		r.Count("evaluations", 1)
		if (res.Code == 0) != want.OK {
			return // judged by other properties
		}
		var exp []string
		for _, e := range want.Events {
			exp = append(exp, EvString(e))
		}
		got, err := DecodeEvents(res.Events)
		kind := msgName(ms[i])
		if err != nil {
			r.Violation("app-decode:"+kind, fmt.Sprintf("the event published for %v cannot be decoded: %v", ms[i], err), fmt.Sprint(ms[i]))
		} else if fmt.Sprint(exp) != fmt.Sprint(got) {
			r.Violation("app-content:"+kind, fmt.Sprintf("the event published for %v is decoded to %v, should be %v", ms[i], got, exp), fmt.Sprint(ms[i]))
		}
		if len(res.Events) > 0 {
			r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(got)))
		}
	})
	r.Rule(fmt.Sprintf("%d messages of all kinds through the application", len(ms)))
}

// badValues returns values that are malformed for an attribute, in any reading of its kind.
func badValues(typ, key string, good []byte) [][]byte {
	var r [][]byte
	cut := func(n int) []byte {
		if n > len(good) {
			n = len(good)
		}
		return good[:len(good)-n]
	}
	s := string(good)
	switch key {
	case "Eon", "Epoch", "BatchIndex", "StartBatchIndex", "Threshold", "ConfigIndex":
		for _, v := range []string{"", "-1", "x", s + "x", " ", "1.5", "18446744073709551616", "99999999999999999999999", "1,2", "\x00", "0xg"} {
			r = append(r, []byte(v))
		}
	case "Sender":
		for _, v := range []string{"", "0x", s + "00", s[:len(s)-1], s[:len(s)-2], "0x" + strings.Repeat("g", 40), s + "," + s, "x" + s} {
			r = append(r, []byte(v))
		}
	case "Accused", "Accusers", "Receivers", "Keypers":
		one := K(0).Addr.Hex()
		for _, v := range []string{",", one + ",", "," + one, one + ",," + one, one[:41], one + "00", one + ";" + one, "0x", "x", one + "," + one[:40], "0x" + strings.Repeat("g", 40)} {
			r = append(r, []byte(v))
		}
	case "PolyEvals", "EncryptedEvals":
		for _, v := range []string{"0x1", "01", "0xgg", "0x01,", ",0x01", "0x01,,0x02", ",", "0x01;0x02", "x", "0x01,0x2"} {
			r = append(r, []byte(v))
		}
	case "Signature":
		for _, v := range []string{"!", "A", "AA=", "AAA+/", "A A", "AAAAA"} {
			r = append(r, []byte(v))
		}
	case "EncryptionPublicKey":
		r = append(r, nil, cut(1), cut(2), cut(40), []byte("!"), []byte(strings.Repeat("A", len(good))))
		for i := 2; i < len(good)-2; i += 7 {
			x := append([]byte(nil), good...)
			x[i] = flip(x[i])
			r = append(r, x) // not on the curve
		}
	case "Gammas":
		one := hex.EncodeToString(Gammas(1, 1)[0])
		for _, v := range []string{",", one + ",", "," + one, one + ",," + one, one[:len(one)-2], one[:len(one)-1], one[2:], "zz", strings.Repeat("ff", 128), one + "," + one[:128], strings.Repeat("01", 128)} {
			r = append(r, []byte(v))
		}
	case "Share":
		r = append(r, nil, cut(1), cut(2), []byte("0x"), []byte("0xzz"), []byte("0x"+strings.Repeat("ff", 64)), []byte("0x"+strings.Repeat("01", 64)))
		if len(good) > 2 {
			r = append(r, good[2:])
		}
	}
	return r
}

func flip(b byte) byte {
	if b == 'A' {
		return 'B'
	}
	return 'A'
}

func corrupt(r *verifkit.Run, evs []shutterevents.IEvent) {
	count := 0
	try := func(ev abcitypes.Event, mustRefuse bool, class, what string) {
		r.Count("evaluations", 1)
		count++
		var err error
		var d shutterevents.IEvent
		if p := verifkit.Catch(func() { d, err = shutterevents.MakeEvent(ev, 7) }); p != "" {
			r.Violation(class+":"+p, fmt.Sprintf("decoding event %v with %s: %s", ev, what, p), fmt.Sprint(ev))
			return
		}
		if mustRefuse && err == nil {
			r.Violation(class+":"+ev.Type, fmt.Sprintf("event %s with %s is accepted as %s", ev.Type, what, EvString(d)), fmt.Sprint(ev))
		}
		if err == nil {
			// whatever was accepted can be encoded again
			if p := verifkit.Catch(func() { d.MakeABCIEvent() }); p != "" {
				r.Violation(class+":encode:"+p, fmt.Sprintf("event %s with %s: %s", ev.Type, what, p), fmt.Sprint(ev))
			}
		}
	}
	clone := func(e abcitypes.Event) abcitypes.Event { return verifkit.DeepCopy(e).(abcitypes.Event) }
	perKind := map[string]int{}
	for _, e := range evs {
		base := e.MakeABCIEvent()
		if perKind[base.Type] >= r.Pick(6, 60) {
			continue
		}
		perKind[base.Type]++
		for i := range base.Attributes {
			key := string(base.Attributes[i].Key)
			x := clone(base)
			x.Attributes = append(x.Attributes[:i:i], x.Attributes[i+1:]...)
			try(x, true, "missing", "attribute "+key+" missing")
			for j := 0; j < i; j++ {
				x = clone(base)
				x.Attributes[i], x.Attributes[j] = x.Attributes[j], x.Attributes[i]
				try(x, true, "reordered", "attributes swapped")
			}
			for _, k := range []string{"", "x", strings.ToLower(key), key + " ", key[:len(key)-1]} {
				x = clone(base)
				x.Attributes[i].Key = []byte(k)
				try(x, true, "renamed", "attribute "+key+" renamed to "+k)
			}
			for _, v := range badValues(base.Type, key, base.Attributes[i].Value) {
				x = clone(base)
				x.Attributes[i].Value = v
				try(x, true, "malformed-"+key, fmt.Sprintf("attribute %s set to %q", key, v))
			}
			x = clone(base)
			x.Attributes[i].Value = nil
			try(x, false, "value", "no value")
			// every single byte change and truncation of the value: no crash
			v := base.Attributes[i].Value
			step := 1 + len(v)/r.Pick(12, 200)
			for n := 0; n < len(v); n += step {
				x = clone(base)
				x.Attributes[i].Value = v[:n]
				try(x, false, "value", "truncated value")
				for _, c := range []byte{0, ',', '0', 'x', 'z', 0xff, 'F'} {
					x = clone(base)
					x.Attributes[i].Value = append([]byte(nil), v...)
					x.Attributes[i].Value[n] = c
					try(x, false, "value", "changed value")
				}
			}
			// prefixes of the attributes
			x = clone(base)
			x.Attributes = x.Attributes[:i]
			try(x, true, "missing", "attributes cut")
		}
		// another event's type
		for _, e2 := range evs[:] {
			t := e2.MakeABCIEvent().Type
			if t == base.Type || perKind["type:"+base.Type+t] > 2 {
				continue
			}
			perKind["type:"+base.Type+t]++
			x := clone(base)
			x.Type = t
			try(x, false, "type", "type "+t)
		}
		for _, t := range []string{"", "x", base.Type + "x", strings.ToUpper(base.Type), strings.TrimPrefix(base.Type, "shutter."), base.Type[:len(base.Type)-1]} {
			x := clone(base)
			x.Type = t
			try(x, true, "unknown-type", "type "+t)
		}
		try(abcitypes.Event{Type: base.Type}, true, "missing", "no attributes")
	}
	r.Rule(fmt.Sprintf("%d corruptions: missing, renamed and swapped attributes, unknown types, malformed and changed values", count))
}
