package verifapp

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// signRaw signs an arbitrary payload the way keypers do.
func signRaw(payload []byte, k *Keyper) []byte {
	h := sha3.New256()
	h.Write([]byte{0x19, 's', 'h', 'm', 's', 'g'})
	h.Write(payload)
	sig, err := crypto.Sign(h.Sum(nil), k.Key)
	if err != nil {
		panic(err)
	}
	return append(sig, payload...)
}

func b64(b []byte) []byte { return []byte(base64.RawURLEncoding.EncodeToString(b)) }

// probe compares two applications by their reactions to every action up to a depth.
func probe(g *Genesis, a, b *app.ShutterApp, actions []Action, depth int, nonce uint64) string {
	if DumpApp(a) == DumpApp(b) {
		return ""
	}
	if depth == 0 {
		return ""
	}
	for _, act := range actions {
		x := verifkit.DeepCopy(a).(*app.ShutterApp)
		y := verifkit.DeepCopy(b).(*app.ShutterApp)
		var rx, ry string
		if act.End {
			rx = endString(x.EndBlock(abcitypes.RequestEndBlock{Height: x.LastBlockHeight + 1}))
			ry = endString(y.EndBlock(abcitypes.RequestEndBlock{Height: y.LastBlockHeight + 1}))
			x.Commit()
			y.Commit()
		} else {
			tx := Tx(g.Chain(), act.Signer, nonce, act.Msg)
			cx, cy := x.CheckTx(abcitypes.RequestCheckTx{Tx: tx}), y.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
			rx = fmt.Sprint(cx.Code) + respString(x.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}))
			ry = fmt.Sprint(cy.Code) + respString(y.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}))
		}
		if rx != ry {
			return act.Name
		}
		if s := probe(g, x, y, actions, depth-1, nonce+1); s != "" {
			return act.Name + "; " + s
		}
	}
	return ""
}

// state is a prepared application state.
type state struct {
	name string
	g    Genesis
	a    *app.ShutterApp
	dump string
}

func states09() []*state {
	g := Genesis{Keypers: []int{0, 1, 2}, Threshold: 2, Validators: genesisVals(2)}
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}
	var r []*state
	add := func(name string, acts []Action) {
		x := g.NewApp()
		m := NewModel(&g)
		for i, act := range acts {
			Step(&g, x, m, act, uint64(1000000+i))
		}
		r = append(r, &state{name, g, x, DumpApp(x)})
	}
	add("genesis", nil)
	add("eon running", votes(a, 0, 1))
	add("everything pending", all(votes(a, 0, 1), By("started", MStarted(1), 0), By("check in", MCheckIn(K(0).Val, K(0)), 0), []Action{EndBlock},
		By("vote b", MConfigVote(b), 0), By("eon", MEonVote(10), 1), By("sign", MDecSig(10, []byte{1}), 0), By("commit", MCommitment(1, Gammas(1, 2)), 1),
		By("eval", MEval(1, Bytes(1), [][]byte{{1}}), 0), By("accuse", MAccuse(1, Bytes(0)), 1)))
	add("two configs", all(votes(a, 0, 1), votes(b, 0, 1), []Action{EndBlock}))
	return r
}

// deliver delivers and checks tx in a state and judges the reaction.
func (s *state) deliver(r *verifkit.Run, class string, tx []byte, describe func() string) {
	r.Count("evaluations", 1)
	rep := func(key, msg string) {
		r.Violation(class+":"+key, fmt.Sprintf("%s in state %q: %s", describe(), s.name, msg), map[string]interface{}{"state": s.name, "tx": string(tx)})
	}
	// mempool check on the pristine copy
	x := verifkit.DeepCopy(s.a).(*app.ShutterApp)
	var cres abcitypes.ResponseCheckTx
	if p := verifkit.Catch(func() { cres = x.CheckTx(abcitypes.RequestCheckTx{Tx: tx}) }); p != "" {
		rep("checktx-"+p, "CheckTx: "+p)
		return
	}
	_ = cres
	if cres.Code != 0 && DumpApp(x) != s.dump {
		if w := probe(&s.g, s.a, x, mixed(), 2, 5000000); w != "" {
			rep("checktx-trace", "the refused mempool check changes the reaction to "+w)
		}
	}
	x = verifkit.DeepCopy(s.a).(*app.ShutterApp)
	var res abcitypes.ResponseDeliverTx
	if p := verifkit.Catch(func() { res = x.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}) }); p != "" {
		rep("delivertx-"+p, "DeliverTx: "+p)
		return
	}
	if res.Code == 0 {
		r.Count("accepted", 1)
		// what was accepted must not bring the application down later
		if p := verifkit.Catch(func() {
			x.EndBlock(abcitypes.RequestEndBlock{Height: x.LastBlockHeight + 1})
			x.Commit()
		}); p != "" {
			rep("endblock-"+p, "EndBlock: "+p)
		}
		return
	}
	if len(res.Events) > 0 {
		rep("events", "a refused transaction publishes events")
	}
	if len(res.Data) > 0 {
		rep("data", "a refused transaction returns data")
	}
	if DumpApp(x) != s.dump {
		if w := probe(&s.g, s.a, x, mixed(), 2, 5000000); w != "" {
			rep("trace", "the refused transaction changes the reaction to "+w)
		}
	}
}

func sampleMessages() []*shmsg.Message {
	return []*shmsg.Message{
		MConfigVote(CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}),
		MStarted(1), MCheckIn(K(1).Val, K(1)), MEonVote(10), MDecSig(12, []byte{1, 2, 3}),
		MCommitment(1, Gammas(1, 1)), MEval(1, Bytes(1, 2), [][]byte{{1}, {2}}), MAccuse(1, Bytes(1, 2)),
		MApologise(1, Bytes(1, 2), [][]byte{{3}, {4}}), MShare(1, 2, Share(5)),
	}
}

func msgName(m *shmsg.Message) string {
	s := fmt.Sprintf("%T", m.GetPayload())
	return s[strings.LastIndex(s, "_")+1:]
}

func payloadOf(m *shmsg.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(&shmsg.MessageWithNonce{ChainId: []byte(ChainID), RandomNonce: 77, Msg: m})
	if err != nil {
		panic(err)
	}
	return b
}

// fieldValues enumerates messages in which every field takes adversarial values.
func fieldValues(thorough bool) []*shmsg.Message {
	nums := []uint64{0, 1, 2, 10, 1<<31 - 1, 1 << 32, 1 << 63, ^uint64(0)}
	few := []uint64{0, 1, 2, 1 << 63, ^uint64(0)}
	if !thorough {
		nums = []uint64{0, 1, 2, 10, 1 << 63, ^uint64(0)}
	}
	addr := func(n int) []byte { return append(K(1).Addr.Bytes(), make([]byte, 200)...)[:n] }
	lists := [][][]byte{
		nil, {}, {nil}, {{}}, {addr(1)}, {addr(19)}, {addr(20)}, {addr(21)}, {addr(32)}, {addr(200)},
		Bytes(1, 2), Bytes(1, 1), Bytes(0), Bytes(0, 1, 2), Bytes(1, 2, 3), {K(1).Addr.Bytes(), nil}, {make([]byte, 20)}, {make([]byte, 20), make([]byte, 20)},
		Bytes(3), Bytes(2, 1), {addr(20), addr(19)},
	}
	evals := [][][]byte{nil, {nil}, {{0}}, {{1}}, {make([]byte, 64)}, {{1}, {2}}, {nil, nil}, {{1}, {2}, {3}}, {make([]byte, 10000)}}
	bytesv := [][]byte{nil, {0}, make([]byte, 31), make([]byte, 32), make([]byte, 33), make([]byte, 64), make([]byte, 65), make([]byte, 66), make([]byte, 128), make([]byte, 10000)}
	var r []*shmsg.Message
	for _, n := range nums {
		r = append(r, MStarted(n), MEonVote(n))
		for _, b := range bytesv {
			r = append(r, MDecSig(n, b), MShare(n, n, b), MCommitment(n, [][]byte{b}), MCommitment(n, [][]byte{Gammas(1, 1)[0], b}))
		}
		for _, sh := range [][]byte{Share(1), append(Share(1), 0), Share(1)[:63]} {
			r = append(r, MShare(n, 1, sh), MShare(1, n, sh))
		}
		g := Gammas(1, 2)
		r = append(r, MCommitment(n, nil), MCommitment(n, g), MCommitment(n, [][]byte{g[0], g[0][:127]}), MCommitment(n, [][]byte{append(g[0], 1)}))
		for i := 0; i < 128; i += 31 {
			x := append([]byte(nil), g[0]...)
			x[i] ^= 0x40
			r = append(r, MCommitment(n, [][]byte{x}))
		}
		for _, l := range lists {
			r = append(r, MAccuse(n, l))
			for _, e := range evals {
				r = append(r, MEval(n, l, e), MApologise(n, l, e))
			}
		}
	}
	for _, start := range few {
		for _, idx := range few {
			for _, th := range few {
				for _, l := range lists {
					for _, ca := range [][]byte{nil, make([]byte, 19), make([]byte, 20), make([]byte, 21)} {
						r = append(r, &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
							StartBatchIndex: start, Keypers: l, Threshold: th, ConfigContractAddress: ca, ConfigIndex: idx,
						}}})
					}
				}
			}
		}
	}
	for _, fl := range []int{1, 2, 3} {
		m := MConfigVote(CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}})
		m.GetBatchConfig().Started = fl&1 != 0
		m.GetBatchConfig().ValidatorsUpdated = fl&2 != 0
		r = append(r, m)
	}
	encs := [][]byte{crypto.CompressPubkey(&K(1).Enc.PublicKey), crypto.FromECDSAPub(&K(1).Enc.PublicKey)}
	encs = append(encs, bytesv...)
	for _, p := range []byte{0, 1, 2, 3, 4, 5, 255} {
		x := append([]byte(nil), encs[0]...)
		x[0] = p
		encs = append(encs, x)
		y := make([]byte, 33)
		y[0] = p
		for i := 1; i < 33; i++ {
			y[i] = 0xff
		}
		encs = append(encs, y)
	}
	for _, v := range append([][]byte{K(1).Val}, bytesv...) {
		for _, e := range encs {
			r = append(r, MCheckInRaw(v, e))
		}
	}
	return r
}

func TestC09(t *testing.T) {
	r := verifkit.Start("malformed-transactions")
	defer r.Finish()
	sts := states09()

	// 1. byte strings that are no encoded transactions
	var raws [][]byte
	raws = append(raws, nil)
	for i := 0; i < 256; i++ {
		raws = append(raws, []byte{byte(i)})
		for j := 0; j < 256; j++ {
			raws = append(raws, []byte{byte(i), byte(j)})
		}
	}
	for n := 0; n <= 140; n++ {
		for _, fill := range []byte{0, 1, 0x7f, 0xff} {
			b := make([]byte, n)
			for i := range b {
				b[i] = fill
			}
			raws = append(raws, b64(b), b)
		}
	}
	r.Parallel((len(raws)+255)/256, func(i int) {
		for j := i * 256; j < (i+1)*256 && j < len(raws); j++ {
			sts[0].deliver(r, "raw", raws[j], func() string { return fmt.Sprintf("transaction %q", raws[j]) })
		}
	})
	r.Rule(fmt.Sprintf("raw: all byte strings up to two bytes and fills of every length up to 140, plain and encoded (%d)", len(raws)))

	// 2. validly signed payloads: all up to two bytes, and all mutations of valid messages
	type job struct {
		class   string
		payload []byte
		what    string
	}
	var jobs []job
	for i := 0; i < 256; i++ {
		jobs = append(jobs, job{"payload", []byte{byte(i)}, "payload"})
		for j := 0; j < 256; j++ {
			if i&7 <= 2 || i&7 == 5 { // field headers
				jobs = append(jobs, job{"payload", []byte{byte(i), byte(j)}, "payload"})
			}
		}
	}
	jobs = append(jobs, job{"payload", nil, "empty payload"})
	for _, m := range sampleMessages() {
		p := payloadOf(m)
		name := msgName(m)
		for n := 0; n < len(p); n++ {
			jobs = append(jobs, job{"truncated", p[:n], name + " truncated"})
			jobs = append(jobs, job{"cut", append(append([]byte(nil), p[:n]...), p[n+1:]...), name + " with a byte left out"})
			step := 1
			if !r.Thorough() {
				step = 5
			}
			for d := 1; d < 256; d += step {
				x := append([]byte(nil), p...)
				x[n] ^= byte(d)
				jobs = append(jobs, job{"mutated", x, fmt.Sprintf("%s with byte %d changed", name, n)})
			}
		}
		for _, m2 := range sampleMessages() {
			// two payloads one after the other: the oneof is given twice
			jobs = append(jobs, job{"doubled", append(append([]byte(nil), p...), payloadOf(m2)...), name + " followed by " + msgName(m2)})
		}
	}
	r.Parallel((len(jobs)+255)/256, func(i int) {
		for j := i * 256; j < (i+1)*256 && j < len(jobs); j++ {
			jb := jobs[j]
			tx := b64(signRaw(jb.payload, K(j%2)))
			s := sts[1+j%(len(sts)-1)]
			s.deliver(r, jb.class, tx, func() string { return fmt.Sprintf("%s (%x)", jb.what, jb.payload) })
			r.Distinct("nontrivial", verifkit.Hash(string(jb.payload)))
		}
	})
	r.Rule(fmt.Sprintf("payloads: validly signed short payloads, and every truncation, left out byte and byte mutation of one message of each kind, and all pairs (%d)", len(jobs)))

	// 3. structurally valid messages with adversarial field values, in every state, by three senders
	ms := fieldValues(r.Thorough())
	r.Parallel((len(ms)+63)/64, func(i int) {
		for j := i * 64; j < (i+1)*64 && j < len(ms); j++ {
			for si, s := range sts {
				for _, k := range []int{1, 3} {
					if !r.Thorough() && (si+k+j)%2 == 0 && msgName(ms[j]) == "BatchConfig" {
						continue
					}
					tx := Tx(ChainID, k, 77, ms[j])
					r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(si, k, j)))
					s.deliver(r, "fields-"+msgName(ms[j]), tx, func() string { return fmt.Sprintf("message %v from k%d", ms[j], k) })
				}
			}
		}
	})
	r.Rule(fmt.Sprintf("fields: %d messages with every combination of adversarial field values, in %d states", len(ms), len(sts)))

	// 4. missing messages and payloads
	var nils []*shmsg.MessageWithNonce
	for _, m := range []*shmsg.Message{
		nil, {},
		{Payload: &shmsg.Message_BatchConfig{}}, {Payload: &shmsg.Message_BatchConfigStarted{}}, {Payload: &shmsg.Message_CheckIn{}},
		{Payload: &shmsg.Message_EonStartVote{}}, {Payload: &shmsg.Message_DecryptionSignature{}}, {Payload: &shmsg.Message_PolyEval{}},
		{Payload: &shmsg.Message_PolyCommitment{}}, {Payload: &shmsg.Message_Accusation{}}, {Payload: &shmsg.Message_Apology{}}, {Payload: &shmsg.Message_EpochSecretKeyShare{}},
	} {
		for _, ch := range []string{"", ChainID} {
			nils = append(nils, &shmsg.MessageWithNonce{ChainId: []byte(ch), RandomNonce: 5, Msg: m})
		}
	}
	for _, m := range nils {
		b, err := proto.Marshal(m)
		if err != nil {
			continue
		}
		for _, s := range sts {
			for _, k := range []int{0, 3} {
				s.deliver(r, "missing", b64(signRaw(b, K(k))), func() string { return fmt.Sprintf("message %v", m) })
			}
		}
	}
	r.Sample(fmt.Sprintf("%v", ms[len(ms)/2]))
	r.Sample(fmt.Sprintf("%s: %x", jobs[len(jobs)/2].what, jobs[len(jobs)/2].payload))
}

// TestC09Histories delivers refused transactions in the middle of histories: the histories' results
// must be what they are without them.
func TestC09Histories(t *testing.T) {
	r := verifkit.Start("refused-in-histories")
	defer r.Finish()
	g := Genesis{Keypers: []int{0, 1}, Threshold: 2, Validators: genesisVals(2)}
	acts := mixed()
	bad := fieldValues(false)
	var refused []*shmsg.Message
	for i := 0; i < len(bad); i += 1 + len(bad)/r.Pick(40, 200) {
		refused = append(refused, bad[i])
	}
	for _, a := range acts {
		if !a.End {
			refused = append(refused, a.Msg)
		}
	}
	type node struct {
		a     *app.ShutterApp
		path  []string
		nonce uint64
	}
	level := []*node{{g.NewApp(), nil, 0}}
	seen := map[uint64]bool{}
	depth := r.Pick(3, 5)
	for d := 0; d <= depth; d++ {
		outs := make([][]*node, len(level))
		r.Parallel(len(level), func(i int) {
			n := level[i]
			s := &state{strings.Join(n.path, "; "), g, n.a, DumpApp(n.a)}
			for j, m := range refused {
				s.deliver(r, "history", Tx(ChainID, []int{0, 1, 3}[j%3], n.nonce+900000, m), func() string { return fmt.Sprintf("message %v", m) })
				r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(s.name, j)))
			}
			if d == depth {
				return
			}
			for _, act := range acts {
				x := verifkit.DeepCopy(n.a).(*app.ShutterApp)
				Step(&g, x, NewModel(&g), act, n.nonce)
				outs[i] = append(outs[i], &node{x, append(append([]string(nil), n.path...), act.Name), n.nonce + 1})
			}
		})
		var next []*node
		for _, o := range outs {
			for _, n := range o {
				k := verifkit.Hash(DumpApp(n.a))
				if !seen[k] {
					seen[k] = true
					next = append(next, n)
				}
			}
		}
		level = next
		if r.Expired() {
			break
		}
	}
	r.Rule(fmt.Sprintf("histories: %d messages after every sequence of up to %d of %d actions", len(refused), depth, len(acts)))
}
