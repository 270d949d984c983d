package verifshlib

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/verifkit"
)

const dkgEon = 7

// dkgScenario is one group with its misbehaving members. What they may do is enumerated.
type dkgScenario struct {
	n, t    int
	bad     []int // misbehaving dealers
	nEval   int   // how many kinds of evaluations are tried: 1 all right, 3 none/right/wrong, 4 also the value of another receiver
	nEval2  int   // the same for the second misbehaving dealer if not 0
	nComm   int   // 2 none/right, 3 also another polynomial, 4 also twice (right then other), 5 twice (other then right)
	self    bool  // may they accuse themselves and each other
	nAcc    int   // how many keypers each of them may accuse, 0 for all
	fixed   bool  // all honest keypers get the messages in the same order
	unsolic bool  // may they apologize to keypers that did not accuse them
}

func (s dkgScenario) name() string {
	return fmt.Sprintf("n=%d t=%d bad=%v", s.n, s.t, s.bad)
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// dkgTemplate is the state after all keypers have dealt.
type dkgTemplate struct {
	nodes []*puredkg.PureDKG
	comms []puredkg.PolyCommitmentMsg
	evals [][]puredkg.PolyEvalMsg // by sender
	polys []*shcrypto.Polynomial
	other []*shcrypto.Polynomial // a second polynomial of each dealer
}

func (s dkgScenario) template() *dkgTemplate {
	tp := &dkgTemplate{}
	for i := 0; i < s.n; i++ {
		p := puredkg.NewPureDKG(dkgEon, uint64(s.n), uint64(s.t), uint64(i))
		rand.Reader = reader(int64(1000*s.n + 100*s.t + i))
		c, e, err := p.StartPhase1Dealing()
		must(err)
		o, err := shcrypto.RandomPolynomial(reader(int64(7000+i)), uint64(s.t-1))
		must(err)
		tp.nodes, tp.comms, tp.evals = append(tp.nodes, &p), append(tp.comms, c), append(tp.evals, e)
		tp.polys, tp.other = append(tp.polys, p.Polynomial), append(tp.other, o)
	}
	return tp
}

// recipients of evals: the message of sender for receiver
func (tp *dkgTemplate) eval(from, to int) *big.Int { return tp.polys[from].EvalForKeyper(to) }

type dkgRun struct {
	r     *verifkit.Run
	s     dkgScenario
	tp    *dkgTemplate
	c     *verifkit.Chooser
	nodes map[int]*puredkg.PureDKG
	good  []int
	log   []string
	seen  *sync.Map
	junk  int              // the node that is sent junk in this execution
	twin  *puredkg.PureDKG // the same node without the junk
}

func (d *dkgRun) bad(key, f string, args ...interface{}) {
	d.r.Violation("puredkg:"+key, d.s.name()+": "+fmt.Sprintf(f, args...)+"; history: "+strings.Join(d.log, ", "), d.c.Replay("puredkg "+d.s.name()))
}

// accept delivers a message that has to be accepted.
func (d *dkgRun) accept(i int, what string, f func(p *puredkg.PureDKG) error) {
	if err := f(d.nodes[i]); err != nil {
		d.bad("refused", "keyper %d refuses %s: %s", i, what, err)
	}
	if i == d.junk {
		if err := f(d.twin); err != nil {
			d.bad("refused", "keyper %d refuses %s: %s", i, what, err)
		}
	}
}

// refuse delivers a message that has to be refused without effect: the twin does not get it.
func (d *dkgRun) refuse(i int, what string, f func(p *puredkg.PureDKG) error) {
	p := d.nodes[i]
	var err error
	if m := verifkit.Catch(func() { err = f(p) }); m != "" {
		d.bad("crash", "keyper %d crashes on %s: %s", i, what, m)
		return
	}
	if err == nil {
		d.bad("accepted:"+strings.Split(what, " ")[0], "keyper %d accepts %s in phase %s", i, what, p.Phase)
	}
}

// compare checks that the refused messages had no effect.
func (d *dkgRun) compare() {
	if a, b := verifkit.Dump(d.nodes[d.junk]), verifkit.Dump(d.twin); a != b {
		d.bad("effect", "refused messages change the state of keyper %d in phase %s", d.junk, d.twin.Phase)
	}
}

type commOpt struct {
	name  string
	first *shcrypto.Gammas
	msgs  []*shcrypto.Gammas
}

func (d *dkgRun) commitments(b int) commOpt {
	right, other := d.tp.comms[b].Gammas, d.tp.other[b].Gammas()
	low := shcrypto.Gammas((*right)[:len(*right)-1])
	high := append(append(shcrypto.Gammas{}, (*right)...), (*other)[0])
	_ = low
	switch d.c.Choose(d.s.nComm, fmt.Sprintf("commitment of %d", b)) {
	case 0:
		return commOpt{"right", right, []*shcrypto.Gammas{right}}
	case 1:
		return commOpt{"no", nil, []*shcrypto.Gammas{&low, &high, {}}}
	case 2:
		return commOpt{"another polynomial's", other, []*shcrypto.Gammas{other}}
	case 3:
		return commOpt{"right then another", right, []*shcrypto.Gammas{&low, right, other}}
	}
	return commOpt{"another then right", other, []*shcrypto.Gammas{other, &high, right}}
}

func (d *dkgRun) note(f string, args ...interface{}) { d.log = append(d.log, fmt.Sprintf(f, args...)) }

func (d *dkgRun) run() {
	s, tp, c := d.s, d.tp, d.c
	d.nodes = map[int]*puredkg.PureDKG{}
	for i := 0; i < s.n; i++ {
		if !contains(s.bad, i) {
			d.good = append(d.good, i)
			d.nodes[i] = verifkit.DeepCopy(tp.nodes[i]).(*puredkg.PureDKG)
		}
	}
	d.junk = d.good[d.junk%len(d.good)]
	d.twin = verifkit.DeepCopy(tp.nodes[d.junk]).(*puredkg.PureDKG)
	isBad := func(i int) bool { return contains(s.bad, i) }
	// ---- dealing
	accepted := make([]*shcrypto.Gammas, s.n)
	opts := map[int]commOpt{}
	for _, b := range s.bad {
		opts[b] = d.commitments(b)
		accepted[b] = opts[b].first
		d.note("%d commits %s", b, opts[b].name)
	}
	reverse := !s.fixed && c.Bool("reverse delivery to the last honest keyper")
	for gi, g := range d.good {
		for x := 0; x < s.n; x++ {
			dealer := x
			if reverse && gi == len(d.good)-1 {
				dealer = s.n - 1 - x
			}
			if !isBad(dealer) {
				accepted[dealer] = tp.comms[dealer].Gammas
				d.accept(g, fmt.Sprintf("the commitment of %d", dealer), func(p *puredkg.PureDKG) error { return p.HandlePolyCommitmentMsg(tp.comms[dealer]) })
				continue
			}
			got := false
			for _, m := range opts[dealer].msgs {
				msg := puredkg.PolyCommitmentMsg{Eon: dkgEon, Sender: uint64(dealer), Gammas: m}
				if !got && m == accepted[dealer] {
					d.accept(g, fmt.Sprintf("the commitment of %d", dealer), func(p *puredkg.PureDKG) error { return p.HandlePolyCommitmentMsg(msg) })
					got = true
				} else {
					d.refuse(g, fmt.Sprintf("commitment repeated or of degree %d", len(*m)-1), func(p *puredkg.PureDKG) error { return p.HandlePolyCommitmentMsg(msg) })
				}
			}
		}
	}
	for _, g := range d.good {
		for from := 0; from < s.n; from++ {
			if from == g {
				continue
			}
			v := tp.eval(from, g)
			if isBad(from) {
				kinds := s.nEval
				if from != s.bad[0] && s.nEval2 > 0 {
					kinds = s.nEval2
				}
				switch c.Choose(kinds, fmt.Sprintf("evaluation of %d for %d", from, g)) {
				case 1:
					v = nil
				case 2:
					v = new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), order)
				case 3:
					v = tp.other[from].EvalForKeyper(g)
				}
				d.note("%d sends %d evaluation %s", from, g, short(v))
				// an evaluation out of range is refused and does not use up the turn
				d.refuse(g, "evaluation out of range", func(p *puredkg.PureDKG) error {
					return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: uint64(from), Receiver: uint64(g), Eval: order})
				})
			}
			if v == nil {
				continue
			}
			d.accept(g, fmt.Sprintf("the evaluation of %d", from), func(p *puredkg.PureDKG) error {
				return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: uint64(from), Receiver: uint64(g), Eval: v})
			})
		}
	}
	d.deliverJunk()
	// ---- accusing
	type pair struct{ accuser, accused int }
	accused := map[pair]bool{}
	var accs []puredkg.AccusationMsg
	for _, g := range d.good {
		msgs := d.nodes[g].StartPhase2Accusing()
		if g == d.junk {
			d.twin.StartPhase2Accusing()
		}
		for _, m := range msgs {
			if m.Eon != dkgEon || int(m.Accuser) != g {
				d.bad("accusation", "keyper %d sends %+v", g, m)
			}
			if !isBad(int(m.Accused)) {
				d.bad("accuses-honest", "keyper %d accuses honest keyper %d", g, m.Accused)
			}
			if accused[pair{g, int(m.Accused)}] {
				d.bad("accusation", "keyper %d accuses %d twice", g, m.Accused)
			}
			accused[pair{g, int(m.Accused)}] = true
			accs = append(accs, m)
		}
		// everybody whose commitment is missing or does not fit the evaluation is accused
		for _, b := range s.bad {
			need := accepted[b] == nil || !fits(d.nodes[g], accepted[b], b, g)
			if need != accused[pair{g, b}] {
				d.bad("accusation", "keyper %d accuses %d: %v, but its commitment and evaluation fit: %v", g, b, accused[pair{g, b}], !need)
			}
		}
	}
	for _, b := range s.bad {
		targets := 0
		for x := 0; x < s.n; x++ {
			if (x == b || isBad(x)) && !s.self || s.nAcc > 0 && targets == s.nAcc {
				continue
			}
			targets++
			if c.Bool(fmt.Sprintf("%d accuses %d", b, x)) {
				d.note("%d accuses %d", b, x)
				accused[pair{b, x}] = true
				accs = append(accs, puredkg.AccusationMsg{Eon: dkgEon, Accuser: uint64(b), Accused: uint64(x)})
			}
		}
	}
	deliver := func(k int, f func(g int, i int)) {
		for gi, g := range d.good {
			for i := 0; i < k; i++ {
				j := i
				if reverse && gi == len(d.good)-1 {
					j = k - 1 - i
				}
				f(g, j)
			}
		}
	}
	deliver(len(accs), func(g int, i int) {
		d.accept(g, fmt.Sprintf("accusation %v", accs[i]), func(p *puredkg.PureDKG) error { return p.HandleAccusationMsg(accs[i]) })
		d.refuse(g, "accusation repeated", func(p *puredkg.PureDKG) error { return p.HandleAccusationMsg(accs[i]) })
	})
	d.deliverJunk()
	// ---- apologizing
	var apols []puredkg.ApologyMsg
	for _, g := range d.good {
		msgs := d.nodes[g].StartPhase3Apologizing()
		if g == d.junk {
			d.twin.StartPhase3Apologizing()
		}
		sort.Slice(msgs, func(i, j int) bool { return msgs[i].Accuser < msgs[j].Accuser })
		n := 0
		for _, m := range msgs {
			if m.Eon != dkgEon || int(m.Accused) != g || !accused[pair{int(m.Accuser), g}] || m.Eval.Cmp(tp.eval(g, int(m.Accuser))) != 0 {
				d.bad("apology", "keyper %d apologizes %+v", g, m)
			}
			n++
			apols = append(apols, m)
		}
		want := 0
		for k := range accused {
			if k.accused == g {
				want++
			}
		}
		if n != want {
			d.bad("apology", "keyper %d sends %d apologies for %d accusations", g, n, want)
		}
	}
	// a misbehaving dealer is excluded if it did not commit, or did not answer an accusation, or
	// answered one wrongly; if it apologizes wrongly without having been accused, either is fine
	excluded := map[int]bool{}
	open := map[int]bool{}
	for _, b := range s.bad {
		if accepted[b] == nil {
			excluded[b] = true
		}
		for x := 0; x < s.n; x++ {
			solicited := accused[pair{x, b}]
			if !solicited && !(s.unsolic && x == (b+1)%s.n) {
				continue
			}
			k := 3
			if !solicited {
				k = 2
			}
			right := tp.eval(b, x)
			if accepted[b] != nil && accepted[b] != tp.comms[b].Gammas {
				right = tp.other[b].EvalForKeyper(x)
			}
			wrong := new(big.Int).Mod(new(big.Int).Add(right, big.NewInt(1)), order)
			var v *big.Int
			switch c.Choose(k, fmt.Sprintf("apology of %d to %d", b, x)) {
			case 0: // none
			case 1:
				v = wrong
			case 2:
				v = right
			}
			if !solicited {
				if v != nil {
					open[b] = true
				}
			} else if v != right {
				excluded[b] = true
			}
			if v != nil {
				d.note("%d apologizes to %d (right: %v)", b, x, v == right)
				apols = append(apols, puredkg.ApologyMsg{Eon: dkgEon, Accuser: uint64(x), Accused: uint64(b), Eval: v})
			}
		}
	}
	deliver(len(apols), func(g int, i int) {
		m := apols[i]
		m.Eval = order
		d.refuse(g, "apology out of range", func(p *puredkg.PureDKG) error { return p.HandleApologyMsg(m) })
		d.accept(g, fmt.Sprintf("apology %v", apols[i]), func(p *puredkg.PureDKG) error { return p.HandleApologyMsg(apols[i]) })
		m.Eval = big.NewInt(12345)
		d.refuse(g, "apology repeated", func(p *puredkg.PureDKG) error { return p.HandleApologyMsg(m) })
	})
	d.deliverJunk()
	for _, g := range d.good {
		if _, err := d.nodes[g].ComputeResult(); err == nil {
			d.bad("early", "keyper %d has a result before the end", g)
		}
		d.nodes[g].Finalize()
		if g == d.junk {
			d.twin.Finalize()
		}
	}
	d.deliverJunk()
	// ---- results
	var first *puredkg.Result
	var firstErr error
	results := map[int]puredkg.Result{}
	for i, g := range d.good {
		res, err := d.nodes[g].ComputeResult()
		if i == 0 {
			firstErr = err
		}
		if (err == nil) != (firstErr == nil) {
			d.bad("verdict", "keypers %d and %d disagree: %v and %v", d.good[0], g, firstErr, err)
			return
		}
		if err != nil {
			continue
		}
		results[g] = res
		if first == nil {
			r := res
			first = &r
		}
		if !res.PublicKey.Equal(first.PublicKey) || len(res.PublicKeyShares) != s.n {
			d.bad("public-key", "keypers %d and %d derive different public keys", d.good[0], g)
			return
		}
		for k := range res.PublicKeyShares {
			if !res.PublicKeyShares[k].Equal(first.PublicKeyShares[k]) {
				d.bad("public-shares", "keypers %d and %d derive different public key shares", d.good[0], g)
				return
			}
		}
		if res.Eon != dkgEon || int(res.Keyper) != g || int(res.NumKeypers) != s.n || int(res.Threshold) != s.t {
			d.bad("result", "keyper %d has result %+v", g, res)
		}
	}
	nin := s.n - len(excluded)
	nopen := 0
	for b := range open {
		if !excluded[b] {
			nopen++
		}
	}
	if first == nil {
		if nin-nopen >= s.t {
			d.bad("fails", "key generation fails although only %v are to be excluded: %v", excluded, firstErr)
		}
		d.r.Distinct("outcomes", verifkit.Hash(fmt.Sprint(s.name(), "failed")))
		return
	}
	if nin < s.t {
		d.bad("succeeds", "key generation succeeds although all of %v are to be excluded", excluded)
	}
	// the public key is the sum of the included dealers' commitments
	matched := false
	var openList []int
	for b := range open {
		if !excluded[b] {
			openList = append(openList, b)
		}
	}
	for mask := 0; mask < 1<<len(openList); mask++ {
		sum := new(big.Int)
		for i := 0; i < s.n; i++ {
			out := excluded[i]
			for k, b := range openList {
				if b == i && mask&(1<<k) != 0 {
					out = true
				}
			}
			if out {
				continue
			}
			poly := tp.polys[i]
			if accepted[i] != tp.comms[i].Gammas {
				poly = tp.other[i]
			}
			sum.Add(sum, (*poly)[0])
		}
		if (*shcrypto.EonPublicKey)(mulG2(sum)).Equal(first.PublicKey) {
			matched = true
		}
	}
	if !matched {
		d.bad("included", "the public key is not the sum of the right dealers' (excluded: %v)", excluded)
	}
	d.usable(results)
}

// fits is the reference check of an evaluation against a commitment.
func fits(p *puredkg.PureDKG, comm *shcrypto.Gammas, dealer, me int) bool {
	v := p.Evals[dealer]
	return v != nil && mulG2(v).Equals(comm.Pi(big.NewInt(int64(me+1))))
}

// usable checks that the secret shares fit the public shares and combine to the key.
func (d *dkgRun) usable(results map[int]puredkg.Result) {
	var sig bytes.Buffer
	for _, g := range d.good {
		fmt.Fprintf(&sig, "%x/", results[g].SecretKeyShare.Marshal())
	}
	if _, ok := d.seen.LoadOrStore(sig.String(), true); ok {
		return
	}
	d.r.Distinct("outcomes", verifkit.Hash(d.s.name()+sig.String()))
	id := shcrypto.ComputeEpochID(epochBytes(3))
	shares := map[int]*shcrypto.EpochSecretKeyShare{}
	for _, g := range d.good {
		res := results[g]
		if !(*shcrypto.EonPublicKeyShare)(mulG2((*big.Int)(res.SecretKeyShare))).Equal(res.PublicKeyShares[g]) {
			d.bad("secret-share", "the secret share of keyper %d does not fit its public share", g)
		}
		shares[g] = shcrypto.ComputeEpochSecretKeyShare(res.SecretKeyShare, id)
		if !shcrypto.VerifyEpochSecretKeyShare(shares[g], res.PublicKeyShares[g], id) {
			d.bad("epoch-share", "the epoch share of keyper %d does not verify", g)
		}
	}
	if len(d.good) < d.s.t {
		return
	}
	for _, sub := range subsets(len(d.good), d.s.t) {
		var idx []int
		var ss []*shcrypto.EpochSecretKeyShare
		for _, k := range sub {
			idx = append(idx, d.good[k])
			ss = append(ss, shares[d.good[k]])
		}
		key, err := shcrypto.ComputeEpochSecretKey(idx, ss, uint64(d.s.t))
		if err != nil {
			d.bad("epoch-key", "no epoch key from %v: %s", idx, err)
			continue
		}
		ok, err := shcrypto.VerifyEpochSecretKey(key, results[d.good[0]].PublicKey, epochBytes(3))
		if err != nil || !ok {
			d.bad("epoch-key", "the epoch key from the shares of %v does not belong to the public key", idx)
		}
	}
}

// deliverJunk sends messages that have to be refused in the current phase to one keyper.
func (d *dkgRun) deliverJunk() {
	g := d.junk
	p := d.nodes[g]
	n := uint64(d.s.n)
	me := uint64(g)
	other := (me + 1) % n
	deg := p.Threshold - 1
	defer d.compare()
	if n > 1 {
		d.refuse(g, "evaluation misaddressed", func(p *puredkg.PureDKG) error {
			return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: other, Receiver: other, Eval: big.NewInt(1)})
		})
	}
	d.refuse(g, "evaluation repeated", func(p *puredkg.PureDKG) error {
		return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: me, Receiver: me, Eval: big.NewInt(1)})
	})
	for _, v := range []*big.Int{big.NewInt(-1), order, new(big.Int).Lsh(order, 3)} {
		v := v
		d.refuse(g, "evaluation out of range", func(p *puredkg.PureDKG) error {
			return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: other, Receiver: me, Eval: v})
		})
		d.refuse(g, "apology out of range", func(p *puredkg.PureDKG) error {
			return p.HandleApologyMsg(puredkg.ApologyMsg{Eon: dkgEon, Accuser: me, Accused: other, Eval: v})
		})
	}
	for _, eon := range []uint64{dkgEon - 1, dkgEon + 1, 0} {
		eon := eon
		d.refuse(g, "commitment of another eon", func(p *puredkg.PureDKG) error {
			return p.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: eon, Sender: other, Gammas: shcrypto.ZeroGammas(deg)})
		})
		d.refuse(g, "evaluation of another eon", func(p *puredkg.PureDKG) error {
			return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: eon, Sender: other, Receiver: me, Eval: big.NewInt(1)})
		})
		d.refuse(g, "accusation of another eon", func(p *puredkg.PureDKG) error {
			return p.HandleAccusationMsg(puredkg.AccusationMsg{Eon: eon, Accuser: me, Accused: other})
		})
		d.refuse(g, "apology of another eon", func(p *puredkg.PureDKG) error {
			return p.HandleApologyMsg(puredkg.ApologyMsg{Eon: eon, Accuser: me, Accused: other, Eval: big.NewInt(1)})
		})
	}
	if p.Phase > puredkg.Dealing {
		for x := uint64(0); x < n; x++ {
			x := x
			d.refuse(g, "commitment too late", func(p *puredkg.PureDKG) error {
				return p.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: dkgEon, Sender: x, Gammas: d.tp.comms[x].Gammas})
			})
			d.refuse(g, "evaluation too late", func(p *puredkg.PureDKG) error {
				return p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: dkgEon, Sender: x, Receiver: me, Eval: d.tp.eval(int(x), g)})
			})
		}
	}
	if p.Phase > puredkg.Accusing {
		for x := uint64(0); x < n; x++ {
			for y := uint64(0); y < n; y++ {
				x, y := x, y
				d.refuse(g, "accusation too late", func(p *puredkg.PureDKG) error {
					return p.HandleAccusationMsg(puredkg.AccusationMsg{Eon: dkgEon, Accuser: x, Accused: y})
				})
			}
		}
	}
	if p.Phase > puredkg.Apologizing {
		for x := uint64(0); x < n; x++ {
			for y := uint64(0); y < n; y++ {
				x, y := x, y
				d.refuse(g, "apology too late", func(p *puredkg.PureDKG) error {
					return p.HandleApologyMsg(puredkg.ApologyMsg{Eon: dkgEon, Accuser: x, Accused: y, Eval: d.tp.eval(int(y), int(x))})
				})
			}
		}
	}
}

func short(v *big.Int) string {
	if v == nil {
		return "none"
	}
	s := v.String()
	if len(s) > 6 {
		s = s[:6]
	}
	return s
}

// TestC12 enumerates everything misbehaving dealers can do in small groups.
func TestC12(t *testing.T) {
	r := verifkit.Start("puredkg")
	defer r.Finish()
	r.Assume("messages name keypers of the group as senders, and honest keypers' messages are published in time")
	scs := []dkgScenario{
		{n: 1, t: 1, nEval: 1, nComm: 2},
		{n: 2, t: 1, bad: []int{1}, nEval: 4, nComm: 5, self: true, unsolic: true},
		{n: 2, t: 2, bad: []int{0}, nEval: 4, nComm: 5, self: true, unsolic: true},
		{n: 3, t: 2, bad: []int{2}, nEval: 3, nComm: 5, nAcc: 1, unsolic: true},
		{n: 3, t: 2, bad: []int{0}, nEval: 3, nComm: 3, fixed: true, self: true},
		{n: 3, t: 3, bad: []int{0}, nEval: 3, nComm: 3},
		{n: 3, t: 1, bad: []int{1}, nEval: 3, nComm: 3, nAcc: 1},
		{n: 4, t: 3, bad: []int{1}, nEval: 2, nComm: 3, nAcc: 1, fixed: true},
		{n: 4, t: 2, bad: []int{3, 0}, nEval: 2, nEval2: 1, nComm: 2, nAcc: 1, fixed: true},
	}
	if r.Thorough() {
		scs = append(scs,
			dkgScenario{n: 3, t: 2, bad: []int{2}, nEval: 4, nComm: 5, self: true, unsolic: true},
			dkgScenario{n: 4, t: 2, bad: []int{1, 2}, nEval: 3, nComm: 3, nAcc: 1, fixed: true},
			dkgScenario{n: 4, t: 3, bad: []int{1}, nEval: 3, nComm: 3, nAcc: 2},
			dkgScenario{n: 5, t: 3, bad: []int{0, 4}, nEval: 2, nComm: 2, nAcc: 1, fixed: true},
			dkgScenario{n: 4, t: 2, bad: []int{0}, nEval: 3, nComm: 5, self: true, unsolic: true})
	}
	for _, s := range scs {
		s := s
		tp := s.template()
		seen := &sync.Map{}
		var mu sync.Mutex
		count := 0
		st := r.Explore(verifkit.Options{Name: "puredkg " + s.name(), Bound: -1}, func(c *verifkit.Chooser) {
			mu.Lock()
			count++
			j := count
			mu.Unlock()
			d := &dkgRun{r: r, s: s, tp: tp, c: c, seen: seen, junk: j}
			d.run()
			r.Distinct("states", verifkit.Hash(s.name()+strings.Join(d.log, ",")))
			r.Count("transitions", int64(len(d.log)+1))
			if j == 7 {
				r.Sample(s.name() + ": " + strings.Join(d.log, ", "))
			}
		})
		r.Count("traces", st.Executions)
		r.Rule(fmt.Sprintf("%s: %d executions of all honest keypers, complete: %v", s.name(), st.Executions, st.Complete))
	}
}
