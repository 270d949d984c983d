package verifdecide

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// execEvent is a share or a signature on the Shuttermint chain.
type execEvent struct {
	batch  uint64
	share  bool
	sender int    // account number
	kind   string // of signature
}

func (e execEvent) String() string {
	if e.share {
		return fmt.Sprintf("key of batch %d", e.batch)
	}
	return fmt.Sprintf("%s signature of %d for batch %d", e.kind, e.sender, e.batch)
}

// execScenario is a chain with batches to be decrypted and executed.
type execScenario struct {
	name       string
	me         int
	staggering uint64
	cfgs       []mainCfg
	eons       []eonOf // dealt before the scenario starts
	txs        []batchTx
	plain      map[uint64][][]byte // plaintexts of the cipher transactions in order, decryptable ones only
	script     []execEvent         // in this order
	zoo        []execEvent         // or any of these
	maxZoo     int
	perStep    int
	from       uint64 // first main chain block seen
	horizon    uint64
	steps      int
	jumps      []uint64
	receipts   []string // how others may execute cipher half steps: right, wrong, other; skips are always possible after the timeout
	accuse     bool     // others may accuse and appeal
	progress   int      // how many half steps may be executed per step
	ownDelay   bool     // the keyper's own signatures may take longer to be included
	deviations int      // kinds of deviation
	fewer      int      // how many deviations fewer than elsewhere
}

type eonOf struct {
	d     *dealing
	batch uint64
}

// batchRef is what the result of a batch has to be.
type batchRef struct {
	cfg        int
	start, end uint64
	txs        [][]byte
	cipherHash common.Hash
	result     common.Hash
	auth       []byte
	empty      bool
	plainTxs   [][]byte
}

func (s *execScenario) eonFor(k uint64) eonOf {
	var e eonOf
	for _, x := range s.eons {
		if x.batch <= k {
			e = x
		}
	}
	return e
}

func (s *execScenario) prepare() map[uint64]*batchRef {
	refs := map[uint64]*batchRef{}
	batcher := keyperConfig(0, 0, 0).BatcherContractAddress
	for k, w := range windows(s.cfgs, s.horizon+40) {
		b := &batchRef{cfg: w.cfg, start: w.start, end: w.end}
		var cipher [][]byte
		for _, t := range s.txs {
			if t.batch == k && t.cipher {
				cipher = append(cipher, t.data)
			}
			if t.batch == k && !t.cipher {
				b.plainTxs = append(b.plainTxs, t.data)
			}
			if t.batch == k && (t.block < w.start || t.block >= w.end) {
				panic("transaction outside its batch")
			}
		}
		b.empty = len(cipher) == 0
		b.cipherHash = rollingHash(cipher)
		if e := s.eonFor(k); e.d != nil {
			b.txs = shcrypto.Shuffle(append([][]byte(nil), s.plain[k]...), e.d.ckey(k))
		}
		b.result = rollingHash(b.txs)
		b.auth = authHash(batcher, k, b.cipherHash, b.result)
		refs[k] = b
	}
	return refs
}

// execState is one keyper in such a chain, with the reference's knowledge.
type execState struct {
	*world
	s         *execScenario
	refs      map[uint64]*batchRef
	pos       int
	taken     int
	events    []eventAt
	own       []eventMaker
	ownAt     []execEvent
	decrypted map[uint64]bool
	lost      map[int]bool    // events that were dropped before the batch was decrypted, because it was executed already
	pending   int64           // highest half step of an own attempt, -1: none
	checked   uint64          // half steps seen as executed
	unchecked map[uint64]bool // of these, those whose batch was not decrypted
	appeals   map[uint64]bool
	signed    map[uint64]int
	nsteps    int
}

type eventAt struct {
	execEvent
	height int64
}

func (s *execScenario) init(refs map[uint64]*batchRef) *execState {
	w := newWorld(s.me, s.staggering, 10, &mainChain{cfgs: s.cfgs, txs: s.txs, receipts: map[uint64]*contract.CipherExecutionReceipt{}, accused: map[uint64]*observe.Accusation{}})
	w.st.LastEonStarted = ^uint64(0)
	w.block = s.from
	var evs []eventMaker
	for i, c := range s.cfgs {
		if len(c.keypers) > 0 {
			evs = append(evs, evConfig(uint64(i), c.start, c.threshold, c.keypers))
		}
	}
	w.addBlock(evs...)
	for _, e := range s.eons {
		w.addBlock(evEon(e.d.eon, e.batch))
		var kp []int
		for _, c := range s.cfgs {
			if c.start <= e.batch && len(c.keypers) > 0 {
				kp = c.keypers
			}
		}
		for _, k := range kp {
			if k == s.me {
				w.holdKey(e.d, kp)
			}
		}
	}
	return &execState{world: w, s: s, refs: refs, decrypted: map[uint64]bool{}, lost: map[int]bool{}, pending: -1, appeals: map[uint64]bool{}, unchecked: map[uint64]bool{}, signed: map[uint64]int{}}
}

func (x *execState) Clone() verifkit.State {
	c := *x
	c.world = x.world.clone()
	c.events = append([]eventAt(nil), x.events...)
	c.own = append([]eventMaker(nil), x.own...)
	c.ownAt = append([]execEvent(nil), x.ownAt...)
	c.decrypted, c.appeals, c.unchecked = copyBools(x.decrypted), copyBools(x.appeals), copyBools(x.unchecked)
	c.lost = map[int]bool{}
	for k, v := range x.lost {
		c.lost[k] = v
	}
	c.signed = map[uint64]int{}
	for k, v := range x.signed {
		c.signed[k] = v
	}
	return &c
}

func (x *execState) Hash() uint64 {
	ev := ""
	for _, e := range x.events {
		ev += fmt.Sprint(e.String(), e.height, ";")
	}
	n := 0
	if x.s.steps > 0 {
		n = x.nsteps
	}
	return x.hash(x.pos, x.taken, ev, fmt.Sprint(x.ownAt), x.decrypted, x.lost, x.pending, x.checked, x.unchecked, x.appeals, x.signed, n)
}

// event makes the Shuttermint event.
func (x *execState) event(e execEvent) eventMaker {
	if e.share {
		d := x.s.eonFor(e.batch).d
		p := 0
		for i, k := range x.s.cfgs[x.refs[e.batch].cfg].keypers {
			if k == e.sender {
				p = i
			}
		}
		return evShare(d.eon, e.batch, e.sender, d.cshare(p, e.batch))
	}
	return evSig(e.batch, e.sender, x.signature(e))
}

func (x *execState) signature(e execEvent) []byte {
	ref := x.refs[e.batch]
	good := signHash(e.sender, ref.auth)
	batcher := x.cfg.BatcherContractAddress
	switch e.kind {
	case "valid":
		return good
	case "high-s":
		return malleate(good)
	case "v+27":
		good[64] += 27
		return good
	case "v+2":
		good[64] += 2
		return good
	case "long":
		return append(good, 0)
	case "short":
		return good[:64]
	case "empty":
		return nil
	case "zero":
		return make([]byte, 65)
	case "other-result":
		return signHash(e.sender, authHash(batcher, e.batch, ref.cipherHash, common.Hash{1}))
	case "other-batch":
		return signHash(e.sender, authHash(batcher, e.batch+1, ref.cipherHash, ref.result))
	case "other-batcher":
		return signHash(e.sender, authHash(common.Address{9}, e.batch, ref.cipherHash, ref.result))
	case "no-prefix":
		return signHash(e.sender, crypto.Keccak256(batcher.Bytes(), epochBytes(e.batch), ref.cipherHash[:], ref.result[:]))
	case "copied": // somebody else's valid signature
		for _, k := range x.s.cfgs[ref.cfg].keypers {
			if k != e.sender {
				return signHash(k, ref.auth)
			}
		}
	}
	panic(e.kind)
}

// counted is the number of distinct keypers with a valid signature that the keyper may, and must,
// have counted.
func (x *execState) counted(k uint64) (may, must int) {
	ref := x.refs[k]
	mayS, mustS := map[int]bool{}, map[int]bool{}
	for i, e := range x.events {
		if e.share || e.batch != k || e.kind != "valid" {
			continue
		}
		if _, ok := x.s.cfgs[ref.cfg].has(e.sender); !ok {
			continue
		}
		mayS[e.sender] = true
		if !x.lost[i] {
			mustS[e.sender] = true
		}
	}
	return len(mayS), len(mustS)
}

func (x *execState) fail(r *verifkit.Run, c *verifkit.Chooser, key, f string, args ...interface{}) bool {
	rep := c.Replay(r.Job + ":" + x.s.name)
	rep["steps"] = x.log
	r.Violation(key+":"+x.s.name, x.s.name+": "+fmt.Sprintf(f, args...), rep)
	return false
}

func (x *execState) cfgOf(k uint64) mainCfg { return x.s.cfgs[x.refs[k].cfg] }

// execute lets others, or the keyper's own transaction, execute the next half step, if the contract
// would let them; how is one of the scenario's receipts.
func (x *execState) execute(c *verifkit.Chooser) bool {
	h := x.main.half
	ref := x.refs[h/2]
	if ref == nil || x.block < ref.end {
		return false
	}
	if h%2 == 1 && len(x.cfgOf(h/2).keypers) == 0 {
		return false
	}
	if h%2 == 1 {
		x.main.half++
		x.note("plain half step %d executed", h)
		return true
	}
	cfg := x.cfgOf(h / 2)
	if x.block >= ref.end+cfg.timeout {
		x.main.half++
		x.note("half step %d skipped", h)
		return true
	}
	if len(cfg.keypers) == 0 {
		return false
	}
	how := x.s.receipts
	if ref.empty && len(how) > 1 {
		how = append(how[:len(how):len(how)], "skipped")
	}
	kind := how[c.Choose(len(how), "execution")]
	x.main.half++
	x.note("half step %d executed: %s", h, kind)
	if kind == "skipped" {
		return true
	}
	rc := &contract.CipherExecutionReceipt{Executed: true, Executor: kaddr(cfg.keypers[0]), HalfStep: h, CipherBatchHash: ref.cipherHash}
	switch kind {
	case "right":
		rc.BatchHash = ref.result
	case "wrong":
		rc.BatchHash = common.HexToHash("0xbad")
	case "order":
		l := append([][]byte(nil), ref.txs...)
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		rc.BatchHash = rollingHash(l)
	case "nothing":
		rc.BatchHash = common.Hash{}
	}
	x.main.receipts[h] = rc
	return true
}

func (x *execState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	s := x.s
	x.nsteps++
	first := x.mview == nil
	news := first
	if x.block < s.horizon && !first {
		adv := s.jumps[c.Choose(len(s.jumps), "main blocks")]
		x.block += adv
		news = news || adv > 0
	}
	// the main chain
	for i := 0; i < s.progress; i++ {
		if ref := x.refs[x.main.half/2]; ref == nil || x.block < ref.end || !c.Bool("half step executed") || !x.execute(c) {
			break
		}
		news = true
	}
	if s.accuse {
		for _, h := range sortedReceipts(x.main) {
			a := x.main.accused[h]
			if a == nil {
				if c.Bool("accused") {
					x.main.accused[h] = &observe.Accusation{HalfStep: h, Accuser: kaddr(x.cfgOf(h / 2).keypers[1]), Executor: x.main.receipts[h].Executor, BlockNumber: x.block}
					x.note("half step %d accused", h)
					news = true
				}
			} else if !a.Appealed && x.main.receipts[h].BatchHash == x.refs[h/2].result {
				if c.Bool("appealed") {
					a.Appealed = true
					x.note("half step %d appealed", h)
					news = true
				}
			}
		}
	}
	// the Shuttermint chain: own messages first
	if len(x.own) > 0 && !(s.ownDelay && c.Bool("own message later")) {
		for i, e := range x.own {
			x.events = append(x.events, eventAt{x.ownAt[i], x.addBlock(e)})
		}
		x.own, x.ownAt = nil, nil
		news = true
	}
	if len(s.script) > 0 {
		n := len(s.script) - x.pos
		if n > s.perStep {
			n = s.perStep
		}
		for n = c.Choose(n+1, "shuttermint events"); n > 0; n-- {
			e := s.script[x.pos]
			x.pos++
			x.note("shuttermint: %s", e)
			x.events = append(x.events, eventAt{e, x.addBlock(x.event(e))})
			news = true
		}
	}
	for i := 0; len(s.zoo) > 0 && i < s.perStep && x.taken < s.maxZoo; i++ {
		e := c.Choose(len(s.zoo)+1, "shuttermint event")
		if e == 0 {
			break
		}
		x.taken++
		x.note("shuttermint: %s", s.zoo[e-1])
		x.events = append(x.events, eventAt{s.zoo[e-1], x.addBlock(x.event(s.zoo[e-1]))})
		news = true
	}
	if !news && x.block < s.horizon {
		return false
	}
	dev := 0
	if s.deviations > 0 {
		dev = c.Deviate(s.deviations+1, "deviation") // 1 restart, 2 late filter, 3 main chain out of sync, 4 main chain view not updated, 5 shuttermint view not updated
	}
	if dev != 5 || x.view == nil {
		if dev == 2 {
			x.syncShutter()
			x.applyFilters()
		} else {
			x.applyFilters()
			x.syncShutter()
		}
	}
	if dev != 4 || x.mview == nil {
		x.syncMain(dev != 3)
	}
	idle := !x.mview.IsSynced()
	actions := x.decide()
	x.note("main block %d, next half step %d, deviation %d: %d actions", x.mview.CurrentBlock, x.mview.NumExecutionHalfSteps, dev, len(actions))
	r.Count("transitions", 1)
	for _, a := range actions {
		x.note("  %s", describe(a))
	}
	if idle {
		if len(actions) > 0 {
			return x.fail(r, c, "not-synced", "actions while the main chain node is not in sync")
		}
	} else if !x.judge(r, c, actions) {
		return false
	}
	// signatures that came before the keyper decrypted the batch, which was executed already, are dropped
	for i, e := range x.events {
		if !e.share && e.height < x.st.SyncHeight && !x.decrypted[e.batch] && e.batch < x.mview.NumExecutionHalfSteps/2 {
			x.lost[i] = true
		}
	}
	if dev == 1 {
		x.restart()
		x.note("restart")
	}
	if s.steps > 0 && x.nsteps >= s.steps || s.steps == 0 && x.block >= s.horizon && x.pos == len(s.script) && !news {
		r.Count("traces", 1)
		return false
	}
	return true
}

func describe(a fx.IAction) string {
	switch t := a.(type) {
	case *fx.SendShuttermintMessage:
		return "message: " + t.Description
	case *fx.ExecuteCipherBatch:
		return fmt.Sprintf("execute cipher batch %d", t.BatchIndex)
	case *fx.ExecutePlainBatch:
		return fmt.Sprintf("execute plain batch %d", t.BatchIndex)
	case *fx.SkipCipherBatch:
		return fmt.Sprintf("skip cipher batch %d", t.BatchIndex)
	case *fx.Accuse:
		return fmt.Sprintf("accuse %d as %d", t.HalfStep, t.KeyperIndex)
	case *fx.Appeal:
		return fmt.Sprintf("appeal %d with %v", t.Authorization.HalfStep, t.Authorization.SignerIndices)
	}
	return fmt.Sprintf("%T", a)
}

func sortedReceipts(m *mainChain) []uint64 {
	var l []uint64
	for h := range m.receipts {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// judge compares the actions of a step with what they have to be.
func (x *execState) judge(r *verifkit.Run, c *verifkit.Chooser, actions []fx.IAction) bool {
	b, half := x.mview.CurrentBlock, x.mview.NumExecutionHalfSteps
	seen := x.view.CurrentBlock
	// what the keyper must have decrypted by now
	newly := map[uint64]bool{}
	for _, e := range x.events {
		if e.share && e.height <= seen && b >= x.refs[e.batch].end && !x.decrypted[e.batch] {
			x.decrypted[e.batch] = true
			newly[e.batch] = true
		}
	}
	visible := *x
	visible.events = nil
	visible.lost = map[int]bool{}
	for i, e := range x.events {
		if e.height <= seen {
			if x.lost[i] {
				visible.lost[len(visible.events)] = true
			}
			visible.events = append(visible.events, e)
		}
	}
	v := &visible
	var execs []fx.IAction
	var accuses []*fx.Accuse
	var appeals []*fx.Appeal
	for _, a := range actions {
		switch t := a.(type) {
		case *fx.ExecuteCipherBatch, *fx.ExecutePlainBatch, *fx.SkipCipherBatch:
			execs = append(execs, a)
		case *fx.Accuse:
			accuses = append(accuses, t)
		case *fx.Appeal:
			appeals = append(appeals, t)
		case *fx.SendShuttermintMessage:
			if d := t.Msg.GetDecryptionSignature(); d != nil {
				k := d.BatchIndex
				ref := x.refs[k]
				if ref == nil || !x.decrypted[k] {
					return x.fail(r, c, "signature:early", "a decryption signature for batch %d, whose result cannot be known yet (block %d, the batch ends at %d)", k, b, ref.end)
				}
				sig := append([]byte(nil), d.Signature...)
				if len(sig) == 65 {
					sig[64] += 27
				}
				if !slasherAccepts(sig, ref.auth, kaddr(x.me)) {
					return x.fail(r, c, "signature:wrong", "the decryption signature for batch %d is not one for its result", k)
				}
				if ref.empty {
					return x.fail(r, c, "signature:empty", "a decryption signature for the empty batch %d", k)
				}
				if x.signed[k]++; x.signed[k] > 1 {
					return x.fail(r, c, "signature:twice", "a second decryption signature for batch %d", k)
				}
				e := execEvent{batch: k, sender: x.me, kind: "valid"}
				x.own, x.ownAt = append(x.own, evSig(k, x.me, d.Signature)), append(x.ownAt, e)
			}
		}
	}
	// a decrypted batch is signed, unless it is empty, late, or has its signatures already
	for k := range newly {
		ref, cfg := x.refs[k], x.cfgOf(k)
		_, member := cfg.has(x.me)
		_, must := v.counted(k)
		may, _ := v.counted(k)
		if member && !ref.empty && b+1 < ref.end+cfg.timeout && may < int(cfg.threshold) && must < int(cfg.threshold) && x.signed[k] == 0 {
			return x.fail(r, c, "signature:missing", "batch %d is decrypted at block %d (it ended at %d), but no decryption signature is sent", k, b, ref.end)
		}
	}
	if !x.judgeExecs(r, c, v, execs, b, half) || !x.judgeAccuses(r, c, accuses, half) || !x.judgeAppeals(r, c, v, appeals) {
		return false
	}
	return true
}

func (x *execState) judgeExecs(r *verifkit.Run, c *verifkit.Chooser, v *execState, execs []fx.IAction, b, half uint64) bool {
	if x.pending >= 0 && half > uint64(x.pending) {
		x.pending = -1
	}
	if x.pending >= 0 && len(execs) > 0 {
		return x.fail(r, c, "pending", "%s although the own attempt of half step %d is pending (next is %d)", describe(execs[0]), x.pending, half)
	}
	for i, a := range execs {
		h := half + uint64(i)
		k := h / 2
		ref := x.refs[k]
		if ref == nil {
			return x.fail(r, c, "execute:unknown", "%s: batch %d does not exist", describe(a), k)
		}
		cfg := x.cfgOf(k)
		p, member := cfg.has(x.me)
		key := func(what string) string { return "execute:" + what }
		if b < ref.end {
			return x.fail(r, c, key("early"), "%s at block %d, but the batch is open until %d", describe(a), b, ref.end)
		}
		switch t := a.(type) {
		case *fx.ExecuteCipherBatch:
			if h%2 != 0 || t.BatchIndex != k {
				return x.fail(r, c, key("order"), "%s where half step %d is due", describe(a), h)
			}
			if b >= ref.end+cfg.timeout {
				return x.fail(r, c, key("late"), "%s at block %d, after the timeout at %d", describe(a), b, ref.end+cfg.timeout)
			}
			if !x.decrypted[k] {
				return x.fail(r, c, key("unknown-key"), "%s, whose key is not known", describe(a))
			}
			if may, _ := v.counted(k); !ref.empty && may < int(cfg.threshold) {
				return x.fail(r, c, key("unauthorised"), "%s with %d valid signatures of %d", describe(a), may, cfg.threshold)
			}
			if !member || t.KeyperIndex != uint64(p) {
				return x.fail(r, c, key("index"), "%s as keyper %d", describe(a), t.KeyperIndex)
			}
			if !sameTxs(t.Transactions, ref.txs) || t.CipherBatchHash != ref.cipherHash || t.TransactionGasLimit != cfg.contract().TransactionGasLimit {
				return x.fail(r, c, key("contents"), "%s with other contents: %d transactions %x, hash %x, gas limit %d; expected %d transactions %x, hash %x", describe(a), len(t.Transactions), t.Transactions, t.CipherBatchHash, t.TransactionGasLimit, len(ref.txs), ref.txs, ref.cipherHash)
			}
		case *fx.ExecutePlainBatch:
			if h%2 != 1 || t.BatchIndex != k {
				return x.fail(r, c, key("order"), "%s where half step %d is due", describe(a), h)
			}
			if !member {
				return x.fail(r, c, key("index"), "%s by somebody who is not a keyper", describe(a))
			}
			if !sameTxs(t.Transactions, ref.plainTxs) || t.TransactionGasLimit != cfg.contract().TransactionGasLimit {
				return x.fail(r, c, key("contents"), "%s with other contents: %x", describe(a), t.Transactions)
			}
		case *fx.SkipCipherBatch:
			if h%2 != 0 || t.BatchIndex != k {
				return x.fail(r, c, key("order"), "%s where half step %d is due", describe(a), h)
			}
			if b < ref.end+cfg.timeout {
				return x.fail(r, c, key("early-skip"), "%s at block %d, before the timeout at %d", describe(a), b, ref.end+cfg.timeout)
			}
		}
	}
	if len(execs) == 0 && x.pending < 0 {
		k := half / 2
		if ref := x.refs[k]; ref != nil {
			cfg := x.cfgOf(k)
			_, member := cfg.has(x.me)
			slack := cfg.timeout / 2
			if x.s.staggering == 0 {
				slack = 0
			}
			_, must := v.counted(k)
			switch {
			case !member:
			case half%2 == 1:
				if b >= ref.end+slack {
					return x.fail(r, c, "execute:missing-plain", "plain batch %d, ended at %d, is not executed at block %d", k, ref.end, b)
				}
			case b >= ref.end+cfg.timeout:
				if b >= ref.end+cfg.timeout+slack {
					return x.fail(r, c, "execute:missing-skip", "cipher batch %d, timed out at %d, is not skipped at block %d", k, ref.end+cfg.timeout, b)
				}
			case x.decrypted[k] && (ref.empty || must >= int(cfg.threshold)) && b >= ref.end+slack:
				return x.fail(r, c, "execute:missing-cipher", "cipher batch %d, ended at %d, with enough signatures, is not executed at block %d", k, ref.end, b)
			}
		}
	}
	if len(execs) > 0 {
		x.pending = int64(half) + int64(len(execs)) - 1
		r.Distinct("executions", verifkit.Hash(fmt.Sprint(x.s.name, half, len(execs), b)))
	}
	return true
}

func sameTxs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (x *execState) judgeAccuses(r *verifkit.Run, c *verifkit.Chooser, accuses []*fx.Accuse, half uint64) bool {
	want := map[uint64]bool{}
	check := func(h uint64) {
		rc := x.mview.CipherExecutionReceipts[h]
		if rc == nil {
			return
		}
		if !x.decrypted[h/2] {
			if _, member := x.cfgOf(h / 2).has(x.me); member {
				x.unchecked[h] = true
			}
			return
		}
		delete(x.unchecked, h)
		if common.Hash(rc.BatchHash) != x.refs[h/2].result && x.mview.Accusations[h] == nil {
			want[h] = true
		}
	}
	for h := range copyBools(x.unchecked) {
		check(h)
	}
	for h := x.checked; h < half; h++ {
		if h%2 == 0 {
			check(h)
		}
	}
	x.checked = half
	for _, a := range accuses {
		if !want[a.HalfStep] {
			return x.fail(r, c, "accuse:unfounded", "half step %d is accused without need", a.HalfStep)
		}
		delete(want, a.HalfStep)
		p, member := x.cfgOf(a.HalfStep / 2).has(x.me)
		if !member || a.KeyperIndex != uint64(p) {
			return x.fail(r, c, "accuse:index", "half step %d is accused as keyper %d", a.HalfStep, a.KeyperIndex)
		}
		r.Distinct("accusations", verifkit.Hash(fmt.Sprint(x.s.name, a.HalfStep, x.nsteps)))
	}
	for h := range want {
		return x.fail(r, c, "accuse:missing", "half step %d was executed with another result, but is not accused", h)
	}
	return true
}

func (x *execState) judgeAppeals(r *verifkit.Run, c *verifkit.Chooser, v *execState, appeals []*fx.Appeal) bool {
	for h := range x.appeals {
		if a := x.mview.Accusations[h]; a != nil && a.Appealed {
			delete(x.appeals, h)
		}
	}
	may, must := map[uint64]bool{}, map[uint64]bool{}
	for h, a := range x.mview.Accusations {
		k := h / 2
		rc := x.mview.CipherExecutionReceipts[h]
		if a.Appealed || x.appeals[h] || rc == nil || !x.decrypted[k] || common.Hash(rc.BatchHash) != x.refs[k].result {
			continue
		}
		t := int(x.cfgOf(k).threshold)
		n, m := v.counted(k)
		if x.refs[k].empty {
			continue // accusations of empty batches are refused by the contract
		}
		if n >= t {
			may[h] = true
		}
		if m >= t {
			must[h] = true
		}
	}
	for _, a := range appeals {
		h := a.Authorization.HalfStep
		if !may[h] {
			return x.fail(r, c, "appeal:unfounded", "an appeal for half step %d without need or right", h)
		}
		delete(may, h)
		delete(must, h)
		x.appeals[h] = true
		k := h / 2
		cfg := x.cfgOf(k)
		au := a.Authorization
		if common.Hash(au.BatchHash) != x.refs[k].result {
			return x.fail(r, c, "appeal:hash", "the appeal for half step %d has another result", h)
		}
		if len(au.SignerIndices) != len(au.Signatures) || len(au.SignerIndices) < int(cfg.threshold) {
			return x.fail(r, c, "appeal:count", "the appeal for half step %d has %d signers and %d signatures", h, len(au.SignerIndices), len(au.Signatures))
		}
		for i, s := range au.SignerIndices {
			if i > 0 && au.SignerIndices[i-1] >= s {
				return x.fail(r, c, "appeal:order", "the signers of the appeal for half step %d are %v", h, au.SignerIndices)
			}
			if s >= uint64(len(cfg.keypers)) || !slasherAccepts(au.Signatures[i], x.refs[k].auth, kaddr(cfg.keypers[s])) {
				return x.fail(r, c, "appeal:signature", "the slasher contract would refuse signature %d of the appeal for half step %d", i, h)
			}
		}
		r.Distinct("appeals", verifkit.Hash(fmt.Sprint(x.s.name, h, x.nsteps, au.SignerIndices)))
	}
	for h := range must {
		return x.fail(r, c, "appeal:missing", "half step %d was executed rightly and accused, and there are enough signatures, but no appeal", h)
	}
	return true
}

// searchAll explores the scenarios, those with fewer deviations first.
func searchAll(r *verifkit.Run, bound int, ss []*execScenario) {
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].fewer > ss[j].fewer })
	for i, s := range ss {
		s.search(r, bound, len(ss)-i)
	}
}

// search explores a scenario.
func (s *execScenario) search(r *verifkit.Run, bound int, share int) {
	refs := s.prepare()
	if bound -= s.fewer; bound < 0 {
		bound = 0
	}
	st := r.Search(verifkit.Options{Name: r.Job + ":" + s.name, Bound: bound, Deadline: 2 * r.Remaining() / time.Duration(share+1)},
		func() verifkit.State { return s.init(refs) },
		func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*execState).step(r, c) })
	r.Count("schedules", st.Executions)
	r.Count("states", st.States)
	r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "steps": st.Executions, "complete": st.Complete})
}
