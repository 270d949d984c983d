package verifapp

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// The reference model: what the application should do, written from the properties.

// MConfig is an accepted batch config.
type MConfig struct {
	Index, Start, Threshold uint64
	Keypers                 []common.Address
	Contract                common.Address
	Started, InForce        bool
}

func (c *MConfig) has(a common.Address) bool {
	for _, k := range c.Keypers {
		if k == a {
			return true
		}
	}
	return false
}

// MEon is a started key generation.
type MEon struct {
	Config      *MConfig
	Evals       map[string]bool
	Commitments map[common.Address]bool
	Accusations map[common.Address]bool
	Apologies   map[common.Address]bool
}

// Model is the state of the reference model.
type Model struct {
	DevMode    bool
	Configs    []*MConfig
	Votes      map[common.Address]string
	StartVotes map[common.Address]bool
	EonVotes   map[uint64]map[common.Address]uint64 // by config index
	Eons       []*MEon                              // eon number minus one
	Sigs       map[uint64]map[common.Address]bool
	Ident      map[common.Address]string
	Genesis    map[string]int64
	Vals       map[string]int64 // genesis validators with all returned updates applied
}

// NewModel makes the model of a fresh chain.
func NewModel(g *Genesis) *Model {
	m := &Model{
		DevMode: g.DevMode, Votes: map[common.Address]string{}, StartVotes: map[common.Address]bool{},
		EonVotes: map[uint64]map[common.Address]uint64{}, Sigs: map[uint64]map[common.Address]bool{},
		Ident: map[common.Address]string{}, Genesis: map[string]int64{}, Vals: map[string]int64{},
	}
	m.Configs = []*MConfig{{Threshold: uint64(g.Threshold), Keypers: Addrs(g.Keypers...)}}
	for _, v := range g.Validators {
		m.Genesis[string(v.PubKey.GetEd25519())] += v.Power
		m.Vals[string(v.PubKey.GetEd25519())] += v.Power
	}
	return m
}

// Copy copies the model.
func (m *Model) Copy() *Model { return verifkit.DeepCopy(m).(*Model) }

func (m *Model) last() *MConfig { return m.Configs[len(m.Configs)-1] }

// responsible returns the config for a batch.
func (m *Model) responsible(batch uint64) *MConfig {
	for i := len(m.Configs) - 1; i >= 0; i-- {
		if m.Configs[i].Start <= batch {
			return m.Configs[i]
		}
	}
	panic("no config")
}

func (m *Model) anyKeyper(a common.Address) bool {
	for _, c := range m.Configs {
		if c.has(a) {
			return true
		}
	}
	return false
}

// Want is the expected outcome of a transaction.
type Want struct {
	OK     bool
	Events []shutterevents.IEvent
}

func addrs(bs [][]byte) (r []common.Address, ok bool) {
	seen := map[string]bool{}
	for _, b := range bs {
		if len(b) != 20 || seen[string(b)] {
			return nil, false
		}
		seen[string(b)] = true
		r = append(r, common.BytesToAddress(b))
	}
	return r, true
}

func sameAddrs(a, b []common.Address) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Deliver computes the expected result of an executed transaction.
func (m *Model) Deliver(sender common.Address, msg *shmsg.Message) Want {
	switch p := msg.GetPayload().(type) {
	case *shmsg.Message_BatchConfig:
		return m.configVote(sender, p.BatchConfig)
	case *shmsg.Message_BatchConfigStarted:
		return m.started(sender, p.BatchConfigStarted)
	case *shmsg.Message_CheckIn:
		return m.checkIn(sender, p.CheckIn)
	case *shmsg.Message_EonStartVote:
		return m.eonVote(sender, p.EonStartVote)
	case *shmsg.Message_DecryptionSignature:
		return m.decSig(sender, p.DecryptionSignature)
	case *shmsg.Message_PolyEval:
		return m.polyEval(sender, p.PolyEval)
	case *shmsg.Message_PolyCommitment:
		return m.polyCommitment(sender, p.PolyCommitment)
	case *shmsg.Message_Accusation:
		return m.accusation(sender, p.Accusation)
	case *shmsg.Message_Apology:
		return m.apology(sender, p.Apology)
	case *shmsg.Message_EpochSecretKeyShare:
		return m.keyShare(sender, p.EpochSecretKeyShare)
	}
	return Want{}
}

func (m *Model) configVote(sender common.Address, p *shmsg.BatchConfig) Want {
	ks, ok := addrs(p.Keypers)
	if !ok || len(p.ConfigContractAddress) != 20 {
		return Want{}
	}
	last := m.last()
	if len(m.Configs) > 1 && p.ConfigIndex == last.Index && p.StartBatchIndex == last.Start && p.Threshold == last.Threshold &&
		sameAddrs(ks, last.Keypers) && bytes.Equal(p.ConfigContractAddress, last.Contract[:]) && p.Started == last.Started &&
		p.ValidatorsUpdated == last.InForce {
		return Want{OK: true} // already accepted
	}
	if len(ks) == 0 || p.Threshold == 0 || p.Threshold > uint64(len(ks)) || p.StartBatchIndex < last.Start || p.ConfigIndex <= last.Index {
		return Want{}
	}
	if !last.has(sender) {
		return Want{}
	}
	if _, voted := m.Votes[sender]; voted {
		return Want{}
	}
	key := fmt.Sprintf("%d/%d/%d/%x/%x/%t/%t", p.ConfigIndex, p.StartBatchIndex, p.Threshold, p.Keypers, p.ConfigContractAddress, p.Started, p.ValidatorsUpdated)
	m.Votes[sender] = key
	n := uint64(0)
	for _, v := range m.Votes {
		if v == key {
			n++
		}
	}
	if n < last.Threshold {
		return Want{OK: true}
	}
	c := &MConfig{
		Index: p.ConfigIndex, Start: p.StartBatchIndex, Threshold: p.Threshold, Keypers: ks,
		Contract: common.BytesToAddress(p.ConfigContractAddress), Started: p.Started, InForce: p.ValidatorsUpdated,
	}
	m.Configs = append(m.Configs, c)
	m.Votes = map[common.Address]string{}
	m.StartVotes = map[common.Address]bool{} // reports are for one config only
	w := Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.BatchConfig{
		Keypers: ks, StartBatchIndex: c.Start, Threshold: c.Threshold, ConfigIndex: c.Index,
	}}}
	if len(m.Eons) == 0 || m.Eons[len(m.Eons)-1].Config.Threshold != c.Threshold || !sameAddrs(m.Eons[len(m.Eons)-1].Config.Keypers, ks) {
		w.Events = append(w.Events, m.startEon(c, c.Start))
	}
	return w
}

func (m *Model) startEon(c *MConfig, batch uint64) shutterevents.IEvent {
	m.Eons = append(m.Eons, &MEon{
		Config: c, Evals: map[string]bool{}, Commitments: map[common.Address]bool{},
		Accusations: map[common.Address]bool{}, Apologies: map[common.Address]bool{},
	})
	return &shutterevents.EonStarted{Eon: uint64(len(m.Eons)), BatchIndex: batch}
}

func (m *Model) started(sender common.Address, p *shmsg.BatchConfigStarted) Want {
	if len(m.Configs) < 2 || p.BatchConfigIndex != m.last().Index || !m.Configs[len(m.Configs)-2].has(sender) {
		return Want{}
	}
	if !m.last().Started {
		m.StartVotes[sender] = true
	}
	return Want{OK: true}
}

func (m *Model) checkIn(sender common.Address, p *shmsg.CheckIn) Want {
	if _, ok := m.Ident[sender]; ok || !m.anyKeyper(sender) || len(p.ValidatorPublicKey) != 32 {
		return Want{}
	}
	pub, err := crypto.DecompressPubkey(p.EncryptionPublicKey)
	if err != nil {
		return Want{}
	}
	m.Ident[sender] = string(p.ValidatorPublicKey)
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.CheckIn{Sender: sender, EncryptionPublicKey: eciesPub(pub)}}}
}

func (m *Model) eonVote(sender common.Address, p *shmsg.EonStartVote) Want {
	c := m.responsible(p.StartBatchIndex)
	if !c.has(sender) {
		return Want{}
	}
	v := m.EonVotes[c.Index]
	if v == nil {
		v = map[common.Address]uint64{}
		m.EonVotes[c.Index] = v
	}
	v[sender] = p.StartBatchIndex
	n := uint64(0)
	for _, b := range v {
		if b == p.StartBatchIndex {
			n++
		}
	}
	if n < c.Threshold {
		return Want{OK: true}
	}
	delete(m.EonVotes, c.Index)
	return Want{OK: true, Events: []shutterevents.IEvent{m.startEon(c, p.StartBatchIndex)}}
}

func (m *Model) decSig(sender common.Address, p *shmsg.DecryptionSignature) Want {
	if !m.responsible(p.BatchIndex).has(sender) || m.Sigs[p.BatchIndex][sender] {
		return Want{}
	}
	if m.Sigs[p.BatchIndex] == nil {
		m.Sigs[p.BatchIndex] = map[common.Address]bool{}
	}
	m.Sigs[p.BatchIndex][sender] = true
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.DecryptionSignature{BatchIndex: p.BatchIndex, Sender: sender, Signature: p.Signature}}}
}

func (m *Model) eon(n uint64) *MEon {
	if n == 0 || n > uint64(len(m.Eons)) {
		return nil
	}
	return m.Eons[n-1]
}

// entitled tells whether sender may address all of to in eon e.
func (e *MEon) entitled(sender common.Address, to []common.Address) bool {
	if e == nil || !e.Config.has(sender) {
		return false
	}
	for _, t := range to {
		if t == sender || !e.Config.has(t) {
			return false
		}
	}
	return true
}

func (m *Model) polyEval(sender common.Address, p *shmsg.PolyEval) Want {
	to, ok := addrs(p.Receivers)
	e := m.eon(p.Eon)
	if !ok || len(p.Receivers) != len(p.EncryptedEvals) || !e.entitled(sender, to) {
		return Want{}
	}
	for _, t := range to {
		if e.Evals[sender.Hex()+t.Hex()] {
			return Want{}
		}
	}
	for _, t := range to {
		e.Evals[sender.Hex()+t.Hex()] = true
	}
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.PolyEval{Sender: sender, Eon: p.Eon, Receivers: to, EncryptedEvals: p.EncryptedEvals}}}
}

func (m *Model) polyCommitment(sender common.Address, p *shmsg.PolyCommitment) Want {
	var gs shcrypto.Gammas
	for _, b := range p.Gammas {
		g := new(bn256.G2)
		if _, err := g.Unmarshal(b); err != nil {
			return Want{}
		}
		gs = append(gs, g)
	}
	e := m.eon(p.Eon)
	if !e.entitled(sender, nil) || e.Commitments[sender] {
		return Want{}
	}
	e.Commitments[sender] = true
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.PolyCommitment{Sender: sender, Eon: p.Eon, Gammas: &gs}}}
}

func (m *Model) accusation(sender common.Address, p *shmsg.Accusation) Want {
	to, ok := addrs(p.Accused)
	e := m.eon(p.Eon)
	if !ok || !e.entitled(sender, to) || e.Accusations[sender] {
		return Want{}
	}
	e.Accusations[sender] = true
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.Accusation{Sender: sender, Eon: p.Eon, Accused: to}}}
}

func (m *Model) apology(sender common.Address, p *shmsg.Apology) Want {
	to, ok := addrs(p.Accusers)
	e := m.eon(p.Eon)
	if !ok || len(p.Accusers) != len(p.PolyEvals) || !e.entitled(sender, to) || e.Apologies[sender] {
		return Want{}
	}
	e.Apologies[sender] = true
	var evals []*big.Int
	for _, b := range p.PolyEvals {
		evals = append(evals, new(big.Int).SetBytes(b))
	}
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.Apology{Sender: sender, Eon: p.Eon, Accusers: to, PolyEval: evals}}}
}

func (m *Model) keyShare(sender common.Address, p *shmsg.EpochSecretKeyShare) Want {
	g := new(bn256.G1)
	if _, err := g.Unmarshal(p.Share); err != nil {
		return Want{}
	}
	s := shcrypto.EpochSecretKeyShare(*g)
	return Want{OK: true, Events: []shutterevents.IEvent{&shutterevents.EpochSecretKeyShare{Sender: sender, Eon: p.Eon, Epoch: p.Epoch, Share: &s}}}
}

// EndBlock computes what should happen at the end of a block.
func (m *Model) EndBlock() {
	last := m.last()
	if len(m.Configs) >= 2 && uint64(len(m.StartVotes)) >= m.Configs[len(m.Configs)-2].Threshold {
		last.Started = true
		m.StartVotes = map[common.Address]bool{}
	}
	n := uint64(0)
	for _, k := range last.Keypers {
		if _, ok := m.Ident[k]; ok {
			n++
		}
	}
	if last.Started && n >= last.Threshold {
		last.InForce = true
	}
}

// Intended returns the validator set that should be in force after EndBlock.
func (m *Model) Intended() map[string]int64 {
	if m.DevMode {
		return m.Genesis
	}
	for i := len(m.Configs) - 1; i >= 0; i-- {
		if c := m.Configs[i]; c.Started && c.InForce {
			r := map[string]int64{}
			for _, k := range c.Keypers {
				id, ok := m.Ident[k]
				if !ok {
					id = "novalidator" + string(make([]byte, 21))
				}
				r[id] += 10
			}
			return r
		}
	}
	return m.Genesis
}

// ApplyUpdates applies validator updates as tendermint does and reports what is wrong with them.
func (m *Model) ApplyUpdates(ups []abcitypes.ValidatorUpdate) string {
	seen := map[string]bool{}
	for _, u := range ups {
		k := string(u.PubKey.GetEd25519())
		if len(k) != 32 {
			return "validator key of wrong length"
		}
		if seen[k] {
			return "validator key listed twice"
		}
		seen[k] = true
		switch {
		case u.Power < 0:
			return "negative power"
		case u.Power == 0:
			if _, ok := m.Vals[k]; !ok {
				return "removes an unknown validator"
			}
			delete(m.Vals, k)
		default:
			if m.Vals[k] == u.Power {
				return "repeats an unchanged power"
			}
			m.Vals[k] = u.Power
		}
	}
	want := m.Intended()
	if len(want) != len(m.Vals) {
		return fmt.Sprintf("validator set is %s, should be %s", valString(m.Vals), valString(want))
	}
	for k, p := range want {
		if m.Vals[k] != p {
			return fmt.Sprintf("validator set is %s, should be %s", valString(m.Vals), valString(want))
		}
	}
	return ""
}

func valString(v map[string]int64) string {
	var s []string
	for k, p := range v {
		s = append(s, fmt.Sprintf("%x:%d", k[:4], p))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}
