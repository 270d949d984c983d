package verifdecide

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

// item is something that happens on the Shuttermint side, in script order.
type item struct {
	kind  string // config, eon, hold, known, block
	index int    // config
	d     *dealing
	batch uint64 // eon: first batch, known: epoch
	by    []int  // known: positions of the senders
}

type shareScenario struct {
	name    string
	me      int
	cfgs    []mainCfg
	script  []item
	horizon uint64
	jumps   []uint64
}

var guard = mainCfg{}

func shareScenarios(thorough bool) []shareScenario {
	d1, d2, d3 := deal(1, 3, 1, 1), deal(2, 3, 1, 2), deal(3, 3, 1, 3) // one share makes a key, to save pairings
	all := []int{0, 1, 2}
	one := mainCfg{start: 0, block: 4, span: 3, timeout: 5, threshold: 2, keypers: all}
	ss := []shareScenario{
		{"one config", 1, []mainCfg{guard, one}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "hold", d: d1}, {kind: "block"},
			{kind: "known", d: d1, batch: 1, by: []int{2}}, {kind: "known", d: d1, batch: 2, by: []int{2}},
		}, 17, []uint64{1, 0, 7, 2}},
		{"restarted eon", 0, []mainCfg{guard, {start: 1, block: 3, span: 2, timeout: 9, threshold: 2, keypers: all}}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1, batch: 1}, {kind: "hold", d: d1}, {kind: "eon", d: d2, batch: 3},
			{kind: "hold", d: d2}, {kind: "eon", d: d3, batch: 3}, {kind: "known", d: d2, batch: 3, by: []int{2}}, {kind: "hold", d: d3},
		}, 15, []uint64{1, 0, 3}},
		{"seamless change of config", 2, []mainCfg{guard,
			{start: 0, block: 3, span: 2, timeout: 3, threshold: 2, keypers: all},
			{start: 3, block: 9, span: 3, timeout: 4, threshold: 2, keypers: []int{2, 3, 4}}}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "hold", d: d1}, {kind: "config", index: 2},
			{kind: "eon", d: d2, batch: 3}, {kind: "hold", d: d2}, {kind: "known", d: d2, batch: 3, by: []int{2}},
		}, 19, []uint64{1, 0, 5, 2}},
		{"leaving keyper", 0, []mainCfg{guard,
			{start: 0, block: 3, span: 2, timeout: 6, threshold: 2, keypers: all},
			{start: 2, block: 7, span: 2, timeout: 6, threshold: 2, keypers: []int{2, 3, 4}}}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "hold", d: d1}, {kind: "config", index: 2}, {kind: "eon", d: d2, batch: 2},
		}, 13, []uint64{1, 0, 4, 2}},
		{"joining keyper", 3, []mainCfg{guard,
			{start: 0, block: 3, span: 2, timeout: 6, threshold: 2, keypers: all},
			{start: 2, block: 7, span: 2, timeout: 6, threshold: 2, keypers: []int{2, 3, 4}}}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "config", index: 2}, {kind: "eon", d: d2, batch: 2}, {kind: "hold", d: d2},
		}, 13, []uint64{1, 0, 4, 2}},
		{"pause between configs", 1, []mainCfg{guard,
			{start: 0, block: 2, span: 2, timeout: 4, threshold: 2, keypers: all},
			{start: 2, block: 6, threshold: 1, keypers: all},
			{start: 2, block: 11, span: 3, timeout: 4, threshold: 2, keypers: all}}, []item{
			{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "hold", d: d1}, {kind: "config", index: 2}, {kind: "config", index: 3},
			{kind: "eon", d: d2, batch: 2}, {kind: "hold", d: d2},
		}, 20, []uint64{1, 0, 6, 2}},
	}
	if !thorough {
		for i := range ss {
			ss[i].jumps = ss[i].jumps[:3]
		}
	} else {
		ss = append(ss,
			shareScenario{"long batches", 1, []mainCfg{guard, {start: 5, block: 4, span: 7, timeout: 11, threshold: 2, keypers: all}}, []item{
				{kind: "config", index: 1}, {kind: "eon", d: d1, batch: 5}, {kind: "hold", d: d1}, {kind: "known", d: d1, batch: 6, by: []int{2}},
				{kind: "eon", d: d2, batch: 6}, {kind: "hold", d: d2},
			}, 34, []uint64{1, 0, 2, 3, 8, 15}},
			shareScenario{"timeout of one block", 1, []mainCfg{guard, {start: 0, block: 2, span: 1, timeout: 2, threshold: 2, keypers: all}}, []item{
				{kind: "config", index: 1}, {kind: "eon", d: d1}, {kind: "hold", d: d1}, {kind: "known", d: d1, batch: 4, by: []int{2}},
			}, 12, []uint64{1, 0, 2, 3}},
		)
	}
	return ss
}

// shutterFacts is what the script says about a prefix of the Shuttermint chain.
type shutterFacts struct {
	configs map[int]bool
	eons    []item
	held    map[uint64]bool
	known   map[uint64]map[uint64]bool // eon, epoch
}

func (f *shutterFacts) clone() *shutterFacts {
	c := &shutterFacts{configs: map[int]bool{}, held: map[uint64]bool{}, known: map[uint64]map[uint64]bool{}, eons: f.eons}
	for k, v := range f.configs {
		c.configs[k] = v
	}
	for k, v := range f.held {
		c.held[k] = v
	}
	for k, v := range f.known {
		c.known[k] = copyBools(v)
	}
	return c
}

func copyBools(m map[uint64]bool) map[uint64]bool {
	c := map[uint64]bool{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (f *shutterFacts) take(it item) {
	switch it.kind {
	case "config":
		f.configs[it.index] = true
	case "eon":
		f.eons = append(f.eons, it)
	case "hold":
		f.held[it.d.eon] = true
	case "known":
		if f.known[it.d.eon] == nil {
			f.known[it.d.eon] = map[uint64]bool{}
		}
		f.known[it.d.eon][it.batch] = true
	}
}

func (f *shutterFacts) responsible(k uint64) *item {
	for i := len(f.eons) - 1; i >= 0; i-- {
		if f.eons[i].batch <= k {
			return &f.eons[i]
		}
	}
	return nil
}

type shareState struct {
	*world
	s         *shareScenario
	win       map[uint64]window
	facts     *shutterFacts
	pos       int
	published map[uint64]int
	settled   map[uint64]bool // batches that ended in an earlier step with a known config
	steps     int
}

func (s *shareScenario) init() verifkit.State {
	w := newWorld(s.me, 0, 10, &mainChain{cfgs: s.cfgs})
	w.st.LastEonStarted = ^uint64(0) // key generation is explored elsewhere
	return &shareState{
		world: w, s: s, win: windows(s.cfgs, s.horizon+30), published: map[uint64]int{}, settled: map[uint64]bool{},
		facts: &shutterFacts{configs: map[int]bool{}, held: map[uint64]bool{}, known: map[uint64]map[uint64]bool{}},
	}
}

func (x *shareState) Clone() verifkit.State {
	c := *x
	c.world, c.facts, c.settled = x.world.clone(), x.facts.clone(), copyBools(x.settled)
	c.published = map[uint64]int{}
	for k, v := range x.published {
		c.published[k] = v
	}
	return &c
}

func (x *shareState) Hash() uint64 { return x.hash(x.pos, x.published, x.settled) }

func (x *shareState) step(r *verifkit.Run, c *verifkit.Chooser) bool {
	s, w, win, facts := x.s, x.world, x.win, x.facts
	fail := func(key, f string, args ...interface{}) bool {
		rep := c.Replay("shares:" + s.name)
		rep["steps"] = w.log
		r.Violation(key+":"+s.name, fmt.Sprintf("%s: ", s.name)+fmt.Sprintf(f, args...), rep)
		return false
	}
	keypersOf := func(k uint64) []int { return s.cfgs[win[k].cfg].keypers }
	first := w.mview == nil
	adv := uint64(0)
	if w.block < s.horizon {
		adv = s.jumps[c.Choose(len(s.jumps), "main blocks")]
	}
	n := 0
	if left := len(s.script) - x.pos; left > 0 {
		max := 2
		if left < max {
			max = left
		}
		n = c.Choose(max+1, "shuttermint events")
	}
	if adv == 0 && n == 0 && !first {
		if w.block >= s.horizon || x.pos >= len(s.script) {
			// one side is done: let the other go on
			if x.pos < len(s.script) {
				n = 1
			} else {
				adv = 1
			}
		} else {
			return false // a step without news
		}
	}
	w.block += adv
	for ; n > 0; n-- {
		it := s.script[x.pos]
		x.pos++
		facts.take(it)
		switch it.kind {
		case "config":
			cf := s.cfgs[it.index]
			w.addBlock(evConfig(uint64(it.index), cf.start, cf.threshold, cf.keypers))
		case "eon":
			w.addBlock(evEon(it.d.eon, it.batch))
		case "block":
			w.addBlock()
		case "known":
			for _, p := range it.by {
				cf := s.cfgs[len(s.cfgs)-1]
				for k := range win {
					if k == it.batch {
						cf = s.cfgs[win[k].cfg]
					}
				}
				w.addBlock(evShare(it.d.eon, it.batch, cf.keypers[p], it.d.cshare(p, it.batch)))
			}
		case "hold":
			// keypers of the eon are those of the config of its first batch
			for _, e := range facts.eons {
				if e.d == it.d {
					w.holdKey(it.d, keypersOf(e.batch))
				}
			}
		}
	}
	dev := c.Deviate(6, "deviation") // 1 restart, 2 late filter, 3 main chain out of sync, 4 shuttermint out of sync, 5 main chain view not updated
	if dev == 2 {
		w.syncShutter()
		w.applyFilters()
	} else {
		w.applyFilters()
		w.syncShutter()
	}
	w.node.CatchingUp = dev == 4
	if dev == 4 {
		w.node.Head++ // so that the view is renewed
		w.syncShutter()
		w.node.CatchingUp = false
	}
	if dev != 5 || w.mview == nil {
		w.syncMain(dev != 3)
	}
	b := w.mview.CurrentBlock
	actions := w.decide()
	w.note("main block %d, shuttermint: %d of the script, deviation %d: %d actions", w.block, x.pos, dev, len(actions))
	idle := dev == 3 || dev == 4 || !w.mview.IsSynced() || !w.view.IsSynced()
	r.Count("transitions", 1)
	now := map[uint64]bool{}
	for _, msg := range messages(actions) {
		sh := msg.GetEpochSecretKeyShare()
		if sh == nil {
			continue
		}
		k := sh.Epoch
		w.note("  publishes its share for batch %d of eon %d", k, sh.Eon)
		r.Distinct("shares", verifkit.Hash(fmt.Sprint(s.name, k, sh.Eon)))
		wi, ok := win[k]
		if !ok || wi.end > b {
			return fail("early", "at main chain block %d the keyper publishes its share for batch %d, which is open until block %d", b, k, wi.end)
		}
		p, member := s.cfgs[wi.cfg].has(s.me)
		if !member {
			return fail("not-member", "the keyper publishes a share for batch %d, which is not its own", k)
		}
		e := facts.responsible(k)
		if e == nil || e.d.eon != sh.Eon {
			return fail("eon", "the share for batch %d is said to be of eon %d", k, sh.Eon)
		}
		if !bytes.Equal(sh.Share, e.d.cshare(p, k).Marshal()) {
			return fail("share", "the share for batch %d of eon %d is not the keyper's share", k, sh.Eon)
		}
		if x.published[k]++; x.published[k] > 1 {
			return fail("twice", "the share for batch %d is published again", k)
		}
		now[k] = true
	}
	if idle {
		if len(actions) > 0 {
			return fail("not-synced", "actions while a node is not in sync")
		}
	} else {
		active := 0
		for i, cf := range s.cfgs {
			if cf.block <= b {
				active = i
			}
		}
		if facts.configs[active] {
			for k, wi := range win {
				if wi.end > b || x.settled[k] {
					continue
				}
				x.settled[k] = true
				if now[k] || x.published[k] > 0 {
					continue
				}
				if _, member := s.cfgs[wi.cfg].has(s.me); !member {
					continue
				}
				e := facts.responsible(k)
				if e == nil || !facts.held[e.d.eon] || b+1 >= wi.end+s.cfgs[wi.cfg].timeout || facts.known[e.d.eon][k] {
					continue
				}
				return fail("missing", "batch %d ended at block %d; at block %d the keyper holds the key of eon %d but does not publish its share", k, wi.end, b, e.d.eon)
			}
		}
	}
	if dev == 1 {
		w.restart()
	}
	if w.block >= s.horizon && x.pos == len(s.script) {
		r.Count("traces", 1)
		return false
	}
	return true
}

// TestC19: shares of epoch secret keys are published for ended batches only, once each.
func TestC19(t *testing.T) {
	r := verifkit.Start("shares")
	defer r.Finish()
	bound := r.Pick(1, 2)
	r.Rule(fmt.Sprintf("all sequences of steps of one keyper over main chain heights (several jump sizes, no progress included) and over the events of the Shuttermint chain (0 to 2 per step), with up to %d restarts, late filters, unsynced nodes or unchanged main chain views, in scenarios with one config, restarted eons, config changes, pauses, joining and leaving keypers", bound))
	ss := shareScenarios(r.Thorough())
	verifapp.K(0)
	for i := range ss {
		s := &ss[i]
		st := r.Search(verifkit.Options{Name: "shares:" + s.name, Bound: bound, Deadline: r.Remaining() / time.Duration(len(ss)-i)}, s.init, func(x verifkit.State, c *verifkit.Chooser) bool { return x.(*shareState).step(r, c) })
		r.Count("schedules", st.Executions)
		r.Count("states", st.States)
		r.Sample(map[string]interface{}{"scenario": s.name, "states": st.States, "steps": st.Executions, "complete": st.Complete})
	}
}
