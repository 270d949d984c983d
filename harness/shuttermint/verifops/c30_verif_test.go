package verifops

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"github.com/shutter-network/shutter/shuttermint/cmd"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/verifevm"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CLI") != "" {
		os.Args = append([]string{"shuttermint"}, os.Args[1:]...)
		cmd.Execute()
	}
	os.Exit(m.Run())
}

func addrs(is ...int) []common.Address {
	var r []common.Address
	for _, i := range is {
		r = append(r, addr(people[i]))
	}
	return r
}

// files are the config files an operator may have.
func configFile(i int, span uint64) contract.BatchConfig {
	c := contract.BatchConfig{
		Keypers: addrs(0, 1, 2), Threshold: 2, BatchSpan: span, BatchSizeLimit: 1001, TransactionSizeLimit: 1002, TransactionGasLimit: 1003,
		FeeReceiver: common.HexToAddress("0xf1"), TargetAddress: common.HexToAddress("0xf2"), TargetFunctionSelector: [4]byte{1, 2, 3, 4}, ExecutionTimeout: 11,
	}
	switch i {
	case 1: // everything is different
		c = contract.BatchConfig{
			Keypers: addrs(3, 4), Threshold: 1, BatchSpan: span + 2, BatchSizeLimit: 2001, TransactionSizeLimit: 2002, TransactionGasLimit: 2003,
			FeeReceiver: common.HexToAddress("0xe1"), TargetAddress: common.HexToAddress("0xe2"), TargetFunctionSelector: [4]byte{4, 3, 2, 0}, ExecutionTimeout: 21,
		}
	case 2: // other keypers, as many
		c.Keypers = addrs(2, 1, 0)
	case 3: // no batches from then on
		c.BatchSpan = 0
		c.Keypers = addrs(0, 1, 2, 3)
	case 4: // a chosen start
		c.StartBlockNumber, c.StartBatchIndex = 300, 0
	case 5: // the same keyper twice
		c.Keypers = addrs(0, 0, 1)
	}
	return c
}

var base = struct {
	chain *verifevm.Chain
	addr  map[uint64]common.Address
}{}

func deployed(headsUp uint64) (*verifevm.Chain, common.Address) {
	all := []common.Address{addr(owner), addr(stranger)}
	c := verifevm.Genesis(all...)
	var a common.Address
	c, ok := send(c, owner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
		x, tx, _, err := contract.DeployConfigContract(o, b, headsUp)
		a = x
		return tx, err
	})
	if !ok {
		panic("cannot deploy")
	}
	return c, a
}

// schedulable says if the owner could schedule the next config in the next block.
func schedulable(c *verifevm.Chain, a common.Address) error {
	n := &verifevm.Node{Chain: c}
	cl := n.Client()
	defer cl.Close()
	cc, err := contract.NewConfigContract(a, cl)
	must(err)
	o := verifevm.Auth(owner)
	_, err = cc.ScheduleNextConfig(o)
	return err
}

type session struct {
	w       *world
	cc      common.Address
	headsUp uint64
	span    uint64
	r       *verifkit.Run
	c       *verifkit.Chooser
	name    string
	story   []string
	bad     bool
}

func (s *session) say(f string, a ...interface{}) { s.story = append(s.story, fmt.Sprintf(f, a...)) }

func (s *session) fail(key, f string, a ...interface{}) {
	if s.bad {
		return
	}
	s.bad = true
	rep := s.c.Replay(s.name)
	rep["story"] = s.story
	s.r.Violation(key, fmt.Sprintf(f, a...)+"\n  "+strings.Join(s.story, "\n  "), rep)
}

func (s *session) contracts() string {
	return s.w.write("contracts.json", map[string]string{
		"ConfigContract": s.cc.Hex(), "KeyBroadcastContract": addr(people[0]).Hex(), "FeeBankContract": addr(people[0]).Hex(), "BatcherContract": addr(people[0]).Hex(),
		"ExecutorContract": addr(people[0]).Hex(), "TokenContract": addr(people[0]).Hex(), "DepositContract": addr(people[0]).Hex(), "KeyperSlasherContract": addr(people[0]).Hex(),
		"TargetProxyContract": addr(people[0]).Hex(), "TargetContract": addr(people[0]).Hex(),
	})
}

func (s *session) look() view { return look(s.w.node.Chain, s.cc) }

func max64(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// checkNext judges the next config after it was set successfully.
func (s *session) checkNext(b, a view, f contract.BatchConfig, head uint64) {
	want := f
	if f.StartBlockNumber == 0 {
		want.StartBlockNumber, want.StartBatchIndex = a.Next.StartBlockNumber, a.Next.StartBatchIndex
	}
	if describe(want) != describe(a.Next) {
		s.fail("next-differs", "the command to set the next config succeeded, but the contract has\n%s\ninstead of\n%s", describe(a.Next), describe(want))
		return
	}
	if f.StartBlockNumber != 0 {
		return
	}
	last := b.Configs[len(b.Configs)-1]
	if err := schedulable(s.w.node.Chain, s.cc); err != nil {
		s.fail("start-refused", "the chosen start (batch %d, block %d) cannot be scheduled at block %d: %v; last config %s", a.Next.StartBatchIndex, a.Next.StartBlockNumber,
			a.Head, err, describe(last))
		return
	}
	if a.Next.StartBlockNumber < last.StartBlockNumber {
		s.fail("start-order", "the chosen start block %d is before the start of the previous config %s", a.Next.StartBlockNumber, describe(last))
		return
	}
	limit := max64(head+max64(s.headsUp, last.BatchSpan)+40, last.StartBlockNumber) + 2*last.BatchSpan
	if a.Next.StartBlockNumber > limit {
		s.fail("start-late", "the chosen start block %d is later than need be (block %d, last config %s)", a.Next.StartBlockNumber, head, describe(last))
	}
}

func (s *session) same(what string, b, a view) bool {
	if describeAll(b.Configs) != describeAll(a.Configs) {
		s.fail("configs-changed", "%s changed the scheduled configs from\n%s\nto\n%s", what, describeAll(b.Configs), describeAll(a.Configs))
		return false
	}
	return true
}

// setNext runs the command to set the next config; who may be a stranger. calm: nothing goes wrong.
func (s *session) setNext(f contract.BatchConfig, who string, calm bool) run {
	k := owner
	if who == "stranger" {
		k = stranger
	}
	p := s.w.write("config.json", f)
	b := s.look()
	r := s.w.cli("config", "set-next", "-e", s.w.srv.URL, "-c", s.contracts(), "-k", keyHex(k), "--config", p)
	a := s.look()
	s.say("block %d: %s sets next config to %s: exit %d (killed %v), block %d", b.Head, who, describe(f), r.code, r.killed, a.Head)
	if r.hangs {
		s.fail("hangs", "the command does not end")
		return r
	}
	if !s.same("setting the next config", b, a) {
		return r
	}
	if who == "stranger" {
		if describe(b.Next) != describe(a.Next) {
			s.fail("stranger", "a stranger changed the next config")
		}
		if r.code == 0 {
			s.checkNext(b, a, f, b.Head) // there was nothing to do
		}
		return r
	}
	if calm && r.code != 0 {
		s.fail("set-fails", "the owner cannot set the next config: %s", tail(r.log, 600))
		return r
	}
	if r.code == 0 {
		s.checkNext(b, a, f, b.Head)
	}
	return r
}

func (s *session) checkScheduled(b, a view, next contract.BatchConfig) {
	if describeAll(a.Configs) != describeAll(append(append([]contract.BatchConfig(nil), b.Configs...), next)) {
		s.fail("schedule-differs", "scheduling succeeded, but the contract has\n%s\nafter\n%s\nand next config %s", describeAll(a.Configs), describeAll(b.Configs), describe(next))
	}
}

// schedule runs the command to schedule the next config, possibly setting it first.
func (s *session) schedule(f *contract.BatchConfig, who string, calm bool) run {
	k := owner
	if who == "stranger" {
		k = stranger
	}
	args := []string{"config", "schedule", "-e", s.w.srv.URL, "-c", s.contracts(), "-k", keyHex(k)}
	if f != nil {
		args = append(args, "--config", s.w.write("config.json", *f))
	}
	b := s.look()
	can := schedulable(s.w.node.Chain, s.cc)
	r := s.w.cli(args...)
	a := s.look()
	s.say("block %d: %s schedules (with file: %v): exit %d (killed %v), block %d", b.Head, who, f != nil, r.code, r.killed, a.Head)
	if r.hangs {
		s.fail("hangs", "the command does not end")
		return r
	}
	if who == "stranger" {
		if describeAll(b.Configs) != describeAll(a.Configs) || describe(b.Next) != describe(a.Next) {
			s.fail("stranger", "a stranger changed the configs")
		}
		if r.code == 0 {
			s.fail("stranger-success", "scheduling succeeded for a stranger")
		}
		return r
	}
	if r.code == 0 {
		want := b.Next
		if f != nil {
			if len(a.Configs) == 0 {
				s.fail("schedule-differs", "scheduling succeeded, but there are no configs")
				return r
			}
			want = *f
			if f.StartBlockNumber == 0 {
				got := a.Configs[len(a.Configs)-1]
				want.StartBlockNumber, want.StartBatchIndex = got.StartBlockNumber, got.StartBatchIndex
			}
		}
		s.checkScheduled(b, a, want)
		return r
	}
	if calm && f == nil && can == nil {
		s.fail("schedule-fails", "scheduling failed although the contract would have taken it: %s", tail(r.log, 600))
	}
	if calm && f != nil && f.StartBlockNumber == 0 {
		s.fail("schedule-fails", "scheduling a config with its start left to the command failed: %s", tail(r.log, 600))
	}
	if calm && (len(a.Configs) != len(b.Configs)) {
		s.fail("schedule-silent", "scheduling failed, but the configs changed")
	}
	return r
}

// query runs the commands that show configs.
func (s *session) query(what string) {
	v := s.look()
	var r run
	if what == "list" {
		r = s.w.cli("config", "list", "-e", s.w.srv.URL, "-c", s.contracts())
	} else {
		r = s.w.cli("config", "query", "-e", s.w.srv.URL, "-c", s.contracts(), "-i", what)
	}
	s.say("query %s: exit %d", what, r.code)
	var want []contract.BatchConfig
	ok := true
	switch what {
	case "list":
		var l []string
		for i, c := range v.Configs {
			l = append(l, fmt.Sprint(i, " ", c.StartBatchIndex, " ", c.StartBlockNumber))
		}
		l = append(l, fmt.Sprint("Next ", v.Next.StartBatchIndex, " ", v.Next.StartBlockNumber))
		lines := strings.Split(strings.TrimSpace(r.out), "\n")
		if r.code != 0 || len(lines) < 1 {
			s.fail("list", "list fails: %s", tail(r.log, 300))
			return
		}
		for i := range lines {
			lines[i] = strings.Join(strings.Fields(lines[i]), " ")
		}
		if strings.Join(lines[1:], "\n") != strings.Join(l, "\n") {
			s.fail("list", "list shows\n%s\ninstead of\n%s", strings.Join(lines[1:], "\n"), strings.Join(l, "\n"))
		}
		return
	case "all":
		want = v.Configs
	case "next":
		want = []contract.BatchConfig{v.Next}
	case "last":
		want = v.Configs[len(v.Configs)-1:]
	default:
		var i int
		fmt.Sscan(what, &i)
		if i < len(v.Configs) {
			want = v.Configs[i : i+1]
		} else {
			ok = false
		}
	}
	if ok != (r.code == 0) {
		s.fail("query", "query %s: exit %d: %s", what, r.code, tail(r.log, 300))
		return
	}
	if !ok {
		return
	}
	if what != "all" {
		r.out = "[" + r.out + "]"
	}
	// an independent decoding
	var got []map[string]interface{}
	if err := json.Unmarshal([]byte(r.out), &got); err != nil || len(got) != len(want) {
		s.fail("query", "query %s shows %s (%v)", what, r.out, err)
		return
	}
	for i, c := range want {
		ks := []interface{}{}
		seen := map[common.Address]bool{}
		for _, k := range c.Keypers {
			if !seen[k] {
				ks = append(ks, k.Hex())
			}
			seen[k] = true
		}
		w := map[string]interface{}{
			"StartBatchIndex": float64(c.StartBatchIndex), "StartBlockNumber": float64(c.StartBlockNumber), "Keypers": ks, "Threshold": float64(c.Threshold),
			"BatchSpan": float64(c.BatchSpan), "BatchSizeLimit": float64(c.BatchSizeLimit), "TransactionSizeLimit": float64(c.TransactionSizeLimit),
			"TransactionGasLimit": float64(c.TransactionGasLimit), "FeeReceiver": c.FeeReceiver.Hex(), "TargetAddress": c.TargetAddress.Hex(),
			"TargetFunctionSelector": fmt.Sprintf("0x%x", c.TargetFunctionSelector), "ExecutionTimeout": float64(c.ExecutionTimeout),
		}
		x, _ := json.Marshal(w)
		y, _ := json.Marshal(got[i])
		if string(x) != string(y) {
			s.fail("query", "query %s shows\n%s\ninstead of\n%s", what, y, x)
		}
	}
}

// start makes a session with a history of configs.
func start(r *verifkit.Run, c *verifkit.Chooser, name string, headsUp, span uint64, prepared []contract.BatchConfig, blocks int) *session {
	ch, a := deployed(headsUp)
	s := &session{w: newWorld(ch.MineEmpty(blocks)), cc: a, headsUp: headsUp, span: span, r: r, c: c, name: name}
	s.w.mode(mineEach)
	s.say("heads up %d blocks", headsUp)
	for _, p := range prepared {
		s.put(p)
	}
	return s
}

// put sets and schedules a config directly.
func (s *session) put(p contract.BatchConfig) {
	cc := func(b bind.ContractBackend) *contract.ConfigContract {
		x, err := contract.NewConfigContract(s.cc, b)
		must(err)
		return x
	}
	do := func(f func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error)) {
		if !s.w.tx(owner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) { return f(cc(b), o) }) {
			panic("cannot prepare configs")
		}
	}
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.NextConfigSetStartBatchIndex(o, p.StartBatchIndex)
	})
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.NextConfigSetStartBlockNumber(o, p.StartBlockNumber)
	})
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.NextConfigSetThreshold(o, p.Threshold)
	})
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.NextConfigSetBatchSpan(o, p.BatchSpan)
	})
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.NextConfigAddKeypers(o, p.Keypers)
	})
	do(func(x *contract.ConfigContract, o *bind.TransactOpts) (*types.Transaction, error) {
		return x.ScheduleNextConfig(o)
	})
	s.say("prepared %s", describe(p))
}

func (s *session) unschedule(from uint64) {
	ok := s.w.tx(owner, func(o *bind.TransactOpts, b bind.ContractBackend) (*types.Transaction, error) {
		x, err := contract.NewConfigContract(s.cc, b)
		must(err)
		return x.UnscheduleConfigs(o, from)
	})
	s.say("unscheduled from %d: %v", from, ok)
}

// history chooses a prepared history.
func history(c *verifkit.Chooser, headsUp uint64) (blocks int, l []contract.BatchConfig, span uint64, name string) {
	span = []uint64{7, 50, 1}[c.Choose(3, "span")]
	first := configFile(0, span)
	switch c.Choose(5, "history") {
	case 0:
		return 3, nil, span, "no configs"
	case 1: // started long ago
		first.StartBlockNumber = 60
		return 3, []contract.BatchConfig{first}, span, "one config"
	case 2: // starts much later
		first.StartBlockNumber = 400
		return 3, []contract.BatchConfig{first}, span, "a config in the future"
	case 3: // inactive
		first.StartBlockNumber, first.BatchSpan = 60, 0
		return 3, []contract.BatchConfig{first}, span, "an inactive config"
	default: // two, the second starts much later
		first.StartBlockNumber = 90
		second := configFile(1, span)
		second.StartBatchIndex = 1 + 350/span
		second.StartBlockNumber = 90 + span*second.StartBatchIndex
		return 3, []contract.BatchConfig{first, second}, span, "two configs"
	}
}

func TestC30(t *testing.T) {
	r := verifkit.Start("operator-commands")
	defer r.Finish()
	r.Rule("setting the next config succeeds only with the contract holding exactly the file's config, and touches no scheduled config")
	r.Rule("a start left to the command can be scheduled, follows the previous config without gap, and is not needlessly late")
	r.Rule("scheduling succeeds exactly when the contract takes the config, and appends it")
	r.Rule("strangers change nothing and are told so; queries show what the contract holds")
	r.Assume("nobody else sends with the owner's key; what a killed command sent is mined before the next one starts")
	var runs int64
	histories := func(c *verifkit.Chooser) {
		headsUp := []uint64{20, 0}[c.Deviate(2, "heads up")]
		blocks, prep, span, hist := history(c, headsUp)
		s := start(r, c, "histories", headsUp, span, prep, blocks)
		defer s.w.close()
		s.say("history: %s, span %d", hist, span)
		if e := c.Deviate(3, "age"); e > 0 {
			n := []int{0, 61, 121}[e]
			s.w.node.Chain = s.w.node.Chain.MineEmpty(n)
			s.say("%d blocks later", n)
		}
		s.w.mode(c.Deviate(2, "mining"))
		for i := 0; i < r.Pick(2, 3) && !s.bad; i++ {
			n := 9
			op := 0
			if i == 0 {
				op = c.Choose(n, "op")
			} else {
				op = c.Deviate(n, "op")
				if op == 0 {
					break
				}
			}
			atomic.AddInt64(&runs, 1)
			switch op {
			case 0:
				f := configFile(c.Deviate(6, "file"), span)
				s.setNext(f, "owner", true)
				s.schedule(nil, "owner", true)
			case 1:
				f := configFile(c.Deviate(6, "file"), span)
				s.schedule(&f, "owner", f.StartBlockNumber == 0)
			case 2:
				s.setNext(configFile(1, span), "owner", true)
			case 3:
				s.setNext(configFile(0, span), "stranger", true)
				s.schedule(nil, "stranger", true)
			case 4:
				s.schedule(nil, "owner", true)
			case 5:
				for _, q := range []string{"all", "next", "last", "0", "1", "9", "list"} {
					s.query(q)
				}
			case 6:
				s.w.node.Chain = s.w.node.Chain.MineEmpty(30)
				s.say("30 blocks later")
				f := configFile(2, span)
				s.schedule(&f, "owner", true)
			case 8: // replace a list with duplicates
				s.setNext(configFile(5, span), "owner", true)
				s.setNext(configFile(c.Deviate(6, "file"), span), "owner", true)
			case 7:
				s.unschedule(s.look().Head + headsUp + 30)
				f := configFile(0, span)
				s.schedule(&f, "owner", true)
			}
			s.w.node.Lock(func() {})
		}
	}
	st := r.Explore(verifkit.Options{Name: "histories", Bound: r.Pick(1, 2)}, histories)
	r.Sample(fmt.Sprintf("histories: %d executions, complete %v", st.Executions, st.Complete))
	r.Count("commands", atomic.LoadInt64(&runs))
}

// TestC30Faults lets every request fail, every command die at every request, and every transaction revert.
func TestC30Faults(t *testing.T) {
	r := verifkit.Start("operator-failures")
	defer r.Finish()
	r.Rule("a command that met a failed request or a reverted transaction says so, unless it had its whole effect; running it again has its effect")
	f := func(c *verifkit.Chooser) {
		span := uint64(7)
		first := configFile(0, span)
		first.StartBlockNumber = 60
		var prep []contract.BatchConfig
		if c.Deviate(2, "prepared") == 0 {
			prep = append(prep, first)
		}
		s := start(r, c, "faults", 20, span, prep, 3)
		defer s.w.close()
		s.w.node.Chain = s.w.node.Chain.MineEmpty(30)
		if c.Choose(2, "set before") == 1 {
			s.setNext(configFile(1, span), "owner", true)
		}
		mode := c.Deviate(2, "mining")
		s.w.mode(mode)
		faults := 0
		s.w.hook = func(i int, method string) string {
			if faults >= r.Pick(1, 2) || s.bad {
				return ""
			}
			n := 3
			x := c.Deviate(n, method)
			if x == 0 {
				return ""
			}
			faults++
			s.say("request %d (%s): %s", i, method, []string{"", "error", "kill"}[x])
			return []string{"", "error", "kill"}[x]
		}
		if c.Choose(2, "reverts") == 1 {
			// one transaction is replaced by one that reverts
			after := s.w.node.AfterSend
			done := false
			n := 0
			s.w.node.AfterSend = func(nd *verifevm.Node, tx *types.Transaction) {
				n++
				if !done && faults == 0 && c.Deviate(2, "revert") == 1 {
					done = true
					faults = 99
					data := append([]byte{0xde, 0xad, 0xbe, 0xef}, byte(n))
					alt, err := types.SignTx(types.NewTransaction(tx.Nonce(), *tx.To(), tx.Value(), 100000, tx.GasPrice(), data), types.NewEIP155Signer(verifevm.ChainID), owner)
					must(err)
					nd.Pool[len(nd.Pool)-1] = alt
					nd.Alias[tx.Hash()] = alt.Hash()
					s.say("transaction %d reverts", n)
				}
				if after != nil {
					after(nd, tx)
				}
			}
		}
		g := configFile(0, span)
		op := c.Choose(3, "command")
		b := s.look()
		once := func(calm bool) run {
			switch op {
			case 0:
				return s.setNext(g, "owner", calm)
			case 1:
				return s.schedule(&g, "owner", calm)
			default:
				x := s.schedule(nil, "owner", calm)
				return x
			}
		}
		if op == 2 { // something to schedule
			h := s.w.hook
			as := s.w.node.AfterSend
			s.w.hook = nil
			s.w.mode(mode)
			s.setNext(g, "owner", true)
			s.w.hook = h
			if as != nil {
				s.w.node.AfterSend = as
			}
			b = s.look()
		}
		x := once(false)
		if faults == 0 && x.code != 0 {
			s.fail("fails", "the command failed although nothing went wrong: %s", tail(x.log, 600))
		}
		if faults > 0 && x.code == 0 && !s.bad {
			s.say("the command succeeded in spite of that")
		}
		s.w.hook = nil
		s.w.mode(mode)
		if s.bad || x.code == 0 {
			return
		}
		a := s.look()
		if len(a.Configs) > len(b.Configs) {
			s.say("it was scheduled nevertheless")
			return
		}
		if op == 2 {
			if schedulable(s.w.node.Chain, s.cc) == nil {
				s.schedule(nil, "owner", true)
			}
			return
		}
		once(true)
	}
	st := r.Explore(verifkit.Options{Name: "faults", Bound: r.Pick(1, 2)}, f)
	r.Sample(fmt.Sprintf("faults: %d executions, complete %v", st.Executions, st.Complete))
}
