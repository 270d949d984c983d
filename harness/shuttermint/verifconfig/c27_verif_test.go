package verifconfig

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"github.com/spf13/viper"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/verifeth"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func addr(i int) common.Address { return common.BytesToAddress([]byte{0xab, 0xcd, 0xef, byte(i)}) }

// TestC27 checks the arithmetic of a single config against unbounded integers.
func TestC27(t *testing.T) {
	r := verifkit.Start("arithmetic")
	defer r.Finish()
	r.Rule("all configs with start block, start batch and span from 0..n, all blocks and batches of a range behind the start; and the same around boundary values up to 2^62, compared with unbounded integers; all keyper lists of up to 3 of 3 addresses")
	n := r.Pick(7, 14)
	big62 := uint64(1) << 62
	vals := []uint64{0, 1, 2, 3, 10, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, big62}
	small := []uint64{}
	for i := 0; i <= n; i++ {
		small = append(small, uint64(i))
	}
	bigint := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	one := func(start, batch, span, k uint64) {
		c := contract.BatchConfig{StartBlockNumber: start, StartBatchIndex: batch, BatchSpan: span}
		if c.IsActive() != (span != 0) {
			r.Violation("active", fmt.Sprintf("%+v IsActive = %v", c, c.IsActive()), nil)
		}
		// the k-th batch
		ws := new(big.Int).Add(bigint(start), new(big.Int).Mul(bigint(k), bigint(span)))
		we := new(big.Int).Add(ws, bigint(span))
		if !we.IsUint64() || batch+k < batch {
			return
		}
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(start, batch, span, k)))
		s, e := c.BatchStartBlock(batch+k), c.BatchEndBlock(batch+k)
		if s != ws.Uint64() || e != we.Uint64() {
			r.Violation("range", fmt.Sprintf("config start %d@%d span %d: batch %d has blocks [%d,%d), must be [%s,%s)", batch, start, span, batch+k, s, e, ws, we), nil)
			return
		}
		if batch+k+1 > batch+k {
			if we2 := new(big.Int).Add(we, bigint(span)); we2.IsUint64() {
				if s2 := c.BatchStartBlock(batch + k + 1); s2 != e {
					r.Violation("tiling", fmt.Sprintf("config start %d@%d span %d: batch %d ends at %d but the next starts at %d", batch, start, span, batch+k, e, s2), nil)
				}
			}
		}
		if span == 0 {
			for _, b := range []uint64{start, start + 1, start + 100, start + big62} {
				if b >= start && c.BatchIndex(b) != batch {
					r.Violation("inactive-index", fmt.Sprintf("inactive config start %d@%d: block %d has batch index %d", batch, start, b, c.BatchIndex(b)), nil)
				}
			}
			return
		}
		for _, b := range []uint64{s, s + 1, s + span/2, e - 2, e - 1} {
			if b >= s && b < e {
				if got := c.BatchIndex(b); got != batch+k {
					r.Violation("index", fmt.Sprintf("config start %d@%d span %d: block %d of batch %d [%d,%d) has batch index %d", batch, start, span, b, batch+k, s, e, got), nil)
				}
			}
		}
	}
	for _, start := range small {
		for _, batch := range small {
			for _, span := range small {
				for k := uint64(0); k < 10; k++ {
					one(start, batch, span, k)
				}
				// every single block
				if span > 0 {
					c := contract.BatchConfig{StartBlockNumber: start, StartBatchIndex: batch, BatchSpan: span}
					idx, pos := batch, uint64(0)
					for b := start; b < start+40; b++ {
						if c.BatchIndex(b) != idx {
							r.Violation("walk", fmt.Sprintf("config start %d@%d span %d: block %d has batch index %d, must be %d", batch, start, span, b, c.BatchIndex(b), idx), nil)
						}
						r.Count("evaluations", 1)
						if pos++; pos == span {
							idx, pos = idx+1, 0
						}
					}
				}
			}
		}
	}
	for _, start := range vals {
		for _, batch := range vals {
			for _, span := range vals {
				for _, k := range vals {
					one(start, batch, span, k)
				}
			}
		}
	}
	// membership
	for l := 0; l <= 3; l++ {
		total := int(math.Pow(4, float64(l)))
		for x := 0; x < total; x++ {
			c := contract.BatchConfig{}
			for i, y := 0, x; i < l; i, y = i+1, y/4 {
				c.Keypers = append(c.Keypers, addr(y%4))
			}
			for a := 0; a < 5; a++ {
				want := -1
				for i, k := range c.Keypers {
					if k == addr(a) {
						want = i
						break
					}
				}
				i, ok := c.KeyperIndex(addr(a))
				r.Count("evaluations", 1)
				if ok != (want >= 0) || c.IsKeyper(addr(a)) != ok || ok && int(i) != want {
					r.Violation("membership", fmt.Sprintf("keypers %v: index of %x is %d, %v", c.Keypers, addr(a), i, ok), nil)
				}
			}
		}
	}
	r.Sample("config start 3@5 span 2: batch 4 = blocks [7,9)")
}

// walk follows the block line and notes the active config and the batch of every block.
type walk struct {
	cfg, batch []int // per block; batch -1: none
	first      []bool
}

func walkLine(cfgs []contract.BatchConfig, blocks int) walk {
	var w walk
	cur, idx, pos := -1, 0, 0
	for b := 0; b < blocks; b++ {
		fresh := false
		if cur >= 0 && cfgs[cur].BatchSpan > 0 {
			if pos++; pos == int(cfgs[cur].BatchSpan) {
				idx, pos, fresh = idx+1, 0, true
			}
		}
		for cur+1 < len(cfgs) && int(cfgs[cur+1].StartBlockNumber) == b {
			cur++
			idx, pos, fresh = int(cfgs[cur].StartBatchIndex), 0, true
		}
		w.cfg = append(w.cfg, cur)
		if cfgs[cur].BatchSpan > 0 {
			w.batch = append(w.batch, idx)
		} else {
			w.batch, fresh = append(w.batch, -1), false
		}
		w.first = append(w.first, fresh)
	}
	return w
}

func describe(cfgs []contract.BatchConfig) string {
	s := ""
	for _, c := range cfgs {
		s += fmt.Sprintf("(batch %d block %d span %d) ", c.StartBatchIndex, c.StartBlockNumber, c.BatchSpan)
	}
	return s
}

// legal enumerates all sequences of configs that the config contract lets the owner schedule.
func legal(depth int, spans []uint64, f func([]contract.BatchConfig)) {
	var rec func(l []contract.BatchConfig)
	rec = func(l []contract.BatchConfig) {
		f(l)
		if len(l) > depth {
			return
		}
		p := l[len(l)-1]
		for _, span := range spans {
			for d := uint64(1); d <= 3; d++ {
				c := contract.BatchConfig{BatchSpan: span, Keypers: []common.Address{addr(len(l)), addr(len(l) + 1)}, Threshold: uint64(len(l) % 3), ExecutionTimeout: uint64(len(l)), TargetFunctionSelector: [4]byte{byte(len(l))}}
				if p.BatchSpan > 0 {
					c.StartBatchIndex = p.StartBatchIndex + d
					c.StartBlockNumber = p.StartBlockNumber + d*p.BatchSpan
				} else {
					c.StartBatchIndex = p.StartBatchIndex
					c.StartBlockNumber = p.StartBlockNumber + d
				}
				rec(append(append([]contract.BatchConfig{}, l...), c))
			}
		}
	}
	rec([]contract.BatchConfig{{}})
}

// TestC27Lookup compares all lookups with a walk over the block line.
func TestC27Lookup(t *testing.T) {
	r := verifkit.Start("lookups")
	defer r.Finish()
	r.Rule("all sequences of up to n scheduled configs the config contract allows (spans 0..3, changes after 1..3 batches or blocks), all blocks and batches of the line: config of a block, config of a batch, batch of a block, next batch, current and future configs, active keypers, compared with a walk over the blocks one by one")
	var seqs [][]contract.BatchConfig
	legal(r.Pick(3, 4), []uint64{0, 1, 2, 3}, func(l []contract.BatchConfig) { seqs = append(seqs, l) })
	const blocks = 34
	r.Sample(describe(seqs[len(seqs)/2]))
	r.Parallel(len(seqs), func(i int) {
		cfgs := seqs[i]
		what := describe(cfgs)
		w := walkLine(cfgs, blocks+10)
		n := &verifeth.Node{Blocks: []*verifeth.Block{{Configs: cfgs}}}
		cc := n.Caller(nil)
		defer cc.Ethclient.Close()
		mc := observe.NewMainChain(0)
		mc.BatchConfigs = cfgs
		last := 0
		owner := map[int]int{} // batch -> config
		for b := 0; b < blocks+10; b++ {
			if w.batch[b] >= 0 {
				owner[w.batch[b]] = w.cfg[b]
				if w.batch[b] > last {
					last = w.batch[b]
				}
			}
		}
		for b := 0; b < blocks; b++ {
			r.Count("evaluations", 1)
			r.Distinct("nontrivial", verifkit.Hash(fmt.Sprint(what, b)))
			fail := func(key, f string, a ...interface{}) {
				r.Violation("lookup:"+key, fmt.Sprintf("configs %s, block %d: ", what, b)+fmt.Sprintf(f, a...), nil)
			}
			mc.CurrentBlock = uint64(b)
			want := w.cfg[b]
			if got := mc.ActiveConfigIndex(uint64(b)); got != want {
				fail("active", "config %d is active, must be %d", got, want)
				continue
			}
			if !reflect.DeepEqual(mc.ActiveConfig(uint64(b)), cfgs[want]) || !reflect.DeepEqual(mc.CurrentConfig(), cfgs[want]) {
				fail("active-config", "wrong active config")
			}
			if got := mc.ActiveConfigs(); len(got) != len(cfgs)-want || !reflect.DeepEqual(got, cfgs[want:]) {
				fail("active-configs", "wrong list of active configs")
			}
			for a := 0; a < 8; a++ {
				is := false
				for _, c := range cfgs[want:] {
					is = is || c.IsKeyper(addr(a))
				}
				if mc.IsActiveKeyper(addr(a)) != is {
					fail("active-keyper", "keyper %d is active: %v", a, !is)
				}
			}
			if w.batch[b] >= 0 {
				c := cfgs[want]
				if got := c.BatchIndex(uint64(b)); got != uint64(w.batch[b]) {
					fail("batch", "batch index %d, must be %d", got, w.batch[b])
				}
				if s, e := c.BatchStartBlock(uint64(w.batch[b])), c.BatchEndBlock(uint64(w.batch[b])); uint64(b) < s || uint64(b) >= e {
					fail("inverse", "is in batch %d, but that has blocks [%d,%d)", w.batch[b], s, e)
				}
				if w.first[b] && c.BatchStartBlock(uint64(w.batch[b])) != uint64(b) {
					fail("start", "is the first of batch %d, but it starts at %d", w.batch[b], c.BatchStartBlock(uint64(w.batch[b])))
				}
			}
			// the next batch
			next := -1
			for x := b + 1; x < blocks+10; x++ {
				if w.first[x] {
					next = w.batch[x]
					break
				}
			}
			if next < 0 { // batching stopped: the index that would be next
				next = int(cfgs[len(cfgs)-1].StartBatchIndex)
			}
			got, err := cc.ConfigContract.NextBatchIndex(uint64(b))
			if err != nil || got != uint64(next) {
				fail("next", "next batch index %d, %v, must be %d", got, err, next)
			}
			cur, err := cc.ConfigContract.CurrentAndFutureConfigs(nil, uint64(b))
			if err != nil || len(cur) != len(cfgs)-want {
				fail("current-and-future", "%d configs, %v, must be %d", len(cur), err, len(cfgs)-want)
			} else {
				for j := range cur {
					if !reflect.DeepEqual(cur[j], cfgs[want+j]) {
						fail("current-and-future", "config %d is %+v, must be %+v", want+j, cur[j], cfgs[want+j])
					}
				}
			}
		}
		for i := 0; i <= last; i++ {
			r.Count("evaluations", 1)
			want, active := owner[i]
			got, ok := mc.ConfigIndexForBatchIndex(uint64(i))
			cfg, ok2 := mc.ConfigForBatchIndex(uint64(i))
			if ok != active || ok2 != ok || ok && (got != want || !reflect.DeepEqual(cfg, cfgs[want])) {
				r.Violation("lookup:config-of-batch", fmt.Sprintf("configs %s: batch %d belongs to config %d (%v), must be %d (%v)", what, i, got, ok, want, active), nil)
			}
		}
		if end := cfgs[len(cfgs)-1]; !end.IsActive() {
			for _, i := range []uint64{end.StartBatchIndex, end.StartBatchIndex + 1, end.StartBatchIndex + 1000} {
				if _, ok := mc.ConfigForBatchIndex(i); ok {
					r.Violation("lookup:config-of-batch", fmt.Sprintf("configs %s: batch %d has a config", what, i), nil)
				}
			}
		}
	})
}

func checksummed(s string) bool {
	return regexp.MustCompile(`^0x[0-9a-fA-F]{40}$`).MatchString(s) && common.HexToAddress(s).Hex() == s && eip55(s)
}

// eip55 is an independent check of the checksum.
func eip55(s string) bool {
	low := strings.ToLower(s[2:])
	h := hex.EncodeToString(crypto.Keccak256([]byte(low)))
	for i, c := range s[2:] {
		if c >= '0' && c <= '9' {
			continue
		}
		if (h[i] >= '8') != (c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// refConfig reads a batch config by the rules of the format.
func refConfig(data []byte) (*contract.BatchConfig, string) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(data, &m); err != nil || m == nil {
		return nil, "no JSON object"
	}
	field := func(name string) (json.RawMessage, bool) {
		var v json.RawMessage
		found := 0
		for k, x := range m {
			if strings.EqualFold(k, name) && string(x) != "null" {
				v, found = x, found+1
			}
		}
		if found > 1 {
			return nil, false
		}
		return v, found == 1
	}
	c := &contract.BatchConfig{}
	for _, f := range []struct {
		name string
		to   *uint64
	}{{"StartBatchIndex", &c.StartBatchIndex}, {"StartBlockNumber", &c.StartBlockNumber}, {"Threshold", &c.Threshold}, {"BatchSpan", &c.BatchSpan}, {"BatchSizeLimit", &c.BatchSizeLimit},
		{"TransactionSizeLimit", &c.TransactionSizeLimit}, {"TransactionGasLimit", &c.TransactionGasLimit}, {"ExecutionTimeout", &c.ExecutionTimeout}} {
		if v, ok := field(f.name); ok {
			n, err := strconv.ParseUint(string(v), 10, 64)
			if err != nil {
				return nil, f.name
			}
			*f.to = n
		}
	}
	readAddr := func(v []byte) (common.Address, bool) {
		var s string
		if json.Unmarshal(v, &s) != nil || !checksummed(s) {
			return common.Address{}, false
		}
		return common.HexToAddress(s), true
	}
	for _, f := range []struct {
		name string
		to   *common.Address
	}{{"FeeReceiver", &c.FeeReceiver}, {"TargetAddress", &c.TargetAddress}} {
		for k, x := range m {
			if strings.EqualFold(k, f.name) {
				a, ok := readAddr(x)
				if !ok {
					return nil, f.name
				}
				*f.to = a
			}
		}
	}
	c.Keypers = []common.Address{}
	if v, ok := field("Keypers"); ok {
		var l []json.RawMessage
		if json.Unmarshal(v, &l) != nil {
			return nil, "Keypers"
		}
		for _, x := range l {
			a, ok := readAddr(x)
			if !ok {
				return nil, "Keypers"
			}
			c.Keypers = append(c.Keypers, a)
		}
	}
	v, ok := field("TargetFunctionSelector")
	var s string
	if !ok || json.Unmarshal(v, &s) != nil {
		return nil, "TargetFunctionSelector"
	}
	if !regexp.MustCompile(`^0[xX][0-9a-fA-F]{8}$`).MatchString(s) {
		return nil, "TargetFunctionSelector"
	}
	b, _ := hex.DecodeString(s[2:])
	copy(c.TargetFunctionSelector[:], b)
	if c.Threshold < 1 || c.Threshold > uint64(len(c.Keypers)) {
		return nil, "Threshold"
	}
	return c, ""
}

// mutations of a text: every byte replaced, removed, doubled, every truncation.
func mutations(text []byte, repl string, f func(what string, m []byte)) {
	for i := range text {
		for _, c := range []byte(repl) {
			if text[i] != c {
				m := append([]byte{}, text...)
				m[i] = c
				f(fmt.Sprintf("byte %d set to %q", i, c), m)
			}
		}
		if c := text[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			m := append([]byte{}, text...)
			m[i] ^= 0x20
			f(fmt.Sprintf("case of byte %d changed", i), m)
		}
		f(fmt.Sprintf("byte %d removed", i), append(append([]byte{}, text[:i]...), text[i+1:]...))
		f(fmt.Sprintf("byte %d doubled", i), append(append(append([]byte{}, text[:i]...), text[i]), text[i:]...))
		f(fmt.Sprintf("truncated to %d", i), append([]byte{}, text[:i]...))
		if i+1 < len(text) {
			m := append([]byte{}, text...)
			m[i], m[i+1] = m[i+1], m[i]
			f(fmt.Sprintf("bytes %d and %d swapped", i, i+1), m)
		}
	}
}

func sampleConfig(k, threshold int) contract.BatchConfig {
	c := contract.BatchConfig{StartBatchIndex: 10, StartBlockNumber: 200, Keypers: []common.Address{}, Threshold: uint64(threshold), BatchSpan: 30, BatchSizeLimit: 4000, TransactionSizeLimit: 500,
		TransactionGasLimit: 60, FeeReceiver: common.HexToAddress("0xfeeb"), TargetAddress: common.HexToAddress("0x7a29e7"), TargetFunctionSelector: [4]byte{0x94, 0x3d, 0x72, 0x09}, ExecutionTimeout: 7}
	for i := 0; i < k; i++ {
		c.Keypers = append(c.Keypers, crypto.PubkeyToAddress(detKey(i).PublicKey))
	}
	return c
}

// TestC27JSON checks the JSON form of batch configs.
func TestC27JSON(t *testing.T) {
	r := verifkit.Start("batch-config-json")
	defer r.Finish()
	r.Rule("all numbers of keypers 0..4 and thresholds 0..5, every numeric field at boundary values, address and selector patterns: written and read back; and all single site changes (bytes replaced by each of a set, removed, doubled, swapped, case changed, truncations, fields dropped, fields set to other JSON values) of the text, accepted exactly if an independent reader accepts them, with equal contents")
	check := func(what string, data []byte) {
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(string(data)))
		want, why := refConfig(data)
		var got contract.BatchConfig
		var err error
		if p := verifkit.Catch(func() { err = json.Unmarshal(data, &got) }); p != "" {
			r.Violation("json:panic", fmt.Sprintf("%s: %s\n%s", what, p, data), string(data))
			return
		}
		if (err == nil) != (want != nil) {
			r.Violation("json:accept:"+why, fmt.Sprintf("%s: error %v, must be refused because of %q\n%s", what, err, why, data), string(data))
			return
		}
		if err == nil && !reflect.DeepEqual(got, *want) {
			r.Violation("json:content", fmt.Sprintf("%s: read as %+v, must be %+v\n%s", what, got, *want, data), string(data))
		}
	}
	round := func(c contract.BatchConfig) {
		data, err := json.Marshal(c)
		if err != nil {
			r.Violation("json:marshal", fmt.Sprintf("%+v: %s", c, err), nil)
			return
		}
		ind, err := json.MarshalIndent(&c, "", "    ")
		if err != nil {
			r.Violation("json:marshal", fmt.Sprintf("%+v: %s", c, err), nil)
			return
		}
		valid := c.Threshold >= 1 && c.Threshold <= uint64(len(c.Keypers))
		for _, d := range [][]byte{data, ind} {
			var got contract.BatchConfig
			err := json.Unmarshal(d, &got)
			if (err == nil) != valid || valid && !reflect.DeepEqual(got, c) {
				r.Violation("json:round-trip", fmt.Sprintf("%+v read back as %+v, %v", c, got, err), string(d))
			}
			// reading over an earlier config
			old := sampleConfig(3, 2)
			old.FeeReceiver = addr(9)
			err = json.Unmarshal(d, &old)
			if (err == nil) != valid || valid && !reflect.DeepEqual(old, c) {
				r.Violation("json:round-trip-reuse", fmt.Sprintf("%+v read over an earlier config as %+v, %v", c, old, err), string(d))
			}
			check("round trip", d)
		}
	}
	nums := []uint64{0, 1, 9, 10, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
	for k := 0; k <= 4; k++ {
		for th := 0; th <= 5; th++ {
			round(sampleConfig(k, th))
		}
	}
	for k := 0; k <= 4; k++ {
		for _, v := range nums {
			for d := uint64(0); d <= 4; d++ {
				c := sampleConfig(k, 1)
				c.Threshold = v + d
				round(c)
			}
		}
	}
	for i := 0; i < 7; i++ {
		for _, v := range nums {
			c := sampleConfig(2, 2)
			*[]*uint64{&c.StartBatchIndex, &c.StartBlockNumber, &c.BatchSpan, &c.BatchSizeLimit, &c.TransactionSizeLimit, &c.TransactionGasLimit, &c.ExecutionTimeout}[i] = v
			round(c)
		}
	}
	for i := 0; i < 20; i++ {
		for _, b := range []byte{0, 1, 0x0f, 0xf0, 0xff} {
			c := sampleConfig(3, 2)
			c.Keypers[1][i], c.FeeReceiver[i], c.TargetAddress[19-i], c.TargetFunctionSelector[i%4] = b, b, b, b
			round(c)
		}
	}
	for _, c := range []contract.BatchConfig{sampleConfig(1, 1), sampleConfig(3, 2)} {
		data, _ := json.Marshal(c)
		repl := "0a\"x,}]-.F "
		if r.Thorough() {
			repl = ""
			for i := 0; i < 256; i++ {
				repl += string([]byte{byte(i)})
			}
		}
		mutations(data, repl, check)
		var m map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(data))
		d.UseNumber()
		if err := d.Decode(&m); err != nil {
			panic(err)
		}
		for name, old := range m {
			delete(m, name)
			x, _ := json.Marshal(m)
			check(name+" dropped", x)
			a := c.FeeReceiver.Hex()
			for _, v := range []interface{}{nil, "", 0, 1, -1, 1.5, json.Number("1e2"), json.Number("4294967297"), json.Number("9223372036854775808"), json.Number("9223372036854775809"), json.Number("18446744073709551615"), json.Number("18446744073709551616"), "1", true, []int{}, []int{1}, []interface{}{nil}, map[string]int{}, a, strings.ToLower(a), strings.ToUpper(a),
				strings.TrimPrefix(a, "0x"), "0X" + a[2:], a[:41], a + "0", a + " ", " " + a, "0x", []string{a}, []string{a, a, a, a}, []string{strings.ToLower(a)}, []string{""}, "0x943d7209", "943d7209", "0x943d72", "0x943d720900", "0x943d720g", "0X943D7209", "0x943d720"} {
				m[name] = v
				x, _ := json.Marshal(m)
				check(fmt.Sprintf("%s set to %v", name, v), x)
			}
			m[name] = old
		}
	}
	for _, s := range []string{"", "null", "[]", "0", "\"\"", "{}", "{", "{}{}", "\xff"} {
		check("text", []byte(s))
	}
	r.Sample(fmt.Sprintf("%+v", sampleConfig(2, 1)))
}

func writeTOML(c *keyper.Config) ([]byte, error) {
	var b bytes.Buffer
	err := c.WriteTOML(&b)
	return b.Bytes(), err
}

var viperMu sync.Mutex

// readTOML reads a configuration like the keyper command.
func readTOML(data []byte) (c keyper.Config, settings map[string]interface{}, err error) {
	v := viper.New()
	v.SetConfigType("toml")
	if err := v.ReadConfig(bytes.NewReader(data)); err != nil {
		return c, nil, err
	}
	err = c.Unmarshal(v)
	return c, v.AllSettings(), err
}

func sampleKeyperConfig() keyper.Config {
	var seed [32]byte
	for i := range seed {
		seed[i] = byte(7*i + 1)
	}
	return keyper.Config{ShuttermintURL: "http://localhost:26657", EthereumURL: "ws://localhost:8546/x?y=1#z", DBDir: "/var/lib/keyper", SigningKey: detKey(1), ValidatorKey: ed25519.NewKeyFromSeed(seed[:]),
		EncryptionKey: ecies.ImportECDSA(detKey(2)), ConfigContractAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef01"), BatcherContractAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef02"),
		KeyBroadcastContractAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef03"), ExecutorContractAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef04"),
		DepositContractAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef05"), KeyperSlasherAddress: common.HexToAddress("0xab12000000000000000000000000000000cdef06"),
		MainChainFollowDistance: 5, ExecutionStaggering: 6, DKGPhaseLength: 30, GasPriceMultiplier: 1.5}
}

func describeKeyper(c *keyper.Config) string {
	s := ""
	if c.SigningKey != nil && c.SigningKey.D != nil {
		s += fmt.Sprintf("signing %x pub %x ", crypto.FromECDSA(c.SigningKey), crypto.FromECDSAPub(&c.SigningKey.PublicKey))
	}
	if c.EncryptionKey != nil && c.EncryptionKey.D != nil {
		s += fmt.Sprintf("encryption %x pub %x ", crypto.FromECDSA(c.EncryptionKey.ExportECDSA()), crypto.FromECDSAPub(c.EncryptionKey.PublicKey.ExportECDSA()))
	}
	return s + fmt.Sprintf("validator %x urls %q %q dir %q contracts %x %x %x %x %x %x distance %d staggering %d phase %d gas %v", []byte(c.ValidatorKey), c.ShuttermintURL, c.EthereumURL, c.DBDir, c.ConfigContractAddress,
		c.BatcherContractAddress, c.KeyBroadcastContractAddress, c.ExecutorContractAddress, c.DepositContractAddress, c.KeyperSlasherAddress, c.MainChainFollowDistance, c.ExecutionStaggering, c.DKGPhaseLength, c.GasPriceMultiplier)
}

var curveOrder, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// refKeyper reads the settings by the rules of the format. ok is false if they must be refused; known
// is false if the settings have a form about which nothing is claimed (other TOML types, missing keys).
func refKeyper(m map[string]interface{}) (c keyper.Config, known bool, bad string) {
	known = true
	str := func(name string) string {
		s, ok := m[strings.ToLower(name)].(string)
		if !ok {
			known = false
		}
		return s
	}
	c.ShuttermintURL, c.EthereumURL, c.DBDir = str("ShuttermintURL"), str("EthereumURL"), str("DBDir")
	for _, f := range []struct {
		name string
		to   *common.Address
	}{{"ConfigContract", &c.ConfigContractAddress}, {"BatcherContract", &c.BatcherContractAddress}, {"KeyBroadcastContract", &c.KeyBroadcastContractAddress}, {"ExecutorContract", &c.ExecutorContractAddress}, {"DepositContract", &c.DepositContractAddress}, {"KeyperSlasher", &c.KeyperSlasherAddress}} {
		s := str(f.name)
		if known && !checksummed(s) {
			bad = f.name
		}
		*f.to = common.HexToAddress(s)
	}
	key := func(name string) []byte {
		s := str(name)
		b, err := hex.DecodeString(s)
		if known && (err != nil || len(b) != 32) {
			bad = name
		}
		return b
	}
	sk, vk, ek := key("SigningKey"), key("ValidatorSeed"), key("EncryptionKey")
	for name, k := range map[string][]byte{"SigningKey": sk, "EncryptionKey": ek} {
		d := new(big.Int).SetBytes(k)
		if known && (d.Sign() == 0 || d.Cmp(curveOrder) >= 0) {
			bad = name
		}
	}
	for _, f := range []struct {
		name string
		to   *uint64
	}{{"MainChainFollowDistance", &c.MainChainFollowDistance}, {"ExecutionStaggering", &c.ExecutionStaggering}, {"DKGPhaseLength", &c.DKGPhaseLength}} {
		n, ok := m[strings.ToLower(f.name)].(int64)
		if !ok {
			known = false
		} else if n < 0 {
			bad = f.name
		}
		*f.to = uint64(n)
	}
	switch x := m["gaspricemultiplier"].(type) {
	case float64:
		c.GasPriceMultiplier = x
	case int64:
		c.GasPriceMultiplier = float64(x)
	default:
		known = false
	}
	if known && bad == "" {
		c.SigningKey, _ = crypto.ToECDSA(sk)
		e, _ := crypto.ToECDSA(ek)
		c.EncryptionKey = ecies.ImportECDSA(e)
		c.ValidatorKey = ed25519.NewKeyFromSeed(vk)
	}
	return c, known, bad
}

// TestC27TOML checks the configuration file of keypers.
func TestC27TOML(t *testing.T) {
	r := verifkit.Start("keyper-config-toml")
	defer r.Finish()
	r.Rule("keyper configurations with every field at boundary values (numbers up to 2^63-1, text with every single ASCII character, keys with leading zeros and extreme values): written and read back; all single site changes of the file and all malformed values of addresses, keys and numbers: refused exactly if an independent reader refuses the value, otherwise read with equal contents")
	r.Assume("TOML integers end at 2^63-1; nothing is claimed for missing settings and for settings of another TOML type")
	round := func(what string, c keyper.Config) {
		r.Count("evaluations", 1)
		data, err := writeTOML(&c)
		if err != nil {
			r.Violation("toml:write", fmt.Sprintf("%s: %s", what, err), nil)
			return
		}
		r.Distinct("nontrivial", verifkit.Hash(string(data)))
		got, _, err := readTOML(data)
		if err != nil {
			r.Violation("toml:round-trip:"+what, fmt.Sprintf("%s: written configuration is refused: %s\n%s", what, err, data), string(data))
			return
		}
		if g, w := describeKeyper(&got), describeKeyper(&c); g != w {
			r.Violation("toml:round-trip:"+what, fmt.Sprintf("%s: read back as\n%s, wrote\n%s\n%s", what, g, w, data), string(data))
		}
	}
	check := func(what string, data []byte) {
		r.Count("evaluations", 1)
		r.Distinct("nontrivial", verifkit.Hash(string(data)))
		var got keyper.Config
		var set map[string]interface{}
		var err error
		if p := verifkit.Catch(func() { got, set, err = readTOML(data) }); p != "" {
			if !strings.Contains(p, "toml") || set != nil {
				r.Violation("toml:panic", fmt.Sprintf("%s: %s\n%s", what, p, data), string(data))
			}
			return
		}
		if set == nil {
			return // not TOML
		}
		want, known, bad := refKeyper(set)
		if !known {
			r.Count("unclaimed", 1)
			return
		}
		if (err == nil) != (bad == "") {
			r.Violation("toml:accept:"+bad, fmt.Sprintf("%s: error %v, reason to refuse %q\n%s", what, err, bad, data), string(data))
			return
		}
		if err == nil {
			if g, w := describeKeyper(&got), describeKeyper(&want); g != w {
				r.Violation("toml:content", fmt.Sprintf("%s: read as\n%s, must be\n%s\n%s", what, g, w, data), string(data))
			}
		}
	}
	base := sampleKeyperConfig()
	round("plain", base)
	for i := 0; i < 3; i++ {
		for _, v := range []uint64{0, 1, 100, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64} {
			c := base
			*[]*uint64{&c.MainChainFollowDistance, &c.ExecutionStaggering, &c.DKGPhaseLength}[i] = v
			round("number", c)
		}
		for ch := 0; ch < 128; ch++ {
			c := base
			*[]*string{&c.ShuttermintURL, &c.EthereumURL, &c.DBDir}[i] = "a" + string([]byte{byte(ch)}) + "b"
			round("text", c)
		}
		for _, s := range []string{"", "Größe/日本", `C:\keyper\new`, `"`, `\`, `a"b"`, "{{.}}", "a#b", "'", "'''", `"""`, `\u0041`, " a ", "a\\", "\U0001F600", "a,b", "true", "1"} {
			c := base
			*[]*string{&c.ShuttermintURL, &c.EthereumURL, &c.DBDir}[i] = s
			round("text", c)
		}
	}
	for _, v := range []float64{0, 1, 1.5, 2, 0.1, 1.0 / 3, 1e-9, 1e21, 123456789.25, 1e6, 1e300, math.SmallestNonzeroFloat64} {
		c := base
		c.GasPriceMultiplier = v
		round("gas price multiplier", c)
	}
	for i := 0; i < 20; i++ {
		for _, b := range []byte{0, 1, 0x0f, 0xf0, 0xff} {
			c := base
			for _, a := range []*common.Address{&c.ConfigContractAddress, &c.BatcherContractAddress, &c.KeyBroadcastContractAddress, &c.ExecutorContractAddress, &c.DepositContractAddress, &c.KeyperSlasherAddress} {
				a[(i+int(b))%20] = b
				a[i] ^= b
			}
			round("address", c)
		}
	}
	for _, d := range []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(0x0abc), new(big.Int).Lsh(big.NewInt(1), 240), new(big.Int).Sub(curveOrder, big.NewInt(1))} {
		c := base
		k, err := crypto.ToECDSA(common.LeftPadBytes(d.Bytes(), 32))
		if err != nil {
			panic(err)
		}
		c.SigningKey = k
		round("key", c)
		c = base
		c.EncryptionKey = ecies.ImportECDSA(k)
		round("key", c)
		c = base
		c.ValidatorKey = ed25519.NewKeyFromSeed(common.LeftPadBytes(d.Bytes(), 32))
		round("key", c)
	}
	data, err := writeTOML(&base)
	if err != nil {
		panic(err)
	}
	repl := "0g\"'\\#\n-"
	if r.Thorough() {
		repl = ""
		for i := 0; i < 128; i++ {
			repl += string([]byte{byte(i)})
		}
	}
	type mut struct {
		what string
		m    []byte
	}
	var muts []mut
	mutations(data, repl, func(what string, m []byte) { muts = append(muts, mut{what, m}) })
	lines := strings.Split(string(data), "\n")
	hexN := hex.EncodeToString(curveOrder.Bytes())
	a := base.ConfigContractAddress.Hex()
	for i, l := range lines {
		if !strings.Contains(l, "=") {
			continue
		}
		name := l[:strings.Index(l, "=")]
		vals := []string{"-1", "0", "1", "9223372036854775807", "9223372036854775808", "1.5", "true", `""`}
		for _, s := range []string{a, strings.ToLower(a), strings.ToUpper(a), a[2:], "0X" + a[2:], a[:41], a + "0", a + " ", "0x", "0x0", hexN, strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("0", 63) + "1", strings.Repeat("AB", 32), strings.Repeat("ab", 31), strings.Repeat("ab", 33), strings.Repeat("ab", 64),
			"0x" + strings.Repeat("ab", 32), strings.Repeat("a", 63), strings.Repeat("g", 64), strings.Repeat("ab", 31) + "a g"[1:]} {
			vals = append(vals, `"`+s+`"`)
		}
		for _, v := range vals {
			nl := append([]string{}, lines...)
			nl[i] = name + "= " + v
			muts = append(muts, mut{strings.TrimSpace(name) + " set to " + v, []byte(strings.Join(nl, "\n"))})
		}
	}
	r.Parallel(len(muts), func(i int) { check(muts[i].what, muts[i].m) })
	r.Sample(muts[len(muts)-1].what)
}
