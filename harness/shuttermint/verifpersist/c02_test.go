// Package verifpersist crashes the Shuttermint application at every operation it does on its state file.
package verifpersist

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	. "github.com/shutter-network/shutter/shuttermint/verifapp"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
	vtime "github.com/shutter-network/shutter/shuttermint/verifos/time"
)

type tx struct {
	signer int
	msg    *shmsg.Message
}

type block struct {
	name string
	txs  []tx
}

var (
	cfgA = CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	cfgB = CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}
	gen  = Genesis{Keypers: []int{0, 1}, Threshold: 2, Validators: []abcitypes.ValidatorUpdate{
		ValUpdate(K(20).Val, 10), ValUpdate(K(21).Val, 11)}}
)

func blocks() []block {
	return []block{
		{"config", []tx{{0, MConfigVote(cfgA)}, {1, MConfigVote(cfgA)}, {0, MCheckIn(K(0).Val, K(0))}, {2, MConfigVote(cfgB)}}},
		{"start", []tx{{0, MStarted(1)}, {1, MStarted(1)}, {1, MCheckIn(K(1).Val, K(1))}, {1, MEonVote(10)}, {2, MStarted(2)}}},
		{"keys", []tx{{0, MCommitment(1, Gammas(1, 2))}, {0, MEval(1, Bytes(1, 2), [][]byte{{1}, {2}})}, {2, MAccuse(1, Bytes(1))}, {1, MDecSig(12, []byte{1})}, {0, MShare(1, 7, Share(1))}}},
		{"empty", nil},
		{"more", []tx{{1, MConfigVote(cfgB)}, {0, MEonVote(10)}, {1, MApologise(1, Bytes(2), [][]byte{{5}})}, {0, MDecSig(12, []byte{2})}, {3, MCheckIn(K(3).Val, K(3))}}},
	}
}

// process runs a block and returns everything the node answers.
func process(a *app.ShutterApp, b block, height int64) string {
	var out []string
	for i, t := range b.txs {
		d := a.DeliverTx(abcitypes.RequestDeliverTx{Tx: Tx(gen.Chain(), t.signer, uint64(height)*100+uint64(i), t.msg)})
		d.Log, d.Info = "", ""
		x, err := d.Marshal()
		if err != nil {
			panic(err)
		}
		out = append(out, fmt.Sprintf("%x", x))
	}
	e := a.EndBlock(abcitypes.RequestEndBlock{Height: height})
	x, err := e.Marshal()
	if err != nil {
		panic(err)
	}
	return strings.Join(append(out, fmt.Sprintf("%x", x)), "|")
}

// dump leaves out what is only told by the config list itself: votes and key generations refer to their
// config, and whether that is a shared or an own copy makes no difference to what the node does.
func dump(a *app.ShutterApp) string {
	return verifkit.Dump(a.Configs) + verifkit.Dump(a, "LastSaved", "Gobpath", "Configs", "Started", "ValidatorsUpdated")
}

func height(a *app.ShutterApp) int64 { return a.Info(abcitypes.RequestInfo{}).LastBlockHeight }

// reference: what a node that never stops holds and answers, by the blocks of the chain.
type reference struct {
	mu    sync.Mutex
	nodes map[string]*refNode
	bs    []block
}

type refNode struct {
	a      *app.ShutterApp
	dump   string
	answer string
}

func (r *reference) at(chain []int) *refNode {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.get(chain)
}

func (r *reference) get(chain []int) *refNode {
	k := fmt.Sprint(chain)
	if n := r.nodes[k]; n != nil {
		return n
	}
	n := &refNode{}
	if len(chain) == 0 {
		n.a = gen.NewApp()
	} else {
		p := r.get(chain[:len(chain)-1])
		n.a = verifkit.DeepCopy(p.a).(*app.ShutterApp)
		n.answer = process(n.a, r.bs[chain[len(chain)-1]], int64(len(chain)))
		n.a.Commit()
	}
	n.dump = dump(n.a)
	r.nodes[k] = n
	return n
}

const gob = "shutter.gob"

func load(f *fs.FS) (*app.ShutterApp, error) {
	l, err := app.LoadShutterAppFromFile(f.Root + "/" + gob)
	if err != nil {
		return nil, err
	}
	a := &l
	if height(a) == 0 {
		gen.Init(a) // as tendermint does for a node without blocks
	}
	return a, nil
}

func imageKey(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d:%s;", k, len(m[k]), plain([]byte(m[k])))
	}
	return b.String()
}

var root = regexp.MustCompile(`/verifmem/\d+`)

// plain hides in which of the file systems something was written.
func plain(b []byte) []byte {
	if !bytes.Contains(b, []byte("/verifmem/")) {
		return b
	}
	return root.ReplaceAll(b, []byte("/verifmem/N"))
}

func unique(l []string) []string {
	var r []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

// opsKey tells apart logs of operations. The bytes written for a state differ from run to run, because
// maps are encoded in random order, so only their number counts.
func opsKey(log []fs.Op) uint64 {
	var b strings.Builder
	for _, o := range log {
		fmt.Fprintf(&b, "%s %s %s %d %d %d ", o.Kind, filepath.Base(o.Path), filepath.Base(o.To), o.Node, o.Off, len(o.Data))
	}
	return verifkit.Hash(b.String())
}

type checked struct {
	height int64 // loaded
	key    uint64
	msg    string
}

func TestC02(t *testing.T) {
	r := verifkit.Start("crashes")
	defer r.Finish()
	now := time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)
	vtime.VerifNow = func() time.Time { return now }
	bs := blocks()
	ref := &reference{nodes: map[string]*refNode{}, bs: bs}
	depth := r.Pick(3, 5)
	follow := 1
	// the files `shuttermint init` leaves
	fresh := fs.New(nil)
	ini := app.NewShutterApp()
	ini.Gobpath = fresh.Root + "/" + gob
	if err := ini.PersistToDisk(); err != nil {
		panic(err)
	}
	inited := fresh.Files()
	fresh.Close()

	var memo, replayed, scanned, possible sync.Map
	// Files that loading never looks at cannot matter for it.
	var looked sync.Map
	looked.Store(gob, true)
	relevant := func(m map[string]string) map[string]string {
		x := map[string]string{}
		for k, v := range m {
			if _, ok := looked.Load(k); ok {
				x[k] = v
			}
		}
		return x
	}
	// check loads an image and replays the rest of the chain on it.
	check := func(chain []int, im fs.Image) checked {
		r.Count("images", 1)
		k := verifkit.Hash(fmt.Sprint(chain) + imageKey(relevant(im.Files)))
		if v, ok := memo.Load(k); ok {
			return v.(checked)
		}
		res := func() (res checked) {
			f := fs.New(im.Files)
			defer f.Close()
			var a *app.ShutterApp
			var err error
			if p := verifkit.Catch(func() { a, err = load(f) }); p != "" {
				return checked{msg: "the state cannot be loaded: " + p}
			}
			if err != nil {
				return checked{msg: "the state cannot be loaded: " + err.Error()}
			}
			h := height(a)
			if h < 0 || h > int64(len(chain)) {
				return checked{msg: fmt.Sprintf("the node reports height %d, which was not committed", h)}
			}
			d := dump(a)
			for _, n := range f.Touched() {
				if _, known := looked.LoadOrStore(n, true); !known {
					k = verifkit.Hash(fmt.Sprint(chain) + imageKey(relevant(im.Files)))
				}
			}
			res = checked{height: h, key: verifkit.Hash(d)}
			if want := ref.at(chain[:h]); d != want.dump {
				res.msg = fmt.Sprintf("the loaded state is not the state of the reported height %d", h)
				return res
			}
			rk := fmt.Sprint(chain, h)
			if _, dup := replayed.LoadOrStore(rk, true); dup {
				return res
			}
			a.LastSaved = now
			run := append([]int{}, chain...)
			var tail func(a *app.ShutterApp, run []int, more int) string
			tail = func(a *app.ShutterApp, run []int, more int) string {
				for i := height(a); i < int64(len(run)); i++ {
					if got, want := process(a, bs[run[i]], i+1), ref.at(run[:i+1]); got != want.answer {
						return fmt.Sprintf("replaying block %d gives other results than on a node that never stopped", i+1)
					}
					a.Commit()
					if got, want := dump(a), ref.at(run[:i+1]); got != want.dump {
						if os.Getenv("VERIF_LOG") != "" {
							fmt.Println("A", got, "\nB", want.dump)
						}
						return fmt.Sprintf("replaying block %d gives another state than on a node that never stopped", i+1)
					}
					r.Count("transitions", 1)
				}
				if more > 0 {
					for j := range bs {
						if m := tail(verifkit.DeepCopy(a).(*app.ShutterApp), append(append([]int{}, run...), j), more-1); m != "" {
							return m
						}
					}
				}
				return ""
			}
			if p := verifkit.Catch(func() { res.msg = tail(a, run, follow) }); p != "" {
				res.msg = "replaying blocks: " + p
			}
			r.Count("traces", 1)
			return res
		}()
		memo.Store(k, res)
		return res
	}

	for _, bound := range []int{1, 2, 3}[:r.Pick(2, 3)] {
		d := depth - bound + 1
		st := r.Explore(verifkit.Options{Bound: bound, Name: fmt.Sprintf("crashes bound %d", bound), Dedup: true}, func(c *verifkit.Chooser) {
			files := map[string]string{}
			if c.Bool("the files of shuttermint init are there") {
				files = inited
			}
			var chain []int
			var path []string
			say := func(s string, args ...interface{}) { path = append(path, fmt.Sprintf(s, args...)) }
			baseKey := uint64(len(files))
			f := fs.New(files)
			defer func() { f.Close() }()
			a, err := load(f)
			if err != nil {
				panic(err)
			}
			bad := func(key, msg string) {
				r.Violation("crashes:"+key, strings.Join(path, "; ")+": "+msg, c.Replay(fmt.Sprintf("crashes bound %d", bound)))
			}
			finished, before := int64(0), int64(0) // height of the last finished save and of the one before
			for step := 0; height(a) < int64(d); step++ {
				h := height(a)
				if h == int64(len(chain)) {
					chain = append(chain, c.Choose(len(bs), "next block"))
				}
				b := bs[chain[h]]
				say("block %d %s", h+1, b.name)
				if got, want := process(a, b, h+1), ref.at(chain[:h+1]); got != want.answer {
					bad("results", "transaction results or validator updates differ from a node that never stopped")
					return
				}
				due := c.Bool("saving is due")
				a.LastSaved = now
				if due {
					a.LastSaved = time.Time{}
				}
				failed := false
				writes := 0
				f.Fail = func(n int, o fs.Op) (error, int) {
					v := 2
					if o.Kind == "write" {
						v = 3
						if writes++; !r.Thorough() && writes > 1 && len(o.Data) < 400 {
							return nil, 0 // in the quick tier the first and the large ones
						}
					}
					switch c.Deviate(v, "failing "+o.Kind) {
					case 1:
						failed = true
						say("%s fails", o)
						return fmt.Errorf("input/output error"), 0
					case 2:
						failed = true
						say("%s fails half way", o)
						return fmt.Errorf("no space left on device"), len(o.Data) / 2
					}
					return nil, 0
				}
				from := f.Len()
				a.Commit()
				f.Fail = nil
				if got, want := dump(a), ref.at(chain[:h+1]); got != want.dump {
					bad("state", "the state differs from that of a node that never stopped")
					return
				}
				log := f.Log()
				minP, minM := finished, before
				if due && !failed {
					before, finished = finished, h+1
				}
				if due && !failed && len(log) == from {
					// the application may have its own idea of when to save
					finished = minP
				}
				// every point at which process or machine may have stopped
				var classes []fs.Image
				seen := map[string]bool{}
				lk := verifkit.Hash(fmt.Sprint(chain, from, finished, before, minP, minM, dump(a), baseKey, opsKey(log)))
				look := func(im fs.Image, min int64) {
					res := check(chain, im)
					if res.msg == "" && res.height < min {
						res.msg = fmt.Sprintf("the loaded state is of height %d, but the one of height %d had been saved", res.height, min)
					}
					if res.msg != "" {
						kind := res.msg
						if i := strings.IndexByte(kind, ':'); i > 0 {
							kind = kind[:i]
						}
						bad(strings.Trim(kind, "0123456789"), im.What+": "+res.msg)
						return
					}
					_, tmp := im.Files[gob+".tmp"]
					k := fmt.Sprint(res.height, tmp, len(im.Files))
					if !seen[k] {
						seen[k] = true
						classes = append(classes, im)
					}
				}
				known, have := scanned.Load(lk)
				if have {
					classes = known.([]fs.Image)
				}
				for k := from; !have && k <= len(log); k++ {
					mp, mm := minP, minM
					if k == len(log) {
						mp, mm = finished, before
					}
					look(f.Process(log, k), mp)
					// what a machine stop can leave only grows until the next sync
					if k == len(log) || log[k].Kind == "sync" {
						for _, im := range f.Machine(log, k) {
							look(im, mm)
						}
					}
				}
				scanned.Store(lk, classes)
				if n := c.Deviate(1+len(classes), "crash"); n > 0 {
					im := classes[n-1]
					say("%s", im.What)
					f.Close()
					f = fs.New(im.Files)
					baseKey = check(chain, im).key
					if a, err = load(f); err != nil {
						return // reported above
					}
					finished = height(a)
					before = finished
				}
				cur := f.Log()
				mk := verifkit.Hash(fmt.Sprint(chain, baseKey, finished, before, dump(a), opsKey(cur)))
				sets, _ := possible.Load(mk)
				if sets == nil {
					var l []string
					for _, im := range f.Machine(cur, len(cur)) {
						l = append(l, fmt.Sprint(check(chain, im).key, len(im.Files)))
					}
					sort.Strings(l)
					sets = strings.Join(unique(l), ",")
					possible.Store(mk, sets)
				}
				key := verifkit.Hash(fmt.Sprint(chain, c.Spent(), finished, before, dump(a), sets, check(chain, fs.Image{Files: f.Files()}).key))
				r.Distinct("states", key)
				c.Prune(key)
			}
			if c.Spent() == bound {
				r.Sample(path)
			}
		})
		r.Rule(fmt.Sprintf("chains of %d blocks from %d kinds, saving or not after each, at most %d failing file operations or crashes; after each block all process and machine stops at each operation: %d executions, complete %v", d, len(bs), bound, st.Executions, st.Complete))
		r.Count("states", st.States)
		if !st.Complete {
			r.Incomplete(fmt.Sprintf("crashes bound %d", bound))
		}
	}
}
