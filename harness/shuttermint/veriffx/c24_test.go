package veriffx

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
	"github.com/shutter-network/shutter/shuttermint/verifos/fs"
)

type status int

const (
	waiting  status = iota
	inflight        // sent, not mined
	gone
)

// model is what the runner has to do.
type model struct {
	kinds   string // m or t per action
	first   []int  // first action of each batch
	st      []status
	exp     []bool
	attempt []int
	added   int // actions of batches that were handed over
}

// lives tells how many messages before action i are not delivered yet.
func (m *model) msgsBefore(i int) int {
	n := 0
	for j := 0; j < i; j++ {
		if m.kinds[j] == 'm' && m.st[j] != gone {
			n++
		}
	}
	return n
}

// settle drops expired actions whose turn has come and hands over the next batch.
func (m *model) settle() {
	for again := true; again; {
		again = false
		// the next batch is handed over once all of the current one is scheduled
		if m.added < len(m.kinds) {
			if m.added == 0 || m.msgsBefore(m.added) <= 1 {
				next := len(m.kinds)
				for _, f := range m.first {
					if f > m.added {
						next = f
						break
					}
				}
				m.added = next
				again = true
			}
		}
		if h := m.head('t'); h >= 0 && m.exp[h] && m.msgsBefore(h) <= 1 {
			m.st[h] = gone
			again = true
		}
	}
}

// head is the first action of a kind that was not attempted successfully yet.
func (m *model) head(kind byte) int {
	for i := 0; i < m.added; i++ {
		if m.kinds[i] == kind && m.st[i] == waiting {
			return i
		}
	}
	return -1
}

// musts are the calls the runner has to be making now.
func (m *model) musts() []string {
	var l []string
	if h := m.head('m'); h >= 0 {
		l = append(l, fmt.Sprintf("send msg %d", h))
	}
	if h := m.head('t'); h >= 0 && m.msgsBefore(h) <= 1 {
		l = append(l, fmt.Sprintf("send tx %d", h))
	}
	for i := 0; i < m.added; i++ {
		if m.st[i] == inflight {
			l = append(l, fmt.Sprintf("receipt %d", i))
		}
	}
	return l
}

func (m *model) String() string {
	return fmt.Sprintf("%s added=%d status=%v expired=%v", m.kinds, m.added, m.st, m.exp)
}

// pendingOnDisk loads a stored pending set: id to whether it has a hash.
func pendingOnDisk(files map[string]string) (map[int]bool, error) {
	f := fs.New(files)
	defer f.Close()
	p := fx.NewPendingActions(f.Root + "/" + pendingFile)
	if err := p.Load(); err != nil {
		return nil, err
	}
	m := map[int]bool{}
	for _, id := range p.SortedIDs() {
		m[int(id)] = p.GetMainChainTXHash(id) != common.Hash{}
	}
	return m, nil
}

type scenario struct {
	name  string
	kinds string
	first []int
}

type outcome struct {
	what string
	a    answer
	then string // retry, drop
}

var (
	sendOutcomes = []outcome{
		{"fails", answer{err: errors.New("connection refused")}, "retry"},
		{"is refused", answer{err: &fx.NonRetriableError{Err: errors.New("already accused")}}, "drop"},
		{"is refused by the application", answer{err: &fx.RemoteError{}}, "drop"},
	}
	receiptOutcomes = []outcome{
		{"reverted", answer{stat: 0}, "drop"},
		{"is not there yet", answer{rpc: "null"}, "retry"},
		{"cannot be fetched: error", answer{rpc: "error"}, "retry"},
		{"cannot be fetched: down", answer{rpc: "down"}, "retry"},
	}
	arms = []string{"eth_chainId", "eth_getTransactionCount", "eth_gasPrice", "eth_getTransactionByHash", "eth_call"}
)

// runScenario is one execution.
func runScenario(r *verifkit.Run, c *verifkit.Chooser, s scenario, restarts int) (steps []string, bad string) {
	say := func(f string, a ...interface{}) { steps = append(steps, fmt.Sprintf(f, a...)) }
	defer func() {
		if bad != "" {
			bad += " [" + strings.Join(steps, "; ") + "]"
		}
	}()
	ct := newCtl()
	defer ct.close()
	n := len(s.kinds)
	m := &model{kinds: s.kinds, first: s.first, st: make([]status, n), exp: make([]bool, n), attempt: make([]int, n)}
	var batches [][]fx.IAction
	for b := range s.first {
		end := n
		if b+1 < len(s.first) {
			end = s.first[b+1]
		}
		var l []fx.IAction
		for i := s.first[b]; i < end; i++ {
			if s.kinds[i] == 'm' {
				l = append(l, &fx.SendShuttermintMessage{Description: fmt.Sprint(i), Msg: msgOf(i)})
			} else {
				l = append(l, &Tx{ct.run, i})
			}
		}
		batches = append(batches, l)
	}
	// called with the lock held; the model is only changed with it held
	ct.allowed = func(name string) string {
		var i int
		kind := byte('m')
		if k, _ := fmt.Sscanf(name, "send msg %d", &i); k == 1 {
		} else if k, _ := fmt.Sscanf(name, "send tx %d", &i); k == 1 {
			kind = 't'
		} else {
			return ""
		}
		if i < 0 || i >= n || s.kinds[i] != kind {
			return "undecided action: " + name
		}
		if m.st[i] != waiting {
			return "done before: " + name
		}
		if m.exp[i] {
			return "expired: " + name
		}
		for j := 0; j < i; j++ {
			if s.kinds[j] == kind && m.st[j] == waiting {
				return fmt.Sprintf("out of order: %s while %d is not done", name, j)
			}
		}
		return ""
	}
	m.settle()
	e := ct.start(map[string]string{}, false, s.first, batches)
	say("start")
	lives := 0
	defer func() {
		if e != nil {
			m := e.stop()
			if bad == "" && m != "" {
				bad = m
			}
			e.fs.Close()
		}
	}()
	check := func() string {
		ct.mu.Lock()
		defer ct.mu.Unlock()
		if len(ct.bad) > 0 {
			return ct.bad[0]
		}
		return ""
	}
	// await waits until the runner has done all it has to do now.
	await := func() string {
		end := time.Now().Add(patience)
		for k := 0; ; k++ {
			missing := ""
			ct.mu.Lock()
			want := m.musts()
			for _, w := range want {
				if ct.out[w] == nil {
					missing = "it does not: " + w
				}
			}
			ct.mu.Unlock()
			if m := check(); m != "" {
				return m
			}
			if missing == "" {
				have := map[int]bool{}
				for _, id := range e.re.PendingActions.SortedIDs() {
					have[int(id)] = true
				}
				for i := 0; i < n; i++ {
					if i < m.added && have[i] != (m.st[i] != gone) {
						missing = fmt.Sprintf("action %d is pending: %v", i, have[i])
					}
				}
				for id := range have {
					if id >= n {
						missing = fmt.Sprintf("unknown action %d is pending", id)
					}
				}
			}
			if missing == "" && m.added == n && m.msgsBefore(n) <= 1 && !e.scheduled() {
				missing = "scheduling does not come to an end"
			}
			if missing == "" {
				return ""
			}
			if time.Now().After(end) {
				return fmt.Sprintf("%s, in %s", missing, m)
			}
			if k > 20 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
	restart := func(files map[string]string) string {
		have, err := pendingOnDisk(files)
		if err != nil {
			return "the pending actions cannot be loaded: " + err.Error()
		}
		for i := 0; i < m.added; i++ {
			hash, ok := have[i]
			if ok != (m.st[i] != gone) {
				return fmt.Sprintf("stored: action %d is pending: %v, in %s", i, ok, m)
			}
			if ok && hash != (m.st[i] == inflight) {
				return fmt.Sprintf("stored: action %d has a transaction: %v, in %s", i, hash, m)
			}
		}
		ct.mu.Lock()
		ct.stopped = false
		ct.out = map[string]*call{}
		m.settle()
		ct.mu.Unlock()
		e.fs.Close()
		e = ct.start(files, true, s.first, batches)
		return ""
	}
	for depth := 0; ; depth++ {
		if msg := await(); msg != "" {
			return steps, msg
		}
		atomic.AddInt64(&transitions, 1)
		ct.mu.Lock()
		state := fmt.Sprint(s.name, m, ct.expired, ct.armed, lives)
		ct.mu.Unlock()
		c.Prune(verifkit.Hash(state))
		must := m.musts()
		sort.Strings(must)
		if len(must) == 0 {
			break
		}
		// something else happens
		var others []string
		for i := 0; i < n; i++ {
			if s.kinds[i] == 't' && !m.exp[i] && m.st[i] == waiting {
				others = append(others, fmt.Sprint("expire ", i))
			}
		}
		for _, a := range arms {
			if ct.armed[a] == "" && strings.Contains(s.kinds, "t") {
				others = append(others, "arm "+a)
			}
		}
		if lives < restarts {
			others = append(others, "stop", "crash")
		}
		if k := c.Deviate(len(others)+1, "event"); k > 0 {
			o := others[k-1]
			say("%s", o)
			var i int
			switch {
			case strings.HasPrefix(o, "expire"):
				fmt.Sscanf(o, "expire %d", &i)
				ct.mu.Lock()
				ct.expired[i] = true
				m.exp[i] = true
				// an attempt that is under way is not ended by it
				if !has(must, fmt.Sprintf("send tx %d", i)) {
					m.settle()
				} else {
					m.exp[i] = false // takes effect with the next attempt
				}
				ct.mu.Unlock()
			case strings.HasPrefix(o, "arm"):
				ct.mu.Lock()
				ct.armed[o[4:]] = [...]string{"error", "down", "http"}[c.Choose(3, "how")]
				ct.mu.Unlock()
			case o == "stop" || o == "crash":
				files := e.fs.Files()
				if msg := e.stop(); msg != "" {
					return steps, msg
				}
				if o == "stop" {
					files = e.fs.Files()
				}
				lives++
				ct.mu.Lock()
				for i := range m.exp {
					m.exp[i] = ct.expired[i]
				}
				ct.mu.Unlock()
				if msg := restart(files); msg != "" {
					return steps, msg
				}
			}
			continue
		}
		name := must[c.Choose(len(must), "answer")]
		var i int
		f := strings.Fields(name)
		fmt.Sscan(f[len(f)-1], &i)
		outs := sendOutcomes
		isReceipt := f[0] == "receipt"
		if isReceipt {
			outs = receiptOutcomes
		}
		a := answer{stat: 1}
		then, what := "ok", "succeeds"
		if k := c.Deviate(len(outs)+1, "outcome"); k > 0 {
			a, then, what = outs[k-1].a, outs[k-1].then, outs[k-1].what
		}
		stopNow := lives < restarts && c.Deviate(2, "stop at once") == 1
		say("%s %s", name, what)
		before := m.st[i]
		ct.answer(name, a, func() {
			switch {
			case then == "ok" && f[1] == "tx":
				m.st[i] = inflight
				tx := txOf(i, 0)
				ct.hashes[tx.Hash()] = i
				ct.txs[tx.Hash()] = tx
			case then == "ok" || then == "drop":
				m.st[i] = gone
			case !isReceipt:
				m.exp[i] = ct.expired[i]
			}
			if !stopNow {
				m.settle()
			} else {
				ct.stopped = true
			}
		})
		if stopNow {
			say("stopped at once")
			if msg := e.stop(); msg != "" {
				return steps, msg
			}
			lives++
			files := e.fs.Files()
			have, err := pendingOnDisk(files)
			if err != nil {
				return steps, "the pending actions cannot be loaded: " + err.Error()
			}
			// what was under way is done or not
			ct.mu.Lock()
			hash, ok := have[i]
			switch {
			case !ok && m.st[i] != gone:
				bad = fmt.Sprintf("action %d is not pending any more", i)
			case ok && hash && before == waiting && m.st[i] != inflight:
				bad = fmt.Sprintf("action %d has a transaction", i)
			case ok && hash:
				m.st[i] = inflight
			case ok && before == inflight:
				bad = fmt.Sprintf("the transaction of action %d was forgotten", i)
			case ok:
				m.st[i] = waiting
			}
			// everything else is as it was, except that expired ones behind it may be dropped already and
			// the next batch may have been handed over
			for j := range m.exp {
				_, ok := have[j]
				if j == i || (ct.expired[j] && m.st[j] == waiting) || (j >= m.added && !ok) {
					continue
				}
				if j < m.added && ok != (m.st[j] != gone) {
					bad = fmt.Sprintf("stored: action %d is pending: %v", j, ok)
				}
			}
			ct.mu.Unlock()
			// it went on from there just as when it had been stopped before or after the answer
			e.fs.Close()
			e = nil
			return steps, bad
		}
	}
	// everything is done
	end := e
	e = nil
	msg := end.stop()
	files := end.fs.Files()
	end.fs.Close()
	if msg != "" {
		return steps, msg
	}
	if end.err != "" {
		return steps, end.err
	}
	if have, err := pendingOnDisk(files); err != nil || len(have) != 0 {
		return steps, fmt.Sprintf("stored at the end: %v %v", have, err)
	}
	return steps, check()
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var transitions int64

func TestC24(t *testing.T) { explore(verifkit.Start("runner"), true) }

// TestC24Race explores less, with the race detector on.
func TestC24Race(t *testing.T) { explore(verifkit.Start("runner-race"), false) }

func explore(r *verifkit.Run, full bool) {
	defer r.Finish()
	r.Assume("a stopped runner's calls to the nodes end once their context is cancelled")
	list := []scenario{
		{"mixed", "mtmt", []int{0, 2}},
		{"transactions", "ttt", []int{0, 2}},
		{"messages", "mmm", []int{0, 1}},
		{"messages-first", "mmtmt", []int{0, 3}},
		{"two-batches", "tmtmmt", []int{0, 3, 5}},
	}
	bound := r.Pick(2, 3)
	if !full {
		list, bound = list[:1], 1
	}
	for _, s := range list {
		s := s
		st := r.Explore(verifkit.Options{Name: r.Job + "/" + s.name, Bound: bound, Dedup: true}, func(c *verifkit.Chooser) {
			steps, bad := runScenario(r, c, s, r.Pick(1, 2))
			if bad != "" {
				key := bad
				if i := strings.Index(key, " ["); i >= 0 {
					key = key[:i]
				}
				if i := strings.Index(key, ", in "); i >= 0 {
					key = key[:i]
				}
				r.Violation(r.Job+": "+key, bad, c.Replay(r.Job+"/"+s.name))
			}
			r.Sample(strings.Join(steps, "; "))
		})
		r.Count("states", st.States)
		r.Count("traces", st.Executions-st.Pruned)
	}
	r.Count("transitions", atomic.LoadInt64(&transitions))
}
