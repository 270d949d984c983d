// Package fs is an in-memory file system that records every operation, so that all states a crash can
// leave on disk can be enumerated.
//
// Storage model. Directory changes (create, rename, remove, truncate) reach the disk in the order they
// were made; syncing a file makes all earlier ones durable (a journaling file system). File contents are
// durable once the file was synced after they were written; unsynced writes may be missing, partly
// there, or there as zeros.
package fs

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Op is one operation.
type Op struct {
	Kind string // create, trunc, write, sync, rename, remove, mkdir
	Path string
	To   string
	Node int
	Off  int64
	Data []byte
}

func (o Op) String() string {
	switch o.Kind {
	case "write":
		return fmt.Sprintf("write %s %d bytes", filepath.Base(o.Path), len(o.Data))
	case "rename":
		return fmt.Sprintf("rename %s %s", filepath.Base(o.Path), filepath.Base(o.To))
	}
	return o.Kind + " " + filepath.Base(o.Path)
}

func (o Op) meta() bool { return o.Kind != "write" && o.Kind != "sync" }

type inode struct {
	id   int
	data []byte
	dir  bool
}

// FS is a file system mounted under Root.
type FS struct {
	mu    sync.Mutex
	Root  string
	names map[string]*inode
	next  int
	base  map[string]string // durable contents at the start
	ids   map[string]int    // of the files there at the start
	log   []Op
	// Fail is asked before every operation; short: how many bytes of a failing write are written.
	Fail func(n int, o Op) (err error, short int)
	dead bool
	// Before is called before every operation (also "read": opening for reading) without any lock held.
	Before func(o Op)

	touched map[string]bool
}

// Touched are the names (relative to the root) whose contents or existence were looked at since the start.
func (f *FS) Touched() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var l []string
	for p := range f.touched {
		l = append(l, strings.TrimPrefix(p, f.Root+"/"))
	}
	sort.Strings(l)
	return l
}

func (f *FS) touch(path string) {
	if f.touched == nil {
		f.touched = map[string]bool{}
	}
	f.touched[path] = true
}

var (
	mounts  sync.Map
	counter int
	cmu     sync.Mutex
)

// New mounts a file system with the given files (names relative to the root).
func New(files map[string]string) *FS {
	cmu.Lock()
	counter++
	root := fmt.Sprintf("/verifmem/%09d", counter)
	cmu.Unlock()
	f := &FS{Root: root, names: map[string]*inode{}, base: map[string]string{}, ids: map[string]int{}}
	f.names[root] = &inode{id: -1, dir: true}
	for n, d := range files {
		f.next++
		p := filepath.Join(root, n)
		f.names[p] = &inode{id: f.next, data: []byte(d)}
		f.base[p], f.ids[p] = d, f.next
	}
	mounts.Store(root, f)
	return f
}

// Close unmounts.
func (f *FS) Close() { mounts.Delete(f.Root) }

// Kill lets all later operations fail: the process is dead.
func (f *FS) Kill() { f.mu.Lock(); f.dead = true; f.mu.Unlock() }

// For finds the file system of a path.
func For(path string) *FS {
	if !strings.HasPrefix(path, "/verifmem/") {
		return nil
	}
	rest := path[len("/verifmem/"):]
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		rest = rest[:i]
	}
	if f, ok := mounts.Load("/verifmem/" + rest); ok {
		return f.(*FS)
	}
	return nil
}

// Log is a copy of the operations so far.
func (f *FS) Log() []Op { f.mu.Lock(); defer f.mu.Unlock(); return append([]Op{}, f.log...) }

// Len is the number of operations so far.
func (f *FS) Len() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.log) }

// Files are the current contents, as the running system sees them.
func (f *FS) Files() map[string]string {
	f.mu.Lock()
	defer f.mu.Unlock()
	m := map[string]string{}
	for p, n := range f.names {
		if !n.dir {
			m[strings.TrimPrefix(p, f.Root+"/")] = string(n.data)
		}
	}
	return m
}

func (f *FS) do(o Op) (error, int) {
	if f.dead {
		return syscall.EIO, 0
	}
	if f.Fail != nil {
		if err, short := f.Fail(len(f.log), o); err != nil {
			return err, short
		}
	}
	f.log = append(f.log, o)
	return nil, 0
}

func (f *FS) before(o Op) {
	if f.Before != nil {
		f.Before(o)
	}
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

// Handle is an open file.
type Handle struct {
	f    *FS
	node *inode
	path string
	off  int64
	app  bool
	rd   bool
	wr   bool
	shut bool
}

// Open opens a file.
func (f *FS) Open(path string, flag int) (*Handle, error) {
	path = filepath.Clean(path)
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		f.before(Op{Kind: "create", Path: path})
	} else {
		f.before(Op{Kind: "read", Path: path})
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if flag&(os.O_CREATE|os.O_TRUNC) != os.O_CREATE|os.O_TRUNC || flag&os.O_EXCL != 0 {
		f.touch(path)
	}
	n := f.names[path]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	h := &Handle{f: f, path: path, app: flag&os.O_APPEND != 0, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", path, syscall.ENOENT)
		}
		if d := f.names[filepath.Dir(path)]; d == nil || !d.dir {
			return nil, perr("open", path, syscall.ENOENT)
		}
		f.next++
		n = &inode{id: f.next}
		if err, _ := f.do(Op{Kind: "create", Path: path, Node: n.id}); err != nil {
			return nil, perr("open", path, err)
		}
		f.names[path] = n
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.dir && h.wr {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && h.wr {
			if err, _ := f.do(Op{Kind: "trunc", Path: path, Node: n.id}); err != nil {
				return nil, perr("open", path, err)
			}
			n.data = nil
		}
	}
	h.node = n
	return h, nil
}

// WriteAt writes at a position; -1: the current one.
func (h *Handle) WriteAt(p []byte, off int64) (int, error) {
	h.f.before(Op{Kind: "write", Path: h.path, Data: p})
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	if h.shut || !h.wr {
		return 0, perr("write", h.path, os.ErrClosed)
	}
	at := off
	if off < 0 {
		at = h.off
		if h.app {
			at = int64(len(h.node.data))
		}
	}
	err, short := h.f.do(Op{Kind: "write", Path: h.path, Node: h.node.id, Off: at, Data: append([]byte{}, p...)})
	if err != nil {
		if short > len(p) {
			short = len(p)
		}
		if short > 0 {
			h.f.log = append(h.f.log, Op{Kind: "write", Path: h.path, Node: h.node.id, Off: at, Data: append([]byte{}, p[:short]...)})
			h.node.data = put(h.node.data, at, p[:short])
			if off < 0 {
				h.off = at + int64(short)
			}
		}
		return short, perr("write", h.path, err)
	}
	h.node.data = put(h.node.data, at, p)
	if off < 0 {
		h.off = at + int64(len(p))
	}
	return len(p), nil
}

func put(data []byte, at int64, p []byte) []byte {
	end := at + int64(len(p))
	n := make([]byte, 0, end)
	n = append(n, data...)
	for int64(len(n)) < end {
		n = append(n, 0)
	}
	copy(n[at:], p)
	return n
}

// ReadAt reads at a position; -1: the current one.
func (h *Handle) ReadAt(p []byte, off int64) (int, bool, error) {
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	if h.shut {
		return 0, false, perr("read", h.path, os.ErrClosed)
	}
	if h.node.dir {
		return 0, false, perr("read", h.path, syscall.EISDIR)
	}
	at := off
	if off < 0 {
		at = h.off
	}
	if at >= int64(len(h.node.data)) {
		return 0, len(p) > 0, nil
	}
	n := copy(p, h.node.data[at:])
	if off < 0 {
		h.off += int64(n)
	}
	return n, false, nil
}

// Seek moves the position.
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	switch whence {
	case 0:
		h.off = off
	case 1:
		h.off += off
	case 2:
		h.off = int64(len(h.node.data)) + off
	}
	return h.off, nil
}

// Sync makes the file durable.
func (h *Handle) Sync() error {
	h.f.before(Op{Kind: "sync", Path: h.path})
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	if h.shut {
		return perr("sync", h.path, os.ErrClosed)
	}
	if err, _ := h.f.do(Op{Kind: "sync", Path: h.path, Node: h.node.id}); err != nil {
		return perr("sync", h.path, err)
	}
	return nil
}

// Truncate changes the size.
func (h *Handle) Truncate(size int64) error {
	h.f.before(Op{Kind: "trunc", Path: h.path})
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	if err, _ := h.f.do(Op{Kind: "trunc", Path: h.path, Node: h.node.id, Off: size}); err != nil {
		return perr("truncate", h.path, err)
	}
	h.node.data = put(h.node.data, size, nil)[:size]
	return nil
}

// Close closes.
func (h *Handle) Close() error {
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	if h.shut {
		return perr("close", h.path, os.ErrClosed)
	}
	h.shut = true
	return nil
}

// Name is the path the file was opened with.
func (h *Handle) Name() string { return h.path }

// Stat describes the file.
func (h *Handle) Stat() os.FileInfo {
	h.f.mu.Lock()
	defer h.f.mu.Unlock()
	return Info{filepath.Base(h.path), int64(len(h.node.data)), h.node.dir}
}

// Info is a FileInfo.
type Info struct {
	N string
	S int64
	D bool
}

func (i Info) Name() string { return i.N }
func (i Info) Size() int64  { return i.S }
func (i Info) Mode() os.FileMode {
	if i.D {
		return os.ModeDir | 0o755
	}
	return 0o600
}
func (i Info) ModTime() time.Time { return time.Time{} }
func (i Info) IsDir() bool        { return i.D }
func (i Info) Sys() interface{}   { return nil }

// Stat describes a file.
func (f *FS) Stat(path string) (os.FileInfo, error) {
	path = filepath.Clean(path)
	f.mu.Lock()
	defer f.mu.Unlock()
	f.touch(path)
	n := f.names[path]
	if n == nil {
		return nil, perr("stat", path, syscall.ENOENT)
	}
	return Info{filepath.Base(path), int64(len(n.data)), n.dir}, nil
}

// Rename renames.
func (f *FS) Rename(a, b string) error {
	a, b = filepath.Clean(a), filepath.Clean(b)
	f.before(Op{Kind: "rename", Path: a, To: b})
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.names[a]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if err, _ := f.do(Op{Kind: "rename", Path: a, To: b, Node: n.id}); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	delete(f.names, a)
	f.names[b] = n
	return nil
}

// Remove removes.
func (f *FS) Remove(path string) error {
	path = filepath.Clean(path)
	f.before(Op{Kind: "remove", Path: path})
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.names[path]
	if n == nil {
		return perr("remove", path, syscall.ENOENT)
	}
	if err, _ := f.do(Op{Kind: "remove", Path: path, Node: n.id}); err != nil {
		return perr("remove", path, err)
	}
	delete(f.names, path)
	return nil
}

// Mkdir makes a directory.
func (f *FS) Mkdir(path string) error {
	path = filepath.Clean(path)
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.names[path] != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	f.next++
	if err, _ := f.do(Op{Kind: "mkdir", Path: path, Node: f.next}); err != nil {
		return perr("mkdir", path, err)
	}
	f.names[path] = &inode{id: f.next, dir: true}
	return nil
}

// ReadDir lists the files of a directory.
func (f *FS) ReadDir(path string) []os.FileInfo {
	path = filepath.Clean(path)
	f.mu.Lock()
	defer f.mu.Unlock()
	f.touch(path)
	var l []os.FileInfo
	for p, n := range f.names {
		if p != path && filepath.Dir(p) == path {
			l = append(l, Info{filepath.Base(p), int64(len(n.data)), n.dir})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l
}

// Image is what is on disk: contents by name relative to the root.
type Image struct {
	Files map[string]string
	What  string
}

// Process is the image after the process died behind operation k: everything done is there.
func (f *FS) Process(log []Op, k int) Image {
	d := f.start()
	for _, o := range log[:k] {
		d.meta(o)
		if o.Kind == "write" {
			d.write(o)
		}
	}
	return Image{d.files(f.Root), fmt.Sprintf("process stopped after operation %d %s", k, last(log, k))}
}

func last(log []Op, k int) string {
	if k == 0 {
		return ""
	}
	return "(" + log[k-1].String() + ")"
}

type disk struct {
	names map[string]int
	data  map[int][]byte
	dirs  map[string]bool
}

func (f *FS) start() *disk {
	d := &disk{map[string]int{}, map[int][]byte{}, map[string]bool{}}
	for p, c := range f.base {
		d.names[p], d.data[f.ids[p]] = f.ids[p], []byte(c)
	}
	return d
}

func (d *disk) meta(o Op) {
	switch o.Kind {
	case "create":
		d.names[o.Path] = o.Node
		if d.data[o.Node] == nil {
			d.data[o.Node] = []byte{}
		}
	case "trunc":
		d.data[o.Node] = put(d.data[o.Node], o.Off, nil)[:o.Off]
	case "rename":
		if id, ok := d.names[o.Path]; ok {
			delete(d.names, o.Path)
			d.names[o.To] = id
		}
	case "remove":
		delete(d.names, o.Path)
	case "mkdir":
		d.dirs[o.Path] = true
	}
}

func (d *disk) write(o Op) {
	d.data[o.Node] = put(d.data[o.Node], o.Off, o.Data)
}

func (d *disk) files(root string) map[string]string {
	m := map[string]string{}
	for p, id := range d.names {
		m[strings.TrimPrefix(p, root+"/")] = string(d.data[id])
	}
	return m
}

// Machine lists the images that may be found after the machine died behind operation k.
func (f *FS) Machine(log []Op, k int) []Image {
	log = log[:k]
	// directory changes: durable up to the last sync, later ones up to any point
	committed, metas := 0, []int{}
	for i, o := range log {
		if o.meta() {
			metas = append(metas, i)
		}
		if o.Kind == "sync" {
			committed = len(metas)
		}
	}
	var out []Image
	seen := map[string]bool{}
	for m := committed; m <= len(metas); m++ {
		limit := len(log) // directory changes up to here are applied
		if m < len(metas) {
			limit = metas[m]
		}
		// which file is which
		// contents per inode: durable part and unsynced writes, by walking the full log
		full := f.start()
		type pend struct {
			base []byte
			w    []Op
		}
		pending := map[int]*pend{}
		at := func(id int) *pend {
			if pending[id] == nil {
				pending[id] = &pend{base: append([]byte{}, full.data[id]...)}
			}
			return pending[id]
		}
		onDisk := f.start()
		for i, o := range log {
			switch p := at(o.Node); o.Kind {
			case "write":
				p.w = append(p.w, o)
			case "sync":
				for _, w := range p.w {
					p.base = put(p.base, w.Off, w.Data)
				}
				p.w = nil
			case "trunc":
				if i < limit { // the size is cut after the writes before it
					for _, w := range p.w {
						p.base = put(p.base, w.Off, w.Data)
					}
					p.base, p.w = put(p.base, o.Off, nil)[:o.Off], nil
				}
			}
			full.meta(o)
			if i < limit {
				onDisk.meta(o)
			}
		}
		var names []string
		for p := range onDisk.names {
			names = append(names, p)
		}
		sort.Strings(names)
		var rec func(i int, files map[string]string, what string)
		rec = func(i int, files map[string]string, what string) {
			if i == len(names) {
				h := fmt.Sprint(files)
				if !seen[h] {
					seen[h] = true
					c := map[string]string{}
					for k, v := range files {
						c[k] = v
					}
					out = append(out, Image{c, fmt.Sprintf("machine stopped after operation %d %s, %d of %d directory changes on disk%s", k, last(log, k), m, len(metas), what)})
				}
				return
			}
			rel := strings.TrimPrefix(names[i], f.Root+"/")
			id := onDisk.names[names[i]]
			p := pending[id]
			if p == nil {
				files[rel] = string(onDisk.data[id])
				rec(i+1, files, what)
				return
			}
			for _, v := range contents(p.base, p.w) {
				files[rel] = v.data
				w := what
				if v.what != "" {
					w += ", " + rel + ": " + v.what
				}
				rec(i+1, files, w)
			}
		}
		rec(0, map[string]string{}, "")
	}
	return out
}

type variant struct{ data, what string }

func contents(base []byte, w []Op) []variant {
	v := []variant{{string(base), ""}}
	if len(w) == 0 {
		return v
	}
	v[0].what = "unsynced writes lost"
	cur := base
	for i, o := range w {
		if len(o.Data) > 1 {
			v = append(v, variant{string(put(cur, o.Off, o.Data[:len(o.Data)/2])), fmt.Sprintf("unsynced write %d torn", i)})
		}
		cur = put(cur, o.Off, o.Data)
		v = append(v, variant{string(cur), fmt.Sprintf("%d of %d unsynced writes there", i+1, len(w))})
	}
	z := append([]byte{}, cur...)
	for _, o := range w {
		for j := range o.Data {
			z[o.Off+int64(j)] = 0
		}
	}
	v = append(v, variant{string(z), "unsynced writes are zeros"})
	return v
}
