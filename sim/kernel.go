package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
)

// The simulated kernel: an in-memory file system, a clock and the system call
// table of the simulated processes.

type inode struct {
	ino    uint64
	dir    bool
	mode   uint32
	data   []byte
	kids   map[string]*inode
	mtime  int64
	synced []byte // content guaranteed after power loss
	durDir bool   // directory entry/creation considered durable
	dirty  bool   // written since the last fsync
	fresh  bool   // created by a simulated process and not fsynced
	wr     int    // number of data writes
}

type ofile struct {
	n     *inode
	off   int64
	flags int
	path  string
	wrote bool
	dirs  []string
	fd12  int
}

type Event struct {
	Proc  int    `json:"p"`
	Task  uint64 `json:"t,omitempty"`
	Op    int    `json:"op"`
	Call  string `json:"call"`
	Path  string `json:"path,omitempty"`
	N     int64  `json:"n,omitempty"`
	Ret   int64  `json:"ret"`
	Err   string `json:"err,omitempty"`
	Fault string `json:"fault,omitempty"`
}

type Kernel struct {
	root    *inode
	nextIno uint64
	clock   int64
	cap     int64 // bytes of file data the disk holds; <0 unlimited
	used    int64
	trace   []Event
	notes   []string
	hash    [32]byte
	nEv     int
	keep    bool
}

func newKernel() *Kernel {
	k := &Kernel{cap: -1, clock: 1_600_000_000_000_000_000, keep: true}
	k.root = k.mk(true, 0755)
	return k
}

func (k *Kernel) mk(dir bool, mode uint32) *inode {
	k.nextIno++
	n := &inode{ino: k.nextIno, dir: dir, mode: mode, mtime: k.clock}
	if dir {
		n.kids = map[string]*inode{}
	}
	return n
}

func splitPath(p string) []string {
	var out []string
	for _, s := range strings.Split(path.Clean(p), "/") {
		if s != "" && s != "." {
			out = append(out, s)
		}
	}
	return out
}

// put creates a file (and its parents) from outside the simulation.
func (k *Kernel) put(p string, data []byte) {
	n := k.mkdirs(path.Dir(p))
	f := k.mk(false, 0644)
	f.data = append([]byte(nil), data...)
	f.synced = f.data
	n.kids[path.Base(p)] = f
	k.used += int64(len(data))
}

func (k *Kernel) mkdirs(p string) *inode {
	n := k.root
	for _, s := range splitPath(p) {
		c := n.kids[s]
		if c == nil {
			c = k.mk(true, 0755)
			n.kids[s] = c
		}
		n = c
	}
	return n
}

// look resolves an absolute path.  Errors follow Linux.
func (k *Kernel) look(p string) (*inode, syscall.Errno) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	n := k.root
	for _, s := range splitRaw(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if len(s) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		c := n.kids[s]
		if c == nil {
			return nil, syscall.ENOENT
		}
		n = c
	}
	if strings.HasSuffix(p, "/") && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, 0
}

// splitRaw keeps ".." out by lexical cleaning (the simulated tree has no
// symbolic links, so this equals the kernel's walk for existing parents).
func splitRaw(p string) []string { return splitPath(p) }

func (k *Kernel) parent(p string) (*inode, string, syscall.Errno) {
	c := path.Clean(p)
	if c == "/" {
		return nil, "", syscall.EEXIST
	}
	d, e := k.look(path.Dir(c))
	if e != 0 {
		return nil, "", e
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	if len(path.Base(c)) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return d, path.Base(c), 0
}

// Tree is a snapshot: path -> content; directories end in "/".
type Tree map[string]string

func (k *Kernel) snapshot(prefixes ...string) Tree {
	t := Tree{}
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		if n.dir {
			if p != "" {
				t[p+"/"] = ""
			}
			for s, c := range n.kids {
				walk(p+"/"+s, c)
			}
			return
		}
		t[p] = string(n.data)
	}
	walk("", k.root)
	if len(prefixes) > 0 {
		for p := range t {
			if !underAny(p, prefixes) {
				delete(t, p)
			}
		}
	}
	return t
}

func underAny(p string, prefixes []string) bool {
	for _, x := range prefixes {
		if p == x || p == x+"/" || strings.HasPrefix(p, strings.TrimSuffix(x, "/")+"/") {
			return true
		}
	}
	return false
}

func (t Tree) keys() []string {
	var ks []string
	for p := range t {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	return ks
}

func (t Tree) digest() string {
	h := sha256.New()
	for _, p := range t.keys() {
		fmt.Fprintf(h, "%q %d %q\n", p, len(t[p]), t[p])
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func statBytes(n *inode) []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	le.PutUint64(b[0:], 1)
	le.PutUint64(b[8:], n.ino)
	le.PutUint64(b[16:], 1)
	m := n.mode
	if n.dir {
		m |= syscall.S_IFDIR
	} else {
		m |= syscall.S_IFREG
	}
	le.PutUint32(b[24:], m)
	le.PutUint32(b[28:], 1000)
	le.PutUint32(b[32:], 1000)
	le.PutUint64(b[48:], uint64(len(n.data)))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((len(n.data)+511)/512))
	for i := 0; i < 3; i++ {
		le.PutUint64(b[72+16*i:], uint64(n.mtime/1e9))
		le.PutUint64(b[80+16*i:], uint64(n.mtime%1e9))
	}
	return b
}

// charDev is the stat record of the standard streams.
func charDev() []byte {
	b := make([]byte, 144)
	binary.LittleEndian.PutUint32(b[24:], syscall.S_IFCHR|0620)
	binary.LittleEndian.PutUint64(b[16:], 1)
	return b
}

// grow applies a data write to an inode, honouring the disk's capacity;
// it returns how many bytes fit.
func (k *Kernel) writeAt(n *inode, off int64, b []byte) int {
	end := off + int64(len(b))
	add := end - int64(len(n.data))
	if add > 0 && k.cap >= 0 && k.used+add > k.cap {
		fit := k.cap - k.used
		if fit < 0 {
			fit = 0
		}
		cut := add - fit
		if cut > int64(len(b)) {
			cut = int64(len(b))
		}
		b = b[:int64(len(b))-cut]
		end = off + int64(len(b))
		if len(b) == 0 {
			return 0
		}
	}
	if end > int64(len(n.data)) {
		k.used += end - int64(len(n.data))
		nd := make([]byte, end)
		copy(nd, n.data)
		n.data = nd
	} else {
		n.data = append([]byte(nil), n.data...)
	}
	copy(n.data[off:], b)
	n.mtime = k.clock
	n.dirty = true
	n.wr++
	return len(b)
}

func (k *Kernel) truncate(n *inode, size int64) {
	if size <= int64(len(n.data)) {
		k.used -= int64(len(n.data)) - size
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		nd := make([]byte, size)
		copy(nd, n.data)
		k.used += size - int64(len(n.data))
		n.data = nd
	}
	n.mtime = k.clock
	n.dirty = true
}

// powerLoss replaces every file not fsynced with one of the states a disk may
// hold after the machine loses power.
func (k *Kernel) powerLoss(r *rng) []string {
	var notes []string
	var walk func(p string, n *inode)
	walk = func(p string, n *inode) {
		var names []string
		for s := range n.kids {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			c := n.kids[s]
			q := p + "/" + s
			if c.dir {
				walk(q, c)
				if c.fresh && len(c.kids) == 0 && r.n(3) == 0 {
					delete(n.kids, s)
					notes = append(notes, q+"/ lost")
				}
				continue
			}
			if !c.dirty && !c.fresh {
				continue
			}
			switch r.n(6) {
			case 0: // survives intact
				notes = append(notes, q+" intact")
			case 1: // name exists, no data
				c.data = nil
				notes = append(notes, q+" empty")
			case 2: // prefix
				if len(c.data) > 0 {
					m := r.n(len(c.data))
					c.data = append([]byte(nil), c.data[:m]...)
					notes = append(notes, fmt.Sprintf("%s cut to %d", q, m))
				}
			case 3: // length updated, data blocks zero
				d := append([]byte(nil), c.data...)
				if len(d) > 0 {
					m := r.n(len(d))
					for i := m; i < len(d); i++ {
						d[i] = 0
					}
					notes = append(notes, fmt.Sprintf("%s zeroed from %d", q, m))
				}
				c.data = d
			case 4: // directory entry lost
				if c.fresh {
					delete(n.kids, s)
					notes = append(notes, q+" lost")
				} else {
					c.data = append([]byte(nil), c.synced...)
					notes = append(notes, q+" reverted")
				}
			case 5: // old content (in-place overwrite not reached the disk)
				c.data = append([]byte(nil), c.synced...)
				if c.fresh {
					c.data = nil
				}
				notes = append(notes, q+" reverted")
			}
			c.dirty, c.fresh = false, false
			c.synced = c.data
		}
	}
	walk("", k.root)
	k.recount()
	return notes
}

func (k *Kernel) recount() {
	k.used = 0
	var walk func(n *inode)
	walk = func(n *inode) {
		k.used += int64(len(n.data))
		for _, c := range n.kids {
			walk(c)
		}
	}
	walk(k.root)
}

type rng struct{ s uint64 }

func newRng(seed uint64, salt ...string) *rng {
	h := sha256.New()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	for _, s := range salt {
		h.Write([]byte{0})
		h.Write([]byte(s))
	}
	return &rng{binary.LittleEndian.Uint64(h.Sum(nil))}
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) p(num, den int) bool    { return r.n(den) < num }
func (r *rng) pick(s []string) string { return s[r.n(len(s))] }
func (r *rng) seed() uint64           { return r.u64()>>2 | 1 }
func (r *rng) shuffle(n int, sw func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		sw(i, r.n(i+1))
	}
}

func keysOf(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for q := range m {
		k = append(k, q)
	}
	sort.Strings(k)
	return k
}
