package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// The simulated storage: what processes see (page cache and directory cache)
// and, separately, what would be left after a power failure.

const (
	tReg  = 0o100000
	tDir  = 0o040000
	tLink = 0o120000
	tFifo = 0o010000
	tChr  = 0o020000
)

type dataOp struct {
	trunc bool
	size  int
	off   int
	b     []byte
}

type inode struct {
	ino    uint64
	typ    uint32
	mode   uint32 // permission bits incl. setuid, setgid, sticky
	uid    uint32
	gid    uint32
	nlink  int
	dev    int
	data   []byte
	target string
	origin string // path it was set up under
	ents   map[string]*inode
	parent *inode
	mtime  uint64
	ctime  uint64
	opens  int

	// stable storage
	dur     []byte
	pend    []dataOp
	durMode uint32
	durEnts map[string]*inode

	feed     []byte // pipes: what can be read from it; data holds what was written to it
	fed      int
	chunk    int  // pipes: most bytes one read brings
	zeroSize bool // stat shows no size, as in procfs

	writes  int  // data-changing calls ever made on it
	lost    bool // data written to it was dropped, because fsync failed
	lockers map[*ofd]int
}

// one metadata transaction of the journal
type jrec struct {
	dir  *inode
	name string
	to   *inode // nil: entry removed
	dir2 *inode // second half of a rename
	nam2 string
	to2  *inode
	attr *inode
	mode uint32
}

type fsys struct {
	root      *inode
	nextIno   uint64
	tick      uint64
	timeBase  uint64
	timeUnit  uint64 // changes that have the same time stamp
	journal   []jrec
	jdone     int // journal records already on stable storage
	capacity  int // bytes on device 1, <0 unlimited
	dirSeed   uint64
	syncsMeta bool // fsync of a file also commits the metadata journal
	all       []*inode
}

func newFS(inoBase, timeBase, dirSeed uint64) *fsys {
	f := &fsys{nextIno: inoBase, timeBase: timeBase, capacity: -1, dirSeed: dirSeed}
	f.root = f.mknod(tDir, 0o755, 0, 0, 1)
	f.root.parent = f.root
	return f
}

func (f *fsys) mknod(typ, mode, uid, gid uint32, dev int) *inode {
	f.nextIno++
	i := &inode{ino: f.nextIno, typ: typ, mode: mode, durMode: mode, uid: uid, gid: gid, dev: dev, mtime: f.tick, ctime: f.tick}
	if typ == tDir {
		i.ents = map[string]*inode{}
		i.durEnts = map[string]*inode{}
		i.nlink = 2
	}
	f.all = append(f.all, i)
	return i
}

func splitPath(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// setup helpers: create durable state before a run starts
func (f *fsys) mkdirAll(p string, mode, uid uint32, dev int) *inode {
	cur := f.root
	for _, c := range splitPath(p) {
		n := cur.ents[c]
		if n == nil {
			n = f.mknod(tDir, mode, uid, uid, dev)
			n.parent = cur
			f.link(cur, c, n)
		}
		cur = n
	}
	return cur
}

func (f *fsys) link(dir *inode, name string, n *inode) {
	dir.ents[name] = n
	dir.durEnts[name] = n
	if n.typ != tDir {
		n.nlink++
	}
}

// create is what open and mkdir of a new name come to.
func (f *fsys) create(dir *inode, typ, mode uint32, c cred) *inode {
	gid := c.gid
	if dir.mode&0o2000 != 0 {
		gid = dir.gid
		if typ == tDir {
			mode |= 0o2000
		} else if mode&0o2010 == 0o2010 && c.uid != 0 && !c.in(gid) {
			mode &^= 0o2000
		}
	}
	return f.mknod(typ, mode, c.uid, gid, dir.dev)
}

// stripPrivs takes the setuid and setgid bits from a file whose content or
// owner changes.
func (f *fsys) stripPrivs(n *inode, c cred, owner bool) {
	if n.typ != tReg || !owner && c.uid == 0 {
		return
	}
	m := n.mode &^ 0o4000
	if m&0o2000 != 0 && (m&0o010 != 0 || c.uid != 0 && !c.in(n.gid)) {
		m &^= 0o2000
	}
	if m != n.mode {
		f.setMode(n, m)
	}
}

func (f *fsys) putFile(p string, content string, mode, uid uint32) *inode {
	cs := splitPath(p)
	dir := f.root
	for _, c := range cs[:len(cs)-1] {
		dir = dir.ents[c]
		if dir == nil {
			panic("putFile: no directory for " + p)
		}
	}
	n := f.mknod(tReg, mode, uid, uid, dir.dev)
	n.data = []byte(content)
	n.dur = []byte(content)
	n.origin = "/" + strings.Join(cs, "/")
	f.link(dir, cs[len(cs)-1], n)
	return n
}

func (f *fsys) putSymlink(p, target string, uid uint32) *inode {
	cs := splitPath(p)
	dir := f.root
	for _, c := range cs[:len(cs)-1] {
		dir = dir.ents[c]
	}
	n := f.mknod(tLink, 0o777, uid, uid, dir.dev)
	n.target = target
	f.link(dir, cs[len(cs)-1], n)
	return n
}

// content is what a process gets that reads all of a file.
func (n *inode) content() string {
	if n.typ == tReg {
		return string(n.data)
	}
	return string(n.feed)
}

func (n *inode) readable() bool { return n.typ == tReg || n.typ == tFifo || n.typ == tChr }

type cred struct {
	uid, gid uint32
	groups   []uint32
}

func (c cred) in(g uint32) bool {
	for _, x := range c.groups {
		if x == g {
			return true
		}
	}
	return c.gid == g
}

func (c cred) may(n *inode, bit uint32) bool {
	if c.uid == 0 {
		return true
	}
	m := n.mode
	switch {
	case n.uid == c.uid:
		m >>= 6
	case c.in(n.gid):
		m >>= 3
	}
	return m&bit == bit
}

// walk resolves a path. It returns the directory that holds the last
// component, that component's name ("" for the starting point itself) and the
// inode (nil if there is none).
func (f *fsys) walk(c cred, start *inode, path string, follow bool, depth int) (dir *inode, name string, n *inode, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(path) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := start
	if path[0] == '/' {
		cur = f.root
	}
	trailing := strings.HasSuffix(path, "/")
	parts := splitPath(path)
	if len(parts) == 0 {
		return cur.parent, "", cur, 0
	}
	for i, part := range parts {
		last := i == len(parts)-1
		if cur.typ != tDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !c.may(cur, 1) {
			return nil, "", nil, syscall.EACCES
		}
		if len(part) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if part == ".." {
			cur = cur.parent
			if last {
				return cur.parent, "", cur, 0
			}
			continue
		}
		nx := cur.ents[part]
		if nx != nil && nx.typ == tLink && (!last || follow || trailing) {
			if depth >= 40 {
				return nil, "", nil, syscall.ELOOP
			}
			d2, n2, i2, e2 := f.walk(c, cur, nx.target, true, depth+1)
			if e2 != 0 {
				return nil, "", nil, e2
			}
			if last {
				if i2 != nil && trailing && i2.typ != tDir {
					return nil, "", nil, syscall.ENOTDIR
				}
				return d2, n2, i2, 0
			}
			nx = i2
		}
		if last {
			if nx != nil && trailing && nx.typ != tDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, part, nx, 0
		}
		if nx == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = nx
	}
	return nil, "", nil, syscall.ENOENT
}

// walkParent resolves all but the last component of a path, as the calls do
// that make or remove names; slash tells that the path ends in one.
func (f *fsys) walkParent(c cred, start *inode, path string) (dir *inode, name string, n *inode, slash bool, e syscall.Errno) {
	t := strings.TrimRight(path, "/")
	if t == "" || len(path) >= 4096 {
		dir, name, n, e = f.walk(c, start, path, false, 0)
		return dir, name, n, false, e
	}
	dir, name, n, e = f.walk(c, start, t, false, 0)
	if e == 0 {
		if b := t[strings.LastIndexByte(t, '/')+1:]; b == "." || b == ".." {
			name = ""
		}
	}
	return dir, name, n, len(t) != len(path), e
}

// peek resolves a path as an outside observer would (no permission checks).
func (f *fsys) peek(path string) *inode {
	_, _, n, e := f.walk(cred{}, f.root, path, true, 0)
	if e != 0 {
		return nil
	}
	return n
}

func (f *fsys) lpeek(path string) *inode {
	_, _, n, e := f.walk(cred{}, f.root, path, false, 0)
	if e != 0 {
		return nil
	}
	return n
}

func (f *fsys) touch(n *inode) {
	f.tick++
	n.mtime = f.tick
	n.ctime = f.tick
}

func (f *fsys) used() int {
	t := 0
	for _, n := range f.all {
		if n.typ == tReg && n.dev == 1 && (n.nlink > 0 || n.opens > 0) {
			t += (len(n.data) + 511) / 512 * 512
		}
	}
	return t
}

// room tells how many bytes a file may grow to.
func (f *fsys) room(n *inode) int {
	if f.capacity < 0 || n.dev != 1 {
		return 1 << 40
	}
	free := f.capacity - f.used()
	if free < 0 {
		free = 0
	}
	return (len(n.data)+511)/512*512 + free/512*512
}

func (f *fsys) write(n *inode, off int, b []byte) {
	if len(b) == 0 {
		return
	}
	nb := append([]byte(nil), b...)
	n.pend = append(n.pend, dataOp{off: off, b: nb})
	n.data = applyOp(n.data, dataOp{off: off, b: nb})
	n.writes++
	f.touch(n)
}

func (f *fsys) truncate(n *inode, size int) {
	n.pend = append(n.pend, dataOp{trunc: true, size: size})
	n.data = applyOp(n.data, dataOp{trunc: true, size: size})
	n.writes++
	f.touch(n)
}

func applyOp(d []byte, o dataOp) []byte {
	nd := append([]byte(nil), d...)
	if o.trunc {
		if o.size <= len(nd) {
			return nd[:o.size]
		}
		return append(nd, make([]byte, o.size-len(nd))...)
	}
	if e := o.off + len(o.b); e > len(nd) {
		nd = append(nd, make([]byte, e-len(nd))...)
	}
	copy(nd[o.off:], o.b)
	return nd
}

func (f *fsys) log(r jrec) { f.journal = append(f.journal, r) }

func (f *fsys) addEnt(dir *inode, name string, n *inode) {
	dir.ents[name] = n
	if n.typ != tDir {
		n.nlink++
	}
	f.touch(dir)
	f.log(jrec{dir: dir, name: name, to: n})
}

func (f *fsys) delEnt(dir *inode, name string) {
	n := dir.ents[name]
	delete(dir.ents, name)
	if n.typ != tDir {
		n.nlink--
	}
	n.ctime = f.tick
	f.touch(dir)
	f.log(jrec{dir: dir, name: name})
}

func (f *fsys) rename(d1 *inode, n1 string, d2 *inode, n2 string) {
	n := d1.ents[n1]
	old := d2.ents[n2]
	delete(d1.ents, n1)
	d2.ents[n2] = n
	if n.typ == tDir {
		n.parent = d2
	}
	if old != nil && old.typ != tDir {
		old.nlink--
	}
	f.touch(d1)
	f.touch(d2)
	n.ctime = f.tick
	f.log(jrec{dir: d1, name: n1, dir2: d2, nam2: n2, to2: n})
}

func (f *fsys) exchange(d1 *inode, n1 string, d2 *inode, n2 string) {
	a, b := d1.ents[n1], d2.ents[n2]
	d1.ents[n1], d2.ents[n2] = b, a
	if a.typ == tDir {
		a.parent = d2
	}
	if b.typ == tDir {
		b.parent = d1
	}
	f.touch(d1)
	f.touch(d2)
	f.log(jrec{dir: d1, name: n1, to: b, dir2: d2, nam2: n2, to2: a})
}

func (f *fsys) setMode(n *inode, mode uint32) {
	n.mode = mode
	f.tick++
	n.ctime = f.tick
	f.log(jrec{attr: n, mode: mode})
}

func (f *fsys) commitJournal(k int) {
	for ; f.jdone < k; f.jdone++ {
		r := f.journal[f.jdone]
		if r.attr != nil {
			r.attr.durMode = r.mode
			continue
		}
		if r.to == nil {
			delete(r.dir.durEnts, r.name)
		} else {
			r.dir.durEnts[r.name] = r.to
		}
		if r.dir2 != nil {
			r.dir2.durEnts[r.nam2] = r.to2
		}
	}
}

// fsync makes a file's content durable.
func (f *fsys) fsync(n *inode) {
	if n.typ == tDir {
		f.commitJournal(len(f.journal))
		return
	}
	if n.lost {
		for _, o := range n.pend {
			n.dur = applyOp(n.dur, o)
		}
	} else {
		n.dur = append([]byte(nil), n.data...)
	}
	n.pend = nil
	if f.syncsMeta {
		f.commitJournal(len(f.journal))
	}
}

// loseDirty: write-back failed. The pages are clean from here on, the data
// never reached the disk, and a later fsync has nothing left to write.
func (f *fsys) loseDirty(n *inode) {
	n.lost = n.lost || len(n.pend) > 0
	n.pend = nil
}

// flushFails: a network filesystem reports at close that the server did not
// take the data. The cached pages are dropped with the error.
func (f *fsys) flushFails(n *inode, r *rng) {
	if len(n.pend) == 0 {
		return
	}
	d := n.dur
	stop := r.n(len(n.pend) + 1)
	for i, o := range n.pend {
		if o.trunc {
			d = applyOp(d, o)
			continue
		}
		if i < stop {
			continue // drop
		}
		k := r.n(len(o.b))
		d = applyOp(d, dataOp{off: o.off, b: o.b[:k]})
		break
	}
	n.data = append([]byte(nil), d...)
	n.dur = append([]byte(nil), d...)
	n.pend = nil
	n.writes++
	f.touch(n)
}

// powerLoss leaves what stable storage holds: a prefix of the metadata
// journal, and of every file's unsynced data operations any mixture.
func (f *fsys) powerLoss(r *rng) {
	k := f.jdone
	if d := len(f.journal) - f.jdone; d > 0 {
		switch r.n(3) {
		case 0:
		case 1:
			k += d
		default:
			k += r.n(d + 1)
		}
	}
	f.commitJournal(k)
	mode := r.n(4)
	for _, n := range f.all {
		n.opens = 0
		n.lockers = nil
		n.mode = n.durMode
		if n.typ == tDir {
			n.ents = map[string]*inode{}
			for _, name := range sortedKeys(n.durEnts) {
				n.ents[name] = n.durEnts[name]
			}
			continue
		}
		d := n.dur
		prefix := r.n(len(n.pend) + 1)
		for i, o := range n.pend {
			keep := false
			switch mode {
			case 0: // nothing unsynced survives
			case 1: // everything made it
				keep = true
			case 2: // in order, up to somewhere
				keep = i < prefix
			default: // any of them
				keep = r.n(2) == 0
			}
			if o.trunc {
				if keep || r.n(3) > 0 {
					d = applyOp(d, o)
				}
				continue
			}
			if keep {
				b := o.b
				if r.n(4) == 0 {
					b = b[:r.n(len(b)+1)] // torn
				}
				d = applyOp(d, dataOp{off: o.off, b: b})
			} else if e := o.off + len(o.b); e > len(d) && r.n(3) == 0 {
				d = applyOp(d, dataOp{trunc: true, size: e}) // size recorded, blocks never written
			}
		}
		n.data = append([]byte(nil), d...)
		n.dur = append([]byte(nil), d...)
		n.pend = nil
	}
	f.journal = nil
	f.jdone = 0
	// link counts and parents follow from the surviving tree
	for _, n := range f.all {
		if n.typ != tDir {
			n.nlink = 0
		}
	}
	var rec func(d *inode)
	rec = func(d *inode) {
		for _, name := range sortedKeys(d.ents) {
			n := d.ents[name]
			if n.typ == tDir {
				n.parent = d
				rec(n)
			} else {
				n.nlink++
			}
		}
	}
	rec(f.root)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// entry of a snapshot of the visible tree
type entry struct {
	typ    uint32
	mode   uint32
	uid    uint32
	gid    uint32
	ino    uint64
	mtime  uint64
	nlink  int
	data   string
	target string
}

func (f *fsys) snapshot() map[string]entry {
	out := map[string]entry{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		out[p] = entry{n.typ, n.mode, n.uid, n.gid, n.ino, n.mtime, n.nlink, string(n.data), n.target}
		for name, c := range n.ents {
			rec(p+"/"+name, c)
		}
	}
	rec("", f.root)
	return out
}

// diffSnap describes every difference between two snapshots; ignore says which
// paths may differ.
func diffSnap(a, b map[string]entry, ignore func(string) bool) []string {
	var out []string
	for _, p := range sortedKeys(a) {
		if ignore != nil && ignore(p) {
			continue
		}
		x := a[p]
		y, ok := b[p]
		if !ok {
			out = append(out, fmt.Sprintf("%s is gone", p))
			continue
		}
		if x.typ == tDir && y.typ == tDir {
			x.mtime, y.mtime, x.nlink, y.nlink = 0, 0, 0, 0
		}
		if x != y {
			switch {
			case x.typ != y.typ:
				out = append(out, fmt.Sprintf("%s changed its type from %o to %o", p, x.typ, y.typ))
			case x.mode != y.mode:
				out = append(out, fmt.Sprintf("%s changed its mode from %04o to %04o", p, x.mode, y.mode))
			case x.uid != y.uid || x.gid != y.gid:
				out = append(out, fmt.Sprintf("%s changed its owner from %d:%d to %d:%d", p, x.uid, x.gid, y.uid, y.gid))
			case x.data != y.data:
				out = append(out, fmt.Sprintf("%s changed its content from %s to %s", p, brief(x.data), brief(y.data)))
			case x.target != y.target:
				out = append(out, fmt.Sprintf("%s now points to %q instead of %q", p, y.target, x.target))
			case x.ino != y.ino:
				out = append(out, fmt.Sprintf("%s was replaced by another file", p))
			case x.mtime != y.mtime:
				out = append(out, fmt.Sprintf("%s was written to (modification time changed)", p))
			default:
				out = append(out, fmt.Sprintf("%s changed its link count from %d to %d", p, x.nlink, y.nlink))
			}
		}
	}
	for _, p := range sortedKeys(b) {
		if ignore != nil && ignore(p) {
			continue
		}
		if _, ok := a[p]; !ok {
			out = append(out, fmt.Sprintf("%s is new (%s)", p, brief(b[p].data)))
		}
	}
	return out
}

func brief(s string) string {
	if len(s) <= 60 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q… (%d bytes)", s[:40], len(s))
}

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) p(num, den int) bool { return r.n(den) < num }

func pick[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }
