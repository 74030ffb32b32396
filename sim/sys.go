package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// The simulated kernel's system calls.

type sink struct {
	kind string // pipe, file, tty, full, closed, bad, part, chr
	room int
	buf  []byte
}

type ofd struct {
	n      *inode
	sink   *sink
	path   string
	flags  int
	off    int
	refs   int
	dents  []string
	contig int // bytes delivered so far in one contiguous scan from offset 0
	wrote  bool
}

func (o *ofd) readable() bool { return o.flags&3 != syscall.O_WRONLY }
func (o *ofd) writable() bool { return o.flags&3 != syscall.O_RDONLY }

type proc struct {
	id       int
	pid      int
	c        cred
	cwd      *inode
	umask    uint32
	fds      map[int]*ofd
	limit    int // how many descriptors may be open at once
	maxOpen  int
	n        int // system calls so far
	fullRead map[*inode]bool
	w        *worker
	req      *request
	waitLock *ofd
	exited   bool
	crashed  bool
	trace    []string
	lateRW   []string
	execd    bool
	mutated  int
	held     bool // stopped by the scenario
	eof      bool
}

type request struct {
	nr    int
	a     [6]uint64
	paths []string
	data  []byte
	at    uint64 // the time of the process
}

type answer struct {
	r1    uint64
	e     syscall.Errno
	out   []byte
	flags uint32
	block bool
}

func parseRequest(b []byte) (*request, error) {
	if len(b) < 64 {
		return nil, fmt.Errorf("short request")
	}
	q := &request{nr: int(binary.LittleEndian.Uint64(b))}
	for i := range q.a {
		q.a[i] = binary.LittleEndian.Uint64(b[8+8*i:])
	}
	q.at = binary.LittleEndian.Uint64(b[56:])
	rest := b[64:]
	for len(rest) >= 4 {
		n := int(binary.LittleEndian.Uint32(rest))
		if len(rest) < 4+n {
			return nil, fmt.Errorf("bad request")
		}
		q.paths = append(q.paths, string(rest[4:4+n]))
		rest = rest[4+n:]
	}
	if q.nr == 1 || q.nr == 18 {
		if len(q.paths) > 0 {
			q.data = []byte(q.paths[0])
			q.paths = nil
		} else {
			q.data = []byte{}
		}
	}
	return q, nil
}

func (a answer) encode(now uint64) []byte {
	b := make([]byte, 32+len(a.out))
	binary.LittleEndian.PutUint32(b, uint32(28+len(a.out)))
	r1 := a.r1
	if a.e != 0 {
		r1 = ^uint64(0)
	}
	binary.LittleEndian.PutUint64(b[4:], r1)
	binary.LittleEndian.PutUint64(b[12:], uint64(a.e))
	binary.LittleEndian.PutUint32(b[20:], a.flags)
	binary.LittleEndian.PutUint64(b[24:], now)
	copy(b[32:], a.out)
	return b
}

var sysNames = map[int]string{0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 17: "pread", 18: "pwrite",
	21: "access", 32: "dup", 33: "dup2", 39: "getpid", 40: "sendfile", 72: "fcntl", 73: "flock", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate",
	78: "getdents", 217: "getdents64", 79: "getcwd", 80: "chdir", 81: "fchdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink",
	88: "symlink", 89: "readlink", 90: "chmod", 91: "fchmod", 92: "chown", 93: "fchown", 94: "lchown", 95: "umask", 102: "getuid", 104: "getgid", 107: "geteuid",
	108: "getegid", 110: "getppid", 115: "getgroups", 137: "statfs", 138: "fstatfs", 162: "sync", 257: "openat", 258: "mkdirat", 260: "fchownat", 262: "newfstatat", 263: "unlinkat",
	264: "renameat", 265: "linkat", 266: "symlinkat", 267: "readlinkat", 268: "fchmodat", 269: "faccessat", 275: "splice", 277: "sync_file_range", 280: "utimensat",
	285: "fallocate", 292: "dup3", 302: "prlimit64", 306: "syncfs", 316: "renameat2", 318: "getrandom", 326: "copy_file_range", 332: "statx", 437: "openat2",
	439: "faccessat2", 452: "fchmodat2", 63: "uname"}

func sysName(nr int) string {
	if s, ok := sysNames[nr]; ok {
		return s
	}
	return fmt.Sprintf("sys%d", nr)
}

// class groups system calls by what can go wrong in them.
func (k *kernel) class(p *proc, q *request) string {
	switch q.nr {
	case 0, 17:
		return "read"
	case 1, 18:
		return "write"
	case 2, 85, 257:
		fl := k.openFlags(q)
		if fl&syscall.O_CREAT != 0 {
			return "creat"
		}
		if fl&3 != 0 {
			return "openw"
		}
		return "open"
	case 3:
		return "close"
	case 4, 6, 262, 332, 21, 269, 439:
		return "stat"
	case 5:
		return "fstat"
	case 74, 75, 306, 162:
		return "fsync"
	case 82, 264, 316:
		return "rename"
	case 87, 263, 84:
		return "unlink"
	case 90, 91, 268, 452:
		return "chmod"
	case 92, 93, 94, 260:
		return "chown"
	case 76, 77, 285:
		return "truncate"
	case 86, 265, 88, 266, 83, 258:
		return "mknod"
	case 89, 267:
		return "readlink"
	case 78, 217:
		return "getdents"
	case 280:
		return "utimes"
	}
	return "other"
}

func (k *kernel) openFlags(q *request) int {
	switch q.nr {
	case 2:
		return int(int32(q.a[1]))
	case 85:
		return syscall.O_CREAT | syscall.O_WRONLY | syscall.O_TRUNC
	default:
		return int(int32(q.a[2]))
	}
}

// describe renders a call for traces; sizes and paths only, no addresses.
func (k *kernel) describe(p *proc, q *request) string {
	fd := func(i int) string {
		v := int(int32(q.a[i]))
		if o := p.fds[v]; o != nil {
			return "<" + o.path + ">"
		}
		return fmt.Sprint(v)
	}
	name := sysName(q.nr)
	switch q.nr {
	case 0:
		return fmt.Sprintf("%s(%s, %d)", name, fd(0), q.a[2])
	case 17:
		return fmt.Sprintf("%s(%s, %d @%d)", name, fd(0), q.a[2], q.a[3])
	case 1:
		return fmt.Sprintf("%s(%s, %d bytes)", name, fd(0), len(q.data))
	case 18:
		return fmt.Sprintf("%s(%s, %d bytes @%d)", name, fd(0), len(q.data), q.a[3])
	case 3, 5, 8, 32, 72, 73, 74, 75, 77, 78, 217, 81, 91, 93, 138, 285, 306:
		return fmt.Sprintf("%s(%s)", name, fd(0))
	case 2, 257, 85:
		s := ""
		fl := k.openFlags(q)
		switch fl & 3 {
		case 0:
			s = "O_RDONLY"
		case 1:
			s = "O_WRONLY"
		default:
			s = "O_RDWR"
		}
		for _, x := range []struct {
			f int
			n string
		}{{syscall.O_CREAT, "O_CREAT"}, {syscall.O_EXCL, "O_EXCL"}, {syscall.O_TRUNC, "O_TRUNC"}, {syscall.O_APPEND, "O_APPEND"}, {syscall.O_DIRECTORY, "O_DIRECTORY"}} {
			if fl&x.f != 0 {
				s += "|" + x.n
			}
		}
		return fmt.Sprintf("%s(%q, %s)", name, strings.Join(q.paths, ","), s)
	}
	if len(q.paths) > 0 {
		return fmt.Sprintf("%s(%q)", name, q.paths)
	}
	return name + "()"
}

func (k *kernel) base(p *proc, dirfd uint64) (*inode, syscall.Errno) {
	fd := int32(dirfd)
	if fd == -100 {
		return p.cwd, 0
	}
	o := p.fds[int(fd)]
	if o == nil {
		return nil, syscall.EBADF
	}
	if o.n == nil || o.n.typ != tDir {
		return nil, syscall.ENOTDIR
	}
	return o.n, 0
}

func (k *kernel) statBuf(n *inode, s *sink) []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	if n == nil {
		typ := uint32(tFifo)
		switch s.kind {
		case "file":
			typ = tReg
		case "full", "chr", "tty":
			typ = tChr
		}
		le.PutUint64(b[0:], 9)
		le.PutUint64(b[8:], 77)
		le.PutUint64(b[16:], 1)
		le.PutUint32(b[24:], typ|0o600)
		if s.kind == "file" {
			le.PutUint64(b[48:], uint64(len(s.buf)))
		}
		le.PutUint64(b[56:], 4096)
		return b
	}
	le.PutUint64(b[0:], uint64(n.dev))
	le.PutUint64(b[8:], n.ino)
	le.PutUint64(b[16:], uint64(n.nlink))
	le.PutUint32(b[24:], n.typ|n.mode)
	le.PutUint32(b[28:], n.uid)
	le.PutUint32(b[32:], n.gid)
	sz := len(n.data)
	if n.typ == tLink {
		sz = len(n.target)
	} else if n.typ == tDir {
		sz = 4096
	} else if n.typ != tReg || n.zeroSize {
		sz = 0
	}
	le.PutUint64(b[48:], uint64(sz))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((sz+511)/512))
	u := max(k.fs.timeUnit, 1)
	le.PutUint64(b[72:], k.fs.timeBase+n.mtime/u)
	le.PutUint64(b[88:], k.fs.timeBase+n.mtime/u)
	le.PutUint64(b[104:], k.fs.timeBase+n.ctime/u)
	return b
}

const fdBase = 1 << 20

func (k *kernel) newFD(p *proc, o *ofd) (int, syscall.Errno) {
	if len(p.fds) >= p.limit {
		return -1, syscall.EMFILE
	}
	fd := fdBase
	for p.fds[fd] != nil {
		fd++
	}
	p.fds[fd] = o
	o.refs++
	if len(p.fds) > p.maxOpen {
		p.maxOpen = len(p.fds)
	}
	return fd, 0
}

// drop removes a descriptor; last tells whether the open file is gone.
func (k *kernel) drop(p *proc, fd int) (o *ofd, last bool) {
	o = p.fds[fd]
	delete(p.fds, fd)
	o.refs--
	if o.refs == 0 {
		if o.n != nil {
			o.n.opens--
			delete(o.n.lockers, o)
		}
		return o, true
	}
	return o, false
}

func (k *kernel) sticky(d *inode, c cred, n *inode) bool {
	return d.mode&0o1000 != 0 && c.uid != 0 && c.uid != d.uid && c.uid != n.uid
}

func isBelow(n, d *inode) bool {
	for x := d; ; x = x.parent {
		if x == n {
			return true
		}
		if x.parent == x || x.parent == nil {
			return false
		}
	}
}

func (k *kernel) open(p *proc, start *inode, path string, flags int, mode uint32) (int, syscall.Errno) {
	f := k.fs
	if flags&0x400000 != 0 && flags&syscall.O_DIRECTORY != 0 { // O_TMPFILE
		return -1, syscall.EOPNOTSUPP
	}
	follow := flags&syscall.O_NOFOLLOW == 0
	if flags&syscall.O_CREAT != 0 && strings.HasSuffix(path, "/") {
		if _, _, _, _, e := f.walkParent(p.c, start, path); e != 0 {
			return -1, e
		}
		return -1, syscall.EISDIR
	}
	excl := flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0
	if flags&syscall.O_CREAT != 0 && follow && !excl {
		d, _, x, _ := f.walk(p.c, start, path, false, 0)
		for i := 0; x != nil && x.typ == tLink && i < 40; i++ {
			if strings.HasSuffix(x.target, "/") {
				return -1, syscall.EISDIR
			}
			d, _, x, _ = f.walk(p.c, d, x.target, false, 0)
		}
	}
	dir, name, n, e := f.walk(p.c, start, path, follow && !excl, 0)
	if e != 0 {
		return -1, e
	}
	created := false
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		if !p.c.may(dir, 3) {
			return -1, syscall.EACCES
		}
		if len(p.fds) >= p.limit {
			return -1, syscall.EMFILE
		}
		n = f.create(dir, tReg, mode&0o7777&^p.umask, p.c)
		f.addEnt(dir, name, n)
		k.changed(p, "create", n)
		created = true
	} else {
		if excl {
			return -1, syscall.EEXIST
		}
	}
	if flags&syscall.O_DIRECTORY != 0 && n.typ != tDir {
		return -1, syscall.ENOTDIR
	}
	if n.typ == tLink {
		return -1, syscall.ELOOP
	}
	if n.typ == tDir && flags&(3|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		return -1, syscall.EISDIR
	}
	if !created {
		need := uint32(0)
		switch flags & 3 {
		case 0:
			need = 4
		case 1:
			need = 2
		default:
			need = 6
		}
		if flags&syscall.O_TRUNC != 0 {
			need |= 2
		}
		if !p.c.may(n, need) {
			return -1, syscall.EACCES
		}
	}
	o := &ofd{n: n, path: path, flags: flags}
	fd, e := k.newFD(p, o)
	if e != 0 {
		return -1, e
	}
	n.opens++
	if flags&syscall.O_TRUNC != 0 && n.typ == tReg && !created {
		f.truncate(n, 0)
		f.stripPrivs(n, p.c, false)
		k.changed(p, "truncate", n)
	}
	return fd, 0
}

// changed marks that a call altered the file system.
func (k *kernel) changed(p *proc, what string, n *inode) { p.mutated++ }

func okR(v int) answer            { return answer{r1: uint64(v)} }
func errR(e syscall.Errno) answer { return answer{e: e} }

// doSys executes one call against the simulated world. limit >= 0 bounds how
// many bytes a read or write may transfer (a short transfer).
func (k *kernel) doSys(p *proc, q *request, limit int) answer {
	f := k.fs
	a := q.a
	i32 := func(i int) int { return int(int32(a[i])) }
	path := func(i int) string {
		if i < len(q.paths) {
			return q.paths[i]
		}
		return ""
	}
	getfd := func() (*ofd, syscall.Errno) {
		o := p.fds[i32(0)]
		if o == nil {
			return nil, syscall.EBADF
		}
		return o, 0
	}
	switch q.nr {
	case 0, 17:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.sink != nil {
			if o.sink.kind == "idle" { // nobody writes to it, and nobody closes it
				return answer{block: true}
			}
			return okR(0)
		}
		if !o.readable() {
			return errR(syscall.EBADF)
		}
		if o.n.typ == tDir {
			return errR(syscall.EISDIR)
		}
		if o.n.typ != tReg {
			if q.nr == 17 && o.n.typ == tFifo {
				return errR(syscall.ESPIPE)
			}
			want := int(a[2])
			if want > o.n.chunk {
				want = o.n.chunk
			}
			if limit >= 0 && want > limit {
				want = limit
			}
			if want > len(o.n.feed)-o.n.fed {
				want = len(o.n.feed) - o.n.fed
			}
			out := append([]byte(nil), o.n.feed[o.n.fed:o.n.fed+want]...)
			o.n.fed += want
			if o.n.fed == len(o.n.feed) {
				p.fullRead[o.n] = true
			}
			return answer{r1: uint64(want), out: out}
		}
		off := o.off
		if q.nr == 17 {
			off = int(a[3])
		}
		want := int(a[2])
		if limit >= 0 && want > limit {
			want = limit
		}
		var out []byte
		if off < len(o.n.data) {
			e := off + want
			if e > len(o.n.data) {
				e = len(o.n.data)
			}
			out = o.n.data[off:e]
		}
		if off == o.contig {
			o.contig += len(out)
		}
		if o.contig >= len(o.n.data) {
			p.fullRead[o.n] = true
		}
		if q.nr == 0 {
			o.off = off + len(out)
		}
		return answer{r1: uint64(len(out)), out: append([]byte(nil), out...)}
	case 1, 18:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		b := q.data
		if o.sink != nil {
			switch {
			case o.sink.kind == "full":
				return errR(syscall.ENOSPC)
			case len(b) == 0:
				return okR(0)
			}
			switch o.sink.kind {
			case "closed":
				return errR(syscall.EPIPE)
			case "bad":
				return errR(syscall.EIO)
			case "part":
				if left := o.sink.room - len(o.sink.buf); left <= 0 {
					return errR(syscall.ENOSPC)
				} else if len(b) > left {
					b = b[:left]
				}
			}
			if limit >= 0 && len(b) > limit {
				b = b[:limit]
			}
			o.sink.buf = append(o.sink.buf, b...)
			return okR(len(b))
		}
		if !o.writable() {
			return errR(syscall.EBADF)
		}
		off := o.off
		if q.nr == 18 {
			off = int(a[3])
		}
		if o.flags&syscall.O_APPEND != 0 {
			off = len(o.n.data)
		}
		if limit >= 0 && len(b) > limit {
			b = b[:limit]
		}
		if len(b) == 0 {
			return okR(0)
		}
		if o.n.typ != tReg {
			if q.nr == 18 && o.n.typ == tFifo {
				return errR(syscall.ESPIPE)
			}
			o.n.data = append(o.n.data, b...)
			o.wrote = true
			k.changed(p, "write", o.n)
			return okR(len(b))
		}
		if room := f.room(o.n); off+len(b) > room {
			if off >= room {
				return errR(syscall.ENOSPC)
			}
			b = b[:room-off]
		}
		f.write(o.n, off, b)
		o.wrote = true
		if len(b) > 0 {
			f.stripPrivs(o.n, p.c, false)
		}
		k.changed(p, "write", o.n)
		if q.nr == 1 {
			o.off = off + len(b)
		}
		return okR(len(b))
	case 2:
		fd, e := k.open(p, p.cwd, path(0), i32(1), uint32(a[2]))
		if e != 0 {
			return errR(e)
		}
		return okR(fd)
	case 85:
		fd, e := k.open(p, p.cwd, path(0), k.openFlags(q), uint32(a[1]))
		if e != 0 {
			return errR(e)
		}
		return okR(fd)
	case 257:
		d, e := k.base(p, a[0])
		if e != 0 && !strings.HasPrefix(path(0), "/") {
			return errR(e)
		}
		fd, e := k.open(p, d, path(0), i32(2), uint32(a[3]))
		if e != 0 {
			return errR(e)
		}
		return okR(fd)
	case 3:
		if _, e := getfd(); e != 0 {
			return errR(e)
		}
		k.drop(p, i32(0))
		return okR(0)
	case 4, 6:
		_, _, n, e := f.walk(p.c, p.cwd, path(0), q.nr == 4, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return errR(e)
		}
		return answer{out: k.statBuf(n, nil)}
	case 5:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		return answer{out: k.statBuf(o.n, o.sink)}
	case 262:
		if path(0) == "" && a[3]&0x1000 != 0 {
			o, e := getfd()
			if e != 0 {
				return errR(e)
			}
			return answer{out: k.statBuf(o.n, o.sink)}
		}
		d, e := k.base(p, a[0])
		if e != 0 && !strings.HasPrefix(path(0), "/") {
			return errR(e)
		}
		_, _, n, e := f.walk(p.c, d, path(0), a[3]&0x100 == 0, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return errR(e)
		}
		return answer{out: k.statBuf(n, nil)}
	case 8:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.sink != nil && (o.sink.kind == "file" || o.sink.kind == "chr") {
			return okR(len(o.sink.buf))
		}
		if o.sink != nil || o.n.typ == tFifo {
			return errR(syscall.ESPIPE)
		}
		if o.n.typ == tChr {
			return okR(0)
		}
		off := int(int64(a[1]))
		switch i32(2) {
		case 1:
			off += o.off
		case 2:
			off += len(o.n.data)
		case 0:
		case 3, 4:
			if off < 0 || off >= len(o.n.data) {
				return errR(syscall.ENXIO)
			}
			if i32(2) == 4 {
				off = len(o.n.data)
			}
		default:
			return errR(syscall.EINVAL)
		}
		if off < 0 {
			return errR(syscall.EINVAL)
		}
		o.off = off
		if o.n.typ == tDir {
			o.dents = nil
		}
		return okR(off)
	case 21, 269, 439:
		d := p.cwd
		pi, mode := 0, uint32(a[1])
		if q.nr != 21 {
			var e syscall.Errno
			d, e = k.base(p, a[0])
			if e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			mode = uint32(a[2])
		}
		_, _, n, e := f.walk(p.c, d, path(pi), true, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && mode != 0 && !p.c.may(n, mode&7) {
			e = syscall.EACCES
		}
		if e != 0 {
			return errR(e)
		}
		return okR(0)
	case 32, 33, 292:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if q.nr == 32 {
			fd, e := k.newFD(p, o)
			if e != 0 {
				return errR(e)
			}
			return okR(fd)
		}
		t := i32(1)
		if p.fds[t] == o {
			return okR(t)
		}
		if p.fds[t] != nil {
			k.drop(p, t)
		}
		p.fds[t] = o
		o.refs++
		return okR(t)
	case 39:
		return okR(p.pid)
	case 62:
		if i32(1) == 0 {
			for _, o := range k.procs {
				if o.pid == i32(0) && !o.exited {
					return okR(0)
				}
			}
			return errR(syscall.ESRCH)
		}
	case 110:
		return okR(1)
	case 102, 107:
		return okR(int(p.c.uid))
	case 104, 108:
		return okR(int(p.c.gid))
	case 115:
		var b []byte
		if a[0] > 0 && i32(0) < len(p.c.groups) {
			return errR(syscall.EINVAL)
		}
		if a[0] > 0 {
			for _, g := range p.c.groups {
				b = binary.LittleEndian.AppendUint32(b, g)
			}
		}
		return answer{r1: uint64(len(p.c.groups)), out: b}
	case 95:
		old := p.umask
		p.umask = uint32(a[0]) & 0o777
		return okR(int(old))
	case 72:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		switch i32(1) {
		case 0, 1030:
			fd, e := k.newFD(p, o)
			if e != 0 {
				return errR(e)
			}
			return okR(fd)
		case 1:
			return okR(1)
		case 3:
			return okR(o.flags &^ (syscall.O_CREAT | syscall.O_EXCL | syscall.O_TRUNC | syscall.O_CLOEXEC))
		}
		return okR(0)
	case 73:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.n == nil {
			return okR(0)
		}
		op := i32(1)
		if op&8 != 0 {
			delete(o.n.lockers, o)
			return okR(0)
		}
		want := op & 3 // 1 shared, 2 exclusive
		if o.n.lockers[o] != want {
			delete(o.n.lockers, o) // a conversion is not atomic
		}
		for x, m := range o.n.lockers {
			if x != o && (m == 2 || want == 2) {
				if op&4 != 0 {
					return errR(syscall.EWOULDBLOCK)
				}
				return answer{block: true}
			}
		}
		if o.n.lockers == nil {
			o.n.lockers = map[*ofd]int{}
		}
		o.n.lockers[o] = want
		return okR(0)
	case 74, 75:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.sink != nil && o.sink.kind == "file" {
			return okR(0)
		}
		if o.sink != nil || o.n.typ == tFifo || o.n.typ == tChr {
			return errR(syscall.EINVAL)
		}
		f.fsync(o.n)
		return okR(0)
	case 162, 306:
		for _, n := range f.all {
			if n.typ != tDir {
				f.fsync(n)
			}
		}
		f.commitJournal(len(f.journal))
		return okR(0)
	case 277:
		return okR(0)
	case 76, 77:
		var n *inode
		if int64(a[1]) < 0 {
			return errR(syscall.EINVAL)
		}
		if q.nr == 77 {
			o, e := getfd()
			if e != 0 {
				return errR(e)
			}
			if o.n == nil || o.n.typ != tReg || !o.writable() {
				return errR(syscall.EINVAL)
			}
			n = o.n
		} else {
			var e syscall.Errno
			_, _, n, e = f.walk(p.c, p.cwd, path(0), true, 0)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			if e == 0 && n.typ == tDir {
				e = syscall.EISDIR
			} else if e == 0 && n.typ != tReg {
				e = syscall.EINVAL
			}
			if e == 0 && !p.c.may(n, 2) {
				e = syscall.EACCES
			}
			if e != 0 {
				return errR(e)
			}
		}
		if int(a[1]) > f.room(n) {
			return errR(syscall.ENOSPC)
		}
		f.truncate(n, int(a[1]))
		f.stripPrivs(n, p.c, false)
		k.changed(p, "truncate", n)
		return okR(0)
	case 285:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.n == nil || !o.writable() {
			return errR(syscall.EBADF)
		}
		if o.n.typ != tReg {
			return errR(syscall.ENODEV)
		}
		if i32(1) != 0 {
			return errR(syscall.EOPNOTSUPP)
		}
		end := int(a[2] + a[3])
		if end > f.room(o.n) {
			return errR(syscall.ENOSPC)
		}
		if end > len(o.n.data) {
			f.truncate(o.n, end)
			k.changed(p, "truncate", o.n)
		}
		return okR(0)
	case 78, 217:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.n == nil || o.n.typ != tDir {
			return errR(syscall.ENOTDIR)
		}
		if q.nr == 78 {
			return errR(syscall.ENOSYS)
		}
		if o.dents == nil {
			o.dents = append([]string{".", ".."}, sortedKeys(o.n.ents)...)
			s := f.dirSeed
			key := func(x string) uint64 {
				h := s
				for i := 0; i < len(x); i++ {
					h = (h ^ uint64(x[i])) * 0x100000001b3
				}
				return h ^ h>>29
			}
			if s != 0 {
				sort.SliceStable(o.dents, func(i, j int) bool { return key(o.dents[i]) < key(o.dents[j]) })
			}
			o.off = 0
		}
		var out []byte
		for o.off < len(o.dents) {
			name := o.dents[o.off]
			rl := (19 + len(name) + 1 + 7) / 8 * 8
			if len(out)+rl > int(a[2]) {
				break
			}
			b := make([]byte, rl)
			var n *inode
			switch name {
			case ".":
				n = o.n
			case "..":
				n = o.n.parent
			default:
				n = o.n.ents[name]
			}
			if n != nil {
				binary.LittleEndian.PutUint64(b, n.ino)
				binary.LittleEndian.PutUint64(b[8:], uint64(o.off+1))
				binary.LittleEndian.PutUint16(b[16:], uint16(rl))
				b[18] = byte(n.typ >> 12)
				copy(b[19:], name)
				out = append(out, b...)
			}
			o.off++
		}
		return answer{r1: uint64(len(out)), out: out}
	case 79:
		var parts []string
		for n := p.cwd; n != f.root; n = n.parent {
			name := ""
			for _, x := range sortedKeys(n.parent.ents) {
				if n.parent.ents[x] == n {
					name = x
				}
			}
			if name == "" {
				return errR(syscall.ENOENT)
			}
			parts = append([]string{name}, parts...)
		}
		s := "/" + strings.Join(parts, "/")
		if len(s)+1 > int(a[1]) {
			return errR(syscall.ERANGE)
		}
		return answer{r1: uint64(len(s) + 1), out: append([]byte(s), 0)}
	case 80:
		_, _, n, e := f.walk(p.c, p.cwd, path(0), true, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && n.typ != tDir {
			e = syscall.ENOTDIR
		}
		if e == 0 && !p.c.may(n, 1) {
			e = syscall.EACCES
		}
		if e != 0 {
			return errR(e)
		}
		p.cwd = n
		return okR(0)
	case 81:
		o, e := getfd()
		if e != 0 {
			return errR(e)
		}
		if o.n == nil || o.n.typ != tDir {
			return errR(syscall.ENOTDIR)
		}
		if !p.c.may(o.n, 1) {
			return errR(syscall.EACCES)
		}
		p.cwd = o.n
		return okR(0)
	case 82, 264, 316:
		d1, d2 := p.cwd, p.cwd
		flags := 0
		if q.nr != 82 {
			var e syscall.Errno
			if d1, e = k.base(p, a[0]); e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			if d2, e = k.base(p, a[2]); e != 0 && !strings.HasPrefix(path(1), "/") {
				return errR(e)
			}
			if q.nr == 316 {
				flags = i32(4)
				if flags&^3 != 0 || flags == 3 {
					return errR(syscall.EINVAL)
				}
			}
		}
		p1, n1, x1, s1, e := f.walkParent(p.c, d1, path(0))
		if e != 0 {
			return errR(e)
		}
		p2, n2, x2, s2, e := f.walkParent(p.c, d2, path(1))
		if e != 0 {
			return errR(e)
		}
		switch {
		case p1.dev != p2.dev:
			return errR(syscall.EXDEV)
		case flags&1 != 0 && n2 == "":
			return errR(syscall.EEXIST)
		case n1 == "" || n2 == "":
			return errR(syscall.EBUSY)
		case x1 == nil, flags&2 != 0 && x2 == nil:
			return errR(syscall.ENOENT)
		case flags&1 != 0 && x2 != nil:
			return errR(syscall.EEXIST)
		case flags&2 != 0 && s2 && x2.typ != tDir, x1.typ != tDir && (s1 || s2 && flags&2 == 0):
			return errR(syscall.ENOTDIR)
		case x1.typ == tDir && isBelow(x1, p2):
			return errR(syscall.EINVAL)
		case flags&2 != 0 && x2.typ == tDir && isBelow(x2, p1):
			return errR(syscall.EINVAL)
		case flags&2 == 0 && x2 != nil && x2.typ == tDir && isBelow(x2, p1):
			return errR(syscall.ENOTEMPTY)
		case x1 == x2:
			return okR(0)
		case !p.c.may(p1, 3):
			return errR(syscall.EACCES)
		case k.sticky(p1, p.c, x1):
			return errR(syscall.EPERM)
		case !p.c.may(p2, 3):
			return errR(syscall.EACCES)
		case x2 != nil && k.sticky(p2, p.c, x2):
			return errR(syscall.EPERM)
		case flags&2 != 0 && p1 != p2 && (x1.typ == tDir && !p.c.may(x1, 2) || x2.typ == tDir && !p.c.may(x2, 2)):
			return errR(syscall.EACCES)
		case flags&2 != 0:
			f.exchange(p1, n1, p2, n2)
			k.changed(p, "rename", x1)
			return okR(0)
		case x2 != nil && x2.typ == tDir && x1.typ != tDir:
			return errR(syscall.EISDIR)
		case x2 != nil && x2.typ != tDir && x1.typ == tDir:
			return errR(syscall.ENOTDIR)
		case x1.typ == tDir && p1 != p2 && !p.c.may(x1, 2):
			return errR(syscall.EACCES)
		case x2 != nil && x2.typ == tDir && len(x2.ents) > 0:
			return errR(syscall.ENOTEMPTY)
		}
		f.rename(p1, n1, p2, n2)
		k.changed(p, "rename", x1)
		return okR(0)
	case 83, 258:
		d, mode := p.cwd, uint32(a[1])
		if q.nr == 258 {
			var e syscall.Errno
			if d, e = k.base(p, a[0]); e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			mode = uint32(a[2])
		}
		dir, name, n, _, e := f.walkParent(p.c, d, path(0))
		if e == 0 && n != nil {
			e = syscall.EEXIST
		}
		if e == 0 && !p.c.may(dir, 3) {
			e = syscall.EACCES
		}
		if e != 0 {
			return errR(e)
		}
		nd := f.create(dir, tDir, mode&0o1777&^p.umask, p.c)
		nd.parent = dir
		f.addEnt(dir, name, nd)
		k.changed(p, "mkdir", nd)
		return okR(0)
	case 84, 87, 263:
		d, rmdir := p.cwd, q.nr == 84
		if q.nr == 263 {
			var e syscall.Errno
			if d, e = k.base(p, a[0]); e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			rmdir = a[2]&0x200 != 0
		}
		dir, name, n, slash, e := f.walkParent(p.c, d, path(0))
		switch {
		case e != 0:
			return errR(e)
		case name == "" && !rmdir:
			return errR(syscall.EISDIR)
		case name == "" && n == f.root:
			return errR(syscall.EBUSY)
		case name == "" && strings.HasSuffix(strings.TrimRight(path(0), "/"), ".."):
			return errR(syscall.ENOTEMPTY)
		case name == "":
			return errR(syscall.EINVAL)
		case n == nil:
			return errR(syscall.ENOENT)
		case slash && !rmdir && n.typ == tDir:
			return errR(syscall.EISDIR)
		case slash && !rmdir:
			return errR(syscall.ENOTDIR)
		case !p.c.may(dir, 3):
			return errR(syscall.EACCES)
		case k.sticky(dir, p.c, n):
			return errR(syscall.EPERM)
		case rmdir && n.typ != tDir:
			return errR(syscall.ENOTDIR)
		case rmdir && len(n.ents) > 0:
			return errR(syscall.ENOTEMPTY)
		case !rmdir && n.typ == tDir:
			return errR(syscall.EISDIR)
		}
		f.delEnt(dir, name)
		k.changed(p, "unlink", n)
		return okR(0)
	case 86, 265:
		d1, d2 := p.cwd, p.cwd
		fl := uint64(0)
		if q.nr == 265 {
			var e syscall.Errno
			if d1, e = k.base(p, a[0]); e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			if d2, e = k.base(p, a[2]); e != 0 && !strings.HasPrefix(path(1), "/") {
				return errR(e)
			}
			fl = a[4]
		}
		_, _, n, e := f.walk(p.c, d1, path(0), fl&0x400 != 0, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return errR(e)
		}
		dir, name, old, slash, e := f.walkParent(p.c, d2, path(1))
		switch {
		case e != 0:
		case old != nil:
			e = syscall.EEXIST
		case slash:
			e = syscall.ENOENT
		case p.c.uid != 0 && n.uid != p.c.uid && (n.typ != tReg || n.mode&0o4000 != 0 || n.mode&0o2010 == 0o2010 || !p.c.may(n, 6)):
			e = syscall.EPERM
		case n.typ == tDir && p.c.may(dir, 3):
			e = syscall.EPERM
		case n.dev != dir.dev:
			e = syscall.EXDEV
		case !p.c.may(dir, 3):
			e = syscall.EACCES
		}
		if e != 0 {
			return errR(e)
		}
		f.addEnt(dir, name, n)
		k.changed(p, "link", n)
		return okR(0)
	case 88, 266:
		d, pi := p.cwd, 1
		if q.nr == 266 {
			var e syscall.Errno
			if d, e = k.base(p, a[1]); e != 0 && !strings.HasPrefix(path(1), "/") {
				return errR(e)
			}
		}
		dir, name, old, slash, e := f.walkParent(p.c, d, path(pi))
		if path(0) == "" {
			return errR(syscall.ENOENT)
		}
		if e == 0 && old != nil {
			e = syscall.EEXIST
		}
		if e == 0 && slash {
			e = syscall.ENOENT
		}
		if e == 0 && !p.c.may(dir, 3) {
			e = syscall.EACCES
		}
		if e != 0 {
			return errR(e)
		}
		n := f.create(dir, tLink, 0o777, p.c)
		n.target = path(0)
		f.addEnt(dir, name, n)
		k.changed(p, "symlink", n)
		return okR(0)
	case 89, 267:
		d := p.cwd
		max := int(a[2])
		if q.nr == 267 {
			var e syscall.Errno
			if d, e = k.base(p, a[0]); e != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e)
			}
			max = int(a[3])
		}
		if int32(max) <= 0 {
			return errR(syscall.EINVAL)
		}
		_, _, n, e := f.walk(p.c, d, path(0), false, 0)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 && n.typ != tLink {
			e = syscall.EINVAL
		}
		if e != 0 {
			return errR(e)
		}
		t := n.target
		if len(t) > max {
			t = t[:max]
		}
		return answer{r1: uint64(len(t)), out: []byte(t)}
	case 90, 91, 268, 452, 92, 93, 94, 260, 280:
		var n *inode
		var e syscall.Errno
		var args []uint64
		switch q.nr {
		case 91, 93:
			var o *ofd
			if o, e = getfd(); e == 0 {
				if n = o.n; n == nil {
					return okR(0)
				}
			}
			args = a[1:]
		case 90, 92, 94:
			_, _, n, e = f.walk(p.c, p.cwd, path(0), q.nr != 94, 0)
			args = a[1:]
		default:
			d, e1 := k.base(p, a[0])
			if e1 != 0 && !strings.HasPrefix(path(0), "/") {
				return errR(e1)
			}
			fl := a[3]
			if q.nr == 260 {
				fl = a[4]
			}
			if q.nr == 268 {
				fl = 0
			}
			if path(0) == "" && fl&0x1000 != 0 {
				o, e1 := getfd()
				if e1 != 0 {
					return errR(e1)
				}
				n = o.n
			} else {
				_, _, n, e = f.walk(p.c, d, path(0), fl&0x100 == 0, 0)
			}
			args = a[2:]
		}
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return errR(e)
		}
		if q.nr == 280 {
			if n.uid != p.c.uid && p.c.uid != 0 {
				return errR(syscall.EPERM)
			}
			f.touch(n)
			k.changed(p, "utimes", n)
			return okR(0)
		}
		switch q.nr {
		case 90, 91, 268, 452:
			if n.uid != p.c.uid && p.c.uid != 0 {
				return errR(syscall.EPERM)
			}
			m := uint32(args[0]) & 0o7777
			if p.c.uid != 0 && !p.c.in(n.gid) {
				m &^= 0o2000
			}
			f.setMode(n, m)
			k.changed(p, "chmod", n)
		default:
			u, g := uint32(args[0]), uint32(args[1])
			if none := ^uint32(0); p.c.uid != 0 && (u != none || g != none || n.typ != tDir && n.mode&0o6000 != 0) {
				if (u != ^uint32(0) && u != n.uid) || n.uid != p.c.uid || (g != ^uint32(0) && g != n.gid && !p.c.in(g)) {
					return errR(syscall.EPERM)
				}
			}
			if u != ^uint32(0) {
				n.uid = u
			}
			if g != ^uint32(0) {
				n.gid = g
			}
			f.stripPrivs(n, p.c, true)
			f.tick++
			n.ctime = f.tick
			k.changed(p, "chown", n)
		}
		return okR(0)
	case 137, 138:
		b := make([]byte, 120)
		binary.LittleEndian.PutUint64(b, 0xef53)
		binary.LittleEndian.PutUint64(b[8:], 4096)
		return answer{out: b}
	case 63:
		b := make([]byte, 390)
		for i, s := range []string{"Linux", k.host, "6.1.0", "#1", "x86_64", "(none)"} {
			copy(b[65*i:], s)
		}
		return answer{out: b}
	case 16:
		o, e := getfd()
		switch {
		case e != 0:
			return errR(e)
		case o.sink == nil || o.sink.kind != "tty":
			return errR(syscall.ENOTTY)
		case a[1] == 0x5401: // TCGETS
			b := make([]byte, 36)
			copy(b, "\x00\x05\x00\x00\x05\x00\x00\x00\xbf\x00\x00\x00\x3b\x8a\x00\x00")
			return answer{out: b}
		case a[1] == 0x5413: // TIOCGWINSZ
			return answer{out: []byte{24, 0, 40, 0, 0, 0, 0, 0}}
		}
		return okR(0)
	case 40, 275:
		return errR(syscall.EINVAL) // callers fall back to read and write
	case 302, 326, 332, 437, 318:
		return errR(syscall.ENOSYS) // optional calls of newer kernels
	}
	k.unsupported[sysName(q.nr)]++
	return errR(syscall.ENOSYS)
}
