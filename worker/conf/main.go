// Command conf makes pseudo-random system calls and prints what came back. It
// is run once under the simulated kernel and once in a scratch directory of the
// host; the two have to agree.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int            { return int(r.next() % uint64(n)) }
func (r *rng) str(l ...string) string { return l[r.n(len(l))] }
func (r *rng) num(l ...int) uintptr   { return uintptr(l[r.n(len(l))]) }

var (
	r     rng
	names = []string{"a", "b", "c", "d", "d/x", "d/y", "d/sub", "l", "loop", "dang", "dl/x", "dl", "ro", "other", "shared", "priv/z", "d/../a", "./b", "d/", "a/", "a/x", "", "tmp/t", "tmp/u", "nope/x", "g/f", "g", "e", "dl/../b", "grp", "d/sub/deep"}
	fds   []int
	buf   = make([]byte, 8192)
)

func path() (uintptr, string) {
	s := names[r.n(len(names))]
	b := append([]byte(s), 0)
	keep = append(keep, b)
	return uintptr(unsafe.Pointer(&b[0])), s
}

var keep [][]byte

func call(nr uintptr, a ...uintptr) (uintptr, syscall.Errno) {
	var x [6]uintptr
	copy(x[:], a)
	v, _, e := syscall.Syscall6(nr, x[0], x[1], x[2], x[3], x[4], x[5])
	return v, e
}

func fd() uintptr {
	if len(fds) == 0 || r.n(20) == 0 {
		return uintptr(90 + r.n(3))
	}
	return uintptr(fds[r.n(len(fds))])
}

func stat(b []byte) string {
	le := binary.LittleEndian
	mode := le.Uint32(b[24:])
	s := fmt.Sprintf("mode=%o uid=%d gid=%d", mode, le.Uint32(b[28:]), le.Uint32(b[32:]))
	if mode&0o170000 == 0o100000 {
		s += fmt.Sprintf(" size=%d", le.Uint64(b[48:]))
		s += fmt.Sprintf(" nlink=%d", le.Uint64(b[16:]))
	}
	if mode&0o170000 == 0o120000 {
		s += fmt.Sprintf(" size=%d", le.Uint64(b[48:]))
	}
	return s
}

var out bytes.Buffer

func step() {
	p, ps := path()
	q, qs := path()
	bp := uintptr(unsafe.Pointer(&buf[0]))
	for i := range buf[:64] {
		buf[i] = 0
	}
	say := func(what string, v uintptr, e syscall.Errno, more string) {
		if e != 0 {
			fmt.Fprintf(&out, "%s: %v\n", what, e)
			return
		}
		fmt.Fprintf(&out, "%s = %d %s\n", what, v, more)
	}
	dirfd := ^uintptr(99) // AT_FDCWD
	switch op := r.n(46); op {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		fl := r.num(0, 0, 1, 1, 2, 2, 3)
		for _, x := range []int{syscall.O_CREAT, syscall.O_CREAT, syscall.O_EXCL, syscall.O_TRUNC, syscall.O_APPEND, syscall.O_DIRECTORY, syscall.O_NOFOLLOW} {
			if r.n(4) == 0 {
				fl |= uintptr(x)
			}
		}
		if fl&3 == 3 {
			fl &^= 3
		}
		if fl&syscall.O_CREAT != 0 && fl&syscall.O_DIRECTORY != 0 {
			fl &^= syscall.O_DIRECTORY
		}
		m := r.num(0o644, 0o600, 0o666, 0o777, 0, 0o4755, 0o2755, 0o400)
		if len(fds) > 12 {
			return
		}
		v, e := call(257, dirfd, p, fl|syscall.O_CLOEXEC, m)
		say(fmt.Sprintf("open %q %#x %o", ps, fl, m), 0, e, "")
		if e == 0 {
			fds = append(fds, int(v))
		}
	case 8, 9, 10:
		f := fd()
		n := r.num(0, 1, 5, 100, 4096)
		off := r.num(0, 0, 3, 50, 10000)
		if r.n(2) == 0 {
			v, e := call(0, f, bp, n)
			say(fmt.Sprintf("read %d", n), v, e, dat(v))
		} else {
			v, e := call(17, f, bp, n, off)
			say(fmt.Sprintf("pread %d %d", n, off), v, e, dat(v))
		}
	case 11, 12, 13:
		f := fd()
		n := r.num(0, 1, 5, 100, 600)
		off := r.num(0, 0, 3, 50, 700)
		for i := range buf[:n] {
			buf[i] = byte('a' + r.n(26))
		}
		if r.n(2) == 0 {
			v, e := call(1, f, bp, n)
			say(fmt.Sprintf("write %d", n), v, e, "")
		} else {
			v, e := call(18, f, bp, n, off)
			say(fmt.Sprintf("pwrite %d %d", n, off), v, e, "")
		}
	case 14:
		off, wh := r.num(0, 1, 100, -1, 5000), r.num(0, 1, 2, 9)
		f := fd()
		if _, e := call(5, f, bp); e == 0 && binary.LittleEndian.Uint32(buf[24:])&0o170000 == 0o040000 {
			return // where a directory may be positioned is up to the file system
		}
		v, e := call(8, f, off, wh)
		say(fmt.Sprintf("lseek %d %d", int(off), wh), v, e, "")
	case 15, 16:
		i := -1
		f := fd()
		for j, x := range fds {
			if uintptr(x) == f {
				i = j
			}
		}
		_, e := call(3, f)
		say("close", 0, e, "")
		if i >= 0 {
			fds = append(fds[:i], fds[i+1:]...)
		}
	case 17, 18:
		_, e := call(5, fd(), bp)
		say("fstat", 0, e, when(e, func() string { return stat(buf) }))
	case 19, 20, 21:
		fl := r.num(0, 0x100)
		_, e := call(262, dirfd, p, bp, fl)
		say(fmt.Sprintf("stat %q %#x", ps, fl), 0, e, when(e, func() string { return stat(buf) }))
	case 22, 23, 24:
		_, e := call(264, dirfd, p, dirfd, q)
		say(fmt.Sprintf("rename %q %q", ps, qs), 0, e, "")
	case 25:
		fl := r.num(0, 1, 2, 3)
		_, e := call(316, dirfd, p, dirfd, q, fl)
		say(fmt.Sprintf("renameat2 %q %q %d", ps, qs, fl), 0, e, "")
	case 26:
		fl := r.num(0, 0, 0x400)
		_, e := call(265, dirfd, p, dirfd, q, fl)
		say(fmt.Sprintf("link %q %q %#x", ps, qs, fl), 0, e, "")
	case 27, 28:
		fl := r.num(0, 0, 0, 0x200)
		_, e := call(263, dirfd, p, fl)
		say(fmt.Sprintf("unlink %q %#x", ps, fl), 0, e, "")
	case 29:
		m := r.num(0o755, 0o700, 0o777, 0o2755, 0o1777)
		_, e := call(258, dirfd, p, m)
		say(fmt.Sprintf("mkdir %q %o", ps, m), 0, e, "")
	case 30:
		_, e := call(266, p, dirfd, q)
		say(fmt.Sprintf("symlink %q %q", ps, qs), 0, e, "")
	case 31:
		n := r.num(4096, 2, 0)
		v, e := call(267, dirfd, p, bp, n)
		say(fmt.Sprintf("readlink %q %d", ps, n), v, e, when(e, func() string { return string(buf[:v]) }))
	case 32, 33:
		m := r.num(0o644, 0o600, 0, 0o777, 0o4755, 0o2755, 0o2644, 0o6777, 0o1644, 0o444)
		_, e := call(268, dirfd, p, m)
		say(fmt.Sprintf("chmod %q %o", ps, m), 0, e, "")
	case 34:
		m := r.num(0o644, 0o600, 0o4755, 0o6755)
		_, e := call(91, fd(), m)
		say(fmt.Sprintf("fchmod %o", m), 0, e, "")
	case 35:
		u, g := r.num(-1, os.Getuid(), 0), r.num(-1, os.Getgid(), 0, 4242)
		fl := r.num(0, 0x100)
		_, e := call(260, dirfd, p, u, g, fl)
		say(fmt.Sprintf("chown %q %d %d %#x", ps, int(u), int(g), fl), 0, e, "")
	case 36:
		u, g := r.num(-1, os.Getuid(), 0), r.num(-1, os.Getgid(), 0, 4242)
		_, e := call(93, fd(), u, g)
		say(fmt.Sprintf("fchown %d %d", int(u), int(g)), 0, e, "")
	case 37:
		n := r.num(0, 10, 500, -1)
		_, e := call(76, p, n)
		say(fmt.Sprintf("truncate %q %d", ps, int(n)), 0, e, "")
	case 38:
		n := r.num(0, 10, 500, -1)
		_, e := call(77, fd(), n)
		say(fmt.Sprintf("ftruncate %d", int(n)), 0, e, "")
	case 39:
		m := r.num(0, 4, 2, 1, 6)
		_, e := call(269, dirfd, p, m)
		say(fmt.Sprintf("access %q %d", ps, m), 0, e, "")
	case 40:
		list(ps)
	case 41:
		_, e := call(73, fd(), r.num(1, 2)|4)
		say("flock", 0, e, "")
	case 42:
		m := r.num(0o022, 0o077, 0, 0o007)
		v, e := call(95, m)
		say(fmt.Sprintf("umask %o", m), v, e, "")
	case 43:
		if r.n(4) > 0 {
			return
		}
		_, e := call(80, p)
		say(fmt.Sprintf("chdir %q", ps), 0, e, "")
	case 44:
		v, e := call(79, bp, 4096)
		s := ""
		if e == 0 {
			s = strings.TrimPrefix(string(buf[:v-1]), os.Getenv("CONF_TOP"))
		}
		say("getcwd", 0, e, s)
	case 45:
		_, e := call([]uintptr{74, 75}[r.n(2)], fd())
		say("fsync", 0, e, "")
	}
}

func dat(v uintptr) string {
	if v > uintptr(len(buf)) {
		return ""
	}
	h := uint32(2166136261)
	for _, c := range buf[:v] {
		h = (h ^ uint32(c)) * 16777619
	}
	return fmt.Sprintf("%08x", h)
}

func when(e syscall.Errno, f func() string) string {
	if e != 0 {
		return ""
	}
	return f()
}

func list(p string) {
	es, err := os.ReadDir(p)
	var l []string
	for _, e := range es {
		l = append(l, e.Name()+":"+e.Type().String())
	}
	sort.Strings(l)
	if pe, ok := err.(*os.PathError); ok {
		err = pe.Err
	}
	fmt.Fprintf(&out, "list %q %v %v\n", p, l, err)
}

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	r = rng(seed)
	syscall.Umask(0o022)
	for i := 0; i < n; i++ {
		step()
	}
	os.Stdout.Write(out.Bytes())
}
