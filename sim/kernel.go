package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- scenarios: everything one simulated run depends on ----

type FileSpec struct {
	Path    string `json:"path"`
	Type    string `json:"type,omitempty"` // "" regular, "d" directory, "l" symlink, "h" hard link, "p" named pipe, "c" null device
	Chunk   int    `json:"chunk,omitempty"`
	NoSize  bool   `json:"nosize,omitempty"` // a file as in procfs, whose size is not known before
	Mode    uint32 `json:"mode,omitempty"`
	UID     uint32 `json:"uid,omitempty"`
	GID     uint32 `json:"gid,omitempty"` // 0: as UID
	Content string `json:"content,omitempty"`
	Target  string `json:"target,omitempty"`
}

type ProcSpec struct {
	Args   []string `json:"args"`
	Prog   string   `json:"prog,omitempty"` // "" = mustache, "drv" = the library driver
	Script string   `json:"script,omitempty"`
	Rand   uint64   `json:"rand"`
	Clock  uint64   `json:"clock"`
	Steady bool     `json:"steady,omitempty"` // the clock goes on as clocks do, instead of jumping
	Pid    int      `json:"pid"`
	UID    uint32   `json:"uid"`
	Groups []uint32 `json:"groups,omitempty"`
	Umask  uint32   `json:"umask,omitempty"` // 0: 022, umaskZero: 0
	Stdout string   `json:"stdout,omitempty"`
	Stderr string   `json:"stderr,omitempty"`
	Room   int      `json:"room,omitempty"` // bytes a stream of kind "part" takes
	Stdin  string   `json:"stdin,omitempty"`
	Limit  int      `json:"nofile,omitempty"`
	Env    []string `json:"env,omitempty"`
	Yield  uint64   `json:"yield,omitempty"` // seed: after which system calls another goroutine goes on
}

// Fault: either the At-th system call of process Proc, or (Path set) calls of
// class Class that name Path.
type Fault struct {
	Proc  int    `json:"proc"`
	At    int    `json:"at"`
	Path  string `json:"path,omitempty"`
	Class string `json:"class,omitempty"`
	Kind  string `json:"kind"` // err, short, eintr, slow, full, ro, bad, resched
	Errno int    `json:"errno,omitempty"`
	Arg   int    `json:"arg,omitempty"`
	Times int    `json:"times,omitempty"` // path faults: how often (0 = always)
}

type Crash struct {
	Kind  string `json:"kind"` // kill, power
	Proc  int    `json:"proc"`
	At    int    `json:"at"`
	Phase string `json:"phase"` // before, after, torn
	Arg   uint64 `json:"arg"`
}

// Stall: process Proc does not get to its call after the At-th until all the
// others have ended.
type Stall struct {
	Proc int `json:"proc"`
	At   int `json:"at"`
}

type Switch struct {
	Step int `json:"step"`
	To   int `json:"to"`
}

type Reader struct {
	Path   string `json:"path"`
	OpenAt int    `json:"open_at"`
	Every  int    `json:"every"`
	Chunk  int    `json:"chunk"`
}

type Scenario struct {
	Prop      string     `json:"property"`
	Kind      string     `json:"kind"`
	Seed      uint64     `json:"seed"`
	Run       int        `json:"run"`
	Files     []FileSpec `json:"files"`
	Cwd       string     `json:"cwd"`
	Capacity  int        `json:"capacity"` // bytes on the data disk, <0 unlimited
	SyncsMeta bool       `json:"fsync_commits_metadata"`
	InoBase   uint64     `json:"ino_base"`
	TimeBase  uint64     `json:"time_base"`
	TimeUnit  uint64     `json:"time_unit,omitempty"`
	DirSeed   uint64     `json:"dir_seed"`
	Host      string     `json:"host,omitempty"`
	TimeSeed  uint64     `json:"time_seed,omitempty"` // the files have been changed at various times
	Procs     []ProcSpec `json:"procs"`
	Faults    []Fault    `json:"faults,omitempty"`
	Crash     *Crash     `json:"crash,omitempty"`
	Switches  []Switch   `json:"switches,omitempty"`
	Stalls    []Stall    `json:"stalls,omitempty"`
	Readers   []Reader   `json:"readers,omitempty"`
	Extra     []uint64   `json:"extra,omitempty"`
	Limit     int        `json:"limit,omitempty"` // of system calls
	Lib       *LibCase   `json:"lib,omitempty"`
}

type procResult struct {
	Exit     int // -1 killed by a signal
	Signal   int
	Crashed  bool
	Stdout   string
	Stderr   string
	Real     string // what the Go runtime itself printed (panics)
	Calls    int
	Trace    []string
	Classes  []string
	Paths    []string
	Leaked   []string
	MaxOpen  int
	FullRead map[*inode]bool
	Mutated  int
	Fired    []string // faults that took effect in this process
	HardHit  bool     // an error (not a mere short or interrupted call) was injected
	UnlinkF  bool     // an unlink was made to fail
	FailedOn []string // paths of calls that were made to fail
	FailedAs []string // what calls they were

	LostClose []string // files written to that failed when they were closed

	FailedReads []string // files a read of which was made to fail
}

type result struct {
	fs          *fsys
	procs       []*procResult
	steps       int
	fired       map[string]int
	unsupported map[string]int
	hung        bool
	runaway     bool
	deadlock    bool
	stepErr     error // from an invariant checked after every step
	trace       []string
	simNS       uint64
	slowNS      uint64 // of it, slow calls
	crashed     bool
	readers     []string
	missed      []string // names that were looked up in vain
}

func (r *result) hash() uint64 {
	h := fnv.New64a()
	for _, t := range r.trace {
		h.Write([]byte(t))
		h.Write([]byte{'\n'})
	}
	for _, p := range r.procs {
		fmt.Fprintf(h, "exit %d %d %q %q\n", p.Exit, p.Signal, p.Stdout, p.Stderr)
	}
	return h.Sum64()
}

const umaskZero = 0o10000

type worker struct {
	cmd  *exec.Cmd
	fd   int
	errb bytes.Buffer
}

type kernel struct {
	fs          *fsys
	sc          *Scenario
	host        string
	procs       []*proc
	res         *result
	unsupported map[string]int
	onStep      func(k *kernel, what string) error
	steps       int
	used        []int // how often each fault fired
	bad         map[string]bool
	quietTrace  bool
	rd          []*simReader
	now         uint64 // of the world, in nanoseconds
}

type simReader struct {
	spec Reader
	n    *inode
	off  int
	got  []byte
	done bool
}

type harnessError struct{ msg string }

func (e harnessError) Error() string { return e.msg }

// binaries under test
var progs = map[string]string{}

func spawn(spec ProcSpec) (*worker, error) {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	name := spec.Prog
	if name == "" {
		name = "mustache"
	}
	child := os.NewFile(uintptr(sp[1]), "child")
	w := &worker{fd: sp[0]}
	w.cmd = exec.Command(progs[name], spec.Args...)
	w.cmd.Env = append([]string{"VERIF_FD=3", fmt.Sprintf("VERIF_RAND=%d", spec.Rand), fmt.Sprintf("VERIF_CLOCK=%d", spec.Clock),
		fmt.Sprintf("VERIF_TIME=%d", timeZero), "GOMAXPROCS=1", "GOGC=off", "HOME=/home/u", "PATH=/bin", "LANG=C"}, spec.Env...)
	if spec.Steady {
		w.cmd.Env = append(w.cmd.Env, "VERIF_STEADY=1")
	}
	for i, s := 0, spec.Script; s != ""; i++ { // a variable holds no more than 128 KiB
		n := min(len(s), 100_000)
		w.cmd.Env = append(w.cmd.Env, fmt.Sprintf("VERIF_SCRIPT%d=%s", i, s[:n]))
		s = s[n:]
	}
	w.cmd.ExtraFiles = []*os.File{child}
	w.cmd.Stderr = &w.errb
	w.cmd.Dir = "/"
	err = w.cmd.Start()
	child.Close()
	if err != nil {
		syscall.Close(sp[0])
		return nil, err
	}
	return w, nil
}

func (w *worker) readFull(b []byte) bool {
	for len(b) > 0 {
		n, err := syscall.Read(w.fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return false
		}
		b = b[n:]
	}
	return true
}

func (w *worker) send(b []byte) bool {
	for len(b) > 0 {
		n, err := syscall.SendmsgN(w.fd, b, nil, nil, syscall.MSG_NOSIGNAL)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return false
		}
		b = b[n:]
	}
	return true
}

// recv returns the next request, or nil when the process has ended.
func (w *worker) recv() (*request, error) {
	var h [4]byte
	if !w.readFull(h[:]) {
		return nil, nil
	}
	b := make([]byte, binary.LittleEndian.Uint32(h[:]))
	if !w.readFull(b) {
		return nil, nil
	}
	return parseRequest(b)
}

func buildFS(sc *Scenario) *fsys {
	f := newFS(sc.InoBase, sc.TimeBase, sc.DirSeed)
	f.timeUnit = sc.TimeUnit
	for _, d := range []string{"/bin", "/etc", "/home"} {
		f.mkdirAll(d, 0o755, 0, 1)
	}
	f.mkdirAll("/home/u", 0o755, 1000, 1)
	t := f.mkdirAll("/tmp", 0o1777, 0, 2)
	t.mode, t.durMode = 0o1777, 0o1777
	f.syncsMeta = sc.SyncsMeta
	for _, x := range sc.Files {
		f.tick++
		mode, uid, gid := x.Mode, x.UID, x.GID
		if gid == 0 {
			gid = uid
		}
		switch x.Type {
		case "d":
			d := f.mkdirAll(x.Path, mode, uid, 1)
			d.mode, d.durMode, d.uid, d.gid = mode, mode, uid, gid
		case "l":
			f.putSymlink(x.Path, x.Target, uid)
		case "h":
			dir := f.peek(x.Path[:strings.LastIndexByte(x.Path, '/')+1])
			if n := f.lpeek(x.Target); n != nil && dir != nil && f.lpeek(x.Path) == nil {
				f.link(dir, x.Path[strings.LastIndexByte(x.Path, '/')+1:], n)
			}
		case "p", "c":
			n := f.putFile(x.Path, "", mode, uid)
			n.gid = gid
			n.typ = map[string]uint32{"p": tFifo, "c": tChr}[x.Type]
			n.feed, n.chunk = []byte(x.Content), x.Chunk
			if n.chunk <= 0 || n.chunk > 65536 {
				n.chunk = 65536
			}
		default:
			n := f.putFile(x.Path, x.Content, mode, uid)
			n.zeroSize, n.gid = x.NoSize, gid
		}
	}
	f.tick += 1000
	if sc.TimeSeed != 0 {
		r := newRng(sc.TimeSeed)
		for _, n := range f.all {
			n.mtime = uint64(r.n(2000))
			if r.p(1, 2) {
				n.mtime = uint64(r.n(1e8))
			}
		}
	}
	if sc.Capacity >= 0 {
		f.capacity = sc.Capacity
	}
	return f
}

// runScenario executes a scenario on a fresh world. fs, when given, is the
// world a previous run left behind.
func runScenario(sc *Scenario, fs *fsys, onStep func(*kernel, string) error) (*result, error) {
	if fs == nil {
		fs = buildFS(sc)
	}
	k := &kernel{fs: fs, sc: sc, onStep: onStep, unsupported: map[string]int{}, bad: map[string]bool{}, host: "sim"}
	if sc.Host != "" {
		k.host = sc.Host
	}
	k.now = timeZero
	k.res = &result{fs: fs, fired: map[string]int{}, unsupported: k.unsupported}
	k.used = make([]int, len(sc.Faults))
	for _, r := range sc.Readers {
		k.rd = append(k.rd, &simReader{spec: r})
	}
	cwd := fs.peek(sc.Cwd)
	if cwd == nil {
		return nil, harnessError{"scenario without working directory"}
	}
	for i, ps := range sc.Procs {
		w, err := spawn(ps)
		if err != nil {
			return nil, harnessError{"cannot start worker: " + err.Error()}
		}
		lim := ps.Limit
		if lim == 0 {
			lim = 1024
		}
		if ps.Umask == 0 {
			ps.Umask = 0o022
		}
		ps.Umask &= 0o777
		p := &proc{id: i, pid: ps.Pid, c: cred{ps.UID, ps.UID, ps.Groups}, cwd: cwd, umask: ps.Umask, limit: lim, w: w, fds: map[int]*ofd{}, fullRead: map[*inode]bool{}}
		so := ps.Stdout
		if so == "" {
			so = "pipe"
		}
		se := ps.Stderr
		if se == "" {
			se = "pipe"
		}
		si := ps.Stdin
		if si == "" {
			si = "chr"
		}
		p.fds[0] = &ofd{sink: &sink{kind: si}, path: "stdin", flags: 0, refs: 1}
		p.fds[1] = &ofd{sink: &sink{kind: so, room: ps.Room}, path: "stdout", flags: 1, refs: 1}
		p.fds[2] = &ofd{sink: &sink{kind: se, room: ps.Room}, path: "stderr", flags: 1, refs: 1}
		k.procs = append(k.procs, p)
		k.res.procs = append(k.res.procs, &procResult{})
		k.res.procs[i].FullRead = p.fullRead
		defer func(o1, o2 *ofd, pr *procResult) {
			pr.Stdout, pr.Stderr = string(o1.sink.buf), string(o2.sink.buf)
		}(p.fds[1], p.fds[2], k.res.procs[i])
	}
	var mu sync.Mutex
	hung := false
	dog := time.AfterFunc(120*time.Second, func() {
		mu.Lock()
		hung = true
		mu.Unlock()
		for _, p := range k.procs {
			p.w.cmd.Process.Kill()
		}
	})
	err := k.loop()
	dog.Stop()
	for _, p := range k.procs {
		if !p.exited {
			k.kill(p)
		}
	}
	mu.Lock()
	k.res.hung = hung
	mu.Unlock()
	k.res.steps = k.steps
	k.res.simNS = k.now - timeZero
	for _, r := range k.rd {
		if r.n != nil {
			k.res.readers = append(k.res.readers, string(r.got))
		}
	}
	if err != nil {
		return k.res, err
	}
	if hung {
		return k.res, harnessError{"watchdog: no answer from a simulated process for 120 s"}
	}
	return k.res, nil
}

func (k *kernel) kill(p *proc) {
	p.w.cmd.Process.Kill()
	k.reap(p)
}

func (k *kernel) reap(p *proc) {
	if p.exited {
		return
	}
	p.exited = true
	p.w.cmd.Wait()
	syscall.Close(p.w.fd)
	pr := k.res.procs[p.id]
	pr.Real = p.w.errb.String()
	pr.Exit = p.w.cmd.ProcessState.ExitCode()
	if ws, ok := p.w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		pr.Signal = int(ws.Signal())
	}
	pr.Calls = p.n
	pr.MaxOpen = p.maxOpen
	pr.Mutated = p.mutated
	pr.Crashed = p.crashed
	for _, fd := range sortedFDs(p.fds) {
		if fd >= fdBase {
			pr.Leaked = append(pr.Leaked, p.fds[fd].path)
		}
	}
	for _, fd := range sortedFDs(p.fds) {
		k.drop(p, fd)
	}
}

func sortedFDs(m map[int]*ofd) []int {
	var out []int
	for fd := range m {
		out = append(out, fd)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

const (
	maxSteps = 60000
	timeZero = 1_000_000_000_000 // when a run starts
	callTime = 50_000            // what a system call takes
	patience = 1_000_000         // a process that is later than this has been asleep
)

func (k *kernel) loop() error {
	cur := 0
	limit := maxSteps // reading byte by byte is slow, not endless
	for _, f := range k.sc.Files {
		limit += 4 * len(f.Content) * len(k.procs)
	}
	if k.sc.Limit > 0 {
		limit = k.sc.Limit
	}
	for {
		live := 0
		for _, p := range k.procs {
			if p.exited || p.req != nil {
				if p.req != nil {
					live++
				}
				continue
			}
			q, err := p.w.recv()
			if err != nil {
				return harnessError{err.Error()}
			}
			if q == nil {
				k.reap(p)
				pr := k.res.procs[p.id]
				k.note(p, fmt.Sprintf("exit %d signal %d", pr.Exit, pr.Signal))
				if err := k.after("exit"); err != nil {
					return nil
				}
				continue
			}
			p.req = q
			live++
		}
		if live == 0 {
			return nil
		}
		if k.steps >= limit {
			k.res.runaway = true
			return nil
		}
		// who goes next: stay with the current process unless the schedule
		// switches or it cannot go on
		for _, s := range k.sc.Switches {
			if s.Step == k.steps {
				cur = s.To % len(k.procs)
			}
		}
		pick := -1
		var soonest *proc
		for i := 0; i < len(k.procs); i++ {
			p := k.procs[(cur+i)%len(k.procs)]
			if p.req == nil || p.waitLock != nil && !k.lockFree(p) || k.stalled(p) {
				continue
			}
			if p.req.at <= k.now+patience {
				pick = p.id
				break
			}
			if soonest == nil || p.req.at < soonest.req.at {
				soonest = p
			}
		}
		if pick < 0 && soonest != nil { // all are asleep
			pick = soonest.id
		}
		if pick < 0 {
			k.res.deadlock = true
			return nil
		}
		if at := k.procs[pick].req.at; at > k.now+patience && at > timeZero+1e17 { // asleep for years
			k.res.runaway = true
			return nil
		}
		cur = pick
		stop, err := k.step(k.procs[pick])
		if err != nil || stop {
			return err
		}
	}
}

// stalled: the process has been stopped, until the others have ended.
func (k *kernel) stalled(p *proc) bool {
	for _, s := range k.sc.Stalls {
		if s.Proc == p.id && p.n >= s.At {
			for _, o := range k.procs {
				if o != p && !o.exited {
					if !p.held {
						p.held = true
						k.res.fired["stall"]++
						k.note(p, "stopped")
					}
					return true
				}
			}
			if p.held {
				p.held = false
				k.note(p, "continued")
			}
		}
	}
	return false
}

func (k *kernel) lockFree(p *proc) bool {
	if p.waitLock.sink != nil {
		return false
	}
	for x := range p.waitLock.n.lockers {
		if x != p.waitLock {
			return false
		}
	}
	return true
}

func (k *kernel) note(p *proc, s string) {
	line := fmt.Sprintf("p%d #%d %s", p.id, p.n, s)
	k.res.trace = append(k.res.trace, line)
}

func (k *kernel) after(what string) error {
	for _, r := range k.rd {
		k.readerStep(r)
	}
	if k.onStep != nil && k.res.stepErr == nil {
		if err := k.onStep(k, what); err != nil {
			k.res.stepErr = err
			k.res.trace = append(k.res.trace, "!! "+err.Error())
			return err
		}
	}
	return nil
}

func (k *kernel) readerStep(r *simReader) {
	if r.done || k.steps < r.spec.OpenAt {
		return
	}
	if r.n == nil {
		r.n = k.fs.peek(r.spec.Path)
		if r.n == nil {
			return
		}
	}
	if r.spec.Every > 1 && (k.steps-r.spec.OpenAt)%r.spec.Every != 0 {
		return
	}
	k.readChunk(r)
}

func (k *kernel) readChunk(r *simReader) {
	e := r.off + r.spec.Chunk
	if e > len(r.n.data) {
		e = len(r.n.data)
	}
	if e > r.off {
		r.got = append(r.got, r.n.data[r.off:e]...)
		r.off = e
	} else {
		r.done = true
	}
}

func (k *kernel) reqPath(p *proc, q *request) string {
	if len(q.paths) > 0 {
		x := q.paths[len(q.paths)-1]
		if q.nr == 82 || q.nr == 264 || q.nr == 316 || q.nr == 86 || q.nr == 265 {
			x = q.paths[1]
		}
		return x
	}
	if o := p.fds[int(int32(q.a[0]))]; o != nil {
		switch q.nr {
		case 0, 1, 3, 5, 8, 17, 18, 32, 72, 73, 74, 75, 77, 78, 91, 93, 217, 285:
			return o.path
		}
	}
	return ""
}

func (k *kernel) step(p *proc) (stop bool, err error) {
	q := p.req
	k.steps++
	k.fs.tick++
	k.now = max(k.now, q.at) + callTime
	pr := k.res.procs[p.id]
	cls := k.class(p, q)
	rp := k.reqPath(p, q)
	desc := k.describe(p, q)
	if p.waitLock == nil {
		p.n++
		pr.Classes = append(pr.Classes, cls)
		pr.Paths = append(pr.Paths, rp)
	}
	p.waitLock = nil

	// the end of this process (or of the machine) comes first
	c := k.sc.Crash
	if c != nil && c.Proc == p.id && c.At == p.n {
		k.res.crashed = true
		k.res.fired["crash:"+c.Kind+":"+c.Phase+":"+cls]++
		switch c.Phase {
		case "after":
			k.perform(p, q, cls, rp, -1)
		case "torn":
			if (cls == "write") && len(q.data) > 0 {
				k.doSys(p, q, int(c.Arg%uint64(len(q.data)+1)))
			}
		}
		k.note(p, desc+" -- "+c.Kind+" "+c.Phase)
		if c.Kind == "power" {
			for _, x := range k.procs {
				if !x.exited {
					x.crashed = true
					k.kill(x)
				}
			}
			k.fs.powerLoss(newRng(c.Arg))
			k.res.trace = append(k.res.trace, "power lost")
			k.after("power")
			return true, nil
		}
		p.crashed = true
		p.req = nil
		k.kill(p)
		k.after("kill")
		return false, nil
	}

	lim := -1
	var ans answer
	done := false
	label := ""
	flags := uint32(0)
	if y := k.sc.Procs[p.id].Yield; y != 0 && newRng(y^uint64(p.n)*0x9e3779b97f4a7c15).n(2+int(y%3)) == 0 {
		flags |= 1
	}
	for i := range k.sc.Faults {
		f := &k.sc.Faults[i]
		if f.Proc != p.id {
			continue
		}
		hit := false
		switch f.Kind {
		case "full", "ro", "bad":
			hit = p.n >= f.At
		case "slow":
			hit = f.At == 0 && (f.Class == "" || f.Class == cls) || f.At > 0 && p.n == f.At
		default:
			if f.Path == "" && f.At == 0 && f.Class != "" { // all calls of a kind
				hit = f.Class == cls && (f.Times == 0 || k.used[i] < f.Times)
			} else if f.Path != "" {
				hit = samePath(k.sc.Cwd, f.Path, rp) && (f.Class == "" || f.Class == cls) && (f.Times == 0 || k.used[i] < f.Times)
			} else {
				hit = p.n == f.At
			}
		}
		if !hit || done {
			continue
		}
		switch f.Kind {
		case "slow": // it takes its time
			k.now += uint64(f.Arg) * 1_000_000
			k.res.slowNS += uint64(f.Arg) * 1_000_000
			flags |= 1
			k.used[i]++
			k.res.fired["slow:"+cls]++
			label = fmt.Sprintf("slow(%d ms)", f.Arg)
			pr.Fired = append(pr.Fired, "slow:"+cls)
		case "resched":
			flags |= 1
			k.used[i]++
			k.res.fired["resched"]++
		case "short":
			n := 0
			if cls == "read" {
				n = int(q.a[2])
			} else if cls == "write" {
				n = len(q.data)
			}
			if n > 1 {
				lim = 1 + f.Arg%(n-1)
				if cls == "read" && f.Arg%3 == 0 {
					lim = 1 + f.Arg%7
					if lim >= n {
						lim = n - 1
					}
				}
				label = fmt.Sprintf("short(%d)", lim)
				k.used[i]++
				k.res.fired["short:"+cls]++
				pr.Fired = append(pr.Fired, "short:"+cls)
			}
		case "eintr":
			switch cls {
			case "read", "write", "open", "openw", "creat", "fsync", "stat", "fstat", "rename", "unlink", "truncate", "chmod", "readlink":
				ans, done = errR(syscall.EINTR), true
				label = "EINTR"
				k.used[i]++
				k.res.fired["EINTR:"+cls]++
				pr.Fired = append(pr.Fired, "EINTR:"+cls)
			}
		default:
			e := k.errnoFor(f, cls, q)
			if e == 0 {
				continue
			}
			k.used[i]++
			done = true
			label = e.Error()
			if o := p.fds[int(int32(q.a[0]))]; cls == "close" && o != nil && o.wrote {
				pr.LostClose = append(pr.LostClose, o.path)
			}
			ans = k.fail(p, q, cls, e, f)
			name := errName(e) + ":" + cls
			k.res.fired[name]++
			pr.Fired = append(pr.Fired, name)
			pr.HardHit = true
			pr.FailedOn = append(pr.FailedOn, rp)
			pr.FailedAs = append(pr.FailedAs, cls)
			if cls == "read" {
				pr.FailedReads = append(pr.FailedReads, rp)
			}
			if cls == "unlink" {
				pr.UnlinkF = true
			}
		}
	}
	if !done {
		ans = k.perform(p, q, cls, rp, lim)
	}
	if ans.block {
		p.waitLock = p.fds[int(int32(q.a[0]))]
		return false, nil
	}
	ans.flags |= flags
	p.req = nil
	switch q.nr {
	case 2, 4, 6, 21, 89, 257, 262, 267, 269, 332, 439:
		if ans.e == syscall.ENOENT && cls != "creat" && rp != "" && !done {
			k.res.missed = append(k.res.missed, abs(k.sc.Cwd, rp))
		}
	}
	out := "ok"
	if ans.e != 0 {
		out = ans.e.Error()
	} else if cls == "read" || cls == "write" {
		out = fmt.Sprint(int64(ans.r1))
	}
	if label != "" {
		out += "   <-- injected " + label
	}
	k.note(p, desc+" = "+out)
	p.w.send(ans.encode(k.now)) // a process that is gone is noticed by the next recv
	if err := k.after(cls); err != nil {
		return true, nil
	}
	return false, nil
}

func samePath(cwd, a, b string) bool {
	if b == "" {
		return false
	}
	if a == b {
		return true
	}
	if !strings.HasPrefix(b, "/") {
		b = cwd + "/" + b
	}
	return strings.TrimSuffix(strings.ReplaceAll(b, "/./", "/"), "/") == a
}

func (k *kernel) perform(p *proc, q *request, cls, rp string, lim int) answer {
	return k.doSys(p, q, lim)
}

// what each class of call can report, in the order of how usual it is
var errnosFor = map[string][]syscall.Errno{
	"open":     {syscall.EACCES, syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.ENOENT, syscall.ENOMEM, syscall.EPERM, syscall.ESTALE, syscall.EOVERFLOW},
	"openw":    {syscall.EACCES, syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.EROFS, syscall.ETXTBSY, syscall.EPERM, syscall.ESTALE, syscall.EBUSY},
	"creat":    {syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EIO, syscall.EDQUOT, syscall.EPERM, syscall.ENAMETOOLONG},
	"read":     {syscall.EIO, syscall.ESTALE, syscall.EACCES, syscall.ETIMEDOUT},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.ESTALE, syscall.EPERM},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.ESTALE},
	"fsync":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EROFS},
	"rename":   {syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EBUSY, syscall.EXDEV, syscall.EPERM, syscall.EDQUOT, syscall.ENOENT},
	"unlink":   {syscall.EIO, syscall.EROFS, syscall.EBUSY, syscall.EPERM, syscall.EACCES},
	"stat":     {syscall.EACCES, syscall.EIO, syscall.ENOENT, syscall.ENOMEM, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.ENOTDIR, syscall.ESTALE, syscall.EOVERFLOW},
	"fstat":    {syscall.EIO, syscall.ENOMEM, syscall.ESTALE, syscall.EOVERFLOW},
	"chmod":    {syscall.EPERM, syscall.EIO, syscall.EROFS, syscall.EOPNOTSUPP},
	"chown":    {syscall.EPERM, syscall.EIO, syscall.EINVAL, syscall.EOPNOTSUPP},
	"truncate": {syscall.EIO, syscall.ENOSPC},
	"mknod":    {syscall.ENOSPC, syscall.EACCES, syscall.EROFS},
	"readlink": {syscall.EIO, syscall.EACCES, syscall.ESTALE},
	"getdents": {syscall.EIO},
	"utimes":   {syscall.EPERM},
}

func (k *kernel) errnoFor(f *Fault, cls string, q *request) syscall.Errno {
	switch f.Kind {
	case "full": // the disk fills up and stays full
		switch cls {
		case "write", "creat", "mknod":
			if cls == "creat" || k.onDisk(q, f.Proc) {
				return syscall.ENOSPC
			}
		}
		return 0
	case "ro": // the file system turns read-only and stays so
		switch cls {
		case "creat", "openw", "rename", "unlink", "mknod", "truncate", "chmod", "chown":
			return syscall.EROFS
		case "write", "fsync":
			if k.onDisk(q, f.Proc) {
				return syscall.EROFS
			}
		}
		return 0
	case "bad": // the device stops answering
		switch cls {
		case "read", "write", "fsync":
			if k.onDisk(q, f.Proc) {
				return syscall.EIO
			}
		case "creat", "rename", "unlink", "truncate":
			return syscall.EIO
		}
		return 0
	}
	list := errnosFor[cls]
	if len(list) == 0 {
		return 0
	}
	if cls == "write" && !k.onDisk(q, f.Proc) {
		o := k.procs[f.Proc].fds[int(int32(q.a[0]))]
		if o == nil || o.path != "stdout" {
			return 0
		}
		list = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE}
		if f.Errno != 0 {
			return syscall.Errno(f.Errno)
		}
	}
	for _, e := range list {
		if int(e) == f.Errno {
			return e
		}
	}
	return list[(f.Arg&0xffff)%len(list)]
}

func (k *kernel) onDisk(q *request, pi int) bool {
	o := k.procs[pi].fds[int(int32(q.a[0]))]
	return o != nil && o.n != nil
}

// fail answers a call with an error and leaves the world in a state that goes
// with it.
func (k *kernel) fail(p *proc, q *request, cls string, e syscall.Errno, f *Fault) answer {
	r := newRng(uint64(f.Arg) + 99)
	switch cls {
	case "write":
		// an error after part of the data went out is reported as a short
		// write first; plain failure transfers nothing
	case "close":
		if o := p.fds[int(int32(q.a[0]))]; o != nil {
			if o.n != nil && o.n.typ == tReg && o.writable() && o.refs == 1 {
				k.fs.flushFails(o.n, r)
			}
			k.drop(p, int(int32(q.a[0]))) // the descriptor is gone either way
		}
	case "fsync":
		if o := p.fds[int(int32(q.a[0]))]; o != nil && o.n != nil && o.n.typ == tReg {
			k.fs.loseDirty(o.n)
		}
	}
	return errR(e)
}

var errNames = map[syscall.Errno]string{syscall.EACCES: "EACCES", syscall.EIO: "EIO", syscall.EMFILE: "EMFILE", syscall.ENFILE: "ENFILE", syscall.ENOENT: "ENOENT",
	syscall.ENOMEM: "ENOMEM", syscall.EROFS: "EROFS", syscall.ETXTBSY: "ETXTBSY", syscall.ENOSPC: "ENOSPC", syscall.EDQUOT: "EDQUOT", syscall.EFBIG: "EFBIG",
	syscall.EBUSY: "EBUSY", syscall.EXDEV: "EXDEV", syscall.EPERM: "EPERM", syscall.ESTALE: "ESTALE", syscall.EPIPE: "EPIPE",
	syscall.EINVAL: "EINVAL", syscall.ELOOP: "ELOOP", syscall.ENAMETOOLONG: "ENAMETOOLONG", syscall.ENOTDIR: "ENOTDIR", syscall.EOPNOTSUPP: "EOPNOTSUPP", syscall.EOVERFLOW: "EOVERFLOW", syscall.ETIMEDOUT: "ETIMEDOUT"}

func errName(e syscall.Errno) string {
	if s, ok := errNames[e]; ok {
		return s
	}
	return fmt.Sprintf("errno%d", int(e))
}
