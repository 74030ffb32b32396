package main

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"
	"syscall"
)

type property struct {
	id      string
	newCase func(r *rng, c *corpus, n int) *Scenario
	vary    func(r *rng, sc *Scenario, ref *refRun)
	k       int // variants per case
	check   func(sc *Scenario, rc *refCache) (string, *runInfo, error)
	quick   int // cases
	deep    int
	cli     bool // needs the command line tool
	lib     bool // needs the library harness
	plain   bool // needs the library harness without instrumentation
	shrink  func(p *property, sc *Scenario, msg string) (*Scenario, string)
	par     int
}

func (p *property) workers() int {
	if p.par > 0 {
		return p.par
	}
	return workersN
}

var rwModes = []uint32{0o644, 0o644, 0o600, 0o640, 0o664, 0o755, 0o666, 0o4755, 0o2644, 0o200 | 0o400}

func rewriteCase(r *rng, c *corpus, n int) *Scenario {
	pool := c.valid
	if n%3 == 1 {
		pool = c.noid
	}
	if n%3 == 2 {
		pool = c.items
	}
	count := 1 + r.n(3)
	if n%16 == 7 {
		count = 4 + r.n(17)
	}
	sc, files := newWorld(r, worldOpt{n: count, pool: pool, symlinks: true, modes: rwModes, extras: true})
	if r.p(1, 6) {
		// a directory among the arguments
		files = slices.Insert(files, r.n(len(files)+1), withFile(sc, pick(r, []string{"conf.d", "conf.d", "."})))
	}
	sc.Procs = []ProcSpec{newProc(r, rewriteArgs(r, files)...)}
	if r.p(1, 12) {
		sc.Procs[0].UID = 0
	}
	if r.p(1, 4) {
		alignSizes(r, sc)
	}
	dress(r, sc, 1, 3)
	if r.p(1, 25) {
		enlarge(r, sc)
	}
	if r.p(1, 8) {
		// a file with a second name
		i := r.n(len(sc.Files))
		if x := sc.Files[i]; x.Type == "" {
			sc.Files = append(sc.Files, FileSpec{Path: pick(r, []string{"/w", "/srv", "/w/conf.d"}) + "/second", Type: "h", Target: x.Path})
		}
	}
	return sc
}

// withFile puts a valid configuration without id into a directory.
func withFile(sc *Scenario, dir string) string {
	p := abs(sc.Cwd, dir) + "/unnamed.conf"
	if dir == "." {
		p = sc.Cwd + "/unnamed.conf"
	}
	sc.Files = append(sc.Files, FileSpec{Path: p, Mode: 0o644, UID: 1000, Content: "input {stdin{}}"})
	return dir
}

// alignSizes pads files that are going to be rewritten with white space, so
// that the old content has the size of the new one, or nearly, or is longer.
func alignSizes(r *rng, sc *Scenario) {
	f := buildFS(sc)
	for _, a := range fileArgs(sc.Procs[0].Args) {
		rp, n := realPath(f, abs(sc.Cwd, a))
		if n == nil || n.typ != tReg {
			continue
		}
		it, err := itemOf(string(n.data))
		if err != nil || !it.Valid {
			continue
		}
		want := it.Formatted
		if mode(sc.Procs[0].Args) != "format-w" {
			if it.Fixable == 0 {
				continue
			}
			res, err := runScenario(base(single(sc, a)), nil, nil)
			if err != nil {
				continue
			}
			m := res.fs.peek(rp)
			if m == nil {
				continue
			}
			want = string(m.data)
		}
		pad := len(want) - len(n.data) + pick(r, []int{0, 0, 0, 1, -1, len(want)})
		if pad <= 0 {
			continue
		}
		for i := range sc.Files {
			if x := &sc.Files[i]; x.Path == rp {
				x.Content += strings.Repeat(pick(r, []string{"\n", " ", "\t"}), pad)
			}
		}
	}
}

func rewriteRef(sc *Scenario, rc *refCache, info *runInfo) (*refRun, []target, string, error) {
	ref, err := rc.ref(sc, info)
	if err != nil {
		return nil, nil, "", err
	}
	if v := stuck(ref.res); v != "" {
		return ref, nil, v, nil
	}
	ts, bad, err := targets(sc, ref)
	return ref, ts, bad, err
}

// C01: no observer, at any instant, sees anything but a complete file.
func checkC01(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	_, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	var kk *kernel
	inv := allOrNothing(ts)
	res, err := runScenario(sc, nil, func(k *kernel, what string) error { kk = k; return inv(k, what) })
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = res.crashed || len(res.fired) > 0 || len(sc.Readers) > 0
	info.sample = res.trace
	if res.stepErr != nil {
		return res.stepErr.Error(), info, nil
	}
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	for _, rd := range kk.rd {
		for rd.n != nil && !rd.done {
			kk.readChunk(rd)
		}
		if rd.n == nil {
			continue
		}
		for _, t := range ts {
			if t.path == rd.spec.Path && !okContent(t, string(rd.got)) {
				return fmt.Sprintf("a reader that opened %s before step %d and read it piece by piece got %s", t.path, rd.spec.OpenAt, describeContent(t, string(rd.got))), info, nil
			}
		}
		info.probe("slow reader finished")
	}
	return "", info, nil
}

func varyC01(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 8) {
		occupy(r, sc, ref, true)
	}
	switch r.n(5) {
	case 0, 1:
		sc.Crash = genCrash(r, ref, 0, "kill")
	case 2:
		sc.Faults = genFaults(r, ref, 0, 3, false)
	case 3:
		sc.Faults = genFaults(r, ref, 0, 2, r.p(1, 2))
		sc.Crash = genCrash(r, ref, 0, "kill")
	}
	if r.p(1, 4) {
		sc.Capacity = r.n(3) * 512 * (1 + r.n(4))
		if r.p(1, 2) {
			sc.Capacity += usedBytes(sc)
		}
	}
	for i := 0; i < 2; i++ {
		fs := fileArgs(sc.Procs[0].Args)
		sc.Readers = append(sc.Readers, Reader{Path: abs(sc.Cwd, pick(r, fs)), OpenAt: point(r, ref, 0), Every: 1 + r.n(4), Chunk: pick(r, []int{1 + r.n(64), 1 + r.n(4096)})})
	}
}

func usedBytes(sc *Scenario) int {
	t := 0
	for _, f := range sc.Files {
		t += (len(f.Content) + 511) / 512 * 512
	}
	return t
}

// C02: whatever a power failure leaves of a file is complete.
func checkC02(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	_, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	if !res.crashed {
		// the machine goes down after the command has ended
		arg := uint64(1)
		if sc.Crash != nil {
			arg = sc.Crash.Arg
		}
		res.fs.powerLoss(newRng(arg))
		res.trace = append(res.trace, "power lost after the end of the command")
		res.fired["crash:power:end"]++
	}
	info.add(res)
	info.nontrivial = true
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	for _, t := range ts {
		n := res.fs.peek(t.path)
		if n == nil || n.typ != tReg {
			return fmt.Sprintf("after the power failure %s does not exist", t.path), info, nil
		}
		if s := string(n.data); !okContent(t, s) {
			return fmt.Sprintf("after the power failure %s is %s", t.path, describeContent(t, s)), info, nil
		} else if s == t.old {
			info.probe("old content survived")
		} else {
			info.probe("new content survived")
		}
	}
	isT := map[string]bool{}
	for _, t := range ts {
		isT[t.real] = true
	}
	for _, f := range sc.Files {
		if f.Type == "" && !isT[f.Path] {
			n := res.fs.lpeek(f.Path)
			if n == nil || string(n.data) != f.Content {
				return fmt.Sprintf("after the power failure the bystander %s is damaged", f.Path), info, nil
			}
		}
	}
	return "", info, nil
}

func varyC02(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 8) {
		occupy(r, sc, ref, true)
	}
	sc.SyncsMeta = r.p(1, 2)
	sc.Crash = genCrash(r, ref, 0, "power")
	if r.p(1, 4) {
		sc.Crash.At = len(ref.res.procs[0].Classes) + 1000 // after the end
	}
	if r.p(2, 5) {
		sc.Faults = genFaults(r, ref, 0, 2, r.p(1, 4))
		if r.p(1, 2) {
			// failing write-back is the interesting case
			cl := ref.res.procs[0].Classes
			for i := range cl {
				if cl[i] == "fsync" && r.p(1, 2) {
					sc.Faults = []Fault{{Proc: 0, At: i + 1, Kind: "err", Errno: int(syscall.EIO), Arg: r.n(1000)}}
				}
			}
		}
	}
}

// C03: exit status 0 is a promise.
func checkC03(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	ref, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	m := mode(sc.Procs[0].Args)
	if m == "lint-w" {
		for _, t := range ts {
			if t.rew && t.new == t.old && len(ref.res.procs[0].FailedOn) == 0 && ordinary(sc, t.real) {
				return fmt.Sprintf("an undisturbed lint --auto-fix-id leaves %s without the missing ids (exit %d)", t.path, ref.res.procs[0].Exit), info, nil
			}
		}
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = len(res.fired) > 0 || sc.Procs[0].Stdout != ""
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	p := res.procs[0]
	if p.Signal != 0 || p.Exit != 0 || res.crashed {
		info.probe("exit != 0")
		return "", info, nil
	}
	info.probe("exit 0")
	if len(res.fired) > 0 {
		info.probe("exit 0 despite faults")
	}
	if len(sc.Faults) == 0 && sc.Procs[0].Stdout == "" {
		info.probe("undisturbed")
	}
	if len(p.LostClose) > 0 {
		return fmt.Sprintf("%s exits with 0 although what was written to %s failed when it was closed", m, p.LostClose[0]), info, nil
	}
	want := ""
	seen := map[string]bool{}
	f0 := buildFS(sc)
	for _, a := range fileArgs(sc.Procs[0].Args) {
		path := abs(sc.Cwd, a)
		rp, n := realPath(f0, path)
		if n == nil {
			if f0.peek(path) == nil {
				return fmt.Sprintf("%s exits with 0 although %s does not exist", m, path), info, nil
			}
			continue
		}
		if !n.readable() {
			continue
		}
		it, err := itemOf(n.content())
		if err != nil {
			return "", info, err
		}
		if !it.Valid {
			return fmt.Sprintf("%s exits with 0 although %s is not valid", m, path), info, nil
		}
		if m == "format" {
			want += it.Formatted
		}
		if seen[rp] {
			continue
		}
		seen[rp] = true
		if !readEntirely(res, 0, path, rp, n.content()) {
			return fmt.Sprintf("%s exits with 0 although it never got to read all of %s", m, path), info, nil
		}
	}
	switch m {
	case "format":
		if p.Stdout != want {
			return fmt.Sprintf("format exits with 0 but standard output received %d of %d bytes: %s", len(p.Stdout), len(want), brief(p.Stdout)), info, nil
		}
	case "lint", "lint-w":
		for _, a := range fileArgs(sc.Procs[0].Args) {
			_, n := realPath(f0, abs(sc.Cwd, a))
			if n == nil || !n.readable() {
				continue
			}
			it, err := itemOf(n.content())
			if err != nil {
				return "", info, err
			}
			switch {
			case m == "lint" && it.NoIDs > 0 || it.NoIDs > it.Fixable:
				return fmt.Sprintf("%s exits with 0 although %d plugins of %s have no id, %d have one that is no string", m, it.Fixable, a, it.NoIDs-it.Fixable), info, nil
			case it.Dups > 0:
				return fmt.Sprintf("%s exits with 0 although %d ids of %s are used before", m, it.Dups, a), info, nil
			case it.Warns > 0:
				return fmt.Sprintf("%s exits with 0 although there is something to say about the comments of %s", m, a), info, nil
			}
		}
		if m == "lint-w" {
			break
		}
		if ref.res.procs[0].Exit != 0 {
			return "lint exits with 0 although it has something to report: " + brief(ref.res.procs[0].Stderr), info, nil
		}
	}
	for _, t := range ts {
		if !t.rew {
			continue
		}
		n := res.fs.peek(t.path)
		if n == nil || string(n.data) != t.new {
			s := "missing"
			if n != nil {
				s = describeContent(t, string(n.data))
				if string(n.data) == t.old {
					s = "still the old content"
				}
			}
			return fmt.Sprintf("%s exits with 0 but %s is %s", m, t.path, s), info, nil
		}
		if n.lost && string(n.dur) != t.new {
			return fmt.Sprintf("%s exits with 0 although the new content of %s, for which fsync failed, never got to the disk", m, t.path), info, nil
		}
	}
	return "", info, nil
}

// ordinary: the file belongs to whoever runs the command and lies in a
// directory of theirs, so that nothing stands in the way of replacing it.
func ordinary(sc *Scenario, real string) bool {
	f := buildFS(sc)
	p := sc.Procs[0]
	c := cred{p.UID, p.UID, p.Groups}
	n, d := f.peek(real), f.peek(real[:strings.LastIndexByte(real, '/')+1])
	return n != nil && d != nil && (n.uid == c.uid && n.gid == c.gid || c.uid == 0) && c.may(n, 6) && c.may(d, 3) && (d.mode&0o1000 == 0 || c.uid == 0 || n.uid == c.uid || d.uid == c.uid)
}

// readEntirely: the process was handed every byte of the file.

func readEntirely(res *result, p int, path, real, content string) bool {
	if content == "" {
		return true
	}
	for n := range res.procs[p].FullRead {
		if n.readable() && res.procs[p].FullRead[n] && n.origin == real {
			return true
		}
	}
	return false
}

func caseC03(r *rng, c *corpus, n int) *Scenario {
	pool := c.valid
	switch n % 5 {
	case 1:
		pool = c.noid
	case 2:
		pool = c.withid
	case 3:
		pool = c.items
	}
	sc, files := newWorld(r, worldOpt{n: 1 + r.n(3), pool: pool, symlinks: true, modes: rwModes})
	if r.p(1, 10) {
		files = append(files, "/w")
	}
	var args []string
	switch r.n(6) {
	case 0, 1:
		args = append([]string{"format"}, files...)
	case 2:
		args = append([]string{"check"}, files...)
	case 3:
		args = append([]string{"lint"}, files...)
	default:
		args = rewriteArgs(r, files)
	}
	if n%48 == 29 {
		// as many errors as make a number that is cut off 0
		args = []string{pick(r, []string{"check", "lint"})}
		if args[0] == "lint" && r.p(1, 2) {
			sc.Files = append(sc.Files, FileSpec{Path: "/w/warn.conf", Mode: 0o644, UID: 1000,
				Content: "input { stdin { id => \"a\" " + strings.Repeat("k # c\n => 1\n", pick(r, []int{100, 128, 256, 256, 512})) + "} }"})
			args = append(args, "warn.conf")
		} else {
			for i := pick(r, []int{100, 128, 255, 256, 256, 256, 512}); i > 0; i-- {
				args = append(args, "missing.conf")
			}
		}
	}
	if n%6 == 4 {
		// one single thing to say
		i := slices.IndexFunc(sc.Files, func(f FileSpec) bool { return f.Type == "" && f.Content != "" })
		if i >= 0 {
			g := &cfgGen{r: r, cmt: pick(r, []int{0, 0, 10})}
			sc.Files[i].Content = g.lone(1 + r.n(4))
			for k := range sc.Files {
				if x := &sc.Files[k]; k != i && x.Type == "" && r.p(3, 4) {
					x.Content = pick(r, c.clean).Content
				}
			}
			args = append([]string{"lint"}, files...)
			if r.p(1, 3) {
				args = rewriteArgs(r, files)
			}
		}
	}
	if fs := fileArgs(args); !strings.HasSuffix(mode(args), "-w") && len(fs) > 0 && r.p(1, 10) {
		for k := 1 + r.n(3); k > 0; k-- {
			args = slices.Insert(args, len(args)-r.n(len(fs)), pick(r, fs))
		}
	}
	sc.Procs = []ProcSpec{newProc(r, lateFlag(r, args)...)}
	if !strings.HasSuffix(mode(args), "-w") {
		specialise(r, sc, false)
	}
	dress(r, sc, 1, 4)
	if r.p(1, 25) {
		enlarge(r, sc)
	}
	return sc
}

func varyC03(r *rng, sc *Scenario, ref *refRun) {
	if mode(sc.Procs[0].Args) == "format" && r.p(1, 4) {
		p := &sc.Procs[0]
		p.Stdout = pick(r, []string{"full", "closed", "closed", "file", "bad", "part"})
		p.Room = r.n(1 + len(ref.res.procs[0].Stdout))
	}
	sc.Faults = genFaults(r, ref, 0, 2, r.p(1, 5))
	if r.p(1, 4) {
		cl := ref.res.procs[0].Classes
		for i := range cl {
			if cl[i] == "close" && i+1 >= ref.start && r.p(1, 2) {
				sc.Faults = []Fault{{Proc: 0, At: i + 1, Kind: "err", Errno: int(pick(r, errnosFor["close"])), Arg: r.n(1000)}}
			}
		}
	}
	if r.p(1, 6) {
		sc.Capacity = usedBytes(sc) + r.n(4)*512
	}
}

// C04: a rewrite changes the content of the file and nothing else.
func checkC04(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	_, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	before := buildFS(sc).snapshot()
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = true
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	after := res.fs.snapshot()
	isT := map[string]bool{}
	for _, t := range ts {
		if t.rew {
			isT[t.real] = true
		}
	}
	// mode, ownership, type of rewritten files
	for _, t := range ts {
		if !t.rew {
			continue
		}
		a, ok := after[t.real]
		b := before[t.real]
		if !ok {
			return fmt.Sprintf("%s is gone", t.real), info, nil
		}
		if a.data != b.data {
			info.probe("rewritten")
		}
		if a.typ != b.typ {
			return fmt.Sprintf("%s is no longer a regular file", t.real), info, nil
		}
		if a.mode != b.mode {
			return fmt.Sprintf("the rewrite changed the mode of %s from %04o to %04o", t.real, b.mode, a.mode), info, nil
		}
		if a.uid != b.uid || a.gid != b.gid {
			return fmt.Sprintf("the rewrite changed the owner of %s from %d:%d to %d:%d", t.real, b.uid, b.gid, a.uid, a.gid), info, nil
		}
	}
	// devices and pipes stay what they are; what is written to them is not
	// judged here
	for _, f := range sc.Files {
		if f.Type != "p" && f.Type != "c" {
			continue
		}
		a, b := after[f.Path], before[f.Path]
		if a.typ != b.typ || a.mode != b.mode || a.uid != b.uid || a.gid != b.gid || a.ino != b.ino {
			return fmt.Sprintf("%s is no longer the %s it was", f.Path, map[string]string{"p": "named pipe", "c": "device"}[f.Type]), info, nil
		}
		isT[f.Path] = true
		info.probe("pipe or device")
	}
	crashed := res.crashed
	unlinkF := res.procs[0].UnlinkF
	for _, d := range diffSnap(before, after, func(p string) bool { return isT[p] }) {
		if strings.Contains(d, " is new (") && (crashed || unlinkF) {
			info.probe("debris after a kill or a failed unlink")
			continue
		}
		return d, info, nil
	}
	return "", info, nil
}

func caseC04(r *rng, c *corpus, n int) *Scenario {
	sc := rewriteCase(r, c, n)
	sc.Files = slices.DeleteFunc(sc.Files, func(f FileSpec) bool { return f.Type == "h" })
	if r.p(1, 5) {
		specialise(r, sc, true)
	}
	return sc
}

func varyC04(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 4) {
		occupy(r, sc, ref, true)
	}
	switch r.n(8) {
	case 0:
		return
	case 1:
		sc.Crash = genCrash(r, ref, 0, "kill")
	default:
		sc.Faults = genFaults(r, ref, 0, 2, r.p(1, 6))
	}
	if r.p(1, 6) {
		sc.Capacity = usedBytes(sc) + r.n(3)*512
	}
}

// C05: what must not be touched is not touched.
func caseC05(r *rng, c *corpus, n int) *Scenario {
	var sc *Scenario
	var files []string
	var args []string
	switch n % 8 {
	case 0: // commands that only look
		sc, files = newWorld(r, worldOpt{n: 1 + r.n(3), pool: c.items, symlinks: true, modes: rwModes, extras: true})
		args = append([]string{pick(r, []string{"check", "lint", "lint", "format", "format"})}, files...)
		if r.p(1, 2) {
			for i := range sc.Files {
				if x := &sc.Files[i]; x.Type == "" && !strings.HasPrefix(x.Content, "bystander") && r.p(1, 2) {
					x.Content = pick(r, c.noid).Content
				}
			}
			if r.p(1, 2) {
				args = append(pick(r, [][]string{{"format", "-w=false"}, {"format", "--write-to-source=false"}, {"lint", "--auto-fix-id=false"}, {"lint", "--auto-fix-id=0"}, {"lint", "--auto-fix-id", "--auto-fix-id=false"}, {"format", "-w", "-w=false"}}), files...)
			}
		}
	case 1: // rewriting what does not parse
		sc, files = newWorld(r, worldOpt{n: 1 + r.n(2), pool: c.invalid, symlinks: true, modes: rwModes, extras: true})
		args = rewriteArgs(r, files)
	case 2: // nothing to fix
		sc, files = newWorld(r, worldOpt{n: 1 + r.n(3), pool: c.withid, symlinks: true, modes: rwModes, extras: true})
		args = append([]string{"lint", "--auto-fix-id"}, files...)
	case 3: // may not be read or written
		sc, files = newWorld(r, worldOpt{n: 1 + r.n(2), pool: c.valid, modes: []uint32{0, 0o200, 0o400, 0o444}, extras: true})
		args = rewriteArgs(r, files)
	case 4: // the start itself fails: broken settings file
		sc, files = newWorld(r, worldOpt{n: 1 + r.n(2), pool: c.valid, symlinks: true, modes: rwModes, extras: true})
		if r.p(1, 2) {
			sc.Files = append(sc.Files, FileSpec{Path: "/w/mustache.yaml", Mode: 0o644, UID: 1000, Content: brokenSettings})
		} else {
			sc.Files = append(sc.Files, FileSpec{Path: "/w/mustache.json", Mode: 0, UID: 1000, Content: "{}"})
		}
		args = rewriteArgs(r, files)
	case 6, 7: // files that lack ids, that lack none and that are not valid, side by side
		sc, files = newWorld(r, worldOpt{n: 3 + r.n(4), pool: c.items, symlinks: true, modes: rwModes, extras: true})
		for i := range sc.Files {
			if sc.Files[i].Type == "" && !strings.HasPrefix(sc.Files[i].Content, "bystander") {
				sc.Files[i].Content = pick(r, pick(r, [][]*item{c.noid, c.noid, c.withid, c.withid, c.invalid})).Content
			}
		}
		args = append([]string{"lint", "--auto-fix-id"}, files...)
	default: // bad command lines and neighbours of files that are rewritten
		sc, files = newWorld(r, worldOpt{n: 2 + r.n(2), pool: c.items, symlinks: true, modes: rwModes, extras: true})
		switch r.n(3) {
		case 0:
			args = append([]string{"format", "--no-such-flag", "-w"}, files...)
		case 1:
			args = append([]string{"lint", "--auto-fix-id=maybe"}, files...)
		default:
			args = rewriteArgs(r, files[:1+r.n(len(files)-1)])
			if r.p(1, 2) {
				args = append(args, pick(r, []string{"conf.d", ".", "conf.d/", "/w"}))
			}
		}
	}
	if n%8 != 5 && r.p(1, 3) {
		// a directory among them
		at := len(args) - len(fileArgs(args))
		args = slices.Insert(args, at+r.n(len(args)-at+1)*r.n(2), withFile(sc, pick(r, []string{"conf.d", "conf.d", ".", "/w/conf.d/deep"})))
	}
	sc.Procs = []ProcSpec{newProc(r, lateFlag(r, args)...)}
	if n%8 == 0 {
		specialise(r, sc, false)
	}
	if n%8 == 0 && r.p(1, 3) || n%8 != 4 && r.p(1, 4) {
		sc.Files = append(sc.Files, flagSettings(r))
	}
	dress(r, sc, 1, 4)
	if r.p(1, 25) {
		enlarge(r, sc)
	}
	return sc
}

func checkC05(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	ref, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil {
		return bad, info, err
	}
	args := sc.Procs[0].Args
	m := mode(args)
	may := map[string]bool{} // files this command may rewrite
	start := buildFS(sc)
	badCmd, badSettings := false, false
	for _, a := range args {
		if a == "--no-such-flag" || a == "--auto-fix-id=maybe" {
			badCmd = true
		}
	}
	for _, f := range sc.Files {
		if strings.HasPrefix(f.Path, "/w/mustache.") && (f.Content == brokenSettings || f.Mode == 0 && sc.Procs[0].UID != 0) {
			badSettings = true
		}
	}
	if (m == "format-w" || m == "lint-w") && !badCmd {
		for _, t := range ts {
			n := start.peek(t.path)
			c := cred{sc.Procs[0].UID, sc.Procs[0].UID, sc.Procs[0].Groups}
			if t.rew && c.may(n, 6) {
				may[t.real] = true
			}
		}
	}
	_ = ref
	before := start.snapshot()
	res, err := runScenario(sc, nil, func(k *kernel, what string) error {
		if !mutating[what] && what != "exit" && what != "kill" && what != "other" && what != "utimes" {
			return nil
		}
		may := may
		if badSettings && !k.res.procs[0].HardHit {
			may = nil // the start fails; a settings file made to vanish by a fault is another matter
		}
		ds := diffSnap(before, k.fs.snapshot(), func(p string) bool { return may[p] })
		for _, d := range ds {
			if strings.Contains(d, " is new (") && len(may) > 0 {
				continue // an auxiliary file of a legitimate rewrite; C04 looks after it
			}
			return fmt.Errorf("%s (after %s)", d, what)
		}
		return nil
	})
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = true
	info.sample = res.trace
	if res.stepErr != nil {
		return fmt.Sprintf("%s: %s", m, res.stepErr.Error()), info, nil
	}
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	return "", info, nil
}

const brokenSettings = "a: [\n:::"

func varyC05(r *rng, sc *Scenario, ref *refRun) {
	switch r.n(4) {
	case 0:
	case 1:
		sc.Crash = genCrash(r, ref, 0, "kill")
	default:
		sc.Faults = genFaults(r, ref, 0, 3, r.p(1, 6))
	}
}

// C06: interrupted and partial transfers are invisible.
func checkC06(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	ref, err := rc.ref(sc, info)
	if err != nil {
		return "", info, err
	}
	if v := stuck(ref.res); v != "" {
		return v, info, nil
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = len(res.fired) > 0
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	return sameOutcome(ref.res, res, "with interrupted and partial transfers"), info, nil
}

func sameOutcome(a, b *result, how string) string {
	for i := range a.procs {
		p, q := a.procs[i], b.procs[i]
		if p.Exit != q.Exit || p.Signal != q.Signal {
			return fmt.Sprintf("%s the exit status is %d instead of %d (%s)", how, q.Exit, p.Exit, brief(q.Stderr+q.Real))
		}
		if p.Stdout != q.Stdout {
			return fmt.Sprintf("%s standard output differs: %s", how, firstDiff(p.Stdout, q.Stdout))
		}
		if digits.ReplaceAllString(p.Stderr, "#") != digits.ReplaceAllString(q.Stderr, "#") {
			return fmt.Sprintf("%s standard error differs: %s", how, firstDiff(p.Stderr, q.Stderr))
		}
	}
	if d := sameFiles(a, b); d != "" {
		return fmt.Sprintf("%s the files differ: %s", how, d)
	}
	return ""
}

func sameFiles(a, b *result) string {
	sa, sb := a.fs.snapshot(), b.fs.snapshot()
	for _, m := range []map[string]entry{sa, sb} {
		for k, e := range m {
			e.ino, e.mtime = 0, 0
			m[k] = e
		}
	}
	if d := diffSnap(sa, sb, nil); len(d) > 0 {
		return d[0]
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := i - 20
		if lo < 0 {
			lo = 0
		}
		if lo > len(s) {
			lo = len(s)
		}
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		return fmt.Sprintf("%q", s[lo:hi])
	}
	return fmt.Sprintf("at byte %d: %s became %s", i, cut(a), cut(b))
}

func caseAny(r *rng, c *corpus, n int) *Scenario {
	pool := c.items
	if n%3 == 0 {
		pool = c.valid
	}
	if n%6 >= 3 && r.p(1, 2) && len(c.chatty) > 0 {
		pool = c.chatty
	}
	sc, files := newWorld(r, worldOpt{n: 1 + r.n(3), pool: pool, symlinks: true, modes: rwModes})
	if r.p(1, 4) {
		x := oddArg(r, sc, files, n%6 < 4)
		at := r.n(len(files) + 1)
		files = append(files[:at], append([]string{x}, files[at:]...)...)
	}
	var args []string
	switch n % 6 {
	case 0, 1:
		args = append([]string{"format"}, files...)
	case 2:
		args = append([]string{"check"}, files...)
	case 3:
		args = append([]string{"lint"}, files...)
	default:
		args = rewriteArgs(r, files)
	}
	sc.Procs = []ProcSpec{newProc(r, args...)}
	specialise(r, sc, false)
	dress(r, sc, 1, 4)
	if r.p(1, 25) {
		enlarge(r, sc)
	}
	return sc
}

func varyC06(r *rng, sc *Scenario, ref *refRun) {
	n := 1 + r.n(6)
	sc.Procs[0].Stdout = pick(r, []string{"", "", "file"})
	if sc.Procs[0].Stdout == "file" {
		sc.Procs[0].Stdout = ""
	}
	switch r.n(6) {
	case 0: // every call takes long
		sc.Faults = append(sc.Faults, Fault{Kind: "slow", Arg: pick(r, []int{1, 30, 1000, 11000, 61000, 301000, 4000000}), Class: pick(r, []string{"", "", "read", "write", "open", "fsync", "rename"})})
	case 1, 2: // one of them does
		sc.Faults = append(sc.Faults, Fault{Kind: "slow", At: point(r, ref, 0), Arg: pick(r, []int{1000, 11000, 61000, 301000, 4000000})})
	}
	for i := 0; i < n; i++ {
		f := genFault(r, ref, 0, true)
		sc.Faults = append(sc.Faults, f)
		if f.Kind == "short" && r.p(1, 2) {
			// the rest of the transfer is cut up as well
			for j := 1; j <= 1+r.n(4); j++ {
				sc.Faults = append(sc.Faults, Fault{Proc: 0, At: f.At + j, Kind: pick(r, []string{"short", "short", "eintr"}), Arg: r.n(1 << 20)})
			}
		}
	}
}

// ---- several files in one invocation ----

func single(sc *Scenario, arg string) *Scenario {
	o := clone(sc)
	var args []string
	for i, a := range sc.Procs[0].Args {
		if i == 0 || strings.HasPrefix(a, "-") && a != "-" {
			args = append(args, a)
		}
	}
	o.Procs[0].Args = append(args, arg)
	return o
}

// checkSplit: an invocation on several files does to each file, and says about
// each file, what an invocation on that file alone does and says.
func checkSplit(sc *Scenario, info *runInfo) (string, error) {
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", err
	}
	info.add(res)
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, nil
	}
	p := res.procs[0]
	if s := panicked(p); s != "" {
		return "the command crashes: " + s, nil
	}
	m := mode(sc.Procs[0].Args)
	stopsAtFirst := strings.HasPrefix(m, "format")
	var lines []string
	stdout := ""
	exit := 0
	stopped := false
	files := fileArgs(sc.Procs[0].Args)
	for _, a := range files {
		s := single(sc, a)
		if stopped {
			// format ended at the first file that failed: this one may be
			// untouched or done, but nothing else
			_, n0 := realPath(buildFS(sc), abs(sc.Cwd, a))
			_, n1 := realPath(res.fs, abs(sc.Cwd, a))
			if n0 != nil && n1 == nil {
				return fmt.Sprintf("%s is gone", a), nil
			}
			if n0 != nil && n0.typ == tReg && string(n0.data) != string(n1.data) {
				it, err := itemOf(string(n0.data))
				if err != nil {
					return "", err
				}
				if string(n1.data) != it.Formatted {
					return fmt.Sprintf("%s, after the file that failed, was left damaged", a), nil
				}
			}
			continue
		}
		r1, err := runScenario(s, nil, nil)
		if err != nil {
			return "", err
		}
		info.add(r1)
		if v := stuck(r1); v != "" {
			return v, nil
		}
		q := r1.procs[0]
		if s := panicked(q); s != "" {
			return fmt.Sprintf("the command crashes on %s: %s", a, s), nil
		}
		d := diag(q.Stderr)
		if q.Exit != 0 {
			exit = q.Exit
			info.probe("failing file")
			if !strings.Contains(q.Stderr, strings.Trim(a[strings.LastIndexByte(strings.TrimRight(a, "/"), '/')+1:], "/")) && !onlyWarnings(m, q) {
				// what it has to say about the comments names no file
				s.Faults = nil
				r2, err := runScenario(s, nil, nil)
				if err != nil {
					return "", err
				}
				info.add(r2)
				if u := r2.procs[0]; !onlyWarnings(m, u) || u.Stderr != q.Stderr {
					return fmt.Sprintf("%s fails on %s without naming it: %s", m, a, brief(q.Stderr)), nil
				}
			}
			if stopsAtFirst {
				stopped = true
			}
		}
		lines = append(lines, d...)
		stdout += q.Stdout
		rp, n := realPath(r1.fs, abs(sc.Cwd, a))
		_, n2 := realPath(res.fs, abs(sc.Cwd, a))
		if (n == nil) != (n2 == nil) || n != nil && (string(n.data) != string(n2.data) || n.mode != n2.mode) {
			return fmt.Sprintf("%s is left in another state than by an invocation on that file alone", rp), nil
		}
	}
	got := diag(p.Stderr)
	if strings.Join(got, "\n") != strings.Join(lines, "\n") {
		return fmt.Sprintf("the report on %d files is not the reports on each file put together: %s", len(files), lineDiff(lines, got)), nil
	}
	if p.Exit != exit {
		return fmt.Sprintf("exit status %d on all files together, %d expected from the files one by one", p.Exit, exit), nil
	}
	if p.Stdout != stdout {
		return "standard output is not the outputs for each file put together: " + firstDiff(stdout, p.Stdout), nil
	}
	return "", nil
}

// onlyWarnings: lint reports warnings about comments without the file's name;
// that is a matter of wording.
func onlyWarnings(m string, q *procResult) bool {
	return strings.HasPrefix(m, "lint") && !q.HardHit && !strings.Contains(q.Stderr, "no IDs found") && !strings.Contains(q.Stderr, "duplicate IDs")
}

func lineDiff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("line %d is %s, expected %s", i+1, brief(g), brief(w))
		}
	}
	return ""
}

func checkC10(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	v, err := checkSplit(sc, info)
	info.nontrivial = info.probes["failing file"] > 0
	return v, info, err
}

func caseC10(r *rng, c *corpus, n int) *Scenario {
	pool := c.items
	if r.p(1, 3) {
		pool = c.invalid
	}
	if r.p(1, 4) && len(c.chatty) > 0 {
		pool = c.chatty
	}
	count := 2 + r.n(4)
	if r.p(1, 12) {
		count = 8 + r.n(17)
	}
	sc, files := newWorld(r, worldOpt{n: count, pool: pool, symlinks: true, modes: []uint32{0o644, 0o644, 0o644, 0o644, 0, 0o200}})
	if r.p(1, 4) {
		// several files of the same content
		var at []int
		for i, x := range sc.Files {
			if x.Type == "" {
				at = append(at, i)
			}
		}
		for k := 1 + r.n(len(at)); k > 0; k-- {
			sc.Files[pick(r, at)].Content = sc.Files[pick(r, at)].Content
		}
	}
	for i := 0; i < 1+r.n(2); i++ {
		if r.p(1, 2) {
			x := oddArg(r, sc, files, n%6 != 3 && n%6 != 5)
			at := r.n(len(files) + 1)
			dup := false
			for _, f := range files {
				if f == x {
					dup = true
				}
			}
			if !dup || r.p(1, 2) && n%6 != 3 && n%6 != 5 {
				files = append(files[:at], append([]string{x}, files[at:]...)...)
			}
		}
	}
	if n%6 != 3 && n%6 != 5 && r.p(1, 6) {
		// one of them once more, perhaps by another name
		at := r.n(len(files))
		x := files[at]
		switch r.n(4) {
		case 0:
			x = "./" + strings.TrimPrefix(x, "/w/")
			if strings.HasPrefix(files[at], "/") && !strings.HasPrefix(files[at], "/w/") {
				x = files[at]
			}
		case 1:
			sc.Files = append(sc.Files, FileSpec{Path: "/w/once-more", Type: "l", Target: abs("/w", x), UID: 1000})
			x = "once-more"
		}
		files = slices.Insert(files, at+1, x)
	}
	if n%48 == 26 {
		// much to say about each
		for i := range sc.Files {
			if x := &sc.Files[i]; x.Type == "" && !strings.HasPrefix(x.Content, "bystander") && r.p(3, 4) {
				x.Content = "filter {" + strings.Repeat(" mutate { } ruby { }\n", 100+r.n(300)) + "}\n"
			}
		}
	}
	if n%240 == 24 || n%240 == 170 {
		// the same few over and over
		few := files
		for i := 30 + r.n(120); i > 0; i-- {
			files = append(files, pick(r, few))
		}
	}
	cmd := [][]string{{"check"}, {"check"}, {"lint"}, {"lint", "--auto-fix-id"}, {"format"}, {"format", "-w"}}[n%6]
	sc.Procs = []ProcSpec{newProc(r, append(append([]string{}, cmd...), files...)...)}
	specialise(r, sc, false)
	dress(r, sc, 1, 4)
	if r.p(1, 25) {
		enlarge(r, sc)
	}
	return sc
}

func caseC13(r *rng, c *corpus, n int) *Scenario {
	sc := caseC10(r, c, n)
	return sc
}

// varyC13 makes the calls on one or two of the files fail.
func varyC13(r *rng, sc *Scenario, ref *refRun) {
	files := fileArgs(sc.Procs[0].Args)
	classes := []string{"stat", "open", "read", "close"}
	if m := mode(sc.Procs[0].Args); strings.HasSuffix(m, "-w") {
		classes = append(classes, "openw", "creat", "openw")
	}
	for i := 0; i < 1+r.n(2); i++ {
		cl := pick(r, classes)
		f := Fault{Proc: 0, Path: abs(sc.Cwd, pick(r, files)), Class: cl, Kind: "err", Errno: int(pick(r, errnosFor[cl])), Arg: r.n(1000)}
		if cl == "read" && r.p(1, 2) && !namedTwice(sc, f.Path) {
			f.Times = 1
		}
		sc.Faults = append(sc.Faults, f)
	}
}

// namedTwice: a failure that happens only once would hit only one of the
// arguments that name the file.
func namedTwice(sc *Scenario, path string) bool {
	f0 := buildFS(sc)
	_, n := realPath(f0, path)
	cnt := 0
	for _, a := range fileArgs(sc.Procs[0].Args) {
		if _, m := realPath(f0, abs(sc.Cwd, a)); n != nil && m == n || abs(sc.Cwd, a) == path {
			cnt++
		}
	}
	return cnt > 1
}

func checkC13(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	v, err := checkSplit(sc, info)
	info.nontrivial = len(info.fired) > 0
	if v == "" && err == nil {
		v, err = faultsTold(sc)
	}
	return v, info, err
}

// faultsTold: a file whose content never arrived, because a call on it was made
// to fail, is reported.
func faultsTold(sc *Scenario) (string, error) {
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", err
	}
	p := res.procs[0]
	m := mode(sc.Procs[0].Args)
	f0 := buildFS(sc)
	for _, a := range fileArgs(sc.Procs[0].Args) {
		path := abs(sc.Cwd, a)
		hit, closing := false, false
		for i, on := range p.FailedOn {
			if samePath(sc.Cwd, path, on) {
				hit = true
				closing = closing || p.FailedAs[i] == "close"
			}
		}
		if closing && p.Exit == 0 && p.Signal == 0 {
			return fmt.Sprintf("%s exits with 0 although closing %s failed", m, a), nil
		}
		rp, n := realPath(f0, path)
		if !hit || n == nil || !n.readable() || readEntirely(res, 0, path, rp, n.content()) {
			continue
		}
		if p.Exit == 0 && p.Signal == 0 {
			return fmt.Sprintf("%s exits with 0 although it never got to read %s", m, a), nil
		}
		if !strings.HasPrefix(m, "format") && !strings.Contains(p.Stderr, strings.TrimPrefix(a, "./")) {
			return fmt.Sprintf("%s does not name %s, which it could not read: %s", m, a, brief(p.Stderr)), nil
		}
	}
	return "", nil
}

// C14: descriptors.
func caseC14(r *rng, c *corpus, n int) *Scenario {
	cnt := 3 + r.n(6)
	if n%2 == 0 {
		cnt = 20 + r.n(25)
	}
	var small []*item
	for _, it := range c.items {
		if len(it.Content) < 600 && (it.Valid || r.p(1, 4)) {
			small = append(small, it)
		}
	}
	sc, files := newWorld(r, worldOpt{n: cnt, pool: small, modes: []uint32{0o644}})
	cmd := [][]string{{"check"}, {"lint"}, {"lint", "--auto-fix-id"}, {"format"}, {"format", "-w"}}[r.n(5)]
	if n%7 != 3 && r.p(1, 2) {
		// not only files
		sc.Files = append(sc.Files, FileSpec{Path: "/w/empty", Type: "d", Mode: 0o755, UID: 1000})
		for k := 1 + r.n(4); k > 0; k-- {
			x := pick(r, []string{"empty", "conf.d", ".", "/w/empty", "/srv"})
			if r.p(1, 2) {
				x = oddArg(r, sc, files, true)
			}
			files = slices.Insert(files, r.n(len(files)+1), x)
		}
	}
	if r.p(1, 4) {
		sc.Files = append(sc.Files, flagSettings(r))
	}
	if n%7 == 3 {
		// the library in a long-lived process
		p := newProc(r)
		p.Prog = "drv"
		var ops []string
		for i, f := range files {
			o := fmt.Sprintf(`{"op":"parsefile","name":%q`, f)
			switch i % 4 {
			case 1:
				o += fmt.Sprintf(`,"max":%d`, 1+r.n(300))
			case 2:
				o += `,"norec":true`
			case 3:
				o += fmt.Sprintf(`,"norec":true,"max":%d`, 1+r.n(300))
			}
			ops = append(ops, o+"}")
		}
		p.Script = "[" + strings.Join(ops, ",") + "]"
		p.Args = append([]string{"drv"}, files...)
		sc.Procs = []ProcSpec{p}
		return sc
	}
	sc.Procs = []ProcSpec{newProc(r, append(append([]string{}, cmd...), files...)...)}
	return sc
}

func varyC14(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 3) {
		sc.Procs[0].Limit = 3 + 6
		return
	}
	sc.Faults = genFaults(r, ref, 0, 4, false)
}

func checkC14(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	tight := len(sc.Faults) == 0 && sc.Procs[0].Limit > 0
	var ref *refRun
	if tight {
		b := clone(sc)
		b.Procs[0].Limit = 0
		var err error
		ref, err = rc.ref(b, info)
		if err != nil {
			return "", info, err
		}
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = len(res.fired) > 0 || tight
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	p := res.procs[0]
	if len(p.Leaked) > 0 && p.Signal == 0 && panicked(p) == "" {
		return fmt.Sprintf("%d descriptors are still open at the end, first of %s", len(p.Leaked), p.Leaked[0]), info, nil
	}
	if tight {
		info.probe("few descriptors allowed")
		if v := sameOutcome(ref.res, res, fmt.Sprintf("with at most %d open files for %d arguments", sc.Procs[0].Limit-3, len(fileArgs(sc.Procs[0].Args)))); v != "" {
			return v, info, nil
		}
	}
	return "", info, nil
}

// C15: running the command again finishes the job.
func caseC15(r *rng, c *corpus, n int) *Scenario {
	var pool []*item
	for _, it := range c.idem {
		if n%2 == 0 || it.Fixable > 0 {
			pool = append(pool, it)
		}
	}
	if len(pool) == 0 {
		pool = c.idem
	}
	sc, files := newWorld(r, worldOpt{n: 1 + r.n(3), pool: pool, symlinks: true, modes: []uint32{0o644, 0o600, 0o664}, extras: true})
	sc.Procs = []ProcSpec{newProc(r, rewriteArgs(r, files)...)}
	if r.p(1, 5) {
		alignSizes(r, sc)
	}
	return sc
}

func checkC15(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	ref, ts, bad, err := rewriteRef(sc, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = res.crashed || len(res.fired) > 0
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	again := base(sc)
	for i, e := range sc.Extra {
		if i == 0 && e%2 == 0 {
			break // the very same process identity and randomness
		}
		again.Procs[0].Rand = e
		again.Procs[0].Pid = 2 + int(e%30000)
	}
	fs := res.fs
	fs.capacity = -1
	mid := map[string]string{}
	for round := 1; round <= 2; round++ {
		r2, err := runScenario(again, fs, nil)
		if err != nil {
			return "", info, err
		}
		info.add(r2)
		if v := stuck(r2); v != "" {
			return v, info, nil
		}
		p := r2.procs[0]
		if s := panicked(p); s != "" {
			return "the repeated command crashes: " + s, info, nil
		}
		if ref.res.procs[0].Exit == 0 && p.Exit != 0 {
			return fmt.Sprintf("the repeated command does not get through (exit %d): %s", p.Exit, brief(p.Stderr)), info, nil
		}
		for _, t := range ts {
			if !t.val {
				continue
			}
			n := fs.peek(t.path)
			want := t.old
			if t.rew {
				want = t.new
			}
			if n == nil || string(n.data) != want {
				return fmt.Sprintf("after repeating the command (%d) %s is not what an undisturbed run leaves", round, t.path), info, nil
			}
			if round == 1 {
				mid[t.path] = string(n.data)
			} else if mid[t.path] != string(n.data) {
				return fmt.Sprintf("repeating the command once more changes %s again", t.path), info, nil
			}
		}
	}
	return "", info, nil
}

func varyC15(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 6) {
		occupy(r, sc, ref, true)
	}
	sc.Extra = []uint64{r.u64() >> 1}
	switch r.n(4) {
	case 0, 1:
		sc.Crash = genCrash(r, ref, 0, "kill")
	case 2:
		sc.Crash = genCrash(r, ref, 0, "power")
	default:
		sc.Faults = genFaults(r, ref, 0, 3, false)
	}
	if r.p(1, 6) {
		sc.Capacity = usedBytes(sc) + r.n(3)*512
	}
}

// C16: same inputs, same results.
func caseC16(r *rng, c *corpus, n int) *Scenario {
	if n%3 == 2 {
		return caseLibC16(r, c)
	}
	n = n/3*2 + n%3
	if n%5 == 4 {
		return caseC10(r, c, n/5)
	}
	return caseAny(r, c, n)
}

func varyC16(r *rng, sc *Scenario, ref *refRun) {
	sc.Extra = []uint64{r.u64() >> 1}
	if sc.Lib != nil {
		sc.Lib.Rand = 1 + uint64(r.n(1e6))
		sc.Lib.Pool = pick(r, []string{"", "lifo", "random"})
		return
	}
	if r.p(2, 5) {
		// the same call fails in both runs
		for try := 0; try < 5; try++ {
			f := genFault(r, ref, 0, false)
			if f.At >= ref.start && (f.Kind == "err" || f.Kind == "full" || f.Kind == "ro") {
				sc.Faults = []Fault{f}
				break
			}
		}
	}
}

func checkC16(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	if sc.Kind == "lib" {
		return checkLibC16(sc, info)
	}
	ref, err := rc.ref(sc, info)
	if err != nil {
		return "", info, err
	}
	o := clone(sc)
	r := newRng(sc.Extra[0])
	p := &o.Procs[0]
	var others []string
	p.Rand, p.Clock, p.Pid = r.u64()>>1, uint64(r.n(4e9)), 2+r.n(4e6)
	o.InoBase, o.TimeBase, o.DirSeed = uint64(r.n(1e9)), uint64(r.n(2e9)), r.u64()
	o.TimeSeed = r.u64()
	if r.p(3, 4) {
		p.Env = append(p.Env, fmt.Sprintf("VERIF_ENV=%d", 1+r.n(1e9)))
	}
	for i, e := range []string{"TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR", "TMPDIR=/srv", "USER=someone", "NO_COLOR=1", "TERM=xterm", "COLUMNS=20", "GODEBUG=", "XDG_CONFIG_HOME=/srv/cfg"} {
		if sc.Extra[0]>>uint(i)&1 == 1 {
			p.Env = append(p.Env, e)
		}
	}
	p.Stdout = pick(r, []string{"", "", "file", "tty", "tty"})
	p.Stderr = pick(r, []string{"", "", "file", "tty", "tty"})
	p.Stdin = pick(r, []string{"", "pipe", "tty"})
	p.Yield = pick(r, []uint64{0, r.u64() >> 8})
	o.Host = pick(r, []string{"", "build-7.example.org", "x"})
	if r.p(1, 2) {
		others = occupy(r, o, ref, false)
	}
	first := ref.res
	how := "in another process on another day"
	if len(sc.Faults) > 0 {
		if first, err = runScenario(sc, nil, nil); err != nil {
			return "", info, err
		}
		info.add(first)
		if v := stuck(first); v != "" {
			return v, info, nil
		}
		how += ", where the same call fails,"
	} else {
		switch r.n(6) { // some days are slow
		case 0:
			o.Faults = append(o.Faults, Fault{Kind: "slow", Arg: pick(r, []int{1, 1000, 61000, 4000000})})
		case 1:
			o.Faults = append(o.Faults, Fault{Kind: "slow", At: ref.start + r.n(len(ref.res.procs[0].Classes)+1), Arg: pick(r, []int{1000, 61000, 4000000})})
		}
		for i := 0; i < 3; i++ {
			o.Faults = append(o.Faults, Fault{Proc: 0, At: ref.start + r.n(len(ref.res.procs[0].Classes)+1), Kind: "resched"})
		}
	}
	res, err := runScenario(o, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	if len(sc.Faults) > 0 {
		// the same call, if the runs are the same up to it
		a, b, at := first.procs[0].Classes, res.procs[0].Classes, sc.Faults[0].At
		if len(a) < at || len(b) < at || !slices.Equal(a[:at], b[:at]) {
			return "", info, nil
		}
		// what could not be removed has a name of its own in each run
		if first.procs[0].UnlinkF || res.procs[0].UnlinkF {
			return "", info, nil
		}
	}
	info.fired["other random seed, clock, pid, inode numbers, directory order, time stamps, host name, kind of standard streams, environment"]++
	info.nontrivial = true
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	if len(others) > 0 {
		info.probe("files where there was none")
		how += " with other files around (" + strings.Join(others, ", ") + ")"
		for _, x := range others {
			_, d := realPath(res.fs, path.Dir(x))
			if n := d.ents[path.Base(x)]; n == nil || !slices.ContainsFunc(o.Files, func(f FileSpec) bool { return f.Path == x && f.Content == string(n.data) }) {
				return x + ", which is none of its files, is changed", info, nil
			}
			delete(d.ents, path.Base(x))
		}
	}
	if v := sameOutcome(first, res, how); v != "" {
		return v, info, nil
	}
	if a, b := first.procs[0].Stderr, res.procs[0].Stderr; a != b {
		return fmt.Sprintf("%s standard error differs: %s", how, firstDiff(a, b)), info, nil
	}
	return "", info, nil
}

// C17: two commands at once.
func caseC17(r *rng, c *corpus, n int) *Scenario {
	sc := caseC15(r, c, n)
	for i := range sc.Files {
		if sc.Files[i].Type == "" && strings.HasPrefix(sc.Files[i].Content, "bystander") {
			continue
		}
	}
	p := sc.Procs[0]
	k := 2
	if r.p(1, 4) {
		k = 3
	}
	for i := 1; i < k; i++ {
		q := newProc(r, p.Args...)
		switch r.n(4) {
		case 0: // a reader of the files
			q.Args = append([]string{pick(r, []string{"format", "check"})}, fileArgs(p.Args)...)
		case 1: // an identical twin: same randomness
			q.Rand = p.Rand
		case 2: // the files in another order
			fs := fileArgs(p.Args)
			sort.Sort(sort.Reverse(sort.StringSlice(fs)))
			q.Args = append(append([]string{}, p.Args[:2]...), fs...)
		}
		q.Pid = p.Pid + i
		sc.Procs = append(sc.Procs, q)
	}
	if r.p(1, 2) { // at the same time of day
		for i := range sc.Procs {
			sc.Procs[i].Steady, sc.Procs[i].Clock = true, p.Clock
		}
	}
	if r.p(1, 6) { // in containers of their own
		for i := range sc.Procs {
			sc.Procs[i].Pid = 7
		}
	}
	return sc
}

func varyC17(r *rng, sc *Scenario, ref *refRun) {
	if r.p(1, 6) {
		occupy(r, sc, ref, true)
	}
	total := 0
	for _, p := range ref.res.procs {
		total += len(p.Classes)
	}
	// let the first process come to its work, then switch often around the
	// calls that change something
	n := 2 + r.n(10)
	step := ref.start - 1
	if step < 0 {
		step = 0
	}
	if r.p(2, 3) {
		// start all of them first
		at := 0
		for i := range sc.Procs {
			sc.Switches = append(sc.Switches, Switch{Step: at, To: i})
			at += ref.start - 1
		}
		step = at
	}
	for i := 0; i < n; i++ {
		step += 1 + r.n(10)
		if r.p(1, 8) {
			step += r.n(30)
		}
		if step > total+5 {
			break
		}
		sc.Switches = append(sc.Switches, Switch{Step: step, To: r.n(len(sc.Procs))})
	}
	if r.p(1, 5) {
		v := r.n(len(sc.Procs))
		sc.Crash = &Crash{Kind: "kill", Proc: v, At: point(r, ref, 0), Phase: pick(r, []string{"before", "after"}), Arg: r.u64() >> 1}
	}
}

func checkC17(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	return checkBeside(sc, rc, false)
}

func checkBeside(sc *Scenario, rc *refCache, bound bool) (string, *runInfo, error) {
	info := &runInfo{}
	one := clone(sc)
	one.Procs = one.Procs[:1]
	ref, ts, bad, err := rewriteRef(one, rc, info)
	if err != nil || bad != "" {
		return bad, info, err
	}
	inv := allOrNothing(ts)
	before := buildFS(sc).snapshot()
	o := clone(sc)
	if bound {
		o.Limit = 20*ref.res.steps*len(sc.Procs) + 2000
	}
	res, err := runScenario(o, nil, inv)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = len(sc.Switches) > 0 || len(sc.Stalls) > 0
	info.fired["switch"] += len(sc.Switches)
	info.sample = res.trace
	if res.stepErr != nil {
		return res.stepErr.Error(), info, nil
	}
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	if bound {
		if v := delayed(res, ref.res.steps*len(sc.Procs)); v != "" {
			return v, info, nil
		}
	}
	rewriters, finished := 0, 0
	for i, p := range res.procs {
		m := mode(sc.Procs[i].Args)
		if strings.HasSuffix(m, "-w") {
			rewriters++
		}
		if p.Crashed {
			continue
		}
		if strings.HasSuffix(m, "-w") {
			finished++
		}
		if s := panicked(p); s != "" {
			return "a command crashes: " + s, info, nil
		}
		want := 0
		if strings.HasSuffix(m, "-w") {
			want = ref.res.procs[0].Exit
		}
		if p.Exit != want {
			if m == "lint-w" && p.Exit == 1 && want == 1 || want == 1 && p.Exit == 0 {
				continue
			}
			return fmt.Sprintf("%s ends with exit status %d instead of %d because another one ran: %s", strings.Join(sc.Procs[i].Args, " "), p.Exit, want, brief(p.Stderr)), info, nil
		}
		if m == "format" {
			s := p.Stdout
			for _, a := range fileArgs(sc.Procs[i].Args) {
				hit := false
				for _, t := range ts {
					if t.path != abs(sc.Cwd, a) {
						continue
					}
					for _, c := range []string{t.old, t.new} {
						it, err := itemOf(c)
						if err != nil {
							return "", info, err
						}
						if it.Valid && strings.HasPrefix(s, it.Formatted) {
							s = s[len(it.Formatted):]
							hit = true
							break
						}
					}
				}
				if !hit {
					return fmt.Sprintf("format, running beside a rewrite, printed neither the old nor the new %s", a), info, nil
				}
			}
		}
	}
	if finished > 0 {
		for _, t := range ts {
			n := res.fs.peek(t.path)
			want := t.old
			if t.rew {
				want = t.new
			}
			if alone := ref.res.fs.peek(t.path); alone == nil || string(alone.data) != want {
				continue // one alone does not manage it either
			}
			if n == nil || string(n.data) != want {
				return fmt.Sprintf("after all commands ended %s is not what one of them alone leaves", t.path), info, nil
			}
		}
	}
	isT := map[string]bool{}
	for _, t := range ts {
		isT[t.real] = true
	}
	for _, d := range diffSnap(before, res.fs.snapshot(), func(p string) bool { return isT[p] }) {
		if strings.Contains(d, " is new (") && res.crashed {
			continue
		}
		return d, info, nil
	}
	return "", info, nil
}

// C21: no command waits for ever, nor longer than it has to.

// delayed: more steps, or more time, than can be explained by n, the steps
// of the undisturbed run.
func delayed(res *result, n int) string {
	if m := 20*n + 2000; res.steps > m {
		return fmt.Sprintf("%d system calls where %d are enough", res.steps, n)
	}
	if t := res.simNS - res.slowNS; t > 10e9+uint64(res.steps)*callTime {
		return fmt.Sprintf("the command waited for %d seconds", t/1e9)
	}
	return ""
}

func caseC21(r *rng, c *corpus, n int) *Scenario {
	switch n % 4 {
	case 0, 1:
		sc := caseAny(r, c, r.n(60))
		if r.p(1, 5) {
			sc = caseC20(r, c, r.n(60))
			sc.Extra = nil
		}
		sc.Kind = "persist"
		return sc
	case 2:
		sc := caseC17(r, c, n)
		sc.Kind = "beside"
		return sc
	}
	sc := caseC15(r, c, n)
	files := fileArgs(sc.Procs[0].Args)
	var q ProcSpec
	switch r.n(4) {
	case 0:
		q = newProc(r, append([]string{pick(r, []string{"format", "check", "lint"})}, files...)...)
	case 1:
		q = newProc(r, rewriteArgs(r, files)...)
	default:
		q = newProc(r, sc.Procs[0].Args...)
	}
	sc.Procs = append(sc.Procs, q)
	sc.Kind = "after"
	return sc
}

func varyC21(r *rng, sc *Scenario, ref *refRun) {
	switch sc.Kind {
	case "persist":
		f := Fault{Kind: pick(r, []string{"full", "ro", "bad"}), At: point(r, ref, 0), Arg: r.n(1000)}
		if r.p(3, 4) { // whatever is tried, it fails
			cl := pick(r, ref.res.procs[0].Classes[min(ref.start, len(ref.res.procs[0].Classes))-1:])
			if l := errnosFor[cl]; len(l) > 0 {
				f = Fault{Kind: "err", Class: cl, Errno: int(pick(r, l)), Arg: r.n(1000)}
				if f.Errno == int(syscall.EINTR) || f.Errno == int(syscall.EAGAIN) {
					f.Errno = int(syscall.EIO)
				}
				if r.p(1, 2) { // with one of the files
					if fs := fileArgs(sc.Procs[0].Args); len(fs) > 0 {
						f.Path = abs(sc.Cwd, pick(r, fs))
					}
				} else if r.p(1, 4) { // for long
					f.Times = 20 + r.n(400)
				}
			}
		}
		sc.Procs[0].Stdin = pick(r, []string{"", "idle", "idle"})
		sc.Faults = append(sc.Faults, f)
		if r.p(1, 4) {
			f := genFault(r, ref, 0, false)
			sc.Faults = append(sc.Faults, f)
		}
	case "beside":
		if r.p(1, 6) {
			occupy(r, sc, ref, true)
		}
		v := r.n(len(sc.Procs))
		sc.Switches = append(sc.Switches, Switch{Step: 0, To: v})
		sc.Stalls = []Stall{{Proc: v, At: point(r, ref, 0)}}
	case "after":
		sc.Crash = genCrash(r, ref, 0, pick(r, []string{"kill", "kill", "power"}))
	}
}

func checkC21(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	switch sc.Kind {
	case "beside":
		return checkBeside(sc, rc, true)
	case "after":
		return checkAfter(sc)
	}
	info := &runInfo{}
	ref, err := rc.ref(sc, info)
	if err != nil {
		return "", info, err
	}
	o := clone(sc)
	o.Limit = 20*ref.res.steps + 2000
	res, err := runScenario(o, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = len(res.fired) > 0
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	if s := panicked(res.procs[0]); s != "" {
		return "the command crashes: " + s, info, nil
	}
	return delayed(res, ref.res.steps), info, nil
}

// checkAfter: what a command that was killed left behind does not hold up, or
// change anything for, the next one.
func checkAfter(sc *Scenario) (string, *runInfo, error) {
	info := &runInfo{}
	if len(sc.Procs) < 2 {
		return "", info, nil
	}
	first, next := clone(sc), clone(sc)
	first.Procs = first.Procs[:1]
	next.Procs, next.Crash, next.Faults = next.Procs[1:], nil, nil
	before := buildFS(sc).snapshot()
	res, err := runScenario(first, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = res.crashed
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	var left []string
	for p := range res.fs.snapshot() {
		if _, ok := before[p]; !ok {
			left = append(left, p)
		}
	}
	fresh := clone(next)
	for i := range fresh.Files {
		f := &fresh.Files[i]
		if f.Type != "" && f.Type != "h" {
			continue
		}
		n := res.fs.lpeek(f.Path)
		if n == nil {
			return "", info, nil // C02
		}
		if f.Type == "h" {
			if n == res.fs.lpeek(f.Target) {
				continue
			}
			f.Type = ""
		}
		f.Content, f.Mode, f.UID, f.GID = string(n.data), n.mode, n.uid, n.gid
	}
	want, err := runScenario(fresh, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(want)
	next.Limit = 20*want.steps + 2000
	got, err := runScenario(next, res.fs, nil)
	if err != nil {
		return "", info, err
	}
	info.add(got)
	info.sample = got.trace
	cmd := strings.Join(next.Procs[0].Args[:1], " ")
	if v := stuck(got); v != "" {
		return "after a command was killed: " + v, info, nil
	}
	if v := delayed(got, want.steps); v != "" {
		return fmt.Sprintf("%s, after another command was killed: %s", cmd, v), info, nil
	}
	if len(left) > 0 {
		info.probe("something left behind")
	}
	for _, x := range left {
		if _, d := realPath(got.fs, path.Dir(x)); d != nil {
			delete(d.ents, path.Base(x))
		}
	}
	return sameOutcome(want, got, cmd+", after another command was killed: "), info, nil
}

// C19: a stream nobody takes anything from.
func caseC19(r *rng, c *corpus, n int) *Scenario {
	sc := caseC10(r, c, n)
	if r.p(1, 3) {
		pool := c.noid
		s, files := newWorld(r, worldOpt{n: 2 + r.n(4), pool: pool, symlinks: true, modes: rwModes, extras: true})
		s.Procs = []ProcSpec{newProc(r, append(append([]string{}, pick(r, [][]string{{"lint"}, {"lint", "--auto-fix-id"}})...), files...)...)}
		sc = s
	}
	if r.p(1, 12) {
		sc.Procs[0].Args = append([]string{pick(r, []string{"frobnicate", "format"}), "--nonsense"}, sc.Procs[0].Args[1:]...)
	}
	return sc
}

func varyC19(r *rng, sc *Scenario, ref *refRun) {
	p := &sc.Procs[0]
	bad := func() string { return pick(r, []string{"full", "closed", "closed", "bad", "part", "part"}) }
	p.Room = r.n(1 + r.n(400))
	silent := ref.res.procs[0].Stdout == "" && mode(p.Args) != "format"
	if !silent || r.p(3, 4) {
		p.Stderr = bad()
	}
	if silent && (p.Stderr == "" || r.p(1, 3)) {
		p.Stdout = bad()
	}
	if r.p(1, 4) {
		sc.Faults = genFaults(r, ref, 0, 3, true)
	}
}

func checkC19(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	ref, err := rc.ref(sc, info)
	if err != nil {
		return "", info, err
	}
	if v := stuck(ref.res); v != "" {
		return v, info, nil
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	p := sc.Procs[0]
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	a, b := ref.res.procs[0], res.procs[0]
	if p.Stderr != "" {
		info.fired["standard error "+p.Stderr]++
		info.nontrivial = info.nontrivial || a.Stderr != ""
	}
	if p.Stdout != "" {
		info.fired["standard output "+p.Stdout]++
		info.nontrivial = true
		if a.Stdout != "" || mode(p.Args) == "format" {
			return "", info, nil // not a stream without content (a replay file made by hand)
		}
	}
	how := fmt.Sprintf("with standard error %q and standard output %q", p.Stderr, p.Stdout)
	if b.Signal == int(syscall.SIGPIPE) && (p.Stderr == "closed" && a.Stderr != "") {
		info.probe("ended by SIGPIPE")
	} else if a.Exit != b.Exit || a.Signal != b.Signal {
		return fmt.Sprintf("%s the exit status is %d (signal %d) instead of %d: %s", how, b.Exit, b.Signal, a.Exit, brief(b.Real)), info, nil
	}
	if a.Stdout != b.Stdout {
		return fmt.Sprintf("%s standard output differs: %s", how, firstDiff(a.Stdout, b.Stdout)), info, nil
	}
	if p.Stderr == "" && digits.ReplaceAllString(a.Stderr, "#") != digits.ReplaceAllString(b.Stderr, "#") {
		return fmt.Sprintf("%s standard error differs: %s", how, firstDiff(a.Stderr, b.Stderr)), info, nil
	}
	if d := sameFiles(ref.res, res); d != "" {
		return fmt.Sprintf("%s the files differ: %s", how, d), info, nil
	}
	return "", info, nil
}

// C20: settings.
var settingsPaths = []string{"/w/mustache.yaml", "/w/mustache.json", "/w/mustache.toml", "/home/u/.config/mustache/mustache.yaml", "/w/mustache.yml"}

func caseC20(r *rng, c *corpus, n int) *Scenario {
	sc := caseAny(r, c, n)
	p := pick(r, settingsPaths)
	if strings.HasPrefix(p, "/home") {
		sc.Files = append(sc.Files, FileSpec{Path: "/home/u/.config", Type: "d", Mode: 0o755, UID: 1000}, FileSpec{Path: "/home/u/.config/mustache", Type: "d", Mode: 0o755, UID: 1000})
	}
	f := FileSpec{Path: p, Mode: 0o644, UID: 1000}
	good := map[string]string{".yaml": "verbose: true\nlist:\n  - a\n  - b\n", ".yml": "a: 1\n", ".json": "{\"a\": {\"b\": [1, 2]}}\n", ".toml": "a = 1\n[b]\nc = \"d\"\n"}
	f.Content = good[p[strings.LastIndex(p, "."):]]
	if r.p(1, 6) && strings.HasSuffix(p, "ml") {
		f.Content += strings.Repeat("# filler\n", 1000) // larger than a buffer
	}
	switch r.n(5) {
	case 0:
		f.Content = map[string]string{".yaml": brokenSettings, ".yml": "a: b: c", ".json": "{\"a\": ", ".toml": "a = = 1\n"}[p[strings.LastIndex(p, "."):]]
		sc.Extra = []uint64{1}
	case 1:
		if sc.Procs[0].UID != 0 {
			f.Mode = pick(r, []uint32{0, 0o200, 0o100})
			sc.Extra = []uint64{1}
		}
	}
	if sc.Extra == nil {
		sc.Extra = []uint64{0}
		if f.Mode == 0o644 && r.p(1, 2) {
			f = flagSettings(r)
		}
	}
	sc.Files = append(sc.Files, f)
	return sc
}

func varyC20(r *rng, sc *Scenario, ref *refRun) {
	path := sc.Files[len(sc.Files)-1].Path
	switch r.n(4) {
	case 0:
	case 1:
		sc.Faults = genFaults(r, ref, 0, 4, true)
		for i := range sc.Faults {
			sc.Faults[i].At = 1 + r.n(len(ref.res.procs[0].Classes))
		}
	default:
		cl := pick(r, []string{"open", "read", "read"})
		f := Fault{Proc: 0, Path: path, Class: cl, Kind: "err", Errno: int(pick(r, []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM}))}
		if cl == "read" {
			f.Errno = int(pick(r, errnosFor["read"]))
			if r.p(1, 2) {
				f.Times = 1
			}
			if r.p(1, 3) {
				// after a first part has been delivered
				sc.Faults = append(sc.Faults, Fault{Proc: 0, Path: path, Class: cl, Kind: "short", Arg: 1 + r.n(1000), Times: 1})
			}
		}
		sc.Faults = append(sc.Faults, f)
	}
}

func checkC20(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	path := ""
	for _, f := range sc.Files {
		if strings.Contains(f.Path, "/mustache.") {
			path = f.Path
		}
	}
	if path == "" || len(sc.Extra) == 0 {
		return "", info, nil
	}
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", info, err
	}
	info.add(res)
	info.nontrivial = true
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, info, nil
	}
	p := res.procs[0]
	if s := panicked(p); s != "" {
		return "the command crashes: " + s, info, nil
	}
	unusable := sc.Extra[0] == 1
	why := "cannot be used"
	for i, on := range p.FailedOn {
		if samePath(sc.Cwd, path, on) {
			unusable = true
			why = "could not be read (" + p.Fired[min(i, len(p.Fired)-1)] + ")"
		}
	}
	before := buildFS(sc)
	if !unusable {
		o := clone(sc)
		o.Extra = nil
		for i := range o.Files {
			if o.Files[i].Path == path {
				o.Files = append(o.Files[:i], o.Files[i+1:]...)
				break
			}
		}
		ref, err := rc.ref(o, info)
		if err != nil {
			return "", info, err
		}
		info.probe("usable settings")
		f2 := &result{fs: res.fs, procs: res.procs}
		delete(f2.fs.peek(path[:strings.LastIndex(path, "/")]).ents, path[strings.LastIndex(path, "/")+1:])
		return sameOutcome(ref.res, f2, "with a settings file that says nothing about it"), info, nil
	}
	info.probe("unusable settings")
	if p.Exit == 0 {
		return fmt.Sprintf("exit status 0 although %s %s", path, why), info, nil
	}
	if strings.TrimSpace(p.Stderr) == "" {
		return fmt.Sprintf("nothing is said about %s, which %s", path, why), info, nil
	}
	if p.Stdout != "" {
		return fmt.Sprintf("the command goes to work (%s) although %s %s", brief(p.Stdout), path, why), info, nil
	}
	if d := diffSnap(before.snapshot(), res.fs.snapshot(), nil); len(d) > 0 {
		return fmt.Sprintf("%s, although %s %s", d[0], path, why), info, nil
	}
	return "", info, nil
}

var cliProps = []*property{
	{id: "C01", cli: true, newCase: rewriteCase, vary: varyC01, k: 12, check: checkC01, quick: 400, deep: 6000},
	{id: "C02", cli: true, newCase: rewriteCase, vary: varyC02, k: 12, check: checkC02, quick: 400, deep: 6000},
	{id: "C03", cli: true, newCase: caseC03, vary: varyC03, k: 12, check: checkC03, quick: 480, deep: 6000},
	{id: "C04", cli: true, newCase: caseC04, vary: varyC04, k: 12, check: checkC04, quick: 400, deep: 6000},
	{id: "C05", cli: true, newCase: caseC05, vary: varyC05, k: 12, check: checkC05, quick: 450, deep: 6000},
	{id: "C06", cli: true, newCase: caseAny, vary: varyC06, k: 10, check: checkC06, quick: 450, deep: 6000},
	{id: "C10", cli: true, newCase: caseC10, vary: func(r *rng, sc *Scenario, ref *refRun) {}, k: 1, check: checkC10, quick: 1000, deep: 12000},
	{id: "C13", cli: true, newCase: caseC13, vary: varyC13, k: 4, check: checkC13, quick: 450, deep: 4000},
	{id: "C14", cli: true, newCase: caseC14, vary: varyC14, k: 8, check: checkC14, quick: 500, deep: 4000},
	{id: "C15", cli: true, newCase: caseC15, vary: varyC15, k: 10, check: checkC15, quick: 200, deep: 4000},
	{id: "C16", cli: true, lib: true, newCase: caseC16, vary: varyC16, shrink: shrinkLib, k: 5, check: checkC16, quick: 600, deep: 5000},
	{id: "C19", cli: true, newCase: caseC19, vary: varyC19, k: 6, check: checkC19, quick: 560, deep: 8000},
	{id: "C20", cli: true, newCase: caseC20, vary: varyC20, k: 6, check: checkC20, quick: 900, deep: 8000},
	{id: "C21", cli: true, newCase: caseC21, vary: varyC21, k: 8, check: checkC21, quick: 280, deep: 5000},
	{id: "C17", cli: true, newCase: caseC17, vary: varyC17, k: 12, check: checkC17, quick: 200, deep: 4000},
}
