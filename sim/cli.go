package main

import (
	"encoding/json"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"io/fs"
	"maps"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
)

// Properties of the command line tool, decided by running the real binary on
// the simulated kernel.

type runInfo struct {
	runs       int
	hash       uint64
	steps      int
	simNS      uint64
	fired      map[string]int
	nontrivial bool
	probes     map[string]int
	sample     any
}

func (i *runInfo) add(r *result) {
	i.runs++
	i.steps += r.steps
	i.simNS += r.simNS
	if i.fired == nil {
		i.fired = map[string]int{}
	}
	for k, v := range r.fired {
		i.fired[k] += v
	}
	if len(r.unsupported) > 0 {
		unsupMu.Lock()
		for k, v := range r.unsupported {
			unsupportedSeen[k] += v
		}
		unsupMu.Unlock()
	}
	i.hash = i.hash*1099511628211 ^ r.hash()
}

func (i *runInfo) probe(s string) {
	if i.probes == nil {
		i.probes = map[string]int{}
	}
	i.probes[s]++
}

type refRun struct {
	res   *result
	start int // first system call of process 0 that concerns an argument
	files map[string]string
}

type refCache struct {
	m map[string]*refRun
	n int
}

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var o Scenario
	json.Unmarshal(b, &o)
	return &o
}

func base(sc *Scenario) *Scenario {
	o := clone(sc)
	o.Faults, o.Crash, o.Switches, o.Readers, o.Extra, o.Stalls = nil, nil, nil, nil, nil, nil
	o.Seed, o.Run, o.Kind, o.Prop = 0, 0, "", ""
	o.Capacity = -1
	for i := range o.Procs {
		o.Procs[i].Stdout, o.Procs[i].Stderr, o.Procs[i].Room = "", "", 0
		o.Procs[i].Stdin = ""
	}
	return o
}

// ref runs the scenario without anything going wrong.
func (c *refCache) ref(sc *Scenario, info *runInfo) (*refRun, error) {
	b := base(sc)
	key, _ := json.Marshal(b)
	if c != nil && c.m[string(key)] != nil {
		return c.m[string(key)], nil
	}
	res, err := runScenario(b, nil, nil)
	if err != nil {
		return nil, err
	}
	if info != nil {
		info.runs++
		info.steps += res.steps
		info.simNS += res.simNS
	}
	r := &refRun{res: res, start: 1, files: map[string]string{}}
	args := fileArgs(sc.Procs[0].Args)
	for i, p := range res.procs[0].Paths {
		hit := false
		for _, a := range args {
			if p == a {
				hit = true
			}
		}
		if hit {
			r.start = i + 1
			break
		}
	}
	for p, e := range res.fs.snapshot() {
		if e.typ == tReg {
			r.files[p] = e.data
		}
	}
	if c != nil {
		if c.m == nil {
			c.m = map[string]*refRun{}
		}
		c.m[string(key)] = r
	}
	return r, nil
}

func fileArgs(args []string) []string {
	var out []string
	for i, a := range args {
		if i == 0 || strings.HasPrefix(a, "-") && a != "-" {
			continue
		}
		out = append(out, a)
	}
	return out
}

func mode(args []string) string {
	m := args[0]
	for _, a := range args[1:] {
		switch a {
		case "-w", "--write-to-source", "--auto-fix-id", "-w=true", "--write-to-source=true", "--auto-fix-id=true", "--write-to-source=1", "--auto-fix-id=T":
			m = args[0] + "-w"
		case "-w=false", "--write-to-source=false", "--auto-fix-id=false", "--auto-fix-id=0":
			m = args[0]
		}
	}
	return m
}

func abs(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return "/" + strings.Join(splitPath(p), "/")
}

// target is a regular file that an argument of the command leads to.
type target struct {
	path string // as an outside observer would open it
	real string // where the file itself lives
	old  string
	new  string // what a completed rewrite leaves ("" and !rewrites: nothing to do)
	rew  bool
	val  bool
	ok   bool // accessible at all
}

func realPath(f *fsys, p string) (string, *inode) {
	dir, name, n, e := f.walk(cred{}, f.root, p, true, 0)
	if e != 0 || n == nil || name == "" {
		return "", nil
	}
	s := name
	for d := dir; d != f.root; d = d.parent {
		for _, k := range sortedKeys(d.parent.ents) {
			if d.parent.ents[k] == d {
				s = k + "/" + s
				break
			}
		}
	}
	return "/" + s, n
}

// targets lists the files a command's arguments name, with the content a
// completed rewrite gives each of them. bad describes a wrong result of the
// run in which nothing went wrong.
func targets(sc *Scenario, ref *refRun) (ts []target, bad string, err error) {
	f := buildFS(sc)
	seen := map[string]bool{}
	for _, a := range fileArgs(sc.Procs[0].Args) {
		p := abs(sc.Cwd, a)
		rp, n := realPath(f, p)
		if n == nil || n.typ != tReg || seen[rp] {
			continue
		}
		seen[rp] = true
		it, err := itemOf(string(n.data))
		if err != nil {
			return nil, "", err
		}
		t := target{path: p, real: rp, old: string(n.data), val: it.Valid}
		switch mode(sc.Procs[0].Args) {
		case "format-w":
			if it.Valid {
				t.rew, t.new = true, it.Formatted
			}
		case "lint-w":
			if it.Valid && it.Fixable > 0 && ref != nil {
				t.rew = true
				got, ok := ref.files[rp]
				if !ok {
					bad = fmt.Sprintf("after an undisturbed run %s is gone", rp)
					return nil, bad, nil
				}
				t.new = got
				if got != t.old {
					why, err := validFix(t.old, got)
					if err != nil {
						return nil, "", err
					}
					if why != "" {
						return nil, fmt.Sprintf("after an undisturbed run %s: %s", rp, why), nil
					}
				}
			}
		}
		ts = append(ts, t)
	}
	return ts, "", nil
}

func okContent(t target, s string) bool {
	return s == t.old || t.rew && s == t.new
}

func describeContent(t target, s string) string {
	switch {
	case s == "":
		return "empty"
	case len(s) < len(t.old) && strings.HasPrefix(t.old, s):
		return fmt.Sprintf("cut off: the first %d of %d bytes of the old content", len(s), len(t.old))
	case t.rew && len(s) < len(t.new) && strings.HasPrefix(t.new, s):
		return fmt.Sprintf("cut off: the first %d of %d bytes of the new content", len(s), len(t.new))
	}
	return "neither the old nor the new content: " + brief(s)
}

// allOrNothing is the invariant of C01: whoever looks finds a complete file.
func allOrNothing(ts []target) func(k *kernel, what string) error {
	return func(k *kernel, what string) error {
		for _, t := range ts {
			n := k.fs.peek(t.path)
			if n == nil || n.typ != tReg {
				return fmt.Errorf("%s does not exist (after %s, step %d)", t.path, what, k.steps)
			}
			if s := string(n.data); !okContent(t, s) {
				return fmt.Errorf("%s is %s (after %s, step %d)", t.path, describeContent(t, s), what, k.steps)
			}
		}
		return nil
	}
}

func stuck(r *result) string {
	if r.runaway {
		return fmt.Sprintf("the command does not come to an end (%d system calls)", r.steps)
	}
	if r.deadlock {
		if len(r.procs) == 1 {
			return "the command waits for ever"
		}
		return "all processes wait for each other"
	}
	return ""
}

func panicked(p *procResult) string {
	if p.Crashed {
		return ""
	}
	if strings.Contains(p.Real, "panic:") || strings.Contains(p.Real, "fatal error:") || strings.Contains(p.Real, "[signal ") {
		line := p.Real
		if i := strings.Index(line, "panic:"); i >= 0 {
			line = line[i:]
		}
		if i := strings.IndexByte(line, '\n'); i > 0 {
			line = line[:i]
		}
		return line
	}
	return ""
}

// ---- generation of worlds and faults ----

var filePaths = []string{"/w/a.conf", "/w/b.conf", "/w/conf.d/c.conf", "/w/conf.d/d e.conf", "/w/-e.conf", "/srv/f.conf", "/w/conf.d/deep/g.conf", "/w/h", "/w/\u00e4.conf"}

// oddName is the name of a file few people would give.
func oddName(r *rng, i int) string {
	switch r.n(15) {
	case 0: // as long as can be
		return fmt.Sprintf("%03d", i) + strings.Repeat("n", 200) + ".conf"
	case 1:
		return fmt.Sprintf("100%%s %%d%%[1]v %d.conf", i)
	case 2:
		return fmt.Sprintf(".hidden%d", i)
	case 3:
		return fmt.Sprintf("*?[a-z]{x}%d*.conf", i)
	case 4:
		return fmt.Sprintf("it's \"%d\" \\ $HOME `x`.conf", i)
	case 5:
		return fmt.Sprintf("C:%d: 3:4 (5).conf", i)
	case 6:
		return fmt.Sprintf("\u65e5\u672c\u8a9e %d \U0001f600.conf", i)
	case 7:
		return fmt.Sprintf("%d", i)
	case 8:
		return fmt.Sprintf("..%d..", i)
	case 9:
		return fmt.Sprintf("#%d#", i)
	case 10:
		return fmt.Sprintf("%d.conf.tmp", i)
	case 12:
		return pick(r, []string{"-", "~", "@args", "+", "c[ab].conf", "?.conf", "$HOME", "%41.conf", "nul", "con.conf", "file:c", "x=y"})
	case 13:
		return pick(r, specialNames)
	case 11:
		return fmt.Sprintf("%d%s", i, pick(r, []string{"~", ".conf~", ".bak", ".orig", ".conf.swp", ".conf.disabled", ".rpmsave", ".dpkg-old", "_backup", ".conf.example", ".gz"}))
	}
	return fmt.Sprintf(" %d ", i)
}

// specialNames mean something to a shell, or to programs that care for it.
var specialNames = []string{"-", "-", "*.conf", "c[ab].conf", "?.conf", "$HOME", "~", "@args"}

func taken(sc *Scenario, path string) bool {
	return slices.ContainsFunc(sc.Files, func(f FileSpec) bool { return f.Path == path })
}

type worldOpt struct {
	n        int // number of files
	pool     []*item
	symlinks bool
	modes    []uint32
	extras   bool
}

func newWorld(r *rng, o worldOpt) (*Scenario, []string) {
	sc := &Scenario{Cwd: "/w", Capacity: -1, SyncsMeta: r.p(1, 2), InoBase: 1000 + uint64(r.n(1e6)), TimeBase: 1_600_000_000 + uint64(r.n(1e8)), TimeUnit: pick(r, []uint64{0, 0, 4, 1e6})}
	sc.Files = []FileSpec{{Path: "/w", Type: "d", Mode: 0o755, UID: 1000}, {Path: "/w/conf.d", Type: "d", Mode: pick(r, []uint32{0o755, 0o775, 0o1777}), UID: 1000},
		{Path: "/w/conf.d/deep", Type: "d", Mode: 0o700, UID: 1000}, {Path: "/srv", Type: "d", Mode: 0o755, UID: 1000}}
	perm := r.n(1 << 30)
	var args []string
	for i := 0; i < o.n; i++ {
		p := filePaths[(perm+i)%len(filePaths)]
		if i >= len(filePaths) {
			p = fmt.Sprintf("/w/conf.d/x%02d.conf", i)
		}
		if special := r.p(1, 30); special || r.p(1, 6) {
			name, dir := oddName(r, i), p[:strings.LastIndexByte(p, '/')+1]
			if special {
				name, dir = pick(r, specialNames), "/w/"
			}
			if q := dir + name; !taken(sc, q) {
				p = q
				// what the name could be taken for
				for _, alt := range strings.Fields(map[string]string{"c[ab].conf": "ca.conf cb.conf", "?.conf": "z.conf", "*.conf": "z.conf zz.conf", "%41.conf": "A.conf", "nul": "-", "file:c": "c"}[name]) {
					if q := dir + alt; !taken(sc, q) {
						sc.Files = append(sc.Files, FileSpec{Path: q, Mode: 0o644, UID: 1000, Content: pick(r, o.pool).Content})
					}
				}
			}
		}
		m := uint32(0o644)
		if len(o.modes) > 0 {
			m = pick(r, o.modes)
		}
		arg := p
		fp := p
		decoy := ""
		if o.symlinks && r.p(1, 4) {
			switch r.n(3) {
			default:
				// the argument is a symlink; the file lives elsewhere
				fp = fmt.Sprintf("/srv/real%d.conf", i)
				t := fp
				if r.p(1, 2) {
					t = strings.Repeat("../", strings.Count(p, "/")-1) + strings.TrimPrefix(fp, "/")
				}
				if r.p(1, 4) {
					mid := fmt.Sprintf("/w/conf.d/link%d", i)
					sc.Files = append(sc.Files, FileSpec{Path: mid, Type: "l", Target: fp, UID: 1000})
					t = mid
				}
				sc.Files = append(sc.Files, FileSpec{Path: p, Type: "l", Target: t, UID: 1000})
			case 1:
				// the file lies beside the symlink
				name := fmt.Sprintf("beside%d.conf", i)
				dir := p[:strings.LastIndexByte(p, '/')+1]
				fp = dir + name
				t := pick(r, []string{"", "./"}) + name
				if strings.HasPrefix(dir, "/w/conf.d/") && r.p(1, 2) {
					t = "../" + dir[strings.LastIndexByte(dir[:len(dir)-1], '/')+1:] + name
				}
				sc.Files = append(sc.Files, FileSpec{Path: p, Type: "l", Target: t, UID: 1000})
				decoy = "/w/" + name
			case 2:
				// the way leads through a symlink to a directory and up again
				cur := fmt.Sprintf("/w/cur%d", i)
				sc.Files = append(sc.Files, FileSpec{Path: "/srv/rel/v2", Type: "d", Mode: 0o755, UID: 1000}, FileSpec{Path: "/srv/rel", Type: "d", Mode: 0o755, UID: 1000},
					FileSpec{Path: cur, Type: "l", Target: pick(r, []string{"/srv/rel/v2", "../srv/rel/v2"}), UID: 1000})
				name := fmt.Sprintf("x%d.conf", i)
				fp = "/srv/rel/v2/" + name
				p = cur + "/" + name
				if r.p(1, 2) {
					fp = "/srv/rel/" + name
					p = cur + "/../" + name
					decoy = "/w/" + name
				}
				arg = p
			}
			if decoy == fp || decoy != "" && r.p(1, 3) {
				decoy = ""
			}
		}
		if decoy != "" {
			// a file of the same name where a wrong turn leads
			sc.Files = append(sc.Files, FileSpec{Path: decoy, Mode: 0o644, UID: 1000, Content: pick(r, o.pool).Content})
		}
		sc.Files = append(sc.Files, FileSpec{Path: fp, Mode: m, UID: 1000, Content: pick(r, o.pool).Content})
		if strings.HasPrefix(arg, "/w/") && r.p(2, 3) {
			arg = strings.TrimPrefix(arg, "/w/")
			if strings.HasPrefix(arg, "-") && arg != "-" || r.p(1, 4) {
				arg = "./" + arg
			}
		}
		args = append(args, arg)
	}
	if o.extras {
		// bystanders nobody asked to touch
		for i, p := range []string{"/w/a.conf.bak", "/w/a.conf.tmp", "/w/.a.conf.swp", "/w/conf.d/c.conf~", "/w/b.conf.new", "/tmp/keep", "/srv/.real0.conf.tmp", "/w/notes.txt", "/w/.b.conf.tmp"} {
			if r.p(1, 2) {
				sc.Files = append(sc.Files, FileSpec{Path: p, Mode: 0o600, UID: 1000, Content: fmt.Sprintf("bystander %d", i)})
			}
		}
		if r.p(1, 2) {
			// configurations that are not named
			for _, p := range []string{"/w/other.conf", "/w/conf.d/other.conf", "/w/conf.d/deep/other.conf", "/w/unnamed.cfg"} {
				if r.p(1, 2) {
					sc.Files = append(sc.Files, FileSpec{Path: p, Mode: 0o644, UID: 1000, Content: pick(r, []string{"input {stdin{}}", pick(r, o.pool).Content})})
				}
			}
		}
		if r.p(1, 6) {
			sc.Files = append(sc.Files, homeDirs(r)...)
		}
	}
	return sc, args
}

// flagSettings is a settings file that can be used and mentions the flags'
// names, which means nothing.
func flagSettings(r *rng) FileSpec {
	if r.p(2, 3) {
		return wordSettings(r)
	}
	k := pick(r, []string{"auto-fix-id", "autofixid", "auto_fix_id", "fix", "write-to-source", "w", "write", "verbose", "debug"})
	sec := pick(r, []string{"lint", "format", "check", "mustache", "defaults"})
	v := pick(r, []string{"true", "true", "1", "\"yes\"", "[\"b.conf\"]", "\"/w/other.conf\""})
	f := FileSpec{Mode: 0o644, UID: 1000}
	top := r.p(1, 3)
	switch pick(r, []string{"yaml", "json", "toml"}) {
	case "yaml":
		f.Path = "/w/mustache.yaml"
		f.Content = fmt.Sprintf("%s:\n  %s: %s\n", sec, k, v)
		if top {
			f.Content = fmt.Sprintf("%s: %s\n", k, v)
		}
	case "json":
		f.Path = "/w/mustache.json"
		f.Content = fmt.Sprintf("{%q: {%q: %s}}\n", sec, k, v)
		if top {
			f.Content = fmt.Sprintf("{%q: %s}\n", k, v)
		}
	default:
		f.Path = "/w/mustache.toml"
		f.Content = fmt.Sprintf("[%s]\n%s = %s\n", sec, k, v)
		if top {
			f.Content = fmt.Sprintf("%s = %s\n", k, v)
		}
	}
	return f
}

// codeWords are the words that occur as string literals in the command line
// tool; whatever setting it could ask for is among them.
var codeWords = sync.OnceValue(func() []string {
	seen := map[string]bool{}
	for _, w := range strings.Fields("auto-fix-id autofixid auto_fix_id fix write-to-source write verbose debug w backup dry-run") {
		seen[w] = true
	}
	for _, dir := range []string{"cmd", "internal"} {
		filepath.WalkDir(filepath.Join(repoDir, dir), func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f, err := goparser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			goast.Inspect(f, func(n goast.Node) bool {
				if _, ok := n.(*goast.ImportSpec); ok {
					return false
				}
				if l, ok := n.(*goast.BasicLit); ok && l.Kind == token.STRING {
					if s, err := strconv.Unquote(l.Value); err == nil && wordRe.MatchString(s) && len(seen) < 400 {
						seen[strings.ToLower(s)] = true
					}
				}
				return true
			})
			return nil
		})
	}
	return slices.Sorted(maps.Keys(seen))
})

var wordRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_-]*(\.[A-Za-z][A-Za-z0-9_-]*)*$`)

// wordSettings is a settings file that can be used and mentions every word of
// the code, at the top and in every section.
func wordSettings(r *rng) FileSpec {
	v := pick(r, []string{"true", "true", "true", "1", "\"yes\"", "\"b.conf\""})
	flat := map[string]bool{}
	secs := map[string]bool{"lint": true, "format": true, "check": true, "mustache": true, "defaults": true}
	for _, w := range codeWords() {
		parts := strings.Split(w, ".")
		flat[parts[len(parts)-1]] = true
		if len(parts) > 1 {
			secs[strings.Join(parts[:len(parts)-1], ".")] = true
		}
	}
	type node struct {
		vals map[string]bool
		subs map[string]*node
	}
	root := &node{map[string]bool{}, map[string]*node{}}
	fill := func(n *node) {
		for w := range flat {
			n.vals[w] = true
		}
	}
	fill(root)
	for _, s := range slices.Sorted(maps.Keys(secs)) {
		n := root
		for _, x := range strings.Split(s, ".") {
			if n.subs[x] == nil {
				n.subs[x] = &node{map[string]bool{}, map[string]*node{}}
			}
			delete(n.vals, x)
			n = n.subs[x]
		}
		fill(n)
		for x := range n.subs {
			delete(n.vals, x)
		}
	}
	var js func(n *node) string
	js = func(n *node) string {
		var out []string
		for _, k := range slices.Sorted(maps.Keys(n.vals)) {
			out = append(out, fmt.Sprintf("%q: %s", k, v))
		}
		for _, k := range slices.Sorted(maps.Keys(n.subs)) {
			out = append(out, fmt.Sprintf("%q: %s", k, js(n.subs[k])))
		}
		return "{" + strings.Join(out, ", ") + "}"
	}
	var tm func(n *node, at string) string
	tm = func(n *node, at string) string {
		out := ""
		for _, k := range slices.Sorted(maps.Keys(n.vals)) {
			out += fmt.Sprintf("%q = %s\n", k, v)
		}
		for _, k := range slices.Sorted(maps.Keys(n.subs)) {
			out += fmt.Sprintf("[%s%q]\n%s", at, k, tm(n.subs[k], at+strconv.Quote(k)+"."))
		}
		return out
	}
	f := FileSpec{Mode: 0o644, UID: 1000, Path: pick(r, []string{"/w/mustache.yaml", "/w/mustache.json", "/w/mustache.toml"})}
	f.Content = js(root) + "\n"
	if strings.HasSuffix(f.Path, "toml") {
		f.Content = tm(root, "")
	}
	return f
}

// homeDirs: what other programs and earlier versions may have left.
func homeDirs(r *rng) []FileSpec {
	var out []FileSpec
	for _, d := range []string{"/home/u/.config", "/home/u/.config/mustache", "/home/u/.cache", "/home/u/.cache/mustache", "/home/u/.mustache", "/home/u/.local", "/home/u/.local/share", "/home/u/.local/state"} {
		if r.p(2, 3) || d == "/home/u/.config" || d == "/home/u/.cache" || d == "/home/u/.local" {
			out = append(out, FileSpec{Path: d, Type: "d", Mode: 0o755, UID: 1000})
		}
	}
	return out
}

// specialise makes one of the files a command reads something else than an
// ordinary file: a pipe that brings its content in pieces, a device, or a file
// whose size is not known before it is read.
func specialise(r *rng, sc *Scenario, always bool) {
	if !always && !r.p(1, 4) {
		return
	}
	f := buildFS(sc)
	count := map[string]int{}
	for _, a := range fileArgs(sc.Procs[0].Args) {
		if rp, n := realPath(f, abs(sc.Cwd, a)); n != nil {
			count[rp]++
		}
	}
	w := strings.HasSuffix(mode(sc.Procs[0].Args), "-w")
	start := r.n(len(sc.Files))
	for i := range sc.Files {
		x := &sc.Files[(start+i)%len(sc.Files)]
		if x.Type != "" || count[x.Path] != 1 {
			continue
		}
		switch y := r.n(7); {
		case y < 4:
			x.Type, x.Chunk = "p", max(len(x.Content)/1000, pick(r, []int{1 + r.n(20), 512, 4096, 65536, 65536}))
		case y < 6 && !w:
			x.NoSize = true
		default:
			x.Type, x.Content = "c", ""
		}
		return
	}
}

// enlarge makes one of the files big.
func enlarge(r *rng, sc *Scenario) {
	for i := range sc.Files {
		if x := &sc.Files[i]; x.Type == "" && !strings.HasPrefix(x.Content, "bystander") {
			n := pick(r, []int{4 << 10, 32 << 10, 64 << 10, 128 << 10, 1 << 20}) + r.n(200) - 100
			c := strings.Repeat("x", n) + "\n"
			if r.p(1, 2) {
				c = strings.Repeat(strings.Repeat("y", 78)+"\n# ", n/81) + "\n"
			}
			x.Content = "# " + c + x.Content
			return
		}
	}
}

// dress gives the world the variety of owners, groups, permissions and umasks
// real systems have. It is called when the command is known.
func dress(r *rng, sc *Scenario, num, den int) {
	if !r.p(num, den) {
		return
	}
	p := &sc.Procs[0]
	if r.p(1, 2) {
		p.Umask = pick(r, []uint32{umaskZero, 0o002, 0o027, 0o077, 0o177, 0o777})
	}
	if r.p(1, 2) {
		p.Groups = pick(r, [][]uint32{{3000}, {1000, 3000}, {2000}})
	}
	if r.p(1, 8) {
		p.UID = 0
	}
	for i := range sc.Files {
		x := &sc.Files[i]
		switch x.Type {
		case "":
			if strings.HasPrefix(x.Path, "/w/mustache.") || !r.p(1, 4) {
				continue
			}
			x.UID = pick(r, []uint32{1000, 1000, 2000, 0})
			x.GID = pick(r, []uint32{0, 1000, 2000, 3000})
			x.Mode = pick(r, []uint32{0o666, 0o664, 0o646, 0o660, 0o644, 0o2775, 0o2664, 0o6755, 0o1644, 0o444, 0o440})
		case "d":
			if !r.p(1, 6) {
				continue
			}
			x.UID = pick(r, []uint32{1000, 1000, 2000, 0})
			x.GID = pick(r, []uint32{0, 1000, 2000, 3000})
			x.Mode = pick(r, []uint32{0o555, 0o755, 0o775, 0o2775, 0o2777, 0o1777, 0o3777, 0o777, 0o711, 0o311, 0o1775})
		}
	}
}

// oddArg is an argument that leads to no ordinary file, or on a detour to one.
func oddArg(r *rng, sc *Scenario, files []string, twice bool) string {
	x := r.n(11)
	if x >= 7 && !twice {
		x = r.n(7)
	}
	link := func(p, t string) string {
		for _, f := range sc.Files {
			if f.Path == p {
				return strings.TrimPrefix(p, "/w/")
			}
		}
		sc.Files = append(sc.Files, FileSpec{Path: p, Type: "l", Target: t, UID: 1000})
		return strings.TrimPrefix(p, "/w/")
	}
	switch x {
	case 0:
		return "missing.conf"
	case 1:
		return "conf.d"
	case 2:
		return "/w/nowhere/x.conf"
	case 3:
		return link("/w/dangling.conf", "gone.conf")
	case 4:
		return link("/w/loop.conf", "loop.conf")
	case 5:
		return link("/w/dirlink", "conf.d/deep")
	case 6:
		return "conf.d/missing2"
	case 7:
		return pick(r, files) + "/"
	case 8:
		return "./conf.d/../" + strings.TrimPrefix(pick(r, files), "/w/")
	case 9:
		return pick(r, files)
	}
	return "conf.d//./" + pick(r, []string{"c.conf", "d e.conf", "none.conf"})
}

func newProc(r *rng, args ...string) ProcSpec {
	p := ProcSpec{Args: args, Rand: r.u64() >> 1, Clock: 1_650_000_000 + uint64(r.n(1e8)), Pid: 2 + r.n(30000), UID: 1000}
	if p.Rand%2 == 0 {
		p.Yield = p.Rand>>8 | 1
	}
	return p
}

var mutating = map[string]bool{"creat": true, "openw": true, "write": true, "fsync": true, "rename": true, "unlink": true, "chmod": true, "chown": true, "truncate": true, "mknod": true}

// point picks a system call of process p of the reference run, preferring the
// stretch in which the command works on its files.
func point(r *rng, ref *refRun, p int) int {
	cl := ref.res.procs[p].Classes
	n := len(cl)
	start := ref.start
	if start > n {
		start = 1
	}
	switch r.n(10) {
	case 0:
		return 1 + r.n(n+1)
	case 1, 2, 3, 4, 5:
		var idx []int
		last := -1
		for i := start - 1; i < n; i++ {
			if mutating[cl[i]] || cl[i] == "close" {
				idx = append(idx, i+1)
				last = i + 1
			}
		}
		if len(idx) > 0 {
			if r.p(1, 4) {
				return last
			}
			return pick(r, idx)
		}
	}
	return start + r.n(n-start+2)
}

func genFault(r *rng, ref *refRun, p int, benign bool) Fault {
	f := Fault{Proc: p, At: point(r, ref, p), Kind: "err", Arg: r.n(1 << 20)}
	cl := ref.res.procs[p].Classes
	class := ""
	if f.At >= 1 && f.At <= len(cl) {
		class = cl[f.At-1]
	}
	rw := class == "read" || class == "write"
	if benign {
		f.Kind = "eintr"
		if rw && r.p(2, 3) {
			f.Kind = "short"
		}
		return f
	}
	switch x := r.n(20); {
	case x < 3:
		f.Kind = pick(r, []string{"full", "ro", "bad"})
	case x < 6 && rw:
		f.Kind = "short"
	case x < 8:
		f.Kind = "eintr"
	default:
		if l := errnosFor[class]; len(l) > 0 {
			f.Errno = int(pick(r, l))
		}
	}
	return f
}

// occupy puts files of somebody else where the undisturbed run created one or
// looked for one in vain, arguments and settings excepted.
func occupy(r *rng, sc *Scenario, ref *refRun, created bool) (added []string) {
	var names []string
	if created {
		for _, p := range ref.res.procs {
			for i, cls := range p.Classes {
				if cls == "creat" {
					names = append(names, p.Paths[i])
				}
			}
		}
	} else {
		names = append(names, ref.res.missed...)
	}
	known := map[string]bool{}
	for _, p := range sc.Procs {
		for _, a := range p.Args {
			known[abs(sc.Cwd, a)] = true
		}
	}
	f := buildFS(sc)
	onTheWay := func(p string) bool { // to an argument or the end of a link
		for a := range known {
			if strings.HasPrefix(a, p+"/") {
				return true
			}
		}
		for _, x := range sc.Files {
			if x.Type == "l" && path.Base(x.Target) == path.Base(p) {
				return true
			}
		}
		return false
	}
	for _, p := range names {
		p = abs(sc.Cwd, p)
		base := path.Base(p)
		if known[p] || onTheWay(p) || strings.HasPrefix(base, "mustache") || strings.HasSuffix(p, "/") || base == "." || base == ".." {
			continue
		}
		dir, d := realPath(f, path.Dir(p))
		if d == nil || d.typ != tDir || d.ents[base] != nil || !strings.HasPrefix(dir, "/w") && !strings.HasPrefix(dir, "/srv") && !strings.HasPrefix(dir, "/home") && !strings.HasPrefix(dir, "/tmp") {
			continue
		}
		x := FileSpec{Path: dir + "/" + base, Mode: pick(r, []uint32{0o600, 0o644, 0o666}), UID: pick(r, []uint32{1000, 1000, 0}), Content: "bystander " + base + "\n"}
		known[p], known[x.Path] = true, true
		added = append(added, x.Path)
		if !created {
			x.Content = pick(r, []string{"", "root = true\n[*]\nindent_style = tab\nindent_size = 7\n", "*\n", "**\n*.conf\n", "true\n", "{\"indent\": 4, \"ignore\": [\"*\"]}\n", "indent: 4\nignore:\n- '*'\n", "0\n", "12345\n"})
		} else if r.p(1, 4) {
			to := x
			x = FileSpec{Path: x.Path, Type: "l", Target: to.Path + ".real"}
			to.Path += ".real"
			sc.Files = append(sc.Files, to)
		}
		sc.Files = append(sc.Files, x)
	}
	return added
}

func genFaults(r *rng, ref *refRun, p, max int, benign bool) []Fault {
	n := 1 + r.n(max)
	if r.p(1, 2) {
		n = 1
	}
	var out []Fault
	for i := 0; i < n; i++ {
		f := genFault(r, ref, p, benign)
		out = append(out, f)
		if !benign && f.Kind == "short" && r.p(1, 2) {
			// a short write followed by the error that cut it short
			out = append(out, Fault{Proc: p, At: f.At + 1, Kind: "err", Arg: r.n(1 << 20)})
		}
	}
	return out
}

func genCrash(r *rng, ref *refRun, p int, kind string) *Crash {
	c := &Crash{Kind: kind, Proc: p, At: point(r, ref, p), Phase: pick(r, []string{"before", "after", "after"}), Arg: r.u64() >> 1}
	cl := ref.res.procs[p].Classes
	if c.At <= len(cl) && cl[c.At-1] == "write" && r.p(1, 2) {
		c.Phase = "torn"
	}
	return c
}

func rewriteArgs(r *rng, files []string) []string {
	if r.p(1, 2) {
		return append([]string{"format", pick(r, []string{"-w", "-w", "--write-to-source", "-w=true", "--write-to-source=1"})}, files...)
	}
	return append([]string{"lint", pick(r, []string{"--auto-fix-id", "--auto-fix-id", "--auto-fix-id", "--auto-fix-id=true", "--auto-fix-id=T"})}, files...)
}

// lateFlag moves the flag of a command line behind some of its files.
func lateFlag(r *rng, args []string) []string {
	if len(args) < 3 || !strings.HasPrefix(args[1], "-") || !r.p(1, 6) {
		return args
	}
	out := append([]string{args[0]}, args[2:]...)
	return slices.Insert(out, 2+r.n(len(out)-1), args[1])
}

// ---- text of diagnostics ----

var digits = regexp.MustCompile(`[0-9]{5,}`)
var header = regexp.MustCompile(`^(error: )?[0-9]+ errors? occurred:$`)

// diag turns a command's standard error into the lines of its diagnostics.
func diag(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if header.MatchString(l) || strings.TrimSpace(l) == "" {
			continue
		}
		l = strings.TrimPrefix(l, "error: ")
		out = append(out, digits.ReplaceAllString(l, "#"))
	}
	return out
}
