package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// simctl check <property> [cases]   run the check of one property
// simctl replay <file>              run one recorded scenario
// simctl selftest                   the simulator against itself

const (
	exitOK        = 0
	exitViolation = 1
	exitBroken    = 2
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", a...)
	os.Exit(exitBroken)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simctl check <property> | replay <file> | selftest")
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 3 {
			die("check needs a property")
		}
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	case "replay":
		if len(os.Args) < 3 {
			die("replay needs a file")
		}
		os.Exit(runReplay(os.Args[2]))
	case "selftest":
		os.Exit(runSelftest())
	case "conformance":
		n, from := 200, 1
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		if len(os.Args) > 3 {
			from, _ = strconv.Atoi(os.Args[3])
		}
		os.Exit(runConformance(n, from))
	case "build":
		b, err := prepare(true, true, true)
		if err != nil {
			die("%v", err)
		}
		if len(os.Args) > 2 && os.Args[2] == "keep" {
			fmt.Println(b.dir)
			return
		}
		b.cleanup()
	default:
		die("unknown command %q", os.Args[1])
	}
}

func findProp(id string) *property {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

var props = append(append([]*property{}, cliProps...), libProps...)

func caseSeed(seed uint64, id string, n, j int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d/%d", seed, id, n, j)))
	return binary.LittleEndian.Uint64(h[:]) >> 1
}

type failure struct {
	n, j int
	sc   *Scenario
	msg  string
}

type tally struct {
	mu          sync.Mutex
	cases       int
	variants    int
	runs        int
	steps       int
	simNS       uint64
	fired       map[string]int
	probes      map[string]int
	hashes      map[uint64]bool
	nontrivial  int
	samples     []any
	redone      int
	mismatch    []string
	unsupported map[string]int
}

func (t *tally) add(i *runInfo, sc *Scenario) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.variants++
	t.runs += i.runs
	t.steps += i.steps
	t.simNS += i.simNS
	for k, v := range i.fired {
		t.fired[k] += v
	}
	for k, v := range i.probes {
		t.probes[k] += v
	}
	if i.nontrivial {
		if !t.hashes[i.hash] {
			t.hashes[i.hash] = true
			t.nontrivial++
			if len(t.samples) < 3 && t.nontrivial%7 == 1 {
				t.samples = append(t.samples, map[string]any{"scenario": sc, "trace": i.sample})
			}
		}
	}
}

var unsupMu sync.Mutex
var unsupportedSeen = map[string]int{}

func runCheck(id string, rest []string) int {
	start := time.Now()
	p := findProp(id)
	if p == nil {
		die("no check for %s", id)
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	b, err := prepare(p.cli, p.lib, p.plain)
	if err != nil {
		die("%v", err)
	}
	defer b.cleanup()
	built := time.Since(start)

	n := p.quick
	limit := 240 * time.Second
	if tier == "thorough" {
		n = p.deep
		limit = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WALL_S")); err == nil && v > 0 {
		limit = time.Duration(v) * time.Second
	}
	if len(rest) > 0 {
		if v, err := strconv.Atoi(rest[0]); err == nil {
			n = v
		}
	}
	c, err := buildCorpus(newRng(caseSeed(seed, "corpus", 0, 0)), map[string]int{"quick": 90, "thorough": 300}[tier])
	if err != nil {
		die("corpus: %v", err)
	}
	t := &tally{fired: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}}
	var mu sync.Mutex
	var best *failure
	var broken error
	var next, stopAt int64
	stopAt = int64(n)
	deadline := time.Now().Add(limit)
	var capped int64
	var wg sync.WaitGroup
	for w := 0; w < p.workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1) - 1
				if i >= atomic.LoadInt64(&stopAt) {
					return
				}
				if time.Now().After(deadline) {
					atomic.StoreInt64(&capped, 1)
					return
				}
				f, err := runCase(p, seed, int(i), c, t)
				mu.Lock()
				if err != nil && broken == nil {
					broken = fmt.Errorf("case %d: %w", i, err)
					atomic.StoreInt64(&stopAt, 0)
				}
				if f != nil && (best == nil || f.n < best.n) {
					best = f
					if atomic.LoadInt64(&stopAt) > int64(f.n) {
						atomic.StoreInt64(&stopAt, int64(f.n))
					}
				}
				mu.Unlock()
				t.mu.Lock()
				t.cases++
				t.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if broken != nil && best == nil {
		die("%v", broken)
	}
	code := exitOK
	replay := ""
	msg := ""
	if best != nil {
		if len(unsupportedSeen) > 0 {
			fmt.Printf("the code under test uses system calls the simulator does not offer: %v\n", unsupportedSeen)
			fmt.Printf("seen: %s\n", best.msg)
			return exitBroken
		}
		replay, msg, err = report(p, best, b)
		if err != nil {
			fmt.Printf("seen but not reproduced: %s\n", best.msg)
			die("%v", err)
		}
		code = exitViolation
	}
	if len(t.mismatch) > 0 {
		fmt.Printf("note: %d of %d repeated cases did not repeat exactly: %s\n", len(t.mismatch), t.redone, t.mismatch[0])
	}
	writeEvidence(p, tier, seed, t, time.Since(start), built, n, capped != 0, best, msg)
	fmt.Printf("%s: %d cases, %d variants, %d simulated runs, %d distinct nontrivial, %.1f s (build %.1f s)%s\n",
		id, t.cases, t.variants, t.runs, t.nontrivial, time.Since(start).Seconds(), built.Seconds(), map[bool]string{true: ", stopped by the clock", false: ""}[capped != 0])
	if code == exitViolation {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	return code
}

func runCase(p *property, seed uint64, n int, c *corpus, t *tally) (*failure, error) {
	r := newRng(caseSeed(seed, p.id, n, 0))
	sc := p.newCase(r, c, n)
	sc.Prop, sc.Seed, sc.Run = p.id, seed, n
	rc := &refCache{}
	for j := 0; j < p.k; j++ {
		v := clone(sc)
		if p.vary != nil {
			vr := newRng(caseSeed(seed, p.id, n, j+1))
			var ref *refRun
			if v.Lib == nil {
				var err error
				if ref, err = rc.ref(v, nil); err != nil {
					return nil, err
				}
			}
			p.vary(vr, v, ref)
		}
		msg, info, err := p.check(v, rc)
		if err != nil {
			return nil, err
		}
		t.add(info, v)
		if msg != "" {
			return &failure{n, j, v, msg}, nil
		}
		if (n*p.k+j)%23 == 5 {
			msg2, info2, err := p.check(clone(v), &refCache{})
			if err != nil {
				return nil, err
			}
			t.mu.Lock()
			t.redone++
			if info2.hash != info.hash && len(info.firedStable()) >= 0 || msg2 != "" {
				b, _ := json.Marshal(v)
				t.mismatch = append(t.mismatch, fmt.Sprintf("case %d/%d %s", n, j, b))
			}
			t.mu.Unlock()
		}
	}
	return nil, nil
}

func (i *runInfo) firedStable() map[string]int { return i.fired }

// report minimises a failing scenario, writes the replay file and makes sure
// that it reproduces in processes of its own.
func report(p *property, f *failure, b *built) (string, string, error) {
	sc, msg := f.sc, f.msg
	if p.shrink == nil {
		sc, msg = minimise(p, sc, msg)
	} else {
		sc, msg = p.shrink(p, sc, msg)
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.id, sc.Seed, sc.Run))
	type rec struct {
		Violation string    `json:"violation"`
		Hash      string    `json:"trace_hash"`
		Scenario  *Scenario `json:"scenario"`
		Trace     any       `json:"trace"`
	}
	for try := 0; ; try++ {
		m, info, err := p.check(clone(sc), &refCache{})
		if err != nil {
			return "", "", err
		}
		if m == "" {
			if try < 3 {
				sc, msg = f.sc, f.msg
				continue
			}
			return "", "", errors.New("the violation did not show again when the scenario was repeated")
		}
		out, _ := json.MarshalIndent(rec{m, fmt.Sprintf("%016x", info.hash), sc, info.sample}, "", " ")
		if err := os.WriteFile(path, append(out, '\n'), 0o644); err != nil {
			return "", "", err
		}
		msg = m
		c := exec.Command(os.Args[0], "replay", path)
		c.Env = append(os.Environ(), "VERIF_BUILT="+b.dir)
		o, _ := c.CombinedOutput()
		if c.ProcessState.ExitCode() == exitViolation {
			return path, msg, nil
		}
		if try >= 3 {
			return "", "", fmt.Errorf("replaying %s in a fresh process did not reproduce the violation:\n%s", path, o)
		}
	}
}

func runReplay(path string) int {
	c, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rec struct {
		Violation string    `json:"violation"`
		Hash      string    `json:"trace_hash"`
		Scenario  *Scenario `json:"scenario"`
	}
	if err := json.Unmarshal(c, &rec); err != nil || rec.Scenario == nil {
		die("%s is not a replay file: %v", path, err)
	}
	p := findProp(rec.Scenario.Prop)
	if p == nil {
		die("no check for %s", rec.Scenario.Prop)
	}
	b, err := prepare(p.cli, p.lib, p.plain)
	if err != nil {
		die("%v", err)
	}
	defer b.cleanup()
	msg, info, err := p.check(rec.Scenario, &refCache{})
	if err != nil {
		fmt.Println(err)
		return exitBroken
	}
	if tr, ok := info.sample.([]string); ok {
		for _, l := range tr {
			fmt.Println(l)
		}
	}
	if msg == "" {
		fmt.Println("the property held on this scenario")
		return exitOK
	}
	fmt.Println(msg)
	if h := fmt.Sprintf("%016x", info.hash); h != rec.Hash || msg != rec.Violation {
		fmt.Printf("reproduced with a difference: hash %s, recorded %s; recorded violation: %s\n", h, rec.Hash, rec.Violation)
	} else {
		fmt.Printf("reproduced exactly (trace hash %s)\n", h)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rec.Scenario.Prop, path)
	return exitViolation
}

func settingsFile(p string) bool { return strings.Contains(p, "/mustache.") }

// minimise drops whatever the violation does not need.
func minimise(p *property, sc *Scenario, msg string) (*Scenario, string) {
	deadline := time.Now().Add(60 * time.Second)
	tries := 0
	test := func(c *Scenario) bool {
		if tries > 400 || time.Now().After(deadline) {
			return false
		}
		tries++
		m, _, err := p.check(clone(c), &refCache{})
		if err != nil || m == "" {
			return false
		}
		sc, msg = c, m
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(sc.Readers) - 1; i >= 0; i-- {
			c := clone(sc)
			c.Readers = append(c.Readers[:i], c.Readers[i+1:]...)
			changed = test(c) || changed
		}
		for i := len(sc.Faults) - 1; i >= 0; i-- {
			c := clone(sc)
			c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
			changed = test(c) || changed
		}
		for i := len(sc.Switches) - 1; i >= 0; i-- {
			c := clone(sc)
			c.Switches = append(c.Switches[:i], c.Switches[i+1:]...)
			changed = test(c) || changed
		}
		for i := len(sc.Stalls) - 1; i >= 0; i-- {
			c := clone(sc)
			c.Stalls = append(c.Stalls[:i], c.Stalls[i+1:]...)
			changed = test(c) || changed
		}
		if sc.Crash != nil && p.id != "C02" {
			c := clone(sc)
			c.Crash = nil
			changed = test(c) || changed
		}
		if sc.Capacity >= 0 {
			c := clone(sc)
			c.Capacity = -1
			changed = test(c) || changed
		}
		for i := len(sc.Procs) - 1; i >= 1; i-- {
			c := clone(sc)
			c.Procs = append(c.Procs[:i], c.Procs[i+1:]...)
			changed = test(c) || changed
		}
		for pi := range sc.Procs {
			if sc.Procs[pi].Prog != "" {
				continue
			}
			for i := len(sc.Procs[pi].Args) - 1; i >= 1; i-- {
				if strings.HasPrefix(sc.Procs[pi].Args[i], "-") || i >= len(sc.Procs[pi].Args) {
					continue
				}
				c := clone(sc)
				c.Procs[pi].Args = append(c.Procs[pi].Args[:i], c.Procs[pi].Args[i+1:]...)
				if len(fileArgs(c.Procs[pi].Args)) == 0 {
					continue
				}
				changed = test(c) || changed
			}
		}
		for i := len(sc.Files) - 1; i >= 0; i-- {
			if i >= len(sc.Files) || sc.Files[i].Type == "d" || settingsFile(sc.Files[i].Path) {
				continue
			}
			c := clone(sc)
			gone := c.Files[i].Path
			c.Files = append(c.Files[:i], c.Files[i+1:]...)
			used := false
			for _, pr := range sc.Procs {
				for _, a := range fileArgs(pr.Args) {
					used = used || abs(sc.Cwd, a) == gone
				}
			}
			for _, o := range sc.Files {
				used = used || o.Type == "l" // targets of links stay
			}
			if used {
				continue
			}
			changed = test(c) || changed
		}
		for i := range sc.Files {
			if settingsFile(sc.Files[i].Path) {
				continue // what it is meant to be is recorded elsewhere
			}
			for _, s := range []string{"input{stdin{id=>\"a\"}}", "input{stdin{}}", "filter {", ""} {
				if sc.Files[i].Type == "" && len(s) < len(sc.Files[i].Content) {
					c := clone(sc)
					c.Files[i].Content = s
					if test(c) {
						changed = true
						break
					}
				}
			}
			if sc.Files[i].Type == "" && sc.Files[i].Mode != 0o644 {
				c := clone(sc)
				c.Files[i].Mode = 0o644
				changed = test(c) || changed
			}
		}
		if tries > 400 || time.Now().After(deadline) {
			break
		}
	}
	return sc, msg
}

func writeEvidence(p *property, tier string, seed uint64, t *tally, wall, build time.Duration, planned int, capped bool, f *failure, msg string) {
	hours := (wall - build).Hours()
	per := func(n int) int {
		if hours <= 0 {
			return 0
		}
		return int(float64(n) / hours)
	}
	tx := texts[p.id]
	real, stub := realCLI, stubCLI
	switch {
	case p.lib && p.cli || p.id == "C07" || p.id == "C09":
		real, stub = append(append([]string{}, realCLI...), realLib...), append(append([]string{}, stubCLI...), stubLib...)
	case p.plain:
		real, stub = []string{"the library built from /repo's working tree (parser, ast, astutil), not instrumented", "garbage collector"}, []string{"the io.Reader handed to ParseReader", "runtime randomness", "goroutine preemption (off, one processor)"}
	case p.lib:
		real, stub = realLib, stubLib
	}
	viol := 0
	if f != nil {
		viol = 1
	}
	cov := map[string]any{
		"evaluations":           t.runs,
		"distinct_nontrivial":   t.nontrivial,
		"rule":                  tx.rule,
		"samples":               t.samples,
		"cases_planned":         planned,
		"cases_run":             t.cases,
		"scenarios":             t.variants,
		"stopped_by_clock":      capped,
		"simulated_runs_hour":   per(t.runs),
		"seeds_hour":            per(t.variants),
		"seeds":                 fmt.Sprintf("every scenario has its own seed, sha256(%d/%s/case/variant)", seed, p.id),
		"simulated_seconds":     float64(t.simNS) / 1e9,
		"simulated_steps":       t.steps,
		"faults_injected":       t.fired,
		"reached":               t.probes,
		"repeated_for_identity": t.redone,
		"repeats_that_differed": len(t.mismatch),
		"distinct_by":           tx.measure,
		"components_real":       real,
		"components_simulated":  stub,
		"build_s":               build.Seconds(),
	}
	if f != nil {
		cov["violation"] = msg
	}
	ev := map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": tx.assume}
	if len(t.samples) == 0 {
		cov["samples"] = []any{"no nontrivial scenario in this run"}
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
		die("evidence: %v", err)
	}
}

// ---- building what is to be run ----

type built struct {
	dir  string
	keep bool
}

func (b *built) cleanup() {
	if !b.keep && strings.HasPrefix(b.dir, filepath.Join(verifDir, ".work")+"/") {
		os.RemoveAll(b.dir)
	}
}

func prepare(cli, lib, plain bool) (*built, error) {
	if d := os.Getenv("VERIF_BUILT"); d != "" {
		setProgs(d)
		return &built{d, true}, nil
	}
	base := filepath.Join(verifDir, ".work")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp(base, "b")
	if err != nil {
		return nil, err
	}
	b := &built{dir: dir}
	var wg sync.WaitGroup
	errs := make([]error, 3)
	wg.Add(1)
	go func() {
		defer wg.Done()
		errs[0] = buildCLI(dir, cli)
	}()
	if lib {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[1] = buildLib(filepath.Join(dir, "lib"), false)
		}()
	}
	if plain {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[2] = buildLib(filepath.Join(dir, "plain"), true)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			b.cleanup()
			return nil, err
		}
	}
	setProgs(dir)
	return b, nil
}

func setProgs(dir string) {
	for n, d := range map[string]string{"mustache": "", "drv": "", "libsim": "lib", "libplain": "plain"} {
		progs[n] = filepath.Join(dir, d, n)
	}
}

func buildCLI(dir string, cli bool) error {
	b, err := newBuilder(verifDir, repoDir, dir)
	if err != nil {
		return err
	}
	if err := b.patchRuntime(); err != nil {
		return err
	}
	if err := b.addPkg("drv", "internal/verifsim/drv"); err != nil {
		return err
	}
	ov, err := b.overlayFile("cli.json")
	if err != nil {
		return err
	}
	if err := b.build(ov, filepath.Join(dir, "drv"), "./internal/verifsim/drv"); err != nil {
		return err
	}
	if !cli {
		return nil
	}
	return b.build(ov, filepath.Join(dir, "mustache"), "./cmd/mustache")
}
