package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// Properties of the library: the real code, every statement a yield point, its
// threads scheduled by the simulator, one process per execution.

type libOp struct {
	Op      string `json:"op"`
	Name    string `json:"name,omitempty"`
	Content string `json:"content,omitempty"`
	Ignore  bool   `json:"ignore,omitempty"`
	Warn    bool   `json:"warn,omitempty"`
	Max     uint64 `json:"max,omitempty"`
	NoRec   bool   `json:"norec,omitempty"`
	Memo    bool   `json:"memo,omitempty"`
	UTF8    bool   `json:"utf8,omitempty"`
	Stats   bool   `json:"stats,omitempty"`
	Entry   string `json:"entry,omitempty"`
	State   int    `json:"state,omitempty"`

	Chunks  []int  `json:"chunks,omitempty"`
	DataEOF bool   `json:"dataeof,omitempty"`
	Fail    bool   `json:"fail,omitempty"`
	FailAt  int    `json:"failat,omitempty"`
	FailErr string `json:"failerr,omitempty"`
	WithDat bool   `json:"withdat,omitempty"`
	Src     string `json:"src,omitempty"`
	Prefix  string `json:"prefix,omitempty"`
	Pad     int    `json:"pad,omitempty"`
	Nest    string `json:"nest,omitempty"`
	Await   bool   `json:"await,omitempty"`

	Scribble bool `json:"scribble,omitempty"`
	Mutate   bool `json:"mutate,omitempty"`
	Ask      bool `json:"ask,omitempty"`
	Keep     bool `json:"keep,omitempty"`
	Quiet    bool `json:"quiet,omitempty"`
	N        int  `json:"n,omitempty"`
}

// LibCase is one execution of the library.
type LibCase struct {
	Shared   string      `json:"shared,omitempty"`
	Threads  [][]libOp   `json:"threads"`
	Seed     uint64      `json:"seed"`
	Mean     uint64      `json:"mean"`
	HotN     uint64      `json:"hotn"`
	Limit    uint64      `json:"limit"`
	Explicit bool        `json:"explicit"`
	Plan     [][2]uint64 `json:"plan,omitempty"`
	First    int         `json:"first"`
	Pool     string      `json:"pool,omitempty"`
	Watch    bool        `json:"watch,omitempty"`
	Rand     uint64      `json:"rand"` // seed of the process's randomness
	Grow     *growT      `json:"grow,omitempty"`
}

type growT struct {
	Reps  int  `json:"reps"`
	Go    bool `json:"go,omitempty"`
	Fixed bool `json:"fixed,omitempty"`
	Shift bool `json:"shift,omitempty"`
}

type markT struct {
	Reps       int    `json:"reps"`
	Objects    uint64 `json:"objects"`
	Bytes      uint64 `json:"bytes"`
	Goroutines int    `json:"goroutines"`
}

type libRes struct {
	Nil       bool     `json:"nil,omitempty"`
	Type      string   `json:"type,omitempty"`
	Err       string   `json:"err,omitempty"`
	ErrTyp    string   `json:"errtyp,omitempty"`
	IsInj     bool     `json:"isinj,omitempty"`
	Nest      string   `json:"nest,omitempty"`
	Dump      string   `json:"dump,omitempty"`
	Str       string   `json:"str,omitempty"`
	Panic     string   `json:"panic,omitempty"`
	FF        string   `json:"ff,omitempty"`
	HasFF     bool     `json:"hasff,omitempty"`
	Stats     string   `json:"stats,omitempty"`
	Fixed     string   `json:"fixed,omitempty"`
	Reads     int      `json:"reads,omitempty"`
	Polls     []string `json:"polls,omitempty"`
	Scribbled bool     `json:"scribbled,omitempty"`
	Later     string   `json:"later,omitempty"`
}

type libOut struct {
	Res      [][]libRes  `json:"res"`
	Steps    uint64      `json:"steps"`
	Switches [][2]uint64 `json:"switches,omitempty"`
	Verdict  string      `json:"verdict,omitempty"`
	FFs      []string    `json:"ffs,omitempty"`
	Shared   string      `json:"shared,omitempty"`
	Marks    []markT     `json:"marks,omitempty"`

	race string
	died string
}

const libLimit = 60_000_000

func runLib(c *LibCase) (*libOut, error) {
	in := *c
	if in.Limit == 0 {
		in.Limit = libLimit
		for _, t := range in.Threads {
			for _, o := range t {
				in.Limit += uint64(max(o.Pad, -o.Pad)) * 500
			}
		}
	}
	b, _ := json.Marshal(in)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	prog := progs["libsim"]
	if in.Grow != nil || len(in.Threads) == 1 && len(in.Threads[0]) == 1 && max(in.Threads[0][0].Pad, -in.Threads[0][0].Pad) > 30_000 {
		prog = progs["libplain"]
	}
	cmd := exec.CommandContext(ctx, prog)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = []string{"HOME=/nonexistent", fmt.Sprintf("VERIF_RAND=%d", c.Rand+1), "VERIF_SERIAL=1", "GOMAXPROCS=1", "GOGC=off",
		"GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=4"}
	if in.Grow == nil {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_JUMP=%d", c.Rand+7))
	}
	var eb, ob bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &ob
	err := cmd.Run()
	out := &libOut{}
	if ctx.Err() != nil {
		out.Verdict = "stuck"
		return out, nil
	}
	if err != nil {
		s := eb.String()
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 70 {
			return nil, harnessError{"libsim: " + s}
		}
		if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine ") {
			out.died = firstLineWith(s, "panic:", "fatal error:")
			if strings.Contains(out.died, "all goroutines are asleep") {
				out.Verdict = "deadlock"
			}
			return out, nil
		}
		return nil, harnessError{fmt.Sprintf("libsim: %v: %s", err, brief(s))}
	}
	if err := json.Unmarshal(ob.Bytes(), out); err != nil {
		return nil, harnessError{fmt.Sprintf("libsim: bad answer %q: %v", brief(ob.String()), err)}
	}
	out.race = raceReport(eb.String())
	return out, nil
}

func firstLineWith(s string, ws ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, w := range ws {
			if strings.Contains(l, w) {
				return l
			}
		}
	}
	return brief(s)
}

var raceFrame = regexp.MustCompile(`(?m)^  (github\.com/breml/logstash-config[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

// raceReport names the two accesses of the first report.
func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "\n=================="); j > 0 {
		s = s[:j]
	}
	var parts []string
	for _, blk := range strings.Split(s, "\n\n") {
		head := ""
		for _, l := range strings.Split(blk, "\n") {
			t := strings.TrimSpace(l)
			for _, k := range []string{"Read at", "Write at", "Previous read at", "Previous write at", "Read by", "Write by"} {
				if strings.HasPrefix(t, k) {
					head = strings.ToLower(strings.TrimSuffix(strings.TrimSuffix(k, " at"), " by"))
				}
			}
		}
		if head == "" {
			continue
		}
		where := "?"
		if m := raceFrame.FindStringSubmatch(blk); m != nil {
			where = strings.TrimPrefix(m[1], "github.com/breml/logstash-config")
			where = strings.TrimPrefix(where, ".")
		}
		parts = append(parts, head+" in "+where)
	}
	return strings.Join(parts, ", ")
}

// ---- what an operation does when it is alone ----

var (
	soloMu sync.Mutex
	solos  = map[string]*soloEntry{}
)

type soloEntry struct {
	once sync.Once
	out  *libOut
	err  error
}

func solo(o libOp, shared string, watch bool, info *runInfo) (*libOut, error) {
	switch o.Op {
	case "render", "inspect", "dump":
	default:
		shared = ""
	}
	o.Nest, o.Await = "", false
	if o.Mutate {
		// nobody looks at the result before it is changed
		o.Ask, o.Quiet = false, true
	}
	c := &LibCase{Shared: shared, Threads: [][]libOp{{o}}, Watch: watch}
	b, _ := json.Marshal(c)
	soloMu.Lock()
	e := solos[string(b)]
	if e == nil {
		e = &soloEntry{}
		solos[string(b)] = e
	}
	soloMu.Unlock()
	e.once.Do(func() { e.out, e.err = runLib(c) })
	if e.err == nil && (e.out.Verdict != "" || e.out.died != "") {
		return e.out, nil
	}
	return e.out, e.err
}

func broken(o *libOut) string {
	switch {
	case o.died != "":
		return "the process dies: " + o.died
	case o.Verdict == "stuck":
		return fmt.Sprintf("a call does not come to an end (%d steps)", o.Steps)
	case o.Verdict == "deadlock":
		return "the threads wait for each other"
	}
	return ""
}

func opName(o libOp) string {
	s := o.Op
	if o.Name != "" {
		s += " " + o.Name
	}
	for _, f := range []struct {
		on bool
		s  string
	}{{o.Max > 0, fmt.Sprintf("MaxExpressions(%d)", o.Max)}, {o.NoRec, "Recover(false)"}, {o.Ignore, "IgnoreComments"}, {o.Warn, "ExceptionalCommentsWarning"}, {o.Memo, "Memoize"}, {o.UTF8, "AllowInvalidUTF8"}, {o.Stats, "Statistics"}, {o.Entry != "", "Entrypoint(" + o.Entry + ")"}, {o.State != 0, "GlobalStore, InitState"}, {o.Fail, fmt.Sprintf("reader failing after %d bytes", o.FailAt)}, {o.Mutate, "then changed"}, {o.Scribble, "input then overwritten"}} {
		if f.on {
			s += " " + f.s
		}
	}
	return s
}

// sameRes compares what a call returned with what it returns when alone.
func sameRes(o libOp, want, got *libRes, ff bool) string {
	d := func(what, a, b string) string {
		return fmt.Sprintf("%s: %s differs from the same call alone: %s", opName(o), what, firstDiff(a, b))
	}
	switch {
	case want.Panic != got.Panic:
		return d("the panic", want.Panic, got.Panic)
	case want.Err != got.Err:
		return d("the error", want.Err, got.Err)
	case want.ErrTyp != got.ErrTyp:
		return d("the type of the error", want.ErrTyp, got.ErrTyp)
	case want.Nil != got.Nil || want.Type != got.Type:
		return d("the kind of result", fmt.Sprintf("nil=%t %s", want.Nil, want.Type), fmt.Sprintf("nil=%t %s", got.Nil, got.Type))
	case want.Dump != got.Dump:
		return d("the configuration", want.Dump, got.Dump)
	case want.Str != got.Str && !o.Mutate:
		return d("the rendered text", want.Str, got.Str)
	case want.Fixed != got.Fixed:
		return d("the rendered text after changing it", want.Fixed, got.Fixed)
	case want.Stats != got.Stats:
		return d("the statistics", want.Stats, got.Stats)
	case ff && (want.FF != got.FF || want.HasFF != got.HasFF):
		return d("the farthest failure", want.FF, got.FF)
	}
	return ""
}

func changedLater(o libOp, r *libRes) string {
	if r.Scribbled {
		return opName(o) + ": what it returned changes when the caller reuses the input buffer"
	}
	if strings.HasPrefix(r.Later, "the input") {
		return opName(o) + ": " + r.Later
	}
	if r.Later != "" {
		a := r.Dump
		if strings.HasPrefix(r.Later, "error: ") {
			a = "error: " + r.Err
		}
		return opName(o) + ": what it returned is different by the end: " + firstDiff(a, r.Later)
	}
	return ""
}

func isParse(o libOp) bool { return o.Op == "parse" || o.Op == "reader" || o.Op == "file" }

func (i *runInfo) addLib(c *LibCase, o *libOut) {
	i.runs++
	i.steps += int(o.Steps)
	i.simNS += o.Steps * 1000
	if i.fired == nil {
		i.fired = map[string]int{}
	}
	i.fired["thread switch"] += len(o.Switches)
	for _, t := range c.Threads {
		for _, op := range t {
			if op.Fail {
				i.fired["read error"]++
			}
			if len(op.Chunks) > 0 {
				i.fired["short read"]++
				for _, k := range op.Chunks {
					if k == 0 {
						i.fired["read that brings nothing"]++
						break
					}
				}
			}
			if op.DataEOF {
				i.fired["data together with EOF"]++
			}
			if op.Max > 0 {
				i.fired["expression limit"]++
			}
			if op.NoRec {
				i.fired["panic passed on"]++
			}
			if op.Scribble {
				i.fired["input buffer reused"]++
			}
			if op.Mutate {
				i.fired["result changed by its owner"]++
			}
		}
	}
	type hashed struct {
		T [][]libOp
		S [][2]uint64
		R [][]libRes
	}
	b, _ := json.Marshal(hashed{c.Threads, o.Switches, o.Res})
	i.hash = i.hash*1099511628211 ^ hash64(b)
	i.sample = map[string]any{"steps": o.Steps, "switches": len(o.Switches), "first_switches": head(o.Switches, 40), "results": len(o.Res)}
}

func head(s [][2]uint64, n int) [][2]uint64 {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// checkLib runs the threads of a case and compares every call with the same
// call alone in a process of its own.
func checkLib(sc *Scenario, info *runInfo) (string, *libOut, error) {
	c := sc.Lib
	out, err := runLib(c)
	if err != nil {
		return "", nil, err
	}
	info.addLib(c, out)
	if v := broken(out); v != "" {
		// a call that does not end alone either is no matter of interference
		for _, t := range c.Threads {
			for _, o := range t {
				if o.Op == "pollmany" || o.Op == "poll" {
					continue
				}
				s, err := solo(o, c.Shared, false, info)
				if err != nil {
					return "", nil, err
				}
				if b := broken(s); b != "" {
					return opName(o) + ", even alone: " + b, out, nil
				}
			}
		}
		return v, out, nil
	}
	if out.race != "" {
		return "data race: " + out.race, out, nil
	}
	if out.Shared != "" {
		return "the shared configuration has changed although it was only looked at", out, nil
	}
	one := len(c.Threads) == 1
	polled := false
	prevFF, prevHas := "", false
	for ti, t := range c.Threads {
		for oi, o := range t {
			r := &out.Res[ti][oi]
			if o.Op == "poll" || o.Op == "pollmany" {
				polled = true
				continue
			}
			s, err := solo(o, c.Shared, false, info)
			if err != nil {
				return "", nil, err
			}
			if b := broken(s); b != "" {
				return opName(o) + ", even alone: " + b, out, nil
			}
			w := &s.Res[0][0]
			if v := sameRes(o, w, r, false); v != "" {
				return v, out, nil
			}
			if v := changedLater(o, r); v != "" {
				return v, out, nil
			}
			if o.Nest != "" && o.Op == "reader" {
				s, err := solo(nested(o), "", false, info)
				if err != nil {
					return "", nil, err
				}
				want := s.Res[0][0].Dump
				if e := s.Res[0][0].Err; e != "" {
					want = "error: " + e
				}
				if want != r.Nest {
					return opName(o) + ": a parse its reader makes differs from the same call alone: " + firstDiff(want, r.Nest), out, nil
				}
			}
			if isParse(o) {
				if one {
					// a call that is cut off may leave the record as it was
					ok := r.FF == w.FF && r.HasFF == w.HasFF
					if !ok && (o.Max > 0 || o.Fail || o.NoRec || o.Entry != "") && !w.HasFF {
						ok = r.FF == prevFF && r.HasFF == prevHas
					}
					if !ok {
						return sameRes(o, w, r, true), out, nil
					}
				} else {
					polled = true
				}
				prevFF, prevHas = r.FF, r.HasFF
			}
		}
	}
	if one || !polled || !watchable(c) {
		return "", out, nil
	}
	allowed := map[string]bool{"": true}
	for _, t := range c.Threads {
		for _, o := range t {
			if !isParse(o) {
				continue
			}
			s, err := solo(o, "", true, info)
			if err != nil {
				return "", nil, err
			}
			for _, f := range s.FFs {
				allowed[f] = true
			}
			if o.Nest != "" {
				if s, err = solo(nested(o), "", true, info); err != nil {
					return "", nil, err
				}
				for _, f := range s.FFs {
					allowed[f] = true
				}
			}
		}
	}
	for ti, t := range c.Threads {
		for oi, o := range t {
			r := &out.Res[ti][oi]
			ps := r.Polls
			if isParse(o) || o.Op == "poll" {
				if r.HasFF != (r.FF != "") {
					return "GetFarthestFailure answers " + fmt.Sprintf("%t with text %q", r.HasFF, brief(r.FF)), out, nil
				}
				ps = append(ps, r.FF)
			}
			for _, p := range ps {
				if !allowed[p] {
					return "GetFarthestFailure shows what no single parse ever recorded: " + brief(p), out, nil
				}
			}
		}
	}
	return "", out, nil
}

func nested(o libOp) libOp { return libOp{Op: "parse", Name: "nested", Content: o.Nest} }

// watchable: looking at every step of a parse is affordable for short inputs
// only.
func watchable(c *LibCase) bool {
	for _, t := range c.Threads {
		for _, o := range t {
			if isParse(o) && (len(o.Content) > 140 || len(o.Nest) > 140 || o.Stats) {
				return false
			}
		}
	}
	return true
}

// ---- generation ----

var libPoolMu sync.Mutex
var libPools = map[*corpus]*libPool{}

type libPool struct {
	valid, invalid []string
	small          *libPool
}

// poolOf picks the small configurations of a corpus and adds some of its own.
func poolOf(c *corpus) *libPool {
	libPoolMu.Lock()
	defer libPoolMu.Unlock()
	if p := libPools[c]; p != nil {
		return p
	}
	p := &libPool{small: &libPool{}}
	for _, it := range c.items {
		if len(it.Content) > 420 {
			continue
		}
		if it.Valid {
			p.valid = append(p.valid, it.Content)
		} else {
			p.invalid = append(p.invalid, it.Content)
		}
	}
	for _, s := range p.valid {
		if len(s) < 120 {
			p.small.valid = append(p.small.valid, s)
		}
	}
	for _, s := range p.invalid {
		if len(s) < 120 {
			p.small.invalid = append(p.small.invalid, s)
		}
	}
	libPools[c] = p
	return p
}

var libExtra = []string{
	"input { stdin { codec => \"unterminated } }",
	"filter { if [a] =~ /x { drop {} } }",
	"filter { mutate { add_field => { \"a\" => \"b\" } }",
	"output { stdout { tags => [ \"a\", \"b\" } }",
	"filter { if ([a] == 1 and [b] { drop {} } }",
	"input {\r\n  stdin {\r\n    # c\r\n    id => \"x\"\r\n  }\r\n}\r\n",
	"filter { grok { # odd\n match => # odd too\n { \"a\" => \"b\" } } } # end\n",
	"input { \xff }",
	"\ufeffinput { stdin {} }",
	"input { stdin { id => \"\u4e16\u754c \u00e9\" } }",
	"filter { if [a] in [\"x\", \"y\"] and !([b] or \"c\" not in [d][e]) { drop {} } else if [z] < 3.5 { mutate {} } else { ruby { code => 'x' } } }",
}

// libWarny have comments in exceptional places.
var libWarny = []string{
	"# top\ninput # one\n { stdin {} }",
	"input { # a\n stdin # b\n { # c\n id # d\n => # e\n \"x\" # f\n } # g\n } # h",
	"filter # i\n { if # j\n [a] # k\n == # l\n 1 # m\n { # n\n drop # o\n {} } # p\n else # q\n { # r\n drop {} } }",
	"filter { grok { match => [ # s\n \"a\" # t\n , # u\n \"b\" # v\n ] h => { # w\n \"k\" # x\n => # y\n \"v\" # z\n } } }",
	"filter { if ( # a\n [a] ) # b\n and # c\n ! # d\n ( [b] ) { } }",
	"filter { if [a] in # a\n [ \"x\" ] or [c] # b\n not # c\n in # d\n [d] { } else # e\n if # f\n [a] # g\n =~ # h\n /x/ { } }",
	"output { # odd\n if # odd\n [a] { stdout # odd\n {} } } oops",
}

func (p *libPool) pick(r *rng) string {
	switch r.n(8) {
	case 0, 1:
		return pick(r, libExtra)
	case 2, 3, 4:
		if len(p.invalid) > 0 {
			return pick(r, p.invalid)
		}
	}
	return pick(r, p.valid)
}

func genParse(r *rng, p *libPool) libOp {
	o := libOp{Op: "parse", Name: fmt.Sprintf("f%d.conf", r.n(4)), Content: p.pick(r)}
	if r.p(1, 4) {
		o.Ignore = true
	}
	if r.p(1, 3) {
		o.Warn = true
	}
	if r.p(1, 6) {
		o.Content = strings.Repeat(pick(r, []string{"\n", " ", "# x\n"}), r.n(6)) + pick(r, libWarny)
		o.Warn, o.Ignore = r.p(7, 8), r.p(1, 8)
	}
	if r.p(1, 8) {
		o.Memo = true
	}
	if r.p(1, 10) {
		o.UTF8 = true
	}
	if r.p(1, 8) {
		o.Stats = true
	}
	if r.p(1, 4) {
		o.Op = "reader"
		genDelivery(r, &o)
	}
	genRare(r, &o)
	return o
}

// genRare sets options that are hardly ever used.
func genRare(r *rng, o *libOp) {
	if r.p(1, 12) {
		o.Entry = pick(r, []string{"init", "nope", "-", "config", "config", "pluginSection", "plugin", "branch", "value", "attribute"})
	}
	if r.p(1, 12) {
		o.State = 1 + r.n(3)
	}
}

func genDelivery(r *rng, o *libOp) {
	o.Chunks = nil
	switch r.n(7) {
	case 6: // nothing for a long time
		o.Chunks = make([]int, pick(r, []int{3, 30, 101, 130}), 200)
		o.Chunks = append(o.Chunks, pick(r, []int{1 + r.n(300), 512, 1 << 20}))
		if r.p(1, 2) {
			o.Chunks = append([]int{1 + r.n(100)}, o.Chunks...)
		}
	case 0:
	case 1:
		o.Chunks = []int{1}
	case 2:
		o.Chunks = []int{512}
	case 3: // cut in the middle of something
		if len(o.Content) > 1 {
			o.Chunks = []int{1 + r.n(len(o.Content)-1), 1 << 20}
		}
	default:
		for i := 0; i < 1+r.n(6); i++ {
			o.Chunks = append(o.Chunks, pick(r, []int{0, 1, 2, 3, 7, 64, 511, 512, 513, 1 + r.n(300)}))
		}
		o.Chunks = append(o.Chunks, 1+r.n(100)) // something comes at last
	}
	o.DataEOF = r.p(1, 3)
}

func genFailure(r *rng, o *libOp) {
	o.Op = "reader"
	if len(o.Chunks) == 0 && r.p(1, 2) {
		genDelivery(r, o)
	}
	o.Fail = true
	o.FailAt = r.n(len(o.Content) + 1)
	if r.p(1, 4) {
		o.FailAt = len(o.Content)
	}
	o.FailErr = pick(r, []string{"disk on fire", "unexpected EOF", "closed", "input/output error"})
	if r.p(1, 2) {
		o.FailErr = pick(r, []string{"wrapped EOF", "joined EOF", "timeout", "deadline", "no progress", "short buffer", "closed pipe", "canceled", "EINTR", "EAGAIN", "EIO", "not exist", "too large", "buffer full"})
	}
	o.WithDat = r.p(1, 3)
}

func genCutoff(r *rng, p *libPool) libOp {
	o := genParse(r, p)
	o.Stats = false
	switch r.n(5) {
	case 0, 1:
		o.Max = uint64(1 + r.n(pick(r, []int{3, 30, 300, 3000})))
	case 2:
		o.NoRec = true
		o.Max = uint64(1 + r.n(2000))
	case 3:
		o.NoRec = true
		o.Content = libExtra[r.n(5)]
	default:
		genFailure(r, &o)
		if r.p(2, 5) {
			o.FailErr = "panic"
		}
	}
	return o
}

func genSchedule(r *rng, c *LibCase) {
	c.Seed = r.u64() >> 1
	c.First = r.n(len(c.Threads))
	c.Mean = pick(r, []uint64{2, 10, 50, 300, 2000, 20000})
	c.HotN = pick(r, []uint64{0, 1, 2, 4, 20})
	c.Pool = pick(r, []string{"", "", "lifo", "random"})
	c.Rand = uint64(r.n(1000))
}

func libScenario(c *LibCase) *Scenario {
	return &Scenario{Kind: "lib", Lib: c, Capacity: -1}
}

func caseC08(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	small := r.p(1, 2)
	if small {
		p = p.small
	}
	c := &LibCase{}
	k := 2 + r.n(3)
	for i := 0; i < k; i++ {
		var t []libOp
		for j := 0; j < 1+r.n(2); j++ {
			o := genParse(r, p)
			if r.p(1, 6) && !o.Stats {
				o.Mutate, o.Keep, o.N = true, r.p(1, 2), r.n(90)
			}
			t = append(t, o)
		}
		c.Threads = append(c.Threads, t)
	}
	if small && r.p(2, 3) {
		c.Threads = append(c.Threads, []libOp{{Op: "pollmany", N: 20 + r.n(200)}})
	}
	switch r.n(6) {
	case 0:
		// the same call in every thread
		for i := range c.Threads {
			c.Threads[i] = c.Threads[0]
		}
	case 1:
		// much the same in every thread
		a, b := p.pick(r), p.pick(r)
		for i := range c.Threads {
			for j := range c.Threads[i] {
				if isParse(c.Threads[i][j]) {
					c.Threads[i][j] = genRepeat(r, a, b)
				}
			}
		}
	}
	if r.p(1, 6) {
		seed := r.u64()
		for i := range c.Threads {
			for j := range c.Threads[i] {
				o := &c.Threads[i][j]
				o.Content = crlf(&rng{seed}, o.Content)
			}
		}
	}
	if r.p(1, 5) {
		// a source that parses something itself, or that takes its time
		i := r.n(len(c.Threads))
		t := append([]libOp{}, c.Threads[i]...)
		o := &t[r.n(len(t))]
		if isParse(*o) {
			o.Op = "reader"
			if r.p(1, 2) {
				o.Nest = p.pick(r)
			} else {
				o.Await = true
			}
		}
		c.Threads[i] = t
	}
	return libScenario(c)
}

func varySchedule(r *rng, sc *Scenario, ref *refRun) {
	if sc.Lib != nil {
		genSchedule(r, sc.Lib)
	}
}

func checkC08(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	v, out, err := checkLib(sc, info)
	if err == nil && out != nil {
		info.nontrivial = len(out.Switches) > 0
	}
	return v, info, err
}

func caseC09(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	if n%6 == 5 {
		return caseC09File(r, cp)
	}
	if n%36 == 10 {
		return libScenario(&LibCase{Threads: [][]libOp{genHistory(r, p)}})
	}
	var t []libOp
	again := n%2 == 1 // much the same, again and again
	a, b := p.pick(r), p.pick(r)
	if r.p(2, 3) {
		a = pick(r, p.valid)
	}
	for j := 0; j < 3+r.n(6); j++ {
		o := genParse(r, p)
		if again && r.p(5, 6) {
			o = genRepeat(r, a, b)
			t = append(t, o)
			continue
		}
		switch r.n(8) {
		case 0:
			o.Mutate, o.Ask, o.Keep, o.N = true, r.p(1, 2), r.p(1, 2), r.n(90)
			o.Stats = false
		case 1, 2:
			if o.Op == "parse" {
				o.Scribble = true
			}
		case 3:
			if len(t) > 0 {
				o = t[r.n(len(t))] // the same again
			}
		case 4:
			if len(t) > 0 {
				o.Content = t[r.n(len(t))].Content // the same input, other options
			}
		case 5:
			o = genCutoff(r, p)
		case 6:
			o = libOp{Op: "helpers", Content: pick(r, []string{"a\"b", "it's", "x\\n\ty", "plain", "\u00e9 \"'"}), N: r.n(100)}
		}
		t = append(t, o)
	}
	return libScenario(&LibCase{Threads: [][]libOp{t}})
}

// genHistory is a long sequence of short calls, of few kinds or of many.
func genHistory(r *rng, p *libPool) (t []libOp) {
	kinds, calls := 2+r.n(5), pick(r, []int{300, 500, 700, 1100, 2100})
	if r.p(1, 6) {
		kinds, calls = 140, 140+r.n(140)
	}
	short := p.small
	var ops []libOp
	same := r.p(2, 3) // little of anything special
	a, b := short.pick(r), pick(r, short.valid)
	for len(ops) < kinds {
		o := genParse(r, short)
		if same {
			a = pick(r, short.valid)
			o = genRepeat(r, a, b)
			if r.p(5, 6) {
				o.Ignore, o.Warn, o.Memo, o.Max = false, false, false, 0
			}
			if len(ops) == 0 {
				o.Mutate, o.Keep, o.Scribble = true, false, false
			}
		}
		switch r.n(8) {
		case 0:
			o = genCutoff(r, short)
		case 1:
			o.Mutate, o.Keep, o.N, o.Stats = true, r.p(1, 2), r.n(90), false
		}
		if len(o.Content) > 150 {
			o.Content = fmt.Sprintf("input { p%d { id => \"%d\" } }", r.n(5), len(ops))
			if r.p(1, 3) {
				o.Content = o.Content[:r.n(len(o.Content))]
			}
		}
		o.Chunks, o.Pad, o.Prefix, o.Src = nil, 0, "", ""
		if o.FailAt > len(o.Content) {
			o.FailAt = len(o.Content)
		}
		ops = append(ops, o)
	}
	for i := 0; i < calls; i++ {
		if i < len(ops) {
			t = append(t, ops[i])
			continue
		}
		t = append(t, pick(r, ops))
	}
	return t
}

// genRepeat parses one of two contents, mostly the first, mostly without
// options, and often changes the result or the input afterwards.
func genRepeat(r *rng, a, b string) libOp {
	o := libOp{Op: pick(r, []string{"parse", "reader"}), Name: "a.conf", Content: a}
	if r.p(1, 4) {
		o.Content = b
	}
	if r.p(1, 6) {
		o.Name = "b.conf"
	}
	switch r.n(12) {
	case 0:
		o.Ignore = true
	case 1:
		o.Warn = true
	case 2:
		o.Memo = true
	case 3:
		o.Max = uint64(1 + r.n(3000))
	}
	switch r.n(4) {
	case 0, 1:
		o.Mutate, o.Ask = true, r.p(1, 2)
		o.Keep, o.N = r.p(1, 2), r.n(90)
	case 2:
		o.Scribble = o.Op == "parse"
	}
	return o
}

// caseC09File: files are parsed, change, and are parsed again.
func caseC09File(r *rng, cp *corpus) *Scenario {
	sc, files := newWorld(r, worldOpt{n: 1 + r.n(2), pool: cp.items, symlinks: true, modes: []uint32{0o644}})
	sc.TimeUnit = pick(r, []uint64{1, 1e6, 1e6})
	f := buildFS(sc)
	var ops []drvOp
	for i := 3 + r.n(5); i > 0; i-- {
		a := pick(r, files)
		if len(ops) > 0 && r.p(1, 2) {
			a = ops[len(ops)-1].Name
		}
		if r.p(2, 5) {
			_, n := realPath(f, abs(sc.Cwd, a))
			o := drvOp{Op: "write", Name: a, Content: pick(r, cp.items).Content}
			switch d := len(n.data) - len(o.Content); {
			case r.p(1, 3):
			case d > 0: // as long as it was
				o.Content += strings.Repeat("\n", d)
			case d < 0:
				o.Content = strings.Repeat("#", len(n.data))
			}
			if rp, _ := realPath(f, abs(sc.Cwd, a)); rp == abs(sc.Cwd, a) && r.p(1, 3) {
				o.Other = "rename"
			}
			ops = append(ops, o)
			continue
		}
		ops = append(ops, drvOp{Op: "parsefile", Name: a, Ignore: r.p(1, 6), Warn: r.p(1, 6)})
	}
	b, _ := json.Marshal(ops)
	pr := newProc(r)
	pr.Prog, pr.Script = "drv", string(b)
	pr.Args = append([]string{"drv"}, files...)
	sc.Procs = []ProcSpec{pr}
	return sc
}

func checkC09(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	if sc.Lib == nil {
		v, err := checkC07File(sc, info)
		info.nontrivial = strings.Contains(sc.Procs[0].Script, `"write"`)
		return v, info, err
	}
	v, _, err := checkLib(sc, info)
	n := 0
	for _, t := range sc.Lib.Threads {
		n += len(t)
	}
	info.nontrivial = n > 1
	return v, info, err
}

func varyOrder(r *rng, sc *Scenario, ref *refRun) {
	c := sc.Lib
	if c == nil {
		return
	}
	c.Pool = pick(r, []string{"lifo", "lifo", "random", ""})
	c.Rand = uint64(r.n(1000))
	t := c.Threads[0]
	for i := len(t) - 1; i > 0; i-- {
		j := r.n(i + 1)
		t[i], t[j] = t[j], t[i]
	}
}

func caseC11(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	c := &LibCase{Shared: pick(r, p.valid)}
	if r.p(1, 4) {
		c.Shared = libExtra[10]
	}
	if r.p(1, 2) {
		c.Shared = fmt.Sprintf("%d\x00%s", 1+r.n(1000), c.Shared)
	}
	for i := 0; i < 2+r.n(3); i++ {
		var t []libOp
		for j := 0; j < 1+r.n(3); j++ {
			switch r.n(8) {
			case 0, 1, 2:
				t = append(t, libOp{Op: "render"})
			case 3, 4:
				t = append(t, libOp{Op: "inspect"})
			case 5:
				t = append(t, libOp{Op: "dump"})
			case 6:
				t = append(t, libOp{Op: "helpers", Content: pick(r, []string{"a\"b", "it's", "x\\n\ty", "plain", "\u00e9 \"'"}), N: r.n(100)})
			default:
				t = append(t, libOp{Op: "parse", Name: "other.conf", Content: p.pick(r)})
			}
		}
		c.Threads = append(c.Threads, t)
	}
	return libScenario(c)
}

func caseC12(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	c := &LibCase{}
	if n%8 == 6 {
		// the same thing again and again; then all is as before
		o := genCutoff(r, p)
		if len(o.Content) > 200 {
			o.Content = libExtra[r.n(5)]
		}
		if n%16 == 6 {
			o.Max, o.NoRec = 0, false
			genFailure(r, &o)
			o.FailErr = pick(r, []string{"panic", "panic", o.FailErr})
		}
		var t []libOp
		for i := pick(r, []int{3, 6, 12, 25, 40, 70}); i > 0; i-- {
			t = append(t, o)
		}
		x, y := genParse(r, p), genParse(r, p)
		x.Op, y.Op = "reader", "parse"
		o.Max, o.NoRec, o.Fail, o.FailErr, o.WithDat, o.FailAt = 0, false, false, "", false, 0
		c.Threads = [][]libOp{append(t, x, y, o)}
		return libScenario(c)
	}
	threads := 1
	if n%2 == 1 {
		threads = 2 + r.n(2)
	}
	for i := 0; i < threads; i++ {
		var t []libOp
		for j := 0; j < 2+r.n(4); j++ {
			if r.p(1, 2) {
				o := genCutoff(r, p)
				if len(t) > 0 && r.p(1, 3) {
					// the same input as before, now cut off
					o.Name, o.Content = t[len(t)-1].Name, t[len(t)-1].Content
				}
				t = append(t, o)
			} else if len(t) > 0 && r.p(1, 3) {
				// what was cut off before, now in full
				o := t[len(t)-1]
				o.Max, o.NoRec, o.Fail, o.FailErr, o.WithDat, o.FailAt = 0, false, false, "", false, 0
				t = append(t, o)
			} else {
				t = append(t, genParse(r, p))
			}
			if threads > 1 && j > 1 {
				break
			}
		}
		c.Threads = append(c.Threads, t)
	}
	return libScenario(c)
}

func checkC12(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	v, _, err := checkLib(sc, info)
	info.nontrivial = info.fired["read error"]+info.fired["expression limit"]+info.fired["panic passed on"] > 0
	return v, info, err
}

// C07: how the bytes arrive makes no difference, and a failing source is never
// taken for a short configuration.
func caseC07(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	if n%4 == 3 {
		// ParseFile on the simulated kernel
		pool := cp.items
		sc, files := newWorld(r, worldOpt{n: 1 + r.n(3), pool: pool, symlinks: true, modes: []uint32{0o644}})
		pr := newProc(r)
		pr.Prog = "drv"
		var ops []drvOp
		for _, f := range files {
			o := drvOp{Op: "parsefile", Name: f, Ignore: r.p(1, 4), Warn: r.p(1, 3)}
			if r.p(1, 4) { // an open file, perhaps not from its beginning
				o.Op = "parseopen"
				if r.p(2, 3) {
					o.Skip = 1 + r.n(40)
				}
			}
			ops = append(ops, o)
		}
		b, _ := json.Marshal(ops)
		pr.Script = string(b)
		pr.Args = append([]string{"drv"}, files...)
		sc.Procs = []ProcSpec{pr}
		specialise(r, sc, false)
		return sc
	}
	o := genParse(r, p)
	if r.p(1, 6) {
		o.Content = pick(r, cp.items).Content // any size
	}
	o.Op = "reader"
	switch r.n(8) {
	case 0: // what a reader might swallow
		o.Content = pick(r, []string{"\xef\xbb\xbf", "\x00", "\x00\x00\x00", "\x1a", "\r\n", "\ufeff", "\u2028", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "BZh9", "PK\x03\x04", "#!/usr/bin/mustache\n", "---\n", "{}"}) + o.Content
	case 1:
		o.Content += pick(r, []string{"\x00", "\x00\x00\x00\x00\x00", "\n\x00\n", "\x1a", "\x04", "\xef\xbb\xbf", "\xe2\x82", "\xff", "}", "\n}\n", "x", "\\", "# no end", "\r", "\n\n\n", "\u2028", "\x85"})
	}
	if n%8 == 5 {
		o.Memo = false
		o.Pad = pick(r, []int{4 << 10, 32 << 10, 64 << 10, 128 << 10, 1 << 20, 1 << 20, 1<<20 + 1<<19}) + r.n(1000) - 500
		if r.p(1, 10) {
			o.Pad = 4<<20 + r.n(1<<20)
		}
		if r.p(1, 3) {
			o.Pad = -o.Pad
		}
	}
	return libScenario(&LibCase{Threads: [][]libOp{{o}}})
}

func varyC07(r *rng, sc *Scenario, ref *refRun) {
	if sc.Lib != nil {
		o := &sc.Lib.Threads[0][0]
		genDelivery(r, o)
		if o.Pad != 0 && len(o.Chunks) > 0 {
			o.Chunks = append(o.Chunks[:0:0], pick(r, [][]int{{4096}, {511, 0, 30000}, {1 << 20, 1}, {65536}})...)
		}
		if r.p(1, 2) {
			genFailure(r, o)
			if o.Pad > 0 {
				o.FailAt = r.n(len(o.Content) + o.Pad + 3)
			}
			if o.Pad != 0 && r.p(1, 12) {
				// fails after more than anybody sends
				o.Pad = 12<<20 + r.n(58<<20)
				o.FailAt = o.Pad - r.n(1<<20)
				o.Chunks = []int{1 << 20}
			}
		}
		switch {
		case r.p(1, 2):
		case o.Fail:
			o.Src = pick(r, []string{"bufio", "seek", "seek"})
		default:
			o.Src = pick(r, []string{"bytes", "strings", "buffer", "section", "limited", "multi", "bufio", "seek", "seek"})
		}
		if o.Src != "" && r.p(1, 2) {
			o.Prefix = pick(r, []string{"%%% header\n", "}", "#", "\x00\xff{", "input {\n", o.Content})
		}
		return
	}
	if r.p(1, 2) {
		sc.Faults = genFaults(r, ref, 0, 4, true)
		return
	}
	files := fileArgs(sc.Procs[0].Args)
	f := Fault{Proc: 0, Path: abs(sc.Cwd, pick(r, files)), Class: "read", Kind: "err", Errno: int(pick(r, errnosFor["read"])), Arg: r.n(1000)}
	if r.p(1, 2) {
		f.Times = 1
	}
	if r.p(1, 2) {
		f.Kind = "short"
		f.Errno = 0
	}
	sc.Faults = []Fault{f}
}

func checkC07(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	if sc.Lib == nil {
		v, err := checkC07File(sc, info)
		return v, info, err
	}
	out, err := runLib(sc.Lib)
	if err != nil {
		return "", info, err
	}
	info.addLib(sc.Lib, out)
	if v := broken(out); v != "" {
		return v, info, nil
	}
	o, r := sc.Lib.Threads[0][0], &out.Res[0][0]
	info.nontrivial = o.Fail || o.DataEOF || len(o.Chunks) > 0
	if o.Fail {
		switch {
		case r.Panic != "":
			return fmt.Sprintf("%s: panics: %s", opName(o), brief(r.Panic)), info, nil
		case r.Err == "":
			return fmt.Sprintf("%s: the failure is not reported", opName(o)), info, nil
		case !r.Nil:
			return fmt.Sprintf("%s: a configuration is returned although its source failed", opName(o)), info, nil
		case !r.IsInj:
			return fmt.Sprintf("%s: the error does not tell of the failure: %s", opName(o), brief(r.Err)), info, nil
		}
		return "", info, nil
	}
	w := o
	w.Op, w.Chunks, w.DataEOF, w.Src, w.Prefix = "parse", nil, false, "", ""
	s, err := solo(w, "", false, info)
	if err != nil {
		return "", info, err
	}
	if b := broken(s); b != "" {
		return "even alone: " + b, info, nil
	}
	if v := sameRes(o, &s.Res[0][0], r, true); v != "" {
		return strings.Replace(v, "the same call alone", "the same bytes in one piece", 1), info, nil
	}
	return "", info, nil
}

func checkC07File(sc *Scenario, info *runInfo) (string, error) {
	res, err := runScenario(sc, nil, nil)
	if err != nil {
		return "", err
	}
	info.add(res)
	info.nontrivial = len(res.fired) > 0
	info.sample = res.trace
	if v := stuck(res); v != "" {
		return v, nil
	}
	p := res.procs[0]
	if s := panicked(p); s != "" {
		return s, nil
	}
	var got []drvRes
	if err := json.Unmarshal([]byte(p.Stdout), &got); err != nil {
		return "", harnessError{fmt.Sprintf("drv: %v: %q %q", err, brief(p.Stdout), brief(p.Stderr))}
	}
	var ops []drvOp
	json.Unmarshal([]byte(sc.Procs[0].Script), &ops)
	f := buildFS(sc)
	failed := map[string]bool{}
	for _, rp := range p.FailedReads {
		failed[abs(sc.Cwd, rp)] = true
	}
	for i, o := range ops {
		if o.Op == "write" {
			if i < len(got) && got[i].Err != "" {
				return "", harnessError{"drv: " + got[i].Err}
			}
			if rp, _ := realPath(f, abs(sc.Cwd, o.Name)); rp != "" {
				f.putFile(rp, o.Content, 0o644, 1000)
			}
			continue
		}
		_, n := realPath(f, abs(sc.Cwd, o.Name))
		if n == nil || i >= len(got) {
			continue
		}
		g := got[i]
		if failed[abs(sc.Cwd, o.Name)] {
			if g.Err == "" || g.Ok || !g.Nil {
				return fmt.Sprintf("ParseFile(%s): reading failed, but a configuration is returned", o.Name), nil
			}
			continue
		}
		w := o
		w.Op, w.Content, w.Skip = "parse", n.content()[min(o.Skip, len(n.content())):], 0
		rs, err := askLib(w)
		if err != nil {
			return "", err
		}
		if rs[0] != g {
			return fmt.Sprintf("ParseFile(%s) differs from Parse of the same bytes: %s", o.Name, firstDiff(fmt.Sprintf("%+v", rs[0]), fmt.Sprintf("%+v", g))), nil
		}
	}
	return "", nil
}

// ---- C18: a process that goes on and on ----

var helperTexts = []string{"", "a", "a b", "it's", `say "x"`, `both ' and "`, "line\nbreak", `back\slash`, "\u4e16\u754c", "tab\t\r"}

func caseC18(r *rng, cp *corpus, n int) *Scenario {
	p := poolOf(cp)
	c := &LibCase{Grow: &growT{Reps: 40 + r.n(60), Go: r.p(1, 3), Fixed: r.p(1, 5)}, Threads: [][]libOp{nil}, Rand: uint64(r.n(1000))}
	if n%40 == 39 {
		c.Grow.Reps *= 8
	}
	c.Grow.Shift = !c.Grow.Fixed && r.p(1, 3)
	for i := 1 + r.n(4); i > 0; i-- {
		var o libOp
		switch r.n(11) {
		case 10:
			// a syntax error, of the kind that ends the parse more often than not
			o = genParse(r, p)
			o.Content = pick(r, libExtra)
			if r.p(1, 2) {
				o.Content = wreck(r, pick(r, p.valid))
			}
		case 0, 1, 2:
			o = genParse(r, p)
		case 3, 4, 5, 6:
			o = genCutoff(r, p)
		case 7:
			o = genParse(r, p)
			o.Mutate = true
		case 8:
			o = libOp{Op: "file", Name: pick(r, []string{"/nonexistent/x.conf", "/dev/null", "/", ""})}
		default:
			o = libOp{Op: pick(r, []string{"render", "inspect", "dump", "helpers", "poll"}), Content: pick(r, helperTexts)}
			for c.Shared == "" {
				c.Shared = pick(r, p.valid)
			}
		}
		if !c.Grow.Fixed && (o.Op == "parse" || o.Op == "reader") && r.p(2, 3) && len(o.Chunks) == 0 {
			o.Content = growMarks(o.Content)
		}
		c.Threads[0] = append(c.Threads[0], o)
	}
	return libScenario(c)
}

// wreck cuts a configuration off or takes one of its delimiters away.
func wreck(r *rng, s string) string {
	if len(s) == 0 {
		return "}"
	}
	if r.p(1, 3) {
		return s[:r.n(len(s))]
	}
	from := r.n(len(s))
	if i := strings.IndexAny(s[from:], "\"'{}[]()/"); i >= 0 {
		return s[:from+i] + s[from+i+1:]
	}
	return s[:from]
}

var growToken = regexp.MustCompile(`[a-z][a-z_]{2,}|[0-9]+`)
var growKeep = map[string]bool{"input": true, "filter": true, "output": true, "else": true, "and": true, "xor": true, "nand": true, "not": true, "true": true, "false": true}

// growMarks puts a mark behind names, words and numbers; the worker puts the
// number of the repetition in its place.
func growMarks(s string) string {
	return growToken.ReplaceAllStringFunc(s, func(t string) string {
		if growKeep[t] {
			return t
		}
		return t + "QQ"
	})
}

// growth names what grew between the second and the third as well as between
// the third and the fourth measurement, in proportion to the calls in between.
func growth(m []markT) (string, error) {
	if len(m) != 4 {
		return "", harnessError{"libsim: no measurements"}
	}
	grows := func(f func(m markT) int64, per func(reps int64) int64) bool {
		for k := 2; k < 4; k++ {
			if f(m[k])-f(m[k-1]) < per(int64(m[k].Reps-m[k-1].Reps)) {
				return false
			}
		}
		return true
	}
	switch {
	case grows(func(m markT) int64 { return int64(m.Goroutines) }, func(n int64) int64 { return n / 4 }):
		return "goroutines", nil
	case grows(func(m markT) int64 { return int64(m.Objects) }, func(n int64) int64 { return n / 2 }),
		grows(func(m markT) int64 { return int64(m.Bytes) }, func(n int64) int64 { return max(4*n, 1024) }):
		return "memory in use", nil
	}
	return "", nil
}

// checkC18 looks for growth that goes on.
func checkC18(sc *Scenario, rc *refCache) (string, *runInfo, error) {
	info := &runInfo{}
	out, err := runLib(sc.Lib)
	if err != nil {
		return "", info, err
	}
	c := clone(sc).Lib
	info.addLib(c, &libOut{})
	info.nontrivial = true
	if v := broken(out); v != "" {
		return v, info, nil
	}
	m := out.Marks
	what, err := growth(m)
	if err != nil {
		return "", info, err
	}
	if what != "" {
		// something bounded may still be filling up: go on for longer
		long := clone(sc).Lib
		long.Grow.Reps = min(20*long.Grow.Reps, 8000)
		o2, err := runLib(long)
		if err != nil {
			return "", info, err
		}
		info.runs++
		if o2.Verdict == "" {
			if what, err = growth(o2.Marks); err != nil {
				return "", info, err
			}
		}
	}
	info.steps += m[3].Reps * len(c.Threads[0])
	info.fired["call repeated"] += m[3].Reps * len(c.Threads[0])
	info.sample = m
	if c.Grow.Go {
		info.fired["call in a goroutine of its own"] += m[3].Reps * len(c.Threads[0])
	}
	var names []string
	for _, o := range c.Threads[0] {
		names = append(names, opName(o))
	}
	if what != "" {
		return fmt.Sprintf("the more often this is repeated, the more %s remain: %s", what, strings.Join(names, "; ")), info, nil
	}
	return "", info, nil
}

// ---- C16: the library in another process ----

func caseLibC16(r *rng, cp *corpus) *Scenario {
	p := poolOf(cp)
	o := genParse(r, p)
	o.Mutate = r.p(1, 4)
	return libScenario(&LibCase{Threads: [][]libOp{{o}}})
}

func checkLibC16(sc *Scenario, info *runInfo) (string, *runInfo, error) {
	v, _, err := checkLib(sc, info)
	info.fired["other random seed"]++
	info.nontrivial = true
	return v, info, err
}

// ---- minimising ----

func shrinkLib(p *property, sc *Scenario, msg string) (*Scenario, string) {
	if sc.Lib == nil {
		return minimise(p, sc, msg)
	}
	deadline := time.Now().Add(60 * time.Second)
	test := func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		m, _, err := p.check(clone(c), &refCache{})
		if err != nil || m == "" {
			return false
		}
		sc, msg = c, m
		return true
	}
	// fewer threads and calls, under the same or another schedule
	anySeed := func(c *Scenario) bool {
		for i := 0; i < 6; i++ {
			d := clone(c)
			if i > 0 {
				d.Lib.Seed += uint64(i) * 7919
			}
			if test(d) {
				return true
			}
			if len(d.Lib.Threads) == 1 {
				break
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for i := len(sc.Lib.Threads) - 1; i >= 0 && len(sc.Lib.Threads) > 1; i-- {
			if i >= len(sc.Lib.Threads) {
				continue
			}
			c := clone(sc)
			c.Lib.Threads = append(c.Lib.Threads[:i], c.Lib.Threads[i+1:]...)
			changed = anySeed(c) || changed
		}
		for i := range sc.Lib.Threads {
			for size := max(1, len(sc.Lib.Threads[i])/2); size > 0; size /= 2 {
				for j := len(sc.Lib.Threads[i]) - size; j >= 0 && time.Now().Before(deadline); j -= size {
					if n := len(sc.Lib.Threads[i]); n == 1 || n == size || j+size > n {
						continue
					}
					c := clone(sc)
					c.Lib.Threads[i] = append(c.Lib.Threads[i][:j], c.Lib.Threads[i][j+size:]...)
					changed = anySeed(c) || changed
				}
			}
		}
	}
	for i := range sc.Lib.Threads {
		for j := range sc.Lib.Threads[i] {
			for _, f := range []func(o *libOp){
				func(o *libOp) { o.Stats = false }, func(o *libOp) { o.Entry = "" }, func(o *libOp) { o.State = 0 }, func(o *libOp) { o.Memo = false }, func(o *libOp) { o.Warn = false }, func(o *libOp) { o.Ignore = false },
				func(o *libOp) { o.UTF8 = false }, func(o *libOp) { o.Mutate = false }, func(o *libOp) { o.Scribble = false }, func(o *libOp) { o.DataEOF = false }, func(o *libOp) { o.Chunks = nil },
				func(o *libOp) {
					if o.Content != "" {
						o.Content = "input{"
					}
				},
				func(o *libOp) {
					if o.Content != "" {
						o.Content = "input{stdin{}}"
					}
				},
			} {
				if time.Now().After(deadline) {
					break
				}
				c := clone(sc)
				f(&c.Lib.Threads[i][j])
				a, _ := json.Marshal(c.Lib)
				b, _ := json.Marshal(sc.Lib)
				if string(a) != string(b) {
					test(c)
				}
			}
		}
	}
	if len(sc.Lib.Threads) < 2 {
		return sc, msg
	}
	// the schedule, written out and thinned
	out, err := runLib(sc.Lib)
	if err != nil {
		return sc, msg
	}
	c := clone(sc)
	c.Lib.Explicit, c.Lib.Plan = true, out.Switches
	if !test(c) {
		return sc, msg
	}
	for size := (len(sc.Lib.Plan) + 1) / 2; size >= 1 && time.Now().Before(deadline); {
		removed := false
		for at := 0; at < len(sc.Lib.Plan); {
			c := clone(sc)
			end := at + size
			if end > len(c.Lib.Plan) {
				end = len(c.Lib.Plan)
			}
			c.Lib.Plan = append(append([][2]uint64{}, c.Lib.Plan[:at]...), c.Lib.Plan[end:]...)
			if test(c) {
				removed = true
			} else {
				at = end
			}
			if time.Now().After(deadline) {
				break
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size /= 2
		} else if !removed {
			break
		}
	}
	return sc, msg
}

func noVary(r *rng, sc *Scenario, ref *refRun) {}

var libProps = []*property{
	{id: "C07", cli: false, lib: true, plain: true, newCase: caseC07, vary: varyC07, k: 6, check: checkC07, shrink: shrinkLib, quick: 500, deep: 8000},
	{id: "C08", cli: false, lib: true, newCase: caseC08, vary: varySchedule, k: 10, check: checkC08, shrink: shrinkLib, quick: 200, deep: 6000},
	{id: "C09", cli: false, lib: true, newCase: caseC09, vary: varyOrder, k: 4, check: checkC09, shrink: shrinkLib, quick: 500, deep: 8000},
	{id: "C11", cli: false, lib: true, newCase: caseC11, vary: varySchedule, k: 8, check: checkC08, shrink: shrinkLib, quick: 300, deep: 6000},
	{id: "C18", plain: true, newCase: caseC18, vary: noVary, k: 1, check: checkC18, shrink: shrinkLib, quick: 260, deep: 3000},
	{id: "C12", cli: false, lib: true, newCase: caseC12, vary: varyC12, k: 5, check: checkC12, shrink: shrinkLib, quick: 400, deep: 6000},
}

func varyC12(r *rng, sc *Scenario, ref *refRun) {
	if len(sc.Lib.Threads) == 1 {
		varyOrder(r, sc, ref)
		return
	}
	genSchedule(r, sc.Lib)
}

// ---- building ----

func buildLib(dir string, plain bool) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := newBuilder(verifDir, repoDir, dir)
	if err != nil {
		return err
	}
	if err := b.patchRuntime(); err != nil {
		return err
	}
	if err := b.patchSync(); err != nil {
		return err
	}
	if !plain {
		if _, _, err := b.instrument(); err != nil {
			return err
		}
	}
	for _, p := range []string{"rt", "libsim"} {
		if err := b.addPkg(p, "internal/verifsim/"+p); err != nil {
			return err
		}
	}
	ov, err := b.overlayFile("lib.json")
	if err != nil {
		return err
	}
	if plain {
		return b.build(ov, filepath.Join(dir, "libplain"), "./internal/verifsim/libsim")
	}
	return b.build(ov, filepath.Join(dir, "libsim"), "./internal/verifsim/libsim", "-race")
}
