// Command libsim is one simulated execution of the library of the tree under
// test: a few threads with a script each, scheduled by package rt. A case comes
// in on standard input, what happened goes out on standard output.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"github.com/breml/logstash-config/internal/verifsim/rt"
)

// Contents that are no UTF-8 come in base64.
func dec(s string) string {
	if t, ok := strings.CutPrefix(s, "\x00base64:"); ok {
		if b, err := base64.StdEncoding.DecodeString(t); err == nil {
			return string(b)
		}
	}
	return s
}

func (o *opT) UnmarshalJSON(b []byte) error {
	type plain opT
	err := json.Unmarshal(b, (*plain)(o))
	o.Content, o.Prefix, o.Nest = dec(o.Content), dec(o.Prefix), dec(o.Nest)
	return err
}

type opT struct {
	Op      string `json:"op"`
	Name    string `json:"name,omitempty"`
	Content string `json:"content,omitempty"`
	Ignore  bool   `json:"ignore,omitempty"`
	Warn    bool   `json:"warn,omitempty"`
	Max     uint64 `json:"max,omitempty"`
	NoRec   bool   `json:"norec,omitempty"`
	Memo    bool   `json:"memo,omitempty"`
	UTF8    bool   `json:"utf8,omitempty"`
	Stats   bool   `json:"stats,omitempty"`
	Entry   string `json:"entry,omitempty"` // start rule, "-" for the empty name
	State   int    `json:"state,omitempty"` // a value of the caller's own in both stores

	// delivery by a reader
	Chunks  []int  `json:"chunks,omitempty"`  // sizes, repeated; 0: a read that brings nothing
	DataEOF bool   `json:"dataeof,omitempty"` // the last bytes come together with io.EOF
	Fail    bool   `json:"fail,omitempty"`
	FailAt  int    `json:"failat,omitempty"`
	FailErr string `json:"failerr,omitempty"` // text, or "panic", "unexpected EOF"
	WithDat bool   `json:"withdat,omitempty"` // the error comes together with data
	Src     string `json:"src,omitempty"`     // what kind of reader
	Prefix  string `json:"prefix,omitempty"`  // read from it before
	Pad     int    `json:"pad,omitempty"`     // size of a comment, <0: at the end
	Nest    string `json:"nest,omitempty"`    // what the reader itself parses before it answers
	Await   bool   `json:"await,omitempty"`   // the reader answers when all other threads are done

	Scribble bool `json:"scribble,omitempty"` // overwrite the input afterwards
	Mutate   bool `json:"mutate,omitempty"`   // give the result's plugins ids
	Keep     bool `json:"keep,omitempty"`     // and leave it at that
	Ask      bool `json:"ask,omitempty"`      // look at everything before
	Quiet    bool `json:"quiet,omitempty"`    // do not look at it before
	N        int  `json:"n,omitempty"`
}

type caseT struct {
	Shared   string      `json:"shared,omitempty"`
	Threads  [][]opT     `json:"threads"`
	Seed     uint64      `json:"seed"`
	Mean     uint64      `json:"mean"`
	HotN     uint64      `json:"hotn"`
	Limit    uint64      `json:"limit"`
	Explicit bool        `json:"explicit"`
	Plan     [][2]uint64 `json:"plan,omitempty"`
	First    int         `json:"first"`
	Pool     string      `json:"pool,omitempty"`
	Watch    bool        `json:"watch,omitempty"`
	Grow     *growT      `json:"grow,omitempty"`
}

type resT struct {
	Nil    bool     `json:"nil,omitempty"`
	Type   string   `json:"type,omitempty"`
	Err    string   `json:"err,omitempty"`
	ErrTyp string   `json:"errtyp,omitempty"`
	IsInj  bool     `json:"isinj,omitempty"`
	Dump   string   `json:"dump,omitempty"`
	Str    string   `json:"str,omitempty"`
	Panic  string   `json:"panic,omitempty"`
	FF     string   `json:"ff,omitempty"`
	HasFF  bool     `json:"hasff,omitempty"`
	Stats  string   `json:"stats,omitempty"`
	Fixed  string   `json:"fixed,omitempty"`
	Reads  int      `json:"reads,omitempty"`
	Nest   string   `json:"nest,omitempty"`
	Polls  []string `json:"polls,omitempty"`

	Scribbled bool   `json:"scribbled,omitempty"` // changed when the input was overwritten
	Later     string `json:"later,omitempty"`     // changed by the end of the run
}

type outT struct {
	Res      [][]resT    `json:"res"`
	Steps    uint64      `json:"steps"`
	Switches [][2]uint64 `json:"switches,omitempty"`
	Verdict  string      `json:"verdict,omitempty"`
	Where    string      `json:"where,omitempty"`
	FFs      []string    `json:"ffs,omitempty"`
	Shared   string      `json:"shared,omitempty"` // the shared configuration changed
	Marks    []markT     `json:"marks,omitempty"`
}

var (
	theCase caseT
	shared  interface{}
	results [][]resT
	kept    [][]keptT
)

type keptT struct {
	v   interface{}
	err error
}

type injected struct{ s string }

func (e injected) Error() string { return e.s }

// reader delivers content the way the case says.
type reader struct {
	o    *opT
	rest string
	base int // length of what is read before the beginning
	pos  int // relative to that
	i    int
	n    int
	nest string // what the parse in between brought
}

func (r *reader) err() error {
	switch r.o.FailErr {
	case "panic":
		panic("reader gave up")
	}
	return failure(r.o.FailErr)
}

func failure(s string) error {
	if e := named[s]; e != nil {
		return e
	}
	return injected{s}
}

// named are the failures that are known by more than their text.
var named = map[string]error{
	"unexpected EOF": io.ErrUnexpectedEOF,
	"closed":         os.ErrClosed,
	"wrapped EOF":    fmt.Errorf("the peer is gone: %w", io.EOF),
	"joined EOF":     errors.Join(io.EOF, errors.New("and more")),
	"timeout":        timeout{},
	"deadline":       os.ErrDeadlineExceeded,
	"no progress":    io.ErrNoProgress,
	"short buffer":   io.ErrShortBuffer,
	"closed pipe":    io.ErrClosedPipe,
	"canceled":       context.Canceled,
	"EINTR":          syscall.EINTR,
	"EAGAIN":         &os.PathError{Op: "read", Path: "x.conf", Err: syscall.EAGAIN},
	"EIO":            &os.PathError{Op: "read", Path: "x.conf", Err: syscall.EIO},
	"not exist":      os.ErrNotExist,
	"too large":      bytes.ErrTooLarge,
	"buffer full":    bufio.ErrBufferFull,
	"no text":        injected{""},
}

type timeout struct{}

func (timeout) Error() string   { return "it took too long" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (r *reader) Read(p []byte) (int, error) {
	rt.H()
	r.n++
	if r.o.Nest != "" && r.n == 1 {
		v, err := config.Parse("nested", []byte(r.o.Nest))
		r.nest = dump(v)
		if err != nil {
			r.nest = "error: " + err.Error()
		}
	}
	for r.o.Await && !rt.Others() && rt.Block() {
	}
	if r.o.Fail && r.pos >= r.o.FailAt && !r.o.WithDat {
		return 0, r.err()
	}
	if len(r.rest) == 0 {
		if r.o.Fail {
			return 0, r.err()
		}
		return 0, io.EOF
	}
	k := len(p)
	if len(r.o.Chunks) > 0 {
		k = r.o.Chunks[r.i%len(r.o.Chunks)]
		r.i++
	}
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.rest) {
		k = len(r.rest)
	}
	if r.o.Fail && r.pos+k > r.o.FailAt {
		k = r.o.FailAt - r.pos
		if k < 0 {
			k = 0
		}
	}
	copy(p, r.rest[:k])
	// what a reader may do with the part of p it does not fill
	for i := k; i < len(p) && i < k+16; i++ {
		p[i] = '}'
	}
	r.rest = r.rest[k:]
	r.pos += k
	rt.H()
	if r.o.Fail && r.pos >= r.o.FailAt && r.o.WithDat {
		return k, r.err()
	}
	if r.o.DataEOF && !r.o.Fail && len(r.rest) == 0 {
		return k, io.EOF
	}
	return k, nil
}

// source wraps a reader into one that can do more, whose beginning has been
// read already.
func source(rd *reader) io.Reader {
	all := rd.o.Prefix + rd.rest
	var r io.Reader
	switch rd.o.Src {
	case "bytes":
		r = bytes.NewReader([]byte(all))
	case "strings":
		r = strings.NewReader(all)
	case "buffer":
		r = bytes.NewBufferString(all)
	case "section":
		r = io.NewSectionReader(strings.NewReader("}}{"+all+"}}{"), 3, int64(len(all)))
	case "limited":
		r = io.LimitReader(strings.NewReader(all+"}}{"), int64(len(all)))
	case "multi":
		i := len(all) / 2
		r = io.MultiReader(strings.NewReader(all[:i]), strings.NewReader(""), strings.NewReader(all[i:]))
	case "bufio":
		rd.base, rd.pos, rd.rest = len(rd.o.Prefix), -len(rd.o.Prefix), all
		r = bufio.NewReaderSize(rd, 16)
	case "seek":
		rd.base, rd.pos, rd.rest = len(rd.o.Prefix), -len(rd.o.Prefix), all
		r = &seeker{rd, all}
	default:
		return rd
	}
	io.ReadFull(r, make([]byte, len(rd.o.Prefix)))
	return r
}

// seeker can also be positioned, measured and asked to write itself out.
type seeker struct {
	*reader
	all string
}

func (s *seeker) Seek(off int64, whence int) (int64, error) {
	rt.H()
	switch whence {
	case io.SeekCurrent:
		off += int64(len(s.all) - len(s.rest))
	case io.SeekEnd:
		off += int64(len(s.all))
	}
	if off < 0 || whence < 0 || whence > 2 {
		return 0, os.ErrInvalid
	}
	s.rest = s.all[min(int(off), len(s.all)):]
	s.pos = len(s.all) - len(s.rest) - s.base
	return off, nil
}

func (s *seeker) ReadAt(p []byte, off int64) (int, error) {
	rt.H()
	if off < 0 || off > int64(len(s.all)) {
		return 0, io.EOF
	}
	end := len(s.all)
	if s.o.Fail {
		end = s.base + s.o.FailAt
	}
	if int(off) > end {
		return 0, s.err()
	}
	n := copy(p, s.all[off:end])
	if n == len(p) {
		return n, nil
	}
	if s.o.Fail {
		return n, s.err()
	}
	return n, io.EOF
}

func (s *seeker) Len() int    { return len(s.rest) }
func (s *seeker) Size() int64 { return int64(len(s.all)) }

func (s *seeker) WriteTo(w io.Writer) (int64, error) {
	b := make([]byte, 700)
	var t int64
	for {
		n, err := s.Read(b)
		m, werr := w.Write(b[:n])
		t += int64(m)
		switch {
		case werr != nil:
			return t, werr
		case err == io.EOF:
			return t, nil
		case err != nil:
			return t, err
		}
	}
}

// Option values and inputs may be used for many calls, at the same time, too.
var (
	sharedOpts = map[string][]config.Option{}
	sharedIn   = map[string][]byte{}
)

func optKey(o *opT) string {
	return fmt.Sprint(o.Ignore, o.Warn, o.Max, o.NoRec, o.Memo, o.UTF8, o.Entry, o.State)
}

func share(c *caseT) {
	for i := range c.Threads {
		for j := range c.Threads[i] {
			o := &c.Threads[i][j]
			if c.Seed%2 == 0 && !o.Stats {
				sharedOpts[optKey(o)] = options(o, nil)
			}
			if c.Seed%4 < 2 && o.Op == "parse" && !o.Scribble && o.Pad == 0 {
				sharedIn[o.Content] = []byte(o.Content)
			}
		}
	}
}

func options(o *opT, st *config.Stats) []config.Option {
	if out, ok := sharedOpts[optKey(o)]; ok && !o.Stats {
		return out
	}
	out := make([]config.Option, 0, 16)
	if o.Entry != "" {
		out = append(out, config.Entrypoint(strings.TrimPrefix(o.Entry, "-")))
	}
	if o.State != 0 {
		out = append(out, config.GlobalStore("mine", o.State), config.InitState("mine", o.State))
	}
	if o.Ignore {
		out = append(out, config.IgnoreComments(true))
	}
	if o.Warn {
		out = append(out, config.ExceptionalCommentsWarning(true))
	}
	if o.Max > 0 {
		out = append(out, config.MaxExpressions(o.Max))
	}
	if o.NoRec {
		out = append(out, config.Recover(false))
	}
	if o.Memo {
		out = append(out, config.Memoize(true))
	}
	if o.UTF8 {
		out = append(out, config.AllowInvalidUTF8(true))
	}
	if o.Stats {
		out = append(out, config.Statistics(st, "no match"))
	}
	return out
}

// show renders a value with everything in it, exported or not.
func show(sb *strings.Builder, v reflect.Value, d int) {
	if d > 60 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("&")
		}
		show(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteString(":")
			show(sb, v.Field(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			show(sb, v.Index(i), d+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			show(&kb, k, d+1)
			kb.WriteString(":")
			show(&kb, v.MapIndex(k), d+1)
			parts = append(parts, kb.String())
		}
		sort.Strings(parts)
		sb.WriteString("map[" + strings.Join(parts, " ") + "]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Kind().String())
	}
}

func dump(v interface{}) string {
	var sb strings.Builder
	show(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

var getters = []string{"Pos", "String", "Name", "ValueString", "CommentBlock", "Value", "ID", "BoolOperator", "StringAttributeType"}

// inspect calls the getters of every node.
func inspect(sb *strings.Builder, v reflect.Value, d int) {
	if d > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			inspect(sb, v.Elem(), d+1)
		}
		return
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			inspect(sb, v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				inspect(sb, v.Field(i), d+1)
			}
		}
	default:
		return
	}
	if !v.CanInterface() || v.Type().PkgPath() == "" {
		return
	}
	for _, g := range getters {
		m := v.MethodByName(g)
		if !m.IsValid() && v.CanAddr() {
			m = v.Addr().MethodByName(g)
		}
		if !m.IsValid() || m.Type().NumIn() != 0 {
			continue
		}
		sb.WriteString(v.Type().Name() + "." + g + "=")
		for _, out := range m.Call(nil) {
			if e, ok := out.Interface().(error); ok {
				fmt.Fprintf(sb, "%q notfound=%t", e.Error(), ast.IsNotFoundError(e))
				continue
			}
			if s, ok := out.Interface().(string); ok {
				fmt.Fprintf(sb, "%q ", s)
				continue
			}
			show(sb, out, 0)
		}
		sb.WriteString("\n")
	}
}

func sections(c ast.Config) [][]ast.PluginSection {
	return [][]ast.PluginSection{c.Input, c.Filter, c.Output}
}

// hasID looks for itself if the plugin is not to be asked.
func hasID(p *ast.Plugin, quiet bool) bool {
	if !quiet {
		_, err := p.ID()
		return err == nil
	}
	for _, a := range p.Attributes {
		if a != nil && a.Name() == "id" {
			_, ok := a.(ast.StringAttribute)
			return ok
		}
	}
	return false
}

func addIDs(c ast.Config, quiet bool, n int) {
	for _, ss := range sections(c) {
		for i := range ss {
			ss[i].BranchOrPlugins = astutil.ApplyPlugins(ss[i].BranchOrPlugins, func(cu *astutil.Cursor) {
				p := cu.Plugin()
				if p == nil {
					return
				}
				if !hasID(p, quiet) {
					n++
					p.Attributes = append(p.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("m%d", n), ast.DoubleQuoted))
					cu.Replace(*p)
				}
			})
		}
	}
}

// changeIDs changes ids without a new list of attributes, and drops, adds and
// moves some plugins.
func changeIDs(c ast.Config) {
	n := 0
	for _, ss := range sections(c) {
		for i := range ss {
			ss[i].BranchOrPlugins = astutil.ApplyPlugins(ss[i].BranchOrPlugins, func(cu *astutil.Cursor) {
				p := cu.Plugin()
				if p == nil {
					return
				}
				for j, a := range p.Attributes {
					if a != nil && a.Name() == "id" {
						p.Attributes[j] = ast.NewStringAttribute("id", fmt.Sprintf("changed%d", n), ast.DoubleQuoted)
					}
				}
				switch n++; n % 7 {
				case 3:
					cu.InsertBefore(ast.NewPlugin("before"))
				case 5:
					cu.Delete()
				}
			})
		}
	}
}

// wreck clears whatever a caller can reach to clear.
func wreck(v reflect.Value, d int) {
	if d > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			wreck(v.Elem(), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				wreck(v.Field(i), d+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			wreck(v.Index(i), d+1)
			if v.Index(i).CanSet() {
				v.Index(i).Set(reflect.Zero(v.Index(i).Type()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("wrecked")
		}
	}
}

// decorate changes what a caller can change: space around comments, and how
// many there are.
func decorate(v reflect.Value, seed *uint64, d int) {
	if d > 60 {
		return
	}
	next := func(n uint64) bool {
		*seed = *seed*6364136223846793005 + 1442695040888963407
		return *seed>>33%n == 0
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.CanSet() {
			c := reflect.New(v.Elem().Type()).Elem()
			c.Set(v.Elem())
			decorate(c, seed, d+1)
			v.Set(c)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			decorate(v.Elem(), seed, d+1)
		}
	case reflect.Struct:
		if c, ok := v.Addr().Interface().(*ast.Comment); ok {
			c.SpaceBefore, c.SpaceAfter = next(2), next(2)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).CanSet() {
				continue
			}
			if b, ok := v.Field(i).Addr().Interface().(*ast.CommentBlock); ok && next(4) {
				*b = append(*b, ast.NewComment("one more", next(2)), ast.NewComment("", next(2)))
			}
			decorate(v.Field(i), seed, d+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			decorate(v.Index(i), seed, d+1)
		}
	}
}

func helpers(o *opT) string {
	var sb strings.Builder
	for _, t := range []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
		q, err := astutil.Quote(o.Content, t)
		fmt.Fprintf(&sb, "%q %v\n%q\n", q, err, astutil.QuoteWithEscape(o.Content, t))
	}
	fmt.Fprintf(&sb, "%q\n%q\n", astutil.Escape(o.Content), astutil.Unescape(o.Content))
	p := ast.NewPlugin("mutate", ast.NewStringAttribute("id", o.Content, ast.DoubleQuoted), ast.NewNumberAttribute("n", float64(o.N)),
		ast.NewHashAttribute("h", ast.NewHashEntry(ast.NewStringAttribute("", "k", ast.DoubleQuoted), ast.NewArrayAttribute("a", ast.NewStringAttribute("", o.Content, ast.SingleQuoted)))))
	b := ast.NewBranch(ast.NewIfBlock(ast.NewCondition(ast.NewCompareExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames("a", "b"), ast.CompareOperator{Op: ast.Equal}, ast.NewStringAttribute("", o.Content, ast.DoubleQuoted))), p), ast.NewElseBlock(p))
	c := ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, b, p), nil)
	sb.WriteString(c.String())
	_, err := ast.NewPlugin("x").ID()
	fmt.Fprintf(&sb, "%v %+v %q %t", err, err, err, ast.IsNotFoundError(err))
	return sb.String()
}

func remember(l []string, s string) []string {
	for _, o := range l {
		if o == s {
			return l
		}
	}
	return append(l, s)
}

func do(o *opT, r *resT) (v interface{}, err error) {
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
			v, err = nil, nil
			r.FF, r.HasFF = config.GetFarthestFailure()
		}
	}()
	var st config.Stats
	var in []byte
	if o.Pad != 0 {
		x := *o
		o = &x
		if o.Pad > 0 {
			o.Content = "# " + strings.Repeat("x", o.Pad) + "\n" + o.Content
		} else {
			o.Content += "\n# " + strings.Repeat("x", -o.Pad)
		}
	}
	switch o.Op {
	case "parse":
		in = sharedIn[o.Content]
		if in == nil || o.Scribble {
			in = []byte(o.Content)
		}
		v, err = config.Parse(o.Name, in, options(o, &st)...)
	case "reader":
		if o.FailAt > len(o.Content) {
			o.FailAt = len(o.Content)
		}
		rd := &reader{o: o, rest: o.Content}
		v, err = config.ParseReader(o.Name, source(rd), options(o, &st)...)
		r.Reads, r.Nest = rd.n, rd.nest
	case "file":
		v, err = config.ParseFile(o.Name, options(o, &st)...)
	case "poll":
		r.FF, r.HasFF = config.GetFarthestFailure()
		return nil, nil
	case "pollmany":
		// remembers every different answer
		for i := 0; i < o.N; i++ {
			s, ok := config.GetFarthestFailure()
			if ok != (s != "") {
				s = "inconsistent: " + s
			}
			r.Polls = remember(r.Polls, s)
			rt.H()
		}
		return nil, nil
	case "render":
		if c, ok := shared.(ast.Config); ok {
			r.Str = c.String()
		}
		return nil, nil
	case "inspect":
		var sb strings.Builder
		inspect(&sb, reflect.ValueOf(shared), 0)
		r.Str = sb.String()
		return nil, nil
	case "dump":
		r.Dump = dump(shared)
		return nil, nil
	case "helpers":
		r.Str = helpers(o)
		return nil, nil
	}
	r.FF, r.HasFF = config.GetFarthestFailure()
	if theCase.Grow != nil {
		if c, ok := v.(ast.Config); ok {
			if o.Mutate {
				addIDs(c, false, 0)
			}
			r.Str = c.String()
		}
		if err != nil {
			r.Err = err.Error()
		}
		return nil, nil
	}
	if err != nil {
		r.Err = err.Error()
		r.ErrTyp = fmt.Sprintf("%T", err)
		e := failure(o.FailErr)
		r.IsInj = errors.Is(err, e) || strings.Contains(err.Error(), e.Error())
	}
	r.Nil = v == nil
	if v != nil {
		r.Type = fmt.Sprintf("%T", v)
		r.Dump = dump(v)
		if c, ok := v.(ast.Config); ok && !o.Quiet {
			r.Str = c.String()
		}
	}
	if o.Stats {
		b, _ := json.Marshal(st.ChoiceAltCnt)
		r.Stats = fmt.Sprintf("%d %s", st.ExprCnt, b)
	}
	if o.Scribble && in != nil {
		for i := range in {
			in[i] = '#'
		}
		r.Scribbled = v != nil && dump(v) != r.Dump || err != nil && err.Error() != r.Err
		if s, ok := config.GetFarthestFailure(); !o.Mutate && len(theCase.Threads) == 1 && (s != r.FF || ok != r.HasFF) {
			r.Scribbled = true
		}
	}
	if o.Mutate && v != nil {
		if c, ok := v.(ast.Config); ok {
			if o.Ask {
				inspect(&strings.Builder{}, reflect.ValueOf(c), 0)
			}
			addIDs(c, o.Quiet, len(o.Content)+1000*o.N)
			if !o.Keep {
				changeIDs(c)
			}
			var sb strings.Builder
			inspect(&sb, reflect.ValueOf(c), 0)
			r.Fixed = c.String() + sb.String()
			if !o.Keep {
				wreck(reflect.ValueOf(&c), 0)
			}
			v = c
			r.Dump = dump(v)
		}
	}
	return v, err
}

func thread(i int, wg *sync.WaitGroup) {
	defer wg.Done()
	rt.Enter(i)
	for j := range theCase.Threads[i] {
		rt.H()
		k := &kept[i][j]
		k.v, k.err = do(&theCase.Threads[i][j], &results[i][j])
	}
	rt.Leave(i)
}

func emit(o outT) {
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "libsim:", err)
		os.Exit(70)
	}
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

func main() {
	if err := json.NewDecoder(os.Stdin).Decode(&theCase); err != nil {
		fmt.Fprintln(os.Stderr, "libsim:", err)
		os.Exit(70)
	}
	c := &theCase
	var before string
	if c.Shared != "" {
		text, mod := c.Shared, uint64(0)
		if m, t, ok := strings.Cut(text, "\x00"); ok {
			if n, err := strconv.ParseUint(m, 10, 64); err == nil {
				mod, text = n, t
			}
		}
		var err error
		shared, err = config.Parse("shared", []byte(text))
		if err != nil {
			fmt.Fprintln(os.Stderr, "libsim: shared:", err)
			os.Exit(70)
		}
		if conf, ok := shared.(ast.Config); ok && mod != 0 {
			decorate(reflect.ValueOf(&conf).Elem(), &mod, 0)
			shared = conf
		}
		before = dump(shared)
	}
	if c.Grow != nil {
		emit(outT{Marks: grow(c.Grow, c.Threads[0])})
	}
	share(c)
	results = make([][]resT, len(c.Threads))
	kept = make([][]keptT, len(c.Threads))
	for i := range c.Threads {
		results[i] = make([]resT, len(c.Threads[i]))
		kept[i] = make([]keptT, len(c.Threads[i]))
	}
	cfg := rt.Config{Threads: len(c.Threads), Seed: c.Seed, Mean: c.Mean, HotN: c.HotN, Limit: c.Limit, Explicit: c.Explicit}
	for _, p := range c.Plan {
		cfg.Plan = append(cfg.Plan, rt.Rec{Step: p[0], To: uint32(p[1])})
	}
	var ffs []string
	if c.Watch {
		// Somebody else looks, who may have to wait for the thread that is
		// looked at.
		var busy atomic.Bool
		look := make(chan bool, 1)
		go func() {
			for range look {
				func() {
					defer func() { recover() }()
					s, _ := config.GetFarthestFailure()
					ffs = remember(ffs, s)
				}()
				busy.Store(false)
			}
		}()
		cfg.Watch = func() {
			if busy.Load() {
				return
			}
			busy.Store(true)
			look <- true
			for i := 0; i < 40 && busy.Load(); i++ {
				runtime.Gosched()
			}
		}
	}
	switch c.Pool {
	case "lifo":
		sync.VerifPool = func(n int) int { return n - 1 }
	case "random":
		sync.VerifPool = func(n int) int { return int(rt.Rnd()%uint64(n+1)) - 1 }
	default:
		sync.VerifPool = func(n int) int { return -1 }
	}
	rt.Abort = func(kind string) {
		emit(outT{Verdict: kind, Steps: rt.Steps(), Switches: switches()})
	}
	sync.VerifBlock = rt.Block
	var wg sync.WaitGroup
	wg.Add(len(c.Threads))
	rt.Start(cfg)
	for i := range c.Threads {
		go thread(i, &wg)
	}
	rt.Wait(c.First % len(c.Threads))
	sync.VerifBlock = nil
	wg.Wait()
	for i := range kept {
		for j, k := range kept[i] {
			r := &results[i][j]
			if k.v != nil {
				if d := dump(k.v); d != r.Dump {
					r.Later = d
				}
			}
			if k.err != nil {
				if s := k.err.Error(); s != r.Err {
					r.Later = "error: " + s
				}
			}
		}
	}
	for s, b := range sharedIn {
		if string(b) != s {
			results[0][0].Later = "the input of a call was changed: " + fmt.Sprintf("%.60q", s)
		}
	}
	for i := 0; i < 1000 && c.Watch; i++ {
		runtime.Gosched() // the last look comes to its end
	}
	o := outT{Res: results, Steps: rt.Steps(), Switches: switches(), FFs: ffs}
	if c.Shared != "" {
		if d := dump(shared); d != before {
			o.Shared = d
		}
	}
	emit(o)
}

func switches() [][2]uint64 {
	var out [][2]uint64
	for _, s := range rt.Switches() {
		out = append(out, [2]uint64{s.Step, uint64(s.To)})
	}
	return out
}
