// Command drv drives the library of the tree under test with a script. As an
// oracle it runs in a fresh process on real standard streams; under the
// simulated kernel its files are simulated ones.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

type op struct {
	Op      string `json:"op"`
	Name    string `json:"name,omitempty"`
	Content string `json:"content,omitempty"`
	Other   string `json:"other,omitempty"`
	Ignore  bool   `json:"ignore,omitempty"`
	Warn    bool   `json:"warn,omitempty"`
	Max     uint64 `json:"max,omitempty"`
	NoRec   bool   `json:"norec,omitempty"`
	Skip    int    `json:"skip,omitempty"`
}

// Contents that are no UTF-8 come in base64.
func dec(s string) string {
	if t, ok := strings.CutPrefix(s, "\x00base64:"); ok {
		if b, err := base64.StdEncoding.DecodeString(t); err == nil {
			return string(b)
		}
	}
	return s
}

func (o *op) UnmarshalJSON(b []byte) error {
	type plain op
	err := json.Unmarshal(b, (*plain)(o))
	o.Content, o.Other = dec(o.Content), dec(o.Other)
	return err
}

type res struct {
	Ok    bool   `json:"ok"`
	Str   string `json:"str,omitempty"`
	Err   string `json:"err,omitempty"`
	FF    string `json:"ff,omitempty"`
	HasFF bool   `json:"has_ff,omitempty"`
	Panic string `json:"panic,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
	Warns int    `json:"warns,omitempty"`
	Noid  int    `json:"noid,omitempty"`
	Odd   int    `json:"odd,omitempty"`
	Dups  int    `json:"dups,omitempty"`
}

func opts(o op) []config.Option {
	var out []config.Option
	if o.Ignore {
		out = append(out, config.IgnoreComments(true))
	}
	if o.Warn {
		out = append(out, config.ExceptionalCommentsWarning(true))
	}
	if o.Max > 0 {
		out = append(out, config.MaxExpressions(o.Max))
	}
	if o.NoRec {
		out = append(out, config.Recover(false))
	}
	return out
}

func do(o op) (r res) {
	defer func() {
		if p := recover(); p != nil {
			r = res{Panic: fmt.Sprint(p)}
		}
	}()
	var v interface{}
	var err error
	switch o.Op {
	case "parse":
		v, err = config.Parse(o.Name, []byte(o.Content), opts(o)...)
	case "parsefile":
		v, err = config.ParseFile(o.Name, opts(o)...)
	case "parseopen":
		f, oerr := os.Open(o.Name)
		if oerr != nil {
			err = oerr
			break
		}
		defer f.Close()
		if n, rerr := io.ReadFull(f, make([]byte, o.Skip)); rerr != nil && !(n < o.Skip && (rerr == io.EOF || rerr == io.ErrUnexpectedEOF)) {
			err = rerr
			break
		}
		v, err = config.ParseReader(o.Name, f, opts(o)...)
	case "reader":
		v, err = config.ParseReader(o.Name, strings.NewReader(o.Content), opts(o)...)
	case "write":
		name := o.Name
		if o.Other == "rename" {
			name = filepath.Join(filepath.Dir(name), "new~")
		}
		err = os.WriteFile(name, []byte(o.Content), 0o644)
		if err == nil && name != o.Name {
			err = os.Rename(name, o.Name)
		}
		if err != nil {
			return res{Err: err.Error()}
		}
		return res{}
	case "validatefix":
		return validateFix(o.Content, o.Other)
	}
	r.Nil = v == nil
	if err != nil {
		r.Err = err.Error()
	}
	r.FF, r.HasFF = config.GetFarthestFailure()
	if c, ok := v.(ast.Config); ok {
		r.Ok = err == nil
		r.Str = c.String()
		r.Warns = len(c.Warnings)
		lack, odd := missing(c)
		r.Noid = len(lack) + len(odd)
		r.Odd = len(odd)
		r.Dups = dups(c)
	}
	return r
}

func each(c ast.Config, f astutil.ApplyPluginsFunc) {
	for i := range c.Input {
		astutil.ApplyPlugins(c.Input[i].BranchOrPlugins, f)
	}
	for i := range c.Filter {
		astutil.ApplyPlugins(c.Filter[i].BranchOrPlugins, f)
	}
	for i := range c.Output {
		astutil.ApplyPlugins(c.Output[i].BranchOrPlugins, f)
	}
}

// missing: the plugins that have no id at all, and those whose id is not a
// string (which lint cannot fix).
func missing(c ast.Config) (lack, odd map[int]bool) {
	lack, odd = map[int]bool{}, map[int]bool{}
	n := 0
	each(c, func(cu *astutil.Cursor) {
		if _, err := cu.Plugin().ID(); err != nil {
			lack[n] = true
			for _, a := range cu.Plugin().Attributes {
				if a != nil && a.Name() == "id" {
					odd[n] = true
					delete(lack, n)
				}
			}
		}
		n++
	})
	return lack, odd
}

// dups counts the plugins whose id another plugin has already.
func dups(c ast.Config) int {
	seen := map[string]bool{}
	n := 0
	each(c, func(cu *astutil.Cursor) {
		if id, err := cu.Plugin().ID(); err == nil {
			if seen[id] {
				n++
			}
			seen[id] = true
		}
	})
	return n
}

// noBlank drops empty lines: layout, and not always stable.
func noBlank(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// validateFix: fixed must parse, give every plugin an id, and be the old
// configuration once the added ids are taken away again.
func validateFix(old, fixed string) (r res) {
	v1, err := config.Parse("old", []byte(old))
	if err != nil {
		return res{Err: "old: " + err.Error()}
	}
	v2, err := config.Parse("fixed", []byte(fixed))
	if err != nil {
		return res{Err: "the rewritten file does not parse: " + err.Error()}
	}
	c1, c2 := v1.(ast.Config), v2.(ast.Config)
	lacking, odd := missing(c1)
	lack2, odd2 := missing(c2)
	if len(lack2) != 0 {
		return res{Err: fmt.Sprintf("%d plugins without id after the fix", len(lack2))}
	}
	if len(odd2) != len(odd) {
		return res{Err: fmt.Sprintf("%d ids that are not strings after the fix, %d before", len(odd2), len(odd))}
	}
	if a, b := dups(c1), dups(c2); a != b {
		return res{Err: fmt.Sprintf("%d plugins with an id in use after the fix, %d before", b, a)}
	}
	n := 0
	each(c2, func(cu *astutil.Cursor) {
		if lacking[n] {
			p := cu.Plugin()
			var as []ast.Attribute
			dropped := false
			for i := len(p.Attributes) - 1; i >= 0; i-- {
				if !dropped && p.Attributes[i].Name() == "id" {
					dropped = true
					continue
				}
				as = append([]ast.Attribute{p.Attributes[i]}, as...)
			}
			p.Attributes = as
			cu.Replace(p)
		}
		n++
	})
	if noBlank(c1.String()) != noBlank(c2.String()) {
		return res{Err: "the rewritten file is not the old configuration plus ids"}
	}
	return res{Ok: true, Str: fmt.Sprint(len(lacking))}
}

func main() {
	var ops []op
	script := ""
	for i := 0; os.Getenv(fmt.Sprintf("VERIF_SCRIPT%d", i)) != ""; i++ {
		script += os.Getenv(fmt.Sprintf("VERIF_SCRIPT%d", i))
	}
	var err error
	if script != "" {
		err = json.Unmarshal([]byte(script), &ops)
	} else {
		err = json.NewDecoder(os.Stdin).Decode(&ops)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(70)
	}
	var out []res
	for _, o := range ops {
		out = append(out, do(o))
	}
	b, err := json.Marshal(out)
	if err != nil {
		os.Exit(70)
	}
	os.Stdout.Write(append(b, '\n'))
}
