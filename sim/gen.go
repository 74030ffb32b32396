package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Configuration files, generated. Whether one is valid, and what it is
// formatted to, is never assumed: the library of the tree under test says so,
// in a process of its own.

type cfgGen struct {
	r      *rng
	depth  int
	ids    int
	idP    int // per cent of plugins with an id
	cmt    int // per cent of places with a comment
	wild   bool
	oddIDs bool
}

var pluginNames = []string{"stdin", "stdout", "file", "beats", "tcp", "udp", "http", "kafka", "grok", "mutate", "date", "geoip", "drop", "json", "kv", "elasticsearch", "redis", "translate", "ruby", "dissect"}
var attrNames = []string{"port", "host", "path", "codec", "match", "add_field", "remove_field", "type", "tags", "index", "timeout", "target", "source", "ssl", "format"}
var words = []string{"alpha", "beta", "gamma", "delta", "rubydebug", "json_lines", "plain", "utf-8", "message", "host", "status", "level", "zeta"}

func (g *cfgGen) ws() string {
	if g.wild && g.r.p(1, 12) {
		return pick(g.r, []string{" # it's \"here\n", "\r\n", "\n#\n#x\r\n", "\n\n\n", " #\n", "\n # {[(\n\t", "  \t  \n"})
	}
	return pick(g.r, []string{" ", " ", " ", "\n", "\n\t", "  ", "\n  ", "\t"})
}

func (g *cfgGen) ows() string {
	if g.r.p(1, 2) {
		return ""
	}
	return g.ws()
}

func (g *cfgGen) comment() string {
	if g.r.n(100) >= g.cmt {
		return ""
	}
	n := 1 + g.r.n(3)
	s := "\n"
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("# %s %d\n", pick(g.r, words), g.r.n(1000))
		if g.r.p(1, 3) {
			s += "\n"
		}
	}
	return s
}

func (g *cfgGen) str() string {
	w := pick(g.r, words)
	if g.wild && g.r.p(1, 4) {
		return pick(g.r, []string{`""`, `''`, "\"two\nlines\"", "'a\n\n  # no comment\n}'", "\"\\\"\"", `"\\n"`, `"a\'b"`, `'it\'s'`, "\"\t\"", "\"\x01\x7f\"", "\"\u2028\u00a0\"", "\"\r\n\"",
			"\"" + strings.Repeat(w+" ", 200) + "\"", `"%%s %d %!v(MISSING)"`, `"$(id) ${HOME}"`})
	}
	switch g.r.n(6) {
	case 0:
		return fmt.Sprintf("%q", w+" "+pick(g.r, words))
	case 1:
		return "'" + w + "'"
	case 2:
		return fmt.Sprintf("\"%s-%d\"", w, g.r.n(10000))
	case 3:
		return `"%{[` + w + `]} \"q\" \\d+"`
	case 4:
		return "'it is \"" + w + "\" \u00e9\u4e16'"
	default:
		return `"` + w + `"`
	}
}

func (g *cfgGen) value(d int) string {
	switch x := g.r.n(10); {
	case x < 4:
		return g.str()
	case x < 5:
		if g.wild {
			return pick(g.r, []string{"0", "-1", "007", "1.", "-0.50", "3.14159265358979", "123456789012", "1.0"})
		}
		return fmt.Sprint(g.r.n(70000))
	case x < 6:
		return fmt.Sprintf("%d.%d", g.r.n(100), 1+g.r.n(9))
	case x < 7:
		return pick(g.r, []string{"true", "false", "plain", "rubydebug"})
	case x < 8 && d > 0:
		n := g.r.n(4)
		var vs []string
		for i := 0; i < n; i++ {
			vs = append(vs, g.ows()+g.value(d-1)+g.ows())
		}
		return "[" + strings.Join(vs, ",") + "]"
	case x < 9 && d > 0:
		n := g.r.n(4)
		s := "{" + g.ws()
		for i := 0; i < n; i++ {
			s += g.str() + " => " + g.value(d-1) + g.ws()
		}
		return s + "}"
	case d > 0:
		return pick(g.r, pluginNames) + g.ows() + "{" + g.ws() + g.attrs(g.r.n(3), d-1, false) + "}"
	}
	return g.str()
}

// id: mostly one of its own; now and then one that looks like those lint
// makes up, is not a string, is empty or needs quoting.
func (g *cfgGen) id() string {
	if g.oddIDs {
		switch g.r.n(6) {
		case 0, 1:
			return fmt.Sprintf("\"%s-%d\"", pick(g.r, pluginNames), 1+g.r.n(6))
		case 2:
			return pick(g.r, []string{"7", "1.5", "[\"a\"]", "{ \"a\" => \"b\" }"})
		case 3:
			return pick(g.r, []string{"\"\"", "''", fmt.Sprintf("bare%d", g.ids), fmt.Sprintf("'say \"%d\"'", g.ids)})
		}
	}
	return fmt.Sprintf("\"id_%d\"", g.ids)
}

func (g *cfgGen) attrs(n, d int, id bool) string {
	s := ""
	idAt := -1
	if id {
		idAt = g.r.n(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == idAt {
			g.ids++
			s += "id => " + g.id() + g.ws()
		}
		if i == n {
			break
		}
		s += g.comment()
		s += pick(g.r, attrNames) + g.ows() + "=>" + g.ows() + g.value(d) + g.ws()
	}
	return s
}

func (g *cfgGen) plugin() string {
	name := pick(g.r, pluginNames)
	if g.wild && g.r.p(1, 8) {
		name = pick(g.r, []string{"\"" + name + "\"", "'" + name + "'", "\"a \\\" b\"", "'say \"x\"'", "9", "-", "if", "\"\""})
	}
	return g.comment() + name + g.ows() + "{" + g.ws() + g.attrs(g.r.n(4), 2, g.r.n(100) < g.idP) + "}" + g.ws()
}

func (g *cfgGen) sel() string {
	s := "[" + pick(g.r, words) + "]"
	if g.wild && g.r.p(1, 8) {
		s = pick(g.r, []string{"[it's]", "[a\"b]", "[a/b]", "[# x]", "[@metadata][it's a long \"name\"]", "[a b]", "[a\nb]"})
	}
	if g.r.p(1, 3) {
		s += "[" + pick(g.r, words) + "]"
	}
	return s
}

func (g *cfgGen) cond(d int) string {
	if d > 0 && g.r.p(1, 3) {
		return g.cond(d-1) + " " + pick(g.r, []string{"and", "or", "xor", "nand"}) + " " + g.cond(d-1)
	}
	switch g.r.n(7) {
	case 0:
		return g.sel() + " == " + g.str()
	case 1:
		return g.sel() + " in [" + g.str() + ", " + g.str() + "]"
	case 2:
		return g.str() + " not in " + g.sel()
	case 3:
		if g.wild {
			return g.sel() + pick(g.r, []string{" =~ ", " !~ "}) + pick(g.r, []string{`/don't/`, `/^\/var\/log/`, `/a"b"c"/`, `/#[^\d]{3}/`, `"^x$"`, "/two\nlines/", `/\\"'/`})
		}
		return g.sel() + " =~ /" + pick(g.r, words) + "[a-z]+/"
	case 4:
		return "!(" + g.sel() + " != " + fmt.Sprint(g.r.n(500)) + ")"
	case 5:
		return "(" + g.cond(0) + ")"
	default:
		return g.sel()
	}
}

func (g *cfgGen) block(d int) string {
	s := ""
	n := g.r.n(3)
	for i := 0; i < n; i++ {
		if d > 0 && g.r.p(1, 3) {
			s += g.branch(d - 1)
		} else {
			s += g.plugin()
		}
	}
	return s
}

func (g *cfgGen) branch(d int) string {
	s := g.comment() + "if " + g.cond(1) + " {" + g.ws() + g.block(d) + "}" + g.ws()
	for i := g.r.n(3); i > 0; i-- {
		s += "else if " + g.cond(1) + " {" + g.ws() + g.block(d) + "}" + g.ws()
	}
	if g.r.p(1, 2) {
		s += "else {" + g.ws() + g.block(d) + "}" + g.ws()
	}
	return s
}

func (g *cfgGen) config(size int) string {
	s := g.comment()
	for i := 0; i < size; i++ {
		kind := pick(g.r, []string{"input", "filter", "output"})
		s += kind + g.ws() + "{" + g.ws()
		n := 1 + g.r.n(3)
		for j := 0; j < n; j++ {
			if kind != "input" && g.r.p(1, 3) || g.r.p(1, 8) {
				s += g.branch(2)
			} else {
				s += g.plugin()
			}
		}
		s += "}" + g.ws()
	}
	return s + g.comment()
}

var oneID = regexp.MustCompile(`id => "id_[0-9]+"[ \t\n]`)

// lone is a configuration in which one single plugin has no id, or shares one,
// among several sections, often of one kind.
func (g *cfgGen) lone(size int) string {
	g.idP, g.oddIDs = 100, false
	kind := pick(g.r, []string{"", "input", "filter", "output"})
	s := ""
	for i := 0; i < size; i++ {
		t := g.config(1)
		if kind != "" {
			t = regexp.MustCompile(`(?m)^(input|filter|output)\b`).ReplaceAllString(t, kind)
		}
		s += "\n" + t
	}
	at := oneID.FindAllStringIndex(s, -1)
	if len(at) == 0 {
		return s
	}
	x, with := pick(g.r, at), ""
	if g.r.p(1, 2) {
		y := pick(g.r, at)
		with = s[y[0]:y[1]]
	}
	return s[:x[0]] + with + s[x[1]:]
}

// crlf is the text as another system writes it.
func crlf(r *rng, s string) string {
	if r.p(1, 2) {
		s = strings.ReplaceAll(s, "\"", "'")
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
}

// breakIt damages a valid configuration.
func breakIt(r *rng, s string) string {
	if len(s) < 4 {
		return "input { \"x"
	}
	switch r.n(8) {
	case 0:
		return s[:1+r.n(len(s)-1)]
	case 1: // drop one structural character
		for try := 0; try < 50; try++ {
			i := r.n(len(s))
			if strings.IndexByte("{}=>[]\"(),", s[i]) >= 0 {
				return s[:i] + s[i+1:]
			}
		}
		return s[:len(s)/2]
	case 2:
		i := r.n(len(s))
		return s[:i] + pick(r, []string{"}", "{", "=>", "\"", "]", "((", "\x00", "$"}) + s[i:]
	case 3:
		return s + "\nfilter {"
	case 4:
		return s + "\noutput { stdout { codec => } }"
	case 5:
		i := strings.LastIndex(s, "}")
		if i > 0 {
			return s[:i] + s[i+1:]
		}
		return "filter {"
	case 6:
		return strings.Replace(s, "=>", "=", 1)
	default:
		return "inputs { stdin {} }\n" + s
	}
}

// item is one configuration of the corpus together with what the library says
// about it.
type item struct {
	Name       string
	Content    string
	Valid      bool
	Formatted  string
	Idempotent bool
	NoIDs      int // plugins without an id, or with one that is not a string
	Fixable    int // those without an id
	Dups       int
	Warns      int
}

func genContents(r *rng, n int) []string {
	out := []string{
		"input { stdin {} }\noutput { stdout { codec => rubydebug } }\n",
		"input { stdin { id => \"in\" } }\n",
		"filter { mutate { add_field => { \"a\" => \"b\" } } }",
		"",
		"# only a comment\n",
		"input { stdin { } } filter { if [a] == \"b\" { drop { } } else { mutate { id => 'm' } } } output { stdout { id => dup } file { id => dup path => \"/x\" } }",
		"input { stdin { port => } }",
		"filter { if [a] { drop {} }",
		"input {\n  stdin {\n    codec => \"unterminated\n  }\n}\n",
		"output { elasticsearch { hosts => [\"a\", \"b\" ",
		"filter { drop { } drop { id => \"drop-1\" } drop { } drop { id => \"drop-6\" } drop { id => 'x' } drop { } }",
		"filter { drop { id => \"drop-2\" } drop { } drop { id => \"drop-3\" } }\n",
		"input { stdin { id => 7 } tcp { } } output { stdout { id => [\"a\"] } }\n",
		"input { stdin { id => 7 } }\n",
	}
	out = append(out, libWarny...)
	// several ids, each used more than once, and many that are missing
	for i := 0; i < 3; i++ {
		var ids []string
		for j := 2 + r.n(5); j > 0; j-- {
			for k := 2 + r.n(2); k > 0; k-- {
				ids = append(ids, fmt.Sprintf("id => \"dup %d\"", j))
			}
		}
		for k := r.n(4); k > 0; k-- {
			ids = append(ids, "")
		}
		for k := len(ids) - 1; k > 0; k-- {
			j := r.n(k + 1)
			ids[k], ids[j] = ids[j], ids[k]
		}
		s := "filter {\n"
		for _, id := range ids {
			p := pick(r, pluginNames) + " { " + id + " }"
			if r.p(1, 4) {
				p = "if [" + pick(r, words) + "] { " + p + " }"
			}
			s += p + "\n"
		}
		out = append(out, s+"}\n")
	}
	for i := len(out); i < n; i++ {
		g := &cfgGen{r: r, idP: pick(r, []int{0, 50, 90, 100, 100}), cmt: pick(r, []int{0, 0, 10, 30}), oddIDs: r.p(1, 5), wild: r.p(1, 4)}
		size := 1 + r.n(3)
		switch r.n(12) {
		case 0:
			size = 6
		case 1:
			size = 15
		}
		s := g.config(size)
		if i%6 == 4 {
			s = g.lone(2 + r.n(4))
		}
		if r.p(1, 12) {
			s = crlf(r, s)
		}
		if i%6 != 4 && r.p(1, 3) {
			s = breakIt(r, s)
		}
		out = append(out, s)
	}
	// two that are larger than any buffer in the way: several pages, and more
	// than 64 KiB
	g := &cfgGen{r: r, idP: 50, cmt: 5}
	big := ""
	for len(big) < 9000 {
		big += g.config(1) + "\n"
	}
	out = append(out, big)
	return out
}
