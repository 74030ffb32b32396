package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const rtImport = "github.com/breml/logstash-config/internal/verifsim/rt"

// instrument lays over every library package of the tree under test a copy in
// which each statement is preceded by a yield point. Line numbers stay as they
// are.
func (b *builder) instrument() (pkgs, yields int, err error) {
	out, err := goCmd(b.repo, "list", "-json=Dir,Name,ImportPath,GoFiles", "./...").Output()
	if err != nil {
		return 0, 0, fmt.Errorf("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for dec.More() {
		var p struct {
			Dir, Name, ImportPath string
			GoFiles               []string
		}
		if err := dec.Decode(&p); err != nil {
			return 0, 0, err
		}
		if p.Name == "main" {
			continue
		}
		pkgs++
		n, err := b.instrumentPkg(p.Dir, p.GoFiles)
		if err != nil {
			return 0, 0, err
		}
		yields += n
	}
	return pkgs, yields, nil
}

type insertion struct {
	off  int
	text string
}

func (b *builder) instrumentPkg(dir string, files []string) (int, error) {
	fset := token.NewFileSet()
	var asts []*ast.File
	var srcs [][]byte
	globals := map[string]bool{}
	for _, f := range files {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return 0, err
		}
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), src, parser.ParseComments)
		if err != nil {
			return 0, err
		}
		asts, srcs = append(asts, a), append(srcs, src)
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if !strings.HasPrefix(n.Name, "err") {
							globals[n.Name] = true
						}
					}
				}
			}
		}
	}
	total := 0
	for i, a := range asts {
		var ins []insertion
		file := fset.File(a.Pos())
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				// a position set by a //line directive must not be trusted
				off := file.Offset(s.Pos())
				call := "verifrt.Y();"
				if hot(s, globals) {
					call = "verifrt.H();"
				}
				ins = append(ins, insertion{off, call})
			}
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && (fd.Body == nil || marked(fd)) {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.ForStmt:
					if len(x.Body.List) == 0 {
						ins = append(ins, insertion{file.Offset(x.Body.Lbrace) + 1, "verifrt.Y();"})
					}
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
		}
		if len(ins) == 0 {
			continue
		}
		total += len(ins)
		ins = append(ins, insertion{file.Offset(a.Name.End()), "; import verifrt \"" + rtImport + "\""})
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
		var sb strings.Builder
		last := 0
		for _, x := range ins {
			sb.Write(srcs[i][last:x.off])
			sb.WriteString(x.text)
			last = x.off
		}
		sb.Write(srcs[i][last:])
		if err := b.put(filepath.Join(dir, files[i]), []byte(sb.String())); err != nil {
			return 0, err
		}
	}
	return total, nil
}

func marked(fd *ast.FuncDecl) bool {
	if fd.Doc == nil {
		return false
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
			return true
		}
	}
	return false
}

// hot: the statement itself (not the blocks in it) mentions a package-level
// variable.
func hot(s ast.Stmt, globals map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if globals[x.Name] && (x.Obj == nil || x.Obj.Kind == ast.Var && isTop(x.Obj)) {
				found = true
			}
		}
		return !found
	})
	return found
}

func isTop(o *ast.Object) bool {
	_, ok := o.Decl.(*ast.ValueSpec)
	return ok
}

// patchSync makes locks and pools of package sync obey the simulator.
func (b *builder) patchSync() error {
	if err := b.patchStd("sync/mutex.go",
		repl{"func (m *Mutex) Lock() {\n\tm.mu.Lock()\n}", `func (m *Mutex) Lock() {
	if h := VerifBlock; h != nil {
		for !m.mu.TryLock() {
			if !h() {
				m.mu.Lock()
				return
			}
		}
		return
	}
	m.mu.Lock()
}

// VerifBlock is called by a goroutine that cannot go on; it returns false if
// the goroutine is not under the simulator's control.
var VerifBlock func() bool

// VerifPool decides what a pool's Get hands out: -1 nothing, otherwise the
// index of one of n free objects.
var VerifPool func(n int) int
`},
	); err != nil {
		return err
	}
	if err := b.patchStd("sync/rwmutex.go",
		repl{"type RWMutex struct {\n", "type RWMutex struct {\n\tverifWriters int\n"},
		repl{"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	if h := VerifBlock; h != nil {
		for rw.verifWaiting(0) || !rw.TryRLock() {
			if !h() {
				rw.verifRLock()
				return
			}
		}
		return
	}
	rw.verifRLock()
}

func (rw *RWMutex) verifRLock() {
`},
		repl{"func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	if h := VerifBlock; h != nil {
		if rw.TryLock() {
			return
		}
		// a waiting writer keeps new readers out
		rw.verifWaiting(1)
		for !rw.TryLock() {
			if !h() {
				rw.verifWaiting(-1)
				rw.verifLock()
				return
			}
		}
		rw.verifWaiting(-1)
		return
	}
	rw.verifLock()
}

//go:norace
func (rw *RWMutex) verifWaiting(d int) bool {
	rw.verifWriters += d
	return rw.verifWriters > 0
}

func (rw *RWMutex) verifLock() {
`},
	); err != nil {
		return err
	}
	return b.patchStd("sync/pool.go",
		repl{"func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n", `func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if VerifPool != nil {
		if race.Enabled {
			race.ReleaseMerge(poolRaceAddr(x))
		}
		p.verifPut(x)
		return
	}
`},
		repl{"func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if VerifPool != nil {
		x := p.verifGet()
		if x != nil && race.Enabled {
			race.Acquire(poolRaceAddr(x))
		}
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
`},
		repl{"type Pool struct {\n\tnoCopy noCopy\n", "type Pool struct {\n\tnoCopy noCopy\n\n\tverifFree [8]any\n\tverifN    int\n"},
		repl{"func runtime_randn(n uint32) uint32\n", `func runtime_randn(n uint32) uint32

//go:norace
func (p *Pool) verifPut(x any) {
	if p.verifN < len(p.verifFree) {
		p.verifFree[p.verifN] = x
		p.verifN++
	}
}

//go:norace
func (p *Pool) verifGet() any {
	i := -1
	if p.verifN > 0 {
		i = VerifPool(p.verifN)
	}
	if i < 0 {
		return nil
	}
	x := p.verifFree[i]
	p.verifN--
	p.verifFree[i] = p.verifFree[p.verifN]
	p.verifFree[p.verifN] = nil
	return x
}
`},
	)
}
