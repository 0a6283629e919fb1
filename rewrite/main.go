// Command verifrewrite instruments a scratch copy of the repository for the controlled scheduler: it
// replaces every go statement, lock, wait group, channel operation, atomic operation and CPU-count query
// of the copy's non-test packages by calls of verifmc/vsched.
//
//	verifrewrite DIR    (DIR: the copy; the go command must be able to list it)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, CgoFiles             []string
	Standard                      bool
	Module                        *struct{ Main bool }
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rw struct {
	src   []byte
	file  *ast.File
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	used  bool
	uses  map[*ast.ImportSpec][2]int // total, replaced
	pk    *types.Package
	stats map[string]int
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rw) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rw) put(a, b int, s string) {
	r.edits = append(r.edits, edit{a, b, s, len(r.edits)})
	r.used = true
}

func (r *rw) pkgName(e ast.Expr) (string, string, *ast.Ident) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", "", nil
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", "", nil
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", "", nil
	}
	return pn.Imported().Path(), s.Sel.Name, id
}

func (r *rw) isChan(e ast.Expr) (*types.Chan, bool) {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true, "Locker": true}

func (r *rw) rewrite() {
	recv2 := map[*ast.UnaryExpr]bool{}
	skip := map[ast.Node]bool{}
	nsel := 0
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil || skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := isRecv(n.Rhs[0]); ok {
					recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := isRecv(n.Values[0]); ok {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				f := "vsched.Recv("
				if recv2[n] {
					f = "vsched.Recv2("
				}
				r.put(r.off(n.OpPos), r.off(n.X.Pos()), f)
				r.put(r.off(n.End()), r.off(n.End()), ")")
				r.stats["recv"]++
			}
		case *ast.SendStmt:
			r.put(r.off(n.Pos()), r.off(n.Pos()), "vsched.Send(")
			r.put(r.off(n.Chan.End()), r.off(n.Value.Pos()), ")(")
			r.put(r.off(n.End()), r.off(n.End()), ")")
			r.stats["send"]++
		case *ast.RangeStmt:
			if _, ok := r.isChan(n.X); ok {
				id, isID := n.Key.(*ast.Ident)
				x := r.text(n.X)
				_ = x
				start, xpos, xend := r.off(n.For), r.off(n.X.Pos()), r.off(n.X.End())
				switch {
				case n.Key == nil || isID && id.Name == "_":
					r.put(start, xpos, "for vschedR := vsched.Range1(")
					r.put(xend, xend, "); vschedR.Next(nil); ")
				case n.Tok == token.DEFINE:
					r.put(start, xpos, "for vschedR, "+id.Name+" := vsched.Range2(")
					r.put(xend, xend, "); vschedR.Next(&"+id.Name+"); ")
				default:
					r.put(start, xpos, "for vschedR := vsched.Range1(")
					r.put(xend, xend, "); vschedR.Next(&("+r.text(n.Key)+")); ")
				}
				if n.Key != nil {
					skip[n.Key] = true
				}
				r.stats["range"]++
			}
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SelectStmt:
			nsel++
			r.selectStmt(n, skip)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "close":
						r.put(r.off(id.Pos()), r.off(id.End()), "vsched.Close")
						r.stats["close"]++
					case "make":
						r.makeChan(n)
					}
				}
			}
		case *ast.SelectorExpr:
			path, name, id := r.pkgName(n)
			if id == nil {
				break
			}
			spec := r.specOf(id)
			c := r.uses[spec]
			c[0]++
			to := ""
			switch {
			case path == "sync" && syncNames[name]:
				to = "vsched." + name
			case path == "runtime" && (name == "NumCPU" || name == "GOMAXPROCS"):
				to = "vsched." + name
			case path == "runtime" && name == "Gosched":
				to = "vsched.Point"
			case path == "time" && name == "Sleep":
				to = "vsched.Sleep"
			}
			if to != "" {
				c[1]++
				r.put(r.off(n.Pos()), r.off(n.End()), to)
				r.stats[path+"."+name]++
			}
			r.uses[spec] = c
		}
		return true
	})
	for _, s := range r.file.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if p == "sync/atomic" {
			name := "atomic"
			if s.Name != nil {
				name = s.Name.Name
			}
			r.put(r.off(s.Pos()), r.off(s.End()), name+` "verifmc/vsched/vatomic"`)
			r.stats["sync/atomic"]++
			continue
		}
		if c := r.uses[s]; c[0] > 0 && c[0] == c[1] {
			r.put(r.off(s.Pos()), r.off(s.End()), "_ "+s.Path.Value)
		}
	}
}

func (r *rw) specOf(id *ast.Ident) *ast.ImportSpec {
	pn := r.info.Uses[id].(*types.PkgName)
	for _, s := range r.file.Imports {
		if r.info.Implicits[s] == types.Object(pn) || (s.Name != nil && r.info.Defs[s.Name] == types.Object(pn)) {
			return s
		}
	}
	return nil
}

func (r *rw) qual(p *types.Package) string {
	if p == r.pk {
		return ""
	}
	for _, s := range r.file.Imports {
		if path, _ := strconv.Unquote(s.Path.Value); path == p.Path() {
			if s.Name != nil {
				return s.Name.Name
			}
		}
	}
	return p.Name()
}

func (r *rw) makeChan(n *ast.CallExpr) {
	ch, ok := r.isChan(n)
	if !ok || len(n.Args) == 0 {
		return
	}
	r.stats["make"]++
	t0 := n.Args[0]
	if ct, ok := t0.(*ast.ChanType); ok {
		r.put(r.off(n.Pos()), r.off(ct.Value.Pos()), "vsched.MakeChan[")
		if len(n.Args) > 1 {
			r.put(r.off(ct.Value.End()), r.off(n.Args[1].Pos()), "](int(")
			r.put(r.off(n.Args[1].End()), r.off(n.Args[1].End()), ")")
		} else {
			r.put(r.off(ct.Value.End()), r.off(ct.Value.End()), "](")
		}
		return
	}
	el := types.TypeString(ch.Elem(), r.qual)
	pre := r.text(t0) + "(vsched.MakeChan[" + el + "]("
	if len(n.Args) > 1 {
		r.put(r.off(n.Pos()), r.off(n.Args[1].Pos()), pre+"int(")
		r.put(r.off(n.Args[1].End()), r.off(n.Args[1].End()), "))")
	} else {
		r.put(r.off(n.Pos()), r.off(t0.End()), pre+")")
	}
}

func (r *rw) goStmt(n *ast.GoStmt) {
	r.stats["go"]++
	call := n.Call
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			r.put(r.off(n.Go), r.off(call.Pos()), "vsched.Go(func() { ")
			r.put(r.off(n.End()), r.off(n.End()), " })")
			return
		}
	}
	r.put(r.off(n.Go), r.off(call.Fun.Pos()), "{ vschedF := ")
	var args []string
	at := r.off(call.Fun.End())
	for i, a := range call.Args {
		tv := r.info.Types[a]
		name := fmt.Sprintf("vschedA%d", i)
		switch {
		case tv.IsNil():
			r.put(at, r.off(a.End()), "")
			at = r.off(a.End())
			args = append(args, "nil")
			continue
		case tv.Value != nil:
			r.put(at, r.off(a.Pos()), "; const "+name+" = ")
		default:
			r.put(at, r.off(a.Pos()), "; "+name+" := ")
		}
		at = r.off(a.End())
		args = append(args, name)
	}
	e := ""
	if call.Ellipsis.IsValid() {
		e = "..."
	}
	r.put(at, r.off(n.End()), "; vsched.Go(func() { vschedF("+strings.Join(args, ", ")+e+") }) }")
}

func (r *rw) selectStmt(n *ast.SelectStmt, skip map[ast.Node]bool) {
	r.stats["select"]++
	pre := "{ "
	var names []string
	deflt := false
	id := r.off(n.Pos())
	for i, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			deflt = true
			r.put(r.off(cc.Case), r.off(cc.Colon), "case -1")
			continue
		}
		name := fmt.Sprintf("vschedC%d_%d", id, i)
		names = append(names, name)
		idx := len(names) - 1
		bind := ""
		skip[cc.Comm] = true
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			pre += name + " := vsched.SendCase(" + r.text(c.Chan) + ")(" + r.text(c.Value) + "); "
		case *ast.ExprStmt:
			u, _ := isRecv(c.X)
			pre += name + " := vsched.RecvCase(" + r.text(u.X) + "); "
		case *ast.AssignStmt:
			u, _ := isRecv(c.Rhs[0])
			pre += name + " := vsched.RecvCase(" + r.text(u.X) + "); "
			l := r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				bind = " " + l + ", " + r.text(c.Lhs[1]) + " " + c.Tok.String() + " " + name + ".V, " + name + ".Ok;"
			} else {
				bind = " " + l + " " + c.Tok.String() + " " + name + ".V;"
			}
		}
		r.put(r.off(cc.Case), r.off(cc.Colon)+1, fmt.Sprintf("case %d:%s", idx, bind))
	}
	all := append([]string{fmt.Sprint(deflt)}, names...)
	r.put(r.off(n.Pos()), r.off(n.Body.Lbrace)+1, pre+"switch vsched.Select("+strings.Join(all, ", ")+") {")
	r.put(r.off(n.Body.Rbrace), r.off(n.Body.Rbrace)+1, "default: panic(\"unreachable\") } }")
}

func (r *rw) output() ([]byte, error) {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// an insertion that closes an inner construct (end) comes before one that replaces what follows
		if (a.end == a.pos) != (b.end == b.pos) {
			return a.end == a.pos
		}
		if a.end == a.pos && (a.text[0] == ')') { // closings: inner (later seq) first
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.pos < at {
			return nil, fmt.Errorf("overlapping edits at %d", e.pos)
		}
		out.Write(r.src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(r.src[at:])
	s := out.Bytes()
	p := r.off(r.file.Name.End())
	// the package clause precedes every edit
	var fin bytes.Buffer
	fin.Write(s[:p])
	fin.WriteString(`; import vsched "verifmc/vsched"; var _ = vsched.Point`)
	// imports must precede declarations: put the use at the end instead
	b := fin.Bytes()
	b = b[:len(b)-len("; var _ = vsched.Point")]
	b = append(b, s[p:]...)
	b = append(b, []byte("\nvar _ = vsched.Point\n")...)
	return b, nil
}

func main() {
	dir := os.Args[1]
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,Name,GoFiles,CgoFiles,Standard,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "go list:", err)
		os.Exit(1)
	}
	exports := map[string]string{}
	var mine []*pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && p.Name != "main" {
			mine = append(mine, p)
		}
	}
	stats := map[string]int{}
	for _, p := range mine {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			files = append(files, af)
			names = append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fmt.Fprintln(os.Stderr, p.ImportPath, err)
		}
		for i, f := range files {
			src, _ := os.ReadFile(names[i])
			r := &rw{src: src, file: f, fset: fset, info: info, uses: map[*ast.ImportSpec][2]int{}, pk: tp, stats: stats}
			r.rewrite()
			if !r.used {
				continue
			}
			b, err := r.output()
			if err != nil {
				fmt.Fprintln(os.Stderr, names[i], err)
				os.Exit(1)
			}
			if err := os.WriteFile(names[i], b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
	b, _ := json.Marshal(stats)
	fmt.Println(string(b))
}
