// Command instr writes instrumented copies of the packages of module mk-lattigo and an
// overlay file for the go command. It inserts a yield point before statements and lets
// the simulator choose the iteration order of maps. Nothing in /repo is changed.
//
//	usage: instr OUTDIR [FILE TO LEAVE ALONE]...  (run in the simulator's module)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

type edit struct {
	off int
	del int
	txt string
	seq int
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(2) }

// files of lattigo with state of their own (buffers, streams): threads that share such an
// object by mistake meet inside them
var stateful = map[string]bool{
	"ring/ring_basis_extension.go": true, "ring/ring_scaling.go": true,
	"ring/ring_sampler_gaussian.go": true, "ring/ring_sampler_ternary.go": true, "ring/ring_sampler_uniform.go": true,
	"rlwe/encryptor.go": true, "rlwe/decryptor.go": true, "rlwe/keygen.go": true, "rlwe/keyswitch.go": true,
	"ckks/encoder.go": true, "bfv/encoder.go": true, "utils/prng.go": true,
}

// lattigo writes a copy of module SRC with preemption points (for scheduled threads only) to DST.
func lattigo(src, dst string) {
	n := 0
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			switch rel {
			case "examples", "dbfv", "dckks", "drlwe", ".github":
				return filepath.SkipDir
			}
			return nil
		}
		if rel != "go.mod" && rel != "go.sum" && filepath.Ext(p) != ".go" && filepath.Ext(p) != ".s" || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if stateful[filepath.ToSlash(rel)] {
			fset := token.NewFileSet()
			a, err := parser.ParseFile(fset, p, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			ed := &editor{tf: fset.File(a.Pos()), info: &types.Info{}, thr: true}
			ed.file(a)
			n += ed.nY
			b = append([]byte("//line "+p+":1\n"), ed.apply(b)...)
		}
		to := filepath.Join(dst, rel)
		os.MkdirAll(filepath.Dir(to), 0o755)
		return os.WriteFile(to, b, 0o644)
	})
	if err != nil {
		die("%v", err)
	}
	fmt.Println(n)
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "-lattigo" {
		lattigo(os.Args[2], os.Args[3])
		return
	}
	out, err := filepath.Abs(os.Args[1])
	if err != nil {
		die("%v", err)
	}
	skip := map[string]bool{}
	for _, f := range os.Args[2:] {
		skip[f] = true
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "mk-lattigo/...")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var own []pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "mk-lattigo" {
			own = append(own, p)
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	}
	overlay := map[string]string{}
	nY, nMap := 0, 0
	// goroutines of the code under test become simulated tasks, unless it has select statements
	selects := false
	for _, p := range own {
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			ast.Inspect(a, func(n ast.Node) bool {
				if _, ok := n.(*ast.SelectStmt); ok {
					selects = true
				}
				return true
			})
		}
	}
	for _, p := range own {
		if len(p.GoFiles) == 0 {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				die("%v", err)
			}
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
			srcs = append(srcs, src)
		}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			if skip[filepath.Join(p.Dir, p.GoFiles[i])] {
				continue
			}
			tf := fset.File(f.Pos())
			ed := &editor{tf: tf, info: info, conc: !selects}
			ed.file(f)
			if len(ed.edits) == 0 {
				continue
			}
			nY += ed.nY
			nMap += ed.nMap
			res := ed.apply(srcs[i])
			rel := filepath.Base(p.GoFiles[i])
			dst := filepath.Join(out, "src", p.ImportPath, rel)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			head := "//go:build go1.21\n\n//line " + filepath.Join(p.Dir, p.GoFiles[i]) + ":1\n"
			if err := os.WriteFile(dst, append([]byte(head), res...), 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
	stats, _ := json.Marshal(map[string]int{"yield_points": nY, "map_ranges": nMap, "files": len(overlay)})
	os.WriteFile(filepath.Join(out, "instr.json"), stats, 0o644)
}

type editor struct {
	tf    *token.File
	info  *types.Info
	edits []edit
	nY    int
	pend  []pending
	nMap  int
	thr   bool // preemption points for scheduled threads only
	conc  bool // goroutines and channel operations are simulated
	sync  bool // simsync is needed for channel operations
	two   map[ast.Expr]bool
}

func (e *editor) add(pos token.Pos, del int, txt string) {
	e.edits = append(e.edits, edit{e.tf.Offset(pos), del, txt, len(e.edits)})
}

func (e *editor) file(f *ast.File) {
	// yields and map ranges
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				e.block(d.Body.List, false)
				e.walk(d.Body)
			}
		case *ast.GenDecl:
			e.walk(d)
		}
	}
	used := len(e.edits) > 0
	if e.sync {
		e.add(f.Name.End(), 0, `; import simchan "mksim/simsync"`)
	}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			e.add(im.Path.Pos(), len(im.Path.Value), name+`"mksim/simsync"`)
		}
	}
	if used {
		e.add(f.Name.End(), 0, `; import simhook "mksim/simhook"`)
	}
	if !e.thr {
		e.standIns(f)
	}
}

// standIns lists the packages whose clock, chance or machine belongs to the simulator.
var standIns = map[string]string{"time": "simtime", "math/rand": "simrand", "math/rand/v2": "simrand2", "runtime": "simruntime"}

// standIns has imports of these packages refer to the stand-ins, where those have all that the file uses.
func (e *editor) standIns(f *ast.File) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		dir := standIns[p]
		if dir == "" || im.Name != nil && (im.Name.Name == "." || im.Name.Name == "_") {
			continue
		}
		have := exported(dir)
		ok := true
		ast.Inspect(f, func(n ast.Node) bool {
			if s, is := n.(*ast.SelectorExpr); is {
				if x, is := s.X.(*ast.Ident); is {
					if pn, is := e.info.Uses[x].(*types.PkgName); is && pn.Imported().Path() == p && !have[s.Sel.Name] {
						ok = false
					}
				}
			}
			return true
		})
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = filepath.Base(p) + " "
			if p == "math/rand/v2" {
				name = "rand "
			}
		}
		e.add(im.Path.Pos(), len(im.Path.Value), name+`"mksim/`+dir+`"`)
	}
}

// exported are the names a package of the simulator exports.
func exported(dir string) map[string]bool {
	out := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			die("%v", err)
		}
		for n := range a.Scope.Objects {
			out[n] = ast.IsExported(n)
		}
	}
	return out
}

func (e *editor) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if e.conc && !e.thr {
			e.concurrency(n)
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			e.block(n.Body.List, false)
		case *ast.IfStmt:
			e.block(n.Body.List, false)
			if b, ok := n.Else.(*ast.BlockStmt); ok {
				e.block(b.List, false)
			}
		case *ast.ForStmt:
			e.block(n.Body.List, e.innermost(n.Body))
		case *ast.RangeStmt:
			e.block(n.Body.List, e.innermost(n.Body))
			e.rng(n)
		case *ast.CaseClause:
			e.block(n.Body, false)
		case *ast.CommClause:
			e.block(n.Body, false)
		}
		return true
	})
}

func (e *editor) isChan(x ast.Expr) bool {
	tv, ok := e.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// concurrency replaces go statements and channel operations.
func (e *editor) concurrency(n ast.Node) {
	switch n := n.(type) {
	case *ast.GoStmt:
		e.goStmt(n)
	case *ast.SendStmt:
		if e.isChan(n.Chan) {
			e.sync = true
			e.add(n.Pos(), 0, "simchan.Send(")
			e.add(n.Arrow, 2, ",")
			e.add(n.End(), 0, ")")
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			e.second(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			e.second(n.Values[0])
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && e.isChan(n.X) {
			e.sync = true
			f := "simchan.Recv("
			if e.two[n] {
				f = "simchan.Recv2("
			}
			e.add(n.OpPos, 2, f)
			e.add(n.End(), 0, ")")
		}
	case *ast.CallExpr:
		id, ok := n.Fun.(*ast.Ident)
		if !ok || id.Name != "close" || len(n.Args) != 1 || !e.isChan(n.Args[0]) {
			return
		}
		if _, ok := e.info.Uses[id].(*types.Builtin); ok {
			e.sync = true
			e.add(id.Pos(), 5, "simchan.Close")
		}
	}
}

func (e *editor) second(x ast.Expr) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if e.two == nil {
		e.two = map[ast.Expr]bool{}
	}
	e.two[x] = true
}

// goStmt turns go f(a, b) into simF, simA0, simA1 := f, a, b; simhook.Go(func() { simF(simA0, simA1) }).
func (e *editor) goStmt(g *ast.GoStmt) {
	c := g.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := e.info.Uses[id].(*types.Builtin); ok {
			return
		}
	}
	head, call := "{ simF", ""
	for i := range c.Args {
		head += fmt.Sprintf(", simA%d", i)
		if i > 0 {
			call += ", "
		}
		call += fmt.Sprintf("simA%d", i)
	}
	if c.Ellipsis.IsValid() {
		call += "..."
		e.add(c.Ellipsis, 3, "")
	}
	sep := ""
	if len(c.Args) > 0 {
		sep = ", "
	}
	e.add(g.Go, 2, head+" := ")
	e.add(c.Lparen, 1, sep)
	e.add(c.Rparen, 1, "; simhook.Go(func() { simF("+call+") }) }")
}

func (e *editor) innermost(b *ast.BlockStmt) bool {
	if len(b.List) <= 4 && !e.thr {
		return false
	}
	inner := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			inner = false
		}
		return inner
	})
	return inner
}

func (e *editor) block(list []ast.Stmt, onlyFirst bool) {
	for i, s := range list {
		if onlyFirst && i > 0 {
			break
		}
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.BranchStmt:
			continue
		case *ast.DeclStmt:
			if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				continue
			}
		}
		if e.thr {
			e.add(s.Pos(), 0, "simhook.T(); ")
		} else {
			e.add(s.Pos(), 0, "simhook.Y(); ")
		}
		e.nY++
	}
}

func pure(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

func (e *editor) src(x ast.Expr, src []byte) string {
	return string(src[e.tf.Offset(x.Pos()):e.tf.Offset(x.End())])
}

func (e *editor) rng(r *ast.RangeStmt) {
	tv, ok := e.info.Types[r.X]
	if !ok || tv.Type == nil {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Chan); ok {
		if e.conc && !e.thr && pure(r.X) && (r.Key == nil || r.Tok == token.DEFINE) {
			e.sync = true
			at := r.X.Pos()
			if r.Key != nil {
				at = r.Key.Pos()
			} else if r.Range.IsValid() {
				at = r.Range
			}
			e.add(at, e.tf.Offset(r.Body.Lbrace)+1-e.tf.Offset(at), "")
			e.pend = append(e.pend, pending{idx: len(e.edits) - 1, r: r, ch: true})
		}
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	isBlank := func(x ast.Expr) bool {
		if x == nil {
			return true
		}
		id, ok := x.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if r.Key != nil && r.Tok != token.DEFINE {
		return // assignment to existing variables: left to the runtime
	}
	k, v := isBlank(r.Key), isBlank(r.Value)
	if r.Key == nil || (k && v) {
		return // no order visible through variables
	}
	e.nMap++
	// the text is filled in by apply
	e.add(r.Key.Pos(), e.tf.Offset(r.Body.Lbrace)+1-e.tf.Offset(r.Key.Pos()), "")
	e.pend = append(e.pend, pending{idx: len(e.edits) - 1, r: r, k: k, v: v})
}

type pending struct {
	idx  int
	r    *ast.RangeStmt
	k, v bool
	ch   bool
}

func (e *editor) apply(src []byte) []byte {
	for _, p := range e.pend {
		x := e.src(p.r.X, src)
		if p.ch {
			name := "_"
			if p.r.Key != nil {
				name = p.r.Key.(*ast.Ident).Name
			}
			e.edits[p.idx].txt = fmt.Sprintf("{ %s, simOK := simchan.Recv2(%s); if !simOK { break }; ", name, x)
			continue
		}
		key := "simKey"
		if !p.k {
			key = p.r.Key.(*ast.Ident).Name
		}
		var t string
		if pure(p.r.X) {
			t = fmt.Sprintf("_, %s := range simhook.Keys(%s) { if !simhook.Live(%s, %s) { continue }; ", key, x, x, key)
			if !p.v {
				t += fmt.Sprintf("%s := %s[%s]; ", p.r.Value.(*ast.Ident).Name, x, key)
			}
		} else if p.v {
			t = fmt.Sprintf("_, %s := range simhook.Keys(%s) { ", key, x)
		} else {
			t = fmt.Sprintf("_, simKV := range simhook.Pairs(%s) { %s := simKV.V; ", x, p.r.Value.(*ast.Ident).Name)
			if !p.k {
				t += fmt.Sprintf("%s := simKV.K; ", key)
			}
		}
		e.edits[p.idx].txt = t
	}
	sort.SliceStable(e.edits, func(i, j int) bool {
		if e.edits[i].off != e.edits[j].off {
			return e.edits[i].off < e.edits[j].off
		}
		return e.edits[i].del < e.edits[j].del
	})
	var out bytes.Buffer
	at := 0
	for _, ed := range e.edits {
		if ed.off < at {
			continue // inside a replaced range header
		}
		out.Write(src[at:ed.off])
		out.WriteString(ed.txt)
		at = ed.off + ed.del
	}
	out.Write(src[at:])
	return out.Bytes()
}
