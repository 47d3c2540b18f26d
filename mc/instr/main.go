// instr rewrites a copy of the repository so that its threads run under the
// cooperative scheduler of verifmc/sched: synchronization operations become
// scheduling points and accesses to memory that threads can share are reported
// to the race detector. Only text is inserted or replaced token by token, so
// that line numbers stay as they are. What it does not understand it leaves
// alone.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// calls reported to the harness, by receiver type and method
var traced = map[string]bool{"Tree.Grow": true, "Tree.GrowJungle": true}

type edit struct {
	at, del int
	text    string
	close   bool
	seq     int
}

type mode int

const (
	rd   mode = iota // the value is read
	wr               // the variable is written
	addr             // its address is taken: nothing is read
)

type rewriter struct {
	fset     *token.FileSet
	file     *ast.File
	info     *types.Info
	pkg      *types.Package
	src      []byte
	edits    []edit
	captured map[*types.Var]bool
	nsel     int
	handled  map[*ast.CallExpr]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) ins(p token.Pos, t string) {
	r.edits = append(r.edits, edit{at: r.off(p), text: t, seq: len(r.edits)})
}
func (r *rewriter) end(p token.Pos, t string) {
	r.edits = append(r.edits, edit{at: r.off(p), text: t, close: true, seq: len(r.edits)})
}
func (r *rewriter) rep(p token.Pos, n int, t string) {
	r.edits = append(r.edits, edit{at: r.off(p), del: n, text: t, seq: len(r.edits)})
}
func (r *rewriter) wrap(e ast.Node, open, close string) {
	r.ins(e.Pos(), open)
	r.end(e.End(), close)
}

const S = "verifsched."

func (r *rewriter) typ(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil && o.Type() != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (r *rewriter) isValue(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	return ok && t.IsValue()
}

// addressable follows the language's definition.
func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.StarExpr:
		return r.isValue(x.X)
	case *ast.SelectorExpr:
		if s, ok := r.info.Selections[x]; ok && s.Kind() == types.FieldVal {
			if _, ok := r.typ(x.X).Underlying().(*types.Pointer); ok {
				return true
			}
			// a pointer on the way through embedded fields makes it addressable as well
			if s.Indirect() {
				return true
			}
			return r.addressable(x.X)
		}
		_, ok := r.info.ObjectOf(x.Sel).(*types.Var)
		return ok
	case *ast.IndexExpr:
		switch t := r.typ(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.addressable(x.X)
		}
	}
	return false
}

func (r *rewriter) record(e ast.Expr, m mode) {
	switch m {
	case rd:
		r.wrap(e, "(*"+S+"R(&", "))")
	case wr:
		r.wrap(e, "(*"+S+"W(&", "))")
	}
}

func (r *rewriter) pkgName(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		if p, ok := r.info.ObjectOf(id).(*types.PkgName); ok {
			return p.Imported().Path()
		}
	}
	return ""
}

// objects of these types must not be used by two threads at a time
var single = map[string]bool{"math/rand.Rand": true, "bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true,
	"encoding/csv.Reader": true, "encoding/csv.Writer": true, "encoding/json.Encoder": true, "encoding/json.Decoder": true,
	"bytes.Buffer": true, "strings.Builder": true, "math/big.Int": true}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (r *rewriter) exprs(es []ast.Expr, m mode) {
	for _, e := range es {
		r.expr(e, m)
	}
}

func (r *rewriter) expr(e ast.Expr, m mode) {
	if e == nil {
		return
	}
	if t, ok := r.info.Types[e]; ok && (t.IsType() || t.Value != nil) {
		return
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		r.expr(x.X, m)
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return
		}
		if r.captured[v] || v.Parent() == r.pkg.Scope() {
			r.record(x, m)
		}
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if !ok { // qualified identifier
			return
		}
		switch s.Kind() {
		case types.FieldVal:
			ad := r.addressable(x)
			if ad {
				r.record(x, m)
			}
			if _, ok := r.typ(x.X).Underlying().(*types.Pointer); ok {
				r.expr(x.X, rd)
			} else if ad {
				r.expr(x.X, addr)
			} else {
				r.expr(x.X, rd)
			}
		case types.MethodVal:
			r.receiver(x, s)
		}
	case *ast.StarExpr:
		r.record(x, m)
		r.expr(x.X, rd)
	case *ast.IndexExpr:
		if t, ok := r.info.Types[x.Index]; ok && t.IsType() {
			return
		}
		switch t := r.typ(x.X).Underlying().(type) {
		case *types.Map:
			f := "MR("
			if m == wr {
				f = "MW("
			}
			r.wrap(x.X, S+f, ")")
			r.expr(x.X, rd)
		case *types.Slice:
			r.record(x, m)
			r.expr(x.X, rd)
		case *types.Pointer:
			r.record(x, m)
			r.expr(x.X, rd)
		case *types.Array:
			if r.addressable(x) {
				r.record(x, m)
				r.expr(x.X, addr)
			} else {
				r.expr(x.X, rd)
			}
		default:
			_ = t
			r.expr(x.X, rd)
		}
		r.expr(x.Index, rd)
	case *ast.SliceExpr:
		if _, ok := r.typ(x.X).Underlying().(*types.Array); ok {
			r.expr(x.X, addr)
		} else {
			r.expr(x.X, rd)
		}
		r.expr(x.Low, rd)
		r.expr(x.High, rd)
		r.expr(x.Max, rd)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			r.expr(x.X, addr)
		case token.ARROW:
			r.recv(x, "Recv")
		default:
			r.expr(x.X, rd)
		}
	case *ast.BinaryExpr:
		r.expr(x.X, rd)
		r.expr(x.Y, rd)
	case *ast.CallExpr:
		r.call(x)
	case *ast.FuncLit:
		r.stmt(x.Body)
	case *ast.CompositeLit:
		_, isStruct := r.typ(x).Underlying().(*types.Struct)
		if p, ok := r.typ(x).Underlying().(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
		}
		_, isMap := r.typ(x).Underlying().(*types.Map)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct && isMap {
					r.expr(kv.Key, rd)
				}
				r.expr(kv.Value, rd)
				continue
			}
			r.expr(el, rd)
		}
	case *ast.TypeAssertExpr:
		r.expr(x.X, rd)
	case *ast.KeyValueExpr:
		r.expr(x.Value, rd)
	}
}

func (r *rewriter) recv(x *ast.UnaryExpr, f string) {
	r.rep(x.OpPos, 2, S+f+"(")
	r.end(x.End(), ")")
	r.expr(x.X, rd)
}

// receiver handles x.X in a method value or call x.X.Sel.
func (r *rewriter) receiver(x *ast.SelectorExpr, s *types.Selection) {
	t := r.typ(x.X)
	_, isPtr := t.Underlying().(*types.Pointer)
	if single[typeName(t)] && len(s.Index()) == 1 {
		if isPtr {
			r.wrap(x.X, S+"Obj(", ")")
			r.expr(x.X, rd)
			return
		}
		if r.addressable(x.X) {
			r.wrap(x.X, S+"Obj(&", ")")
			r.expr(x.X, addr)
			return
		}
	}
	ptrRecv := false
	if f, ok := s.Obj().(*types.Func); ok {
		if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
			_, ptrRecv = sig.Recv().Type().Underlying().(*types.Pointer)
		}
	}
	if !isPtr && (ptrRecv || s.Indirect()) && r.addressable(x.X) {
		r.expr(x.X, addr)
		return
	}
	r.expr(x.X, rd)
}

func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rewriter) text(e ast.Node) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }

func (r *rewriter) call(x *ast.CallExpr) {
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			r.builtin(x, id, b.Name())
			return
		}
	}
	if t, ok := r.info.Types[x.Fun]; ok && t.IsType() { // conversion
		r.exprs(x.Args, rd)
		return
	}
	if sel, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		path := r.pkgName(sel.X)
		name := sel.Sel.Name
		switch {
		case path == "os" && name == "Exit":
			r.rep(sel.Pos(), int(sel.End()-sel.Pos()), S+"Exit")
			r.ins(r.file.End(), "\nvar _ = "+r.text(sel)+"\n")
		case path == "runtime" && name == "Gosched":
			r.rep(sel.Pos(), int(sel.End()-sel.Pos()), S+"Yield")
			r.ins(r.file.End(), "\nvar _ = "+r.text(sel)+"\n")
		case path == "time" && name == "Sleep":
			r.wrap(sel, S+"Sleep(", ")")
		case path == "fmt" && strings.HasPrefix(name, "Fprint") && len(x.Args) > 0:
			r.wrap(x.Args[0], S+"IO(", ")")
		case path == "io" && name == "WriteString" && len(x.Args) > 0:
			r.wrap(x.Args[0], S+"IO(", ")")
		case path == "sync/atomic":
			r.wrap(sel, S+"A(", ")")
		case path == "":
			if s, ok := r.info.Selections[sel]; ok && s.Kind() == types.MethodVal && s.Obj().Pkg() != nil && s.Obj().Pkg().Path() == "sync/atomic" {
				r.wrap(sel, S+"A(", ")")
			}
		}
	}
	r.expr(x.Fun, rd)
	r.exprs(x.Args, rd)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) builtin(x *ast.CallExpr, id *ast.Ident, name string) {
	under := func(i int) types.Type { return r.typ(x.Args[i]).Underlying() }
	switch name {
	case "append":
		if len(x.Args) > 1 {
			if _, ok := under(0).(*types.Slice); ok {
				n := fmt.Sprint(len(x.Args) - 1)
				if x.Ellipsis.IsValid() {
					n = "1"
					if simple(x.Args[1]) {
						n = "len(" + r.text(x.Args[1]) + ")"
					}
					if _, ok := under(1).(*types.Slice); ok {
						r.wrap(x.Args[1], S+"RS(", ")")
					}
				}
				r.wrap(x.Args[0], S+"AppendTo(", ", "+n+")")
			}
		}
	case "copy":
		_, a := under(0).(*types.Slice)
		_, b := under(1).(*types.Slice)
		if a && b {
			r.rep(id.Pos(), len("copy"), S+"Copy")
		}
	case "delete", "clear":
		if _, ok := under(0).(*types.Map); ok {
			r.wrap(x.Args[0], S+"MW(", ")")
		}
	case "len", "cap":
		switch under(0).(type) {
		case *types.Map:
			r.wrap(x.Args[0], S+"MR(", ")")
		case *types.Chan:
			if name == "len" {
				r.rep(id.Pos(), 3, S+"Len")
			}
		}
		if _, ok := under(0).(*types.Array); ok {
			r.exprs(x.Args, addr)
			return
		}
	case "close":
		r.rep(id.Pos(), len("close"), S+"Close")
	}
	r.exprs(x.Args, rd)
}

func (r *rewriter) block(ss []ast.Stmt) {
	for _, s := range ss {
		r.stmtIn(s, true)
	}
}

func (r *rewriter) stmt(s ast.Stmt) { r.stmtIn(s, false) }

func hasCall(es []ast.Expr) bool {
	for _, e := range es {
		if !simple(e) {
			return true
		}
	}
	return false
}

func (r *rewriter) stmtIn(s ast.Stmt, inBlock bool) {
	switch x := s.(type) {
	case nil:
	case *ast.BlockStmt:
		if x != nil {
			r.block(x.List)
		}
	case *ast.ExprStmt:
		r.expr(x.X, rd)
	case *ast.SendStmt:
		r.wrap(x.Chan, S+"SendTo(", ")(")
		r.rep(x.Arrow, 2, "")
		r.end(x.End(), ")")
		r.expr(x.Chan, rd)
		r.expr(x.Value, rd)
	case *ast.IncDecStmt:
		r.expr(x.X, wr)
	case *ast.AssignStmt:
		r.assign(x, inBlock)
	case *ast.GoStmt:
		r.rep(x.Go, len("go"), "")
		r.wrap(x.Call.Fun, S+"Go(", ")")
		r.expr(x.Call.Fun, rd)
		r.exprs(x.Call.Args, rd)
	case *ast.DeferStmt:
		r.call(x.Call)
	case *ast.ReturnStmt:
		r.exprs(x.Results, rd)
	case *ast.IfStmt:
		r.stmt(x.Init)
		r.expr(x.Cond, rd)
		r.stmt(x.Body)
		r.stmt(x.Else)
	case *ast.ForStmt:
		r.stmt(x.Init)
		r.expr(x.Cond, rd)
		r.stmt(x.Post)
		r.stmt(x.Body)
	case *ast.RangeStmt:
		switch r.typ(x.X).Underlying().(type) {
		case *types.Chan:
			r.wrap(x.X, S+"Range(", ")")
			r.expr(x.X, rd)
		case *types.Slice:
			if id, ok := x.Value.(*ast.Ident); x.Value != nil && !(ok && id.Name == "_") {
				r.wrap(x.X, S+"RS(", ")")
			}
			r.expr(x.X, rd)
		case *types.Map:
			r.wrap(x.X, S+"MR(", ")")
			r.expr(x.X, rd)
		case *types.Array:
			r.expr(x.X, addr)
		default:
			r.expr(x.X, rd)
		}
		r.stmt(x.Body)
	case *ast.SwitchStmt:
		r.stmt(x.Init)
		r.expr(x.Tag, rd)
		r.stmt(x.Body)
	case *ast.TypeSwitchStmt:
		r.stmt(x.Init)
		r.stmt(x.Assign)
		r.stmt(x.Body)
	case *ast.CaseClause:
		r.exprs(x.List, rd)
		r.block(x.Body)
	case *ast.LabeledStmt:
		r.stmt(x.Stmt)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := v.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							r.recv(u, "Recv2")
							continue
						}
					}
					r.exprs(v.Values, rd)
				}
			}
		}
	case *ast.SelectStmt:
		r.sel(x)
	}
}

func (r *rewriter) assign(x *ast.AssignStmt, inBlock bool) {
	done := false
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.recv(u, "Recv2")
			done = true
		}
	}
	if x.Tok == token.DEFINE {
		for _, e := range x.Lhs { // redeclared variables
			if id, ok := e.(*ast.Ident); ok && inBlock {
				if v, ok := r.info.Uses[id].(*types.Var); ok && r.captured[v] {
					r.end(x.End(), "; "+S+"W(&"+id.Name+")")
				}
			}
		}
	} else {
		for _, e := range x.Lhs {
			if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			_, isMap := mapIndex(r, e)
			if x.Tok == token.ASSIGN && inBlock && hasCall(x.Rhs) && simple(e) && !isMap && r.recorded(e) {
				// the write follows the calls
				r.expr(e, addr)
				r.end(x.End(), "; "+S+"W(&"+r.text(e)+")")
				continue
			}
			r.expr(e, wr)
		}
	}
	if !done {
		r.exprs(x.Rhs, rd)
	}
}

func mapIndex(r *rewriter, e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = r.typ(x.X).Underlying().(*types.Map)
	return x, ok
}

// recorded reports whether a write to e is one that is recorded.
func (r *rewriter) recorded(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && (r.captured[v] || v.Parent() == r.pkg.Scope())
	case *ast.SelectorExpr:
		_, ok := r.info.Selections[x]
		return ok && r.addressable(x)
	case *ast.StarExpr, *ast.IndexExpr:
		return r.addressable(e)
	}
	return false
}

func (r *rewriter) sel(x *ast.SelectStmt) {
	r.nsel++
	name := fmt.Sprint("verifSel", r.nsel)
	def := "false"
	head := ""
	for i, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		// everything between "case" and ":" is replaced; its expressions are not rewritten further
		body := ""
		switch c := cc.Comm.(type) {
		case nil:
			def = "true"
			r.rep(cc.Case, len("default"), "case -1")
			r.block(cc.Body)
			continue
		case *ast.SendStmt:
			head += fmt.Sprintf(", %sCaseSend(%s)(%s)", S, r.text(c.Chan), r.text(c.Value))
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			head += fmt.Sprintf(", %sCaseRecv(%s)", S, r.text(u.X))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			head += fmt.Sprintf(", %sCaseRecv(%s)", S, r.text(u.X))
			f := "Val"
			if len(c.Lhs) == 2 {
				f = "Val2"
			}
			lhs := r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				lhs += ", " + r.text(c.Lhs[1])
			}
			body = fmt.Sprintf(" %s %s %s%s(%s, %s);", lhs, c.Tok, S, f, r.text(u.X), name)
		}
		r.rep(cc.Case, r.off(cc.Colon)-r.off(cc.Case), fmt.Sprint("case ", i))
		if body != "" {
			r.rep(cc.Colon, 1, ":"+body)
		}
		r.block(cc.Body)
	}
	r.rep(x.Select, len("select"), fmt.Sprintf("switch %s := %sSelect(%s%s); %s.I", name, S, def, head, name))
}

// findCaptured lists local variables that a function literal uses and its
// surroundings declare.
func findCaptured(files []*ast.File, info *types.Info, pkg *types.Package) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, f := range files {
		var lits []*ast.FuncLit
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncLit:
					lits = append(lits, x)
					walk(x.Body)
					lits = lits[:len(lits)-1]
					return false
				case *ast.Ident:
					v, ok := info.Uses[x].(*types.Var)
					if !ok || v.IsField() || v.Parent() == pkg.Scope() || len(lits) == 0 {
						return true
					}
					l := lits[len(lits)-1]
					if v.Pos() < l.Pos() || v.Pos() > l.End() {
						out[v] = true
					}
				}
				return true
			})
		}
		walk(f)
	}
	return out
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		if a.close != b.close {
			return a.close
		}
		if a.close {
			return a.seq > b.seq
		}
		if (a.del > 0) != (b.del > 0) {
			return a.del == 0
		}
		return a.seq < b.seq
	})
	var out []byte
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			continue // inside a replaced range
		}
		out = append(out, src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.at + e.del
	}
	return append(out, src[pos:]...)
}

func main() {
	root, err := filepath.Abs(os.Args[1])
	die(err)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	type result struct {
		path string
		text []byte
	}
	var results []result
	skip := map[string]bool{}
	for _, s := range os.Args[2:] {
		skip[s] = true
	}
	filepath.Walk(root, func(dir string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		if fi.Name() == "data" || fi.Name() == "wrappers" {
			return filepath.SkipDir
		}
		bp, err := build.Default.ImportDir(dir, 0)
		if err != nil || len(bp.GoFiles) == 0 {
			return nil
		}
		var files []*ast.File
		for _, n := range bp.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
			if err != nil {
				return nil
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr:", err) }}
		rel, _ := filepath.Rel(root, dir)
		pkg, _ := conf.Check("github.com/ryanbressler/CloudForest/"+rel, fset, files, info)
		capt := findCaptured(files, info, pkg)
		for i, f := range files {
			path := filepath.Join(dir, bp.GoFiles[i])
			src, err := ioutil.ReadFile(path)
			die(err)
			r := &rewriter{fset: fset, file: f, info: info, pkg: pkg, src: src, captured: capt}
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Body == nil {
						continue
					}
					if bp.Name == "main" && x.Recv == nil && x.Name.Name == "main" {
						r.rep(x.Name.Pos(), 4, "Main")
					}
					r.trace(x)
					r.stmt(x.Body)
				}
			}
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					t := `"verifmc/vsync"`
					if im.Name == nil {
						t = "sync " + t
					}
					r.rep(im.Path.Pos(), len(im.Path.Value), t)
				}
			}
			if bp.Name == "main" {
				r.rep(f.Name.Pos(), len(f.Name.Name), filepath.Base(dir))
			}
			r.end(f.Name.End(), `; import verifsched "verifmc/sched"`)
			r.ins(f.End(), "\nvar _ = verifsched.Used\n")
			results = append(results, result{path, apply(src, r.edits)})
		}
		return nil
	})
	for _, x := range results {
		die(ioutil.WriteFile(x.path, x.text, 0644))
	}
}

func (r *rewriter) trace(d *ast.FuncDecl) {
	if d.Recv == nil || len(d.Recv.List) != 1 || len(d.Recv.List[0].Names) != 1 {
		return
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	id, ok := t.(*ast.Ident)
	if !ok || !traced[id.Name+"."+d.Name.Name] {
		return
	}
	args := []string{d.Recv.List[0].Names[0].Name}
	for _, f := range d.Type.Params.List {
		for _, n := range f.Names {
			if n.Name != "_" {
				args = append(args, n.Name)
			} else {
				args = append(args, "nil")
			}
		}
	}
	call := fmt.Sprintf("(%q, %s)", id.Name+"."+d.Name.Name, strings.Join(args, ", "))
	r.ins(d.Body.Lbrace+1, fmt.Sprintf(" %sEnter%s; defer %sLeave%s;", S, call, S, call))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
