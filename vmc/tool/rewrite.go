package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "github.com/livekit/media-sdk/vmcrt"

// shims maps an import path to its stand-in and the default package name.
var shims = map[string][2]string{
	"sync":                                   {rtPath + "/vsync", "sync"},
	"sync/atomic":                            {rtPath + "/vatomic", "atomic"},
	"time":                                   {rtPath + "/vtime", "time"},
	"math/rand":                              {rtPath + "/vrand", "rand"},
	"math/rand/v2":                           {rtPath + "/vrandv2", "rand"},
	"context":                                {rtPath + "/vcontext", "context"},
	"github.com/livekit/protocol/utils/mono": {rtPath + "/vmono", "mono"},
}

type edit struct {
	pos, end int
	text     string
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	base  int
	src   []byte
	info  *types.Info
	edits []edit
	tmp   int
	used  bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) add(pos, end int, text string) {
	r.edits = append(r.edits, edit{pos, end, text})
}

// render returns the source text of [pos,end) with the edits inside it applied. An edit that
// replaces a range wins over the edits nested in it.
func (r *rewriter) render(pos, end int) string {
	var in []edit
	for _, e := range r.edits {
		if e.pos >= pos && e.end <= end {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].pos != in[j].pos {
			return in[i].pos < in[j].pos
		}
		// insertions at a position come before a replacement starting there
		zi, zj := in[i].pos == in[i].end, in[j].pos == in[j].end
		if zi != zj {
			return zi
		}
		return in[i].end > in[j].end
	})
	var sb strings.Builder
	cur := pos
	for _, e := range in {
		if e.pos < cur {
			continue // nested in a replaced range
		}
		sb.Write(r.src[cur:e.pos])
		sb.WriteString(e.text)
		cur = e.end
	}
	sb.Write(r.src[cur:end])
	return sb.String()
}

func (r *rewriter) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

const rtName = "vmcrt__"

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if u, ok := tp.Underlying().(*types.Interface); ok {
			for i := 0; i < u.NumEmbeddeds(); i++ {
				if un, ok := u.EmbeddedType(i).(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if _, ok := un.Term(j).Type().Underlying().(*types.Chan); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (r *rewriter) isBuiltin(id *ast.Ident) bool {
	if r.info == nil {
		return true
	}
	o := r.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok := o.(*types.Builtin)
	return ok
}

// walk rewrites n after its children.
func (r *rewriter) walk(n ast.Node) {
	var post func(n ast.Node)
	post = func(n ast.Node) {
		if n == nil {
			return
		}
		// select statements need the comm clauses handled specially
		if s, ok := n.(*ast.SelectStmt); ok {
			r.selectStmt(s, post)
			return
		}
		// v, ok := <-c must not see the plain receive rewrite
		switch s := n.(type) {
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range s.Lhs {
						post(l)
					}
					post(u.X)
					r.recv(u, "Recv2")
					return
				}
			}
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := ast.Unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					post(u.X)
					r.recv(u, "Recv2")
					return
				}
			}
		}
		children(n, post)
		switch s := n.(type) {
		case *ast.SendStmt:
			r.used = true
			r.add(r.off(s.Chan.Pos()), r.off(s.Chan.Pos()), rtName+".SendTo(")
			a := r.off(s.Arrow)
			r.add(a, a+2, ")(")
			e := r.off(s.Value.End())
			r.add(e, e, ")")
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				r.recv(s, "Recv")
			}
		case *ast.CallExpr:
			id, ok := ast.Unparen(s.Fun).(*ast.Ident)
			if !ok || len(s.Args) != 1 {
				return
			}
			switch id.Name {
			case "close":
				if r.isBuiltin(id) {
					r.used = true
					r.add(r.off(id.Pos()), r.off(id.End()), rtName+".Close")
				}
			case "len":
				if r.isBuiltin(id) && r.info != nil && isChan(r.info.TypeOf(s.Args[0])) {
					r.used = true
					r.add(r.off(id.Pos()), r.off(id.End()), rtName+".Len")
				}
			}
		case *ast.RangeStmt:
			if r.info != nil && isChan(r.info.TypeOf(s.X)) {
				r.used = true
				r.add(r.off(s.X.Pos()), r.off(s.X.Pos()), rtName+".RangeChan(")
				e := r.off(s.X.End())
				r.add(e, e, ")")
			}
		case *ast.GoStmt:
			r.goStmt(s)
		}
	}
	post(n)
}

func (r *rewriter) recv(u *ast.UnaryExpr, fn string) {
	r.used = true
	p := r.off(u.OpPos)
	r.add(p, p+2, rtName+"."+fn+"(")
	e := r.off(u.X.End())
	r.add(e, e, ")")
}

func (r *rewriter) isConstArg(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
			return true
		}
	}
	if r.info != nil {
		if tv, ok := r.info.Types[e]; ok && tv.Value != nil {
			return true
		}
	}
	return false
}

func (r *rewriter) goStmt(s *ast.GoStmt) {
	r.used = true
	call := s.Call
	gp, ge := r.off(s.Pos()), r.off(s.End())
	results := 0
	known := false
	if r.info != nil {
		if sig, ok := r.info.TypeOf(call.Fun).(*types.Signature); ok && sig != nil {
			known = true
			results = sig.Results().Len()
		}
	}
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok {
		known = true
		results = 0
		if lit.Type.Results != nil {
			results = lit.Type.Results.NumFields()
		}
		if len(call.Args) == 0 && results == 0 {
			r.add(gp, ge, rtName+".Go("+r.text(call.Fun)+")")
			return
		}
	}
	_ = known
	// General form: evaluate the function value and the arguments now, call later.
	r.tmp++
	var pre, args []string
	fn := ""
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		if f.Name == "close" && r.isBuiltin(f) {
			fn = rtName + ".Close"
		} else if r.isBuiltin(f) && (f.Name == "panic" || f.Name == "print" || f.Name == "println") {
			fn = f.Name
		}
	}
	if fn == "" {
		fn = fmt.Sprintf("vf%d__", r.tmp)
		pre = append(pre, fmt.Sprintf("%s := %s", fn, r.text(call.Fun)))
	}
	for i, a := range call.Args {
		if r.isConstArg(a) {
			args = append(args, r.text(a))
			continue
		}
		v := fmt.Sprintf("va%d_%d__", r.tmp, i)
		pre = append(pre, fmt.Sprintf("%s := %s", v, r.text(a)))
		args = append(args, v)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	pre = append(pre, fmt.Sprintf("%s.Go(func() { %s(%s%s) })", rtName, fn, strings.Join(args, ", "), dots))
	r.add(gp, ge, "{ "+strings.Join(pre, "; ")+" }")
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, post func(ast.Node)) {
	r.used = true
	if len(s.Body.List) == 0 {
		r.add(r.off(s.Pos()), r.off(s.End()), "panic("+rtName+".BlockForever())")
		return
	}
	var names, inits []string
	hasDefault := false
	type clause struct {
		c   *ast.CommClause
		hdr string
	}
	var cl []clause
	idx := 0
	r.tmp++
	id := r.tmp
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		for _, b := range c.Body {
			post(b)
		}
		if c.Comm == nil {
			hasDefault = true
			cl = append(cl, clause{c, "case -1:"})
			continue
		}
		name := fmt.Sprintf("vs%d_%d__", id, idx)
		hdr := fmt.Sprintf("case %d:", idx)
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			post(m.Chan)
			post(m.Value)
			inits = append(inits, fmt.Sprintf("%s.SendCase(%s)(%s)", rtName, r.text(m.Chan), r.text(m.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			post(u.X)
			inits = append(inits, fmt.Sprintf("%s.RecvCase(%s)", rtName, r.text(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			post(u.X)
			inits = append(inits, fmt.Sprintf("%s.RecvCase(%s)", rtName, r.text(u.X)))
			var l []string
			for _, x := range m.Lhs {
				post(x)
				l = append(l, r.text(x))
			}
			rhs := name + ".V"
			if len(l) == 2 {
				rhs += ", " + name + ".OK"
			}
			hdr += fmt.Sprintf(" %s %s %s;", strings.Join(l, ", "), m.Tok.String(), rhs)
		}
		names = append(names, name)
		idx++
		cl = append(cl, clause{c, hdr})
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	head += rtName + ".Select(" + def
	if len(names) > 0 {
		head += ", " + strings.Join(names, ", ")
	}
	head += ") {"
	r.add(r.off(s.Pos()), r.off(s.Body.Lbrace)+1, head)
	for _, c := range cl {
		r.add(r.off(c.c.Pos()), r.off(c.c.Colon)+1, c.hdr)
	}
	e := r.off(s.Body.Rbrace)
	r.add(e, e, "\ndefault: panic(\"vmcrt: unreachable\")\n")
}

// children calls f on the direct children of n.
func children(n ast.Node, f func(ast.Node)) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			f(c)
		}
		return false
	})
}

func needsAST(f *ast.File) bool {
	need := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			need = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				need = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "len") {
				need = true
			}
		case *ast.RangeStmt:
			need = true
		}
		return !need
	})
	return need
}

// srcPkg is one package of rewritten sources.
type srcPkg struct {
	path  string
	files []*ast.File
	names []string
	srcs  [][]byte
	tpkg  *types.Package
	info  *types.Info
	busy  bool
}

type world struct {
	fset *token.FileSet
	pkgs map[string]*srcPkg
	fake map[string]*types.Package
}

func (w *world) Import(path string) (*types.Package, error) {
	if p := w.pkgs[path]; p != nil && !p.busy {
		w.check(p)
		return p.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := w.fake[path]; p != nil {
		return p, nil
	}
	name := path
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		name = path[i+1:]
		if strings.HasPrefix(name, "v") && len(name) <= 3 {
			q := path[:i]
			name = q[strings.LastIndexByte(q, '/')+1:]
		}
	}
	p := types.NewPackage(path, strings.TrimPrefix(name, "go-"))
	if path == "time" {
		addTime(p)
	}
	p.MarkComplete()
	w.fake[path] = p
	return p, nil
}

// addTime declares the channel-typed parts of package time, all the rewriter needs to know.
func addTime(p *types.Package) {
	tn := types.NewTypeName(token.NoPos, p, "Time", nil)
	tt := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	p.Scope().Insert(tn)
	ch := types.NewChan(types.RecvOnly, tt)
	for _, n := range []string{"Timer", "Ticker"} {
		o := types.NewTypeName(token.NoPos, p, n, nil)
		st := types.NewStruct([]*types.Var{types.NewField(token.NoPos, p, "C", ch, false)}, nil)
		nt := types.NewNamed(o, st, nil)
		p.Scope().Insert(o)
		fn := types.NewFunc(token.NoPos, p, "New"+n, types.NewSignatureType(nil, nil, nil,
			types.NewTuple(types.NewVar(token.NoPos, p, "d", types.Typ[types.Int64])),
			types.NewTuple(types.NewVar(token.NoPos, p, "", types.NewPointer(nt))), false))
		p.Scope().Insert(fn)
	}
}

func (w *world) check(p *srcPkg) {
	if p.tpkg != nil {
		return
	}
	p.busy = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: w, Error: func(error) {}, FakeImportC: true, GoVersion: "go1.24"}
	func() {
		defer func() { _ = recover() }()
		p.tpkg, _ = conf.Check(p.path, w.fset, p.files, p.info)
	}()
	if p.tpkg == nil {
		p.tpkg = types.NewPackage(p.path, "p")
	}
	p.busy = false
}

func parsePkg(w *world, path string, files []string) (*srcPkg, error) {
	p := &srcPkg{path: path}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(w.fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, af)
		p.names = append(p.names, f)
		p.srcs = append(p.srcs, src)
	}
	w.pkgs[path] = p
	return p, nil
}

// rewriteFile returns the rewritten source of one file.
func rewriteFile(w *world, p *srcPkg, i int, noShim map[string]bool) []byte {
	f, src := p.files[i], p.srcs[i]
	r := &rewriter{fset: w.fset, file: f, src: src, info: p.info}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if !ok || noShim[path] {
			continue
		}
		s, e := r.off(im.Path.Pos()), r.off(im.Path.End())
		t := strconv.Quote(sh[0])
		if im.Name == nil {
			t = sh[1] + " " + t
		}
		r.add(s, e, t)
	}
	if needsAST(f) {
		for _, d := range f.Decls {
			r.walk(d)
		}
	}
	if r.used {
		e := r.off(f.Name.End())
		r.add(e, e, "; import "+rtName+" "+strconv.Quote(rtPath))
	}
	return []byte(r.render(0, len(src)))
}
