// Command rewrite copies the non-test Go files of a module to a scratch directory and redirects
// every source of nondeterminism (sync, sync/atomic, time, crypto/rand, channels, select, go
// statements, map iteration, package initialisation) to go.opencensus.io/internal/vsched.
//
//	rewrite -src /repo -dst SCRATCH pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

const vs = "go.opencensus.io/internal/vsched"

var shim = map[string]string{
	"sync":        vs + "/vsync",
	"sync/atomic": vs + "/vatomic",
	"time":        vs + "/vtime",
	"crypto/rand": vs + "/vrand",
	"runtime":     vs + "/vruntime",
}

var fset = token.NewFileSet()

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	flag.Parse()
	modPath := "go.opencensus.io"
	args := append([]string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Imports,ImportMap,Standard,Module,Error"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	for dec.More() {
		p := new(pkgInfo)
		if err := dec.Decode(p); err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	isMod := func(p *pkgInfo) bool { return p.Module != nil && p.Module.Path == modPath }
	tp := map[string]*types.Package{"unsafe": types.Unsafe}
	sizes := types.SizesFor("gc", runtime.GOARCH)
	type parsed struct {
		p     *pkgInfo
		files []*ast.File
		srcs  [][]byte
		names []string
	}
	// parse in parallel
	res := make([]*parsed, len(order))
	sem := make(chan struct{}, runtime.NumCPU())
	done := make(chan int)
	for i, p := range order {
		i, p := i, p
		go func() {
			sem <- struct{}{}
			defer func() { <-sem; done <- 1 }()
			r := &parsed{p: p}
			names := append([]string(nil), p.GoFiles...)
			sort.Strings(names)
			for _, n := range names {
				fn := filepath.Join(p.Dir, n)
				b, err := os.ReadFile(fn)
				if err != nil {
					die("%v", err)
				}
				mode := parser.SkipObjectResolution
				if isMod(p) {
					mode |= parser.ParseComments
				}
				f, err := parser.ParseFile(fset, fn, b, mode)
				if err != nil {
					die("parse: %v", err)
				}
				r.files = append(r.files, f)
				r.srcs = append(r.srcs, b)
				r.names = append(r.names, n)
			}
			res[i] = r
		}()
	}
	for range order {
		<-done
	}
	for _, r := range res {
		p := r.p
		if p.ImportPath == "unsafe" {
			continue
		}
		mod := isMod(p)
		if mod && p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		info := &types.Info{}
		if mod {
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		}
		var terr error
		conf := types.Config{
			IgnoreFuncBodies: !mod, FakeImportC: true, Sizes: sizes,
			Error: func(e error) {
				if terr == nil {
					terr = e
				}
			},
			Importer: impFunc(func(path string) (*types.Package, error) {
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if q := tp[path]; q != nil {
					return q, nil
				}
				return nil, fmt.Errorf("no package %s", path)
			}),
		}
		pk, _ := conf.Check(p.ImportPath, fset, r.files, info)
		tp[p.ImportPath] = pk
		if !mod {
			continue
		}
		if terr != nil {
			die("typecheck %s: %v", p.ImportPath, terr)
		}
		if err := rewritePkg(p, pk, info, r.files, r.srcs, r.names, *dst); err != nil {
			die("%s: %v", p.ImportPath, err)
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*src, f))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(*dst, f), b, 0o644)
	}
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

type edit struct {
	from, to int // byte offsets in file; insertion if from==to
	text     string
	seq      int
	lvl      int // for insertions at the same offset: lower first
}

type rw struct {
	info  *types.Info
	pkg   *types.Package
	src   []byte
	tf    *token.File
	file  *ast.File
	edits []edit
	need  bool   // needs vsched import
	label string // of the select statement that comes next
	n     int
	err   error
}

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rw) add(from, to token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), s, len(r.edits), 0})
}
func (r *rw) ins(at token.Pos, s string) { r.add(at, at, s) }

// insPre inserts text that opens something at position at: outer nodes are visited first so
// openings at the same offset appear in visiting order. insPost is the closing counterpart:
// closings at the same offset must appear in reverse visiting order.
func (r *rw) insPost(at token.Pos, s string) {
	o := r.off(at)
	r.edits = append(r.edits, edit{o, o, s, -len(r.edits) - 1, -1})
}
func (r *rw) fail(n ast.Node, f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf("%s: %s", fset.Position(n.Pos()), fmt.Sprintf(f, a...))
	}
}

func (r *rw) render(from, to int) string {
	var es []edit
	for _, e := range r.edits {
		if e.from >= from && e.to <= to {
			// insertions exactly at the right border belong to the range only if closings
			if e.from == e.to && e.from == to && e.lvl == 0 && from != to {
				continue
			}
			if e.from == e.to && e.from == from && e.lvl == -1 {
				continue
			}
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if a.lvl != b.lvl {
			return a.lvl < b.lvl
		}
		ai, bi := a.from == a.to, b.from == b.to
		if ai != bi {
			return ai // insertions before replacements at same offset
		}
		if ai {
			return a.seq < b.seq
		}
		return a.to > b.to // widest replacement first
	})
	var out bytes.Buffer
	pos := from
	for _, e := range es {
		if e.from < pos {
			continue // covered by a wider replacement
		}
		out.Write(r.src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(r.src[pos:to])
	return out.String()
}
func (r *rw) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// external reports whether a channel expression originates outside the module (stays native).
func (r *rw) external(e ast.Expr) bool {
	var o types.Object
	if x, ok := ast.Unparen(e).(*ast.SelectorExpr); ok {
		o = r.info.Uses[x.Sel]
	}
	return foreign(o)
}

// externalCall reports whether a function of another module is called.
func (r *rw) externalCall(x *ast.CallExpr) bool {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		return foreign(r.info.Uses[f])
	case *ast.SelectorExpr:
		return foreign(r.info.Uses[f.Sel])
	}
	return false
}

func foreign(o types.Object) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	if p == "time" {
		return false
	}
	return !(p == "go.opencensus.io" || strings.HasPrefix(p, "go.opencensus.io/"))
}

func (r *rw) builtin(c *ast.CallExpr) string {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func ptrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return ptrLike(u.Elem())
	}
	return false
}

func (r *rw) chanText(e ast.Expr) string {
	if r.external(e) {
		return "vsched.Native(" + r.text(e) + ")"
	}
	return r.text(e)
}

func (r *rw) walk(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if r.err != nil {
			return false
		}
		switch x := n.(type) {
		case *ast.ChanType:
			r.need = true
			r.add(x.Pos(), x.Value.Pos(), "*vsched.Chan[")
			r.insPost(x.End(), "]")
		case *ast.TypeSpec:
			if _, ok := x.Type.(*ast.ChanType); ok && !x.Assign.IsValid() {
				r.ins(x.Type.Pos(), "= ") // an alias keeps the methods of vsched.Chan
			}
		case *ast.CallExpr:
			if tv, ok := r.info.Types[x]; ok && isChan(tv.Type) && r.externalCall(x) {
				r.need = true
				r.ins(x.Pos(), "vsched.Native(")
				r.insPost(x.End(), ")")
			}
			switch r.builtin(x) {
			case "make":
				if len(x.Args) > 0 && isChan(r.typ(x.Args[0])) {
					r.need = true
					ct, ok := x.Args[0].(*ast.ChanType)
					if !ok {
						r.add(x.Pos(), x.Args[0].Pos(), "vsched.MakeLike(")
						if len(x.Args) > 1 {
							r.add(x.Args[0].End(), x.Args[1].Pos(), "(nil), ")
							r.walk(x.Args[1])
						} else {
							r.add(x.Args[0].End(), x.Rparen, "(nil), 0")
						}
						return false
					}
					r.add(x.Pos(), ct.Value.Pos(), "vsched.MakeChan[")
					r.walk(ct.Value)
					if len(x.Args) > 1 {
						r.add(ct.Value.End(), x.Args[1].Pos(), "](")
						r.walk(x.Args[1])
					} else {
						r.add(ct.Value.End(), x.Rparen, "](0")
					}
					return false
				}
			case "close":
				r.need = true
				r.add(x.Fun.Pos(), x.Fun.End(), "vsched.Close")
			case "len", "cap":
				if isChan(r.typ(x.Args[0])) {
					r.need = true
					if r.builtin(x) == "len" {
						r.add(x.Fun.Pos(), x.Fun.End(), "vsched.ChanLen")
					} else {
						r.add(x.Fun.Pos(), x.Fun.End(), "vsched.ChanCap")
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.need = true
				if r.external(x.X) {
					r.add(x.OpPos, x.OpPos+2, "vsched.Recv(vsched.Native(")
					r.insPost(x.End(), "))")
					return true
				}
				r.add(x.OpPos, x.OpPos+2, "vsched.Recv(")
				r.insPost(x.End(), ")")
			}
		case *ast.AssignStmt:
			// v, ok := <-c
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.need = true
					for _, l := range x.Lhs {
						r.walk(l)
					}
					if r.external(u.X) {
						r.add(u.OpPos, u.OpPos+2, "vsched.Recv2(vsched.Native(")
						r.insPost(u.End(), "))")
					} else {
						r.add(u.OpPos, u.OpPos+2, "vsched.Recv2(")
						r.insPost(u.End(), ")")
					}
					r.walk(u.X)
					return false
				}
			}
			for _, l := range x.Lhs {
				r.mapKey(l)
			}
		case *ast.IncDecStmt:
			r.mapKey(x.X)
		case *ast.SendStmt:
			r.ins(x.Pos(), "(")
			r.add(x.Arrow, x.Arrow+2, ").Send(")
			r.insPost(x.End(), ")")
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.SelectStmt:
			r.selectStmt(x)
			return false
		case *ast.LabeledStmt:
			if _, ok := x.Stmt.(*ast.SelectStmt); ok {
				s := x.Stmt.(*ast.SelectStmt)
				r.add(x.Pos(), s.Pos(), "")
				r.label = r.plain(x.Label) + ": "
				r.selectStmt(s)
				return false
			}
		case *ast.RangeStmt:
			r.rangeStmt(x)
			return false
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.need = true
					if x.Type != nil {
						r.walk(x.Type)
					}
					if r.external(u.X) {
						r.add(u.OpPos, u.OpPos+2, "vsched.Recv2(vsched.Native(")
						r.insPost(u.End(), "))")
					} else {
						r.add(u.OpPos, u.OpPos+2, "vsched.Recv2(")
						r.insPost(u.End(), ")")
					}
					r.walk(u.X)
					return false
				}
			}
		}
		return true
	})
}

func (r *rw) mapKey(l ast.Expr) {
	ix, ok := ast.Unparen(l).(*ast.IndexExpr)
	if !ok {
		return
	}
	t := r.typ(ix.X)
	if t == nil {
		return
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || !ptrLike(m.Key()) {
		return
	}
	r.need = true
	r.ins(ix.Index.Pos(), "vsched.MapKey(")
	r.insPost(ix.Index.End(), ")")
	if types.IsInterface(m.Key()) {
		// MapKey keeps the static type of its argument, which is assignable to the key type.
		_ = m
	}
}

func (r *rw) goStmt(x *ast.GoStmt) {
	r.need = true
	c := x.Call
	sig, _ := r.typ(c.Fun).Underlying().(*types.Signature)
	if sig == nil {
		r.fail(x, "go statement without signature")
		return
	}
	n, m, v := sig.Params().Len(), sig.Results().Len(), ""
	if sig.Variadic() {
		n, v = n-1, "V"
	}
	if n > 8 || m > 3 {
		r.fail(x, "unsupported go statement")
		return
	}
	r.add(x.Go, c.Fun.Pos(), fmt.Sprintf("vsched.G%s%dR%d(", v, n, m))
	r.add(c.Lparen, c.Lparen+1, ")(")
}

func (r *rw) rangeStmt(x *ast.RangeStmt) {
	t := r.typ(x.X)
	r.walk(x.X)
	r.n++
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Map:
		r.need = true
		v := fmt.Sprintf("vsE%d", r.n)
		pre := fmt.Sprintf("if !%s.Live() { continue }; ", v)
		op := "="
		if x.Tok == token.DEFINE {
			op = ":="
		}
		if !isBlank(x.Key) && !isBlank(x.Value) {
			pre += fmt.Sprintf("%s, %s %s %s.K, %s.V(); ", r.plain(x.Key), r.plain(x.Value), op, v, v)
		} else if !isBlank(x.Key) {
			pre += fmt.Sprintf("%s %s %s.K; ", r.plain(x.Key), op, v)
		} else if !isBlank(x.Value) {
			pre += fmt.Sprintf("%s %s %s.V(); ", r.plain(x.Value), op, v)
		}
		r.add(x.For, x.X.Pos(), fmt.Sprintf("for _, %s := range vsched.MapEntries(", v))
		r.insPost(x.X.End(), ")")
		r.ins(x.Body.Lbrace+1, " "+pre)
		r.walkBlock(x.Body)
	case *types.Chan:
		r.need = true
		v := fmt.Sprintf("vsE%d", r.n)
		ch := r.chanText(x.X)
		pre := ""
		if isBlank(x.Key) {
			pre = fmt.Sprintf("_, %sok := vsched.Recv2(%s); if !%sok { break }; ", v, ch, v)
		} else if x.Tok == token.DEFINE {
			pre = fmt.Sprintf("%s, %sok := vsched.Recv2(%s); if !%sok { break }; ", r.plain(x.Key), v, ch, v)
		} else {
			pre = fmt.Sprintf("%sv, %sok := vsched.Recv2(%s); if !%sok { break }; %s = %sv; ", v, v, ch, v, r.plain(x.Key), v)
		}
		r.add(x.For, x.Body.Lbrace, "for ")
		r.ins(x.Body.Lbrace+1, " "+pre)
		r.walkBlock(x.Body)
	default:
		if x.Key != nil {
			r.walk(x.Key)
		}
		if x.Value != nil {
			r.walk(x.Value)
		}
		r.walkBlock(x.Body)
	}
}

func (r *rw) plain(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }

func (r *rw) walkBlock(b *ast.BlockStmt) {
	for _, s := range b.List {
		r.walk(s)
	}
}

func (r *rw) selectStmt(x *ast.SelectStmt) {
	r.need = true
	r.n++
	id := r.n
	label := r.label
	r.label = ""
	hasDef := false
	decl := ""
	var cases []string
	ci := 0
	type cc struct {
		c   *ast.CommClause
		pre string
	}
	var ccs []cc
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = true
			ccs = append(ccs, cc{c, "default:"})
			continue
		}
		v := fmt.Sprintf("vsC%d_%d", id, ci)
		pre := fmt.Sprintf("case %d:", ci)
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			r.walk(s.Chan)
			r.walk(s.Value)
			decl += fmt.Sprintf("%s := %s; ", v, r.chanText(s.Chan))
			cases = append(cases, fmt.Sprintf("%s.SendCase(%s)", v, r.text(s.Value)))
		case *ast.ExprStmt:
			u, ok := ast.Unparen(s.X).(*ast.UnaryExpr)
			if !ok {
				r.fail(s, "select case")
				return
			}
			r.walk(u.X)
			decl += fmt.Sprintf("%s := %s; ", v, r.chanText(u.X))
			cases = append(cases, v+".RecvCase()")
		case *ast.AssignStmt:
			u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			if !ok {
				r.fail(s, "select case")
				return
			}
			r.walk(u.X)
			decl += fmt.Sprintf("%s := %s; ", v, r.chanText(u.X))
			cases = append(cases, v+".RecvCase()")
			op := "="
			if s.Tok == token.DEFINE {
				op = ":="
			}
			if len(s.Lhs) == 1 {
				pre += fmt.Sprintf(" %s %s %s.V(vsS%d);", r.plain(s.Lhs[0]), op, v, id)
			} else {
				pre += fmt.Sprintf(" %s, %s %s %s.V2(vsS%d);", r.plain(s.Lhs[0]), r.plain(s.Lhs[1]), op, v, id)
			}
		}
		ccs = append(ccs, cc{c, pre})
		ci++
	}
	head := fmt.Sprintf("{ %svsS%d := vsched.Select(%v, %s); %sswitch vsS%d.I {", decl, id, hasDef, strings.Join(cases, ", "), label, id)
	if len(cases) == 0 {
		head = fmt.Sprintf("{ vsS%d := vsched.Select(%v); %sswitch vsS%d.I {", id, hasDef, label, id)
	}
	// drop edits made inside the communication clauses: they were rendered already
	r.add(x.Select, x.Body.Lbrace+1, head)
	for _, c := range ccs {
		end := c.c.Colon + 1
		r.add(c.c.Case, end, c.pre)
		for _, s := range c.c.Body {
			r.walk(s)
		}
	}
	tail := "}}"
	if !hasDef {
		tail = "default: panic(\"vsched: unreachable\") }}"
	}
	r.add(x.Body.Rbrace, x.Body.Rbrace+1, tail)
}

func rewritePkg(p *pkgInfo, pk *types.Package, info *types.Info, files []*ast.File, srcs [][]byte, names []string, dst string) error {
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, "go.opencensus.io"), "/")
	dir := filepath.Join(dst, rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	inits := []string{}   // calls in init order
	zeros := []string{}   // var names without initialiser
	initFns := []string{} // renamed init functions
	rws := make([]*rw, len(files))
	varInit := map[types.Object]string{}
	if pk.Name() == "main" {
		return nil
	}
	for fi, f := range files {
		r := &rw{info: info, pkg: pk, src: srcs[fi], tf: fset.File(f.Pos()), file: f}
		rws[fi] = r
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shim[path]; ok {
				name := filepath.Base(path)
				if im.Name != nil {
					r.add(im.Path.Pos(), im.Path.End(), strconv.Quote(s))
				} else {
					r.add(im.Path.Pos(), im.Path.End(), name+" "+strconv.Quote(s))
				}
			}
		}
		for _, d := range f.Decls {
			r.walk(d)
		}
		if r.err != nil {
			return r.err
		}
		var tailText bytes.Buffer
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("vsInit%d_%d", fi, len(initFns))
					r.add(d.Name.Pos(), d.Name.End(), nm)
					initFns = append(initFns, nm)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					s := s.(*ast.ValueSpec)
					if len(s.Values) == 0 {
						for _, n := range s.Names {
							if n.Name != "_" {
								zeros = append(zeros, n.Name)
							}
						}
						continue
					}
					if len(s.Values) == len(s.Names) {
						for i, n := range s.Names {
							if n.Name == "_" {
								continue
							}
							nm := "vsVar_" + n.Name
							if o := info.Defs[n]; o != nil {
								switch o.Type().String() {
								case "*regexp.Regexp", "*html/template.Template", "*text/template.Template", "error":
									continue // immutable
								}
							}
							fmt.Fprintf(&tailText, "\nfunc %s() { %s = %s }\n", nm, n.Name, r.text(s.Values[i]))
							varInit[info.Defs[n]] = nm
						}
					} else {
						var ls []string
						nm := ""
						for _, n := range s.Names {
							ls = append(ls, n.Name)
							if n.Name != "_" && nm == "" {
								nm = "vsVar_" + n.Name
							}
						}
						if nm == "" {
							continue
						}
						fmt.Fprintf(&tailText, "\nfunc %s() { %s = %s }\n", nm, strings.Join(ls, ", "), r.text(s.Values[0]))
						for _, n := range s.Names {
							if n.Name != "_" {
								varInit[info.Defs[n]] = nm
							}
						}
					}
				}
			}
		}
		if r.need {
			r.ins(f.Name.End(), "; import vsched "+strconv.Quote(vs))
		}
		outSrc := r.render(0, len(r.src)) + tailText.String()
		if err := os.WriteFile(filepath.Join(dir, names[fi]), []byte(outSrc), 0o644); err != nil {
			return err
		}
	}
	seen := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			if nm, ok := varInit[l]; ok && !seen[nm] {
				seen[nm] = true
				inits = append(inits, nm)
			}
		}
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport vsched %q\n\n", pk.Name(), vs)
	fmt.Fprintf(&g, "func init() { vsched.RegisterPkg(%q, vsReinit) }\n\nfunc vsReinit() {\n", p.ImportPath)
	for _, z := range zeros {
		fmt.Fprintf(&g, "\tvsched.Zero(&%s)\n", z)
	}
	for _, i := range inits {
		fmt.Fprintf(&g, "\t%s()\n", i)
	}
	for _, i := range initFns {
		fmt.Fprintf(&g, "\t%s()\n", i)
	}
	fmt.Fprintf(&g, "}\n")
	return os.WriteFile(filepath.Join(dir, "vs_reinit_gen.go"), g.Bytes(), 0o644)
}
