// Command instr copies the library under test into a scratch module in which
// every memory access that may be shared, every function entry and loop
// iteration, every lock operation, clock reading and random draw goes through
// package simrt. It rewrites by type information, not by pattern, so it works
// on whatever the working tree contains.
//
//	instr -src /repo -out DIR [-coarse file,file]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	Export     string
	Standard   bool
	DepOnly    bool
	files      []*ast.File
	paths      []string
	tpkg       *types.Package
	info       *types.Info
}

var (
	fset    = token.NewFileSet()
	module  string
	sites   = []string{"lock"}
	siteIDs = map[string]int{}
	srcDir  string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	coarse := flag.String("coarse", "", "")
	flag.Parse()
	srcDir = *src
	coarseSet := map[string]bool{}
	for _, c := range strings.Split(*coarse, ",") {
		coarseSet[c] = true
	}
	pkgs := list(*src)
	byPath := map[string]*pkgInfo{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	exp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := &imports{byPath, exp}
	var locals []*pkgInfo
	for _, p := range pkgs { // go list -deps lists dependencies first
		if !isLocal(p) {
			continue
		}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
			if err != nil {
				die("parse: %v", err)
			}
			p.files = append(p.files, af)
			p.paths = append(p.paths, path)
		}
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: goVersion(*src)}
		tp, err := conf.Check(p.ImportPath, fset, p.files, p.info)
		if err != nil {
			die("type check: %v", err)
		}
		p.tpkg = tp
		locals = append(locals, p)
	}
	for _, p := range locals {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, module), "/")
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		inits := 0
		for i, f := range p.files {
			name, _ := filepath.Rel(*src, p.paths[i])
			g := &gen{p: p, f: f, name: name, coarse: coarseSet[name], inits: &inits}
			text := g.file()
			if err := os.WriteFile(filepath.Join(dir, filepath.Base(p.paths[i])), []byte(text), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	mod := fmt.Sprintf("module %s\n\ngo %s\n\nrequire simrt v0.0.0\n", module, strings.TrimPrefix(goVersion(*src), "go"))
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod), 0o644); err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d packages, %d sites\n", len(locals), len(sites))
}

func isLocal(p *pkgInfo) bool {
	return p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")
}

func goVersion(src string) string {
	b, _ := os.ReadFile(filepath.Join(src, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			return "go" + f[1]
		}
	}
	return "go1.16"
}

func list(src string) []*pkgInfo {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
	}
	cmd := exec.Command("go", "list", "-json=ImportPath,Name,Dir,GoFiles,Standard,DepOnly", "./...")
	cmd.Dir = src
	names := map[string]bool{}
	for _, p := range decode(cmd) {
		if p.Name != "main" && len(p.GoFiles) > 0 && !strings.HasPrefix(p.ImportPath, module+"/examples") {
			names[p.ImportPath] = true
		}
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Standard,Export,Imports"}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	cmd = exec.Command("go", append(args, ns...)...)
	cmd.Dir = src
	return decode(cmd)
}

func decode(cmd *exec.Cmd) []*pkgInfo {
	var errb bytes.Buffer
	cmd.Stderr = &errb
	outb, err := cmd.Output()
	if err != nil {
		die("%v: %v\n%s", cmd.Args[:2], err, errb.String())
	}
	d := json.NewDecoder(bytes.NewReader(outb))
	var ps []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			return ps
		} else if err != nil {
			die("go list: %v", err)
		}
		ps = append(ps, p)
	}
}

type imports struct {
	byPath map[string]*pkgInfo
	std    types.Importer
}

func (i *imports) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := i.byPath[path]; p != nil && isLocal(p) && p.tpkg != nil {
		return p.tpkg, nil
	}
	return i.std.Import(path)
}

// ---- generation

type gen struct {
	p      *pkgInfo
	f      *ast.File
	name   string
	coarse bool
	inits  *int
	shared map[types.Object]bool
	tmp    int
	useRT  bool
	inPtr  bool // inside a conversion to unsafe.Pointer
	fn     string
}

func (g *gen) print(n ast.Node) string {
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, n); err != nil {
		die("print: %v", err)
	}
	return b.String()
}

func (g *gen) site(pos token.Pos) string {
	g.useRT = true
	p := fset.Position(pos)
	rel, _ := filepath.Rel(srcDir, p.Filename)
	k := fmt.Sprintf("%s:%d", rel, p.Line)
	id, ok := siteIDs[k]
	if !ok {
		id = len(sites)
		siteIDs[k] = id
		sites = append(sites, k)
	}
	return strconv.Itoa(id)
}

var replaced = map[string]string{
	"sync":         "simrt/simsync",
	"sync/atomic":  "simrt/simatomic",
	"hash/fnv":     "simrt/simfnv",
	"hash/maphash": "simrt/simmaphash",
	"crypto/rand":  "simrt/simcryptorand",
}

var refused = map[string]bool{"C": true}

// chanTypes replaces channel types by the simulated ones.
func (g *gen) chanTypes(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		g.chanTypes(v.Elem())
		if c, ok := v.Interface().(*ast.ChanType); ok {
			g.useRT = true
			e := &ast.StarExpr{X: &ast.IndexExpr{X: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Chan")}, Index: c.Value}}
			g.p.info.Types[e] = g.p.info.Types[c]
			v.Set(reflect.ValueOf(e))
		}
	case reflect.Pointer:
		if v.IsNil() || v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
			return
		}
		if x, ok := v.Interface().(*ast.SelectorExpr); ok {
			if t, ok := g.p.info.Uses[x.Sel].(*types.TypeName); ok && t.Pkg() != nil && t.Pkg().Path() == "time" && (t.Name() == "Timer" || t.Name() == "Ticker") {
				g.useRT = true
				x.X = ast.NewIdent("simrt")
			}
		}
		g.chanTypes(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.chanTypes(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			g.chanTypes(v.Index(i))
		}
	}
}

func (g *gen) isChan(e ast.Expr) bool {
	_, ok := core(g.typeOf(e)).(*types.Chan)
	return ok
}

// recv renders the channel of a receive operation, "" if e is none.
func (g *gen) recv(e ast.Expr) (ch, site string) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return "simrt.ChanOf(" + g.rd(u.X) + ")", g.site(u.Pos())
	}
	return "", ""
}

func (g *gen) selectStmt(x *ast.SelectStmt, lab string) string {
	n := g.next()
	var names, inits []string
	var body strings.Builder
	def := "false"
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			body.WriteString("default:\n" + g.stmts(cc.Body))
			continue
		}
		k := fmt.Sprintf("simc%d_%d", n, len(names))
		pre, init := "", ""
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			init = "simrt.ChanOf(" + g.rd(cm.Chan) + ").SendCase(" + g.rd(cm.Value) + ")"
		case *ast.ExprStmt:
			ch, _ := g.recv(cm.X)
			init = ch + ".RecvCase()"
		case *ast.AssignStmt:
			ch, _ := g.recv(cm.Rhs[0])
			init = ch + ".RecvCase()"
			var l []string
			for _, e := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					l = append(l, g.print(e))
				} else {
					l = append(l, g.target(e))
				}
			}
			r := []string{k + ".V", k + ".OK"}[:len(l)]
			pre = strings.Join(l, ", ") + " " + cm.Tok.String() + " " + strings.Join(r, ", ") + "\n"
			if cm.Tok == token.DEFINE {
				for _, e := range cm.Lhs {
					if !blank(e) {
						pre += "_ = " + g.print(e) + "\n"
					}
				}
			}
		}
		body.WriteString(fmt.Sprintf("case %d:\n", len(names)) + pre + g.stmts(cc.Body))
		names = append(names, k)
		inits = append(inits, init)
	}
	h := "switch "
	if len(names) > 0 {
		h += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	return lab + h + "simrt.Select(" + strings.Join(append([]string{def, g.site(x.Pos())}, names...), ", ") + ") {\n" + body.String() + "}"
}

func (g *gen) file() string {
	g.findShared()
	g.chanTypes(reflect.ValueOf(g.f.Decls))
	var body strings.Builder
	var resetVars []string
	for _, d := range g.f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					body.WriteString("var " + g.valueSpec(vs) + "\n")
					for _, n := range vs.Names {
						if n.Name != "_" {
							resetVars = append(resetVars, n.Name)
						}
					}
				}
				continue
			}
			body.WriteString(g.print(d) + "\n")
		case *ast.FuncDecl:
			body.WriteString(g.funcDecl(d) + "\n")
		}
	}
	// package-level state back to its initial value, in initialisation order
	first := g.p.files[0] == g.f
	for _, v := range resetVars {
		fmt.Fprintf(&body, "func init() { simrt.OnReset(func() { simZero(&%s) }) }\n", v)
		g.useRT = true
	}
	last := g.p.files[len(g.p.files)-1] == g.f
	var hdr strings.Builder
	hdr.WriteString("package " + g.f.Name.Name + "\n")
	keep := ""
	dot := map[string]bool{}
	for _, is := range g.f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if refused[path] {
			die("%s imports %s", g.name, path)
		}
		name := ""
		if is.Name != nil {
			name = is.Name.Name
		}
		if r, ok := replaced[path]; ok {
			if name == "" {
				name = filepath.Base(path)
			}
			fmt.Fprintf(&hdr, "import %s %q\n", name, r)
			if name != "_" && name != "." {
				switch path {
				case "sync":
					keep += "var _ " + name + ".Mutex\n"
				case "sync/atomic":
					keep += "var _ " + name + ".Int32\n"
				case "hash/fnv":
					keep += "var _ = " + name + ".New64\n"
				case "hash/maphash":
					keep += "var _ " + name + ".Seed\n"
				case "crypto/rand":
					keep += "var _ = " + name + ".Read\n"
				}
			}
			continue
		}
		dot[path] = true
		fmt.Fprintf(&hdr, "import %s %q\n", name, path)
		if name != "_" && name != "." {
			switch path {
			case "time":
				keep += "var _ " + or(name, "time") + ".Duration\n"
			case "os":
				keep += "var _ " + or(name, "os") + ".FileMode\n"
			case "math/rand":
				keep += "var _ " + or(name, "rand") + ".Rand\n"
			case "math/rand/v2":
				keep += "var _ " + or(name, "rand") + ".Rand\n"
			}
		}
	}
	if first {
		keep += "func simZero[T any](p *T) { var z T; *p = z }\n"
	}
	if last {
		body.WriteString(g.resetInit())
	}
	if g.useRT || last {
		hdr.WriteString("import \"simrt\"\n")
	}
	return hdr.String() + keep + body.String()
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// resetInit re-runs package initialisation: initialisers in dependency order,
// then init functions.
func (g *gen) resetInit() string {
	var b strings.Builder
	b.WriteString("func init() { simrt.OnReset(func() {\n")
	for _, in := range g.p.info.InitOrder {
		var l []string
		blank := true
		for _, v := range in.Lhs {
			l = append(l, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		// initialisers may use imports of other files, so they are emitted
		// as functions next to their variables
		fmt.Fprintf(&b, "simInit_%s()\n", strings.Join(l, "_"))
	}
	for i := 0; i < *g.inits; i++ {
		fmt.Fprintf(&b, "simInitFunc%d()\n", i)
	}
	b.WriteString("}) }\n")
	return b.String()
}

func (g *gen) valueSpec(vs *ast.ValueSpec) string {
	var ns []string
	for _, n := range vs.Names {
		ns = append(ns, n.Name)
	}
	s := strings.Join(ns, ", ")
	if vs.Type != nil {
		s += " " + g.typ(vs.Type)
	}
	if len(vs.Values) == 0 {
		return s
	}
	s += " = " + g.rds(vs.Values)
	// re-initialisers
	g.useRT = true
	emit := func(names []string, vals string) {
		blank := true
		for _, n := range names {
			if n != "_" {
				blank = false
			}
		}
		if blank {
			return
		}
		s += fmt.Sprintf("\nfunc simInit_%s() { %s = %s }", strings.Join(names, "_"), strings.Join(names, ", "), vals)
	}
	if len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			emit([]string{n.Name}, g.rd(vs.Values[i]))
		}
	} else {
		emit(ns, g.rds(vs.Values))
	}
	return s
}

// findShared collects local variables that may be reached through more than
// their own name: captured by a function literal or address taken.
func (g *gen) findShared() {
	g.shared = map[types.Object]bool{}
	info := g.p.info
	type fn struct{ lo, hi token.Pos }
	var stack []fn
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				stack = append(stack, fn{m.Pos(), m.End()})
				walk(m.Type)
				walk(m.Body)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o, ok := info.Uses[m].(*types.Var); ok && !o.IsField() && len(stack) > 0 {
					top := stack[len(stack)-1]
					if o.Pos() < top.lo || o.Pos() > top.hi {
						g.shared[o] = true
					}
				}
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					g.markRoot(m.X)
				}
			case *ast.SliceExpr:
				if _, ok := info.Types[m.X].Type.Underlying().(*types.Array); ok {
					g.markRoot(m.X)
				}
			case *ast.SelectorExpr:
				if s := info.Selections[m]; s != nil && s.Kind() == types.MethodVal && g.ptrRecv(s) && !isPtr(s.Recv()) {
					g.markRoot(m.X)
				}
			}
			return true
		})
	}
	walk(g.f)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (g *gen) ptrRecv(s *types.Selection) bool {
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return false
	}
	r := f.Type().(*types.Signature).Recv()
	return r != nil && isPtr(r.Type())
}

func (g *gen) markRoot(e ast.Expr) {
	if id := g.root(e); id != nil {
		if o, ok := g.obj(id).(*types.Var); ok {
			g.shared[o] = true
		}
	}
}

// root returns the variable an addressable expression is part of, nil if it is
// reached through a pointer or slice.
func (g *gen) root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			s := g.p.info.Selections[x]
			if s == nil {
				return x.Sel // package-qualified
			}
			if s.Indirect() || isPtr(g.typeOf(x.X)) {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := g.typeOf(x.X).Underlying().(*types.Array); !ok {
				return nil
			}
			e = x.X
		default:
			return nil
		}
	}
}

func (g *gen) obj(id *ast.Ident) types.Object {
	if o := g.p.info.Uses[id]; o != nil {
		return o
	}
	return g.p.info.Defs[id]
}

func (g *gen) typeOf(e ast.Expr) types.Type {
	t := g.p.info.Types[e].Type
	if t == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := g.obj(id); o != nil {
				return o.Type()
			}
		}
		return types.Typ[types.Invalid]
	}
	return t
}

// core is the underlying type, looking through type parameters with a core type.
func core(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		if _, tp := t.(*types.TypeParam); tp {
			var c types.Type
			for k := 0; k < i.NumEmbeddeds(); k++ {
				switch x := i.EmbeddedType(k).(type) {
				case *types.Union:
					for j := 0; j < x.Len(); j++ {
						v := x.Term(j).Type().Underlying()
						if c != nil && !types.Identical(c, v) {
							return u
						}
						c = v
					}
				default:
					v := x.Underlying()
					if _, isI := v.(*types.Interface); isI {
						return u
					}
					c = v
				}
			}
			if c != nil {
				return c
			}
		}
	}
	return u
}

// sharedVar reports whether a variable's memory may be seen by other goroutines.
func (g *gen) sharedVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.Name() == "_" {
		return false
	}
	if v.Pkg() == nil {
		return false
	}
	if v.Parent() == v.Pkg().Scope() {
		return v.Pkg().Path() == module || strings.HasPrefix(v.Pkg().Path(), module+"/")
	}
	return g.shared[o]
}

// tracked reports whether the addressable expression e needs its access recorded.
func (g *gen) tracked(e ast.Expr) bool {
	id := g.root(e)
	if id == nil {
		return true
	}
	return g.sharedVar(g.obj(id))
}

func (g *gen) isType(e ast.Expr) bool { return g.p.info.Types[e].IsType() }

func (g *gen) rds(es []ast.Expr) string {
	var s []string
	for _, e := range es {
		s = append(s, g.rd(e))
	}
	return strings.Join(s, ", ")
}

func (g *gen) typ(e ast.Expr) string {
	if e == nil {
		return ""
	}
	return g.print(e)
}

// rd renders an expression in value context.
func (g *gen) rd(e ast.Expr) string {
	if e == nil {
		return ""
	}
	tv := g.p.info.Types[e]
	if tv.Value != nil || tv.IsType() || tv.IsNil() {
		return g.print(e)
	}
	if g.coarse {
		switch e.(type) {
		case *ast.FuncLit, *ast.CallExpr, *ast.ParenExpr, *ast.BinaryExpr, *ast.UnaryExpr, *ast.KeyValueExpr, *ast.CompositeLit:
		case *ast.SelectorExpr:
			return g.pkgFunc(e.(*ast.SelectorExpr))
		default:
			return g.print(e)
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if o, ok := g.p.info.Uses[x].(*types.Var); ok && g.sharedVar(o) {
			return "simrt.RdV(&" + x.Name + ", " + g.site(x.Pos()) + ")"
		}
		return x.Name
	case *ast.BasicLit:
		return g.print(x)
	case *ast.ParenExpr:
		return "(" + g.rd(x.X) + ")"
	case *ast.FuncLit:
		return g.funcLit(x)
	case *ast.CompositeLit:
		return g.composite(x)
	case *ast.SelectorExpr:
		s := g.p.info.Selections[x]
		if s == nil { // package-qualified
			if o, ok := g.p.info.Uses[x.Sel].(*types.Var); ok && g.sharedVar(o) {
				return "simrt.RdV(&" + g.print(x) + ", " + g.site(x.Pos()) + ")"
			}
			return g.pkgFunc(x)
		}
		switch s.Kind() {
		case types.FieldVal:
			if g.addressable(x) {
				if g.tracked(x) {
					return "simrt.RdV(&" + g.lv(x) + ", " + g.site(x.Sel.Pos()) + ")"
				}
				return g.lv(x)
			}
			return g.rd(x.X) + "." + x.Sel.Name
		case types.MethodVal:
			return g.method(x, s)
		}
		return g.print(x) // method expression
	case *ast.IndexExpr:
		if _, ok := g.typeOf(x.X).Underlying().(*types.Signature); ok {
			return g.print(x) // instantiation
		}
		switch core(g.typeOf(x.X)).(type) {
		case *types.Map:
			return "simrt.MR(" + g.rd(x.X) + ", " + g.site(x.Pos()) + ")[" + g.rd(x.Index) + "]"
		case *types.Slice, *types.Array, *types.Pointer:
			if g.addressable(x) {
				if g.tracked(x) {
					return "simrt.RdV(&" + g.lv(x) + ", " + g.site(x.Pos()) + ")"
				}
				return g.lv(x)
			}
		}
		return g.rd(x.X) + "[" + g.rd(x.Index) + "]"
	case *ast.IndexListExpr:
		return g.print(x)
	case *ast.StarExpr:
		return "simrt.RdV(&" + g.lv(x) + ", " + g.site(x.Pos()) + ")"
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return "&" + g.composite(cl)
			}
			if g.coarse {
				return g.print(x)
			}
			return "&" + g.lv(x.X)
		case token.ARROW:
			ch, st := g.recv(x)
			if _, ok := g.typeOf(x).(*types.Tuple); ok {
				return ch + ".Recv2(" + st + ")"
			}
			return ch + ".Recv(" + st + ")"
		}
		return x.Op.String() + "(" + g.rd(x.X) + ")"
	case *ast.BinaryExpr:
		return g.rd(x.X) + " " + x.Op.String() + " " + g.rdp(x.Y)
	case *ast.KeyValueExpr:
		return g.rd(x.Key) + ": " + g.rd(x.Value)
	case *ast.SliceExpr:
		base := ""
		if _, ok := core(g.typeOf(x.X)).(*types.Array); ok {
			base = g.lv(x.X)
		} else {
			base = g.rd(x.X)
		}
		s := base + "[" + g.rd(x.Low) + ":" + g.rd(x.High)
		if x.Slice3 {
			s += ":" + g.rd(x.Max)
		}
		return s + "]"
	case *ast.TypeAssertExpr:
		t := "type"
		if x.Type != nil {
			t = g.typ(x.Type)
		}
		return g.rd(x.X) + ".(" + t + ")"
	case *ast.CallExpr:
		return g.call(x)
	case *ast.Ellipsis:
		return g.print(x)
	}
	return g.print(e)
}

// rdp renders an operand, parenthesised where needed to keep its own grouping.
func (g *gen) rdp(e ast.Expr) string { return g.rd(e) }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

var randFuncs = map[string]bool{"Int63": true, "Uint32": true, "Uint64": true, "Int31": true, "Int": true, "Int63n": true, "Int31n": true, "Intn": true,
	"Float64": true, "Float32": true, "Perm": true, "Shuffle": true, "Read": true, "NormFloat64": true, "ExpFloat64": true, "Seed": true,
	"Int64": true, "Int64N": true, "Int32": true, "Int32N": true, "IntN": true, "Uint": true, "UintN": true, "Uint32N": true, "Uint64N": true}

// pkgFunc renders pkg.Name, redirecting clocks and randomness.
// mapKey renders the key of a store into a map; one that holds addresses is
// numbered, which fixes its place in the order of the keys.
func (g *gen) mapKey(ix *ast.IndexExpr) string {
	k := g.rd(ix.Index)
	m, ok := core(g.typeOf(ix.X)).(*types.Map)
	if !ok || g.coarse || !hasAddr(m.Key()) || isNilable(m.Key()) && g.p.info.Types[ix.Index].IsNil() {
		return k
	}
	if _, ok := m.Key().Underlying().(*types.Interface); ok {
		if _, ok := m.Key().(*types.TypeParam); !ok {
			if m.Key().Underlying().(*types.Interface).NumMethods() > 0 {
				return k
			}
			return "simrt.Key(any(" + k + "))"
		}
	}
	return "simrt.Key(" + k + ")"
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	}
	return false
}

// hasAddr reports whether values of a type may hold an address.
func hasAddr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasAddr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasAddr(u.Elem())
	}
	return true
}

func (g *gen) pkgFunc(x *ast.SelectorExpr) string {
	o := g.p.info.Uses[x.Sel]
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
		return g.print(x)
	}
	switch f.Pkg().Path() {
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "Sleep":
			g.useRT = true
			return "simrt." + f.Name()
		case "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
			g.useRT = true
			return "simrt." + f.Name()
		}
	case "os":
		if f.Name() == "Getpid" || f.Name() == "Getppid" {
			g.useRT = true
			return "simrt.Getpid"
		}
	case "math/rand":
		if f.Name() == "NewSource" {
			g.useRT = true
			return "simrt.NewSource"
		}
		if randFuncs[f.Name()] {
			g.useRT = true
			return "simrt.R1()." + f.Name()
		}
	case "math/rand/v2":
		if f.Name() == "NewPCG" || f.Name() == "NewChaCha8" {
			break
		}
		if f.Name() == "N" {
			g.useRT = true
			return "simrt.RN"
		}
		if randFuncs[f.Name()] {
			g.useRT = true
			return "simrt.R2()." + f.Name()
		}
	}
	return g.print(x)
}

// method renders a method value or the function part of a method call.
func (g *gen) method(x *ast.SelectorExpr, s *types.Selection) string {
	if g.coarse {
		return g.print(x)
	}
	rt := s.Recv()
	ext := g.extState(s)
	if g.ptrRecv(s) && !isPtr(rt) {
		if ext != "" {
			return "simrt.ExtP(&" + g.lv(x.X) + ", " + ext + ", " + g.site(x.Pos()) + ")." + x.Sel.Name
		}
		return g.lv(x.X) + "." + x.Sel.Name
	}
	b := g.rd(x.X)
	if ext != "" {
		if isPtr(rt) {
			b = "simrt.ExtP(" + b + ", " + ext + ", " + g.site(x.Pos()) + ")"
		} else {
			b = "simrt.ExtI(" + b + ", " + ext + ", " + g.site(x.Pos()) + ")"
		}
	}
	if _, ok := unparen(x.X).(*ast.StarExpr); ok {
		b = "(" + b + ")"
	}
	return b + "." + x.Sel.Name
}

// extState tells whether a method belongs to a standard-library type that
// carries unsynchronised state, and whether it writes it ("true"/"false").
func (g *gen) extState(s *types.Selection) string {
	f, ok := s.Obj().(*types.Func)
	if !ok || f.Pkg() == nil || len(s.Index()) != 1 {
		return ""
	}
	switch f.Pkg().Path() {
	case "math/rand", "math/rand/v2", "bytes", "strings", "bufio", "hash", "container/list", "container/ring", "io", "math/big", "text/tabwriter":
	default:
		return ""
	}
	if f.Pkg().Path() == "strings" && strings.Contains(s.Recv().String(), "Replacer") {
		return ""
	}
	switch f.Name() {
	case "Len", "Cap", "Bytes", "String", "Available", "Front", "Back", "Size", "Sum", "Sum64", "Sum32", "BlockSize", "Cmp", "Sign":
		return "false"
	}
	return "true"
}

func (g *gen) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return g.addressable(x.X)
	case *ast.Ident:
		_, ok := g.obj(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		s := g.p.info.Selections[x]
		if s == nil {
			_, ok := g.p.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		return s.Indirect() || isPtr(g.typeOf(x.X)) || g.addressable(x.X)
	case *ast.IndexExpr:
		switch t := core(g.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return g.addressable(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// lv renders an addressable expression without recording the access to itself.
func (g *gen) lv(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + g.lv(x.X) + ")"
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		s := g.p.info.Selections[x]
		if s == nil {
			return g.print(x)
		}
		if isPtr(g.typeOf(x.X)) || !g.addressable(x.X) {
			return g.rd(x.X) + "." + x.Sel.Name
		}
		return g.lv(x.X) + "." + x.Sel.Name
	case *ast.IndexExpr:
		if _, ok := core(g.typeOf(x.X)).(*types.Array); ok && g.addressable(x.X) {
			return g.lv(x.X) + "[" + g.rd(x.Index) + "]"
		}
		return g.rd(x.X) + "[" + g.rd(x.Index) + "]"
	case *ast.StarExpr:
		return "(*" + g.rd(x.X) + ")"
	case *ast.CompositeLit:
		return g.composite(x)
	}
	return g.rd(e)
}

func (g *gen) composite(x *ast.CompositeLit) string {
	t := g.p.info.Types[x].Type
	var st bool
	if t != nil {
		u := core(t)
		if p, ok := u.(*types.Pointer); ok { // elided &T in a nested literal
			u = core(p.Elem())
		}
		_, st = u.(*types.Struct)
	}
	var es []string
	for _, e := range x.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			k := ""
			if st {
				k = g.print(kv.Key)
			} else {
				k = g.rd(kv.Key)
			}
			es = append(es, k+": "+g.rd(kv.Value))
		} else {
			es = append(es, g.rd(e))
		}
	}
	return g.typ(x.Type) + "{" + strings.Join(es, ", ") + "}"
}

func (g *gen) isSlice(e ast.Expr) bool {
	_, ok := core(g.typeOf(e)).(*types.Slice)
	return ok
}

func (g *gen) call(x *ast.CallExpr) string {
	dots := ""
	if x.Ellipsis.IsValid() {
		dots = "..."
	}
	fun := unparen(x.Fun)
	if g.isType(x.Fun) { // conversion
		was := g.inPtr
		if b, ok := core(g.typeOf(x)).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			g.inPtr = true // arithmetic on addresses keeps the real ones
		}
		arg := g.rd(x.Args[0])
		g.inPtr = was
		if !g.coarse && g.isSlice(x.Args[0]) {
			if b, ok := core(g.typeOf(x)).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				arg = "simrt.RSA(" + arg + ", " + g.site(x.Pos()) + ")"
			}
		}
		t := g.typ(x.Fun)
		if b, ok := core(g.typeOf(x)).(*types.Basic); ok && !g.inPtr {
			if a, ok := core(g.typeOf(x.Args[0])).(*types.Basic); ok && b.Kind() == types.Uintptr && a.Kind() == types.UnsafePointer {
				g.useRT = true
				arg = "simrt.Addr(" + arg + ")"
			}
		}
		return "(" + t + ")(" + arg + ")"
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := g.p.info.Uses[id].(*types.Builtin); ok {
			return g.builtin(x, b.Name(), dots)
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := g.p.info.Uses[sel.Sel].(*types.Builtin); ok { // unsafe.X
			_ = b
			return g.print(x)
		}
	}
	if s := g.address(x, fun); s != "" {
		return s
	}
	f := ""
	if g.coarse {
		if s, ok := fun.(*ast.SelectorExpr); ok && g.p.info.Selections[s] != nil {
			f = g.rd(s.X) + "." + s.Sel.Name
			if g.p.info.Selections[s].Kind() == types.MethodExpr {
				f = g.print(s)
			}
		} else {
			f = g.rd(x.Fun)
		}
	} else {
		f = g.rd(x.Fun)
	}
	if _, ok := fun.(*ast.FuncLit); ok {
		f = "(" + f + ")"
	}
	ext, wr := g.external(fun)
	var as []string
	for _, a := range x.Args {
		s := g.rd(a)
		if ext && !g.coarse && g.isSlice(a) && !g.p.info.Types[a].IsNil() {
			if _, lit := a.(*ast.CompositeLit); !lit {
				h := "RSA"
				if wr {
					h = "WSA"
				}
				s = "simrt." + h + "(" + s + ", " + g.site(x.Pos()) + ")"
			}
		}
		as = append(as, s)
	}
	return f + "(" + strings.Join(as, ", ") + dots + ")"
}

// address renders calls that reveal an address: the Pointer method of
// reflect.Value and %p in a constant format.
func (g *gen) address(x *ast.CallExpr, fun ast.Expr) string {
	sel, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	f, ok := g.p.info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return ""
	}
	switch f.FullName() {
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafeAddr":
		g.useRT = true
		if f.Name() == "UnsafeAddr" {
			return "simrt.AddrV(" + g.rd(sel.X) + ".Addr())"
		}
		return "simrt.AddrV(" + g.rd(sel.X) + ")"
	case "fmt.Sprintf", "fmt.Fprintf", "fmt.Appendf", "fmt.Errorf":
		at := 0
		if f.Name() == "Fprintf" || f.Name() == "Appendf" {
			at = 1
		}
		if len(x.Args) <= at || x.Ellipsis.IsValid() {
			return ""
		}
		lit, ok := unparen(x.Args[at]).(*ast.BasicLit)
		if !ok || !strings.Contains(lit.Value, "%p") || strings.Contains(lit.Value, "%[") || strings.Contains(lit.Value, "*") {
			return ""
		}
		form, n := "", at+1
		ptr := map[int]bool{}
		for i := 0; i < len(lit.Value); i++ {
			form += lit.Value[i : i+1]
			if lit.Value[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(lit.Value) && strings.IndexByte("+-# 0123456789.", lit.Value[j]) >= 0 {
				j++
			}
			if j >= len(lit.Value) {
				break
			}
			if lit.Value[j] == 'p' && j == i+1 {
				form += "#x"
				ptr[n] = true
			} else {
				form += lit.Value[i+1 : j+1]
			}
			if lit.Value[j] != '%' {
				n++
			}
			i = j
		}
		var as []string
		for i, a := range x.Args {
			switch s := g.rd(a); {
			case i == at:
				as = append(as, form)
			case ptr[i]:
				as = append(as, "simrt.AddrAny("+s+")")
			default:
				as = append(as, s)
			}
		}
		g.useRT = true
		return g.rd(x.Fun) + "(" + strings.Join(as, ", ") + ")"
	}
	return ""
}

// external reports whether a call leaves the module and whether it writes the
// slices it is given.
func (g *gen) external(fun ast.Expr) (bool, bool) {
	var o types.Object
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		o = g.p.info.Uses[f.Sel]
	case *ast.Ident:
		o = g.p.info.Uses[f]
	case *ast.IndexExpr:
		return g.external(unparen(f.X))
	case *ast.IndexListExpr:
		return g.external(unparen(f.X))
	}
	fn, ok := o.(*types.Func)
	if !ok || fn.Pkg() == nil {
		return false, false
	}
	p := fn.Pkg().Path()
	if p == module || strings.HasPrefix(p, module+"/") {
		return false, false
	}
	n := fn.Name()
	wr := p == "sort" && !strings.HasPrefix(n, "Search") && !strings.Contains(n, "AreSorted") && n != "IsSorted" ||
		p == "slices" && (strings.HasPrefix(n, "Sort") || n == "Reverse" || n == "Insert" || strings.HasPrefix(n, "Delete") || n == "Replace" || strings.HasPrefix(n, "Compact")) ||
		strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Put")
	return true, wr
}

func (g *gen) builtin(x *ast.CallExpr, name, dots string) string {
	a := x.Args
	if len(a) > 0 && g.isChan(a[0]) {
		switch name {
		case "make":
			g.useRT = true
			n := "0"
			if len(a) > 1 {
				n = "int(" + g.rd(a[1]) + ")"
			}
			mk := "simrt.MakeChan"
			t := unparen(a[0])
			if p, ok := t.(*ast.StarExpr); ok {
				return mk + "[" + g.print(p.X.(*ast.IndexExpr).Index) + "](" + n + ")"
			}
			g.tmp++
			return "(" + g.typ(a[0]) + ")(simrt.MakeAny[" + g.typ(a[0]) + "](" + n + "))"
		case "len":
			return "simrt.ChanOf(" + g.rd(a[0]) + ").Len()"
		case "cap":
			return "simrt.ChanOf(" + g.rd(a[0]) + ").Cap()"
		case "close":
			return "simrt.ChanOf(" + g.rd(a[0]) + ").Close(" + g.site(x.Pos()) + ")"
		}
	}
	if g.coarse {
		if name == "new" || name == "make" {
			s := name + "(" + g.typ(a[0])
			for _, e := range a[1:] {
				s += ", " + g.rd(e)
			}
			return s + ")"
		}
		return name + "(" + g.rds(a) + dots + ")"
	}
	switch name {
	case "len", "cap":
		switch t := core(g.typeOf(a[0])).(type) {
		case *types.Array:
			return g.print(x)
		case *types.Pointer:
			_ = t
			return g.print(x)
		case *types.Map:
			return name + "(simrt.MR(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + "))"
		}
		return name + "(" + g.rd(a[0]) + ")"
	case "new", "make":
		s := name + "(" + g.typ(a[0])
		for _, e := range a[1:] {
			s += ", " + g.rd(e)
		}
		return s + ")"
	case "append":
		if g.p.info.Types[a[0]].IsNil() || len(a) == 1 {
			return "append(" + g.rds(a) + dots + ")"
		}
		if dots != "" {
			if !g.isSlice(a[1]) { // string
				return "append(" + g.rds(a) + dots + ")"
			}
			return "simrt.AppendS(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + ", " + g.rd(a[1]) + ")"
		}
		return "simrt.Append(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + ", " + g.rds(a[1:]) + ")"
	case "copy":
		src := g.rd(a[1])
		if g.isSlice(a[1]) {
			src = "simrt.RSA(" + src + ", " + g.site(x.Pos()) + ")"
		}
		return "copy(simrt.WSA(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + "), " + src + ")"
	case "delete":
		return "delete(simrt.MW(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + "), " + g.rd(a[1]) + ")"
	case "clear":
		if g.isSlice(a[0]) {
			return "clear(simrt.WSA(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + "))"
		}
		return "clear(simrt.MW(" + g.rd(a[0]) + ", " + g.site(x.Pos()) + "))"
	case "close":
		return "simrt.ChanOf(" + g.rd(a[0]) + ").Close(" + g.site(x.Pos()) + ")"
	}
	return name + "(" + g.rds(a) + dots + ")"
}

// ---- functions and statements

func (g *gen) funcDecl(d *ast.FuncDecl) string {
	s := "func "
	if d.Recv != nil {
		s += "(" + g.fields(d.Recv) + ") "
	}
	name := d.Name.Name
	pre := ""
	if d.Recv == nil && name == "init" {
		name = fmt.Sprintf("simInitFunc%d", *g.inits)
		*g.inits++
		pre = "func init() { " + name + "() }\n"
	}
	s += name
	if d.Type.TypeParams != nil {
		s += "[" + g.fields(d.Type.TypeParams) + "]"
	}
	s += g.signature(d.Type)
	if d.Body == nil {
		return s
	}
	return pre + s + " " + g.body(d.Body, d.Pos(), "")
}

func (g *gen) fields(fl *ast.FieldList) string {
	var s []string
	for _, f := range fl.List {
		var ns []string
		for _, n := range f.Names {
			ns = append(ns, n.Name)
		}
		p := ""
		if len(ns) > 0 {
			p = strings.Join(ns, ", ") + " "
		}
		s = append(s, p+g.typ(f.Type))
	}
	return strings.Join(s, ", ")
}

func (g *gen) signature(t *ast.FuncType) string {
	s := "(" + g.fields(t.Params) + ")"
	if t.Results != nil {
		s += " (" + g.fields(t.Results) + ")"
	}
	return s
}

func (g *gen) funcLit(x *ast.FuncLit) string {
	return "func" + g.signature(x.Type) + " " + g.body(x.Body, x.Pos(), "")
}

func (g *gen) yield(pos token.Pos) string { return "simrt.Y(" + g.site(pos) + ")\n" }

func (g *gen) body(b *ast.BlockStmt, pos token.Pos, pre string) string {
	return "{\n" + g.yield(pos) + pre + g.stmts(b.List) + "}"
}

func (g *gen) block(b *ast.BlockStmt) string { return "{\n" + g.stmts(b.List) + "}" }

func (g *gen) stmts(l []ast.Stmt) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(g.stmt(s, "") + "\n")
	}
	return b.String()
}

func (g *gen) simple(s ast.Stmt) string {
	if s == nil {
		return ""
	}
	return g.stmt(s, "")
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

// target renders the left side of a plain assignment.
func (g *gen) target(e ast.Expr) string {
	if g.coarse {
		return g.print(e)
	}
	e = unparen(e)
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return "_"
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if _, m := core(g.typeOf(ix.X)).(*types.Map); m {
			return "simrt.MW(" + g.rd(ix.X) + ", " + g.site(e.Pos()) + ")[" + g.mapKey(ix) + "]"
		}
	}
	if !g.tracked(e) {
		return g.lv(e)
	}
	return "*simrt.Wr(&" + g.lv(e) + ", " + g.site(e.Pos()) + ")"
}

func (g *gen) isMapIndex(e ast.Expr) bool {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok {
		_, m := core(g.typeOf(ix.X)).(*types.Map)
		return m
	}
	return false
}

func (g *gen) assign(s *ast.AssignStmt) string {
	if s.Tok == token.DEFINE {
		var l []string
		for _, e := range s.Lhs {
			l = append(l, g.print(e))
		}
		return strings.Join(l, ", ") + " := " + g.rds(s.Rhs)
	}
	if s.Tok != token.ASSIGN {
		op := strings.TrimSuffix(s.Tok.String(), "=")
		return g.opAssign(s.Lhs[0], op, "("+g.rd(s.Rhs[0])+")")
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && !g.coarse {
		e := unparen(s.Lhs[0])
		id, isID := e.(*ast.Ident)
		if !(isID && id.Name == "_") && !g.isMapIndex(e) && g.tracked(e) {
			return "simrt.At(&" + g.lv(e) + ", " + g.site(e.Pos()) + ").Set(" + g.rd(s.Rhs[0]) + ")"
		}
	}
	var l []string
	for _, e := range s.Lhs {
		l = append(l, g.target(e))
	}
	return strings.Join(l, ", ") + " = " + g.rds(s.Rhs)
}

func (g *gen) opAssign(lhs ast.Expr, op, rhs string) string {
	e := unparen(lhs)
	if g.coarse || g.isMapIndex(e) || !g.tracked(e) || hasCall(e) {
		return g.target(e) + " " + op + "= " + rhs
	}
	st := g.site(e.Pos())
	return "simrt.At(&" + g.lv(e) + ", " + st + ").Set(simrt.RdV(&" + g.lv(e) + ", " + st + ") " + op + " " + rhs + ")"
}

func (g *gen) stmt(s ast.Stmt, label string) string {
	lab := ""
	if label != "" {
		lab = label + ":\n"
	}
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		return lab + ";"
	case *ast.BlockStmt:
		return lab + g.block(x)
	case *ast.ExprStmt:
		return lab + g.rd(x.X)
	case *ast.SendStmt:
		return lab + "simrt.ChanOf(" + g.rd(x.Chan) + ").Send(" + g.rd(x.Value) + ", " + g.site(x.Pos()) + ")"
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		return lab + g.opAssign(x.X, op, "1")
	case *ast.AssignStmt:
		return lab + g.assign(x)
	case *ast.GoStmt:
		g.useRT = true
		// arguments are evaluated before the goroutine starts
		n := g.next()
		pre, as := "", []string{}
		for i, a := range x.Call.Args {
			v := fmt.Sprintf("simg%d_%d", n, i)
			pre += v + " := " + g.rd(a) + "\n"
			as = append(as, v)
		}
		dots := ""
		if x.Call.Ellipsis.IsValid() {
			dots = "..."
		}
		fv := fmt.Sprintf("simg%d", n)
		return lab + "{\n" + fv + " := " + g.rd(x.Call.Fun) + "\n" + pre + "simrt.Go(func() { " + fv + "(" + strings.Join(as, ", ") + dots + ") })\n}"
	case *ast.DeferStmt:
		return lab + "defer " + g.call(x.Call)
	case *ast.ReturnStmt:
		return lab + "return " + g.rds(x.Results)
	case *ast.BranchStmt:
		t := x.Tok.String()
		if x.Label != nil {
			t += " " + x.Label.Name
		}
		return lab + t
	case *ast.IfStmt:
		h := "if "
		if x.Init != nil {
			h += g.simple(x.Init) + "; "
		}
		h += g.cond(x.Cond) + " " + g.block(x.Body)
		if x.Else != nil {
			h += " else " + g.stmt(x.Else, "")
		}
		return lab + h
	case *ast.ForStmt:
		h := "for "
		if x.Init != nil || x.Post != nil {
			h += g.simple(x.Init) + "; " + g.cond(x.Cond) + "; " + g.simple(x.Post) + " "
		} else if x.Cond != nil {
			h += g.cond(x.Cond) + " "
		}
		return lab + h + "{\n" + g.yield(x.Pos()) + g.stmts(x.Body.List) + "}"
	case *ast.RangeStmt:
		return g.rng(x, lab)
	case *ast.SwitchStmt:
		h := "switch "
		if x.Init != nil {
			h += g.simple(x.Init) + "; "
		}
		if x.Tag != nil {
			h += g.cond(x.Tag) + " "
		}
		return lab + h + "{\n" + g.clauses(x.Body) + "}"
	case *ast.TypeSwitchStmt:
		h := "switch "
		if x.Init != nil {
			h += g.simple(x.Init) + "; "
		}
		return lab + h + g.simple(x.Assign) + " {\n" + g.clauses(x.Body) + "}"
	case *ast.SelectStmt:
		return g.selectStmt(x, lab)
	case *ast.LabeledStmt:
		return g.stmt(x.Stmt, x.Label.Name)
	case *ast.DeclStmt:
		d := x.Decl.(*ast.GenDecl)
		if d.Tok != token.VAR {
			return lab + g.print(d)
		}
		var out []string
		for _, sp := range d.Specs {
			vs := sp.(*ast.ValueSpec)
			var ns []string
			for _, n := range vs.Names {
				ns = append(ns, n.Name)
			}
			v := "var " + strings.Join(ns, ", ") + " " + g.typ(vs.Type)
			if len(vs.Values) > 0 {
				v += " = " + g.rds(vs.Values)
			}
			out = append(out, v)
		}
		return lab + strings.Join(out, "\n")
	}
	return lab + g.print(s)
}

// cond renders an expression in a statement header, where a bare composite
// literal would be ambiguous.
func (g *gen) cond(e ast.Expr) string {
	if e == nil {
		return ""
	}
	return "(" + g.rd(e) + ")"
}

func (g *gen) next() int { g.tmp++; return g.tmp }

func (g *gen) clauses(b *ast.BlockStmt) string {
	var s strings.Builder
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			s.WriteString("default:\n")
		} else {
			s.WriteString("case " + g.rds(cc.List) + ":\n")
		}
		s.WriteString(g.stmts(cc.Body))
	}
	return s.String()
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (g *gen) rng(x *ast.RangeStmt, lab string) string {
	n := g.next()
	y := g.yield(x.Pos())
	def := x.Tok == token.DEFINE
	plain := func(rangeExpr string) string {
		h := "for "
		if x.Key != nil {
			l := g.print(x.Key)
			if !def {
				l = g.target(x.Key)
			}
			if x.Value != nil {
				if def {
					l += ", " + g.print(x.Value)
				} else {
					l += ", " + g.target(x.Value)
				}
			}
			h += l + " " + x.Tok.String() + " "
		}
		return lab + h + "range " + rangeExpr + " {\n" + y + g.stmts(x.Body.List) + "}"
	}
	if g.coarse {
		return plain(g.rd(x.X))
	}
	switch core(g.typeOf(x.X)).(type) {
	case *types.Chan:
		ch, v, ok := fmt.Sprintf("simch%d", n), fmt.Sprintf("simv%d", n), fmt.Sprintf("simok%d", n)
		set := ""
		if !blank(x.Key) {
			if def {
				set = g.print(x.Key) + " := " + v + "\n_ = " + g.print(x.Key) + "\n"
			} else {
				set = g.target(x.Key) + " = " + v + "\n"
			}
		}
		return "{\n" + ch + " := simrt.ChanOf(" + g.rd(x.X) + ")\n" + lab + "for {\n" + v + ", " + ok + " := " + ch + ".Recv2(" + g.site(x.Pos()) + ")\nif !" + ok + " { break }\n_ = " + v + "\n" + y + set + g.stmts(x.Body.List) + "}\n}"
	case *types.Map:
		m, k, v, ok := fmt.Sprintf("simm%d", n), fmt.Sprintf("simk%d", n), fmt.Sprintf("simv%d", n), fmt.Sprintf("simok%d", n)
		st := g.site(x.Pos())
		set := ""
		if !blank(x.Key) {
			if def {
				set += g.print(x.Key) + " := " + k + "\n_ = " + g.print(x.Key) + "\n"
			} else {
				set += g.target(x.Key) + " = " + k + "\n"
			}
		}
		if !blank(x.Value) {
			if def {
				set += g.print(x.Value) + " := " + v + "\n_ = " + g.print(x.Value) + "\n"
			} else {
				set += g.target(x.Value) + " = " + v + "\n"
			}
		}
		return "{\n" + m + " := " + g.rd(x.X) + "\n" + lab + "for _, " + k + " := range simrt.MapKeys(" + m + ", " + st + ") {\n" +
			v + ", " + ok + " := simrt.MR(" + m + ", " + st + ")[" + k + "]\nif !" + ok + " { continue }\n_ = " + v + "\n" + y + set + g.stmts(x.Body.List) + "}\n}"
	case *types.Slice:
		if blank(x.Value) {
			return plain(g.rd(x.X))
		}
		sl := fmt.Sprintf("sims%d", n)
		st := g.site(x.Pos())
		if def {
			k := fmt.Sprintf("simi%d", n)
			if !blank(x.Key) {
				k = g.print(x.Key)
			}
			return "{\n" + sl + " := " + g.rd(x.X) + "\n" + lab + "for " + k + ", " + g.print(x.Value) + " := range " + sl + " {\nsimrt.Rp(&" + sl + "[" + k + "], " + st + ")\n" + y + g.stmts(x.Body.List) + "}\n}"
		}
		return plain("simrt.RSA(" + g.rd(x.X) + ", " + st + ")")
	case *types.Array:
		return plain(g.rd(x.X))
	}
	return plain(g.rd(x.X))
}
