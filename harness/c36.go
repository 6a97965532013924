package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"regexp"
	"slices"
	"strings"

	"pgregory.net/rapid"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
)

// C36: what the helpers of the library tell a rule about a program is compared with what the type checker knows. A rule
// of the case asks them about every node.

type helperCase struct {
	Files []File
	Ill   bool // not checked by the type checker: the helpers may tell anything, but not crash
}

// literals writes declarations of constants in many notations, and concatenations of them.
type litGen struct {
	t *rapid.T
	n int
	b strings.Builder
}

func (g *litGen) str() string {
	return sampled([]string{`"a"`, "`b c`", `""`, "``", `"\n\t"`, `"\x41\u00e9\U0001F600"`, `"\""`, "`\\n`", `"'"`, `"SELECT * FROM t"`, `"é世"`, `"\377"`, "`x\ny`", `"0"`, `"a/b"`}).Draw(g.t, "str")
}

func (g *litGen) expr(depth int) string {
	k := upTo(g.t, 9, "expr")
	if depth == 0 && k < 4 {
		k = 4
	}
	switch k {
	case 0, 1, 2:
		return g.expr(depth-1) + " + " + g.expr(depth-1)
	case 3:
		return "(" + g.expr(depth-1) + ")"
	case 4:
		return sampled([]string{"arg", "konst", "fixed", "glob", "other", "local", "pair1", "pair2", "late"}).Draw(g.t, "name")
	case 5:
		return sampled([]string{`call("x")`, `strings.ToUpper("y")`, `fmt.Sprint(1)`, "string(arg)", "string('x')", `[]string{"z"}[0]`, "func() string { return arg }()"}).Draw(g.t, "call")
	}
	return g.str()
}

func (g *litGen) decl() {
	g.n++
	switch upTo(g.t, 6, "decl") {
	case 0:
		fmt.Fprintf(&g.b, "\tvar i%d any = %s\n\tuse(i%[1]d)\n", g.n, sampled([]string{"0", "1", "0x7f", "0X_FF", "0o17", "017", "0b101", "1_000_000", "9223372036854775807", "uint64(9223372036854775808)", "float64(99999999999999999999)", "-5", "0xdead_beef", "00", "0_7"}).Draw(g.t, "int"))
	case 1:
		fmt.Fprintf(&g.b, "\tvar f%d any = %s\n\tuse(f%[1]d)\n", g.n, sampled([]string{"1.5", ".5", "1.", "1e3", "1E-7", "0x1p-2", "0x1.8P4", "1_0.5", "6.02214e23", "1e300", "0.1", "1e-400", "012.5", "3i", "2.5i"}).Draw(g.t, "float"))
	case 2:
		fmt.Fprintf(&g.b, "\tvar c%d any = %s\n\tuse(c%[1]d)\n", g.n, sampled([]string{"'a'", `'\n'`, `'\''`, `'\\'`, `'\x41'`, `'\101'`, `'\u00e9'`, "'é'", "'世'", `'"'`, `'\xff'`, `'\U0001F600'`, "' '", `'\000'`}).Draw(g.t, "char"))
	case 3:
		fmt.Fprintf(&g.b, "\tvar s%d, t%[1]d = %s, %s\n\tuse(s%[1]d, t%[1]d)\n", g.n, g.expr(3), g.expr(2))
	case 4:
		fmt.Fprintf(&g.b, "\ts%d := %s\n\tuse(call(s%[1]d), call(%[3]s), s%[1]d+%[4]s)\n", g.n, g.expr(3), g.expr(2), g.expr(1))
	case 5:
		fmt.Fprintf(&g.b, "\tconst k%d = %s + %s\n\tuse(k%[1]d, len(k%[1]d) + %[1]d)\n", g.n, g.str(), g.str())
	default:
		fmt.Fprintf(&g.b, "\tuse(%s, pt{%d, 2}, []pt{{1, 2}, {3, 4}}, &pt{}, map[string]pt{%s: {5, 6}}, struct{ a int }{7}, http.Client{}, (%d + 3) * 4 - len(arg))\n", g.expr(4), g.n, g.str(), g.n)
	}
}

func litFiles(t *rapid.T) []File {
	g := &litGen{t: t}
	for i := 1 + upTo(t, 6, "decls"); i > 0; i-- {
		g.decl()
	}
	src := "package p\n\nimport (\n\t\"fmt\"\n\t\"net/http\"\n\t\"strings\"\n)\n\nconst konst = \"konst\" + `ant`\n\nvar glob = strings.ToLower(\"GLOB\")\n\nvar _ = fmt.Sprint\n\nvar _ http.Client\n\n" +
		"func units(arg string) {\n\tfixed := \"fixed\"\n\tlocal := call(arg)\n\tpair1, pair2 := \"p1\", call(\"p2\")\n\tvar late string\n\tuse(fixed, local, pair1, pair2, late)\n" + g.b.String() + "}\n"
	return []File{{"a.go", src}, {"b.go", "package p\n\ntype pt struct{ x, y int }\n\nvar other = \"other\"\n\nfunc call(s string) string { return s }\n\nfunc use(...any) {}\n"}}
}

func genHelpers(t *rapid.T) helperCase {
	switch upTo(t, 9, "source") {
	case 0:
		return helperCase{wildFiles(t), true}
	case 1, 2, 3:
		return helperCase{Files: genProg(t, false)}
	case 4:
		c := genCallCase(t)
		c.Own = true
		fs, _ := c.build()
		return helperCase{Files: fs}
	}
	return helperCase{Files: litFiles(t)}
}

type helperRule struct {
	ill    bool
	err    error
	parent map[ast.Node]ast.Node
	info   *types.Info
	defs   map[types.Object]*ast.Ident
	counts map[string]int
}

func (r *helperRule) ID() string { return "X036" }

func (r *helperRule) fail(c *gosec.Context, n ast.Node, format string, args ...any) {
	if r.err == nil && !r.ill {
		p := c.FileSet.PositionFor(n.Pos(), false)
		r.err = violf("%s:%d:%d (%T): %s", filepath.Base(p.Filename), p.Line, p.Column, n, fmt.Sprintf(format, args...))
	}
}

func (r *helperRule) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
	r.literals(n, c)
	r.positions(n, c)
	if call, ok := n.(*ast.CallExpr); ok {
		r.call(call, c)
	} else if found, _ := gosec.GetCallObject(n, c); found != nil {
		r.fail(c, n, "GetCallObject finds a call")
	}
	if id, ok := n.(*ast.Ident); ok {
		r.ident(id, c)
	}
	if be, ok := n.(*ast.BinaryExpr); ok {
		r.binary(be, c)
	}
	if e, ok := n.(ast.Expr); ok {
		r.resolve(e, c)
	}
	if lit, ok := n.(*ast.CompositeLit); ok {
		t := "?"
		if T := c.Info.TypeOf(lit); T != nil {
			t = T.String()
		}
		if got := gosec.MatchCompLit(n, c, t); got != lit {
			r.fail(c, n, "MatchCompLit with its own type %s finds %v", t, got)
		}
		for _, o := range []string{t + "x", "*" + t, "", strings.TrimPrefix(t, "[]") + " "} {
			if gosec.MatchCompLit(n, c, o) != nil {
				r.fail(c, n, "MatchCompLit finds a literal of type %s when asked for %q", t, o)
			}
		}
		r.counts["composite literals"]++
	} else if gosec.MatchCompLit(n, c, "p.pt") != nil {
		r.fail(c, n, "MatchCompLit finds a literal")
	}
	return nil, nil
}

func (r *helperRule) literals(n ast.Node, c *gosec.Context) {
	i, ie := gosec.GetInt(n)
	f, fe := gosec.GetFloat(n)
	ch, ce := gosec.GetChar(n)
	s, se := gosec.GetString(n)
	var wantI, wantF, wantC, wantS bool
	if lit, ok := n.(*ast.BasicLit); ok {
		v := constant.MakeFromLiteral(lit.Value, lit.Kind, 0)
		switch lit.Kind {
		case token.INT:
			x, exact := constant.Int64Val(v)
			if wantI = exact; exact && ie == nil && i != x {
				r.fail(c, n, "GetInt(%s) = %d", lit.Value, i)
			}
		case token.FLOAT:
			x, _ := constant.Float64Val(v)
			wantF = true
			if fe == nil && f != x {
				// the constant package rounds small numbers differently from ParseFloat only by reading them exactly
				if y, _ := new(big.Float).SetPrec(2000).SetString(strings.ReplaceAll(lit.Value, "_", "")); y == nil {
					r.fail(c, n, "GetFloat(%s) = %v", lit.Value, f)
				} else if z, _ := y.Float64(); z != f {
					r.fail(c, n, "GetFloat(%s) = %v", lit.Value, f)
				}
			}
		case token.CHAR:
			x, _ := constant.Int64Val(v)
			if wantC = x < 256; wantC && ce == nil && int64(ch) != x {
				r.fail(c, n, "GetChar(%s) = %q", lit.Value, ch)
			}
		case token.STRING:
			wantS = true
			if x := constant.StringVal(v); se == nil && s != x {
				r.fail(c, n, "GetString(%s) = %q", lit.Value, s)
			}
		}
		r.counts["literals"]++
	}
	for _, x := range []struct {
		name string
		want bool
		err  error
	}{{"GetInt", wantI, ie}, {"GetFloat", wantF, fe}, {"GetChar", wantC, ce}, {"GetString", wantS, se}} {
		if x.want != (x.err == nil) {
			r.fail(c, n, "%s: error %v, a value of the kind is there: %t", x.name, x.err, x.want)
		}
	}
	// the string literals below binary expressions, in their order
	want := ""
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.BinaryExpr:
			return true
		case *ast.BasicLit:
			if m.Kind == token.STRING {
				want += constant.StringVal(constant.MakeFromLiteral(m.Value, m.Kind, 0))
			}
		}
		return false
	})
	if got, err := gosec.GetStringRecursive(n); err != nil || got != want {
		r.fail(c, n, "GetStringRecursive = %q, %v; the literals are %q", got, err, want)
	}
}

func (r *helperRule) positions(n ast.Node, c *gosec.Context) {
	if !n.Pos().IsValid() {
		return
	}
	p := c.FileSet.PositionFor(n.Pos(), false)
	if file, line := gosec.GetLocation(n, c); file != p.Filename || line != p.Line {
		r.fail(c, n, "GetLocation = %s:%d, it is in %s", file, line, p)
	}
	if f := c.GetFileAtNodePos(n); f == nil || f.Name() != p.Filename {
		r.fail(c, n, "GetFileAtNodePos is wrong about %s", p)
	}
}

func (r *helperRule) binary(be *ast.BinaryExpr, c *gosec.Context) {
	var leaves []ast.Node
	ops, lits, left := 0, true, true
	var walk func(e ast.Expr)
	walk = func(e ast.Expr) {
		if b, ok := ast.Unparen(e).(*ast.BinaryExpr); ok {
			ops++
			walk(b.X)
			walk(b.Y)
			return
		}
		if l, ok := e.(*ast.BasicLit); !ok || l.Kind != token.STRING {
			lits = false
		}
		leaves = append(leaves, e)
	}
	walk(be)
	for e := ast.Expr(be); ; {
		b, ok := e.(*ast.BinaryExpr)
		if !ok {
			break
		}
		if _, ok := b.Y.(*ast.BasicLit); !ok {
			left = false
		}
		e = b.X
		if _, ok := e.(*ast.ParenExpr); ok {
			left = false
		}
	}
	if got := gosec.GetBinaryExprOperands(be); !slices.Equal(got, leaves) {
		r.fail(c, be, "GetBinaryExprOperands finds %d operands, of %d", len(got), len(leaves))
	}
	str, ok := gosec.ConcatString(be)
	if tv := c.Info.Types[be]; lits && left && tv.Value != nil && tv.Value.Kind() == constant.String {
		if want := constant.StringVal(tv.Value); !ok || str != want {
			r.fail(c, be, "ConcatString = %q, %t; it is %q", str, ok, want)
		}
		if got, _ := gosec.GetStringRecursive(be); got != str {
			r.fail(c, be, "GetStringRecursive = %q, it is %q", got, str)
		}
		r.counts["concatenations of literals"]++
	}
	if _, lit := be.Y.(*ast.BasicLit); ok && !lit {
		r.fail(c, be, "ConcatString takes what is not a literal for one")
	}
	// variables among the operands
	want := []*ast.Ident{}
	for _, l := range leaves {
		if id, ok := ast.Unparen(l.(ast.Expr)).(*ast.Ident); ok {
			if v, ok := c.Info.ObjectOf(id).(*types.Var); ok && v != nil && !gosec.TryResolve(id, c) {
				want = append(want, id)
			}
		}
	}
	got, found := gosec.FindVarIdentities(be, c)
	if found != (len(want) > 0) || len(want) > 0 && !slices.Equal(got, want) {
		r.fail(c, be, "FindVarIdentities finds %v, the operands which are variables are %v", got, want)
	}
	r.counts["binary expressions"]++
}

// known tells whether an expression is made of nothing but constants and of local variables declared as such (true), or
// of anything that comes from elsewhere (false); the third state is not judged.
func (r *helperRule) known(e ast.Expr, c *gosec.Context) (bool, bool) {
	if c.Info.Types[e].Value != nil {
		return true, true
	}
	switch e := e.(type) {
	case *ast.BasicLit:
		return true, true
	case *ast.ParenExpr:
		return r.known(e.X, c)
	case *ast.BinaryExpr:
		a, aok := r.known(e.X, c)
		b, bok := r.known(e.Y, c)
		if aok && !a || bok && !b {
			return false, true
		}
		return a && b, aok && bok
	case *ast.CallExpr, *ast.IndexExpr, *ast.FuncLit:
		return false, true
	case *ast.Ident:
		v, ok := c.Info.ObjectOf(e).(*types.Var)
		if !ok || v.Pkg() != c.Pkg || v.IsField() || c.Info.Defs[e] != nil {
			return false, false
		}
		switch d := r.declared(v, c).(type) {
		case *ast.Field:
			return false, true
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if id, ok := l.(*ast.Ident); ok && c.Info.Defs[id] == v {
					if d.Tok == token.DEFINE && len(d.Rhs) == len(d.Lhs) && !mentions(d.Rhs[i], c, v) {
						return r.known(d.Rhs[i], c)
					}
				}
			}
		}
	}
	return false, false
}

func mentions(e ast.Expr, c *gosec.Context, v *types.Var) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && c.Info.Uses[id] == v {
			found = true
		}
		return true
	})
	return found
}

// declared finds the statement or field that declares a local variable of the same file.
func (r *helperRule) declared(v *types.Var, c *gosec.Context) ast.Node {
	if c.Root.FileStart > v.Pos() || v.Pos() > c.Root.FileEnd || v.Parent() == c.Pkg.Scope() {
		return nil
	}
	if r.parent == nil {
		r.parent = map[ast.Node]ast.Node{}
	}
	if _, ok := r.parent[c.Root]; !ok {
		r.parent[c.Root] = nil
		var stack []ast.Node
		ast.Inspect(c.Root, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if len(stack) > 0 {
				r.parent[n] = stack[len(stack)-1]
			}
			stack = append(stack, n)
			return true
		})
	}
	if r.info != c.Info {
		r.info, r.defs = c.Info, map[types.Object]*ast.Ident{}
		for id, o := range c.Info.Defs {
			r.defs[o] = id
		}
	}
	if id := r.defs[v]; id != nil {
		return r.parent[id]
	}
	return nil
}

func (r *helperRule) resolve(e ast.Expr, c *gosec.Context) {
	got := gosec.TryResolve(e, c)
	switch e.(type) {
	case *ast.CallExpr, *ast.Ident, *ast.BinaryExpr, *ast.ParenExpr, *ast.BasicLit:
	default:
		return
	}
	tv, ok := c.Info.Types[e]
	if !ok || !tv.IsValue() {
		return
	}
	if want, ok := r.known(e, c); ok {
		if got != want {
			r.fail(c, e, "TryResolve = %t", got)
		}
		r.counts[fmt.Sprintf("resolvable: %t", want)]++
	}
}

func (r *helperRule) ident(id *ast.Ident, c *gosec.Context) {
	name, ok := gosec.GetPackageName(id, c)
	pn, isPkg := c.Info.Uses[id].(*types.PkgName)
	if ok != isPkg || isPkg && name != pn.Imported().Name() {
		r.fail(c, id, "GetPackageName(%s) = %q, %t", id.Name, name, ok)
	}
	if isPkg {
		names, ok := gosec.GetImportedNames(pn.Imported().Path(), c)
		if !ok || plainImport(pn) && !slices.Contains(names, id.Name) {
			r.fail(c, id, "GetImportedNames(%s) = %v, %t", pn.Imported().Path(), names, ok)
		}
		if path, ok := gosec.GetImportPath(id.Name, c); plainImport(pn) && (!ok || path != pn.Imported().Path()) {
			r.fail(c, id, "GetImportPath(%s) = %q, %t; it is %s", id.Name, path, ok, pn.Imported().Path())
		}
	}
	// the string a local variable is declared with
	v, isVar := c.Info.Uses[id].(*types.Var)
	if !isVar || v.IsField() {
		return
	}
	if d, ok := r.declared(v, c).(*ast.AssignStmt); ok && d.Tok == token.DEFINE && len(d.Lhs) == len(d.Rhs) {
		for i, l := range d.Lhs {
			if li, ok := l.(*ast.Ident); !ok || c.Info.Defs[li] != types.Object(v) {
				continue
			}
			if want, err := gosec.GetString(d.Rhs[i]); err == nil && !slices.Contains(gosec.GetIdentStringValues(id), want) {
				r.fail(c, id, "GetIdentStringValues(%s) = %q, it is declared with %q", id.Name, gosec.GetIdentStringValues(id), want)
			}
			want, _ := gosec.GetStringRecursive(d.Rhs[i])
			if got := gosec.GetIdentStringValuesRecursive(id); !slices.Contains(got, want) {
				r.fail(c, id, "GetIdentStringValuesRecursive(%s) = %q, it is declared with %q", id.Name, got, want)
			}
			if got := gosec.DeclaredValue(id); got != d.Rhs[i] {
				r.fail(c, id, "DeclaredValue(%s) is another expression", id.Name)
			}
			r.counts["declared variables"]++
		}
	}
}

var versionedPath = regexp.MustCompile(`v[0-9]+$`)

// plainImport tells that the name in the file is the one gosec derives from the import, which reads no packages.
func plainImport(pn *types.PkgName) bool {
	return pn.Name() != pn.Imported().Name() || pn.Imported().Name() == filepath.Base(pn.Imported().Path()) && !versionedPath.MatchString(pn.Imported().Path())
}

func (r *helperRule) call(call *ast.CallExpr, c *gosec.Context) {
	if got, obj := gosec.GetCallObject(call, c); got != nil {
		var want types.Object
		switch f := call.Fun.(type) {
		case *ast.Ident:
			want = c.Info.Uses[f]
		case *ast.SelectorExpr:
			want = c.Info.Uses[f.Sel]
		}
		if got != call || obj != want {
			r.fail(c, call, "GetCallObject = %v, it is %v", obj, want)
		}
	}
	// literal arguments
	var want []string
	for _, a := range call.Args {
		if s, err := gosec.GetString(a); err == nil {
			want = append(want, s)
		}
	}
	have := gosec.GetCallStringArgsValues(call, c)
	for _, w := range want {
		if !slices.Contains(have, w) {
			r.fail(c, call, "GetCallStringArgsValues = %q, %q is missing", have, w)
		}
	}
	// which function it is
	listed := func(path string, names ...string) bool {
		l := gosec.NewCallList()
		l.AddAll(path, names...)
		return l.ContainsPkgCallExpr(call, c, false) == call
	}
	match := func(path string, names ...string) bool {
		got, ok := gosec.MatchCallByPackage(call, c, path, names...)
		if ok != (got == call) {
			r.fail(c, call, "MatchCallByPackage = %v, %t", got, ok)
		}
		return ok
	}
	sel, isSel := call.Fun.(*ast.SelectorExpr)
	if isSel {
		if x, ok := sel.X.(*ast.Ident); ok {
			switch o := c.Info.Uses[x].(type) {
			case *types.PkgName:
				if !plainImport(o) {
					return
				}
				path, name := o.Imported().Path(), sel.Sel.Name
				if !listed(path, name) || !listed(path, "Other", name) || !match(path, name) || !match(path, "Other", name) {
					r.fail(c, call, "the call of %s in %s is not found", name, path)
				}
				if listed(path, name+"x") || listed(path+"x", name) || match(path, name+"x") || match(path+"x", name) || listed("x/"+path, name) || match(path) {
					r.fail(c, call, "the call of %s in %s is taken for another", name, path)
				}
				r.counts["calls of imported functions"]++
				return
			case *types.Var:
				name := sel.Sel.Name
				if T := c.Info.TypeOf(x); T != nil {
					if strings.Contains(T.String(), ".") && !listed(T.String(), name) {
						r.fail(c, call, "the call of %s of a %s is not found", name, T)
					}
					l := gosec.NewCallList()
					l.Add(strings.TrimPrefix(T.String(), "*"), name)
					if l.ContainsCallExpr(call, c) != call {
						r.fail(c, call, "ContainsCallExpr does not find %s of a %s", name, T)
					}
					if listed(T.String(), name+"x") || listed(T.String()+"x", name) {
						r.fail(c, call, "the call of %s of a %s is taken for another", name, T)
					}
				}
				for path := range c.Imports.Imported {
					if match(path, name) || !strings.Contains(path, ".") && listed(path, name) {
						r.fail(c, call, "the call of the method %s is taken for that of a function of %s", name, path)
					}
				}
				r.counts["calls of methods"]++
				return
			}
		}
	}
	if f, ok := call.Fun.(*ast.Ident); ok {
		for path := range c.Imports.Imported {
			if match(path, f.Name) || listed(path, f.Name) {
				r.fail(c, call, "the call of %s, which stands for itself, is taken for that of a function of %s", f.Name, path)
			}
		}
		r.counts["calls by a name alone"]++
	}
}

func runHelpers(c helperCase, s *Stats) error {
	r := &helperRule{ill: c.Ill, counts: map[string]int{}}
	o := ScanOpts{NoAnalyze: true, NoSec: true, Builders: map[string]gosec.RuleBuilder{"X036": func(string, gosec.Config) (gosec.Rule, []ast.Node) { return r, nodeKinds }}}
	scan := MustScan
	if c.Ill {
		scan = FastScan
	}
	if _, err := scan(c.Files, o); err != nil {
		return err
	}
	if r.err != nil {
		return fmt.Errorf("%w\n%s", r.err, dumpFiles(c.Files))
	}
	for _, k := range sortedKeys(r.counts) {
		s.LabelN(k, r.counts[k])
	}
	if r.counts["resolvable: true"] > 0 && r.counts["resolvable: false"] > 0 && r.counts["binary expressions"] > 0 {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C36", "distinct programs with binary expressions and with expressions both of known values and of others", 60000, 1500000, genHelpers, runHelpers)
}
