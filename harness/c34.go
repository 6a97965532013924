package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/analysis"
	"golang.org/x/tools/go/analysis/passes/buildssa"
	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
)

// C34: rules and analyzers which somebody adds to the library. The rules of a case record how they are called; the
// model walks the parsed files itself.

type ownRule struct {
	ID         string
	Kinds      []int
	Mod, Rem   int  // an issue for every node whose ordinal is Rem modulo Mod; Mod 0: never
	ErrMod     int  // an error for every node whose ordinal is 0 modulo ErrMod; 0: never
	Suppressed bool // excluded, which leaves it active with tracking
	Sev, Conf  int
}

type ownAnalyzer struct {
	ID         string
	Out        int // 0 issues, 1 nothing, 2 an error, 3 something else, 4 issues of two kinds
	At         int
	Suppressed bool
}

type ownCase struct {
	Pkgs      [][]File
	Rules     []ownRule
	Analyzers []ownAnalyzer
	Track     bool
	Show      bool
	ExclGen   bool
}

var nodeKinds = []ast.Node{
	(*ast.File)(nil), (*ast.ImportSpec)(nil), (*ast.GenDecl)(nil), (*ast.FuncDecl)(nil), (*ast.TypeSpec)(nil), (*ast.ValueSpec)(nil),
	(*ast.Ident)(nil), (*ast.BasicLit)(nil), (*ast.CompositeLit)(nil), (*ast.FuncLit)(nil), (*ast.ParenExpr)(nil), (*ast.SelectorExpr)(nil),
	(*ast.IndexExpr)(nil), (*ast.SliceExpr)(nil), (*ast.TypeAssertExpr)(nil), (*ast.CallExpr)(nil), (*ast.StarExpr)(nil), (*ast.UnaryExpr)(nil),
	(*ast.BinaryExpr)(nil), (*ast.KeyValueExpr)(nil), (*ast.AssignStmt)(nil), (*ast.BlockStmt)(nil), (*ast.IfStmt)(nil), (*ast.CaseClause)(nil),
	(*ast.ForStmt)(nil), (*ast.RangeStmt)(nil), (*ast.ReturnStmt)(nil), (*ast.ExprStmt)(nil), (*ast.DeclStmt)(nil), (*ast.Field)(nil),
	(*ast.FieldList)(nil), (*ast.GoStmt)(nil), (*ast.DeferStmt)(nil), (*ast.SwitchStmt)(nil), (*ast.StructType)(nil), (*ast.InterfaceType)(nil),
	(*ast.LabeledStmt)(nil), (*ast.IncDecStmt)(nil), (*ast.SelectStmt)(nil), (*ast.MapType)(nil), (*ast.FuncType)(nil), (*ast.ArrayType)(nil),
	(*ast.Ellipsis)(nil), (*ast.CommentGroup)(nil), (*ast.Comment)(nil), (*ast.TypeSwitchStmt)(nil), (*ast.BranchStmt)(nil), (*ast.SendStmt)(nil),
	(*ast.ChanType)(nil), (*ast.IndexListExpr)(nil), (*ast.CommClause)(nil), (*ast.EmptyStmt)(nil), (*ast.BadExpr)(nil),
}

func genOwn(t *rapid.T) ownCase {
	var c ownCase
	for i := 1 + upTo(t, 1, "pkgs"); i > 0; i-- {
		var fs []File
		switch upTo(t, 3, "source") {
		case 0:
			fs = wildFiles(t)
		case 1:
			fs = typedFiles(t)
		default:
			fs = genProg(t, false)
		}
		for k := range fs {
			fs[k].Src = strings.NewReplacer("nosec", "nosek", "gosec:disable", "gosec-disable").Replace(fs[k].Src) // C04 judges suppressions
			if oneIn(t, 6, "generated") {
				fs[k].Src = "// Code generated by x. DO NOT EDIT.\n\n" + fs[k].Src
			}
		}
		c.Pkgs = append(c.Pkgs, inDir(fmt.Sprintf("q%d", i), fs))
	}
	ids := []string{"X001", "G999", "G101", "G104", "own", "G115", "a b", "X002", "G1011"}
	for i := 1 + upTo(t, 4, "rules"); i > 0; i-- {
		r := ownRule{ID: ids[i], Suppressed: oneIn(t, 5, "suppressed"), Sev: upTo(t, 2, "sev"), Conf: upTo(t, 2, "conf")}
		seen := map[int]bool{}
		for k := 1 + upTo(t, 5, "kinds"); k > 0; k-- {
			n := upTo(t, len(nodeKinds)-1, "kind")
			if oneIn(t, 3, "common") {
				n = sampled([]int{6, 7, 15, 20, 0, 1, 3, 5}).Draw(t, "usual")
			}
			if !seen[n] {
				r.Kinds = append(r.Kinds, n)
			}
			seen[n] = true
		}
		r.Mod = upTo(t, 5, "mod")
		if r.Mod > 0 {
			r.Rem = upTo(t, r.Mod-1, "rem")
		}
		if oneIn(t, 3, "errors") {
			r.ErrMod = 1 + upTo(t, 3, "errmod")
		}
		c.Rules = append(c.Rules, r)
	}
	for i := upTo(t, 3, "analyzers"); i > 0; i-- {
		c.Analyzers = append(c.Analyzers, ownAnalyzer{ID: fmt.Sprintf("A%d", i), Out: upTo(t, 4, "out"), At: upTo(t, 9, "at"), Suppressed: oneIn(t, 5, "suppressed")})
	}
	c.Track, c.Show, c.ExclGen = oneIn(t, 3, "track"), oneIn(t, 4, "show"), oneIn(t, 3, "exclgen")
	return c
}

// ownRun is what the rules and analyzers of a scan see.
type ownRun struct {
	conf   gosec.Config
	pkg    *packages.Package
	calls  map[string][]string // per rule
	issues []string            // expected
	nth    map[string]int
	fault  error
	c      ownCase
}

func (o *ownRun) fail(format string, args ...any) {
	if o.fault == nil {
		o.fault = violf(format, args...)
	}
}

type recorder struct {
	def ownRule
	run *ownRun
}

func (r *recorder) ID() string { return r.def.ID }

func kindName(n ast.Node) string { return strings.TrimPrefix(reflect.TypeOf(n).String(), "*ast.") }

func at(fset *token.FileSet, n ast.Node) string {
	p := fset.PositionFor(n.Pos(), false)
	return fmt.Sprintf("%s %s:%d:%d", kindName(n), filepath.Base(filepath.Dir(p.Filename))+"/"+filepath.Base(p.Filename), p.Line, p.Column)
}

// span gives the first and the last line of a node; the end of what the parser made up lies behind the file.
func span(fset *token.FileSet, n ast.Node) (token.Position, token.Position) {
	f := fset.File(n.Pos())
	end := n.End()
	if last := token.Pos(f.Base() + f.Size()); end > last {
		end = last
	}
	return fset.PositionFor(n.Pos(), false), fset.PositionFor(end, false)
}

func (o *ownRun) expect(id, file string, from, to, col, sev, conf int, suppressed bool) {
	lines := fmt.Sprint(from)
	if to != from {
		lines = fmt.Sprintf("%d-%d", from, to)
	}
	nosec, sup := false, ""
	if suppressed {
		if !o.c.Track && !o.c.Show {
			return
		}
		nosec = o.c.Show
		if o.c.Track {
			sup = "external"
		}
	}
	o.issues = append(o.issues, fmt.Sprintf("%s|%s|%s|%d|%d|%d|%v|%s|own issue", id, file, lines, col, sev, conf, nosec, sup))
}

func (r *recorder) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
	o := r.run
	where := at(ctx.FileSet, n)
	id := r.def.ID
	o.calls[id] = append(o.calls[id], where)
	// the context
	if ctx.Info != o.pkg.TypesInfo || ctx.Pkg != o.pkg.Types || ctx.FileSet != o.pkg.Fset || len(ctx.PkgFiles) != len(o.pkg.Syntax) {
		o.fail("rule %s at %s: the context belongs to another package", id, where)
	}
	if ctx.Root == nil || ctx.Root.FileStart > n.Pos() || n.Pos() > ctx.Root.FileEnd {
		o.fail("rule %s at %s: the root of the context is another file", id, where)
	} else {
		if v, _ := ctx.Config.Get("marker"); v != "the marker" {
			o.fail("rule %s at %s: the configuration is not that of the analyzer: %v", id, where, ctx.Config)
		}
		groups := map[*ast.CommentGroup]bool{}
		for _, l := range ctx.Comments {
			for _, g := range l {
				groups[g] = true
			}
		}
		if len(groups) != len(ctx.Root.Comments) {
			o.fail("rule %s at %s: %d comments of the file in the context, want %d", id, where, len(groups), len(ctx.Root.Comments))
		}
		// names of the imports
		want := map[string][]string{}
		for _, i := range ctx.Root.Imports {
			p := strings.Trim(i.Path.Value, "\"`")
			switch {
			case i.Name != nil && i.Name.Name != "_":
				want[p] = append(want[p], i.Name.Name)
			case i.Name == nil:
				want[p] = append(want[p], "?")
			}
		}
		for p, names := range want {
			got := ctx.Imports.Imported[p]
			ok := len(got) == len(names)
			for k := 0; ok && k < len(names); k++ {
				ok = names[k] == "?" || names[k] == got[k]
			}
			if !ok {
				o.fail("rule %s at %s: %q is imported as %q according to the context, want %q", id, where, p, got, names)
			}
		}
		for p, names := range ctx.Imports.Imported {
			if len(names) > 0 && want[p] == nil {
				o.fail("rule %s at %s: the context holds an import of %q, which the file does not import", id, where, p)
			}
		}
		// values passed from match to match in one file
		key := "own " + id
		name := ctx.FileSet.File(ctx.Root.Pos()).Name()
		if v, ok := ctx.PassedValues[key]; ok {
			if v != fmt.Sprint(name, len(o.calls[id])-1) {
				o.fail("rule %s at %s: a value passed earlier got lost or stems from another file: %v", id, where, v)
			}
		} else if o.nth[name+id] > 0 {
			o.fail("rule %s at %s: a value passed earlier in the file got lost", id, where)
		}
		o.nth[name+id]++
		ctx.PassedValues[key] = fmt.Sprint(name, len(o.calls[id]))
	}
	k := len(o.calls[id])
	var err error
	if r.def.ErrMod > 0 && k%r.def.ErrMod == 0 {
		err = errors.New("own error")
	}
	if r.def.Mod > 0 && k%r.def.Mod == r.def.Rem {
		from, to := span(ctx.FileSet, n)
		o.expect(id, from.Filename, from.Line, to.Line, from.Column, r.def.Sev, r.def.Conf, r.def.Suppressed)
		return ctx.NewIssue(n, id, "own issue", issue.Score(r.def.Sev), issue.Score(r.def.Conf)), err
	}
	return nil, err
}

func runOwn(c ownCase, s *Stats) error {
	dir := caseDir()
	conf := gosec.NewConfig()
	conf.Set("marker", "the marker")
	if c.Show {
		conf.SetGlobal(gosec.ShowIgnored, "true")
	}
	a := gosec.NewAnalyzer(conf, true, c.ExclGen, c.Track, 1, discardLog)
	o := &ownRun{conf: conf, calls: map[string][]string{}, nth: map[string]int{}, c: c}
	defs, sup := map[string]gosec.RuleBuilder{}, map[string]bool{}
	built := map[string]int{}
	for _, r := range c.Rules {
		r := r
		defs[r.ID] = func(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
			built[id]++
			if v, _ := conf.Get("marker"); id != r.ID || v != "the marker" {
				o.fail("rule %s is built as %q with the configuration %v", r.ID, id, conf)
			}
			var ns []ast.Node
			for _, k := range r.Kinds {
				ns = append(ns, nodeKinds[k])
			}
			return &recorder{r, o}, ns
		}
		if r.Suppressed {
			sup[r.ID] = true
		}
	}
	a.LoadRules(defs, sup)
	adefs, asup := map[string]analyzers.AnalyzerDefinition{}, map[string]bool{}
	ran := map[string]int{}
	for _, x := range c.Analyzers {
		x := x
		asup[x.ID] = x.Suppressed
		adefs[x.ID] = analyzers.AnalyzerDefinition{ID: x.ID, Description: "d" + x.ID, Create: func(id, desc string) *analysis.Analyzer {
			if id != x.ID || desc != "d"+x.ID {
				o.fail("analyzer %s is created as %q, %q", x.ID, id, desc)
			}
			return &analysis.Analyzer{Name: id, Doc: desc, Requires: []*analysis.Analyzer{buildssa.Analyzer}, Run: func(p *analysis.Pass) (any, error) { return x.run(p, o, ran) }}
		}}
	}
	a.LoadAnalyzers(adefs, asup)
	for _, r := range c.Rules {
		if built[r.ID] != 1 {
			return violf("rule %s is built %d times", r.ID, built[r.ID])
		}
	}
	matched := 0
	for _, files := range c.Pkgs {
		if err := writeFiles(dir, files); err != nil {
			return err
		}
		pkg, terr, err := makePackage(dir, files)
		if err != nil {
			return err
		}
		o.pkg = pkg
		for k := range o.calls {
			o.calls[k] = nil
		}
		o.nth = map[string]int{}
		a.CheckRules(pkg)
		if o.fault != nil {
			return o.fault
		}
		// the model
		want := map[string][]string{}
		fset := token.NewFileSet()
		for _, f := range files {
			af, err := parser.ParseFile(fset, filepath.Join(dir, f.Name), f.Src, parser.AllErrors|parser.ParseComments)
			if af == nil || !af.Pos().IsValid() {
				return nil
			}
			_ = err
			if c.ExclGen && ast.IsGenerated(af) {
				s.Label("generated file left out")
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				if n == nil {
					return true
				}
				for _, r := range c.Rules {
					for _, k := range r.Kinds {
						if reflect.TypeOf(nodeKinds[k]) == reflect.TypeOf(n) {
							want[r.ID] = append(want[r.ID], at(fset, n))
						}
					}
				}
				return true
			})
		}
		for _, r := range c.Rules {
			matched += len(want[r.ID])
			if w, g := strings.Join(want[r.ID], "\n"), strings.Join(o.calls[r.ID], "\n"); w != g {
				return violf("rule %s is not called for each node of its types in the order of the source: %s\n%s", r.ID, firstDiff(w, g), dumpFiles(files))
			}
		}
		ran0 := map[string]int{}
		for k, v := range ran {
			ran0[k] = v
		}
		a.CheckAnalyzers(pkg)
		if o.fault != nil {
			return o.fault
		}
		for _, x := range c.Analyzers {
			n := ran[x.ID] - ran0[x.ID]
			if n > 1 || n == 0 && len(terr) == 0 {
				return violf("analyzer %s runs %d times for a package", x.ID, n)
			}
			if n == 1 {
				s.Label("analyzer ran")
			}
		}
	}
	is, _, _ := a.Report()
	var got []string
	for _, i := range is {
		var kinds []string
		for _, x := range i.Suppressions {
			kinds = append(kinds, x.Kind)
		}
		got = append(got, fmt.Sprintf("%s|%s|%s|%s|%d|%d|%v|%s|%s", i.RuleID, i.File, i.Line, i.Col, i.Severity, i.Confidence, i.NoSec, strings.Join(kinds, ","), i.What))
	}
	sort.Strings(got)
	sort.Strings(o.issues)
	if d := diffMultiset(o.issues, got); d != "" {
		return violf("issues given to gosec (first) and reported (second) differ: %s\n%s", d, dumpFiles(c.Pkgs[0]))
	}
	if matched > 0 && len(got) > 0 {
		s.NonTrivial()
	}
	if len(c.Pkgs) > 1 {
		s.Label("two packages")
	}
	return nil
}

func (x ownAnalyzer) run(p *analysis.Pass, o *ownRun, ran map[string]int) (any, error) {
	ran[x.ID]++
	if p.Fset != o.pkg.Fset || p.Pkg != o.pkg.Types || p.TypesInfo != o.pkg.TypesInfo || len(p.Files) != len(o.pkg.Syntax) {
		o.fail("analyzer %s: the pass belongs to another package", x.ID)
	}
	res, ok := p.ResultOf[buildssa.Analyzer].(*analyzers.SSAAnalyzerResult)
	if !ok || res.SSA == nil || res.SSA.Pkg == nil || res.Logger == nil || res.SSA.Pkg.Pkg != o.pkg.Types {
		o.fail("analyzer %s: no SSA representation of the package in the pass: %v", x.ID, p.ResultOf)
		return nil, nil
	}
	if res.Config["marker"] != "the marker" {
		o.fail("analyzer %s: the configuration is not that of the analyzer: %v", x.ID, res.Config)
	}
	decls := 0
	have := map[types.Object]bool{}
	for _, f := range res.SSA.SrcFuncs {
		if f.Object() != nil {
			have[f.Object()] = true
		}
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "_" && fd.Name.Name != "init" {
				decls++
				if !have[p.TypesInfo.Defs[fd.Name]] {
					o.fail("analyzer %s: the SSA representation lacks the function %s", x.ID, fd.Name.Name)
				}
			}
		}
	}
	mk := func(n ast.Node, id string) *issue.Issue {
		f := p.Fset.File(n.Pos())
		from, to := span(p.Fset, n)
		dropped := false
		for _, sf := range p.Files {
			if sf.FileStart <= n.Pos() && n.Pos() <= sf.FileEnd && o.c.ExclGen && ast.IsGenerated(sf) {
				dropped = true
			}
		}
		if !dropped {
			o.expect(id, from.Filename, from.Line, to.Line, from.Column, 2, 1, x.Suppressed && id == x.ID)
		}
		return issue.New(f, n, id, "own issue", issue.High, issue.Medium)
	}
	switch x.Out {
	case 1:
		return nil, nil
	case 2:
		return nil, errors.New("own error")
	case 3:
		return "something else", nil
	}
	var out []*issue.Issue
	k := 0
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				if k++; k%10 == x.At {
					out = append(out, mk(e, x.ID))
					if x.Out == 4 {
						out = append(out, mk(e, "other"))
					}
				}
			}
			return true
		})
	}
	return out, nil
}

func init() {
	register("C34", "scans in which own rules match and issues are reported", 16000, 400000, genOwn, runOwn)
}
