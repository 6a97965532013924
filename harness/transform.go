package main

import (
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

var _ = importer.Default

// edit of a source text.
type edit struct {
	off, end int
	text     string
}

func applyEdits(src string, es []edit) string {
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var b strings.Builder
	last := 0
	for _, e := range es {
		if e.off < last {
			continue
		}
		b.WriteString(src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.WriteString(src[last:])
	return b.String()
}

// typedPkg is a type-checked package of a case.
type typedPkg struct {
	fset  *token.FileSet
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	src   []File
	name  map[string]int // token file name -> index
}

func checkFiles(files []File) *typedPkg {
	loadExports()
	fset := token.NewFileSet()
	tp := &typedPkg{fset: fset, src: files, name: map[string]int{}}
	for i, f := range files {
		n := "/" + f.Name
		af, err := parser.ParseFile(fset, n, f.Src, parser.ParseComments)
		if err != nil {
			return nil
		}
		tp.files = append(tp.files, af)
		tp.name[n] = i
	}
	tp.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	bad := false
	conf := &types.Config{Importer: sharedImp, Error: func(error) { bad = true }}
	tp.pkg, _ = conf.Check("p", fset, tp.files, tp.info)
	if bad {
		return nil
	}
	return tp
}

func (p *typedPkg) offset(pos token.Pos) (file int, off int) {
	f := p.fset.File(pos)
	return p.name[f.Name()], f.Offset(pos)
}

// renameObjects renames the objects for which name returns a new name.
func (p *typedPkg) renameObjects(name func(types.Object) string) []File {
	es := make([][]edit, len(p.src))
	done := map[token.Pos]bool{}
	each := func(id *ast.Ident, o types.Object) {
		if o == nil || done[id.Pos()] || id.Name == "_" || id.Name != o.Name() {
			return
		}
		if n := name(o); n != "" && n != id.Name {
			done[id.Pos()] = true
			f, off := p.offset(id.Pos())
			es[f] = append(es[f], edit{off, off + len(id.Name), n})
		}
	}
	for id, o := range p.info.Defs {
		each(id, o)
	}
	for id, o := range p.info.Uses {
		each(id, o)
	}
	out := make([]File, len(p.src))
	for i, f := range p.src {
		out[i] = File{f.Name, applyEdits(f.Src, es[i])}
	}
	return out
}

// suffixTopLevel appends a suffix to the names of all package-level objects; nil when the result is not well typed.
func suffixTopLevel(files []File, suffix string) []File {
	p := checkFiles(files)
	if p == nil {
		return nil
	}
	topName := func(o types.Object) string {
		if o.Pkg() != p.pkg || o.Parent() != p.pkg.Scope() || o.Name() == "init" {
			return ""
		}
		return o.Name() + suffix
	}
	out := p.renameObjects(func(o types.Object) string {
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			t := v.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			switch t := t.(type) {
			case *types.Named:
				return topName(t.Obj())
			case *types.Alias:
				return topName(t.Obj())
			}
			return ""
		}
		return topName(o)
	})
	if checkFiles(out) == nil {
		return nil
	}
	return out
}

// setPackage changes the package clause.
func setPackage(files []File, name string) []File {
	var out []File
	for _, f := range files {
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, "x.go", f.Src, parser.PackageClauseOnly)
		if err != nil {
			return nil
		}
		off := fs.Position(af.Name.Pos()).Offset
		out = append(out, File{f.Name, f.Src[:off] + name + f.Src[off+len(af.Name.Name):]})
	}
	return out
}

func gofmtSrc(src string) string {
	b, err := format.Source([]byte(src))
	if err != nil {
		return src
	}
	return string(b)
}

func baseNames(fs []File) []string {
	var out []string
	for _, f := range fs {
		out = append(out, filepath.Base(f.Name))
	}
	return out
}

func pkgNameOf(src string) string {
	af, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.PackageClauseOnly)
	if err != nil || af.Name == nil {
		return "p"
	}
	return af.Name.Name
}

func endsStatement(t tok) bool {
	switch t.kind {
	case token.IDENT, token.INT, token.FLOAT, token.IMAG, token.CHAR, token.STRING, token.BREAK, token.CONTINUE, token.FALLTHROUGH, token.RETURN, token.INC, token.DEC, token.RPAREN, token.RBRACK, token.RBRACE:
		return true
	}
	return false
}

var commentTexts = []string{"c", "é 日本 😀", "TODO: x", `password = "f00bar-hunter2-x9"`, "a := b { ( [", "0600", "", "see https://example.com/?a=1#b", "nolint", "\t\t"}

// relayout changes white space and comments between the tokens of a source text. The sequence of tokens stays.
func relayout(t *rapid.T, src string, density int) string {
	ts, tl := tokenize(src)
	text := func() string { return sampled(commentTexts).Draw(t, "comment") }
	for k := 1; k < len(ts); k++ {
		pre, prev := ts[k].pre, ts[k-1]
		if strings.Contains(pre, "/") || !oneIn(t, density, "gap") {
			continue
		}
		nl := strings.Contains(pre, "\n")
		switch {
		case nl && endsStatement(prev):
			switch upTo(t, 6, "kind") {
			case 0:
				pre += "\n\n"
			case 1:
				pre = "\n// " + text() + "\n" + pre
			case 2:
				pre = " // " + text() + "\n" + pre
			case 3:
				pre = " /* " + text() + "\n" + text() + " */" + pre
			case 4:
				pre = ";" + pre
			case 5:
				pre = " ;\t" + "/* " + text() + " */" + " "
			default:
				pre += sampled([]string{"//line other.go:77\n", "//line /no/such/file.go:3:9\n", "/*line zz.go:5*/ ", "//line x_test.go:1\n"}).Draw(t, "directive")
			}
		case !endsStatement(prev):
			switch upTo(t, 4, "kind") {
			case 0:
				pre += "\n"
			case 1:
				pre += "// " + text() + "\n"
			case 2:
				pre = pre + "/* " + text() + "\n */"
			case 3:
				pre += "\t\t "
			default:
				if pre = " "; nl {
					pre = "\t"
				}
			}
		default:
			if oneIn(t, 2, "comment") {
				pre += "/* " + text() + " */ "
			} else {
				pre += "  \t"
			}
		}
		ts[k].pre = pre
	}
	return untokenize(ts, tl)
}
