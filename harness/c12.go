package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C12: findings do not depend on layout, comments, names of locals and imports, order and files of declarations.

type invCase struct {
	Before, After []File
	Where         [][]string // for every file of After, the declarations of Before ("file#index") in order
	What          string
	Track         bool
	Old           bool // for Go 1.21
}

// declSpans returns the offsets of the declarations of a file, with their leading comments and the rest of their last line.
func declSpans(src string) (header int, spans [][2]int, decls []ast.Decl, ok bool) {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return
	}
	off := func(p token.Pos) int { return fs.File(p).Offset(p) }
	last := off(af.Name.End())
	header = -1
	for _, d := range af.Decls {
		end := off(d.End())
		if i := strings.IndexByte(src[end:], '\n'); i >= 0 {
			if rest := strings.TrimSpace(src[end : end+i]); rest != "" && !strings.HasPrefix(rest, "//") {
				return
			}
			end += i + 1
		} else {
			end = len(src)
		}
		if off(d.Pos()) < last {
			return
		}
		spans = append(spans, [2]int{last, end})
		last = end
	}
	return header, spans, af.Decls, true
}

func isImport(d ast.Decl) bool {
	g, ok := d.(*ast.GenDecl)
	return ok && g.Tok == token.IMPORT
}

// identity of the declarations of files as they stand.
func declIDs(files []File) ([][]string, bool) {
	var out [][]string
	for _, f := range files {
		_, spans, _, ok := declSpans(f.Src)
		if !ok {
			return nil, false
		}
		var l []string
		for k := range spans {
			l = append(l, fmt.Sprintf("%s#%d", f.Name, k))
		}
		out = append(out, l)
	}
	return out, true
}

// reorder shuffles the declarations of the files after their imports.
func reorder(t *rapid.T, files []File, ids [][]string) ([]File, [][]string) {
	outF, outI := append([]File{}, files...), append([][]string{}, ids...)
	for n, f := range files {
		_, spans, decls, ok := declSpans(f.Src)
		if !ok || len(spans) != len(ids[n]) {
			continue
		}
		first := 0
		for first < len(decls) && isImport(decls[first]) {
			first++
		}
		if len(decls)-first < 2 {
			continue
		}
		var b strings.Builder
		b.WriteString(f.Src[:spans[first][0]])
		nid := append([]string{}, ids[n][:first]...)
		for _, k := range permutation(t, len(decls)-first) {
			b.WriteString(f.Src[spans[first+k][0]:spans[first+k][1]])
			if !strings.HasSuffix(b.String(), "\n") {
				b.WriteString("\n")
			}
			nid = append(nid, ids[n][first+k])
		}
		b.WriteString(f.Src[spans[len(spans)-1][1]:])
		outF[n].Src, outI[n] = b.String(), nid
	}
	return outF, outI
}

// moveFuncs moves functions that use no package-level variable or constant to a file of their own.
func moveFuncs(t *rapid.T, files []File, ids [][]string) ([]File, [][]string, bool) {
	p := checkFiles(files)
	if p == nil {
		return nil, nil, false
	}
	outF, outI := append([]File{}, files...), append([][]string{}, ids...)
	imports := map[string]bool{}
	var moved []string
	var movedIDs []string
	for n, f := range files {
		_, spans, _, ok := declSpans(f.Src)
		af := p.files[n]
		if !ok || len(spans) != len(ids[n]) || len(af.Decls) != len(spans) {
			continue
		}
		dot := false
		for _, s := range af.Imports {
			dot = dot || s.Name != nil && s.Name.Name == "." || s.Path.Value == `"C"`
		}
		if dot {
			continue
		}
		left := map[string]int{} // remaining uses of the imports
		take := map[int]map[string]bool{}
		for k, d := range af.Decls {
			used := map[string]bool{}
			free := true
			ast.Inspect(d, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok {
					switch o := p.info.Uses[id].(type) {
					case *types.PkgName:
						used[fmt.Sprintf("%s %q", o.Name(), o.Imported().Path())] = true
					case *types.Var, *types.Const:
						if o.Parent() == p.pkg.Scope() {
							free = false
						}
					}
				}
				return true
			})
			if _, ok := d.(*ast.FuncDecl); ok && free && oneIn(t, 2, "move") {
				take[k] = used
				continue
			}
			if !isImport(d) {
				for u := range used {
					left[u]++
				}
			}
		}
		if len(take) == 0 {
			continue
		}
		var es []edit
		var nid []string
		for k := range af.Decls {
			if used, ok := take[k]; ok {
				es = append(es, edit{spans[k][0], spans[k][1], "\n"})
				moved = append(moved, f.Src[spans[k][0]:spans[k][1]])
				movedIDs = append(movedIDs, ids[n][k])
				for u := range used {
					imports[u] = true
				}
				continue
			}
			nid = append(nid, ids[n][k])
		}
		// imports that are no longer used become blank
		for _, s := range af.Imports {
			var o types.Object
			if s.Name != nil {
				o = p.info.Defs[s.Name]
			} else {
				o = p.info.Implicits[s]
			}
			pn, ok := o.(*types.PkgName)
			if !ok || pn.Name() == "_" || left[fmt.Sprintf("%s %q", pn.Name(), pn.Imported().Path())] > 0 {
				continue
			}
			_, a := p.offset(s.Pos())
			if s.Name != nil {
				es = append(es, edit{a, a + len(s.Name.Name), "_"})
			} else {
				es = append(es, edit{a, a, "_ "})
			}
		}
		outF[n].Src, outI[n] = applyEdits(f.Src, es), nid
	}
	if len(moved) == 0 {
		return nil, nil, false
	}
	src := "package " + p.files[0].Name.Name + "\n\n"
	if len(imports) > 0 {
		src += "import (\n"
		for _, i := range sortedKeys(imports) {
			src += "\t" + i + "\n"
		}
		src += ")\n"
		movedIDs = append([]string{"moved imports"}, movedIDs...)
	}
	for _, m := range moved {
		if src += m; !strings.HasSuffix(src, "\n") {
			src += "\n"
		}
	}
	name := sampled([]string{"aaa_moved.go", "zzz_moved.go"}).Draw(t, "name")
	nf, ni := File{name, src}, movedIDs
	if name[0] == 'a' {
		outF, outI = append([]File{nf}, outF...), append([][]string{ni}, outI...)
	} else {
		outF, outI = append(outF, nf), append(outI, ni)
	}
	return outF, outI, true
}

var secretName = regexp.MustCompile(`(?i)passwd|pass|password|pwd|secret|token|pw|apiKey|bearer|cred`)

// renameLocals renames variables, constants, labels and parameters of functions.
func renameLocals(t *rapid.T, files []File) []File {
	p := checkFiles(files)
	if p == nil {
		return nil
	}
	implicit := map[token.Pos]bool{}
	for _, o := range p.info.Implicits {
		if _, ok := o.(*types.Var); ok {
			implicit[o.Pos()] = true
		}
	}
	top := map[string]bool{}
	for _, n := range p.pkg.Scope().Names() {
		top[n] = true
	}
	names := map[token.Pos]string{}
	style := upTo(t, 4, "style")
	return p.renameObjects(func(o types.Object) string {
		if o.Pkg() != p.pkg || o.Name() == "_" || implicit[o.Pos()] || secretName.MatchString(o.Name()) {
			return ""
		}
		switch v := o.(type) {
		case *types.Var:
			if v.IsField() || v.Parent() == p.pkg.Scope() {
				return ""
			}
		case *types.Const:
			if v.Parent() == p.pkg.Scope() {
				return ""
			}
		case *types.Label:
		default:
			return ""
		}
		if n, ok := names[o.Pos()]; ok {
			return n
		}
		i := len(names)
		n := fmt.Sprintf([]string{"v%d_", "é%dx", "X%d", "_%d", "local%dName"}[style], i)
		if top[n] {
			n += "__"
		}
		names[o.Pos()] = n
		return n
	})
}

// aliasImports gives imports other names.
func aliasImports(t *rapid.T, files []File) []File {
	p := checkFiles(files)
	if p == nil {
		return nil
	}
	es := make([][]edit, len(files))
	names := map[types.Object]string{}
	n := 0
	for k, af := range p.files {
		for _, s := range af.Imports {
			if s.Path.Value == `"C"` || s.Path.Value == `"embed"` || oneIn(t, 3, "keep") {
				continue
			}
			n++
			alias := fmt.Sprintf(sampled([]string{"imp%d", "x%d_", "Imp%d", "ï%d"}).Draw(t, "alias"), n)
			_, a := p.offset(s.Pos())
			if s.Name == nil {
				names[p.info.Implicits[s]] = alias
				es[k] = append(es[k], edit{a, a, alias + " "})
			} else if s.Name.Name != "." && s.Name.Name != "_" {
				names[p.info.Defs[s.Name]] = alias
				es[k] = append(es[k], edit{a, a + len(s.Name.Name), alias})
			}
		}
	}
	for id, o := range p.info.Uses {
		if a := names[o]; a != "" {
			f, off := p.offset(id.Pos())
			es[f] = append(es[f], edit{off, off + len(id.Name), a})
		}
	}
	out := make([]File, len(files))
	for k, f := range files {
		out[k] = File{f.Name, applyEdits(f.Src, es[k])}
	}
	return out
}

var nosecRe = regexp.MustCompile(`(?i)nosec|gosec:disable|go:build|\+build|DO NOT EDIT|go:embed|//line|/\*line`)

func genInv(t *rapid.T) invCase {
	for {
		c := invCase{Track: oneIn(t, 4, "track"), Old: oneIn(t, 3, "old")}
		c.Before = genProg(t, false)
		usable := true
		for _, f := range c.Before {
			usable = usable && !nosecRe.MatchString(f.Src) && !strings.Contains(f.Src, "\r") && !strings.Contains(f.Src, `import "C"`) && f.Name == filepath.Base(f.Name)
		}
		if !usable || checkFiles(c.Before) == nil {
			continue
		}
		var ok bool
		if c.Where, ok = declIDs(c.Before); !ok {
			continue
		}
		c.After = append([]File{}, c.Before...)
		for n := 1 + upTo(t, 2, "steps"); n > 0; n-- {
			var fs []File
			ids := c.Where
			kind := sampled([]string{"locals", "imports", "order", "move", "layout", "gofmt"}).Draw(t, "step")
			switch kind {
			case "locals":
				fs = renameLocals(t, c.After)
			case "imports":
				fs = aliasImports(t, c.After)
			case "order":
				fs, ids = reorder(t, c.After, c.Where)
			case "move":
				ok := false
				if strings.Contains(c.What, "move") {
					continue
				}
				if fs, ids, ok = moveFuncs(t, c.After, c.Where); !ok {
					fs = nil
				}
			case "gofmt":
				for _, f := range c.After {
					fs = append(fs, File{f.Name, gofmtSrc(f.Src)})
				}
			case "layout":
				for _, f := range c.After {
					src := f.Src
					if src = relayout(t, src, 2+upTo(t, 12, "density")); oneIn(t, 6, "crlf") {
						src = strings.ReplaceAll(src, "\n", "\r\n")
					}
					fs = append(fs, File{f.Name, src})
				}
			}
			if fs == nil || checkFiles(fs) == nil {
				continue
			}
			c.After, c.Where = fs, ids
			if c.What += kind + " "; kind == "layout" { // tokens with carriage returns are not supported
				break
			}
		}
		if c.What == "" {
			continue
		}
		return c
	}
}

// locator maps positions to declarations and tokens, which no change of the layout alters.
type locator struct {
	decls   []ast.Decl
	spans   [][2]int
	starts  []int // offsets of the tokens other than semicolons
	lines   []int // offsets of the lines
	src     string
	imports []importSpan
}

type importSpan struct {
	from, to int
	path     string
}

func newLocator(src string) *locator {
	l := &locator{src: src}
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	off := func(p token.Pos) int { return fs.File(p).Offset(p) }
	for _, d := range af.Decls {
		l.decls = append(l.decls, d)
		l.spans = append(l.spans, [2]int{off(d.Pos()), off(d.End())})
	}
	for _, s := range af.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		l.imports = append(l.imports, importSpan{off(s.Pos()), off(s.End()), p})
	}
	at := 0
	ts, _ := tokenize(src)
	for _, t := range ts {
		at += len(t.pre)
		if t.kind != token.SEMICOLON {
			l.starts = append(l.starts, at)
		}
		at += len(t.text)
	}
	l.lines = []int{0}
	for k := range src {
		if src[k] == '\n' {
			l.lines = append(l.lines, k+1)
		}
	}
	return l
}

// place returns the index of the declaration and the place in it, or the imported path.
func (l *locator) place(line, col int) (decl int, where string, err error) {
	if line < 1 || line > len(l.lines) {
		return 0, "", fmt.Errorf("no line %d", line)
	}
	off := l.lines[line-1] + col - 1
	for _, i := range l.imports {
		if off >= i.from && off < i.to {
			return -1, "import " + i.path, nil
		}
	}
	for k, s := range l.spans {
		if off >= s[0] && off < s[1] {
			a := sort.SearchInts(l.starts, s[0])
			b := sort.SearchInts(l.starts, off)
			if b == len(l.starts) || l.starts[b] != off {
				return 0, "", fmt.Errorf("no token at %d:%d", line, col)
			}
			return k, strconv.Itoa(b - a), nil
		}
	}
	return 0, "", fmt.Errorf("no declaration at %d:%d", line, col)
}

func (c invCase) findings(files []File, where [][]string) ([]string, map[string]bool, error) {
	r, err := MustScan(files, ScanOpts{Track: c.Track})
	if err != nil {
		return nil, nil, err
	}
	locs := map[string]*locator{}
	var out []string
	imps := map[string]bool{}
	for _, i := range r.Issues {
		k := -1
		for n := range files {
			if files[n].Name == filepath.Base(i.File) {
				k = n
			}
		}
		if k < 0 {
			return nil, nil, violf("an issue in %s, which is no scanned file\n%s", i.File, dumpFiles(files))
		}
		l := locs[files[k].Name]
		if l == nil {
			if l = newLocator(files[k].Src); l == nil {
				return nil, nil, harnessf("cannot locate issues in %s", files[k].Src)
			}
			locs[files[k].Name] = l
		}
		from, _ := lineOf(i)
		col, _ := strconv.Atoi(i.Col)
		d, p, err := l.place(from, col)
		if err != nil {
			return nil, nil, violf("issue %s: %v\n%s", issueFull(i, ""), err, dumpFiles(files))
		}
		if d < 0 {
			imps[i.RuleID+" "+p] = true
			continue
		}
		out = append(out, fmt.Sprintf("%s %s token %s: %s %v %v", where[k][d], i.RuleID, p, i.What, i.Severity, i.Confidence))
	}
	sort.Strings(out)
	return out, imps, nil
}

func runInv(c invCase, s *Stats) error {
	defer goVersion(c.Old)()
	ids, ok := declIDs(c.Before)
	if !ok {
		return harnessf("cannot split %s", dumpFiles(c.Before))
	}
	a, ai, err := c.findings(c.Before, ids)
	if err != nil {
		return err
	}
	b, bi, err := c.findings(c.After, c.Where)
	if err != nil {
		return err
	}
	if d := diffMultiset(a, b); d != "" {
		return violf("findings before (first) and after (second) the changes %sdiffer: %s\n=== before\n%s\n=== after\n%s", c.What, d, dumpFiles(c.Before), dumpFiles(c.After))
	}
	if x, y := fmt.Sprint(sortedKeys(ai)), fmt.Sprint(sortedKeys(bi)); x != y {
		return violf("findings at imports before and after the changes %sdiffer: %s, %s\n=== before\n%s\n=== after\n%s", c.What, x, y, dumpFiles(c.Before), dumpFiles(c.After))
	}
	if len(a) > 0 {
		s.NonTrivial()
		for _, w := range strings.Fields(c.What) {
			s.Label("change of " + w)
		}
		for _, x := range a {
			s.Label("rule " + strings.Fields(x)[1])
		}
	}
	return nil
}

func init() {
	register("C12", "distinct changed packages with at least one finding outside the imports", 20000, 500000, genInv, runInv)
}
