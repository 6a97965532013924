package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// C37: gosecutil is run with lists of files, usable and not, and what it prints is compared with what the parser and the
// type checker tell about each of the files.

type utilFile struct {
	Name string
	Src  string
	Kind int // 0: a file, 1: missing, 2: a directory
}

type utilCase struct {
	Files []utilFile
	Tools []string
	Extra string // one more tool, which does not exist
}

var utilTools = []string{"ast", "callobj", "uses", "types", "defs", "comments", "imports"}

func genUtil(t *rapid.T) utilCase {
	var c utilCase
	for n := 1 + upTo(t, 3, "files"); n > 0; n-- {
		f := utilFile{Name: sampled([]string{"a.go", "b c.go", "d/e.go", "x_test.go", "ü.go", "plain.txt", "-dash.go"}).Draw(t, "name"), Kind: sampled([]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 2}).Draw(t, "kind")}
		f.Name = fmt.Sprintf("f%d/%s", n, f.Name)
		var fs []File
		switch upTo(t, 9, "source") {
		case 0:
			fs = wildFiles(t)
		case 1:
			fs = []File{{"x.go", sampled([]string{"", "package", "package p", "package p\n\nfunc", "package p\n\nvar x int = \"a\"\n", "package p\n\nimport \"fmt\"\n", "package p\n\nimport \"no/such/package\"\n", "\x00\xff", "package p // é\n\n// one\n\n/* two\nlines */\n", "package p\n\nfunc f() { undefined() }\n", "package p\n\nimport . \"strings\"\n\nvar B = NewReader(`a\n b`)\n", "package p\n\nimport (\n\tm \"math/rand/v2\"\n\t_ \"crypto/md5\"\n)\n\ntype T[K any] struct{ k K }\n\nfunc (t *T[K]) M() K { m.Int(); return t.k }\n\nvar X = new(T[string]).M()\n"}).Draw(t, "text")}}
		case 2, 3:
			fs = typedFiles(t)
			fs = fs[len(fs)-1:]
		case 4, 5:
			fs = litFiles(t)
		default:
			fs = genProg(t, true)
		}
		f.Src = fs[upTo(t, len(fs)-1, "file")].Src
		c.Files = append(c.Files, f)
	}
	for n := 1 + upTo(t, 1, "tools"); n > 0; n-- {
		c.Tools = append(c.Tools, sampled(utilTools).Draw(t, "tool"))
	}
	if oneIn(t, 12, "unknown") {
		c.Extra = sampled([]string{"nosuch", "AST", "uses,defs", " ast", "import"}).Draw(t, "extra")
	}
	return c
}

var pointerRe = regexp.MustCompile(`0xc[0-9a-f]+|^ *[0-9]+  `)

// printed tells what a tool prints for a usable file, and whether the order counts.
func printed(tool, path, src string) (text string, order, ok bool) {
	fset := token.NewFileSet()
	if tool == "ast" {
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return "", false, false
		}
		var b bytes.Buffer
		_ = ast.Fprint(&b, fset, f, ast.NotNilFilter)
		return b.String(), false, true // the names of the scope are in any order
	}
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", false, false
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	pkg, err := (&types.Config{Importer: sharedImp}).Check("main.go", fset, []*ast.File{f}, info)
	if err != nil {
		return "", false, false
	}
	var b strings.Builder
	switch tool {
	case "uses":
		for id, o := range info.Uses {
			fmt.Fprintf(&b, "IDENT: %v, OBJECT: %v\n", id, o)
		}
	case "defs":
		for id, o := range info.Defs {
			fmt.Fprintf(&b, "IDENT: %v, OBJ: %v\n", id, o)
		}
	case "types":
		for e, tv := range info.Types {
			fmt.Fprintf(&b, "EXPR: %v, TYPE: %v\n", e, tv)
		}
	case "comments":
		for _, g := range f.Comments {
			fmt.Fprintln(&b, g.Text())
		}
		return b.String(), true, true
	case "imports":
		for _, p := range pkg.Imports() {
			fmt.Fprintln(&b, p.Path(), p.Name())
			for _, n := range p.Scope().Names() {
				fmt.Fprintln(&b, "  => ", n)
			}
		}
	case "callobj":
		ast.Inspect(f, func(n ast.Node) bool {
			id, isIdent := n.(*ast.Ident)
			if sel, ok := n.(*ast.SelectorExpr); ok {
				id, isIdent = sel.Sel, true
			}
			if !isIdent {
				return true
			}
			o := info.ObjectOf(id)
			if o == nil {
				return true
			}
			fmt.Fprintf(&b, "OBJECT\n   Package = %v\n", o.Pkg())
			if o.Pkg() != nil {
				fmt.Fprintf(&b, "   Path =  %s\n   Name =  %s\n   String =  %s\n", o.Pkg().Path(), o.Pkg().Name(), o.Pkg())
			}
			fmt.Fprintf(&b, "   Name = %v\n   Type = %v\n   Id = %v\n", o.Name(), o.Type(), o.Id())
			return true
		})
		return b.String(), true, true
	}
	return b.String(), false, true
}

func runUtil(c utilCase, s *Stats) error {
	loadExports()
	dir := caseDir()
	var args []string
	for _, t := range c.Tools {
		args = append(args, "-tool", t)
	}
	if c.Extra != "" {
		args = append(args, "-tool="+c.Extra)
	}
	args = append(args, "--")
	for _, f := range c.Files {
		p := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return harnessf("%v", err)
		}
		var err error
		switch f.Kind {
		case 0:
			err = os.WriteFile(p, []byte(f.Src), 0o644)
		case 2:
			err = os.MkdirAll(p, 0o755)
		}
		if err != nil {
			return harnessf("%v", err)
		}
		args = append(args, f.Name)
	}
	r, err := runBin(utilBin, dir, nil, args...)
	if err != nil {
		return err
	}
	fail := func(format string, a ...any) error {
		var b strings.Builder
		for _, f := range c.Files {
			fmt.Fprintf(&b, "--- %s (kind %d)\n%s\n", f.Name, f.Kind, f.Src)
		}
		return violf("gosecutil %q: %s\nexit status %d, standard error:\n%s\n%s", args, fmt.Sprintf(format, a...), r.Exit, tail(r.Stderr, 1500), b.String())
	}
	if c.Extra != "" {
		if r.Exit == 0 || r.Stdout != "" || !strings.Contains(r.Stderr, "callobj") {
			return fail("a tool which does not exist is not refused with the list of the tools")
		}
		s.Label("unknown tool")
		return nil
	}
	if r.Exit != 0 {
		return fail("exit status %d", r.Exit)
	}
	rest, good, bad := r.Stdout, 0, 0
	for _, t := range c.Tools {
		for _, f := range c.Files {
			want, order, ok := "", false, false
			if f.Kind == 0 {
				want, order, ok = printed(t, f.Name, f.Src)
			}
			if !ok {
				bad++
				if !strings.Contains(r.Stderr, f.Name) {
					return fail("nothing is said about %s, which cannot be used", f.Name)
				}
				continue
			}
			good++
			s.Label("tool " + t)
			n := strings.Count(want, "\n")
			lines := strings.SplitAfterN(rest, "\n", n+1)
			if len(lines) <= n {
				return fail("-tool %s %s: %d lines are missing", t, f.Name, n+1-len(lines))
			}
			rest = lines[n]
			have, wanted := lines[:n], strings.SplitAfterN(want, "\n", n+1)[:n]
			for _, ls := range [][]string{have, wanted} {
				for i := range ls {
					ls[i] = pointerRe.ReplaceAllString(ls[i], "P")
				}
				if !order {
					slices.Sort(ls)
				}
			}
			for i := range have {
				if have[i] != wanted[i] {
					return fail("-tool %s %s prints %q, expected %q", t, f.Name, have[i], wanted[i])
				}
			}
		}
	}
	if rest != "" {
		return fail("more output than expected: %q", tail(rest, 500))
	}
	if bad > 0 && good > 0 {
		s.NonTrivial()
	}
	if bad > 0 {
		s.Label("with files which cannot be used")
	}
	return nil
}

func init() {
	register("C37", "distinct runs on files of which some can be used and some cannot", 400, 20000, genUtil, runUtil, needTools)
}
