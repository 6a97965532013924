package main

import (
	"errors"
	"fmt"
	"go/build"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/issue"
	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

// C15: broken packages among healthy ones, scanned with the command line tool. The errors of a package are those which
// Go's own parser and type checker find in its files; the issues of the healthy packages are those of a scan of each of
// them alone. Positions of errors in files of any name are tried directly as well.

type brkDir struct {
	Name    string
	Files   []File
	Healthy bool
}

type brkPos struct {
	File      string
	Line, Col int // 0 = not given
	Msg       string
}

type brkCase struct {
	Dirs  []brkDir
	All   bool // ./... rather than each directory
	Order []int
	Conc  int
	Tests bool
	Pos   []brkPos
}

var brkNames = []string{"p0", "p1", "a b", "x=y", "a#b", "ü", "-x", "co:lon", "a:1:2", "x.go", "y.go:7", "a\"b", "a'b", "a,b", "~a", "a%20b", "q/r:5/s", "[a]", "a+b", "c:", ":", "p0/sub", "p1/sub/deep", "1", "7:8"}

var brkTemplates = []string{
	"package b\n\nfunc F() int { return undefinedThing }\n",
	"package b\n\nimport \"os\"\n\nfunc F() {\n\tx := 1\n}\n",
	"package b\n\nimport \"example.com/m/none\"\n\nvar X = none.Y\n",
	"package b\n\nimport (\n\t\"nosuch.org/x\"\n\t\"crypto/md5\"\n)\n\nvar X = x.Y\nvar Z = md5.New()\n",
	"package b\n\nfunc F( {\n\tx :=\n}\n\nfunc G() { y = = 3 }\n",
	"package b\n\nfunc F() {\n\ts := \"abc\n}\n\nvar y int = \"s\"\n",
	"package b\n\n/* never ends\n",
	"package b\n\nfunc F() {\n\t\x00\n}\n",
	"package b\n\nfunc F() {\n\tx := 'ab'\n\t\xff\n}\n",
	"func F() {}\n",
	"",
	"package\n",
	"package b\n\nimport \"\"\n",
	"package b\n\nimport os\n",
	"package b\n\nfunc F() {}\nfunc F() {}\n\ntype T struct{ a, a int }\n",
	"package b\n\ntype T T\n\nvar a = b2\n\nvar b2 = a\n",
	"package b\n\nfunc F() int {\n}\n\nfunc G() (a, b int) {\n\treturn 1\n}\n",
	"package b\n\n}\n",
	"package b\n\nfunc F() {\n\tfor {\n",
	"package b\n\nimport \"unsafe\"\n\nvar x unsafe.Nothing\n",
	"package b\n\n//line other.go:70\nfunc F() int { return undefinedThing }\n",
	"package b\n\n//line t:pl.y:70\nfunc F() int { return undefinedThing }\n",
	"package b\n\nfunc F() {\n\tbreak\n\tgoto nowhere\nunused:\n}\n",
}

func genBrk(t *rapid.T) brkCase {
	c := brkCase{All: oneIn(t, 3, "all"), Conc: upTo(t, 4, "conc"), Tests: oneIn(t, 3, "tests")}
	n := 1 + upTo(t, 3, "ndirs")
	names := rapid.Permutation(brkNames).Draw(t, "names")
	for i := 0; i < n; i++ {
		d := brkDir{Name: names[i], Healthy: oneIn(t, 2, "healthy")}
		for {
			switch {
			case !d.Healthy && !oneIn(t, 3, "mutant"):
				d.Files = []File{{"a.go", strings.Repeat("// x\n", upTo(t, 4, "shift")) + sampled(brkTemplates).Draw(t, "template")}}
				switch upTo(t, 5, "more") {
				case 0:
					d.Files = append(d.Files, File{"z.go", "package b\n\nimport \"crypto/md5\"\n\nvar W = md5.New()\n"})
				case 1:
					d.Files = append(d.Files, File{"z.go", sampled(brkTemplates).Draw(t, "template")})
				case 2:
					d.Files = append(d.Files, File{"z.go", "package c\n"})
				case 3:
					if c.Tests {
						d.Files = append(d.Files, File{"z_test.go", sampled(brkTemplates).Draw(t, "template")})
					}
				}
			default:
				d.Files = genProg(t, true)
				if !d.Healthy {
					i := upTo(t, len(d.Files)-1, "which")
					for k := 1 + upTo(t, 2, "muts"); k > 0; k-- {
						d.Files[i].Src = mutate(t, d.Files[i].Src)
					}
				}
			}
			ok := true
			for _, f := range d.Files {
				// cgo and the go command's own directives are none of this property's business
				if strings.Contains(f.Src, "\"C\"") || strings.Contains(f.Src, "//go:") || strings.Contains(f.Src, "+build") || f.Name != "z_test.go" && strings.Contains(f.Name, "_") || strings.Contains(f.Src, "internal/") {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		c.Dirs = append(c.Dirs, d)
	}
	c.Order = rapid.Permutation(seq(n)).Draw(t, "order")
	for i := upTo(t, 40, "npos"); i > 0; i-- {
		p := brkPos{File: "/src/" + sampled(brkNames).Draw(t, "dir") + "/" + sampled([]string{"a.go", "b.go", "x:y.go", "3:4.go", "a.go:5.go", "c.y", "é.go"}).Draw(t, "file"),
			Msg: sampled([]string{"undefined: x", " spaced\n", "a:3:4: message", "\tother declaration of F", ""}).Draw(t, "msg")}
		if oneIn(t, 6, "rel") {
			p.File = p.File[1:]
		}
		if !oneIn(t, 7, "noline") {
			p.Line = 1 + upTo(t, 300, "line")
			if !oneIn(t, 7, "nocol") {
				p.Col = 1 + upTo(t, 300, "col")
			}
		}
		c.Pos = append(c.Pos, p)
	}
	return c
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

type brkWant struct {
	file string
	line int
	col  int
	msg  string
}

func (w brkWant) String() string { return fmt.Sprintf("%s:%d:%d: %s", w.file, w.line, w.col, w.msg) }

func maskImport(msg string) string {
	msg = strings.TrimSpace(msg)
	if strings.HasPrefix(msg, "could not import") {
		return "could not import"
	}
	return msg
}

// goErrors are the errors which Go's parser and type checker report for the files.
func goErrors(dir string, files []File) (map[brkWant]bool, bool, error) {
	pkg, _, err := makePackage(dir, files)
	if err != nil {
		return nil, false, err
	}
	out := map[brkWant]bool{}
	imports := false
	for _, e := range parseErrors(dir, files) {
		out[brkWant{e.Pos.Filename, e.Pos.Line, e.Pos.Column, maskImport(e.Msg)}] = true
	}
	for _, e := range pkg.TypeErrors {
		p := pkg.Fset.Position(e.Pos)
		if !p.IsValid() { // after the end of a broken file
			continue
		}
		m := maskImport(e.Msg)
		imports = imports || m == "could not import"
		out[brkWant{p.Filename, p.Line, p.Column, m}] = true
	}
	return out, imports, nil
}

// checkPositions gives the analyzer errors at known positions.
func checkPositions(ps []brkPos) error {
	a := newAnalyzer(ScanOpts{}, false, 1)
	want := map[string]int{}
	for _, p := range ps {
		pos := p.File
		if p.Line > 0 {
			pos += fmt.Sprintf(":%d", p.Line)
			if p.Col > 0 {
				pos += fmt.Sprintf(":%d", p.Col)
			}
		}
		if p.Line == 0 && !strings.HasSuffix(pos, ".go") { // not a position of an error of the go command
			continue
		}
		if err := a.ParseErrors(&packages.Package{Name: "x", Errors: []packages.Error{{Pos: pos, Msg: p.Msg, Kind: packages.TypeError}}}); err != nil {
			return violf("an error at %q ends the scan: %v", pos, err)
		}
		want[brkWant{p.File, p.Line, p.Col, strings.TrimSpace(p.Msg)}.String()]++
	}
	_, _, errs := a.Report()
	for f, es := range errs {
		for _, e := range es {
			k := brkWant{f, e.Line, e.Column, e.Err}.String()
			if want[k]--; want[k] < 0 {
				return violf("reported error %q is none of those given (in file %q, line %d, column %d)\nexpected %v", k, f, e.Line, e.Column, want)
			}
		}
	}
	for k, n := range want {
		if n > 0 {
			return violf("error %q is not reported", k)
		}
	}
	return nil
}

func runBrk(c brkCase, s *Stats) error {
	if err := checkPositions(c.Pos); err != nil {
		return err
	}
	var files []File
	for _, d := range c.Dirs {
		files = append(files, inDir(d.Name, d.Files)...)
	}
	dir, err := writeModule(files)
	if err != nil {
		return err
	}
	args := []string{"-fmt=json"}
	if c.Conc > 0 {
		args = append(args, fmt.Sprintf("-concurrency=%d", c.Conc))
	}
	if c.Tests {
		args = append(args, "-tests")
	}
	if c.All {
		args = append(args, "./...")
	} else {
		for _, i := range c.Order {
			if i < len(c.Dirs) {
				args = append(args, "./"+c.Dirs[i].Name)
			}
		}
	}
	r, err := runCLI(dir, nil, args...)
	if err != nil {
		return err
	}
	rep, err := r.mustReport(args)
	if err != nil {
		return err
	}
	got := map[string][]cliError{}
	issues := map[string][]string{}
	for f, es := range rep.Errors {
		if !sort.SliceIsSorted(es, func(i, j int) bool {
			a, b := es[i], es[j]
			if a.Line != b.Line {
				return a.Line < b.Line
			}
			if a.Column != b.Column {
				return a.Column < b.Column
			}
			return a.Err < b.Err
		}) {
			return violf("the errors of %s are not sorted: %v", f, es)
		}
		if f != "" && !filepath.IsAbs(f) {
			f = filepath.Join(dir, f)
		}
		got[f] = append(got[f], es...)
	}
	for i := range rep.Issues {
		is := &rep.Issues[i]
		d := filepath.Dir(is.File)
		issues[d] = append(issues[d], is.key(d+"/"))
	}
	broken, healthy := 0, 0
	for _, d := range c.Dirs {
		pd := filepath.Join(dir, d.Name)
		b := build.Default
		bp, berr := b.ImportDir(pd, build.ImportComment)
		var none *build.NoGoError
		if errors.As(berr, &none) {
			continue
		}
		if berr != nil {
			s.Label("directory that cannot be read as a package")
			broken++
			if len(got[pd]) == 0 {
				return violf("gosec %v: %s cannot be read as a package (%v), which is not reported; reported are %v\n%s", args, d.Name, berr, rep.Errors, dumpFiles(files))
			}
			continue
		}
		var fs []File
		for _, f := range d.Files {
			for _, n := range append(append([]string{}, bp.GoFiles...), bp.TestGoFiles...) {
				if n == f.Name && (c.Tests || !strings.HasSuffix(n, "_test.go")) {
					fs = append(fs, f)
				}
			}
		}
		if len(bp.XTestGoFiles) > 0 {
			return nil
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
		want, badImport, err := goErrors(pd, fs)
		if err != nil {
			return err
		}
		for _, f := range fs { // the go command does not look for imports behind other declarations
			for _, e := range got[filepath.Join(pd, f.Name)] {
				if w := (brkWant{filepath.Join(pd, f.Name), e.Line, e.Column, "could not import"}); strings.HasPrefix(e.Err, w.msg) && !want[w] {
					badImport = true
					want = map[brkWant]bool{}
				}
			}
		}
		if len(want) == 0 && badImport {
			for _, e := range parseErrors(pd, fs) {
				want[brkWant{e.Pos.Filename, e.Pos.Line, e.Pos.Column, maskImport(e.Msg)}] = true
			}
			if len(want) == 0 {
				return violf("gosec %v cannot import a package which exists: %v\n%s", args, rep.Errors, dumpFiles(files))
			}
		}
		if len(want) > 0 {
			broken++
		} else {
			healthy++
		}
		seen := map[brkWant]bool{}
		for _, f := range fs {
			p := filepath.Join(pd, f.Name)
			for _, e := range got[p] {
				w := brkWant{p, e.Line, e.Column, maskImport(e.Err)}
				seen[w] = true
				if !want[w] && !badImport {
					return violf("gosec %v reports an error that Go does not find: %v\nGo finds %v\n%s", args, w, want, dumpFiles(files))
				}
			}
		}
		for w := range want {
			if _, err := os.Stat(w.file); err != nil { // a line directive
				for _, e := range got[w.file] {
					if e.Line == w.line && maskImport(e.Err) == w.msg {
						seen[w] = true
					}
				}
			}
			if !seen[w] {
				return violf("gosec %v does not report the error %v\nreported: %v\n%s", args, w, rep.Errors, dumpFiles(files))
			}
		}
		s.LabelN("errors compared", len(want))
		if d.Healthy && len(want) > 0 {
			return harnessf("program does not compile: %v\n%s", want, dumpFiles(fs))
		}
		if len(want) == 0 {
			res, err := scanDir(pd, fs, ScanOpts{})
			if err != nil {
				return err
			}
			alone := issueMultiset(res.Issues, cliKeyOf(pd+"/"))
			sort.Strings(issues[pd])
			if diff := diffMultiset(alone, issues[pd]); diff != "" {
				return violf("gosec %v: the issues of %s alone (first) and in this run (second) differ: %s\nerrors: %v\n%s", args, d.Name, diff, rep.Errors, dumpFiles(files))
			}
			s.LabelN("issues of healthy packages", len(alone))
		}
	}
	wantExit := 0
	if len(rep.Issues) > 0 || broken > 0 {
		wantExit = 1
	}
	if r.Exit != wantExit {
		return violf("gosec %v ends with exit status %d instead of %d (%d issues, %d broken packages)\n%s", args, r.Exit, wantExit, len(rep.Issues), broken, dumpFiles(files))
	}
	s.LabelN("broken packages", broken)
	s.LabelN("healthy packages", healthy)
	if broken > 0 {
		s.NonTrivial()
	}
	return nil
}

func parseErrors(dir string, files []File) scanner.ErrorList {
	var out scanner.ErrorList
	for _, f := range files {
		if l, ok := parseAll(filepath.Join(dir, f.Name), f.Src).(scanner.ErrorList); ok {
			out = append(out, l...)
		}
	}
	return out
}

func parseAll(name, src string) error {
	_, err := parser.ParseFile(token.NewFileSet(), name, []byte(src), parser.AllErrors|parser.ParseComments)
	return err
}

func cliKeyOf(dir string) func(*issue.Issue) string {
	return func(i *issue.Issue) string {
		c := cliIssue{RuleID: i.RuleID, File: i.File, Line: i.Line, Column: i.Col, Severity: i.Severity.String(), Confidence: i.Confidence.String(), Details: i.What, Code: i.Code}
		return c.key(dir)
	}
}

func init() {
	register("C15", "distinct sets of directories at least one of which holds a broken package", 260, 12000, genBrk, runBrk, needCLI, shrinkSeconds(60))
}
