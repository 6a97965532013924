package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// C39: a package is written twice, once with files which import "C" and once with Go declarations in the place of the
// few things they use of it. The analyzers of the SSA form have to report the same.

type cgoCase struct {
	Files []File // with C_int and C_twice in them
	Cgo   []bool // which of the files import "C"
	Flags []string
	Gen   bool
}

// cgoPlain and cgoReal are of the same length.
var cgoPlain, cgoReal = []string{"C_int", "C_twice"}, []string{"C.int", "C.twice"}

func cgoSwap(s string, from, to []string) string {
	for i := range from {
		s = strings.ReplaceAll(s, from[i], to[i])
	}
	return s
}

var cgoTails = []string{
	`func cgoTail%[1]d(n int, m uint64) C_int {
	x := []int{1, 2}
	_ = x[4]
	if n > 7 {
		return C_twice(C_int(n))
	}
	a, b := C_int(m), int32(n)
	_, _ = a, b
	return C_int(int16(m)) + C_int(x[1:][0])
}
`,
	`func cgoTail%[1]d(v []byte, k int64) int16 {
	var c C_int = C_twice(3)
	s := make([]int, 2, 4)
	_, _ = s[:9], s[3]
	for i := range v {
		c += C_int(i) // a remark
	}
	return int16(c) +
		int16(k)
}
`,
	`type cgoT%[1]d struct{ c C_int }

func (t cgoT%[1]d) cgoTail(n uint32) (r int8) {
	defer func() { r = int8(n) }()
	t.c = C_twice(C_int(n)); _ = uint8(t.c); _ = uint16(n)
	return int8(C_twice(t.c))
}
`,
}

// cgoFits tells where a file may import "C": the name of the package must be at the end of its line.
func cgoFits(f File) int {
	if strings.HasSuffix(f.Name, "_test.go") {
		return -1
	}
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "x.go", f.Src, parser.ParseComments)
	if err != nil {
		return -1
	}
	at := fs.Position(af.Name.End()).Offset
	if rest := f.Src[at:]; !strings.HasPrefix(rest, "\n") {
		return -1
	}
	used := false
	ast.Inspect(af, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		used = used || ok && id.Name == "C"
		return true
	})
	if used {
		return -1
	}
	return at
}

func genCgo(t *rapid.T) cgoCase {
	var c cgoCase
	for {
		c.Files = genProg(t, true)
		if oneIn(t, 2, "more") {
			c.Files = append(c.Files, File{"zzb.go", "package " + pkgNameOf(c.Files[0].Src) + "\n\nfunc zzb(n int) uint8 {\n\treturn uint8(n)\n}\n"})
		}
		any := false
		c.Cgo = nil
		for _, f := range c.Files {
			ok := cgoFits(f) >= 0 && !oneIn(t, 4, "plain")
			c.Cgo = append(c.Cgo, ok)
			any = any || ok
		}
		if any {
			break
		}
	}
	c.Gen = oneIn(t, 3, "generated")
	for i, f := range c.Files {
		if c.Cgo[i] {
			c.Files[i].Src = strings.TrimRight(f.Src, "\n") + "\n\n" + fmt.Sprintf(sampled(cgoTails).Draw(t, "tail"), i)
		}
		if c.Gen && oneIn(t, 2, "header") {
			c.Files[i].Src = sampled([]string{"// Code generated by a tool. DO NOT EDIT.\n\n", "// Code generated by a tool. DO NOT EDIT.\n", "// Code generated by a tool.\n\n"}).Draw(t, "text") + c.Files[i].Src
		}
	}
	if !oneIn(t, 4, "bare") {
		c.Files = sprinkleTag(t, c.Files, "#nosec", []string{"G115", "G602", "G407"}, true)
	}
	for i, f := range c.Files {
		if c.Cgo[i] && cgoFits(f) < 0 {
			c.Cgo[i] = false // a comment is behind the name of the package; the declarations in Go will do
		}
	}
	c.Flags = []string{"-include=G115,G602,G407"}
	for _, f := range []string{"-track-suppressions", "-show-ignored", "-nosec", "-severity=high", "-confidence=high"} {
		if oneIn(t, 4, f) {
			c.Flags = append(c.Flags, f)
		}
	}
	if c.Gen {
		c.Flags = append(c.Flags, "-exclude-generated")
	}
	return c
}

func (c cgoCase) variant(real bool) []File {
	var out []File
	pkg := pkgNameOf(c.Files[0].Src)
	for i, f := range c.Files {
		if c.Cgo[i] {
			at, imp := cgoFits(f), "//"
			if real {
				imp = "import \"C\""
				f.Src = f.Src[:at] + cgoSwap(f.Src[at:], cgoPlain, cgoReal)
			}
			f.Src = f.Src[:at] + "\n\n// static int twice(int x) { return 2 * x; }\n" + imp + "\n" + f.Src[at:]
		}
		out = append(out, f)
	}
	needed := false
	for _, f := range out {
		needed = needed || strings.Contains(f.Src, "C_int")
	}
	extra := "package " + pkg + "\n"
	if needed {
		extra += "\ntype C_int int32\n\nfunc C_twice(x C_int) C_int { return 2 * x }\n"
	}
	return append(out, File{"zzc.go", extra})
}

func runCgo(c cgoCase, s *Stats) error {
	var keys [2][]string
	args := append(append([]string{"-fmt=json"}, c.Flags...), "./...")
	cgoLines, marked := 0, 0
	for k, real := range []bool{false, true} {
		dir, err := writeModule(c.variant(real))
		if err != nil {
			return err
		}
		r, err := runCLI(dir, []string{"CGO_ENABLED=1"}, args...)
		if err != nil {
			return err
		}
		rep, err := r.mustReport(args)
		if err != nil {
			return err
		}
		if len(rep.Errors) > 0 {
			if real {
				return violf("%v\n%s", rep.Errors, c.variant(true)[0].Src)
			}
			return nil
		}
		rep.Issues = slices.DeleteFunc(rep.Issues, func(i cliIssue) bool {
			// with -track-suppressions the other rules report as well
			return i.RuleID != "G115" && i.RuleID != "G602" && i.RuleID != "G407"
		})
		for i := range rep.Issues {
			is := &rep.Issues[i]
			name := strings.TrimPrefix(is.File, dir+string(filepath.Separator))
			is.Code = strings.ReplaceAll(cgoSwap(is.Code, cgoReal, cgoPlain), "import \"C\"", "//")
			for j, f := range c.Files {
				if f.Name == name && c.Cgo[j] {
					cgoLines++
					if is.sup() != "" {
						marked++
					}
				}
			}
		}
		keys[k] = cliMultiset(rep.Issues, func(i *cliIssue) string { return i.full(dir) })
		if real {
			if a, b := strings.Join(keys[0], "\n"), strings.Join(keys[1], "\n"); a != b {
				return violf("gosec %s reports other findings of the SSA analyzers for files which import \"C\" than for the same code in Go\nwithout cgo:\n%s\nwith cgo:\n%s", strings.Join(args, " "), a, b)
			}
		}
	}
	if cgoLines > 0 {
		s.NonTrivial()
		s.Label("findings in files which import C")
	}
	if marked > 0 {
		s.Label("suppressed findings in files which import C")
	}
	return nil
}

func init() {
	register("C39", "distinct reports with findings in files which import \"C\"", 60, 3000, genCgo, runCgo, needCLI)
}
