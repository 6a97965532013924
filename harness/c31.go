package main

import (
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2/issue"
)

// C31: functions with nested range loops and addresses taken in them. The model knows which variable each name means.

type loopStmt struct {
	Kind int // 0 address, 1 loop, 2 copy, 3 closure, 4 if
	Var  int // which variable in scope
	Path int // the variable, a field, ...
	Use  int
	Form int // of a loop
	Elem int
	Same bool // reuse a name in scope
	Body []loopStmt
}

type loopCase struct {
	Funcs   [][]loopStmt
	Version int
	Files   int
	Tool    int // 0: in process; 1: the tool, version in go.mod; 2: the tool, another version in go.mod
}

var loopVersions = []struct {
	V  string
	On bool
}{{"1.21", true}, {"go1.21.13", true}, {"1.19beta2", true}, {"go1.9", true}, {"1.20rc1", true}, {"1.21.0", true}, {"1.22", false}, {"go1.22.1", false}, {"1.24.0", false}, {"go1.100", false}}

func genLoopBody(t *rapid.T, depth int) []loopStmt {
	var out []loopStmt
	for n := 1 + upTo(t, 3, "statements"); n > 0; n-- {
		s := loopStmt{Kind: upTo(t, 9, "kind"), Var: upTo(t, 7, "var"), Path: upTo(t, 7, "path"), Use: upTo(t, 15, "use"), Form: upTo(t, 9, "form"), Elem: upTo(t, 3, "elem"), Same: oneIn(t, 3, "same")}
		if s.Kind > 5 {
			s.Kind = 0
		}
		if s.Kind == 5 {
			s.Kind = 1
		}
		if s.Kind != 0 && s.Kind != 2 {
			if depth > 2 {
				s.Kind = 0
			} else {
				s.Body = genLoopBody(t, depth+1)
			}
		}
		out = append(out, s)
	}
	return out
}

func genLoops(t *rapid.T) loopCase {
	c := loopCase{Files: 1 + upTo(t, 1, "files"), Version: upTo(t, len(loopVersions)-1, "version")}
	if !oneIn(t, 3, "any version") {
		c.Version %= 6
	}
	if oneIn(t, 400, "tool") {
		c.Tool = 1 + upTo(t, 1, "go.mod")
		c.Version = sampled([]int{0, 1, 3, 5, 6, 7, 8}).Draw(t, "version")
	}
	for n := 1 + upTo(t, 2, "functions"); n > 0; n-- {
		body := genLoopBody(t, 0)
		body = append(body, loopStmt{Kind: 1, Form: upTo(t, 9, "form"), Elem: upTo(t, 3, "elem"), Body: genLoopBody(t, 1)})
		if oneIn(t, 2, "after") {
			body = append(body, loopStmt{Kind: 0, Var: upTo(t, 7, "var"), Path: upTo(t, 7, "path"), Use: upTo(t, 15, "use")})
		}
		c.Funcs = append(c.Funcs, body)
	}
	return c
}

type loopVar struct {
	Name  string
	Elem  int // 0 struct, 1 pointer to a struct, 2 int, 3 string
	Range bool
}

type loopBuild struct {
	n     int
	out   strings.Builder
	scope []loopVar
	on    bool
}

var loopElems = []string{"item", "*item", "int", "string"}

func (b *loopBuild) lookup(i int) loopVar {
	// the names in scope, the innermost of each
	seen := map[string]bool{}
	var vs []loopVar
	for k := len(b.scope) - 1; k >= 0; k-- {
		if v := b.scope[k]; !seen[v.Name] {
			seen[v.Name] = true
			vs = append(vs, v)
		}
	}
	return vs[i%len(vs)]
}

func (b *loopBuild) name(s loopStmt) string {
	if s.Same {
		return b.lookup(s.Var).Name
	}
	b.n++
	return fmt.Sprintf("v%d", b.n)
}

func (b *loopBuild) stmts(ss []loopStmt, parameter string) {
	depth := len(b.scope)
	w := func(f string, a ...any) { fmt.Fprintf(&b.out, f+"\n", a...) }
	declared := map[string]bool{parameter: true}
	for _, s := range ss {
		switch s.Kind {
		case 0:
			v := b.lookup(s.Var)
			e, mark := "&"+v.Name, ""
			hit := v.Range
			typ := "*" + loopElems[v.Elem]
			switch {
			case v.Elem < 2 && s.Path == 1:
				e, typ, hit = "&"+v.Name+".f", "*int", v.Range && v.Elem == 0
			case v.Elem < 2 && s.Path == 2:
				e, typ, hit = "&"+v.Name+".in.f", "*int", v.Range && v.Elem == 0
			case s.Path == 3:
				e = "&(" + v.Name + ")"
			case s.Path == 4: // an element
				e, typ, hit = "&items[n]", "*item", false
			case v.Elem == 0 && s.Path == 5:
				e, typ, hit = "&item{f: "+v.Name+".f}", "*item", false
			case v.Elem == 0 && s.Path == 6:
				e, typ = "&("+v.Name+".in).f", "*int"
			}
			if hit && b.on {
				mark = markBad
			}
			switch s.Use {
			case 0:
				b.n++
				w("p%d := %s%s\nuse(p%[1]d)", b.n, mark, e)
			case 1:
				b.n++
				w("var p%d %s = %s%s\nuse(p%[1]d)", b.n, typ, mark, e)
			case 2:
				w("all = append(all, %s%s)", mark, e)
			case 3:
				w("use([]any{1, %s%s})", mark, e)
			case 4:
				w("use(struct{ p any }{\np: %s%s,\n})", mark, e)
			case 5:
				w("ch <- %s%s", mark, e)
			case 6:
				w("if any(%s%s) == nil {\nuse(1)\n}", mark, strings.Replace(e, "&item{f: ", "&items[", 1))
				if strings.HasPrefix(e, "&item{") {
					b.fix("&items["+v.Name+".f}", "&items["+v.Name+".f]")
				}
			case 7: // the only value which is returned
				w("if n > 3 {\nreturn %s\n}", e)
			case 8:
				w("use(func() any {\nreturn %s\n})", e)
			case 13: // all the values which are returned
				w("use(func() (any, any, any) {\nreturn %s, &%s, %s\n}())", e, b.lookup(s.Var+1).Name, e)
			case 14: // directly in front of the closing brace
				m := ""
				if b.on {
					m = markBad
				}
				b.n++
				w("for _, z%d := range items {use(z%[1]d); _ = %s&z%[1]d}", b.n, m)
			case 9: // inside of what is returned
				w("if n > 4 {\nreturn wrap(%s%s)\n}", mark, e)
			case 10:
				w("if n > 4 {\nreturn []any{%s%s}\n}", mark, e)
			case 11:
				w("defer use(%s%s)", mark, e)
			case 12:
				w("go use(%s%s)", mark, e)
			default:
				w("use(%s%s)", mark, e)
			}
		case 1:
			name := b.name(s)
			coll := []string{"items", "ptrs", "ints", "strs"}[s.Elem]
			v := loopVar{name, s.Elem, true}
			key := "_"
			switch s.Form {
			case 1:
				b.n++
				key = fmt.Sprintf("k%d", b.n)
			case 2:
				coll += "Map"
			case 3:
				coll += "Map"
				b.n++
				key = fmt.Sprintf("k%d", b.n)
			case 4:
				coll += "[1:]"
			case 5:
				coll += "Func()"
			case 6:
				coll = "&" + coll + "Arr"
			}
			if s.Form == 7 { // not a range loop
				w("for i, %s := 0, %s[0]; i < n; i++ {", name, coll)
				v.Range = false
			} else {
				w("for %s, %s := range %s {", key, name, coll)
			}
			w("use(%s)", name)
			if key != "_" {
				w("use(%s)", key)
				switch s.Form {
				case 1:
					w("use(&%s)", key)
				}
			}
			b.scope = append(b.scope, v)
			b.stmts(s.Body, "")
			b.scope = b.scope[:len(b.scope)-1]
			w("}")
		case 2: // a copy
			v := b.lookup(s.Var)
			name := v.Name
			if !s.Same || declared[name] {
				b.n++
				name = fmt.Sprintf("v%d", b.n)
			}
			declared[name] = true
			if s.Use%2 == 0 {
				w("%s := %s\nuse(%[1]s)", name, v.Name)
			} else {
				w("var %s = %s\nuse(%[1]s)", name, v.Name)
			}
			b.scope = append(b.scope, loopVar{name, v.Elem, false})
		case 3: // a closure, with a parameter
			name := b.name(s)
			w("use(func(%s %s) any {", name, loopElems[s.Elem])
			b.scope = append(b.scope, loopVar{name, s.Elem, false})
			b.stmts(s.Body, name)
			b.scope = b.scope[:len(b.scope)-1]
			w("return nil\n})")
		default:
			w("if n > 1 {")
			b.stmts(s.Body, "")
			w("}")
		}
	}
	b.scope = b.scope[:depth]
}

func (b *loopBuild) fix(from, to string) {
	s := strings.Replace(b.out.String(), from, to, 1)
	b.out.Reset()
	b.out.WriteString(s)
}

func (c loopCase) build() marked {
	srcs := make([]string, c.Files)
	for i, f := range c.Funcs {
		b := &loopBuild{on: loopVersions[c.Version].On, scope: []loopVar{{"base", 0, false}}}
		fmt.Fprintf(&b.out, "func unit%d(n int, base item) any {\nuse(base)\n", i)
		b.stmts(f, "base")
		b.out.WriteString("return nil\n}\n\n")
		srcs[i%c.Files] += b.out.String()
	}
	var out []File
	for f, s := range srcs {
		if f == 0 {
			s += "type inner struct{ f int }\n\ntype item struct {\n\tf  int\n\tin inner\n}\n\nvar (\n\tall []any\n\tch  chan any\n)\n\nfunc wrap(a any) any { return a }\n\nfunc use(a ...any) {}\n\nfunc main() {}\n\n"
			for k, e := range loopElems {
				n := []string{"items", "ptrs", "ints", "strs"}[k]
				s += fmt.Sprintf("var (\n\t%[1]s []%[2]s\n\t%[1]sMap map[string]%[2]s\n\t%[1]sArr [3]%[2]s\n)\n\nfunc %[1]sFunc() []%[2]s { return %[1]s }\n\n", n, e)
			}
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package main\n\n" + s})
	}
	return unmark(out)
}

func runLoops(c loopCase, s *Stats) error {
	m := c.build()
	if c.Tool > 0 {
		return runLoopsTool(c, m, s)
	}
	old := os.Getenv("GOSECGOVERSION")
	os.Setenv("GOSECGOVERSION", loopVersions[c.Version].V)
	defer os.Setenv("GOSECGOVERSION", old)
	res, err := MustScan(m.files, ScanOpts{Include: []string{"G601"}, NoAnalyze: true})
	if err != nil {
		return err
	}
	s.LabelN("addresses to report", len(m.want))
	s.Label("version " + loopVersions[c.Version].V)
	if len(m.want) > 0 {
		s.NonTrivial()
	}
	return m.compare("G601", res.Issues)
}

// runLoopsTool lets the tool find the version.
func runLoopsTool(c loopCase, m marked, s *Stats) error {
	dir, err := writeModule(inDir("p", m.files))
	if err != nil {
		return err
	}
	mod, env := strings.TrimPrefix(loopVersions[c.Version].V, "go"), []string{"unset:GOSECGOVERSION"}
	if c.Tool == 2 {
		env = []string{"GOSECGOVERSION=" + loopVersions[c.Version].V}
		mod = "1.21"
		if loopVersions[c.Version].On {
			mod = "1.23"
		}
	}
	if err := os.WriteFile(dir+"/go.mod", []byte("module example.com/m\n\ngo "+mod+"\n"), 0o644); err != nil {
		return harnessf("%v", err)
	}
	args := []string{"-fmt=json", "-include=G601", "./..."}
	r, err := runCLI(dir, env, args...)
	if err != nil {
		return err
	}
	rep, err := r.mustReport(args)
	if err != nil {
		return err
	}
	if len(rep.Errors) > 0 {
		return harnessf("go.mod with go %s: %v", mod, rep.Errors)
	}
	var is []*issue.Issue
	for _, i := range rep.Issues {
		is = append(is, &issue.Issue{RuleID: i.RuleID, File: i.File, Line: i.Line, Col: i.Column})
	}
	s.Label(fmt.Sprintf("tool with go %s in go.mod", mod))
	if len(m.want) > 0 {
		s.NonTrivial()
	}
	return m.compare("G601", is)
}

func init() {
	register("C31", "distinct programs with addresses of loop variables to be reported", 30000, 1000000, genLoops, runLoops, needCLI)
}
