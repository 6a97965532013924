package main

import (
	"fmt"
	"go/parser"
	"go/scanner"
	"go/token"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C01: nothing that can be parsed makes gosec crash or hang. A case is the text of a package and scan options.

type robustCase struct {
	Files []File
	Opts  ScanOpts
	Old   bool // a program for Go 1.21
}

type tok struct {
	text string
	pre  string // white space and comments before it
	kind token.Token
}

func tokenize(src string) ([]tok, string) {
	fs := token.NewFileSet()
	f := fs.AddFile("x.go", -1, len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	var out []tok
	last := 0
	for {
		pos, k, lit := sc.Scan()
		if k == token.EOF {
			break
		}
		off := f.Offset(pos)
		if k == token.SEMICOLON && lit == "\n" {
			continue
		}
		text := lit
		if text == "" || k.IsOperator() {
			text = k.String()
		}
		if off < last || off+len(text) > len(src) || src[off:off+len(text)] != text {
			// raw strings with carriage returns and the like: give up on precision
			continue
		}
		out = append(out, tok{text, src[last:off], k})
		last = off + len(text)
	}
	return out, src[last:]
}

func untokenize(ts []tok, tail string) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.pre)
		b.WriteString(t.text)
	}
	b.WriteString(tail)
	return b.String()
}

func closer(ts []tok, i int) int {
	d := 0
	for j := i; j < len(ts); j++ {
		switch ts[j].kind {
		case token.LPAREN, token.LBRACE, token.LBRACK:
			d++
		case token.RPAREN, token.RBRACE, token.RBRACK:
			d--
			if d == 0 {
				return j
			}
		}
	}
	return -1
}

// mutate changes one place of a program on the level of tokens.
func mutate(t *rapid.T, src string) string {
	ts, tl := tokenize(src)
	if len(ts) < 4 {
		return src
	}
	i := rapid.IntRange(3, len(ts)-1).Draw(t, "at")
	find := func(pred func(tok) bool) bool {
		for k := 0; k < len(ts); k++ {
			j := 3 + (i-3+k)%(len(ts)-3)
			if pred(ts[j]) {
				i = j
				return true
			}
		}
		return false
	}
	isIdent := func(x tok) bool { return x.kind == token.IDENT }
	isLit := func(x tok) bool { return x.kind.IsLiteral() && x.kind != token.IDENT }
	switch rapid.IntRange(0, 11).Draw(t, "mut") {
	case 0: // delete a token
		ts = append(ts[:i:i], ts[i+1:]...)
	case 1: // duplicate
		ts = append(ts[:i:i], append([]tok{ts[i], {ts[i].text, " ", ts[i].kind}}, ts[i+1:]...)...)
	case 2: // an identifier becomes another one
		if find(isIdent) {
			j := upTo(t, len(ts)-1, "other")
			for k := range ts {
				if isIdent(ts[(j+k)%len(ts)]) {
					ts[i].text = ts[(j+k)%len(ts)].text
					break
				}
			}
		}
	case 3: // a literal becomes something else
		if find(isLit) {
			ts[i].text = sampled(append(append([]string{}, wildLits...), "x", "undefinedX", "os.Args[0]", "f()", "(a + b)", "[]byte{1}", "func() {}")).Draw(t, "lit")
		}
	case 4: // empty a pair of brackets
		if find(func(x tok) bool { return x.kind == token.LPAREN || x.kind == token.LBRACE }) {
			if j := closer(ts, i); j > i {
				ts = append(ts[:i+1:i+1], ts[j:]...)
			}
		}
	case 5: // drop the last or first argument
		if find(func(x tok) bool { return x.kind == token.COMMA }) {
			d := 0
			for j := i + 1; j < len(ts); j++ {
				switch ts[j].kind {
				case token.LPAREN, token.LBRACE, token.LBRACK:
					d++
				case token.RPAREN, token.RBRACE, token.RBRACK:
					d--
				}
				if d < 0 || (d == 0 && ts[j].kind == token.COMMA) {
					ts = append(ts[:i:i], ts[j:]...)
					break
				}
			}
		}
	case 6: // swap two identifiers or literals
		if find(func(x tok) bool { return isIdent(x) || isLit(x) }) {
			j := upTo(t, len(ts)-1, "other")
			for k := range ts {
				q := (j + k) % len(ts)
				if isIdent(ts[q]) || isLit(ts[q]) {
					ts[i].text, ts[q].text = ts[q].text, ts[i].text
					break
				}
			}
		}
	case 7: // an identifier becomes an expression
		if find(isIdent) {
			ts[i].text = sampled([]string{"(*p)", "x.y.z", "a[0]", "f(1)", "func() error { return nil }()", "(T)(nil)", "os", "err", "_", "nil", "struct{}{}", "m[\"k\"]", "(a + b)", "[]byte(\"x\")", "<-c", "t.(T)"}).Draw(t, "ex")
		}
	case 8: // operators
		if find(func(x tok) bool { return x.kind.IsOperator() && x.kind.Precedence() > 0 }) {
			ts[i].text = sampled([]string{"+", "-", "==", "<", ">=", "&&", "<<", "!=", "*"}).Draw(t, "op")
		}
	case 9: // := and =
		if find(func(x tok) bool { return x.kind == token.DEFINE || x.kind == token.ASSIGN }) {
			if ts[i].text == ":=" {
				ts[i].text = "="
			} else {
				ts[i].text = ":="
			}
		}
	case 10: // copy a line elsewhere
		lines := strings.Split(src, "\n")
		a := upTo(t, len(lines)-1, "from")
		b := upTo(t, len(lines)-1, "to")
		lines = append(lines[:b:b], append([]string{lines[a]}, lines[b:]...)...)
		return strings.Join(lines, "\n")
	case 11: // delete a line
		lines := strings.Split(src, "\n")
		a := upTo(t, len(lines)-1, "line")
		lines = append(lines[:a:a], lines[a+1:]...)
		return strings.Join(lines, "\n")
	}
	return untokenize(ts, tl)
}

var topVarRe = regexp.MustCompile(`(?m)^(var|const) .*$`)

func genRobust(t *rapid.T) robustCase {
	var c robustCase
	switch rapid.IntRange(0, 11).Draw(t, "source") {
	case 0, 1, 2:
		c.Files = wildFiles(t)
	case 10, 11: // programs made for other properties
		c.Files = judgedProg(t)
		for n := rapid.IntRange(0, 4).Draw(t, "muts"); n > 0; n-- {
			k := upTo(t, len(c.Files)-1, "file")
			c.Files[k].Src = mutate(t, c.Files[k].Src)
		}
	case 3:
		c.Files = typedFiles(t)
		if rapid.IntRange(0, 2).Draw(t, "mutate") == 0 {
			c.Files[0].Src = mutate(t, c.Files[0].Src)
		}
	case 4, 5: // gadgets, mutated
		cc := genCallCase(t)
		fs, _ := cc.build()
		c.Files = fs
		for n := rapid.IntRange(1, 4).Draw(t, "muts"); n > 0; n-- {
			k := rapid.IntRange(2, len(c.Files)-1).Draw(t, "file")
			c.Files[k].Src = mutate(t, c.Files[k].Src)
		}
	default:
		p := sampled(corpus).Draw(t, "prog")
		c.Files = p.files()
		c.Opts.Config = p.Config
		for n := rapid.IntRange(0, 5).Draw(t, "muts"); n > 0; n-- {
			k := upTo(t, len(c.Files)-1, "file")
			c.Files[k].Src = mutate(t, c.Files[k].Src)
		}
		if rapid.IntRange(0, 2).Draw(t, "split") == 0 { // package-level variables and constants move to a file of their own
			if m := topVarRe.FindAllString(c.Files[0].Src, -1); len(m) > 0 {
				c.Files[0].Src = topVarRe.ReplaceAllString(c.Files[0].Src, "")
				if f, err := parser.ParseFile(token.NewFileSet(), "", c.Files[0].Src, parser.PackageClauseOnly); err == nil {
					c.Files = append(c.Files, File{"split.go", "package " + f.Name.Name + "\n\n" + strings.Join(m, "\n") + "\n"})
				}
			}
		}
	}
	c.Opts.Track = rapid.Bool().Draw(t, "track")
	c.Old = oneIn(t, 3, "old")
	if rapid.IntRange(0, 9).Draw(t, "audit") == 0 {
		c.Opts.Globals = map[string]string{"audit": "enabled"}
	}
	return c
}

func runRobust(c robustCase, s *Stats) error {
	defer goVersion(c.Old)()
	r, err := FastScan(c.Files, c.Opts)
	if err != nil {
		return err
	}
	switch {
	case len(r.TypeErr) == 0:
		s.Label("well typed")
	case strings.Contains(strings.Join(r.TypeErr, "\n"), "expected"):
		s.Label("syntax errors")
	default:
		s.Label("ill typed")
	}
	if len(r.Issues) > 0 {
		s.Label("with issues")
		s.NonTrivial()
	}
	for _, i := range r.Issues {
		s.Label("rule " + i.RuleID)
	}
	_ = fmt.Sprint
	return nil
}

func enumRobust(tier string) []robustCase {
	var out []robustCase
	sizes := []int{8, 40}
	if tier == "thorough" {
		sizes = []int{8, 25, 40, 80, 150}
	}
	for _, n := range sizes {
		st := stressFiles(n)
		for _, k := range sortedKeys(st) {
			out = append(out, robustCase{Files: st[k]})
		}
	}
	// every listed call with 0..3 arguments of every plain kind, in three positions
	args := []string{"x", "undef", "1", `"s"`, "nil", "f1()", "x.y", "x[0]", "gv", "s + undef", "c", "T1{}", "func() {}", `"a" + gv`, "cyc1", "@{path/filepath}.Join()", "@{fmt}.Sprintf()", "&T1{}", "[]byte(s)", "<-x"}
	for _, f := range listedCalls {
		i := strings.LastIndexByte(f, '.')
		fn := "@{" + f[:i] + "}" + f[i:]
		out = append(out, robustCall(fn, args))
	}
	for _, m := range listedMethods {
		for _, recv := range []string{"db", "tx", "undef", "x", "f1()", "conn", "aead", "os"} {
			out = append(out, robustCall(recv+"."+m, args))
		}
	}
	return out
}

func robustCall(fn string, args []string) robustCase {
	var b strings.Builder
	b.WriteString("func f0(x int, s string, db *@{database/sql}.DB, tx *@{database/sql}.Tx, conn *@{database/sql}.Conn, aead @{crypto/cipher}.AEAD, r *@{net/http}.Request) {\n")
	b.WriteString(fn + "()\nx = " + fn + "()\nx, y := " + fn + "()\nuse(" + fn + "())\n")
	b.WriteString("x, y = " + fn + "(), 1\nvar q, w = " + fn + "()\nvar e = " + fn + "(" + fn + "())\n")
	for _, a := range args {
		b.WriteString(fn + "(" + a + ")\nx, y = " + fn + "(" + a + ")\n")
		for _, a2 := range args {
			b.WriteString("z, e := " + fn + "(" + a + ", " + a2 + ")\n")
			b.WriteString(fn + "(\"c\", " + a + ", " + a2 + ")\n")
			b.WriteString(fn + "(" + a + ", s, " + a2 + ", s)\n")
		}
	}
	b.WriteString("}\n")
	src, _ := buildFile("p", "", []string{b.String(), "var cyc1 = cyc2", "var cyc2 = cyc1", "type T1 struct{}"}, nil, nil)
	return robustCase{Files: []File{{"a.go", src}, {"b.go", "package p\n\nvar gv = \"x\"\n\nconst c = 3\n\nvar gv2, gv3 = f1()\n\nfunc f1() (int, error) { return 0, nil }\n\nfunc use(a ...any) {}\n"}}}
}

func init() {
	register("C01", "a case is a package: grammar-generated wild Go, well-typed integer/slice/nonce programs, gadget programs and gosec's samples under up to 5 token-level mutations, with declarations moved to other files; every listed call with 0..4 arguments of 15 kinds is enumerated. Distinct non-trivial = distinct packages on which at least one rule reported something",
		60000, 1500000, genRobust, runRobust, enumerate(enumRobust), assume("the parser and type checker of the Go toolchain are those of go1.24"))
}
