package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C29: rules which judge the value of a constant argument. Each unit passes one value, written in some way, to one sink.

type constUnit struct {
	Sink  int
	Value int
	Num   int
	Kind  int // partConst, partFixed, partVar, partGlobal
	Note  int // notation
	Note2 int
	Ctx   int
	File  int
	Wrap  int
	Tail  int
}

type constCase struct {
	Units []constUnit
	Alias bool
}

type constSink struct {
	Rule    string
	Call    string // X stands for the argument
	Results int
}

var constSinks = []constSink{
	{"G102", `net.Listen("tcp", X)`, 2}, {"G102", `net.Listen(network, X)`, 2}, {"G102", `tls.Listen("tcp", X, nil)`, 2}, {"G102", `net.Listen(split(X))`, 2},
	{"G403", `rsa.GenerateKey(rand.Reader, X)`, 2}, {"G403", `rsa.GenerateKey(nil, X)`, 2},
	{"G303", `os.Create(X)`, 2}, {"G303", `os.WriteFile(X, nil, 0o600)`, 1}, {"G303", `ioutil.WriteFile(X, bytes(), 0o600)`, 1}, {"G303", `os.Create(filepath.Join(X, network))`, 2}, {"G303", `os.WriteFile(path.Join(X, "a"), nil, 0o600)`, 1},
	{"G303", `os.Create(X + "/" + network)`, 2}, {"G303", `os.Create((X + "/") + lookup("a") + "/b")`, 2},
	{"G203", `template.CSS(X)`, 1}, {"G203", `template.HTML(X)`, 1}, {"G203", `template.HTMLAttr(X)`, 1}, {"G203", `template.JS(X)`, 1}, {"G203", `template.JSStr(X)`, 1}, {"G203", `template.Srcset(X)`, 1}, {"G203", `template.URL(X)`, 1},
	{"G111", `http.Dir(X)`, 1}, {"G111", `http.FileServer(http.Dir(X))`, 1},
}

var constBad = map[string][]string{
	"G102": {"0.0.0.0:80", ":80", ":", "0.0.0.0", ":http", "0.0.0.0:", ":0"},
	"G303": {"/tmp", "/tmp/a", "/var/tmp", "/usr/tmp/x", "/tmp/", "/tmp/a/b.txt", "/var/tmp/x y"},
	"G111": {"/"},
}

var constGood = map[string][]string{
	"G102": {"127.0.0.1:80", "localhost:0", "10.0.0.0:80", "010.0.0.1:80", "[::1]:80", " :80", "", "x:0.0.0.0", "192.0.0.0.0:1", "0-0-0-0:1", "0.0.0", "host:80"},
	"G303": {"/tmpx", "tmp/a", "/home/tmp/x", "/var/lib/tmp", "a/tmp/b", "/tmp2/x", "/usr/local/tmp", "./tmp", " /tmp", "/opt", "x", "/Tmp/a"},
	"G111": {"/var", ".", "", "//", "./", "/a/", "\"/\"", " /", "a", "/ "},
	"G203": {"", "<b>x</b>", "alert(1)", "a'b\"c", "/x?y=z", "{{.}}", "é"},
}

func genConstArgs(t *rapid.T) constCase {
	c := constCase{Alias: oneIn(t, 4, "alias")}
	n := 1 + upTo(t, 4, "units")
	for i := 0; i < n; i++ {
		u := constUnit{Sink: upTo(t, len(constSinks)-1, "sink"), Value: upTo(t, 23, "value"), Note: upTo(t, 29, "note"), Note2: upTo(t, 13, "note2"), Ctx: upTo(t, 9, "ctx"), File: upTo(t, 1, "file"), Wrap: upTo(t, 5, "wrap"), Tail: upTo(t, 9, "tail")}
		u.Num = sampled([]int{1, 512, 1024, 2046, 2047, 2048, 2049, 3072, 4096, 8192, 1000000}).Draw(t, "num")
		if oneIn(t, 3, "any number") {
			u.Num = 1 + upTo(t, 5000, "n")
		}
		u.Kind = sampled([]int{partConst, partConst, partConst, partConst, partFixed, partVar, partGlobal}).Draw(t, "kind")
		c.Units = append(c.Units, u)
	}
	return c
}

// number writes a constant integer.
func (b *injBuild) number(u constUnit) string {
	n := u.Num
	lit := func(k int) string {
		switch k % 6 {
		case 0:
			return fmt.Sprintf("%d", n)
		case 1:
			return fmt.Sprintf("0x%X", n)
		case 2:
			return fmt.Sprintf("0o%o", n)
		case 3:
			return fmt.Sprintf("0b%b", n)
		case 4:
			return fmt.Sprintf("0%o", n)
		default:
			if n > 999 {
				return fmt.Sprintf("%d_%03d", n/1000, n%1000)
			}
			return fmt.Sprintf("%d", n)
		}
	}
	l := lit(u.Note2)
	g := func(file int, format string) string {
		name := b.global("size")
		b.decls[file] += fmt.Sprintf(format, name, l) + "\n\n"
		return name
	}
	switch u.Note % 16 {
	case 0, 1:
		return l
	case 2:
		name := b.id("c")
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s", name, l))
		return name
	case 3:
		return g(b.file, "const %s = %s")
	case 4:
		return g(1-b.file, "const %s = %s")
	case 5:
		return g(b.file, "const %s int = %s")
	case 6:
		return "(" + l + ")"
	case 7:
		return fmt.Sprintf("%d + %d", n/2, n-n/2)
	case 8:
		return fmt.Sprintf("%d.0", n)
	case 9:
		return "int(" + g(b.file, "const %s size = %s") + ")"
	case 10:
		return fmt.Sprintf("%d * 8 + %d", n/8, n%8)
	case 11:
		return fmt.Sprintf("1<<11 - %d", 2048-n)
	case 12:
		name := b.global("hide")
		b.decls[b.file] += fmt.Sprintf("var %s = lookupInt()\n\n", name)
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s", name, l))
		return name
	case 13: // from iota
		name := b.global("io")
		b.decls[b.file] += fmt.Sprintf("const (\n\ta%[1]s = (iota + %[2]d) * 1\n\t%[1]s\n\tb%[1]s\n)\n\n", name, n-1)
		return name
	case 14:
		if n < 200 {
			return fmt.Sprintf("len(%q)", strings.Repeat("x", n))
		}
		return fmt.Sprintf("len([%s]int{})", l)
	default:
		return fmt.Sprintf("%d - 1", n+1)
	}
}

func (c constCase) build(rule string) marked {
	var src [2]string
	for i, u := range c.Units {
		b := &injBuild{unit: i, file: u.File}
		s := constSinks[u.Sink%len(constSinks)]
		p := injPart{Src: u.Note, Text: u.Note2}
		kind := u.Kind
		bad := false
		var e, mark string
		switch {
		case s.Rule == "G403":
			bad = u.Num < 2048
			switch kind {
			case partConst:
				e = b.number(u)
			default:
				e = []string{"lookupInt()", "n", "int(other)"}[u.Note2%3]
				bad = false
			}
		case kind == partVar:
			if u.Wrap == 4 {
				e = injOutside[u.Note2%len(injOutside)]
			} else {
				e = b.variable(p)
			}
			bad = s.Rule == "G203"
		case kind == partGlobal && s.Rule != "G102":
			e = b.globalVar(p)
			bad = s.Rule == "G203"
		default:
			vs := append(append([]string{}, constBad[s.Rule]...), constGood[s.Rule]...)
			if len(constBad[s.Rule]) > 0 && u.Tail < 5 {
				vs = constBad[s.Rule]
			}
			v := vs[u.Value%len(vs)]
			for _, x := range constBad[s.Rule] {
				bad = bad || x == v
			}
			switch {
			case kind == partGlobal: // only G102
				e = b.global("addr")
				b.decls[b.file] += fmt.Sprintf([]string{"var %s = %q\n\n", "var %s string = %q\n\n", "var (\n\tbefore%[1]s, %[1]s = \":80\", %[2]q\n)\n\n", "var %[1]s, after%[1]s = %[2]q, \"0.0.0.0:1\"\n\n"}[u.Note2%4], e, v)
			case kind == partFixed:
				e = b.fixed(p, v)
				switch {
				case s.Rule == "G203":
					bad = true
				case s.Rule != "G102" || p.Src%7 == 6:
					mark = markAny
				}
			default:
				e = b.constant(p, v)
				if u.Note%14 == 0 && v != "" { // escaped
					e = fmt.Sprintf("\"\\x%02x%s", v[0], fmt.Sprintf("%q", v[1:])[1:])
				}
			}
		}
		if u.Wrap == 5 {
			e = "((" + e + "))"
		}
		if strings.Contains(s.Call, "X + ") && strings.Contains(e, "+") {
			e = "(" + e + ")"
			if mark == "" && kind != partConst {
				mark = markAny
			}
		}
		if bad && mark == "" {
			mark = markBad
		}
		if s.Rule != rule {
			mark = ""
		}
		call := strings.Replace(s.Call, "X", e, 1)
		lhs, two := "r, err", "(any, error)"
		if s.Results == 1 {
			lhs, two = "r", "any"
		}
		var stmt string
		switch u.Ctx {
		case 0:
			stmt = lhs + " := " + mark + call + "\nuse(" + lhs + ")"
		case 1:
			stmt = "var " + lhs + " = " + mark + call + "\nuse(" + lhs + ")"
		case 2:
			stmt = "use(func() " + two + " {\nreturn " + mark + call + "\n})"
		case 3:
			stmt = "defer use(" + mark + call + ")"
		case 4:
			stmt = "if " + lhs + " := " + mark + call + "; n > 3 {\nuse(" + lhs + ")\n}"
		case 5:
			stmt = "for i := 0; i < n; i++ {\nswitch {\ncase i > 3:\nuse(" + mark + call + ")\n}\n}"
		case 6:
			stmt = "go func() {\n" + mark + "use(" + call + ")\n}()"
		default:
			stmt = mark + "use(" + call + ")"
		}
		head := fmt.Sprintf("func unit%d(n int, other int64, network string) {\n", i)
		if u.Tail == 2 {
			head = fmt.Sprintf("func (own) unit%d(n int, other int64, network string) {\n", i)
		}
		src[u.File] += head + strings.Join(append(b.pre, ""), "\n") + b.wrapA + stmt + "\n" + b.wrapB + "}\n\n"
		for f := range src {
			src[f] += b.decls[f]
		}
		if u.Tail == 3 { // the same names elsewhere
			src[u.File] += fmt.Sprintf("func decoy%d(c1, k1, v1, n1 string) {\nconst c2, k2 = \":80\", \"/tmp/x\"\nv2 := \"/\"\nuse(c1, c2, k1, k2, v1, v2, n1)\n}\n\n", i)
		}
	}
	var out []File
	imports := []string{"crypto/rand", "crypto/rsa", "crypto/tls", "fmt", "html/template", "io/ioutil", "net", "net/http", "os", "path", "path/filepath", "strings"}
	uses := "var (\n\t_ = rand.Reader\n\t_ rsa.PublicKey\n\t_ tls.Config\n\t_ = fmt.Sprint\n\t_ template.Template\n\t_ = ioutil.Discard\n\t_ net.IP\n\t_ = http.MethodGet\n\t_ = os.Args\n\t_ = path.Base\n\t_ = filepath.Base\n\t_ strings.Builder\n)\n\n"
	for f := 0; f < 2; f++ {
		s := "import (\n\t\"" + strings.Join(imports, "\"\n\t\"") + "\"\n)\n\n" + uses + src[f]
		if c.Alias && f == 1 {
			for _, p := range []string{"crypto/rand", "crypto/rsa", "crypto/tls", "html/template", "io/ioutil", "net", "net/http", "os", "path/filepath"} {
				n := p[strings.LastIndex(p, "/")+1:]
				s = strings.Replace(s, "\t\""+p+"\"\n", "\tx"+n+" \""+p+"\"\n", 1)
				s = replaceQualifier(s, n, "x"+n)
			}
		}
		if f == 0 {
			s += "type text string\n\ntype size int\n\ntype own struct{}\n\nfunc (own) Name() string { return \"\" }\n\nvar thing own\n\nfunc lookup(s string) string { return s }\n\nfunc lookup2(s string) (string, error) { return s, nil }\n\nfunc lookupInt() int { return len(os.Args) }\n\nfunc data() []byte { return nil }\n\nfunc bytes() []byte { return nil }\n\nfunc split(s string) (string, string) { return \"tcp\", s }\n\nfunc use(a ...any) {}\n\nfunc main() {}\n"
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package main\n\n" + s})
	}
	return unmark(out)
}

func runConstArgs(c constCase, s *Stats) error {
	var res *Result
	bad := 0
	rules := []string{"G102", "G111", "G203", "G303", "G403"}
	for _, r := range rules {
		m := c.build(r)
		if res == nil {
			var err error
			if res, err = MustScan(m.files, ScanOpts{Include: rules, NoAnalyze: true}); err != nil {
				return err
			}
		}
		bad += len(m.want)
		s.LabelN(r+" findings", len(m.want))
		if err := m.compare(r, res.Issues); err != nil {
			return err
		}
	}
	if bad > 0 && bad < len(c.Units) {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C29", "distinct programs with constant arguments which are to be reported and with others", 30000, 1000000, genConstArgs, runConstArgs)
}
