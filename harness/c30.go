package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C30: rules which follow a variable from where it gets its value to where it is used (G109, G110, G305), and server
// literals (G112). Each unit declares a source in some way and uses it, or something else beside it, in a sink.

type flowUnit struct {
	Rule  int
	Src   int
	Decl  int
	Sink  int
	Use   int // what is given to the sink: 0 the variable, others
	Ctx   int
	Dist  int
	File  int
	Wrap  bool
	Decoy int
}

type flowCase struct {
	Units []flowUnit
	Alias bool
}

func genFlow(t *rapid.T) flowCase {
	c := flowCase{Alias: oneIn(t, 4, "alias")}
	n := 1 + upTo(t, 4, "units")
	for i := 0; i < n; i++ {
		c.Units = append(c.Units, flowUnit{Rule: upTo(t, 3, "rule"), Src: upTo(t, 19, "src"), Decl: upTo(t, 11, "decl"), Sink: upTo(t, 11, "sink"), Use: upTo(t, 5, "use"), Ctx: upTo(t, 11, "ctx"),
			Dist: upTo(t, 6, "dist"), File: upTo(t, 1, "file"), Wrap: oneIn(t, 6, "wrap"), Decoy: upTo(t, 8, "decoy")})
	}
	return c
}

type flowSource struct {
	Expr    string
	Results int
	Type    string
	Bad     bool
}

var flowReaders = []flowSource{
	{"gzip.NewReader(in)", 2, "*gzip.Reader", true}, {"zlib.NewReader(in)", 2, "io.ReadCloser", true}, {"zlib.NewReaderDict(in, nil)", 2, "io.ReadCloser", true}, {"bzip2.NewReader(in)", 1, "io.Reader", true},
	{"flate.NewReader(in)", 1, "io.ReadCloser", true}, {"flate.NewReaderDict(in, nil)", 1, "io.ReadCloser", true}, {"lzw.NewReader(in, 0, 8)", 1, "io.ReadCloser", true}, {"tar.NewReader(in)", 1, "*tar.Reader", true}, {"zf.Open()", 2, "io.ReadCloser", true},
	{"bufio.NewReader(in)", 1, "io.Reader", false}, {"strings.NewReader(\"x\")", 1, "io.Reader", false}, {"os.Open(\"x\")", 2, "*os.File", false}, {"io.LimitReader(in, 10)", 1, "io.Reader", false}, {"own{}.NewReader(in)", 1, "io.Reader", false},
	{"own{}.Open()", 2, "io.ReadCloser", false}, {"NewReader(in)", 1, "io.Reader", false}, {"io.MultiReader(in, in)", 1, "io.Reader", false},
}

var flowInts = []flowSource{
	{"strconv.Atoi(s)", 2, "int", true}, {"strconv.Atoi(\"12\")", 2, "int", true}, {"strconv.Atoi(own{}.Name())", 2, "int", true},
	{"strconv.ParseInt(s, 10, 64)", 2, "int64", false}, {"own{}.Atoi(s)", 2, "int", false}, {"Atoi(s)", 2, "int", false}, {"len(s)", 1, "int", false}, {"strconv.ParseUint(s, 10, 8)", 2, "uint64", false},
}

var flowNames = []flowSource{
	{"zf.Name", 1, "string", true}, {"hdr.Name", 1, "string", true}, {"hdr.Linkname", 1, "string", true}, {"zf.Comment", 1, "string", true}, {"zr.File[0].Name", 1, "string", true},
	{"own{}.Label", 1, "string", false}, {"st.Name", 1, "string", false}, {"os.Args[1]", 1, "string", false}, {"s", 1, "string", false}, {"filepath.Base(zf.Name)", 1, "string", false}, {"\"name\"", 1, "string", false},
}

func (c flowCase) build(rule string) marked {
	var src [2]string
	for i, u := range c.Units {
		b := &injBuild{unit: i, file: u.File}
		sink := []string{"G109", "G110", "G305", "G112"}[u.Rule]
		var call, mark string
		results := 1
		if sink == "G112" {
			call, mark = b.server(u)
		} else {
			list := map[string][]flowSource{"G109": flowInts, "G110": flowReaders, "G305": flowNames}[sink]
			s := list[u.Src%len(list)]
			v := b.id("v")
			good := map[string]string{"int": "7", "int64": "int64(7)", "uint64": "uint64(7)", "string": "\"plain\""}[s.Type]
			if good == "" {
				good = "io.Reader(in)"
			}
			add := func(format string, a ...any) { b.pre = append(b.pre, fmt.Sprintf(format, a...)) }
			bad, any := s.Bad, false
			lhs, tail := v, ""
			if s.Results == 2 {
				lhs, tail = v+", e"+v, "\nuse(e"+v+")"
			}
			expr := s.Expr
			if u.Wrap {
				expr = "(" + expr + ")"
			}
			beside := "" // another variable, which is fine
			switch d := u.Decl; {
			case d == 1:
				add("var %s = %s%s", lhs, expr, tail)
			case d == 2 && s.Results == 1:
				add("var %s %s = %s", v, s.Type, expr)
			case d == 3 && s.Results == 2: // assigned after the declaration
				add("var %s %s\nvar e%[1]s error\n%[3]s = %[4]s\nuse(e%[1]s)", v, s.Type, lhs, expr)
				any = sink == "G305"
			case d == 4 && s.Results == 1: // beside others
				beside = "k" + v
				add("%s, %s := %s, %s", beside, v, good, expr)
			case d == 5 && s.Results == 1:
				beside = "k" + v
				add("%s, %s := %s, %s", v, beside, expr, good)
			case d == 6 && s.Results == 1:
				beside = "k" + v
				add("var %s, %s = %s, %s", beside, v, good, expr)
			case d == 7 && s.Results == 1:
				beside = "k" + v
				add("var (\n%s = %s\n%s, o%[3]s = %[4]s, 3\n)\nuse(o%[3]s)", v, expr, beside, good)
			case d == 8 && s.Results == 2:
				b.wrapA += fmt.Sprintf("if %s := (%s); e%s == nil {\n", lhs, expr, v)
				b.wrapB = "}\n" + b.wrapB
			case d == 9: // the name hides another
				add("%s := %q\nuse(%[1]s)", v, "outer")
				b.wrapA += fmt.Sprintf("{\n%s := %s%s\n", lhs, expr, tail)
				b.wrapB = "}\n" + b.wrapB
			case d == 10: // captured
				add("%s := %s%s", lhs, expr, tail)
				b.wrapA += "func() {\n"
				b.wrapB = "}()\n" + b.wrapB
			case d == 11 && s.Results == 2:
				b.wrapA += fmt.Sprintf("switch %s := (%s); {\ncase e%s == nil:\n", lhs, expr, v)
				b.wrapB = "}\n" + b.wrapB
			default:
				add("%s := %s%s", lhs, expr, tail)
			}
			b.wrapA += "use(" + v + ")\n"
			if beside != "" {
				b.wrapA += "use(" + beside + ")\n"
			}
			arg := v
			switch u.Use {
			case 1: // something else with the same name, in an inner block
				if sink == "G305" {
					break
				}
				b.wrapA += "{\n" + v + " := " + good + "\n"
				b.wrapB = "}\n" + b.wrapB
				bad, any = false, false
			case 2: // the other variable
				if beside != "" {
					arg, bad, any = beside, false, false
				}
			case 3: // without a variable
				if s.Results == 1 {
					arg = expr
				}
			}
			if u.Wrap && u.Use != 3 {
				arg = "(" + arg + ")"
			}
			switch sink {
			case "G109":
				conv := []string{"int32", "int16", "int32", "int16", "int64", "uint32", "int8", "uint8", "float32", "int", "word"}[u.Sink%11]
				if u.Sink%11 > 3 {
					bad, any = false, false
				}
				call = conv + "(" + arg + ")"
				switch u.Dist {
				case 1:
					call = conv + "(" + arg + " + 1)"
					any = any || bad
				case 2:
					call = conv + "(" + arg + ") + 1"
				}
			case "G110":
				results = 2
				switch u.Sink % 6 {
				case 0, 1:
					call = "io.Copy(out, " + arg + ")"
				case 2:
					call = "io.CopyBuffer(out, " + arg + ", nil)"
				case 3:
					call = "io.CopyN(out, " + arg + ", 100)"
					bad, any = false, false
				case 4:
					call = "Copy(out, " + arg + ")"
					bad, any = false, false
				default:
					call = "own{}.Copy(out, " + arg + ")"
					bad, any = false, false
				}
			default:
				call = []string{"filepath.Join(\"dst\", %s)", "path.Join(\"dst\", %s)", "filepath.Join(s, \"a\", %s)", "path.Join(%s, \"x\")", "filepath.Join(%s)", "path.Base(%s)", "filepath.Clean(%s)", "own{}.Join(\"dst\", %s)"}[u.Sink%8]
				call = fmt.Sprintf(call, arg)
				if u.Sink%8 > 4 {
					bad, any = false, false
				}
			}
			if any {
				mark = markAny
			} else if bad {
				mark = markBad
			}
		}
		if sink != rule {
			mark = ""
			b.wrapA = strings.ReplaceAll(b.wrapA, markBad, "")
			call = strings.ReplaceAll(call, markBad, "")
		}
		lhs, two := "r, err", "(any, error)"
		if results == 1 {
			lhs, two = "r", "any"
		}
		var stmt string
		switch u.Ctx {
		case 0:
			stmt = lhs + " := " + mark + call + "\nuse(" + lhs + ")"
		case 1:
			stmt = "var " + lhs + " = " + mark + call + "\nuse(" + lhs + ")"
		case 2:
			stmt = "use(func() " + two + " {\nreturn " + mark + call + "\n})"
		case 3:
			stmt = "defer use(" + mark + call + ")"
		case 4:
			stmt = "if " + lhs + " := " + mark + "(" + call + "); n > 3 {\nuse(" + lhs + ")\n}"
		case 5:
			stmt = "for i := 0; i < n; i++ {\nswitch {\ncase i > 3:\n" + mark + "use(" + call + ")\n}\n}"
		case 6:
			stmt = "go func() {\n" + mark + "use(" + call + ")\n}()"
		case 7:
			stmt = "{\nuse(n)\n" + mark + "use(" + call + ")\n}\n" + "{\n" + mark + "use(" + call + ")\n}"
		default:
			stmt = mark + "use(" + call + ")"
		}
		params := "in io.Reader, out io.Writer, s string, n int, zf *zip.File, zr *zip.Reader, hdr *tar.Header, st store"
		head := fmt.Sprintf("func unit%d(%s) {\n", i, params)
		if u.Dist == 5 {
			head = fmt.Sprintf("func (own) unit%d(%s) {\n", i, params)
		}
		decoy := ""
		switch u.Decoy {
		case 0:
			decoy = "func decoy%d(in io.Reader, s string) {\nv1, err := strconv.Atoi(s)\nv2, err2 := gzip.NewReader(in)\nuse(v1, v2, err, err2)\n}\n\n"
		case 1:
			decoy = "func decoy%d(v1 int, v2 io.Reader) {\nuse(int32(v1), v2)\n}\n\n"
		case 2:
			decoy = "func decoy%d(zf *zip.File) {\nv1, v2 := zf.Name, zf.Name\nuse(v1, v2)\n}\n\n"
		}
		body := head + strings.Join(append(b.pre, ""), "\n") + b.wrapA + stmt + "\n" + b.wrapB + "}\n\n"
		if decoy != "" {
			if u.Dist%2 == 0 {
				body = fmt.Sprintf(decoy, i) + body
			} else {
				body += fmt.Sprintf(decoy, i)
			}
		}
		src[u.File] += body
		for f := range src {
			src[f] += b.decls[f]
		}
	}
	var out []File
	imports := []string{"archive/tar", "archive/zip", "bufio", "compress/bzip2", "compress/flate", "compress/gzip", "compress/lzw", "compress/zlib", "io", "net/http", "os", "path", "path/filepath", "strconv", "strings", "time"}
	uses := "var (\n\t_ tar.Reader\n\t_ zip.Reader\n\t_ bufio.Reader\n\t_ = bzip2.NewReader\n\t_ = flate.NewReader\n\t_ = gzip.NewReader\n\t_ = lzw.NewReader\n\t_ = zlib.NewReader\n\t_ io.Reader\n\t_ = http.MethodGet\n\t_ = os.Args\n\t_ = path.Base\n\t_ = filepath.Base\n\t_ = strconv.Itoa\n\t_ strings.Builder\n\t_ time.Time\n)\n\n"
	for f := 0; f < 2; f++ {
		s := "import (\n\t\"" + strings.Join(imports, "\"\n\t\"") + "\"\n)\n\n" + uses + src[f]
		if c.Alias && f == 1 {
			for _, p := range imports {
				n := p[strings.LastIndex(p, "/")+1:]
				if n == "strings" || n == "time" || n == "path" && strings.Contains(s, "path/filepath.") {
					continue
				}
				s = strings.Replace(s, "\t\""+p+"\"\n", "\tx"+n+" \""+p+"\"\n", 1)
				s = replaceQualifier(s, n, "x"+n)
			}
		}
		if f == 0 {
			s += "type word uint16\n\ntype own struct{ Label string }\n\ntype store struct{ Name string }\n\ntype config struct {\n\tAddr string\n\tReadTimeout time.Duration\n}\n\ntype wrapped struct {\n\tsrv http.Server\n\tptr *http.Server\n\tReadTimeout int\n}\n\ntype server = http.Server\n\nfunc (own) Name() string { return \"\" }\n\nfunc (own) NewReader(r io.Reader) io.Reader { return r }\n\nfunc (own) Open() (io.ReadCloser, error) { return nil, nil }\n\nfunc (own) Atoi(s string) (int, error) { return 0, nil }\n\n" +
				"func (own) Copy(w io.Writer, r io.Reader) (int64, error) { return 0, nil }\n\nfunc (own) Join(a, b string) string { return a }\n\nfunc NewReader(r io.Reader) io.Reader { return r }\n\nfunc Atoi(s string) (int, error) { return 0, nil }\n\nfunc Copy(w io.Writer, r io.Reader) (int64, error) { return 0, nil }\n\nfunc use(a ...any) {}\n\nfunc main() {}\n"
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package main\n\n" + s})
	}
	return unmark(out)
}

// server gives an expression with server literals.
func (b *injBuild) server(u flowUnit) (string, string) {
	fields := [][]string{{}, {`Addr: s`}, {`Addr: ":1"`, `Handler: nil`}, {`WriteTimeout: 3 * time.Second`}, {`IdleTimeout: 5`, `MaxHeaderBytes: 9`}}[u.Src%5]
	bad := true
	switch u.Decl % 6 {
	case 0:
		fields, bad = append(fields, "ReadHeaderTimeout: time.Second"), false
	case 1:
		fields, bad = append([]string{"ReadTimeout: 4 * time.Second"}, fields...), false
	case 2:
		fields, bad = append(fields, "ReadTimeout: time.Minute", "ReadHeaderTimeout: 2"), false
	}
	body := "{" + strings.Join(fields, ", ") + "}"
	if u.Dist == 3 && len(fields) > 0 {
		body = "{\n" + strings.Join(fields, ",\n") + ",\n}"
	}
	mark := ""
	if bad {
		mark = markBad
	}
	switch u.Sink {
	case 0, 1:
		return "&http.Server" + body, mark
	case 2, 3:
		return "http.Server" + body, mark
	case 4:
		return "[]http.Server{\n" + mark + body + ",\n{ReadTimeout: 3},\n}", ""
	case 5:
		return "[]*http.Server{\n{ReadHeaderTimeout: 3},\n" + mark + body + ",\n}", ""
	case 6:
		return "map[string]http.Server{\n\"a\": " + mark + body + "}", ""
	case 7:
		return "config{}", ""
	case 8: // the fields of the outer literal are not those of the server
		return "wrapped{\nReadTimeout: 3,\nsrv: " + mark + "http.Server" + body + "}", ""
	case 9:
		return "wrapped{\nptr: " + mark + "&http.Server" + body + ",\nReadTimeout: 3}", ""
	case 10:
		return "server" + body, mark
	default:
		return "[]config{{Addr: s}}", ""
	}
}

func runFlow(c flowCase, s *Stats) error {
	var res *Result
	bad := 0
	rules := []string{"G109", "G110", "G112", "G305"}
	for _, r := range rules {
		m := c.build(r)
		if res == nil {
			var err error
			if res, err = MustScan(m.files, ScanOpts{Include: rules, NoAnalyze: true}); err != nil {
				return err
			}
		}
		bad += len(m.want)
		s.LabelN(r+" findings", len(m.want))
		if err := m.compare(r, res.Issues); err != nil {
			return err
		}
	}
	if bad > 0 && bad < len(c.Units) {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C30", "distinct programs with values that reach a sink and with others", 30000, 1000000, genFlow, runFlow)
}
