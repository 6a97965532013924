package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C27: calls whose errors are dropped. Each unit is a statement built around one or two calls; which results are errors and
// whether the callee is on the list of ignored functions is known from how the callee was made.

type errCall struct {
	Callee int // index into the table of library callees, or kind of a local one
	Local  bool
	Res    []int // results of a local callee, indexes into errTypes
	Recv   int   // how the receiver is written
}

type errUnit struct {
	Form  int
	Calls []errCall
	Blank uint32 // which results go to the blank identifier
	Ctx   int
	Paren bool
	File  int
}

type errCase struct {
	Units []errUnit
	Audit string
	Lists []int // configured entries
	Alias bool
}

var errTypes = []struct {
	T, Zero string
	Err     bool
}{
	{"error", "nil", true}, {"int", "0", false}, {"error", "nil", true}, {"string", `""`, false}, {"alias", "nil", true}, {"*myErr", "nil", false}, {"myErr", "myErr{}", false}, {"[]error", "nil", false}, {"*error", "nil", false},
	{"func() error", "nil", false}, {"bool", "false", false}, {"chan error", "nil", false}, {"wider", "nil", false}, {"any", "nil", false}, {"map[error]error", "nil", false}, {"[1]error", "[1]error{}", false}, {"named", "nil", false},
}

// errLib: callees of the standard library. Key is the entry of the list under which the callee is found, Fn its name there;
// Own tells that it is listed by default, Res how many results there are and which of them is the error.
type errLibFn struct {
	Recv, Type string // type of the receiver, empty for functions of a package
	Key, Fn    string
	Args       string
	N, Err     int
	Own        bool
}

var errLib = []errLibFn{
	{"", "", "os", "Remove", `"a"`, 1, 0, false}, {"", "", "os", "Setenv", `"a", "b"`, 1, 0, false}, {"", "", "os", "Unsetenv", `"a"`, 1, 0, true}, {"", "", "os", "Open", `"a"`, 2, 1, false}, {"", "", "os", "Getenv", `"a"`, 1, -1, false},
	{"", "", "os", "LookupEnv", `"a"`, 2, -1, false}, {"", "", "os", "Clearenv", ``, 0, -1, false},
	{"", "", "fmt", "Print", `"a"`, 2, 1, true}, {"", "", "fmt", "Printf", `"a"`, 2, 1, true}, {"", "", "fmt", "Println", ``, 2, 1, true}, {"", "", "fmt", "Fprint", `dst, "a"`, 2, 1, true}, {"", "", "fmt", "Fprintf", `dst, "a"`, 2, 1, true},
	{"", "", "fmt", "Fprintln", `dst`, 2, 1, true}, {"", "", "fmt", "Sscan", `"1", &cell`, 2, 1, false}, {"", "", "fmt", "Scanln", ``, 2, 1, false}, {"", "", "fmt", "Errorf", `"a"`, 1, 0, false}, {"", "", "fmt", "Sprint", `"a"`, 1, -1, false},
	{"", "", "ioutil", "WriteFile", `"a", nil, 0`, 1, 0, false}, {"", "", "ioutil", "ReadAll", `src`, 2, 1, false}, {"", "", "io", "Copy", `dst, src`, 2, 1, false}, {"", "", "io", "WriteString", `dst, "a"`, 2, 1, false},
	{"", "", "strconv", "Atoi", `"1"`, 2, 1, false}, {"", "", "strconv", "Itoa", `1`, 1, -1, false}, {"", "", "json", "Unmarshal", `nil, nil`, 1, 0, false}, {"", "", "json", "Marshal", `1`, 2, 1, false},
	{"bytes.Buffer", "", "bytes.Buffer", "Write", `nil`, 2, 1, true}, {"bytes.Buffer", "", "bytes.Buffer", "WriteString", `"a"`, 2, 1, true}, {"bytes.Buffer", "", "bytes.Buffer", "WriteByte", `'a'`, 1, 0, true},
	{"bytes.Buffer", "", "bytes.Buffer", "WriteRune", `'a'`, 2, 1, true}, {"bytes.Buffer", "", "bytes.Buffer", "ReadByte", ``, 2, 1, false}, {"bytes.Buffer", "", "bytes.Buffer", "ReadFrom", `src`, 2, 1, false},
	{"bytes.Buffer", "", "bytes.Buffer", "Reset", ``, 0, -1, false}, {"bytes.Buffer", "", "bytes.Buffer", "WriteTo", `dst`, 2, 1, false},
	{"strings.Builder", "", "strings.Builder", "WriteString", `"a"`, 2, 1, true}, {"strings.Builder", "", "strings.Builder", "Write", `nil`, 2, 1, true}, {"strings.Builder", "", "strings.Builder", "WriteByte", `'a'`, 1, 0, true},
	{"strings.Builder", "", "strings.Builder", "WriteRune", `'a'`, 2, 1, true}, {"strings.Builder", "", "strings.Builder", "Grow", `1`, 0, -1, false}, {"strings.Builder", "", "strings.Builder", "Len", ``, 1, -1, false},
	{"*io.PipeWriter", "", "io.PipeWriter", "CloseWithError", `nil`, 1, 0, true}, {"*io.PipeWriter", "", "io.PipeWriter", "Close", ``, 1, 0, false}, {"*io.PipeWriter", "", "io.PipeWriter", "Write", `nil`, 2, 1, false},
	{"*io.PipeReader", "", "io.PipeReader", "CloseWithError", `nil`, 1, 0, false},
	{"hash.Hash", "", "hash.Hash", "Write", `nil`, 2, 1, true}, {"hash.Hash", "", "hash.Hash", "Reset", ``, 0, -1, false}, {"hash.Hash32", "", "hash.Hash32", "Write", `nil`, 2, 1, false},
	{"io.Writer", "", "io.Writer", "Write", `nil`, 2, 1, false}, {"io.Closer", "", "io.Closer", "Close", ``, 1, 0, false}, {"*os.File", "", "os.File", "Close", ``, 1, 0, false}, {"*os.File", "", "os.File", "Chmod", `0`, 1, 0, false}, {"*os.File", "", "os.File", "Name", ``, 1, -1, false},
	{"*bufio.Writer", "", "bufio.Writer", "Flush", ``, 1, 0, false}, {"*bufio.Writer", "", "bufio.Writer", "WriteString", `"a"`, 2, 1, false}, {"*bufio.Writer", "", "bufio.Writer", "Reset", `nil`, 0, -1, false},
	{"strings.Reader", "", "strings.Reader", "ReadByte", ``, 2, 1, false}, {"error", "", "error", "Error", ``, 1, -1, false},
	{"named2", "", "command-line-arguments.named2", "Write", `nil`, 2, 1, false}, {"named2", "", "command-line-arguments.named2", "WriteString", `"a"`, 2, 1, false}, {"*named2", "", "command-line-arguments.named2", "Close", ``, 1, 0, false},
}

// errLists: entries a configuration can add.
var errLists = []struct {
	Key string
	Fns []string
}{
	{"os", []string{"Remove", "Open"}}, {"ioutil", []string{"WriteFile"}}, {"strconv", []string{"Atoi"}}, {"json", []string{"Marshal", "Unmarshal", "Nothing"}}, {"fmt", []string{"Sscan"}}, {"io", []string{"Copy", "WriteString", "Write"}},
	{"bytes.Buffer", []string{"ReadByte", "ReadFrom"}}, {"io.PipeWriter", []string{"Close"}}, {"io.Writer", []string{"Write"}}, {"io.Closer", []string{"Close"}}, {"os.File", []string{"Close"}}, {"bufio.Writer", []string{"Flush", "WriteString"}},
	{"strings.Reader", []string{"ReadByte"}}, {"command-line-arguments.named2", []string{"Write", "Close"}}, {"hash.Hash32", []string{"Write"}}, {"main", []string{"f0", "f1", "f2", "f3"}}, {"command-line-arguments.own", []string{"M0", "M1", "M2"}},
	{"ran", []string{"f4", "Remove"}}, {"strings.Builder", nil}, {"os.File", []string{"close", "Chmodx"}}, {"main", []string{"Remove", "Close", "WriteFile"}},
}

const (
	errLocals = 14
	errRecvs  = 15
	errForms  = 16
	errCtxs   = 14
)

func genErrCall(t *rapid.T) errCall {
	k := errCall{Local: oneIn(t, 2, "local"), Recv: upTo(t, errRecvs-1, "recv")}
	if !k.Local {
		k.Callee = upTo(t, len(errLib)-1, "lib")
		return k
	}
	k.Callee = upTo(t, errLocals-1, "kind")
	for i := upTo(t, 3, "nres"); i > 0; i-- {
		k.Res = append(k.Res, upTo(t, len(errTypes)-1, "type"))
	}
	return k
}

func genErrCase(t *rapid.T) errCase {
	c := errCase{Audit: sampled([]string{"", "", "true", "enabled", "false", "1"}).Draw(t, "audit"), Alias: rapid.Bool().Draw(t, "alias")}
	for i := upTo(t, 3, "lists"); i > 0; i-- {
		c.Lists = append(c.Lists, upTo(t, len(errLists)-1, "list"))
	}
	for i := 1 + upTo(t, 9, "units"); i > 0; i-- {
		u := errUnit{Form: upTo(t, errForms-1, "form"), Blank: uint32(upTo(t, 63, "blank")), Ctx: upTo(t, errCtxs-1, "ctx"), Paren: oneIn(t, 4, "paren"), File: upTo(t, 1, "file")}
		u.Calls = append(u.Calls, genErrCall(t), genErrCall(t), genErrCall(t))
		c.Units = append(c.Units, u)
	}
	return c
}

type errBuild struct {
	c     errCase
	n     int
	decls []string // of the package
	pre   []string // in front of the statement
	list  map[string]bool
}

// call makes the text of a call, its number of results, which of them are errors and whether the callee is listed.
func (b *errBuild) call(k errCall) (text string, n int, errs map[int]bool, listed bool) {
	b.n++
	id := b.n
	errs = map[int]bool{}
	if k.Local {
		var ts, zs []string
		for i, r := range k.Res {
			e := errTypes[r]
			ts, zs = append(ts, e.T), append(zs, e.Zero)
			errs[i] = e.Err
		}
		n = len(k.Res)
		res := "(" + strings.Join(ts, ", ") + ")"
		body := "{ return " + strings.Join(zs, ", ") + " }"
		sig := "func() " + res
		name := fmt.Sprintf("f%d", id)
		switch k.Callee {
		default:
			b.decls = append(b.decls, "func "+name+"() "+res+" "+body)
			return name + "()", n, errs, b.list["main."+name]
		case 1, 2:
			recv := []string{"own", "*own"}[k.Callee-1]
			m := fmt.Sprintf("M%d", id)
			b.decls = append(b.decls, "func ("+recv+") "+m+"() "+res+" "+body)
			x, _ := b.receiver("own", k.Recv)
			return x + "." + m + "()", n, errs, b.list["command-line-arguments.own."+m]
		case 3:
			b.pre = append(b.pre, fmt.Sprintf("v%d := %s %s", id, sig, body))
			return fmt.Sprintf("v%d()", id), n, errs, false
		case 4:
			return sig + " " + body + "()", n, errs, false
		case 5:
			b.pre = append(b.pre, fmt.Sprintf("var s%d struct{ F %s }", id, sig))
			return fmt.Sprintf("s%d.F()", id), n, errs, false
		case 6:
			b.pre = append(b.pre, fmt.Sprintf("m%d := map[string]%s{}", id, sig))
			return fmt.Sprintf("m%d[\"a\"]()", id), n, errs, false
		case 7:
			b.decls = append(b.decls, fmt.Sprintf("func mk%d() %s { return nil }", id, sig))
			return fmt.Sprintf("mk%d()()", id), n, errs, false
		case 8:
			b.decls = append(b.decls, fmt.Sprintf("type fn%d %s", id, sig))
			return fmt.Sprintf("fn%d(nil)()", id), n, errs, false
		case 9: // generic function
			if len(k.Res) == 0 {
				b.decls = append(b.decls, fmt.Sprintf("func g%d[T any](T) { }", id))
				return fmt.Sprintf("g%d(1)", id), n, errs, false
			}
			t := ts[0]
			ts[0], zs[0] = "T", "x"
			b.decls = append(b.decls, fmt.Sprintf("func g%d[T any](x T) (%s) { return %s }", id, strings.Join(ts, ", "), strings.Join(zs, ", ")))
			b.pre = append(b.pre, fmt.Sprintf("var z%d %s", id, t))
			if k.Recv%2 == 0 {
				return fmt.Sprintf("g%d[%s](z%d)", id, t, id), n, errs, false
			}
			return fmt.Sprintf("g%d(z%d)", id, id), n, errs, false
		case 10: // method of an interface
			b.decls = append(b.decls, fmt.Sprintf("type i%d interface { M() %s }", id, res))
			x, _ := b.receiver(fmt.Sprintf("i%d", id), k.Recv)
			return x + ".M()", n, errs, false
		case 11: // method of a generic type
			b.decls = append(b.decls, fmt.Sprintf("type g%d[T any] struct { x T }\n\nfunc (g%d[T]) M() %s %s", id, id, res, body))
			x, _ := b.receiver(fmt.Sprintf("g%d[int]", id), k.Recv)
			return x + ".M()", n, errs, false
		case 12: // method value and method expression
			b.decls = append(b.decls, fmt.Sprintf("func (own) E%d() %s %s", id, res, body))
			if k.Recv%2 == 0 {
				return fmt.Sprintf("own.E%d((own{}))", id), n, errs, false
			}
			b.pre = append(b.pre, fmt.Sprintf("e%d := (own{}).E%d", id, id))
			return fmt.Sprintf("e%d()", id), n, errs, false
		case 13: // variable of the package
			b.decls = append(b.decls, fmt.Sprintf("var p%d %s", id, sig))
			return fmt.Sprintf("p%d()", id), n, errs, false
		}
	}
	f := errLib[k.Callee%len(errLib)]
	n = f.N
	if f.Err >= 0 {
		errs[f.Err] = true
	}
	listed = f.Own || b.list[f.Key+"."+f.Fn]
	if f.Recv == "" {
		return f.Key + "." + f.Fn + "(" + f.Args + ")", n, errs, listed
	}
	x, _ := b.receiver(f.Recv, k.Recv)
	return x + "." + f.Fn + "(" + f.Args + ")", n, errs, listed
}

// receiver writes an addressable (or pointer) operand of a type.
func (b *errBuild) receiver(typ string, form int) (string, bool) {
	b.n++
	x := fmt.Sprintf("x%d", b.n)
	base := strings.TrimPrefix(typ, "*")
	iface := strings.HasPrefix(typ, "i") && !strings.HasPrefix(typ, "io.") || typ == "hash.Hash" || typ == "hash.Hash32" || typ == "io.Writer" || typ == "io.Closer" || typ == "error"
	ptr := "*" + base
	if iface {
		ptr = base
	}
	add := func(f string, a ...any) { b.pre = append(b.pre, fmt.Sprintf(f, a...)) }
	switch form % errRecvs {
	case 0:
		add("var %s %s", x, typ)
	case 1:
		add("var %s %s", x, ptr)
	case 2:
		b.decls = append(b.decls, fmt.Sprintf("var %s %s", x, typ))
	case 3:
		b.decls = append(b.decls, fmt.Sprintf("var %s struct{ F struct { G %s } }", x, ptr))
		return x + ".F.G", true
	case 4:
		add("var %s struct{ F %s }", x, typ)
		return x + ".F", true
	case 5:
		add("%s := []%s{}", x, typ)
		return x + "[1]", true
	case 6:
		add("%s := map[int]%s{}", x, ptr)
		return x + "[1]", true
	case 7:
		b.decls = append(b.decls, fmt.Sprintf("func %s() %s { panic(1) }", x, ptr))
		return x + "()", true
	case 8:
		add("var %s %s", x, typ)
		return "(" + x + ")", true
	case 9:
		add("var %s *%s", x, typ)
		return "(*" + x + ")", true
	case 10:
		if iface {
			add("var %s any", x)
			return x + ".(" + base + ")", true
		}
		return "new(" + base + ")", true
	case 11:
		add("var %s any", x)
		return x + ".(" + ptr + ")", true
	case 12:
		if iface || typ != base {
			add("%s := [3]%s{}", x, ptr)
			return x + "[len(os.Args)]", true
		}
		return "(&" + base + "{})", true
	case 13: // result of a method
		b.decls = append(b.decls, fmt.Sprintf("func (own) %s(int) %s { panic(1) }", x, ptr))
		return "(own{})." + x + "(3)", true
	case 14: // result of a function held by a variable
		add("%s := func() %s { panic(1) }", x, ptr)
		return x + "()", true
	}
	return x, true
}

func (c errCase) build() marked {
	b := &errBuild{c: c, list: map[string]bool{}}
	for _, l := range c.Lists {
		e := errLists[l%len(errLists)]
		for _, f := range e.Fns {
			b.list[e.Key+"."+f] = true
		}
	}
	audit := c.Audit == "true" || c.Audit == "enabled"
	var bodies [2]string
	for i, u := range c.Units {
		b.pre = nil
		text, n, errs, listed := b.call(u.Calls[0])
		if u.Paren {
			text = "(" + text + ")"
		}
		var hasErr bool
		for _, e := range errs {
			hasErr = hasErr || e
		}
		// names on the left, used behind
		bad := false
		var used []string
		left := func(from, n int, errs map[int]bool, listed bool) string {
			var ls []string
			for j := 0; j < n; j++ {
				if u.Blank>>(from+j)&1 == 1 {
					ls = append(ls, "_")
					bad = bad || audit && errs[j] && !listed
				} else {
					v := fmt.Sprintf("r%d", from+j)
					ls, used = append(ls, v), append(used, v)
				}
			}
			return strings.Join(ls, ", ")
		}
		stmt, after := "", ""
		simple := true // a simple statement, which can be part of another one
		form := u.Form
		switch {
		case n == 0 || form < 6:
			stmt = text
			bad = hasErr && !listed
		case form < 11: // assignment of the results of one call
			l := left(0, n, errs, listed)
			op := " := "
			if len(used) == 0 {
				op = " = "
			} else if form == 10 {
				b.pre = append(b.pre, "var keep any", "use(keep)")
				op = " = "
				// assignment to variables of interface type
				for _, v := range used {
					b.pre = append(b.pre, "var "+v+" any")
				}
			}
			stmt = l + op + text
		case form < 14: // several calls of one result each
			var ls, rs []string
			for j, k := range u.Calls {
				t, n, errs, listed := text, n, errs, listed
				if j > 0 {
					if t, n, errs, listed = b.call(k); u.Paren {
						t = "(" + t + ")"
					}
				}
				if n == 1 {
					ls, rs = append(ls, left(len(ls), 1, errs, listed)), append(rs, t)
				}
			}
			if len(ls) == 0 {
				stmt = "use(1)"
				break
			}
			if form == 13 {
				ls, rs = append([]string{"_"}, ls...), append([]string{"cell"}, rs...)
			}
			op := " := "
			if len(used) == 0 {
				op = " = "
			}
			stmt = strings.Join(ls, ", ") + op + strings.Join(rs, ", ")
		case form == 14:
			stmt = "use(" + text + ")"
		default:
			if n == 1 {
				stmt, simple = "if any("+text+") != nil {\nuse()\n}", false
			} else {
				stmt = "use(" + text + ")"
			}
		}
		if len(used) > 0 {
			after = "use(" + strings.Join(used, ", ") + ")"
		}
		if bad {
			stmt = markBad + stmt
		}
		ctx := u.Ctx
		if !simple && ctx < 6 {
			ctx += 6
		}
		expr := len(used) == 0 && simple
		switch {
		case ctx == 0:
			stmt = "if " + stmt + "; cell > 1 {\n" + after + "\n}"
		case ctx == 1:
			stmt = "switch " + stmt + "; {\ndefault:\n" + after + "\n}"
		case ctx == 2:
			stmt = "for " + stmt + "; cell > 1; {\n" + after + "\n}"
		case ctx == 3 && expr:
			stmt = "for ; cell > 1; " + stmt + "{\n}"
		case ctx == 4:
			stmt = "switch " + stmt + "; cell {\ncase 1:\n" + after + "\n}"
		case ctx == 5:
			stmt = "var ai any\nswitch " + stmt + "; ai.(type) {\ncase int:\n" + after + "\n}"
		case ctx == 6:
			stmt = "switch cell {\ncase 1:\n" + stmt + "\n" + after + "\n}"
		case ctx == 7:
			stmt = "select {\ncase <-ch:\n" + stmt + "\n" + after + "\ndefault:\n}"
		case ctx == 8:
			stmt = "go func() {\n" + stmt + "\n" + after + "\n}()"
		case ctx == 9:
			stmt = "use(func() int {\n" + stmt + "\n" + after + "\nreturn 1\n})"
		case ctx == 10:
			stmt = fmt.Sprintf("L%d:\n%s\n%s\nif cell > 7 {\ngoto L%d\n}", i, stmt, after, i)
			if strings.Contains(stmt, ":=") && len(b.pre) == 0 {
				stmt = "{\n" + stmt + "\n}"
			}
		case ctx == 11:
			stmt = "{\n{\n" + stmt + "\n" + after + "\n}\n}"
		case ctx == 12:
			stmt = "defer func() {\n" + stmt + "\n" + after + "\n}()"
		default:
			stmt += "\n" + after
		}
		for _, p := range b.pre[:len(b.pre):len(b.pre)] {
			if v := regexp.MustCompile(`^(?:var )?([xvsmez]\d+)\b`).FindStringSubmatch(p); v != nil {
				b.pre = append(b.pre, "use("+v[1]+")")
			}
		}
		f := u.File % 2
		bodies[f] += fmt.Sprintf("func unit%d(dst io.Writer, src io.Reader, ch chan int) {\ncell := 3\nuse(cell)\n%s\n%s\n}\n\n", i, strings.Join(b.pre, "\n"), stmt)
	}
	imports := "import (\n\t\"bufio\"\n\t\"bytes\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"hash\"\n\t\"io\"\n\t\"io/ioutil\"\n\t\"os\"\n\t\"strconv\"\n\t\"strings\"\n)\n\nvar (\n\t_ bufio.Writer\n\t_ bytes.Buffer\n\t_ = json.Marshal\n\t_ = fmt.Sprint\n\t_ hash.Hash\n\t_ io.Writer\n\t_ = ioutil.Discard\n\t_ = os.Args\n\t_ = strconv.Itoa\n\t_ strings.Builder\n)\n\n"
	var out []File
	for f := 0; f < 2; f++ {
		src := imports + bodies[f]
		for j, d := range b.decls {
			if j%2 == f {
				src += d + "\n\n"
			}
		}
		if c.Alias && f == 0 {
			for _, p := range []string{"os", "fmt", "ioutil", "json", "io"} {
				path := map[string]string{"ioutil": "io/ioutil", "json": "encoding/json"}[p]
				if path == "" {
					path = p
				}
				src = strings.ReplaceAll(src, "\t\""+path+"\"\n", "\tx"+p+" \""+path+"\"\n")
				src = replaceQualifier(src, p, "x"+p)
			}
		}
		if f == 0 {
			src += "type own struct{}\n\ntype alias = error\n\ntype named error\n\ntype wider interface { error; Timeout() bool }\n\ntype myErr struct{}\n\nfunc (myErr) Error() string { return \"\" }\n\ntype named2 struct{}\n\nfunc (named2) Write([]byte) (int, error) { return 0, nil }\n\n" +
				"func (named2) WriteString(string) (int, error) { return 0, nil }\n\nfunc (*named2) Close() error { return nil }\n\nfunc use(a ...any) { }\n\nfunc main() { }\n"
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package main\n\n" + src})
	}
	return unmark(out)
}

func runErr(c errCase, s *Stats) error {
	m := c.build()
	o := ScanOpts{Include: []string{"G104"}, NoAnalyze: true, Globals: map[string]string{}}
	if c.Audit != "" {
		o.Globals["audit"] = c.Audit
	}
	if len(c.Lists) > 0 {
		conf := map[string]any{}
		for _, l := range c.Lists {
			e := errLists[l%len(errLists)]
			fns, _ := conf[e.Key].([]any)
			for _, f := range e.Fns {
				fns = append(fns, f)
			}
			conf[e.Key] = fns
		}
		o.Config = map[string]any{"G104": conf}
	}
	res, err := MustScan(m.files, o)
	if err != nil {
		return err
	}
	s.LabelN("dropped errors", len(m.want))
	if len(m.want) > 0 && len(m.want) < len(c.Units) {
		s.NonTrivial()
	}
	return m.compare("G104", res.Issues)
}

func init() {
	register("C27", "distinct programs with dropped errors and with statements that are fine", 40000, 1500000, genErrCase, runErr)
}
