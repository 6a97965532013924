package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C21: units, each of which builds a value out of parts of known origin and passes it to one sink.

// Origins of a part.
const (
	partConst  = iota // compile-time constant
	partFixed         // local variable declared with a constant and never changed
	partVar           // variable declared with data from outside
	partParam         // parameter
	partCall          // data from outside which is not a variable
	partOther         // about which nothing is required
	partGlobal        // package variable declared with data from outside, same file
)

type injPart struct {
	Src  int
	Kind int
	Text int
	Wrap int // parentheses and the like

	Variant int // of texts with SQL
}

type injUnit struct {
	Sink   int
	Recv   int
	Method int
	Shape  int
	Decl   int // how the value is given to the sink
	Ctx    int
	Parts  []injPart
	Decoy  int
	Twice  bool
	File   int
	Extra  int
}

type injCase struct {
	Units []injUnit
	Alias bool
}

func genInj(t *rapid.T) injCase {
	c := injCase{Alias: oneIn(t, 4, "alias")}
	n := 1 + upTo(t, 4, "units")
	for i := 0; i < n; i++ {
		u := injUnit{Sink: upTo(t, 4, "sink"), Recv: upTo(t, 7, "recv"), Method: upTo(t, 15, "method"), Shape: upTo(t, 8, "shape"), Decl: upTo(t, 9, "decl"), Ctx: upTo(t, 12, "ctx"), Decoy: upTo(t, 9, "decoy"), Twice: oneIn(t, 6, "twice"), File: upTo(t, 1, "file"), Extra: upTo(t, 3, "extra")}
		safe := oneIn(t, 2, "safe")
		for k := 1 + upTo(t, 3, "parts"); k > 0; k-- {
			p := injPart{Src: upTo(t, 19, "src"), Text: upTo(t, 11, "text"), Variant: upTo(t, 143, "variant"), Wrap: upTo(t, 5, "wrap")}
			if safe {
				p.Kind = sampled([]int{partConst, partConst, partConst, partFixed}).Draw(t, "kind")
			} else {
				p.Kind = sampled([]int{partConst, partConst, partFixed, partVar, partVar, partVar, partParam, partCall, partGlobal}).Draw(t, "kind")
			}
			u.Parts = append(u.Parts, p)
		}
		c.Units = append(c.Units, u)
	}
	return c
}

type injBuild struct {
	unit  int
	file  int
	n     int
	decls [2]string // package level declarations of the files
	pre   []string
	post  []string
	parms []string
	wrapA string // statement around the unit
	wrapB string
}

func (b *injBuild) id(prefix string) string {
	b.n++
	return fmt.Sprintf("%s%d", prefix, b.n)
}

func (b *injBuild) global(prefix string) string {
	b.n++
	return fmt.Sprintf("%s%dx%d", prefix, b.unit, b.n)
}

// text returns a constant of the program and its notation. Of the texts for SQL the first ones hold a keyword.
func (b *injBuild) constant(p injPart, text string) string {
	q := fmt.Sprintf("%q", text)
	g := func(file int, format string) string {
		n := b.global("konst")
		b.decls[file] += fmt.Sprintf(format, n, q) + "\n\n"
		return n
	}
	switch p.Src % 14 {
	case 0, 1:
		return q
	case 2:
		if !strings.ContainsAny(text, "`\n\r") {
			return "`" + text + "`"
		}
		return q
	case 3:
		n := b.id("c")
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s", n, q))
		return n
	case 4:
		return g(b.file, "const %s = %s")
	case 5:
		return g(1-b.file, "const %s = %s")
	case 6:
		return g(b.file, "const %s string = %s")
	case 7:
		return g(b.file, "const (\n\tfirst%[1]s, %[1]s = 1, %[2]s\n)")
	case 8:
		k := len(text) / 2
		return fmt.Sprintf("(%q + %q)", text[:k], text[k:])
	case 9: // of a type of its own
		return "string(" + g(b.file, "const %s text = %s") + ")"
	case 10: // a constant which hides a variable of the package
		n := b.global("hide")
		b.decls[b.file] += fmt.Sprintf("var %s = os.Getenv(\"HIDDEN\")\n\n", n)
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s", n, q))
		return n
	case 11: // computed from others
		n := g(b.file, "const %s = %s")
		m := b.id("c")
		b.pre = append(b.pre, fmt.Sprintf("const %s = %s + \"\"", m, n))
		return m
	case 12:
		return "string(" + q + ")"
	default:
		n := b.id("c")
		b.pre = append(b.pre, fmt.Sprintf("const other%[1]s, %[1]s = \"other\", %[2]s", n, q))
		return n
	}
}

func (b *injBuild) fixed(p injPart, text string) string {
	q := fmt.Sprintf("%q", text)
	n := b.id("k")
	if p.Variant%6 == 4 { // hides a name of the package
		n = b.global("hidden")
		b.decls[b.file] += fmt.Sprintf([]string{"const %s = 7\n\n", "var %s = lookup(\"h\")\n\n", "func %s() {}\n\n", "type %s struct{}\n\n"}[p.Src%4], n)
	}
	switch p.Src % 7 {
	case 0, 1:
		b.pre = append(b.pre, fmt.Sprintf("%s := %s", n, q))
	case 2:
		b.pre = append(b.pre, fmt.Sprintf("var %s = %s", n, q))
	case 3:
		b.pre = append(b.pre, fmt.Sprintf("var %s string = %s + \"\"", n, q))
	case 4: // beside a variable from outside
		b.pre = append(b.pre, fmt.Sprintf("%[1]s, e%[1]s := %[2]s, os.Getenv(\"X\")\nuse(e%[1]s)", n, q))
	case 5:
		b.pre = append(b.pre, fmt.Sprintf("var e%[1]s, %[1]s = lookup(\"X\"), %[2]s\nuse(e%[1]s)", n, q))
	default:
		b.pre = append(b.pre, fmt.Sprintf("v%[1]s := %[2]s\n%[1]s := v%[1]s", n, q))
	}
	return n
}

var injOutside = []string{`os.Getenv("NAME")`, `os.Args[1]`, `lookup("x")`, `thing.Name()`, `strings.TrimSpace(os.Args[2])`, `"a" + os.Getenv("B")`, `fmt.Sprint(os.Args)`, `string(data())`, `(lookup("y"))`, `strings.Join([]string{"a", lookup("b")}, "/")`}

func (b *injBuild) variable(p injPart) string {
	n := b.id("v")
	o := injOutside[p.Text%len(injOutside)]
	add := func(format string, a ...any) { b.pre = append(b.pre, fmt.Sprintf(format, a...)) }
	switch p.Src % 14 {
	case 0, 1:
		add("%s := %s", n, o)
	case 2:
		add("var %s = %s", n, o)
	case 3:
		add("var %s string = %s", n, o)
	case 4:
		add("%[1]s, e%[1]s := lookup2(\"X\")\nuse(e%[1]s)", n)
	case 5:
		add("var %[1]s, e%[1]s = os.LookupEnv(\"X\")\nuse(e%[1]s)", n)
	case 6: // beside a constant
		add("k%[1]s, %[1]s := \"const\", %[2]s\nuse(k%[1]s)", n, o)
	case 7:
		add("var %[1]s, k%[1]s = %[2]s, \"const\"\nuse(k%[1]s)", n, o)
	case 8: // a copy
		add("w%[1]s := %[2]s\n%[1]s := w%[1]s", n, o)
	case 9: // hides a constant of the package
		n = b.global("hide")
		b.decls[b.file] += fmt.Sprintf("const %s = \"hidden\"\n\n", n)
		add("%s := %s", n, o)
	case 10: // hides a local one
		add("const %s = \"hidden\"\nuse(%[1]s)", n)
		b.wrapA += "{\n" + fmt.Sprintf("%s := %s", n, o) + "\n"
		b.wrapB = "}\n" + b.wrapB
	case 11:
		b.wrapA += fmt.Sprintf("for _, %s := range os.Args {\n", n)
		b.wrapB = "}\n" + b.wrapB
	case 12: // captured
		add("%s := %s", n, o)
		b.wrapA += "func() {\n"
		b.wrapB = "}()\n" + b.wrapB
	default:
		b.wrapA += fmt.Sprintf("if %s := %s; %[1]s != \"\" {\n", n, o)
		b.wrapB = "}\n" + b.wrapB
	}
	return n
}

func (b *injBuild) parameter(p injPart) string {
	n := b.id("p")
	switch p.Src % 4 {
	case 0, 1:
		b.parms = append(b.parms, n+" string")
	case 2:
		b.parms = append(b.parms, n+", rest"+n+" string")
	default: // of a closure
		b.wrapA += fmt.Sprintf("use(func(%s string) {\n", n)
		b.wrapB = "})\n" + b.wrapB
	}
	return n
}

func (b *injBuild) globalVar(p injPart) string {
	n := b.global("glob")
	o := injOutside[p.Text%4]
	switch p.Src % 3 {
	case 0:
		b.decls[b.file] += fmt.Sprintf("var %s = %s\n\n", n, o)
	case 1:
		b.decls[b.file] += fmt.Sprintf("var (\n\tother%[1]s, %[1]s = \"const\", %[2]s\n)\n\n", n, o)
	default:
		b.decls[b.file] += fmt.Sprintf("var %[1]s, err%[1]s = lookup2(\"X\")\n\n", n)
	}
	return n
}

// part gives the expression of a part; the text is that of constants.
func (b *injBuild) part(p injPart, text string) (string, int) {
	var e string
	switch p.Kind {
	case partConst:
		e = b.constant(p, text)
	case partFixed:
		if p.Variant%6 == 5 { // nothing is said of a variable of another file, which does not excuse the rest
			n := b.global("far")
			b.decls[1-b.file] += fmt.Sprintf("var %s = %q\n\n", n, text)
			return n, partOther
		}
		e = b.fixed(p, text)
	case partVar:
		e = b.variable(p)
	case partParam:
		e = b.parameter(p)
	case partGlobal:
		e = b.globalVar(p)
	default:
		e = injOutside[p.Text%5]
	}
	if p.Wrap == 5 {
		e = "(" + e + ")"
	}
	return e, p.Kind
}

var injSQL = []string{"SELECT * FROM t WHERE a = '", "delete from t where id = ", "INSERT INTO t VALUES (", "Update t set a = ", " FROM\tusers ", "\nwhere\nb = ", "SELECT\n", " into t ", "'", ")", " AND 1=1", ""}
var injFormats = []string{"SELECT * FROM %s", "select %v from t where a = '%s'", "DELETE FROM t\nWHERE a = %q", "update t set a = %v"}
var injPaths = []string{"/tmp", "dir/file", "a.txt", "..", "x y", "/", "b/", ".hidden", "C:", "p", "q", "r"}
var injURLs = []string{"http://localhost/", "https://example.com/a?b=c", "/path", "http://", "x", "?q=", "y", "#f", "http://h:80", "a", "b", "c"}
var injCmds = []string{"ls", "/bin/sh", "-c", "echo", "git", "-l", "true", "x", "a b", "--flag=1", "y", "z"}

func has(kinds []int, want ...int) bool {
	for _, k := range kinds {
		for _, w := range want {
			if k == w {
				return true
			}
		}
	}
	return false
}

// concat joins the parts, grouped in different ways.
func concat(parts []string, shape int) string {
	if len(parts) > 2 {
		switch shape % 3 {
		case 1:
			return "(" + strings.Join(parts[:2], " + ") + ") + " + strings.Join(parts[2:], " + ")
		case 2:
			return parts[0] + " + (" + strings.Join(parts[1:], " + ") + ")"
		}
	}
	return strings.Join(parts, " + ")
}

// sqlVariant writes the keywords of a text in other letters and with other separators, and a format with other verbs.
func sqlVariant(text string, v int) string {
	text = strings.ReplaceAll(text, " ", []string{" ", "\t", "\n", "\r", "\r\n", "  ", " ", "\t"}[v%8])
	switch v / 8 % 3 {
	case 1:
		text = strings.ToLower(text)
	case 2:
		if !strings.Contains(text, "%") {
			text = strings.ToUpper(text)
		}
	}
	return strings.ReplaceAll(text, "%s", []string{"%s", "%v", "%q", "%+v", "%5s", "%-8v"}[v/24%6])
}

var sqlText = regexp.MustCompile(`(?i)(SELECT|DELETE|INSERT|UPDATE|INTO|FROM|WHERE)[ \n\r\t]`)

func (b *injBuild) sql(u injUnit) (call string, m map[string]string, decl string) {
	var parts []string
	var kinds []int
	rule := "G202"
	var query string
	format := u.Shape%2 == 1 && len(u.Parts) > 0
	keyword := false
	for i, p := range u.Parts {
		text := injSQL[p.Text%len(injSQL)]
		if format {
			text = injPaths[p.Text%len(injPaths)]
		} else if i == 0 {
			text = injSQL[p.Text%8]
		}
		if !format {
			text = sqlVariant(text, p.Variant)
		}
		e, k := b.part(p, text)
		if format && p.Variant%6 == 3 { // quoted
			e, k = "pq.QuoteIdentifier("+e+")", partConst
		}
		parts = append(parts, e)
		kinds = append(kinds, k)
		if k == partConst && sqlText.MatchString(text) {
			keyword = true
		}
	}
	mark := ""
	external := has(kinds, partVar, partParam, partCall, partGlobal)
	unsure := has(kinds, partFixed, partOther)
	if !format && !keyword && external {
		external, unsure = false, true
	}
	if format {
		rule = "G201"
		f := sqlVariant(injFormats[u.Extra%len(injFormats)], u.Parts[0].Variant)
		fp := injPart{Src: u.Method + u.Recv, Kind: partConst}
		fe := b.constant(fp, f)
		switch strings.Count(f, "%") - len(parts) {
		case 1:
			parts = append(parts, `"table"`)
		case 0:
		default:
			if len(parts) > strings.Count(f, "%") {
				// the rest is formatted too, as extra arguments
				unsure = unsure || has(kinds[strings.Count(f, "%"):], partVar, partParam, partCall, partGlobal)
				external = has(kinds[:strings.Count(f, "%")], partVar, partParam, partCall, partGlobal)
			}
		}
		query = "fmt.Sprintf(" + fe + ", " + strings.Join(parts, ", ") + ")"
	} else {
		if len(parts) == 1 {
			parts = append(parts, `"1"`)
		}
		query = concat(parts, u.Shape/2)
	}
	switch {
	case external:
		mark = markBad
	case unsure:
		mark = markAny
	}
	first := kinds[0] == partConst
	declared := true
	q := b.id("q")
	place := func(format string) {
		b.wrapA += fmt.Sprintf(format, q, mark+query) + "\n"
		query = q
	}
	switch u.Decl {
	case 0, 1, 2, 3:
		declared = false
	case 4:
		place("%s := %s")
	case 5:
		place("var %s = %s")
	case 6:
		place("var %s string = %s")
	case 7:
		place("other%[1]s, %[1]s := lookup(\"o\"), %[2]s\nuse(other%[1]s)")
	case 8: // beside something harmful
		place("%[1]s, other%[1]s := %[2]s, \"SELECT * FROM other WHERE a = \" + lookup(\"x\")\nuse(other%[1]s)")
	default: // another one with the same name
		b.pre = append(b.pre, fmt.Sprintf("%s := \"SELECT * FROM t WHERE b = \" + lookup(\"z\")\nuse(%[1]s, fmt.Sprintf(\"SELECT a FROM %%s\", %[1]s))", q))
		b.wrapA += "{\n"
		b.wrapB = "}\n" + b.wrapB
		place("%s := %s")
	}
	if !declared {
		if !format && !first && mark == markBad {
			mark = markAny
		}
		query = mark + query
		if oneOf(u.Extra, 3) {
			query = "(" + query + ")"
		}
	}
	recv := []string{"db", "tx", "s.db", "s.tx", "conn()", "local", "localtx", "db"}[u.Recv]
	if strings.HasPrefix(recv, "local") {
		b.pre = append(b.pre, "local, errlocal := sql.Open(\"d\", \"\")\nuse(errlocal)")
		if recv == "localtx" {
			b.pre = append(b.pre, "localtx, errlocal := local.Begin()")
		}
	}
	fn := []string{"Exec", "Query", "QueryRow", "Prepare"}[u.Method%4]
	extra := ""
	if fn != "Prepare" && oneOf(u.Extra, 1) {
		extra = ", 1, \"a\""
	}
	if u.Method%8 > 3 {
		call = fmt.Sprintf("%s.%sContext(%s, %s%s)", recv, fn, []string{"ctx", "context.Background()"}[u.Method/8], query, extra)
	} else {
		call = fmt.Sprintf("%s.%s(%s%s)", recv, fn, query, extra)
	}
	if u.Twice {
		if declared {
			// both calls have the issue at the declaration
			b.wrapA = strings.Replace(b.wrapA, markBad, markBad+markBad, 1)
		}
	}
	return call, map[string]string{rule: ""}, fn
}

func oneOf(n int, xs ...int) bool {
	for _, x := range xs {
		if n == x {
			return true
		}
	}
	return false
}

// value builds one argument from parts and tells its kind.
func (b *injBuild) value(parts []injPart, shape int, texts []string, join string) (string, int) {
	var es []string
	var ks []int
	for _, p := range parts {
		e, k := b.part(p, texts[p.Text%len(texts)])
		es, ks = append(es, e), append(ks, k)
		b.wrapA += "use(" + e + ")\n"
	}
	if shape%9 > 2 && len(es) < 2 {
		es = append(es, fmt.Sprintf("%q", texts[shape%len(texts)]))
	}
	switch {
	case shape%9 < 3 || join == "none":
		return es[0], ks[0]
	case shape%9 < 6 || join == "":
		k := partConst
		for _, w := range []int{partOther, partFixed, partCall, partParam, partVar} {
			for _, x := range ks {
				if x == w || x == partGlobal && w == partVar {
					k = w
				}
			}
		}
		return concat(es, shape), k
	default:
		k := partConst
		for _, w := range []int{partOther, partFixed, partCall, partParam, partVar} {
			for _, x := range ks {
				if x == w || x == partGlobal && w == partVar {
					k = w
				}
			}
		}
		return join + "(" + strings.Join(es, ", ") + ")", k
	}
}

func (c injCase) build(rule string) marked {
	var src [2]string
	for i, u := range c.Units {
		b := &injBuild{unit: i, file: u.File}
		var call, sink, what string
		mark := "" // in front of the statement
		results := 2
		switch u.Sink {
		case 0, 1:
			var m map[string]string
			call, m, what = b.sql(u)
			if what == "QueryRow" {
				results = 1
			}
			for r := range m {
				sink = r
			}
		case 2: // commands
			sink = "G204"
			kinds := []int{}
			var args []string
			for _, p := range u.Parts {
				e, k := b.part(p, injCmds[p.Text%len(injCmds)])
				switch p.Wrap {
				case 0, 1:
					e = `"--x=" + ` + e
					if k == partParam || k == partFixed {
						k = partOther
					}
				case 2:
					e = e + ` + ("-" + "y")`
					if k == partParam || k == partFixed {
						k = partOther
					}
				}
				args, kinds = append(args, e), append(kinds, k)
			}
			list := "[]string{" + strings.Join(args, ", ") + "}"
			switch u.Shape % 6 {
			case 0, 1:
				call = "exec.Command(" + strings.Join(args, ", ") + ")"
				results = 1
			case 2:
				call = "exec.CommandContext(" + []string{"ctx", "context.Background()"}[u.Extra%2] + ", " + strings.Join(args, ", ") + ")"
				results = 1
			case 3:
				call = "syscall.Exec(" + args[0] + ", " + list + ", nil)"
				results = 1
			case 4:
				call = "syscall.ForkExec(" + args[0] + ", " + list + ", nil)"
			default:
				if u.Extra%2 == 0 {
					call = "exec.Command(" + args[0] + ", " + list + "...)"
				} else {
					l := b.id("l")
					b.wrapA += l + " := " + list + "\nuse(" + l + ")\n"
					call = "exec.Command(" + args[0] + ", " + l + "...)"
					if u.Extra == 1 {
						b.pre = append(b.pre, "rest := os.Args[1:]")
						call = "exec.Command(" + args[0] + ", rest...)"
						kinds = append(kinds, partVar)
					}
				}
				results = 1
			}
			switch {
			case has(kinds, partVar, partCall, partGlobal):
				mark = markBad
			case has(kinds, partParam, partOther):
				mark = markAny
			}
		case 3: // files
			sink = "G304"
			path, k := b.value(u.Parts, u.Shape, injPaths, []string{"filepath.Join", "path.Join"}[u.Extra%2])
			switch k {
			case partVar, partParam, partGlobal:
				mark = markBad
			case partCall, partOther:
				mark = markAny
			}
			if u.Decl > 7 && u.Shape%9 > 5 { // joined before, a call result
				n := b.id("j")
				b.wrapA += n + " := " + path + "\n"
				path = n
				if k == partConst || k == partFixed || k == partCall {
					mark = markAny
				}
			}
			if u.Shape%9 < 3 && mark == markBad { // the path goes through a function that cleans it
				v := strings.Trim(path, "()")
				switch u.Decoy {
				case 7:
					b.wrapA += []string{"use(filepath.Clean(" + v + "))\n", v + " = filepath.Clean(" + v + ")\n", "if filepath.Clean(" + v + ") == \"x\" {\n}\n", "use(filepath.EvalSymlinks(" + v + "))\n"}[u.Extra]
					mark = ""
				case 8:
					n := b.id("clean")
					b.wrapA += []string{n + " := filepath.Clean(" + v + ")\n", "var " + n + " = filepath.Clean(" + v + ")\n", "var " + n + " string = filepath.Clean(\"/\" + " + v + ")\n", "more" + n + ", " + n + " := number(), filepath.Clean(" + v + ")\nuse(more" + n + ")\n"}[u.Extra]
					path, mark = n, ""
				case 9: // too late
					b.wrapB = "use(filepath.Clean(" + v + "))\n" + b.wrapB
				}
			}
			switch u.Method % 5 {
			case 0:
				call = "os.Open(" + path + ")"
			case 1:
				call = "os.ReadFile(" + path + ")"
			case 2:
				call = "os.OpenFile(" + path + ", " + []string{"os.O_RDONLY", "flags", "os.O_CREATE|flags"}[u.Extra%3] + ", 0o600)"
				b.pre = append(b.pre, "flags := number()\nuse(flags)")
			case 3:
				call = "os.Create(" + path + ")"
			default:
				call = "ioutil.ReadFile(" + path + ")"
			}
		default: // requests
			sink = "G107"
			url, k := b.value(u.Parts[:1], u.Shape%6, injURLs, "none")
			switch k {
			case partVar, partParam, partGlobal:
				mark = markBad
			case partCall, partOther:
				mark = markAny
			}
			switch u.Method % 4 {
			case 0:
				call = "http.Get(" + url + ")"
			case 1:
				call = "http.Head(" + url + ")"
			case 2:
				call = "http.Post(" + url + ", " + []string{`"text/plain"`, "kind"}[u.Extra%2] + ", body)"
				b.pre = append(b.pre, "kind := lookup(\"kind\")\nuse(kind)")
			default:
				call = "http.PostForm(" + url + ", vals)"
			}
		}
		if sink != rule {
			mark = ""
			b.wrapA = strings.NewReplacer(markBad, "", markAny, "").Replace(b.wrapA)
			call = strings.NewReplacer(markBad, "", markAny, "").Replace(call)
		}
		stmt := mark + "use(" + call + ")"
		two := "any, any"
		if results == 1 {
			two = "any"
		}
		lhs := "r, e"
		if results == 1 {
			lhs = "r"
		}
		switch u.Ctx {
		case 0:
			stmt = lhs + " := " + mark + call + "\nuse(" + lhs + ")"
		case 1:
			stmt = "var " + lhs + " = " + mark + call + "\nuse(" + lhs + ")"
		case 2:
			stmt = strings.NewReplacer("r", "_", "e", "_").Replace(lhs) + " = " + mark + call
		case 3:
			if sink != "G304" && sink != "G107" && !strings.HasPrefix(call, "syscall") && !strings.HasPrefix(call, "exec") {
				stmt = mark + call
			} else {
				stmt = "go " + mark + call
			}
		case 4:
			stmt = "defer " + mark + call
		case 5:
			stmt = "if " + lhs + " := " + mark + call + "; any(r) != nil {\nuse(" + lhs + ")\n}"
		case 6:
			stmt = "use(func() (" + two + ") {\nreturn " + mark + call + "\n})"
		case 7:
			if what == "QueryRow" {
				stmt = []string{"use(" + call + ".Scan(nil))", "err := " + call + ".Scan(nil)\nuse(err)", "if err := " + call + ".Err(); err != nil {\n}"}[u.Extra%3]
			} else if strings.HasPrefix(call, "exec") {
				stmt = []string{"use(" + mark + call + ".Run())", "o, err := " + mark + call + ".Output()\nuse(o, err)", "if err := " + mark + call + ".Start(); err != nil {\n}"}[u.Extra%3]
			}
		case 8:
			stmt = "switch " + lhs + " := " + mark + call + "; {\ndefault:\nuse(" + lhs + ")\n}"
		case 9:
			stmt = "for i := 0; i < 3; i++ {\nselect {\ncase <-ctx.Done():\n" + stmt + "\ndefault:\n}\n}"
		case 10:
			stmt = "func() {\ndefer func() {\n" + stmt + "\n}()\n}()"
		}
		if u.Twice && u.Sink < 2 {
			stmt = "{\n" + stmt + "\n}\n{\n" + stmt + "\n}"
		}
		decoy := ""
		switch u.Decoy {
		case 0:
			decoy = "func clean%d(v1, v2, v3, p1, p2, q1, q2, q3 string) {\nuse(filepath.Clean(v1), filepath.Clean(v2), filepath.Clean(p1), filepath.Clean(p2), filepath.Clean(v3), filepath.Clean(q1))\n}\n"
		case 1:
			decoy = "func decoy%d() {\nv1, v2, p1, p2, q1, q2, q3 := \"a\", \"b\", \"c\", \"d\", \"SELECT * FROM t\", \"f\", \"g\"\nuse(v1, v2, p1, p2, q1, q2, q3)\n}\n"
		case 2:
			decoy = "func decoy%d(k1, k2, k3, c1, c2 string) {\nv1, q2 := \"SELECT * FROM \" + k1, fmt.Sprintf(\"SELECT %%s\", k2)\nuse(v1, q2, k3, c1, c2)\n}\n"
		}
		if decoy != "" {
			src[u.File] += fmt.Sprintf(decoy, i) + "\n"
		}
		if u.Sink == 3 && u.Decoy == 3 { // another parameter is cleaned
			b.parms = append(b.parms, "before, after string")
			b.pre = append(b.pre, "use(filepath.Clean(before), filepath.Clean(after))")
		}
		for _, p := range b.parms { // the second of the parameters declared together is cleaned
			if x, y, ok := strings.Cut(p, ", rest"); ok && u.Decoy < 6 {
				b.pre = append(b.pre, "use(filepath.Clean(rest"+strings.TrimSuffix(y, " string")+"))")
				_ = x
			}
		}
		parms := append([]string{"ctx context.Context", "db *sql.DB", "tx *sql.Tx", "s store", "body io.Reader", "vals url.Values"}, b.parms...)
		head := fmt.Sprintf("func unit%d(%s) {\n", i, strings.Join(parms, ", "))
		if u.Extra == 2 {
			head = fmt.Sprintf("func (recv own) unit%d(%s) {\n", i, strings.Join(parms, ", "))
		}
		src[u.File] += head + strings.Join(append(b.pre, ""), "\n") + b.wrapA + stmt + "\n" + b.wrapB + "}\n\n"
		for f := range src {
			src[f] += b.decls[f]
		}
	}
	var out []File
	imports := []string{"context", "database/sql", "fmt", "github.com/lib/pq", "io", "io/ioutil", "net/http", "net/url", "os", "os/exec", "path", "path/filepath", "strings", "syscall"}
	uses := "var (\n\t_ context.Context\n\t_ *sql.DB\n\t_ = fmt.Sprint\n\t_ = pq.QuoteLiteral\n\t_ io.Reader\n\t_ = ioutil.Discard\n\t_ = http.MethodGet\n\t_ url.Values\n\t_ = os.Args\n\t_ exec.Cmd\n\t_ = path.Base\n\t_ = filepath.Base\n\t_ strings.Builder\n\t_ = syscall.Getpid\n)\n\n"
	for f := 0; f < 2; f++ {
		s := "import (\n\t\"" + strings.Join(imports, "\"\n\t\"") + "\"\n)\n\n" + uses + src[f]
		if c.Alias && f == 1 {
			for _, p := range []string{"database/sql", "fmt", "github.com/lib/pq", "net/http", "os", "os/exec", "path/filepath", "syscall"} {
				n := p[strings.LastIndex(p, "/")+1:]
				s = strings.Replace(s, "\t\""+p+"\"\n", "\tx"+n+" \""+p+"\"\n", 1)
				s = replaceQualifier(s, n, "x"+n)
			}
		}
		if f == 0 {
			s += "type text string\n\ntype own struct{}\n\nfunc (own) Name() string { return \"\" }\n\nvar thing own\n\ntype store struct {\n\tdb *sql.DB\n\ttx *sql.Tx\n}\n\nfunc conn() *sql.DB { return nil }\n\nfunc lookup(s string) string { return s }\n\nfunc lookup2(s string) (string, error) { return s, nil }\n\nfunc number() int { return 0 }\n\nfunc data() []byte { return nil }\n\nfunc use(a ...any) {}\n\nfunc main() {}\n"
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package main\n\n" + s})
	}
	return unmark(out)
}

var injRules = []string{"G107", "G201", "G202", "G204", "G304"}

func runInj(c injCase, s *Stats) error {
	var res *Result
	bad := 0
	for _, r := range injRules {
		m := c.build(r)
		if res == nil {
			var err error
			if res, err = MustScan(m.files, ScanOpts{Include: injRules, NoAnalyze: true}); err != nil {
				return err
			}
		}
		bad += len(m.want)
		s.LabelN(r+" findings", len(m.want))
		if err := m.compare(r, res.Issues); err != nil {
			return err
		}
	}
	if bad > 0 && bad < len(c.Units) {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C21", "distinct programs with sinks given constants and with sinks given data from outside", 30000, 1000000, genInj, runInj)
}
