package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// tprog generates well-typed programs over integers, byte slices and nonces, with loops, recursion, closures,
// struct fields, pointers and generics: food for the SSA analyzers.
type tprog struct {
	t     *rapid.T
	vars  []tvar
	depth int
	seq   int
	loop  int
	funcs int
}

type tvar struct{ name, typ string }

var intTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

func (p *tprog) n(a, b int) int           { return rapid.IntRange(a, b).Draw(p.t, "n") }
func (p *tprog) pick(xs ...string) string { return sampled(xs).Draw(p.t, "p") }
func (p *tprog) fresh(pre string) string  { p.seq++; return fmt.Sprintf("%s%d", pre, p.seq) }
func (p *tprog) ty() string               { return sampled(intTypes).Draw(p.t, "ty") }
func (p *tprog) varOf(typ string) string {
	var c []string
	for _, v := range p.vars {
		if v.typ == typ {
			c = append(c, v.name)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return sampled(c).Draw(p.t, "var")
}

func (p *tprog) lit(typ string) string {
	ls := []string{"0", "1", "7", "100", "127"}
	switch typ {
	case "int8":
	case "uint8":
		ls = append(ls, "128", "255")
	case "int16":
		ls = append(ls, "128", "256", "32767")
	case "uint16":
		ls = append(ls, "32768", "65535")
	default:
		ls = append(ls, "255", "256", "65535", "65536", "2147483647")
	}
	return sampled(ls).Draw(p.t, "lit")
}

func (p *tprog) num(typ string) string {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 3 {
		if v := p.varOf(typ); v != "" {
			return v
		}
		return p.lit(typ)
	}
	switch p.n(0, 15) {
	case 0, 1, 2, 3:
		if v := p.varOf(typ); v != "" {
			return v
		}
		return typ + "(" + p.num(p.ty()) + ")"
	case 4:
		return p.lit(typ)
	case 5, 6, 7:
		return typ + "(" + p.num(p.ty()) + "+" + "0)"
	case 8:
		v := p.varOf(typ)
		if v == "" {
			return p.lit(typ)
		}
		return "(" + v + " " + p.pick("+", "-", "*", "&", "|", "^", "&^") + " " + p.num(typ) + ")"
	case 9:
		if strings.HasPrefix(typ, "uint") {
			break
		}
		if v := p.varOf(typ); v != "" {
			return "-" + v
		}
	case 10:
		if v := p.varOf("[]byte"); v != "" {
			return typ + "(" + p.pick("len", "cap") + "(" + v + "))"
		}
	case 11:
		if v := p.varOf("*" + typ); v != "" {
			return "*" + v
		}
	case 12:
		return "gen(" + typ + "(" + p.num(p.ty()) + "+0))"
	case 13:
		return "func() " + typ + " { return " + p.num(typ) + " }()"
	case 14:
		if v := p.varOf("S"); v != "" && (typ == "int" || typ == "uint32" || typ == "int64") {
			return v + "." + map[string]string{"int": "A", "uint32": "B", "int64": "C"}[typ]
		}
	case 15:
		return "f" + fmt.Sprint(p.n(0, p.funcs-1)) + "_" + typ + "(" + p.num(typ) + ")"
	}
	return typ + "(" + p.num(p.ty()) + "+0)"
}

func (p *tprog) cond() string {
	t := p.ty()
	v := p.varOf(t)
	if v == "" {
		v = "gen[" + t + "](3)"
	}
	c := v + " " + p.pick("<", "<=", ">", ">=", "==", "!=") + " " + p.pick(p.lit(t), p.num(t))
	if p.n(0, 5) == 0 {
		c = "!(" + c + ")"
	}
	if p.n(0, 3) == 0 && p.depth < 3 {
		p.depth++
		c += p.pick(" && ", " || ") + p.cond()
		p.depth--
	}
	return c
}

func (p *tprog) bytes() string {
	if v := p.varOf("[]byte"); v != "" && p.n(0, 2) > 0 {
		if p.n(0, 4) == 0 {
			return v + p.pick("[:]", "[0:]", "[:1]", "[1:3]", "[:cap("+v+")]", "[2:5:9]", "[:0]")
		}
		return v
	}
	switch p.n(0, 7) {
	case 0:
		return "[]byte(\"abcdefghijkl\")"
	case 1:
		return "make([]byte, " + p.pick("0", "1", "12", "16") + ")"
	case 2:
		return "make([]byte, " + p.pick("0", "4", "n0") + ", " + p.pick("16", "20") + ")"
	case 3:
		return "[]byte{1, 2, 3, 4}"
	case 4:
		return "append(" + p.bytesV() + ", 1, 2)"
	case 5:
		return "anyBytes()"
	case 6:
		return "nb" + fmt.Sprint(p.n(0, p.funcs-1)) + "(" + p.bytesV() + ")"
	}
	return "arr" + "[" + p.pick("", "1", "0") + ":" + p.pick("", "3", "12") + "]"
}

func (p *tprog) bytesV() string {
	if v := p.varOf("[]byte"); v != "" {
		return v
	}
	return "anyBytes()"
}

func (p *tprog) stmts(n int) string {
	mark := len(p.vars)
	defer func() { p.vars = p.vars[:mark] }()
	var b []string
	for i := 0; i < n; i++ {
		b = append(b, p.stmt())
	}
	return strings.Join(b, "\n")
}

func (p *tprog) decl(typ, val string) string {
	name := p.fresh("v")
	p.vars = append(p.vars, tvar{name, typ})
	return "var " + name + " " + typ + " = " + val + "\nuse(" + name + ")"
}

func (p *tprog) stmt() string {
	p.depth++
	defer func() { p.depth-- }()
	k := p.n(0, 31)
	if p.depth > 4 && k > 7 && k < 16 {
		k -= 8
	}
	switch k {
	case 0, 1, 2:
		t := p.ty()
		return p.decl(t, p.num(t))
	case 3, 4:
		t := p.ty()
		if v := p.varOf(t); v != "" {
			return v + " " + p.pick("=", "=", "+=", "-=") + " " + p.num(t)
		}
		return p.decl(t, p.num(t))
	case 5:
		return p.decl("[]byte", p.bytes())
	case 6:
		if v := p.varOf("[]byte"); v != "" {
			return v + " = " + p.bytes()
		}
		return p.decl("[]byte", p.bytes())
	case 7:
		t := p.ty()
		return "use(" + p.num(t) + ")"
	case 8, 9:
		s := "if " + p.cond() + " {\n" + p.stmts(p.n(0, 3)) + "\n}"
		if p.n(0, 1) == 0 {
			s += " else {\n" + p.stmts(p.n(0, 3)) + "\n}"
		}
		return s
	case 10:
		return "if " + p.cond() + " {\n" + p.pick("return 0", "panic(1)", "use(1)\nreturn 1") + "\n}"
	case 11:
		p.loop++
		s := "for " + p.cond() + " {\n" + p.stmts(p.n(1, 3)) + "\n" + p.pick("", "break", "continue", "") + "\n}"
		p.loop--
		return s
	case 12:
		i := p.fresh("i")
		mark := len(p.vars)
		p.vars = append(p.vars, tvar{i, "int"})
		s := "for " + i + " := 0; " + i + " < " + p.pick("3", "300", "n0", "len("+p.bytesV()+")") + "; " + i + "++ {\n" + p.stmts(p.n(1, 3)) + "\n}"
		p.vars = p.vars[:mark]
		return s
	case 13:
		i := p.fresh("i")
		mark := len(p.vars)
		p.vars = append(p.vars, tvar{i, "int"}, tvar{i + "b", "uint8"})
		s := "for " + i + ", " + i + "b := range " + p.bytesV() + " {\nuse(" + i + ", " + i + "b)\n" + p.stmts(p.n(1, 3)) + "\n}"
		p.vars = p.vars[:mark]
		return s
	case 14:
		t := p.ty()
		v := p.varOf(t)
		if v == "" {
			return "use(2)"
		}
		return "switch " + v + " {\ncase 1, 2:\n" + p.stmts(1) + "\ncase 100:\n" + p.stmts(1) + "\ndefault:\n" + p.stmts(1) + "\n}"
	case 15:
		return "switch {\ncase " + p.cond() + ":\n" + p.stmts(p.n(1, 2)) + "\ncase " + p.cond() + ":\n" + p.stmts(1) + "\n}"
	case 16:
		t := p.pick("int64", "uint64")
		name := p.fresh("v")
		p.vars = append(p.vars, tvar{name, t})
		return name + ", err" + name + " := @{strconv}." + map[string]string{"int64": "ParseInt", "uint64": "ParseUint"}[t] + "(s0, 10, " + p.pick("8", "16", "32", "64", "0", "n0") + ")\nuse(" + name + ", err" + name + ")"
	case 17:
		if v := p.varOf("int64"); v != "" {
			return v + ", _ = @{strconv}.ParseInt(s0, 10, " + p.pick("8", "32", "n0") + ")"
		}
		return "use(3)"
	case 18:
		name := p.fresh("v")
		p.vars = append(p.vars, tvar{name, "int"})
		return name + ", err" + name + " := @{strconv}.Atoi(s0)\nuse(" + name + ", err" + name + ")"
	case 19:
		t := p.ty()
		if v := p.varOf(t); v != "" {
			return p.decl("*"+t, "&"+v)
		}
		return "use(4)"
	case 20:
		return p.decl("S", "S{A: n0}")
	case 21:
		return p.pick("use(aead.Seal(nil, "+p.bytes()+", nil, nil))", "use(aead.Seal("+p.bytesV()+", "+p.bytes()+", "+p.bytesV()+", nil))", "use(aead.Open(nil, "+p.bytes()+", nil, nil))", "use(@{crypto/cipher}.NewCTR(blk, "+p.bytes()+"))", "use(@{crypto/cipher}.NewCBCEncrypter(blk, "+p.bytes()+"))",
			"use(@{crypto/rand}.Read("+p.bytesV()+"))", "use(@{io}.ReadFull(@{crypto/rand}.Reader, "+p.bytesV()+"))")
	case 24, 25, 26, 27: // values which come out of a tuple
		t := p.ty()
		name := p.fresh("v")
		src := p.pick("map[string]%s{}[s0]", "any(s0).(%s)", "<-make(chan %s)", "(map[int][1]%s{})[n0][0]")
		src = strings.ReplaceAll(src, "%s", t)
		s := name + ", ok" + name + " := " + src + "\nuse(ok" + name + ")\nuse(" + name + ")"
		if strings.HasPrefix(src, "(map") {
			s = name + " := " + src + "\nuse(" + name + ")"
		}
		p.vars = append(p.vars, tvar{name, t})
		return s
	case 28: // of a loop over something else
		t := p.ty()
		i := p.fresh("i")
		mark := len(p.vars)
		p.vars = append(p.vars, tvar{i, t})
		s := "for " + p.pick("_, "+i+" := range map[string]"+t+"{}", i+" := range map["+t+"]int{}", i+" := range make(chan "+t+")", "_, "+i+" := range [2]"+t+"{}", "_, "+i+" := range &[2]"+t+"{}", i+" := range "+p.num(t), i+" := range func(yield func("+t+") bool) { yield("+p.num(t)+") }") + " {\nuse(" + i + ")\n" + p.stmts(p.n(1, 2)) + "\n}"
		p.vars = p.vars[:mark]
		return s
	case 29:
		t := p.ty()
		name := p.fresh("v")
		s := "select {\ncase " + name + ", ok := <-make(chan " + t + "):\nuse(" + name + ", ok, " + p.ty() + "(" + name + "))\ndefault:\n" + p.stmts(1) + "\n}"
		return s
	case 30:
		name := p.fresh("v")
		t := p.ty()
		return "switch " + name + " := any(" + p.num(t) + ").(type) {\ncase " + t + ":\nuse(" + p.ty() + "(" + name + "))\ncase string, []byte:\nuse(" + name + ")\ncase nil:\n}"
	case 31:
		t := p.ty()
		return p.decl(t, p.pick("min", "max")+"("+p.num(t)+", "+p.num(t)+")")
	case 22:
		v := p.bytesV()
		return "use(" + v + p.pick("[0]", "[11]", "[n0]", "[:]", "[1:]", "[:12]", "[3:4]", "[20]", "[5:n0]", "[1:2:3]") + ")"
	default:
		if v := p.varOf("[]byte"); v != "" {
			return p.pick("copy("+v+", anyBytes())", v+"[0] = 3", "func() { "+v+" = nil }()", v+" = "+v+"[:len("+v+")]", "if len("+v+") > 3 {\nuse("+v+"[2])\n}")
		}
		return "use(5)"
	}
}

const typedHelpers = `package p

func use(a ...any) {}

func anyBytes() []byte { return nil }

type S struct {
	A int
	B uint32
	C int64
}

func gen[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](x T) T { return x }
`

func typedFiles(t *rapid.T) []File {
	p := &tprog{t: t}
	p.funcs = p.n(1, 2)
	var pieces []string
	for i := 0; i < p.funcs; i++ {
		for _, ty := range intTypes {
			pieces = append(pieces, fmt.Sprintf("func f%d_%s(x %s) %s { return x }", i, ty, ty, ty))
		}
		// nonce functions: recursive, mutually recursive, or plain
		next := fmt.Sprintf("nb%d", p.n(0, p.funcs-1))
		body := p.pick("return b", "if len(b) > 3 {\nreturn "+next+"(b[1:])\n}\nreturn b", "use(sink.Seal(nil, b, nil, nil))\nreturn "+next+"(b)", "return "+next+"(append(b, 1))", "for i := range b {\nb[i] = 0\n}\nreturn b")
		pieces = append(pieces, fmt.Sprintf("func nb%d(b []byte) []byte {\n%s\n}", i, body))
	}
	pieces = append(pieces, "var sink @{crypto/cipher}.AEAD", "var blk @{crypto/cipher}.Block", "var arr [12]byte")
	nf := p.n(1, 3)
	for i := 0; i < nf; i++ {
		p.vars = []tvar{{"n0", "int"}, {"u0", "uint64"}, {"w0", "uint32"}, {"b0", "[]byte"}}
		p.depth = 0
		name := fmt.Sprintf("func main%d", i)
		if p.n(0, 3) == 0 {
			name = fmt.Sprintf("func (s S) m%d", i)
		}
		rec := ""
		if p.n(0, 2) == 0 {
			if strings.HasPrefix(name, "func (") {
				rec = fmt.Sprintf("use(s.m%d(n0, u0, w0, b0, s0, aead))\n", i)
			} else {
				rec = fmt.Sprintf("use(main%d(n0, u0, w0, b0, s0, aead))\n", i)
			}
		}
		pieces = append(pieces, name+"(n0 int, u0 uint64, w0 uint32, b0 []byte, s0 string, aead @{crypto/cipher}.AEAD) int {\n"+p.stmts(p.n(2, 9))+"\n"+rec+"return n0\n}")
	}
	src, _ := buildFile("p", "", pieces, nil, nil)
	return []File{{"t.go", src}, {"th.go", typedHelpers}}
}
