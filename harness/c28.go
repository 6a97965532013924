package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C28: nonces and initialisation vectors. Each unit takes a nonce from a source to a cipher function over a path; the nonce
// is constant data or comes from crypto/rand or from callers outside of the package.

type nonceUnit struct {
	Source  int
	Other   int // source of a second use of the same path
	Two     bool
	Path    int
	Depth   int
	Sink    int
	Recur   int
	Length  int
	Again   int  // a second use of the same value, if not negative
	Generic bool // the wrapper has a type parameter
}

type nonceCase struct {
	Units []nonceUnit
	Alias bool
	Files int
}

const nonceConst = 24 // sources which are constant data; the others are not

type nonceBuild struct {
	n     int
	decls []string
	sized string // expression of the size of the array or slice
}

var nonceSinks = []string{
	"a.Seal(nil, NONCE, text, nil)", "cipher.NewCBCEncrypter(b, NONCE)", "cipher.NewCFBEncrypter(b, NONCE)", "cipher.NewCTR(b, NONCE)", "cipher.NewOFB(b, NONCE)", "a.Seal(text[:0], NONCE, text, text)", "h.aead.Seal(nil, NONCE, text, nil)",
	// not listed
	"a.Open(nil, NONCE, text, nil)", "cipher.NewCBCDecrypter(b, NONCE)", "own{}.Seal(nil, NONCE, text, nil)", "NewCTR(b, NONCE)", "sealNewOFB(NONCE)", "a.Seal(nil, text, NONCE, nil)", "a.Seal(nil, text, text, NONCE)", "a.Seal(NONCE, text, text, nil)", "own{}.NewCTR(b, NONCE)",
	"a.Open(nil, text, NONCE, text)",
}

const nonceListed = 7

// source returns statements in front, the expression, and whether it is constant data.
func (b *nonceBuild) source(k int, n int) (pre []string, expr string, konst bool) {
	b.n++
	id := b.n
	v := fmt.Sprintf("n%d", id)
	str := strings.Repeat("0123456789abcdef", 3)[:n]
	elems := strings.TrimSuffix(strings.Repeat("1, ", n), ", ")
	switch k {
	case 0:
		return nil, fmt.Sprintf("[]byte(%q)", str), true
	case 1:
		return nil, "[]byte{" + elems + "}", true
	case 2:
		b.decls = append(b.decls, fmt.Sprintf("const c%d = %q", id, str))
		return nil, fmt.Sprintf("[]byte(c%d)", id), true
	case 3:
		return []string{fmt.Sprintf("%s := []byte(`%s`)", v, str)}, v, true
	case 4:
		return []string{fmt.Sprintf("%s := [%d]byte{%s}", v, n, elems)}, v + "[:]", true
	case 5:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n)}, v, true
	case 6:
		b.decls = append(b.decls, fmt.Sprintf("var %s = []byte{%s}", v, elems))
		return nil, v, true
	case 7:
		b.decls = append(b.decls, fmt.Sprintf("var %s = [%d]byte{%s}", v, n, elems))
		return nil, v + "[:]", true
	case 8:
		return []string{fmt.Sprintf("%s := Nonce(%q)", v, str)}, v, true
	case 9:
		return []string{fmt.Sprintf("%s := []byte(%q)", v, str+"more")}, fmt.Sprintf("%s[:%d]", v, n), true
	case 10:
		return []string{fmt.Sprintf("%s := []byte(%q)", v, str), fmt.Sprintf("if len(text) > 3 {\n%s = []byte{%s}\n}", v, elems)}, v, true
	case 11:
		return []string{fmt.Sprintf("%s := %q", v, str)}, "[]byte(" + v + ")", true
	case 12:
		b.decls = append(b.decls, fmt.Sprintf("func %s() []byte { return []byte(%q) }", v, str))
		return nil, v + "()", true
	case 13:
		return nil, fmt.Sprintf("([]byte)(%q + %q)", str[:3], str[3:]), true
	case 14:
		b.decls = append(b.decls, fmt.Sprintf("var %s = []byte(%q)", v, str))
		return nil, v, true
	case 15:
		return []string{fmt.Sprintf("var %s []byte", v), fmt.Sprintf("if len(text) > 3 {\n%s = []byte(%q)\n} else {\n%s = []byte{%s}\n}", v, str, v, elems)}, v, true
	case 16:
		return []string{fmt.Sprintf("var %s [%d]byte", v, n)}, v + "[:]", true
	case 17:
		b.decls = append(b.decls, fmt.Sprintf("func %s() []byte {\n\tx := []byte{%s}\n\treturn x\n}", v, elems))
		return nil, v + "()", true
	case 18:
		return nil, fmt.Sprintf("func() []byte { return []byte(%q) }()", str), true
	case 19: // another buffer is filled
		return []string{fmt.Sprintf("other%d := make([]byte, %d)", id, n), fmt.Sprintf("rand.Read(other%d)", id), fmt.Sprintf("%s := make([]byte, %d)", v, n), fmt.Sprintf("use(other%d)", id)}, v, true
	case 20: // two names
		return []string{fmt.Sprintf("%s := []byte(%q)", v, str), fmt.Sprintf("m%d := %s", id, v)}, fmt.Sprintf("m%d", id), true
	case 21: // pointer to an array
		return []string{fmt.Sprintf("%s := &[%d]byte{%s}", v, n, elems)}, v + "[:]", true
	case 22:
		return []string{fmt.Sprintf("var %s [%d]byte", v, n), fmt.Sprintf("%s[2] = 7", v)}, fmt.Sprintf("%s[0:%d]", v, n), true
	case 23: // a captured variable
		return []string{fmt.Sprintf("%s := []byte(%q)", v, str), fmt.Sprintf("func() { %s = []byte{%s} }()", v, elems)}, v, true

	case 24:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "rand.Read(" + v + ")"}, v, false
	case 25:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "if _, err := io.ReadFull(rand.Reader, " + v + "); err != nil {\npanic(err)\n}"}, v, false
	case 26:
		return []string{fmt.Sprintf("%s := make([]byte, a.NonceSize())", v), "io.ReadFull(rand.Reader, " + v + ")"}, v, false
	case 27:
		return []string{fmt.Sprintf("var %s [%d]byte", v, n), "_, _ = rand.Read(" + v + "[:])"}, v + "[:]", false
	case 28:
		b.decls = append(b.decls, fmt.Sprintf("func %s(n int) []byte {\n\tx := make([]byte, n)\n\tif _, err := rand.Read(x); err != nil {\n\t\treturn nil\n\t}\n\treturn x\n}", v))
		return nil, fmt.Sprintf("%s(%d)", v, n), false
	case 29:
		b.decls = append(b.decls, fmt.Sprintf("func %s() []byte {\n\tx := make([]byte, %d)\n\tio.ReadFull(rand.Reader, x)\n\treturn x\n}", v, n))
		return nil, v + "()", false
	case 30: // the random function is called by another one
		b.decls = append(b.decls, fmt.Sprintf("func %s() []byte {\n\treturn in%s(%d)\n}", v, v, n), fmt.Sprintf("func in%s(n int) []byte {\n\tx := make([]byte, n)\n\trand.Read(x)\n\treturn x\n}", v))
		return nil, v + "()", false
	case 31: // the first bytes of a buffer
		return []string{fmt.Sprintf("buf%d := make([]byte, %d+64)", id, n), fmt.Sprintf("%s := buf%d[:%d]", v, id, n), "io.ReadFull(rand.Reader, " + v + ")"}, v, false
	case 32:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "rand.Reader.Read(" + v + ")"}, v, false
	case 33:
		b.decls = append(b.decls, fmt.Sprintf("func fill%s(p []byte) { rand.Read(p) }", v))
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "fill" + v + "(" + v + ")"}, v, false
	case 34:
		b.decls = append(b.decls, fmt.Sprintf("var %s = in%s()", v, v), fmt.Sprintf("func in%s() []byte {\n\tx := make([]byte, %d)\n\trand.Read(x)\n\treturn x\n}", v, n))
		return nil, v, false
	case 35: // a method of a type
		b.decls = append(b.decls, fmt.Sprintf("func (own) %s() []byte {\n\tx := make([]byte, %d)\n\trand.Read(x[:])\n\treturn x\n}", v, n))
		return nil, "own{}." + v + "()", false
	case 36:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "io.ReadAtLeast(rand.Reader, " + v + ", 3)"}, v, false
	case 37: // a captured variable
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "func() { rand.Read(" + v + ") }()"}, v, false
	case 38:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "if rd := rand.Reader; len(text) > 1 {\nrd.Read(" + v + ")\n} else {\nio.ReadFull(rd, " + v + "[:])\n}"}, v, false
	case 39:
		b.decls = append(b.decls, fmt.Sprintf("func %s() []byte {\n\tvar x [%d]byte\n\tif _, err := io.ReadFull(rand.Reader, x[:]); err != nil {\n\t\tpanic(err)\n\t}\n\treturn x[:]\n}", v, n))
		return []string{fmt.Sprintf("m%d := %s()", id, v)}, fmt.Sprintf("m%d[:%d]", id, n), false
	case 40:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "rand.Read(" + v + "[:4])", "rand.Read(" + v + "[4:])"}, v, false
	case 41:
		return nil, "outside", false
	case 42:
		return nil, fmt.Sprintf("outside[:%d]", n), false
	case 43:
		return nil, "[]byte(outs)", false
	case 44:
		return nil, "outarr[:]", false
	case 45:
		return []string{fmt.Sprintf("%s := outside", v), fmt.Sprintf("if len(%s) > 12 {\n%s = %s[:12]\n}", v, v, v)}, v, false
	case 46:
		return nil, "outptr[:]", false
	case 47:
		return []string{fmt.Sprintf("%s := []byte(outs)", v)}, fmt.Sprintf("%s[2:%d]", v, n), false

	// constant data on some of the ways
	case 48:
		return []string{fmt.Sprintf("%s := make([]byte, %d)", v, n), "rand.Read(" + v + ")", fmt.Sprintf("if len(text) > 3 {\n%s = []byte{%s}\n}", v, elems)}, v, true
	case 49:
		return []string{fmt.Sprintf("var %s []byte", v), fmt.Sprintf("if len(text) > 3 {\n%s = outside\n} else {\n%s = []byte(%q)\n}", v, v, str)}, v, true
	case 50:
		return []string{fmt.Sprintf("var %s []byte", v), fmt.Sprintf("for range text {\n%s = []byte(%q)\n}", v, str)}, v, true
	case 51:
		return []string{fmt.Sprintf("%s := outside", v), fmt.Sprintf("switch len(text) {\ncase 1:\n%s = outside[1:]\ncase 2:\n%s = []byte{%s}\ncase 3:\n%s = outarr[:]\n}", v, v, elems, v)}, v, true
	}
	return nil, "outside", false
}

const nonceSources = 52

func genNonce(t *rapid.T) nonceCase {
	c := nonceCase{Alias: oneIn(t, 4, "alias"), Files: 1 + upTo(t, 1, "files")}
	for i := 1 + upTo(t, 4, "units"); i > 0; i-- {
		u := nonceUnit{Path: upTo(t, 7, "path"), Depth: 1 + upTo(t, 3, "depth"), Recur: upTo(t, 3, "recur"), Length: 12 + upTo(t, 4, "len"), Two: oneIn(t, 3, "two")}
		if rapid.Bool().Draw(t, "const") {
			if u.Source = upTo(t, nonceConst-1, "source"); oneIn(t, 6, "some ways") {
				u.Source = 48 + upTo(t, nonceSources-49, "source")
			}
		} else {
			u.Source = nonceConst + upTo(t, 47-nonceConst, "source")
		}
		u.Other = upTo(t, nonceSources-1, "other")
		u.Sink = upTo(t, len(nonceSinks)+12, "sink")
		if u.Sink >= len(nonceSinks) {
			u.Sink %= nonceListed
		}
		if u.Again = -1; oneIn(t, 3, "again") {
			u.Again = upTo(t, len(nonceSinks)-1, "again")
		}
		u.Generic = oneIn(t, 4, "generic")
		c.Units = append(c.Units, u)
	}
	return c
}

const nonceParams = "b cipher.Block, a cipher.AEAD, text []byte, h holder"

func (c nonceCase) build() marked {
	b := &nonceBuild{}
	var bodies [2]string
	for i, u := range c.Units {
		f := i % c.Files
		pre, expr, konst := b.source(u.Source, u.Length)
		sink := nonceSinks[u.Sink]
		bad := konst && u.Sink < nonceListed
		mark := ""
		if bad {
			mark = markBad
		}
		head := fmt.Sprintf("func Unit%d(%s, outside []byte, outs string, outarr [16]byte, outptr *[16]byte) {\n", i, nonceParams)
		pres := strings.Join(append(pre, ""), "\n")
		place := func(e string) string { return strings.ReplaceAll(sink, "NONCE", e) }
		out := ""
		// calls of a wrapper: the first with the nonce of the unit, the second with another one
		calls := func(fn string) string {
			s := fmt.Sprintf("use(%d)\n%s%s(b, a, text, h, %s)\n", i, mark, fn, expr)
			if u.Two {
				pre2, expr2, konst2 := b.source(u.Other, u.Length)
				m := ""
				if konst2 && u.Sink < nonceListed {
					m = markBad
				}
				s += strings.Join(append(pre2, ""), "\n") + fmt.Sprintf("%s%s(b, a, text, h, %s)\n", m, fn, expr2)
			}
			return s
		}
		inst, tpar := "", ""
		if u.Generic {
			inst, tpar = "["+[]string{"int", "string", "own"}[u.Length%3]+"]", "[T any]"
		}
		switch u.Path {
		case 0:
			out = head + pres + mark + "use(" + place(expr) + ")\n}\n\n"
		case 1:
			out = head + pres + fmt.Sprintf("nonce := %s\n", expr) + "use(nonce)\n" + mark + "use(" + place("nonce") + ")\nuse(nonce)\n"
			if u.Again >= 0 {
				m := ""
				if konst && u.Again < nonceListed {
					m = markBad
				}
				out += m + "use(" + strings.ReplaceAll(nonceSinks[u.Again], "NONCE", "nonce") + ")\n"
			}
			out += "}\n\n"
		case 2: // in a branch and a loop
			out = head + pres + fmt.Sprintf("for i := range text {\nif text[i] == 3 {\n%suse(%s)\n}\n}\n}\n\n", mark, place(expr))
		case 3, 4: // wrappers, one inside another
			fn := fmt.Sprintf("wrap%d", i)
			out = head + pres + calls(fn+"x1") + "}\n\n"
			for d := 1; d <= u.Depth; d++ {
				next := fmt.Sprintf("%sx%d(b, a, text, h, nonce)", fn, d+1)
				if d == u.Depth {
					next = "use(" + place("nonce") + ")"
				}
				rec := ""
				if d == 1 && u.Recur == 1 {
					rec = fmt.Sprintf("if len(text) > 2 {\n%sx1(b, a, text[1:], h, nonce)\n}\n", fn)
				}
				if d == u.Depth && u.Recur == 2 {
					rec = fmt.Sprintf("if len(text) > 2 {\n%sx1(b, a, text[1:], h, nonce)\n}\n", fn)
				}
				out += fmt.Sprintf("func %sx%d(%s, nonce []byte) {\n%s%s\n}\n\n", fn, d, nonceParams, rec, next)
			}
		case 5: // a method, which cuts the nonce
			fn := fmt.Sprintf("wrap%d", i)
			m := "own{}." + fn
			out = head + pres + calls(m) + "}\n\n" + fmt.Sprintf("func (own) %s(%s, nonce []byte) {\nuse(%s)\n}\n\n", fn, nonceParams, place("nonce[:12]"))
		case 6: // the parameter is named like others
			fn := fmt.Sprintf("wrap%d", i)
			out = head + pres + calls(fn+inst) + "}\n\n" + fmt.Sprintf("func %s(%s, iv []byte) {\nkey := []byte(\"0123456789abcdef\")\nnonce := key\nuse(nonce)\nuse(%s)\n}\n\n", fn, nonceParams, place("iv"))
			out = strings.Replace(out, "func "+fn+"(", "func "+fn+tpar+"(", 1)
		default: // unexported function, which is never called
			out = strings.Replace(head, "func Unit", "func unit", 1) + pres + mark + "use(" + place(expr) + ")\n}\n\n"
		}
		bodies[f] += out
	}
	var out []File
	imports := "import (\n\t\"crypto/cipher\"\n\t\"crypto/rand\"\n\t\"io\"\n)\n\nvar (\n\t_ cipher.AEAD\n\t_ = rand.Reader\n\t_ io.Reader\n)\n\n"
	for f := 0; f < c.Files; f++ {
		src := imports + bodies[f]
		for j, d := range b.decls {
			if j%c.Files == f {
				src += d + "\n\n"
			}
		}
		if c.Alias {
			src = strings.Replace(src, "\t\"crypto/cipher\"", "\tciph \"crypto/cipher\"", 1)
			src = strings.Replace(src, "\t\"crypto/rand\"", "\tcrand \"crypto/rand\"", 1)
			src = replaceQualifier(replaceQualifier(src, "cipher", "ciph"), "rand", "crand")
		}
		if f == 0 {
			src += "type Nonce []byte\n\ntype own struct{}\n\nfunc (own) Seal(a, b, c, d []byte) []byte { return nil }\n\nfunc (own) NewCTR(a any, b []byte) any { return nil }\n\nfunc NewCTR(a any, b []byte) any { return nil }\n\nfunc sealNewOFB(b []byte) any { return nil }\n\nfunc use(a ...any) {}\n"
			al := "cipher"
			if c.Alias {
				al = "ciph"
			}
			src += "\ntype holder struct{ aead " + al + ".AEAD }\n"
		}
		out = append(out, File{fmt.Sprintf("f%d.go", f), "package p\n\n" + src})
	}
	return unmark(out)
}

func runNonce(c nonceCase, s *Stats) error {
	m := c.build()
	res, err := MustScan(m.files, ScanOpts{Include: []string{"G407"}})
	if err != nil {
		return err
	}
	s.LabelN("constant nonces", len(m.want))
	if len(m.want) > 0 && len(m.want) < len(c.Units) {
		s.NonTrivial()
	}
	return m.compare("G407", res.Issues)
}

func init() {
	register("C28", "distinct programs with constant nonces and others", 40000, 1200000, genNonce, runNonce)
}
