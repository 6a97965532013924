package main

import (
	"fmt"
	"strings"
)

// stressFiles are programs whose size grows linearly with n, one construct each: a rule or analyzer that takes
// exponential time or unbounded depth on one of them shows as a hang or a crash.
func stressFiles(n int) map[string][]File {
	out := map[string][]File{}
	add := func(name string, pieces ...string) {
		src, _ := buildFile("p", "", append(pieces, "func use(a ...any) {}"), nil, nil)
		out[name] = []File{{"a.go", src}}
	}
	rep := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	sinks := func(v string) string {
		return "use(@{os/exec}.Command(" + v + "))\nuse(@{os}.ReadFile(" + v + "))\nuse(@{net/http}.Get(" + v + "))\nuse(db.Query(" + v + "))\nuse(db.Query(\"SELECT * FROM t WHERE a = \" + " + v + "))\nuse(db.Query(@{fmt}.Sprintf(\"SELECT * FROM t WHERE a = %s\", " + v + ")))\nuse(@{os}.Open(@{path/filepath}.Join(\"a\", " + v + ")))\nuse(@{html/template}.HTML(" + v + "))\n_ = @{syscall}.Exec(" + v + ", nil, nil)\n"
	}
	dbp := "db *@{database/sql}.DB, v0 string"
	add("concat chain", "func f("+dbp+") {\nq := \"SELECT * FROM t WHERE a = \"\n"+rep(n, func(i int) string { return "q = q + v0\nq += \"x\"\n" })+sinks("q")+"}")
	add("one concat", "func f("+dbp+") {\nq := \"SELECT * FROM t WHERE a = \""+rep(n*4, func(i int) string { return " + v0 + \"x\"" })+"\n"+sinks("q")+sinks("\"select\""+rep(n*4, func(i int) string { return " + v0 + \"x\"" }))+"}")
	add("doubling variables", "func f("+dbp+") {\n"+rep(n, func(i int) string { return fmt.Sprintf("v%d := v%d + v%d\n", i+1, i, i) })+sinks(fmt.Sprintf("v%d", n))+"}")
	add("doubling constants", "func f("+dbp+") {\nw0 := \"x\"\n"+rep(n, func(i int) string { return fmt.Sprintf("w%d := w%d + w%d\n", i+1, i, i) })+sinks(fmt.Sprintf("w%d", n))+"}")
	add("doubling package variables", "func f("+dbp+") {\n"+sinks(fmt.Sprintf("g%d", n))+"}", "var g0 = \"a\"", rep(n, func(i int) string { return fmt.Sprintf("var g%d = g%d + g%d\n", i+1, i, i) }))
	add("nested parens", "func f("+dbp+") {\nq := "+strings.Repeat("(", n)+"v0"+strings.Repeat(")", n)+"\n"+sinks("q")+"}")
	add("nested calls", "func id(s string, t ...string) string { return s }", "func f("+dbp+") {\nq := "+strings.Repeat("id(@{fmt}.Sprintf(\"%s\", ", n)+"v0"+strings.Repeat("))", n)+"\n"+sinks("q")+"}")
	add("nested closures", "func f("+dbp+") {\n"+strings.Repeat("func() {\nx := v0\nuse(x)\n", n)+sinks("v0")+strings.Repeat("}()\n", n)+"}")
	add("nested blocks", "func f("+dbp+") {\n"+strings.Repeat("if v0 != \"a\" {\nfor i := range 3 {\nuse(i, int8(i))\n", n/2)+sinks("v0")+strings.Repeat("}\n}\n", n/2)+"}")
	add("nested literals", "type T struct { F []T; P *T; Password string }", "var v = "+strings.Repeat("T{Password: \"abc\", P: &T{}, F: []T{", n)+strings.Repeat("}}", n))
	add("if chain", "func f(x int64, y int) {\n"+rep(n, func(i int) string { return fmt.Sprintf("if x > %d { y++ }\nuse(int32(x), uint8(y))\n", i) })+"}")
	add("else chain", "func f(x int64, y int) {\n"+rep(n, func(i int) string { return fmt.Sprintf("if x > %d && y < %d { use(int8(x)) } else ", i, i) })+"{\nuse(uint16(x)) }\n}")
	add("nested ifs", "func f(x int64, y int) {\n"+rep(n, func(i int) string { return fmt.Sprintf("if x < %d || y > %d {\n", 1000-i, i) })+"use(int8(x), uint8(y))\n"+strings.Repeat("}\n", n)+"}")
	add("long condition", "func f(x int64, y int) {\nif x > 0"+rep(n, func(i int) string {
		return fmt.Sprintf(" %s x < %d %s y != %d", []string{"&&", "||"}[i%2], 1000-i, []string{"&&", "||"}[i%3%2], i)
	})+" {\nuse(int8(x), uint8(y), int32(x))\n}\n}")
	add("loop nest", "func f(x int64, y int) {\n"+rep(n/4, func(i int) string {
		return fmt.Sprintf("for x < %d && y > %d {\nif x > %d { continue }\nif y == %d { break }\n", 1000-i, i, i, i)
	})+"use(int8(x), uint8(y))\nx, y = int64(y), int(x)\n"+strings.Repeat("}\n", n/4)+"}")
	add("phi cycles", "func f(s string) {\n"+rep(n/4+2, func(i int) string {
		return fmt.Sprintf("a%d, _ := @{strconv}.ParseInt(s, 10, 64)\nb%d, _ := @{strconv}.ParseUint(s, 10, 8)\n", i, i)
	})+"for a0 < 100 {\n"+rep(n/4+1, func(i int) string {
		return fmt.Sprintf("a%d, a%d = a%d, a%d\nif b%d < 3 { b%d = b%d }\nuse(int32(a%d), uint8(b%d), int8(b%d))\n", i, i+1, i+1, i, i, i, i+1, i, i, i+1)
	})+"}\n}")
	add("switch", "func f(x int64) {\nswitch x {\n"+rep(n*3, func(i int) string { return fmt.Sprintf("case %d, %d:\nuse(int8(x))\n", 2*i, 2*i+1) })+"default:\nuse(uint8(x)) }\n}")
	add("goto graph", "func f(x int64, y int) {\n"+rep(n/3+2, func(i int) string {
		return fmt.Sprintf("L%d:\nif x < %d { x++; goto L%d }\nif y > %d { y--; goto L%d }\nuse(int8(x), uint8(y))\n", i, i*3, i/2, i, i)
	})+"if x > 0 { goto L1 }\n}")
	add("recursive slices", "func qs(a []int, p int) {\nif len(a) < 2 { return }\n"+rep(n/4+2, func(i int) string {
		return fmt.Sprintf("qs(a[:p], p)\nqs(a[%d:], p)\nx%d := a[%d:]\nqs(x%d, 1)\n", i+1, i, i, i)
	})+"}", "func f() {\ns := []int{3, 1, 2, 4, 5}\nqs(s, 3)\nt := make([]int, 2, 30)\nqs(t[3:], 2)\n}")
	add("slice tree", "func f() {\ns0 := make([]int, 500)\n"+rep(n*2, func(i int) string {
		return fmt.Sprintf("s%d := s%d[1:]\nif len(s%d) > %d { use(s%d[%d]) }\n", i+1, i/2, i+1, i, i/3, i)
	})+rep(n*2, func(i int) string { return fmt.Sprintf("use(s%d)\n", i+1) })+"}")
	add("slice chain", "func f() {\ns0 := make([]int, 500)\n"+rep(n, func(i int) string { return fmt.Sprintf("s%d := s%d[1:]\n", i+1, i) })+fmt.Sprintf("use(s%d)\n}", n))
	add("slice mutual recursion", rep(n/4+2, func(i int) string {
		return fmt.Sprintf("func r%d(s []int) {\n", i) + rep(n/4+2, func(j int) string { return fmt.Sprintf("r%d(s[%d:])\n", j, i%3) }) + "use(s[4])\n}\n"
	}), "func f() { r0(make([]int, 10)) }")
	add("len conditions", "func f(x []int) {\ns := make([]int, 4)\nfor i := 0; i < 3; i++ {\nif len(s) > 0"+rep(n, func(i int) string {
		return fmt.Sprintf(" %s len(s) > %d && i < %d", []string{"&&", "||"}[i%2], i%7, i)
	})+" {\nuse(s[5])\n}\nuse(s[2:9])\n}\n}")
	add("nonce graph", rep(n/4+2, func(i int) string {
		return fmt.Sprintf("func r%d(a @{crypto/cipher}.AEAD, n []byte) {\nuse(a.Seal(nil, n, nil, nil))\n", i) + rep(n/4+2, func(j int) string { return fmt.Sprintf("r%d(a, n)\n", j) }) + "}\n"
	}), "func f(a @{crypto/cipher}.AEAD) { r0(a, []byte(\"abc\")) }")
	add("nonce chain", rep(n, func(i int) string {
		return fmt.Sprintf("func r%d(a @{crypto/cipher}.AEAD, n []byte) {\nr%d(a, n)\nr%d(a, n)\n}\n", i, i+1, i+1)
	}), fmt.Sprintf("func r%d(a @{crypto/cipher}.AEAD, n []byte) { use(a.Seal(nil, n, nil, nil)) }", n), "func f(a @{crypto/cipher}.AEAD) { r0(a, []byte(\"abc\")) }")
	add("recursive types", "type A struct { *A; B B; F func(A) A }", "type B []A", "type C[T any] struct { n *C[T]; m map[string]C[T] }", "func (a A) m() A { return a.A.m() }", "var gc C[C[C[int]]]", "func f() {\nvar a A\nuse(a"+strings.Repeat(".A", n)+".m()"+strings.Repeat(".m()", n)+", gc)\n}")
	add("comments", "func f(x int64) {\n"+rep(n*3, func(i int) string {
		return fmt.Sprintf("// #nosec G115 -- a %d\nuse(int8(x)) // #nosec G104\n/* #nosec */ use(int8(x))\n", i)
	})+"}")
	add("long line", "func f("+dbp+") {\nuse(\""+strings.Repeat("abcdefgh", 100*n)+"\"); "+strings.ReplaceAll(sinks("v0"), "\n", "; ")+"\n}")
	add("long secret", "var password = \""+strings.Repeat("aB3$x", 100*n)+"\"\n\nfunc f(p string) bool { return p == \""+strings.Repeat("Zk9", 200*n)+"\" }")
	add("range aliasing", "func f(x []int) {\n"+rep(n/3, func(i int) string { return fmt.Sprintf("for _, v%d := range x {\nuse(&v%d)\n", i, i) })+strings.Repeat("}\n", n/3)+"}")
	add("self assignment", "func f("+dbp+") {\n"+rep(n, func(i int) string { return "v0 = v0\nx := v0\nx, v0 = v0, x\nuse(x)\n{\n" })+sinks("v0")+strings.Repeat("}\n", n)+"}")
	add("initialisation cycle", "func f("+dbp+") {\n"+sinks("c0")+"}", rep(n, func(i int) string { return fmt.Sprintf("var c%d = c%d + c%d\n", i, (i+1)%n, (i+2)%n) }))
	add("constant cycle", "func f("+dbp+") {\n"+sinks("c0")+"}", rep(n, func(i int) string { return fmt.Sprintf("const c%d = c%d + c%d\n", i, (i+1)%n, (i+2)%n) }))
	add("method chain", "type D struct{}", "func (d D) And(s string) D { return d }", "func f("+dbp+") {\nvar d D\nuse(d"+strings.Repeat(".And(v0)", n*3)+")\n}")
	return out
}
