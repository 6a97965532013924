package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C19: integer conversions. The functions of a generated program convert a parameter (or another value) behind guards;
// which values reach the conversion is decided by evaluating the guards over all boundary values.

type cmpCond struct {
	Op   string // < <= > >= == != && || !
	C    string // constant of a comparison
	Flip bool   // constant first
	L, R *cmpCond
}

type convStep struct {
	Kind string
	C    cmpCond
	D    *cmpCond
}

type convFn struct {
	Src, Dst string
	Origin   string
	C        string // value of a constant, size of a parsed number
	Steps    []convStep
	Derived  string // what is added to the guarded value
}

type convCase struct{ Fns []convFn }

type intRange struct{ lo, hi *big.Int }

var intNames = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune"}

func rangeOf(t string) intRange {
	bits := map[string]uint{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "byte": 8, "rune": 32}[t]
	one := big.NewInt(1)
	if t[0] == 'u' || t == "byte" {
		return intRange{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)}
	}
	h := new(big.Int).Lsh(one, bits-1)
	return intRange{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}
}

func (r intRange) has(v *big.Int) bool { return r.lo.Cmp(v) <= 0 && v.Cmp(r.hi) <= 0 }

func bigOf(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("no number: " + s)
	}
	return v
}

func (c *cmpCond) text(x string) string {
	switch c.Op {
	case "&&", "||":
		return "(" + c.L.text(x) + " " + c.Op + " " + c.R.text(x) + ")"
	case "!":
		return "!(" + c.L.text(x) + ")"
	}
	if c.Flip {
		return c.C + " " + c.Op + " " + x
	}
	return x + " " + c.Op + " " + c.C
}

// convex tells if the values for which the condition has the given result have no gap.
func (c *cmpCond) convex(result bool, src intRange) bool {
	switch c.Op {
	case "!":
		return c.L.convex(!result, src)
	case "&&", "||":
		if !c.L.convex(result, src) || !c.R.convex(result, src) {
			return false
		}
		if (c.Op == "&&") == result {
			return true
		}
		var cs []*big.Int
		c.consts(&cs)
		prev, gap := false, false
		for _, v := range candidates(append(cs, src.lo, src.hi), src) {
			in := c.eval(v) == result
			if in && gap {
				return false
			}
			gap = gap || prev && !in
			prev = in
		}
		return true
	}
	return (c.Op == "!=") != result || c.Op != "==" && c.Op != "!="
}

// candidates returns the values at and next to the given ones, in order.
func candidates(vs []*big.Int, r intRange) []*big.Int {
	seen := map[string]*big.Int{}
	for _, v := range vs {
		for d := int64(-1); d <= 1; d++ {
			if w := new(big.Int).Add(v, big.NewInt(d)); r.has(w) {
				seen[w.String()] = w
			}
		}
	}
	var out []*big.Int
	for _, v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

func (c *cmpCond) eval(v *big.Int) bool {
	switch c.Op {
	case "&&":
		return c.L.eval(v) && c.R.eval(v)
	case "||":
		return c.L.eval(v) || c.R.eval(v)
	case "!":
		return !c.L.eval(v)
	}
	n := v.Cmp(bigOf(c.C))
	if c.Flip {
		n = -n
	}
	switch c.Op {
	case "<":
		return n < 0
	case "<=":
		return n <= 0
	case ">":
		return n > 0
	case ">=":
		return n >= 0
	case "==":
		return n == 0
	}
	return n != 0
}

func (c *cmpCond) consts(out *[]*big.Int) {
	if c.L != nil {
		c.L.consts(out)
	}
	if c.R != nil {
		c.R.consts(out)
	}
	if c.C != "" {
		*out = append(*out, bigOf(c.C))
	}
}

// effective steps: those after the last assignment.
func (f *convFn) effective() []convStep {
	st := f.Steps
	for k := len(st) - 1; k >= 0; k-- {
		if st[k].Kind == "reassign" {
			return st[k+1:]
		}
	}
	return st
}

// wants returns the results that the conditions of a step must have.
func (s *convStep) wants() (c, d int) {
	switch s.Kind {
	case "accept", "switch", "for", "boolvar", "valswitch", "closure":
		return 1, 0
	case "reject", "panic", "else", "continue", "break":
		return -1, 0
	case "elseif":
		return -1, 1
	}
	return 0, 0
}

func (f *convFn) passes(v *big.Int) bool {
	for _, s := range f.effective() {
		c, d := s.wants()
		if c != 0 && s.C.eval(v) != (c > 0) || d != 0 && s.D.eval(v) != (d > 0) {
			return false
		}
	}
	return true
}

// opaque conditions are those which no single branch decides.
func (c *cmpCond) opaque() bool { return c.Op == "&&" || c.Op == "||" || c.Op == "!" && c.L.opaque() }

// verdict: 1 the conversion must be reported, 0 it must not be, -1 either way: it is never reached, or only comparisons
// that leave gaps exclude the overflow.
func (f *convFn) verdict() int {
	src, dst := rangeOf(f.Src), rangeOf(f.Dst)
	full := src
	for n := range f.Steps { // an assignment that is never reached
		if f.Steps[n].Kind == "reassign" && (&convFn{Src: f.Src, Dst: f.Src, Steps: f.Steps[:n]}).unreached() {
			if dst.has(full.lo) && dst.has(full.hi) {
				return 0
			}
			return -1
		}
	}
	switch {
	case f.Derived != "" || f.Origin == "ownparse" && f.effective() == nil:
	case f.Origin == "const" && len(f.Steps) == len(f.effective()):
		src = intRange{bigOf(f.C), bigOf(f.C)}
	case len(f.Steps) != len(f.effective()):
	case f.Origin == "len" || f.Origin == "cap":
		src.lo = big.NewInt(0)
	case f.Origin == "parse":
		n, _ := strconv.Atoi(f.C)
		if n == 0 {
			n = 64
		}
		one := big.NewInt(1)
		if f.Src == "uint64" {
			src = intRange{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)}
		} else {
			h := new(big.Int).Lsh(one, uint(n-1))
			src = intRange{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}
		}
	}
	if f.Derived != "" { // anything can come out of the sum
		if dst.has(full.lo) && dst.has(full.hi) {
			return 0
		}
		for _, s := range f.effective() { // unless the sum is not reached
			if c, d := s.wants(); c != 0 || d != 0 {
				reached := false
				var cs []*big.Int
				for _, s := range f.effective() {
					s.C.consts(&cs)
					if s.D != nil {
						s.D.consts(&cs)
					}
				}
				for _, v := range candidates(append(cs, src.lo, src.hi), src) {
					reached = reached || f.passes(v)
				}
				if !reached {
					return -1
				}
			}
		}
		return 1
	}
	cand := []*big.Int{src.lo, src.hi, dst.lo, dst.hi}
	exact := true
	for _, s := range f.effective() {
		c, d := s.wants()
		s.C.consts(&cand)
		if c != 0 {
			exact = exact && s.C.convex(c > 0, src)
		}
		if d != 0 {
			s.D.consts(&cand)
			exact = exact && s.D.convex(d > 0, src)
		}
		if (s.Kind == "switch" || s.Kind == "boolvar") && s.C.opaque() {
			exact = false
		}
	}
	reached := false
	for _, v := range candidates(cand, src) {
		if !f.passes(v) {
			continue
		}
		reached = true
		if !dst.has(v) {
			return 1
		}
	}
	if dst.has(full.lo) && dst.has(full.hi) {
		return 0 // whatever the guards
	}
	if !reached || !exact {
		return -1
	}
	return 0
}

func (f *convFn) unreached() bool {
	r := rangeOf(f.Src)
	cs := []*big.Int{r.lo, r.hi}
	for _, s := range f.effective() {
		s.C.consts(&cs)
		if s.D != nil {
			s.D.consts(&cs)
		}
	}
	for _, v := range candidates(cs, r) {
		if f.passes(v) {
			return false
		}
	}
	return true
}

// text of the function.
func (f *convFn) text(n int) string {
	var b strings.Builder
	x := "x"
	src := f.Src
	param := "x " + src
	pre := ""
	switch f.Origin {
	case "named":
		src = fmt.Sprintf("T%d", n)
		param = "x " + src
		fmt.Fprintf(&b, "type %s %s\n", src, f.Src)
	case "len", "cap":
		param, pre = "s []string", "x := "+f.Origin+"(s)\n"
	case "call":
		param, pre = "", fmt.Sprintf("x := get%s()\n", f.Src)
	case "const":
		param, pre = "", fmt.Sprintf("var x %s = %s\n", f.Src, f.C)
	case "sum":
		param, pre = fmt.Sprintf("a, b %s", f.Src), "x := a + b\n"
	case "elem":
		param, pre = fmt.Sprintf("a []%s", f.Src), "x := a[0]\n"
	case "phi":
		param, pre = fmt.Sprintf("a, b %s", f.Src), "x := a\nif cond() {\nx = b\n}\n"
	case "parse":
		param, pre = "s string", fmt.Sprintf("x, _ := strconv.%s(s, 10, %s)\n", map[string]string{"int64": "ParseInt", "uint64": "ParseUint"}[f.Src], f.C)
	case "ownparse":
		param, pre = "s string", fmt.Sprintf("x, _ := %s(s, 10, 8)\n", map[string]string{"int64": "ParseInt", "uint64": "ParseUint"}[f.Src])
	case "field":
		fmt.Fprintf(&b, "type S%d struct { v %s; w %s }\n", n, f.Src, f.Src)
		param, x = fmt.Sprintf("s *S%d", n), "s.v"
	case "local":
		fmt.Fprintf(&b, "type S%d struct { v %s; w %s }\n", n, f.Src, f.Src)
		param, pre, x = "", fmt.Sprintf("s := S%d{v: get%s()}\nuse(&s)\n", n, f.Src), "s.v"
	case "captured":
		pre = "defer func() { use(x) }()\n"
	}
	y := "y"
	if f.Origin == "field" || f.Origin == "local" {
		y = "s.w"
	}
	if param != "" {
		param += ", "
	}
	fmt.Fprintf(&b, "func f%d(%sy %s) (r %s) {\n%s", n, param, src, f.Dst, pre)
	closers := ""
	for k, s := range f.Steps {
		c := s.C.text(x)
		switch s.Kind {
		case "accept":
			b.WriteString("if " + c + " {\n")
			closers = "}\n" + closers
		case "switch":
			b.WriteString("switch {\ncase " + c + ":\n")
			closers = "}\n" + closers
		case "valswitch":
			b.WriteString("switch " + x + " {\ncase " + s.C.C + ":\n")
			closers = "}\n" + closers
		case "for":
			b.WriteString("for " + c + " {\n")
			closers = "break\n}\n" + closers
		case "boolvar":
			fmt.Fprintf(&b, "ok%d := %s\nif ok%d {\n", k, c, k)
			closers = "}\n" + closers
		case "reject":
			b.WriteString("if " + c + " {\nreturn 0\n}\n")
		case "panic":
			b.WriteString("if " + c + " {\npanic(1)\n}\n")
		case "else":
			b.WriteString("if " + c + " {\nr = 1\n} else {\n")
			closers = "}\n" + closers
		case "elseif":
			b.WriteString("if " + c + " {\nr = 1\n} else if " + s.D.text(x) + " {\n")
			closers = "} else {\nr = 2\n}\n" + closers
		case "continue":
			fmt.Fprintf(&b, "for i%d := 0; i%d < 3; i%d++ {\nif %s {\ncontinue\n}\n", k, k, k, c)
			closers = "}\n" + closers
		case "break":
			fmt.Fprintf(&b, "for i%d := 0; i%d < 3; i%d++ {\nif %s {\nbreak\n}\n", k, k, k, c)
			closers = "}\n" + closers
		case "noop":
			b.WriteString("if " + c + " {\nr++\n}\n")
		case "noopelse":
			b.WriteString("if " + c + " {\nr++\n} else {\nr--\n}\n")
		case "noopfor":
			b.WriteString("for " + c + " {\nr++\nif cond() {\nbreak\n}\n}\n")
		case "other":
			b.WriteString("if " + s.C.text(y) + " {\nreturn 0\n}\n")
		case "reassign":
			fmt.Fprintf(&b, "%s = %s(get%s())\n", x, src, f.Src)
		}
	}
	b.WriteString("\tr = " + f.Dst + "(" + x + f.Derived + ") /*!*/\n" + closers + "return r\n}\n")
	return b.String()
}

func genConst(t *rapid.T, src string) string {
	r := rangeOf(src)
	for {
		var v *big.Int
		switch upTo(t, 3, "ck") {
		case 0:
			v = big.NewInt(int64(upTo(t, 300, "small")) - 100)
		default:
			b := rangeOf(sampled(intNames).Draw(t, "bound"))
			v = b.lo
			if oneIn(t, 2, "hi") || r.lo.Sign() == 0 {
				v = b.hi
			}
			v = new(big.Int).Add(v, big.NewInt(int64(upTo(t, 4, "d"))-2))
		}
		if r.has(v) {
			return v.String()
		}
	}
}

func genCmp(t *rapid.T, src string, depth int) cmpCond {
	if depth > 0 {
		if oneIn(t, 8, "not") {
			l := genCmp(t, src, depth-1)
			return cmpCond{Op: "!", L: &l}
		}
		l, r := genCmp(t, src, depth-1), genCmp(t, src, depth-1)
		return cmpCond{Op: sampled([]string{"&&", "||"}).Draw(t, "bool"), L: &l, R: &r}
	}
	return cmpCond{Op: sampled([]string{"<", "<=", ">", ">=", "==", "!="}).Draw(t, "op"), C: genConst(t, src), Flip: oneIn(t, 4, "flip")}
}

var convKinds = []string{"accept", "accept", "reject", "reject", "panic", "else", "elseif", "switch", "valswitch", "for", "boolvar", "continue", "break", "noop", "noopelse", "noopfor", "other", "reassign"}

func genConvFn(t *rapid.T) convFn {
	f := convFn{Src: sampled(intNames).Draw(t, "src"), Dst: sampled(intNames).Draw(t, "dst")}
	f.Origin = sampled([]string{"param", "param", "param", "named", "len", "cap", "call", "sum", "const", "elem", "phi", "parse", "ownparse", "field", "local", "captured"}).Draw(t, "origin")
	switch f.Origin {
	case "len", "cap":
		f.Src = "int"
	case "parse", "ownparse":
		f.Src = sampled([]string{"int64", "uint64"}).Draw(t, "psrc")
		f.C = sampled([]string{"0", "8", "16", "32", "64", "7", "31", "1", "33"}).Draw(t, "size")
	case "const":
		f.C = genConst(t, f.Src)
		return f
	}
	for n := sampled([]int{0, 1, 1, 1, 2, 2, 3}).Draw(t, "steps"); n > 0; n-- {
		s := convStep{Kind: sampled(convKinds).Draw(t, "kind")}
		s.C = genCmp(t, f.Src, sampled([]int{0, 0, 1}).Draw(t, "depth"))
		if s.Kind == "elseif" {
			d := genCmp(t, f.Src, 0)
			s.D = &d
		}
		if s.Kind == "valswitch" {
			s.C = cmpCond{Op: "==", C: genConst(t, f.Src)}
		}
		f.Steps = append(f.Steps, s)
	}
	if oneIn(t, 12, "derived") {
		f.Derived = " + 1"
	}
	return f
}

func (c *cmpCond) form() string {
	switch c.Op {
	case "&&", "||":
		return "(" + c.L.form() + c.Op + c.R.form() + ")"
	case "!":
		return "!" + c.L.form()
	}
	if c.Flip {
		return "c" + c.Op + "x"
	}
	return "x" + c.Op + "c"
}

func (f *convFn) steps() (s string) {
	for _, x := range f.Steps {
		s += x.Kind + " "
	}
	return
}

func genConv(t *rapid.T) convCase {
	var c convCase
	for n := 1 + upTo(t, 15, "n"); n > 0; n-- {
		c.Fns = append(c.Fns, genConvFn(t))
	}
	return c
}

func runConv(c convCase, s *Stats) error {
	src := "package p\nimport \"strconv\"\nvar _ = strconv.Itoa\nfunc cond() bool { return counter > 3 }\nvar counter int\nfunc use(a ...any) {}\nfunc ParseInt(s string, b int, n int) (int64, error) { return vint64, nil }\nfunc ParseUint(s string, b int, n int) (uint64, error) { return vuint64, nil }\n"
	for _, ty := range intNames {
		src += fmt.Sprintf("var v%s %s\nfunc get%s() %s { return v%s }\n", ty, ty, ty, ty, ty)
	}
	lines := map[int]int{}
	for k := range c.Fns {
		txt := c.Fns[k].text(k)
		at := strings.Count(src, "\n") + 1
		for j, l := range strings.Split(txt, "\n") {
			if strings.Contains(l, "/*!*/") {
				lines[at+j] = k
			}
		}
		src += txt
	}
	r, err := MustScan([]File{{"a.go", src}}, ScanOpts{})
	if err != nil {
		return err
	}
	got := map[int]int{}
	for _, i := range r.Issues {
		if i.RuleID != "G115" {
			continue
		}
		l, _ := lineOf(i)
		k, ok := lines[l]
		if !ok {
			return violf("G115 at line %d, where there is no conversion\n%s", l, src)
		}
		got[k]++
	}
	for k := range c.Fns {
		f := &c.Fns[k]
		v := f.verdict()
		if v >= 0 && v != got[k] {
			return violf("%d findings instead of %d for the conversion in\n%s", got[k], v, f.text(k))
		}
		if v >= 0 && (len(f.Steps) > 0 || f.Origin != "param") {
			s.NonTrivialKey(fmt.Sprint(f.text(0)))
			s.Label(fmt.Sprintf("origin %s, reported: %d", f.Origin, v))
			for _, x := range f.Steps {
				s.Label(fmt.Sprintf("guard %s, reported: %d", x.Kind, v))
			}
		}
	}
	return nil
}

// enumConv: every pair of types without a guard, and behind one comparison with the bounds of the destination.
func enumConv(tier string) []convCase {
	var fns []convFn
	for _, src := range intNames {
		for _, dst := range intNames {
			for _, o := range []string{"param", "named", "call", "sum"} {
				fns = append(fns, convFn{Src: src, Dst: dst, Origin: o})
			}
			r, d := rangeOf(src), rangeOf(dst)
			for _, v := range candidates([]*big.Int{d.lo, d.hi, big.NewInt(0)}, r) {
				fns = append(fns, convFn{Src: src, Dst: dst, Origin: "const", C: v.String()})
				for k, op := range []string{"<", "<=", ">", ">=", "==", "!="} {
					kinds := []string{"accept", "reject"}
					if tier == "thorough" {
						kinds = []string{"accept", "reject", "else", "for", "break", "noop", "switch"}
					}
					for _, kind := range kinds {
						f := convFn{Src: src, Dst: dst, Origin: "param", Steps: []convStep{{Kind: kind, C: cmpCond{Op: op, C: v.String(), Flip: k%2 == len(fns)%2}}}}
						if f.Origin = "param"; r.lo.Sign() < 0 && d.lo.Sign() == 0 && d.hi.Cmp(v) <= 0 { // the other bound
							f.Steps = append(f.Steps, convStep{Kind: "reject", C: cmpCond{Op: "<", C: "0"}})
						} else if r.lo.Cmp(d.lo) < 0 && v.Sign() > 0 {
							f.Steps = append(f.Steps, convStep{Kind: "accept", C: cmpCond{Op: "<=", C: d.lo.String(), Flip: true}})
						} else if r.hi.Cmp(d.hi) > 0 && v.Sign() <= 0 {
							f.Steps = append(f.Steps, convStep{Kind: "reject", C: cmpCond{Op: ">", C: d.hi.String()}})
						}
						fns = append(fns, f)
					}
				}
			}
		}
	}
	var cs []convCase
	for len(fns) > 0 {
		n := min(40, len(fns))
		cs, fns = append(cs, convCase{fns[:n]}), fns[n:]
	}
	return cs
}

func init() {
	register("C19", "distinct functions with a decided conversion that is guarded or not of a parameter", 24000, 800000, genConv, runConv, enumerate(enumConv))
}
