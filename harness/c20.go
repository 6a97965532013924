package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C20: accesses of slices of known size. The program is a list of statements which an interpreter runs with lengths and
// capacities alone.

type slBound struct {
	Set  bool
	V    int
	Form int // notation

	Unknown bool // a variable of which nothing is known
}

type slOp struct { // one access in a chain
	Index     bool
	L, H, M   slBound
	Three     bool
	Write     bool
	AddrTaken bool
}

type slStmt struct {
	Kind string // make, lit, array, access, slice, reslice, call, remake
	Var  int    // the variable assigned or accessed
	From int
	N, M int
	Form int
	Ops  []slOp
	Fn   int
	In   bool // inside a block
}

type slCase struct {
	Elem  string
	Fns   [][]slStmt // helpers with variable 0 as their parameter; the last is the main function without parameters
	Alone bool

	Before, After int // other parameters of the helpers

	Guarded []slGuardedFn // in place of all the rest
}

type slSize struct {
	n, c    int
	ok      bool
	unknown bool // not ok: never known, rather than the result of an access that is out of range
}

var slElems = map[string]string{"int": "1", "byte": "'x'", "string": `"s"`, "*int": "nil", "[2]int": "[2]int{}", "struct{ a, b string }": "struct{ a, b string }{}", "[]int": "nil", "any": "3"}

func (b slBound) text(pre *[]string, n *int) string {
	if !b.Set {
		return ""
	}
	if b.Unknown {
		return "counter"
	}
	form := b.Form
	if b.V < 0 && form != 5 {
		form = 3
	}
	switch form {
	case 1:
		return fmt.Sprintf("0x%x", b.V)
	case 2:
		return fmt.Sprintf("%d+%d", b.V/2, b.V-b.V/2)
	case 3, 5:
		*n++
		*pre = append(*pre, fmt.Sprintf("i%d := %d", *n, b.V))
		return fmt.Sprintf("i%d", *n)
	case 4:
		*n++
		*pre = append(*pre, fmt.Sprintf("const c%d = %d", *n, b.V))
		return fmt.Sprintf("c%d", *n)
	case 6:
		if b.V < 200 {
			return fmt.Sprintf("uint8(%d)", b.V)
		}
	case 7:
		*n++
		*pre = append(*pre, fmt.Sprintf("var u%d uint16 = %d", *n, b.V))
		return fmt.Sprintf("u%d", *n)
	}
	return fmt.Sprint(b.V)
}

func (o slOp) text(pre *[]string, n *int) string {
	if o.Index {
		return "[" + o.L.text(pre, n) + "]"
	}
	// constant bounds that are out of order do not compile
	if l, h, m := o.L, o.H, o.M; l.Set && h.Set && l.V > h.V || o.Three && h.V > m.V || o.Three && l.Set && l.V > m.V {
		o.L.Form, o.M.Form, o.H.Form = 3, 3, 3
	}
	s := "[" + o.L.text(pre, n) + ":" + o.H.text(pre, n)
	if o.Three {
		s += ":" + o.M.text(pre, n)
	}
	return s + "]"
}

// apply runs one access; bad means that it is out of range.
func (o slOp) apply(s slSize) (out slSize, bad bool) {
	if o.Index {
		limit := s.n
		if limit == 0 {
			limit = s.c
		}
		return slSize{}, !o.L.Unknown && (o.L.V < 0 || o.L.V >= limit)
	}
	if o.L.Unknown || o.H.Unknown {
		for _, x := range []slBound{o.L, o.H, o.M} {
			if x.Set && !x.Unknown && (x.V < 0 || x.V > s.c) {
				return slSize{}, true
			}
		}
		return slSize{unknown: true}, false
	}
	l, h, m := 0, s.n, s.c
	if o.L.Set {
		l = o.L.V
	}
	if o.H.Set {
		h = o.H.V
	}
	if o.Three {
		m = o.M.V
	}
	if l < 0 || l > h || h > m || m > s.c {
		return slSize{}, true
	}
	return slSize{h - l, m - l, true, false}, false
}

type slLine struct {
	min, max int // findings
	any      bool
}

// build writes the program and the findings expected in its lines.
func (c slCase) build() (string, map[int]slLine) {
	val := slElems[c.Elem]
	line := 1
	var b strings.Builder
	put := func(s string) int {
		at := line
		b.WriteString(s + "\n")
		line += strings.Count(s, "\n") + 1
		return at
	}
	put("package p\n\nfunc use(a ...any) {}\n\nvar counter int\n\nfunc cond() bool { return counter > 3 }\n")
	want := map[int]slLine{}
	var fns []func(slSize, int) // the effects of a call
	for k, stmts := range c.Fns {
		main := k == len(c.Fns)-1
		if main {
			put("func run() {")
		} else {
			sig := ""
			for i := 0; i < c.Before; i++ {
				sig += fmt.Sprintf("x%d int, ", i)
			}
			sig += "s0 []" + c.Elem
			for i := 0; i < c.After; i++ {
				sig += fmt.Sprintf(", y%d any", i)
			}
			put(fmt.Sprintf("func h%d(%s) {", k, sig))
		}
		type act func(vars map[int]slSize, depth int)
		var acts []act
		n := 0
		declared := map[int]bool{0: !main}
		for _, s := range stmts {
			s := s
			var pre []string
			name := fmt.Sprintf("s%d", s.Var)
			from := fmt.Sprintf("s%d", s.From)
			decl := func(v int) string {
				if declared[v] {
					return " = "
				}
				declared[v] = true
				return " := "
			}
			switch s.Kind {
			case "make":
				txt := ""
				size := slSize{s.N, s.N, true, false}
				switch s.Form {
				case 0:
					txt = fmt.Sprintf("make([]%s, %d)", c.Elem, s.N)
				case 1:
					txt = fmt.Sprintf("make([]%s, %d, %d)", c.Elem, s.N, s.N+s.M)
					size.c += s.M
				case 2:
					txt = fmt.Sprintf("[]%s{", c.Elem) + strings.Repeat(val+", ", s.N) + "}"
				case 3:
					txt = fmt.Sprintf("[]%s{%d: %s}", c.Elem, s.N, val)
					size = slSize{s.N + 1, s.N + 1, true, false}
				case 4:
					put(fmt.Sprintf("var a%d [%d]%s", n, s.N, c.Elem))
					txt = fmt.Sprintf("a%d[:]", n)
					n++
				case 5:
					txt = fmt.Sprintf("new([%d]%s)[:]", s.N, c.Elem)
				case 6:
					put(fmt.Sprintf("a%d := [...]%s{%s}", n, c.Elem, strings.Repeat(val+", ", s.N)))
					lo := min(s.M, s.N)
					txt = fmt.Sprintf("a%d[%d:]", n, lo)
					size = slSize{s.N - lo, s.N - lo, true, false}
					n++
				case 7:
					put(fmt.Sprintf("type A%d [%d]%s\nvar a%d A%d", n, s.N, c.Elem, n, n))
					lo := s.N / 2
					txt = fmt.Sprintf("a%d[:%d]", n, lo)
					size = slSize{lo, s.N, true, false}
					n++
				}
				at := put(name + decl(s.Var) + txt)
				want[at] = slLine{}
				acts = append(acts, func(v map[int]slSize, _ int) { v[s.Var] = size })
			case "access", "slice":
				txt := from
				for _, o := range s.Ops {
					txt += o.text(&pre, &n)
				}
				for _, p := range pre {
					put(p)
				}
				last := s.Ops[len(s.Ops)-1]
				switch {
				case s.Kind == "slice":
					txt = name + decl(s.Var) + txt
				case last.Index && last.Write:
					txt += " = " + val
				case last.Index && last.AddrTaken:
					txt = "use(&" + txt + ")"
				case s.Form == 1:
					txt = "_ = " + txt
				case s.Form == 2:
					txt = "defer use(" + txt + ")"
				case s.Form == 3:
					txt = "if cond() { use(" + txt + ") }"
				case s.Form == 4:
					txt = "for cond() { use(" + txt + ") }"
				case s.Form == 5 && last.Index:
					txt = "for i := 0; i < 3; i++ { use(" + txt + ", i) }"
				default:
					txt = "use(" + txt + ")"
				}
				at := put(txt)
				acts = append(acts, func(v map[int]slSize, _ int) {
					w := want[at]
					cur := v[s.From]
					if !cur.ok {
						w.any = w.any || !cur.unknown
					} else {
						for k, o := range s.Ops {
							if !cur.ok {
								break
							}
							next, bad := o.apply(cur)
							if bad {
								w.min = 1
								w.max = 1
								w.any = w.any || k < len(s.Ops)-1
								next = slSize{}
							}
							if cur = next; bad {
								break
							}
						}
					}
					want[at] = w
					if s.Kind == "slice" {
						v[s.Var] = cur
					}
				})
			case "call":
				txt := from
				for _, o := range s.Ops {
					txt += o.text(&pre, &n)
				}
				for _, p := range pre {
					put(p)
				}
				at := put(fmt.Sprintf("h%d(%s%s%s)", s.Fn, strings.Repeat("7, ", c.Before), txt, strings.Repeat(", 3", c.After)))
				f := fns[s.Fn]
				acts = append(acts, func(v map[int]slSize, depth int) {
					cur := v[s.From]
					w := want[at]
					w.any = w.any || !cur.ok && !cur.unknown
					for _, o := range s.Ops {
						if !cur.ok {
							break
						}
						next, bad := o.apply(cur)
						if bad {
							w.min, w.max = 1, 1
						}
						cur = next
					}
					want[at] = w
					f(cur, depth+1)
				})
			}
		}
		// every variable is used
		for v := range declared {
			if declared[v] {
				put(fmt.Sprintf("use(s%d)", v))
			}
		}
		put("}\n")
		fns = append(fns, func(p slSize, depth int) {
			v := map[int]slSize{0: p}
			for _, a := range acts {
				a(v, depth)
			}
		})
		fns[len(fns)-1](slSize{unknown: true}, 0)
	}
	return b.String(), want
}

func genBound(t *rapid.T, near int) slBound {
	b := slBound{Set: true, Form: upTo(t, 7, "form")}
	switch upTo(t, 4, "k") {
	case 0:
		b.V = upTo(t, 20, "v")
	case 1:
		b.V = near
	case 2:
		b.V = near + 1
	case 3:
		b.V = max(0, near-1)
	case 4:
		b.V = upTo(t, max(near, 1), "below")
	}
	if oneIn(t, 30, "neg") {
		b.V, b.Form = -1-b.V%3, 3
	}
	return b
}

func genSlOps(t *rapid.T, s slSize, index bool, n int) ([]slOp, slSize) {
	var ops []slOp
	for i := 0; i < n; i++ {
		last := i == n-1
		o := slOp{Index: index && last}
		near := s.n
		if oneIn(t, 2, "cap") {
			near = s.c
		}
		if o.Index {
			o.L = genBound(t, near)
			o.Write, o.AddrTaken = oneIn(t, 4, "write"), oneIn(t, 4, "addr")
		} else {
			switch upTo(t, 4, "sform") {
			case 0:
				o.L = genBound(t, near)
			case 1, 4:
				o.H = genBound(t, near)
			case 2:
				o.L, o.H = genBound(t, near/2), genBound(t, near)
			case 3:
				o.Three = true
				o.H, o.M = genBound(t, s.n), genBound(t, near)
				if oneIn(t, 2, "lo") {
					o.L = genBound(t, 0)
				}
			}
		}
		if !o.Three && oneIn(t, 12, "unknown") {
			if o.H.Set && (!o.L.Set || oneIn(t, 2, "high")) {
				o.H.Unknown = true
			} else if o.L.Set {
				o.L.Unknown = true
			}
		}
		ops = append(ops, o)
		if s.ok {
			s, _ = o.apply(s)
		}
	}
	return ops, s
}

func genSl(t *rapid.T) slCase {
	if oneIn(t, 4, "guarded") {
		return slCase{Guarded: genSlGuarded(t)}
	}
	c := slCase{Elem: sampled(sortedKeys(slElems)).Draw(t, "elem")}
	helpers := upTo(t, 2, "helpers")
	if oneIn(t, 3, "parameters") {
		c.Before, c.After = upTo(t, 3, "before"), upTo(t, 3, "after")
	}
	for k := 0; k <= helpers; k++ {
		main := k == helpers
		sizes := map[int]slSize{}
		if !main {
			n := upTo(t, 8, "guess")
			sizes[0] = slSize{n, n + upTo(t, 4, "more"), true, false}
		}
		var st []slStmt
		for n := 2 + upTo(t, 10, "stmts"); n > 0; n-- {
			kind := sampled([]string{"make", "access", "access", "slice", "slice", "call"}).Draw(t, "kind")
			var have []int
			for v := 0; v < 6; v++ {
				if _, ok := sizes[v]; ok {
					have = append(have, v)
				}
			}
			if len(have) == 0 {
				kind = "make"
			}
			if kind == "call" && k == 0 {
				kind = "access"
			}
			s := slStmt{Kind: kind}
			if len(have) > 0 {
				s.From = sampled(have).Draw(t, "from")
			}
			cur := sizes[s.From]
			switch kind {
			case "make":
				s.Form, s.N, s.M = upTo(t, 7, "mform"), sampled([]int{0, 1, 2, 3, 4, 5, 8, 10, 17}).Draw(t, "n"), upTo(t, 6, "m")
				if s.Var = upTo(t, 4, "var"); !main {
					s.Var++
				}
				sz := slSize{s.N, s.N, true, false}
				if s.Form == 1 {
					sz.c += s.M
				} else if s.Form == 6 {
					sz.n -= min(s.M, s.N)
					sz.c = sz.n
				} else if s.Form == 7 {
					sz.n /= 2
				}
				sizes[s.Var] = sz
			case "access":
				s.Form = upTo(t, 7, "aform")
				s.Ops, _ = genSlOps(t, cur, !oneIn(t, 4, "noindex"), 1+upTo(t, 2, "chain")/2)
			case "slice":
				var sz slSize
				s.Ops, sz = genSlOps(t, cur, false, 1+upTo(t, 3, "chain")/3)
				if s.Var = upTo(t, 4, "var"); !main {
					s.Var++
				}
				sizes[s.Var] = sz
			case "call":
				s.Fn = upTo(t, k-1, "fn")
				s.Ops, _ = genSlOps(t, cur, false, upTo(t, 1, "chain"))
			}
			st = append(st, s)
		}
		c.Fns = append(c.Fns, st)
	}
	return c
}

func runSl(c slCase, s *Stats) error {
	if c.Guarded != nil {
		return runSlGuarded(c.Guarded, s)
	}
	src, want := c.build()
	r, err := MustScan([]File{{"a.go", src}}, ScanOpts{})
	if err != nil {
		return err
	}
	got := map[int]int{}
	for _, i := range r.Issues {
		if i.RuleID == "G602" {
			l, _ := lineOf(i)
			got[l]++
		}
	}
	ls := strings.Split(src, "\n")
	checked := 0
	for l, n := range got {
		if _, ok := want[l]; !ok {
			return violf("%d findings of G602 in line %d, which accesses no slice: %s\n%s", n, l, ls[l-1], src)
		}
	}
	for l, w := range want {
		if w.min == 1 {
			s.Label("out of range")
			checked++
		} else if !w.any {
			s.Label("in range")
		}
		n := got[l]
		if n < w.min || n > w.max && !w.any {
			return violf("%d findings of G602 in line %d instead of %d: %s\n%s", n, l, w.min, ls[l-1], src)
		}
	}
	if checked > 0 {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C20", "distinct programs with an access that is out of range", 80000, 2000000, genSl, runSl)
}
