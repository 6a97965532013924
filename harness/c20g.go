package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Guarded accesses: slices of constant size whose length is compared with constants before they are accessed. An access
// for which the comparisons on its path prove that it is in range is never reported.

type slCmp struct {
	Op    string
	K     int
	Left  bool   // the constant is on the left
	Var   bool   // the length is held by a variable
	And   *slCmp // a further comparison, joined such that the access is reached when both have the same outcome
	Paren bool
	Not   bool // the negation of the opposite comparison
}

type slGuard struct {
	Kind string // if, else, return, panic
	Cmp  slCmp
}

type slGuardedFn struct {
	N      int // the size of the slice
	Param  bool
	Form   int
	Guards []slGuard
	Index  int
	Slice  bool // s[:Index] in place of s[Index]
	Loop   int  // 0: no loop, 1: in front of the access, 2: around the access, 3: a branch in front of it
	Store  bool
	From   int  // the access is to t := s[From:], unless it is 0
	Inline bool // without the variable
	OnS    bool // the comparisons are those of len(s)
}

// reached: the access is reached with slices of length n.
func (g slGuard) reached(n int) bool {
	for c := &g.Cmp; c != nil; c = c.And {
		if c.holds(n) != (g.Kind == "if") {
			return false
		}
	}
	return true
}

func (c slCmp) holds(n int) bool {
	switch c.Op {
	case "<":
		return n < c.K
	case "<=":
		return n <= c.K
	case ">":
		return n > c.K
	case ">=":
		return n >= c.K
	case "==":
		return n == c.K
	}
	return n != c.K
}

var slNegated = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

var slMirror = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

func (c slCmp) text(name, and string, pre *[]string, id *int) string {
	l := "len(" + name + ")"
	if c.Var {
		*id++
		l = fmt.Sprintf("n%d", *id)
		*pre = append(*pre, l+" := "+"len("+name+")")
	}
	t := fmt.Sprintf("%s %s %d", l, c.Op, c.K)
	if c.Left {
		t = fmt.Sprintf("%d %s %s", c.K, slMirror[c.Op], l)
	}
	if c.Paren {
		t = "(" + t + ")"
	}
	if c.Not {
		t = "!(" + fmt.Sprintf("%s %s %d", l, slNegated[c.Op], c.K) + ")"
	}
	if c.And != nil {
		t += and + c.And.text(name, and, pre, id)
	}
	return t
}

// safe: every length for which the access is reached has the index.
func (f slGuardedFn) safe() bool {
	for n := 0; n < 40; n++ {
		reached := true
		for _, g := range f.Guards {
			reached = reached && g.reached(n)
		}
		l := n
		if f.From > 0 && f.OnS {
			l -= f.From
		}
		in := f.Index < l
		if f.Slice {
			in = f.Index <= l
		}
		if reached && !in {
			return false
		}
	}
	return true
}

func (f slGuardedFn) text(k int) string {
	var open, shut []string
	id := 0
	guarded, accessed := "s", "s"
	if f.From > 0 {
		accessed = "t"
		if !f.OnS {
			guarded = "t"
		} else if f.Inline {
			accessed = fmt.Sprintf("s[%d:]", f.From)
		}
		if accessed == "t" {
			open = append(open, fmt.Sprintf("t := s[%d:]", f.From))
		}
	}
	for _, g := range f.Guards {
		var pre []string
		and := " || " // a branch which is not taken
		if g.Kind == "if" {
			and = " && "
		}
		c := g.Cmp.text(guarded, and, &pre, &id)
		open = append(open, pre...)
		switch g.Kind {
		case "if":
			open = append(open, "if "+c+" {")
			shut = append(shut, "}")
		case "else":
			open = append(open, "if "+c+" {", "use(1)", "} else {")
			shut = append(shut, "}")
		case "return":
			open = append(open, "if "+c+" {", "return", "}")
		case "panic":
			open = append(open, "if "+c+" {", `panic("short")`, "}")
		}
	}
	acc := fmt.Sprintf("%s[%d]", accessed, f.Index)
	if f.Slice {
		acc = fmt.Sprintf("%s[:%d]", accessed, f.Index)
	}
	stmt := "use(" + acc + ") /*!*/"
	if f.Store && !f.Slice {
		stmt = acc + " = 1 /*!*/"
	}
	switch f.Loop {
	case 1:
		stmt = "for i := 0; i < 3; i++ {\nuse(i)\n}\n" + stmt
	case 2:
		stmt = "for i := 0; i < 3; i++ {\n" + stmt + "\n}"
	case 3:
		stmt = "if cond() {\nuse(2)\n}\n" + stmt
	case 4:
		stmt = "if cond() {\nuse(2)\n} else {\nuse(3)\n}\nfor range 2 {\n" + stmt + "\n}"
	}
	body := strings.Join(open, "\n") + "\n" + stmt + "\n" + strings.Join(shut, "\n") + "\n"
	mk := fmt.Sprintf("make([]int, %d)", f.N)
	if f.Form == 1 {
		mk = "[]int{" + strings.Repeat("1, ", f.N) + "}"
	}
	if f.Form == 2 {
		mk = fmt.Sprintf("make([]int, %d, %d)", f.N, f.N+2)
	}
	if f.Param {
		return fmt.Sprintf("func g%d(s []int) {\n%s}\n\nfunc h%d() { g%d(%s) }\n\n", k, body, k, k, mk)
	}
	return fmt.Sprintf("func g%d() {\ns := %s\n%s}\n\n", k, mk, body)
}

func genSlCmp(t *rapid.T, near int, more bool) slCmp {
	c := slCmp{Op: sampled([]string{"<", "<=", ">", ">=", "==", "!="}).Draw(t, "op"), K: max(0, near+upTo(t, 4, "k")-2), Left: oneIn(t, 4, "left"), Var: oneIn(t, 5, "var"), Paren: oneIn(t, 8, "paren"), Not: oneIn(t, 8, "not")}
	if more && oneIn(t, 5, "and") {
		a := genSlCmp(t, near, false)
		c.And = &a
	}
	return c
}

func genSlGuarded(t *rapid.T) []slGuardedFn {
	var fns []slGuardedFn
	for i := 2 + upTo(t, 4, "fns"); i > 0; i-- {
		f := slGuardedFn{N: 1 + upTo(t, 6, "n"), Param: oneIn(t, 3, "param"), Form: upTo(t, 2, "form"), Slice: oneIn(t, 4, "slice"), Store: oneIn(t, 4, "store"), Loop: sampled([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "loop")}
		near := f.N
		if f.N > 1 && oneIn(t, 3, "derived") {
			f.From = 1 + upTo(t, f.N-2, "from")
			f.Inline, f.OnS = oneIn(t, 2, "inline"), oneIn(t, 2, "onS")
			near -= f.From
		}
		f.Index = near + upTo(t, 4, "index") - 1
		near = f.Index
		if f.OnS {
			near += f.From
		}
		for j := 1 + upTo(t, 1, "guards"); j > 0; j-- {
			f.Guards = append(f.Guards, slGuard{sampled([]string{"if", "if", "else", "return", "panic"}).Draw(t, "kind"), genSlCmp(t, near, true)})
		}
		fns = append(fns, f)
	}
	return fns
}

func runSlGuarded(fns []slGuardedFn, s *Stats) error {
	src := "package p\n\nfunc use(a ...any) {}\n\nvar counter int\n\nfunc cond() bool { return counter > 3 }\n\n"
	lines := map[int]int{}
	for k, f := range fns {
		txt := f.text(k)
		at := strings.Count(src, "\n") + 1
		for j, l := range strings.Split(txt, "\n") {
			if strings.Contains(l, "/*!*/") {
				lines[at+j] = k
			}
		}
		src += txt
	}
	r, err := MustScan([]File{{"a.go", src}}, ScanOpts{})
	if err != nil {
		return err
	}
	got := map[int]int{}
	for _, i := range r.Issues {
		if i.RuleID == "G602" {
			l, _ := lineOf(i)
			k, ok := lines[l]
			if !ok {
				return violf("G602 in line %d, which accesses no slice\n%s", l, src)
			}
			got[k]++
		}
	}
	for k, f := range fns {
		safe, out := f.safe(), f.Index >= f.N-f.From
		if f.Slice {
			out = f.Index > f.capacity()
		}
		want := 0
		if out && !safe {
			want = 1
		}
		if out {
			s.NonTrivialKey(fmt.Sprintf("g%v", f))
		}
		s.Label(fmt.Sprintf("guards prove the access: %v, beyond the size: %v", safe, out))
		if got[k] != want {
			return violf("%d findings of G602, want %d (beyond the size: %v, proved to be in range by the comparisons: %v):\n%s", got[k], want, out, safe, f.text(k))
		}
	}
	return nil
}
func (f slGuardedFn) capacity() int {
	if f.Form == 2 {
		return f.N + 2 - f.From
	}
	return f.N - f.From
}
