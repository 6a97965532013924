package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C18: permission rules. Each program holds a list of calls with literal modes; the oracle is bit arithmetic.

type permCall struct {
	Fn   string // "os.Mkdir", ...
	Mode int64
	Form int // notation

	Unknown int // a variable in place of the literal
}

type permCase struct {
	Calls  []permCall
	Max    map[string]string // rule -> configured maximum, as written
	AsInt  bool              // maxima given as numbers (library configuration)
	Alias  string
	Values map[string]int64 // value of the configured maxima
}

var permFns = map[string]string{"os.Mkdir": "G301", "os.MkdirAll": "G301", "os.OpenFile": "G302", "os.Chmod": "G302", "os.WriteFile": "G306", "ioutil.WriteFile": "G306", "os.Create": "G307",
	// calls no rule lists
	"os.CreateTemp": "", "os.Remove": "", "f.Chmod": "", "own.Mkdir": "", "own.OpenFile": "", "WriteFile": "", "os.Getenv": "", "os.Truncate": "", "syscall.Chmod": "", "syscall.Mkdir": "", "ioutil.ReadFile": ""}

var permArgs = map[string]string{"os.Mkdir": `"d", %s`, "os.MkdirAll": `name, %s`, "os.OpenFile": `name, os.O_RDWR|os.O_CREATE, %s`, "os.Chmod": `name, %s`, "os.WriteFile": `"/a/b", data, %s`,
	"ioutil.WriteFile": `name, []byte("x"), %s`, "os.Create": `name`, "os.CreateTemp": `"d", "0777"`, "os.Remove": `"0777"`, "f.Chmod": `%s`, "own.Mkdir": `"d", %s`, "own.OpenFile": `"d", 0, %s`, "WriteFile": `name, data, %s`,
	"os.Getenv": `"x"`, "os.Truncate": "name, %s", "syscall.Chmod": "name, %s", "syscall.Mkdir": "name, %s", "ioutil.ReadFile": "name"}

var permDefault = map[string]int64{"G301": 0o750, "G302": 0o600, "G306": 0o600, "G307": 0o666}

// notation writes a number as an integer literal; form 9 is os.ModePerm.
func notation(v int64, form int) string {
	under := func(s string, pre string) string {
		// an underscore between two digits or behind the prefix
		if len(s) < 2 {
			return pre + s
		}
		return pre + s[:len(s)/2] + "_" + s[len(s)/2:]
	}
	switch form {
	case 0:
		return fmt.Sprintf("0%o", v)
	case 1:
		return fmt.Sprintf("0o%o", v)
	case 2:
		return fmt.Sprintf("0O%o", v)
	case 3:
		return fmt.Sprintf("0x%x", v)
	case 4:
		return fmt.Sprintf("0X%X", v)
	case 5:
		return fmt.Sprintf("%d", v)
	case 6:
		return fmt.Sprintf("0b%b", v)
	case 7:
		return under(fmt.Sprintf("%b", v), "0B_")
	case 8:
		return under(fmt.Sprintf("%o", v), "0")
	case 10:
		return under(fmt.Sprintf("%x", v), "0x_")
	case 11:
		return fmt.Sprintf("000%o", v)
	}
	return under(fmt.Sprintf("%o", v), "0o_")
}

func genMode(t *rapid.T) int64 {
	switch upTo(t, 9, "kind") {
	case 0, 1, 2:
		return int64(upTo(t, 0o777, "mode"))
	case 3, 4, 5: // a default with one bit set or cleared
		v := sampled([]int64{0o750, 0o600, 0o666}).Draw(t, "def")
		return v ^ 1<<upTo(t, 8, "bit")
	case 6:
		return sampled([]int64{0o750, 0o600, 0o666, 0, 0o777, 0o640, 0o644, 0o700, 0o755, 0o400}).Draw(t, "usual")
	case 7:
		return int64(upTo(t, 0o7777, "special"))
	case 8: // subset of a default
		return sampled([]int64{0o750, 0o600, 0o666}).Draw(t, "sup") & int64(upTo(t, 0o777, "mask"))
	}
	return int64(upTo(t, 1<<31-1, "big"))
}

func genPerm(t *rapid.T) permCase {
	c := permCase{Max: map[string]string{}, Values: map[string]int64{}}
	fns := sortedKeys(permFns)
	n := 1 + upTo(t, 14, "calls")
	for i := 0; i < n; i++ {
		c.Calls = append(c.Calls, permCall{sampled(fns).Draw(t, "fn"), genMode(t), upTo(t, 12, "form"), max(0, upTo(t, 14, "unknown")-12)})
	}
	c.AsInt = oneIn(t, 4, "asint")
	for _, r := range []string{"G301", "G302", "G306", "G307"} {
		if !oneIn(t, 2, "conf") {
			continue
		}
		v := genMode(t)
		form := upTo(t, 11, "cform")
		if form == 9 {
			form = 0
		}
		c.Max[r], c.Values[r] = notation(v, form), v
		if !c.AsInt && oneIn(t, 8, "bad") {
			c.Max[r], c.Values[r] = sampled([]string{"0o9", "", "rw-r-----", "0600 ", "600x"}).Draw(t, "badmax"), permDefault[r]
		}
	}
	c.Alias = sampled([]string{"", "", "o", "_os", "system"}).Draw(t, "alias")
	return c
}

// build writes the program; want lists the rule and line of every call to report.
func (c permCase) build() (src string, want []string) {
	var b strings.Builder
	osn := "os"
	imp := `"os"`
	if c.Alias != "" {
		osn, imp = c.Alias, c.Alias+` "os"`
	}
	b.WriteString("package p\n\nimport (\n\t" + imp + "\n\t\"io/ioutil\"\n\t\"syscall\"\n)\n\ntype fake struct{ ModePerm " + osn + ".FileMode }\n\nfunc (fake) Mkdir(a string, m int64) error { return nil }\nfunc (fake) OpenFile(a string, f int, m int64) error { return nil }\n\nfunc WriteFile(a string, b []byte, m int64) error { return nil }\n\nvar _ = ioutil.Discard\nvar _ = syscall.Getpid\nvar _ = " + osn + ".Args\n\nfunc run(name string, data []byte, f *" + osn + ".File, own fake, mode " + osn + ".FileMode) {\n")
	line := strings.Count(b.String(), "\n") + 1
	for _, k := range c.Calls {
		rule := permFns[k.Fn]
		mode, lit := k.Mode, notation(k.Mode, k.Form)
		if k.Form == 9 && (rule != "" || k.Fn == "f.Chmod") {
			mode, lit = 0o777, "os.ModePerm"
		}
		if unknown := []string{"", "own.ModePerm", "mode"}[k.Unknown]; unknown != "" && rule != "" {
			mode, lit = 0, unknown // nothing is known of these modes
		}
		args := permArgs[k.Fn]
		if strings.Contains(args, "%s") {
			args = fmt.Sprintf(args, lit)
		}
		txt := k.Fn + "(" + args + ")"
		if osn != "os" {
			txt = strings.ReplaceAll(txt, "os.", osn+".")
		}
		fmt.Fprintf(&b, "\t%s\n", txt)
		if rule != "" {
			max, ok := c.Values[rule]
			if !ok {
				max = permDefault[rule]
			}
			if rule == "G307" {
				mode = 0o666
			}
			if mode&^max != 0 {
				want = append(want, fmt.Sprintf("%s %d", rule, line))
			}
		}
		line++
	}
	b.WriteString("}\n")
	return b.String(), want
}

func runPerm(c permCase, s *Stats) error {
	src, want := c.build()
	conf := map[string]any{}
	for r, m := range c.Max {
		if c.AsInt {
			v, err := strconv.ParseInt(m, 0, 64)
			if err != nil {
				return harnessf("%v", err)
			}
			conf[r] = v
		} else {
			conf[r] = m
		}
	}
	files := []File{{"p.go", src}}
	res, err := MustScan(files, ScanOpts{Include: []string{"G301", "G302", "G306", "G307"}, Config: conf})
	if err != nil {
		return err
	}
	var got []string
	for _, i := range res.Issues {
		a, _ := lineOf(i)
		got = append(got, fmt.Sprintf("%s %d", i.RuleID, a))
	}
	sort.Strings(got)
	sort.Strings(want)
	if d := diffMultiset(want, got); d != "" {
		return violf("calls with a mode beyond the maximum (first) and calls reported (second) differ: %s\nconfiguration %v\n%s", d, conf, dumpFiles(files))
	}
	s.LabelN("calls reported", len(want))
	quiet := 0
	for _, k := range c.Calls {
		if permFns[k.Fn] != "" {
			quiet++
		}
	}
	quiet -= len(want)
	s.LabelN("calls of listed functions within the maximum", quiet)
	if len(want) > 0 && quiet > 0 {
		s.NonTrivial()
	}
	return nil
}

// enumPerm has every function with every mode of nine bits under the default maxima.
func enumPerm(tier string) []permCase {
	var out []permCase
	for _, fn := range sortedKeys(permFns) {
		if rule := permFns[fn]; rule == "" || rule == "G307" {
			continue
		}
		for m := int64(0); m <= 0o777; m += 64 {
			c := permCase{}
			for k := int64(0); k < 64; k++ {
				c.Calls = append(c.Calls, permCall{Fn: fn, Mode: m + k, Form: int(k % 13)})
			}
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register("C18", "distinct programs with both calls beyond the maximum and calls of listed functions within it", 24000, 600000, genPerm, runPerm, enumerate(enumPerm))
}
