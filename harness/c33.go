package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2"
)

// C33: settings nobody can use. A case is either a configuration made of usable and unusable values, which has to
// act like the usable values alone, or a command line with some settings that stop the tool or mean nothing.

type badFlag struct {
	Args  []string
	Class string // "fatal": no scan; "none": no effect; "any": no crash; "exclude": leaves out Dir
	Dir   string
	Paths bool // Args are the paths
}

type badCase struct {
	CLI   bool
	Files []File
	Full  string // configuration
	Clean string // the same without what cannot be used
	Junk  int
	Flags []badFlag
}

const sensitiveSrc = `package q

import (
	"bytes"
	"net/http"
	"os"
)

var password = "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"
var passwd = "aaaaaaaaaaaaaaaaaaaaaaaaaaa"
var theToken = "Z9"
var usual = "6jL1-9dZ_kk2.Qa8xTTr0"
var zz = "8fAk3mQpZr5xTn7w"

type own struct{}

func (own) Do() error          { return nil }
func (own) Close() (int, error) { return 0, nil }

func sensitive(secret string, b bytes.Buffer, o own) bool {
	http.Handle("/", http.FileServer(http.Dir("/")))
	http.Handle("/u", http.FileServer(http.Dir("/usr")))
	http.Handle("/t", http.FileServer(http.Dir("tmp")))
	_ = os.Mkdir("a", 0o755)
	os.MkdirAll("b", 0o700)
	_, _ = os.OpenFile("c", os.O_RDONLY, 0o644)
	os.Chmod("c", 0o400)
	_ = os.WriteFile("d", nil, 0o666)
	os.Create("e")
	o.Do()
	o.Close()
	os.Remove("c")
	b.Write(nil)
	return secret == "hQ83nfVpd0skDm2"
}
`

var badPatterns = []string{"(", "[", "*", "a**", "(?P<", "x{2,1}", "\\", "a\\", ")", "(?i", "[z-a]", "(?!pass)", "\\1", "x{1001}", "[[:foo:]]", "\\p{Foo}", "\\Q\\E(", "a{,2}("}

// junk is a value of a type hardly any setting has.
func junk(t *rapid.T, depth int) any {
	switch k := rapid.IntRange(0, 9).Draw(t, "junk"); {
	case k == 0:
		return nil
	case k == 1:
		return rapid.Bool().Draw(t, "b")
	case k == 2:
		return sampled([]float64{0, 1, -1, 3.5, 1e30, -1e30, 1e-9, 4294967296, 9007199254740993}).Draw(t, "n")
	case k == 3 || depth == 0:
		return sampled([]string{"", "x", "true", "G101", "0o", "-", "é", "\x00", "0x", "ab\ncd", "null", "1,5"}).Draw(t, "s")
	case k == 4:
		return sampled(badPatterns).Draw(t, "s")
	case k < 7:
		l := []any{}
		for i := upTo(t, 3, "len"); i > 0; i-- {
			l = append(l, junk(t, depth-1))
		}
		return l
	}
	m := map[string]any{}
	for i := upTo(t, 3, "len"); i > 0; i-- {
		m[sampled([]string{"pattern", "truncate", "", "os", "G104", "include", "a.b", "\x00"}).Draw(t, "key")] = junk(t, depth-1)
	}
	return m
}

func junkNot(t *rapid.T, ok func(any) bool) any {
	for i := 0; i < 50; i++ {
		if v := junk(t, 2); !ok(v) {
			return v
		}
	}
	return []any{}
}

func isString(v any) bool { _, ok := v.(string); return ok }
func isBool(v any) bool   { _, ok := v.(bool); return ok }
func isMap(v any) bool    { _, ok := v.(map[string]any); return ok }
func isList(v any) bool   { _, ok := v.([]any); return ok }
func isText(v any) bool {
	switch v.(type) {
	case string, float64:
		return true
	}
	return false
}

// badConfig draws a configuration and what remains of it without the unusable values.
func badConfig(t *rapid.T) (map[string]any, map[string]any, int) {
	full, clean, n := map[string]any{}, map[string]any{}, 0
	bad := func() bool { return rapid.IntRange(0, 2).Draw(t, "unusable") > 0 }
	pattern := func(v any) any {
		if rapid.Bool().Draw(t, "text") {
			return sampled(badPatterns).Draw(t, "pattern")
		}
		return v
	}
	// object with settings, each usable or not
	object := func(id string, keys map[string][2]func() any) {
		if rapid.IntRange(0, 4).Draw(t, "whole") == 0 {
			full[id] = junkNot(t, isMap)
			n++
			return
		}
		f, c := map[string]any{}, map[string]any{}
		var names []string
		for k := range keys {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if rapid.Bool().Draw(t, k) {
				continue
			}
			if bad() {
				f[k] = keys[k][1]()
				n++
			} else {
				f[k] = keys[k][0]()
				c[k] = f[k]
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			f[sampled([]string{"Pattern", "other", "", "PATTERN", "truncate "}).Draw(t, "key")] = junk(t, 1)
			n++
		}
		full[id], clean[id] = f, c
	}
	str := func(l ...string) func() any { return func() any { return sampled(l).Draw(t, "value") } }
	not := func(ok func(any) bool) func() any { return func() any { return junkNot(t, ok) } }
	number := func() any {
		if rapid.Bool().Draw(t, "word") {
			return sampled([]string{"many", "1,5", "", "0y", " 3"}).Draw(t, "number")
		}
		return junkNot(t, isText)
	}
	on := func(id string) bool { return rapid.IntRange(0, 2).Draw(t, id) > 0 }
	if on("G101") {
		object("G101", map[string][2]func() any{
			"pattern":            {str("(?i)usual", "zz", "pass|token", ""), func() any { return pattern(junkNot(t, isString)) }},
			"ignore_entropy":     {func() any { return rapid.Bool().Draw(t, "b") }, not(isBool)},
			"entropy_threshold":  {str("10", "40.5", "200"), number},
			"per_char_threshold": {func() any { return sampled([]any{"1", 2.5, "4", 3.0}).Draw(t, "value") }, number},
			"truncate": {func() any { return sampled([]any{"5", 2.0, "40", 16.0}).Draw(t, "value") }, func() any {
				if rapid.Bool().Draw(t, "neg") {
					return sampled([]any{-1.0, "-16", 1e300, "9999999999"}).Draw(t, "number")
				}
				return number()
			}},
		})
	}
	if on("G111") {
		object("G111", map[string][2]func() any{
			"pattern": {str(`http\.Dir\("/usr"\)`, `http\.Dir\("[^"]*"\)`, "zzz"), func() any { return pattern(junkNot(t, isString)) }},
		})
	}
	if on("G104") {
		object("G104", map[string][2]func() any{
			"os": {func() any { return []any{sampled([]string{"Remove", "MkdirAll", "Chmod"}).Draw(t, "fn")} }, not(isList)},
			// whole lists with some values that are no names
			"net": {func() any { return []any{"Dial"} }, func() any { return []any{junkNot(t, isString), junkNot(t, isString)} }},
			"":    {func() any { return []any{} }, not(isList)},
		})
	}
	for _, id := range []string{"G301", "G302", "G306", "G307"} {
		if rapid.Bool().Draw(t, id) {
			continue
		}
		if bad() {
			if rapid.Bool().Draw(t, "word") {
				full[id] = sampled([]string{"rwx", "08", "0o9", "", "0x", " 0700", "1e3", "99999999999999999999"}).Draw(t, "mode")
			} else {
				full[id] = junkNot(t, isText)
			}
			n++
		} else {
			full[id] = sampled([]any{"0777", "0o600", 438.0, "0x100"}).Draw(t, "mode")
			clean[id] = full[id]
		}
	}
	// sections nothing reads
	for i := upTo(t, 2, "unknown"); i > 0; i-- {
		full[sampled([]string{"G102", "G304", "G401", "G602", "g101", "", "G999", "Global", "é"}).Draw(t, "section")] = junk(t, 2)
		n++
	}
	if rapid.IntRange(0, 2).Draw(t, "global") == 0 {
		f := map[string]any{}
		for i := upTo(t, 3, "options"); i > 0; i-- {
			f[sampled([]string{"unknown", "", "Nosec", "ssa", "é"}).Draw(t, "option")] = junk(t, 2)
			n++
		}
		if rapid.Bool().Draw(t, "null") {
			f[sampled([]string{"nosec", "show-ignored", "audit", "#nosec"}).Draw(t, "option")] = nil
			n++
		}
		full["global"], clean["global"] = f, map[string]any{}
	}
	return full, clean, n
}

func genBad(t *rapid.T) badCase {
	var c badCase
	full, clean, n := badConfig(t)
	enc := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	c.Full, c.Clean, c.Junk = enc(full), enc(clean), n
	c.Files = []File{{"q/q.go", sensitiveSrc}}
	c.CLI = rapid.IntRange(0, 7).Draw(t, "cli") == 0
	if !c.CLI {
		return c
	}
	c.Files = append(c.Files, inDir("p0", genProg(t, true))...)
	one := func(class string, args ...string) { c.Flags = append(c.Flags, badFlag{Args: args, Class: class}) }
	word := func(l ...string) string { return sampled(l).Draw(t, "word") }
	kinds := sampled([][]int{
		{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 15, 19},                     // settings that stop the tool and others
		{8, 9, 10, 11, 12, 13, 14, 15, 19}, {8, 11, 12, 13, 14, 15, 19}, // no effect
		{16, 17, 18, 8, 11}, // anything goes
	}).Draw(t, "kinds")
	for i := 1 + upTo(t, 2, "flags"); i > 0; i-- {
		switch sampled(kinds).Draw(t, "flag") {
		case 0:
			one("fatal", word("-severity=", "-confidence=")+word("", "x", "lowest", "med", "1", " high", "low,high", "nil"))
		case 1:
			one("fatal", "-conf", word("none.json", "p0", "none/none.json"))
		case 2:
			one("fatal", "-conf", "bad:"+word("", "[]", "5", "{", `{"a":1}{`, `{"a":1,}`, `{'a':1}`, "\xff", `{"global":[1]}`, `{"global":"x"}`, `{"global":5}`, `"x"`, "G101: x", `{"G101":{"pattern":"x"}`))
		case 3:
			one("fatal", "-include="+word(",", "G999", "foo", ",,", "G1", "g101", "*"))
		case 4:
			one("fatal", word("-bogus", "-concurrency=x", "-tests=maybe", "-sort=2", "-exclude=-quiet", "-concurrency=1.5", "--", "-fmtt=json")+"")
			if l := &c.Flags[len(c.Flags)-1]; l.Args[0] == "--" { // the rest are paths, which do not exist
				l.Args, l.Paths = []string{"--", "-fmt=json/..."}, true
			}
		case 5:
			c.Flags = append(c.Flags, badFlag{Args: sampled([][]string{{}, {"./none/..."}, {"none/..."}, {"/nonexistent/..."}, {"./q/q.go/none/..."}}).Draw(t, "paths"), Class: "fatal", Paths: true})
		case 6:
			one("fatal", "-log="+word("none/log", ".", "q/q.go/log"))
		case 7:
			one("fatal", "-out="+word("none/out", ".", "q/q.go/out"))
		case 8, 9, 10:
			one("none", "-exclude-dir="+word(append([]string{"c++", "nope", "(", "\xff(", "\xff\xfe", "a(b/c", "[/]", "\\/", "é("}, badPatterns...)...))
		case 11, 12:
			d := word("c++", "a(b", "x[1", "**", "a{2,1}", "(", "z)", "é++")
			c.Files = append(c.Files, File{"q/" + d + "/x.go", strings.Replace(sensitiveSrc, "package q", "package x", 1)})
			c.Flags = append(c.Flags, badFlag{Args: []string{"-exclude-dir=" + d + word("", "/")}, Class: "exclude", Dir: d})
		case 13:
			one("none", "-concurrency="+word("0", "-1", "-99999", "1", "3", "200"))
		case 14:
			one("none", "-nosec-tag="+word("(", "[", "\\", "#", "é", "#(x", "*", "\xff"))
		case 15:
			one("none", "-ai-api-provider="+word("none", "x", "(", "é"), "-ai-api-key=k", "-ai-endpoint="+word("", "x", "::"))
		case 16:
			one("any", "-tags="+word("zzz", "a,b", "!x", "a b", ",", "(", "-x", "é", "\xff", "ignore"))
		case 17:
			one("any", "env:GOSECGOVERSION="+word("", "x", "go", "go1", "go1.x", "1.99999999999999999999", "é", "-1.2.3", "go1.22.3-rc1", "99.99"))
		case 18:
			c.Flags = append(c.Flags, badFlag{Args: sampled([][]string{{""}, {"..."}, {"q/q.go"}, {"q/q.go..."}, {"none"}, {"./..", "./..."}, {"p0", "q", "q/q.go/..."}, {"\xff/..."}, {"(..."}, {"./q/../..."}, {"go.mod"}, {"go.mod..."}}).Draw(t, "paths"), Class: "any", Paths: true})
		case 19:
			one("none", "-verbose="+word("", "json", "é"))
			if c.Flags[len(c.Flags)-1].Args[0] != "-verbose=json" {
				c.Flags[len(c.Flags)-1].Args[0] = "-color=" + word("t", "F", "0", "1")
			}
		}
	}
	return c
}

func runBad(c badCase, s *Stats) error {
	if !c.CLI {
		var want []string
		for i, text := range []string{c.Clean, c.Full} {
			conf := gosec.NewConfig()
			if _, err := conf.ReadFrom(strings.NewReader(text)); err != nil {
				return violf("reading a configuration fails: %v\n%s", err, text)
			}
			r, err := MustScan([]File{{"q.go", sensitiveSrc}}, ScanOpts{Conf: conf})
			if err != nil {
				return err
			}
			var got []string
			for _, x := range r.Issues {
				got = append(got, issueKey(x, filepath.Dir(x.File)))
			}
			if len(r.Errors) > 0 {
				return violf("errors with the configuration %s: %v", text, r.Errors)
			}
			sort.Strings(got)
			if i == 0 {
				want = got
			} else if d := diffMultiset(want, got); d != "" {
				return violf("findings with the usable settings alone (first) and with unusable ones (second) differ: %s\n%s\n%s", d, c.Clean, c.Full)
			}
		}
		if c.Junk > 0 {
			s.NonTrivial()
			s.Label("configuration with unusable values")
		}
		return nil
	}
	dir, err := writeModule(c.Files)
	if err != nil {
		return err
	}
	// the folders of exotic names hold what the scan finds in q
	for name, text := range map[string]string{"full.json": c.Full, "clean.json": c.Clean} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			return harnessf("%v", err)
		}
	}
	base, err := runCLI(dir, nil, "-fmt=json", "-conf=clean.json", "./...")
	if err != nil {
		return err
	}
	want, err := base.mustReport(nil)
	if err != nil {
		return err
	}
	args, paths := []string{"-fmt=json", "-conf=full.json"}, []string{"./..."}
	var env []string
	fatal, any := false, false
	dirs := map[string]bool{}
	for _, f := range c.Flags {
		switch f.Class {
		case "fatal":
			fatal = true
		case "any":
			any = true
		case "exclude":
			dirs[f.Dir] = true
		}
		if f.Paths {
			paths = f.Args
			continue
		}
		for _, a := range f.Args {
			switch {
			case strings.HasPrefix(a, "env:"):
				env = append(env, a[4:])
			case strings.HasPrefix(a, "bad:"):
				if err := os.WriteFile(filepath.Join(dir, "bad.json"), []byte(a[4:]), 0o644); err != nil {
					return harnessf("%v", err)
				}
				args = append(args, "bad.json")
			default:
				args = append(args, a)
			}
			s.Label(strings.SplitN(a, "=", 2)[0])
		}
	}
	if n := 0; true { // paths and settings given twice: the last one counts
		seen := map[string]bool{}
		for _, f := range c.Flags {
			k := "paths"
			if !f.Paths {
				k = strings.TrimLeft(strings.SplitN(f.Args[0], "=", 2)[0], "-")
			}
			if seen[k] && k != "exclude-dir" {
				n++
			}
			seen[k] = true
		}
		if n > 0 {
			fatal, any = false, true
		}
	}
	args = append(args, paths...)
	where := fmt.Sprintf("gosec %q %q", env, args)
	got, err := runCLI(dir, env, args...)
	if err != nil {
		return err
	}
	if got.Exit < 0 || got.Exit > 2 {
		return violf("%s: ends with %d\n%s", where, got.Exit, tail(got.Stderr, 2000))
	}
	s.NonTrivial()
	if fatal {
		if got.Exit == 0 {
			return violf("%s: exit status 0 although it cannot do what is asked\n%s", where, tail(got.Stdout, 1500))
		}
		if got.Stdout != "" {
			return violf("%s: output on standard output although it cannot do what is asked: %s", where, tail(got.Stdout, 1500))
		}
		s.Label("stopped")
		return nil
	}
	if any {
		s.Label("any outcome but a crash")
		return nil
	}
	rep, err := got.mustReport(args)
	if err != nil {
		return err
	}
	keep := func(file string) bool {
		for d := range dirs {
			if strings.Contains(file, "/"+d+"/") {
				return false
			}
		}
		return true
	}
	var w, wErr, gErr []string
	for i := range want.Issues {
		if is := &want.Issues[i]; keep(is.File) {
			w = append(w, is.full(dir))
		} else {
			s.Label("findings in a folder left out by its name")
		}
	}
	sort.Strings(w)
	for f := range want.Errors {
		if keep(f) {
			wErr = append(wErr, f)
		}
	}
	for f := range rep.Errors {
		gErr = append(gErr, f)
	}
	sort.Strings(wErr)
	sort.Strings(gErr)
	if d := diffMultiset(w, cliMultiset(rep.Issues, func(i *cliIssue) string { return i.full(dir) })); d != "" {
		return violf("%s: findings without these settings (first) and with them (second) differ: %s\n%s\n%s", where, d, c.Clean, c.Full)
	}
	if fmt.Sprint(wErr) != fmt.Sprint(gErr) {
		return violf("%s: files with errors differ: %q versus %q", where, wErr, gErr)
	}
	wantExit := 0
	if rep.Stats.Found > 0 || len(gErr) > 0 {
		wantExit = 1
	}
	if got.Exit != wantExit {
		return violf("%s: exit status %d, want %d", where, got.Exit, wantExit)
	}
	s.Label("scanned")
	return nil
}

func init() {
	register("C33", "configurations with at least one unusable value, and all command lines", 900, 30000, genBad, runBad, needCLI, shrinkSeconds(60))
}
