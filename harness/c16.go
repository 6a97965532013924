package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C16: import rules. A case is a set of files, each a list of import specs in arbitrary forms.

type impSpec struct {
	Path  string
	Form  string // plain, alias, dot, blank
	Raw   bool   // raw string literal
	Group int    // specs with the same group stand in one parenthesised declaration; 0 = own declaration
	Note  string // comment behind the spec
}

type impFile struct {
	Specs  []impSpec
	Header int // blank lines / comments before the imports
	Cgo    bool
}

type impCase struct {
	Files []impFile
}

type impTarget struct{ rule, sev, conf, use string }

var impTargets = map[string]impTarget{
	"crypto/md5":                    {"G501", "MEDIUM", "HIGH", "New"},
	"crypto/des":                    {"G502", "MEDIUM", "HIGH", "NewCipher"},
	"crypto/rc4":                    {"G503", "MEDIUM", "HIGH", "NewCipher"},
	"net/http/cgi":                  {"G504", "MEDIUM", "HIGH", "Serve"},
	"crypto/sha1":                   {"G505", "MEDIUM", "HIGH", "New"},
	"golang.org/x/crypto/md4":       {"G506", "MEDIUM", "HIGH", "New"},
	"golang.org/x/crypto/ripemd160": {"G507", "MEDIUM", "HIGH", "New"},
	"net/http/pprof":                {"G108", "HIGH", "HIGH", "Index"},
}

var impNear = map[string]string{
	"crypto/sha256": "New", "crypto/sha512": "New", "crypto/aes": "NewCipher", "net/http": "Get", "net/http/httptest": "NewRecorder",
	"math/rand": "Int", "runtime/pprof": "Profiles", "crypto/hmac": "Equal", "golang.org/x/crypto/bcrypt": "Cost", "golang.org/x/crypto/sha3": "New256",
	"example.com/crypto/md5": "New", "example.com/crypto/sha1": "New", "example.com/crypto/des": "NewCipher", "example.com/crypto/rc4": "NewCipher",
	"crypto/md5/v2": "New", "crypto/md55": "New", "example.com/net/http/pprof": "Index", "example.com/net/http/cgi": "Serve", "crypto/MD5": "New", "Crypto/sha1": "New", "golang.org/x/crypto/md5": "New", "net/http/pprof2": "Index", "internal/net/http/pprof": "Index",
	"fmt": "Sprint", "os": "Getenv",
}

func pkgBase(path string) string {
	if path == "crypto/md5/v2" {
		return "md5"
	}
	if path == "math/rand/v2" {
		return "rand"
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func genImpCase(t *rapid.T) impCase {
	var c impCase
	paths := append(sortedKeys(impTargets), sortedKeys(impNear)...)
	nf := rapid.IntRange(1, 3).Draw(t, "files")
	for i := 0; i < nf; i++ {
		f := impFile{Header: rapid.IntRange(0, 3).Draw(t, "header")}
		n := rapid.IntRange(0, 7).Draw(t, "specs")
		dot := false
		for j := 0; j < n; j++ {
			s := impSpec{
				Path:  sampled(paths).Draw(t, "path"),
				Form:  sampled([]string{"plain", "alias", "blank", "blank", "dot"}).Draw(t, "form"),
				Raw:   rapid.IntRange(0, 3).Draw(t, "raw") == 0,
				Group: rapid.IntRange(0, 3).Draw(t, "group"),
				Note:  sampled([]string{"", "", "// used", "/* c */"}).Draw(t, "note"),
			}
			if s.Form == "dot" {
				if dot {
					s.Form = "alias"
				}
				dot = true
			}
			f.Specs = append(f.Specs, s)
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func enumImpCases(string) []impCase {
	var out []impCase
	paths := append(sortedKeys(impTargets), sortedKeys(impNear)...)
	for _, p := range paths {
		for _, form := range []string{"plain", "alias", "blank", "dot"} {
			for _, raw := range []bool{false, true} {
				for _, g := range []int{0, 1} {
					out = append(out, impCase{Files: []impFile{{Specs: []impSpec{{Path: p, Form: form, Raw: raw, Group: g}}}}})
				}
			}
		}
	}
	return out
}

// render gives the sources and, per file and line, the expected rules.
func (c impCase) render() (files []File, want map[string]int, nTargets int, wellTyped bool) {
	want = map[string]int{}
	wellTyped = true
	for fi, f := range c.Files {
		var b strings.Builder
		line := 1
		emit := func(s string) {
			b.WriteString(s + "\n")
			line += 1 + strings.Count(s, "\n")
		}
		for k := 0; k < f.Header; k++ {
			emit([]string{"", "// header", "/* block\n   comment */"}[k%3])
		}
		emit("package p")
		emit("")
		name := fmt.Sprintf("f%d.go", fi)
		uses := []string{}
		seenPlain := map[string]bool{}
		open := 0
		usedDot := false
		for j, s := range f.Specs {
			base := pkgBase(s.Path)
			form := s.Form
			if form == "plain" && seenPlain[base] {
				form = "alias"
			}
			use := impNear[s.Path]
			if tg, ok := impTargets[s.Path]; ok {
				use = tg.use
			}
			lhs := ""
			switch form {
			case "plain":
				seenPlain[base] = true
				uses = append(uses, fmt.Sprintf("var _ = %s.%s", base, use))
			case "alias":
				lhs = fmt.Sprintf("a%d_%s ", j, base)
				uses = append(uses, fmt.Sprintf("var _ = a%d_%s.%s", j, base, use))
			case "dot":
				lhs = ". "
				usedDot = true
				uses = append(uses, fmt.Sprintf("var _ = %s", use))
			case "blank":
				lhs = "_ "
			}
			q := `"` + s.Path + `"`
			if s.Raw {
				q = "`" + s.Path + "`"
			}
			if s.Group != open && open != 0 {
				emit(")")
				open = 0
			}
			if s.Group != 0 && open != s.Group {
				emit("import (")
				open = s.Group
			}
			if open != 0 {
				emit("\t" + lhs + q + " " + s.Note)
			} else {
				emit("import " + lhs + q + " " + s.Note)
			}
			if tg, ok := impTargets[s.Path]; ok {
				if tg.rule != "G108" || form == "blank" {
					want[fmt.Sprintf("%s %s:%d %s %s", tg.rule, name, line-1, tg.sev, tg.conf)]++
					nTargets++
				}
			}
		}
		if open != 0 {
			emit(")")
		}
		emit("")
		for _, u := range uses {
			emit(u)
		}
		_ = usedDot
		files = append(files, File{name, b.String()})
	}
	return
}

var importRules = map[string]bool{"G501": true, "G502": true, "G503": true, "G504": true, "G505": true, "G506": true, "G507": true, "G108": true}

func runImpCase(c impCase, s *Stats) error {
	files, want, n, _ := c.render()
	r, err := FastScan(files, ScanOpts{NoAnalyze: true})
	if err != nil {
		return err
	}
	if len(r.TypeErr) > 0 {
		// clashes of dot imports between files are possible; the rules look at syntax only
		s.Label("ill-typed")
	}
	got := map[string]int{}
	for _, i := range r.Issues {
		if !importRules[i.RuleID] {
			continue
		}
		k := fmt.Sprintf("%s %s:%s %v %v", i.RuleID, i.File[strings.LastIndex(i.File, "/")+1:], i.Line, i.Severity, i.Confidence)
		got[k]++
	}
	for k, v := range want {
		if got[k] != v {
			return violf("import issue %q: want %d, got %d\nall: %v\n%s", k, v, got[k], got, dumpFiles(files))
		}
	}
	for k, v := range got {
		if want[k] != v {
			return violf("unexpected import issue %q (%d times, want %d)\n%s", k, v, want[k], dumpFiles(files))
		}
	}
	for _, f := range c.Files {
		for _, sp := range f.Specs {
			s.Label("form " + sp.Form)
			if sp.Raw {
				s.Label("raw path")
			}
		}
	}
	if n > 0 {
		s.Label("with listed import")
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C16", "a case is 1-3 files with up to 7 import specs each (listed packages and near misses; plain, alias, dot, blank; quoted or raw; grouped or not), plus all single specs enumerated; non-trivial when at least one listed import is present",
		40000, 1000000, genImpCase, runImpCase, enumerate(enumImpCases))
}
