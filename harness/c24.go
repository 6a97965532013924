package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strings"

	"pgregory.net/rapid"
)

// C24: the metrics against counts made from the source text.

type metCase struct {
	Pkgs    [][]File
	Broken  []int
	ExclGen bool
	Tests   bool
	NoSec   bool
	Track   bool
	Show    string // "", "flag", "conf"
	Include []string
	Exclude []string
	CLI     bool
	Conc    int
}

func genMet(t *rapid.T) metCase {
	c := metCase{CLI: oneIn(t, 40, "cli"), Conc: 1 + upTo(t, 3, "conc")}
	n := 1 + upTo(t, 3, "pkgs")
	for i := 0; i < n; i++ {
		fs := genProg(t, c.CLI)
		if !oneIn(t, 4, "plain") {
			fs = sprinkleNosec(t, fs)
		}
		pn := pkgNameOf(fs[0].Src)
		if oneIn(t, 3, "gen") {
			hdr := sampled(genTexts).Draw(t, "hdr")
			fs = append(fs, File{"zgen.go", hdr + "package " + pn + "\n\nimport _ \"crypto/md5\" // #nosec\n"})
		}
		for k := 0; k <= upTo(t, 2, "small"); k++ {
			src := sampled([]string{"package " + pn, "package " + pn + "\n", "package " + pn + "\n\n\n\n", "\n\n// #nosec\n\npackage " + pn + "\n// #nosec G101 -- x", "package " + pn + "\r\n\r\nvar _ = `\r\n// #nosec\r\n`\r\n", "package " + pn + "\n//line other.go:100\nvar _ = 1\n\n/* #nosec */"}).Draw(t, "smallsrc")
			fs = append(fs, File{fmt.Sprintf("zs%d.go", k), src})
		}
		if oneIn(t, 3, "test") {
			fs = append(fs, File{"v_test.go", "package " + pn + "\n\nimport _ \"crypto/md5\" // #nosec G501\n"})
		}
		if oneIn(t, 3, "xtest") {
			fs = append(fs, File{"x_test.go", "package " + pn + "_test\n\nimport _ \"crypto/md5\"\n\n\n"})
		}
		if oneIn(t, 8, "broken") {
			c.Broken = append(c.Broken, i)
			fs = append(fs, File{"zz.go", "package " + pn + "\n\nvar zz int = undefinedName // #nosec\n"})
		}
		c.Pkgs = append(c.Pkgs, fs)
	}
	c.ExclGen = oneIn(t, 3, "exclgen")
	c.Tests = oneIn(t, 2, "tests")
	c.NoSec = oneIn(t, 6, "nosec")
	c.Track = oneIn(t, 3, "track")
	c.Show = sampled([]string{"", "", "flag", "conf"}).Draw(t, "show")
	near := guessRules(c.Pkgs[0])
	if oneIn(t, 2, "in") {
		c.Include = genIDs(t, near, "include")
	}
	if oneIn(t, 2, "ex") {
		c.Exclude = genIDs(t, near, "exclude")
	}
	return c
}

// countFile counts the lines and the suppression comments of a file.
func countFile(src string) (lines, nosec int, generated bool, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return 0, 0, false, err
	}
	lines = strings.Count(src, "\n")
	if !strings.HasSuffix(src, "\n") {
		lines++
	}
	for _, g := range f.Comments {
		if found, _, _, _, _ := parseDirective(g, []string{"#nosec"}); found {
			nosec++
		}
	}
	return lines, nosec, ast.IsGenerated(f), nil
}

func runMet(c metCase, s *Stats) error {
	type sum struct{ files, lines, nosec int }
	var want sum
	var left int
	var all []File
	per := make([]sum, len(c.Pkgs))
	var xtests []bool
	for i, fs := range c.Pkgs {
		hasX := false
		for _, f := range fs {
			l, n, gen, err := countFile(f.Src)
			if err != nil {
				return harnessf("%v\n%s", err, f.Src)
			}
			all = append(all, File{path.Join(fmt.Sprintf("p%d", i), f.Name), f.Src})
			if strings.HasSuffix(f.Name, "x_test.go") {
				hasX = true
			}
			if c.ExclGen && gen || strings.HasSuffix(f.Name, "_test.go") && !c.Tests {
				left++
				continue
			}
			if c.NoSec {
				n = 0
			}
			per[i] = sum{per[i].files + 1, per[i].lines + l, per[i].nosec + n}
		}
		xtests = append(xtests, hasX)
		want = sum{want.files + per[i].files, want.lines + per[i].lines, want.nosec + per[i].nosec}
	}
	if !c.CLI {
		a := newAnalyzer(ScanOpts{NoSec: c.NoSec, ExclGen: c.ExclGen, Track: c.Track, Include: c.Include, Exclude: c.Exclude}, true, 1)
		seen := sum{}
		for i, fs := range c.Pkgs {
			// one in-process package has no external tests
			var in []File
			p := sum{}
			for _, f := range fs {
				if strings.HasSuffix(f.Name, "_test.go") {
					continue
				}
				in = append(in, f)
				l, n, gen, _ := countFile(f.Src)
				if c.ExclGen && gen {
					continue
				}
				if c.NoSec {
					n = 0
				}
				p = sum{p.files + 1, p.lines + l, p.nosec + n}
			}
			dir := caseDir()
			if err := writeFiles(dir, in); err != nil {
				return err
			}
			pkg, _, err := makePackage(dir, in)
			if err != nil {
				return err
			}
			a.CheckRules(pkg)
			a.CheckAnalyzers(pkg)
			seen = sum{seen.files + p.files, seen.lines + p.lines, seen.nosec + p.nosec}
			_, m, _ := a.Report()
			if m.NumFiles != seen.files || m.NumLines != seen.lines || m.NumNosec != seen.nosec {
				return violf("after %d packages with %d files, %d lines and %d suppression comments in all the metrics are %+v\n%s", i+1, seen.files, seen.lines, seen.nosec, *m, dumpFiles(all))
			}
		}
		s.LabelN("files counted", seen.files)
		if seen.nosec > 0 {
			s.NonTrivial()
		}
		return nil
	}
	dir, err := writeModule(all)
	if err != nil {
		return err
	}
	conf := map[string]any{"global": map[string]any{}}
	args := []string{"-fmt=json", "-no-fail", fmt.Sprintf("-concurrency=%d", c.Conc), "-conf=conf.json"}
	add := func(cond bool, f string) {
		if cond {
			args = append(args, f)
		}
	}
	add(c.ExclGen, "-exclude-generated")
	add(c.Tests, "-tests")
	add(c.NoSec, "-nosec")
	add(c.Track, "-track-suppressions")
	add(c.Show == "flag", "-show-ignored")
	if c.Show == "conf" {
		conf["global"] = map[string]any{"show-ignored": "true"}
	}
	add(len(c.Include) > 0, "-include="+strings.Join(c.Include, ","))
	add(len(c.Exclude) > 0, "-exclude="+strings.Join(c.Exclude, ","))
	if err := writeJSON(dir+"/conf.json", conf); err != nil {
		return harnessf("%v", err)
	}
	none := true // no rule is left
	for _, id := range ruleIDs {
		if (len(c.Include) == 0 || setOf(c.Include)[id]) && !setOf(c.Exclude)[id] {
			none = false
		}
	}
	check := func(w sum, paths ...string) (int, error) {
		a := append(append([]string{}, args...), paths...)
		res, err := runCLI(dir, nil, a...)
		if err != nil {
			return 0, err
		}
		if res.Rep == nil && strings.Contains(res.Stderr, "No rules/analyzers are configured") && none {
			return 0, nil
		}
		rep, err := res.mustReport(a)
		if err != nil {
			return 0, err
		}
		real := 0
		for _, i := range rep.Issues {
			if !i.NoSec && len(i.Suppressions) == 0 {
				real++
			}
		}
		if rep.Stats.Found != real {
			return 0, violf("gosec %v: found is %d, %d unsuppressed issues are reported\n%s", a, rep.Stats.Found, real, dumpFiles(all))
		}
		if (sum{rep.Stats.Files, rep.Stats.Lines, rep.Stats.Nosec}) != w {
			return 0, violf("gosec %v: %d files, %d lines and %d suppression comments, but the metrics are %+v\n%s", a, w.files, w.lines, w.nosec, rep.Stats, dumpFiles(all))
		}
		return real, nil
	}
	total, err := check(want, "./...")
	if err != nil {
		return err
	}
	sumReal := 0
	for i := range c.Pkgs {
		n, err := check(per[i], fmt.Sprintf("./p%d", i))
		if err != nil {
			return err
		}
		sumReal += n
	}
	if total != sumReal {
		return violf("gosec %v: found is %d for all packages but adds up to %d for each of them\n%s", args, total, sumReal, dumpFiles(all))
	}
	if left > 0 && want.nosec > 0 {
		s.NonTrivial()
	}
	if c.Tests && xtests[0] {
		s.Label("external tests")
	}
	s.Label("command line")
	return nil
}

func init() {
	register("C24", "distinct sets of packages with suppression comments (command line: and with files left out)", 2400, 100000, genMet, runMet, needCLI, shrinkSeconds(60))
}
