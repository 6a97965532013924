package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"golang.org/x/tools/go/packages"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// C25: histories of scans and resets of one analyzer against a fresh analyzer per scan.

type histOp struct {
	Reset   bool
	Pkg     int      // package to scan
	Include []string // lists to load after a reset
	Exclude []string
	Err     bool // an error of the loader is recorded as well
}

type histCase struct {
	Pkgs   [][]File
	Broken []bool
	Global map[string]string
	Track  bool
	Ops    []histOp
}

func genHist(t *rapid.T) histCase {
	var c histCase
	n := 1 + upTo(t, 2, "pkgs")
	for i := 0; i < n; i++ {
		fs := genProg(t, false)
		if oneIn(t, 2, "nosec") {
			fs = sprinkleNosec(t, fs)
		}
		br := oneIn(t, 4, "broken")
		if br {
			fs = append(fs, File{"zz.go", "package " + pkgNameOf(fs[0].Src) + "\n\nvar zz int = undefinedName + \"x\"\n"})
		}
		c.Broken = append(c.Broken, br)
		c.Pkgs = append(c.Pkgs, inDir(fmt.Sprintf("q%d", i), fs))
	}
	if oneIn(t, 3, "show") {
		c.Global = map[string]string{"show-ignored": "true"}
	}
	c.Track = oneIn(t, 2, "track")
	near := guessRules(c.Pkgs[0])
	k := 2 + upTo(t, 6, "ops")
	for i := 0; i < k; i++ {
		if oneIn(t, 3, "reset") {
			o := histOp{Reset: true}
			if oneIn(t, 2, "in") {
				o.Include = genIDs(t, near, "include")
			}
			if oneIn(t, 2, "ex") {
				o.Exclude = genIDs(t, near, "exclude")
			}
			c.Ops = append(c.Ops, o)
		} else {
			c.Ops = append(c.Ops, histOp{Pkg: upTo(t, n-1, "pkg"), Err: oneIn(t, 5, "err")})
		}
	}
	return c
}

func filtersOf(inc, exc []string) (rf []rules.RuleFilter, af []analyzers.AnalyzerFilter) {
	if len(inc) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, inc...))
		af = append(af, analyzers.NewAnalyzerFilter(false, inc...))
	}
	if len(exc) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, exc...))
		af = append(af, analyzers.NewAnalyzerFilter(true, exc...))
	}
	return
}

func errList(m map[string][]gosec.Error, dir string) []string {
	var out []string
	for f, es := range m {
		for _, e := range es {
			out = append(out, fmt.Sprintf("%s:%d:%d:%s", strings.TrimPrefix(f, dir), e.Line, e.Column, strings.ReplaceAll(e.Err, dir, "")))
		}
	}
	sort.Strings(out)
	return out
}

func runHist(c histCase, s *Stats) error {
	dir := caseDir()
	for _, p := range c.Pkgs {
		if err := writeFiles(dir, p); err != nil {
			return err
		}
	}
	o := ScanOpts{Globals: c.Global, Track: c.Track}
	key := func(i *issue.Issue) string { return issueFull(i, dir) }
	a := newAnalyzer(o, true, 1)
	var inc, exc []string
	var wantI, wantE []string
	var wantM gosec.Metrics
	scanOn := func(a *gosec.Analyzer, op histOp) error {
		pkg, _, err := makePackage(dir, c.Pkgs[op.Pkg])
		if err != nil {
			return err
		}
		for _, e := range pkg.TypeErrors {
			pkg.Errors = append(pkg.Errors, packages.Error{Pos: e.Fset.Position(e.Pos).String(), Msg: e.Msg, Kind: packages.TypeError})
		}
		if err := a.ParseErrors(pkg); err != nil {
			return violf("ParseErrors: %v", err)
		}
		a.CheckRules(pkg)
		a.CheckAnalyzers(pkg)
		if op.Err {
			a.AppendError(fmt.Sprintf("q%d", op.Pkg), fmt.Errorf("cannot load"))
		}
		return nil
	}
	resets, scansSince, nontriv := 0, 0, false
	// what was reported before a reset is not changed by what follows
	type reported struct {
		step int
		is   []*issue.Issue
		m    *gosec.Metrics
		es   map[string][]gosec.Error
		want [2][]string
		wm   gosec.Metrics
	}
	var earlier []reported
	for k, op := range c.Ops {
		if op.Reset {
			is, m, es := a.Report()
			earlier = append(earlier, reported{k, is, m, es, [2][]string{issueMultiset(is, key), errList(es, dir)}, *m})
			a.Reset()
			inc, exc = op.Include, op.Exclude
			rf, af := filtersOf(inc, exc)
			loadInto(a, o, rf, af)
			if len(wantI) > 0 {
				nontriv = true
			}
			wantI, wantE, wantM = nil, nil, gosec.Metrics{}
			resets++
			scansSince = 0
		} else {
			f := newAnalyzer(ScanOpts{Globals: c.Global, Track: c.Track, Include: inc, Exclude: exc}, true, 1)
			if err := scanOn(f, op); err != nil {
				return err
			}
			is, m, es := f.Report()
			wantI = append(wantI, issueMultiset(is, key)...)
			wantE = append(wantE, errList(es, dir)...)
			wantM.NumFiles += m.NumFiles
			wantM.NumLines += m.NumLines
			wantM.NumNosec += m.NumNosec
			wantM.NumFound += m.NumFound
			if err := scanOn(a, op); err != nil {
				return err
			}
			if scansSince++; scansSince > 1 && len(is) > 0 {
				nontriv = true
			}
		}
		is, m, es := a.Report()
		sort.Strings(wantI)
		sort.Strings(wantE)
		where := fmt.Sprintf("after step %d of the history", k+1)
		if d := diffMultiset(wantI, issueMultiset(is, key)); d != "" {
			return violf("%s: fresh analyzers (first) and this one (second) report different issues: %s\n%s", where, d, dumpFiles(c.Pkgs[0]))
		}
		if d := diffMultiset(wantE, errList(es, dir)); d != "" {
			return violf("%s: fresh analyzers (first) and this one (second) report different errors: %s", where, d)
		}
		if wantM != *m {
			return violf("%s: fresh analyzers count %+v, this one counts %+v\n%s", where, wantM, *m, dumpFiles(c.Pkgs[0]))
		}
	}
	for _, r := range earlier {
		if d := diffMultiset(r.want[0], issueMultiset(r.is, key)); d != "" {
			return violf("the issues reported before the reset in step %d (first) changed (second) later on: %s\n%s", r.step+1, d, dumpFiles(c.Pkgs[0]))
		}
		if d := diffMultiset(r.want[1], errList(r.es, dir)); d != "" {
			return violf("the errors reported before the reset in step %d (first) changed (second) later on: %s", r.step+1, d)
		}
		if r.wm != *r.m {
			return violf("the metrics reported before the reset in step %d were %+v and are %+v now", r.step+1, r.wm, *r.m)
		}
	}
	if nontriv {
		s.NonTrivial()
	}
	s.Label(fmt.Sprintf("%d resets", resets))
	if len(wantE) > 0 {
		s.Label("ends with errors")
	}
	return nil
}

func init() {
	register("C25", "distinct histories in which a reset follows a scan with issues, or a scan with issues follows another one without a reset", 6000, 150000, genHist, runHist)
}
