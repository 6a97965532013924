package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"golang.org/x/tools/go/packages"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
)

// C03: results of a package do not depend on what else is scanned; results of a file do not depend on unrelated files.

type indepCase struct {
	Pkgs   [][]File // packages; in mode merge: parts of one package
	Order  []int    // order in which they are scanned together
	Mode   string   // "packages" or "merge"
	Track  bool
	Old    bool  // for Go 1.21
	Broken []int // indices of packages with type errors (mode packages)
}

func permutation(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := upTo(t, i, "perm")
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func genIndep(t *rapid.T) indepCase {
	var c indepCase
	n := 2 + upTo(t, 3, "parts")
	c.Mode = sampled([]string{"packages", "merge"}).Draw(t, "mode")
	c.Track = oneIn(t, 3, "track")
	c.Old = oneIn(t, 3, "old")
	for i := 0; i < n; i++ {
		fs := genProg(t, false)
		if oneIn(t, 3, "nosec") {
			fs = sprinkleNosec(t, fs)
		}
		if c.Mode == "merge" {
			fs = suffixTopLevel(fs, fmt.Sprintf("_%d", i))
			if fs == nil {
				fs = []File{{"x.go", "package p\n"}}
			}
			fs = setPackage(fs, "p")
			for k := range fs {
				fs[k].Name = fmt.Sprintf("m%d_%s", i, fs[k].Name)
			}
		} else {
			if oneIn(t, 6, "broken") {
				c.Broken = append(c.Broken, i)
				fs = append(fs, File{"zz.go", strings.Replace("package NAME\n\nvar zz int = undefinedName + \"x\"\n", "NAME", pkgNameOf(fs[0].Src), 1)})
			}
			// the same file names in every package
			fs = inDir(fmt.Sprintf("q%d", i), fs)
		}
		c.Pkgs = append(c.Pkgs, fs)
	}
	c.Order = permutation(t, n)
	return c
}

func scanPkgs(dir string, groups [][]File, o ScanOpts) (map[string][]string, *gosec.Metrics, error) {
	a := newAnalyzer(o, true, 1)
	for _, g := range groups {
		pkg, _, err := makePackage(dir, g)
		if err != nil {
			return nil, nil, err
		}
		a.CheckRules(pkg)
		a.CheckAnalyzers(pkg)
	}
	is, m, _ := a.Report()
	per := map[string][]string{}
	for _, i := range is {
		per[strings.TrimPrefix(i.File, dir+"/")] = append(per[strings.TrimPrefix(i.File, dir+"/")], issueFull(i, dir))
	}
	for k := range per {
		sort.Strings(per[k])
	}
	return per, m, nil
}

var _ = packages.NeedName
var _ issue.Score

func runIndep(c indepCase, s *Stats) error {
	defer goVersion(c.Old)()
	dir := caseDir()
	var all []File
	for _, p := range c.Pkgs {
		all = append(all, p...)
	}
	if err := writeFiles(dir, all); err != nil {
		return err
	}
	o := ScanOpts{Track: c.Track}
	var groups [][]File
	if c.Mode == "merge" {
		var g []File
		for _, i := range c.Order {
			g = append(g, c.Pkgs[i]...)
		}
		if checkFiles(g) == nil {
			s.Label("left out: the parts do not fit together")
			return nil
		}
		groups = [][]File{g}
	} else {
		for _, i := range c.Order {
			groups = append(groups, c.Pkgs[i])
		}
	}
	together, tm, err := scanPkgs(dir, groups, o)
	if err != nil {
		return err
	}
	var sum gosec.Metrics
	with := 0
	for i, p := range c.Pkgs {
		alone, am, err := scanPkgs(dir, [][]File{p}, o)
		if err != nil {
			return err
		}
		sum.NumFiles += am.NumFiles
		sum.NumLines += am.NumLines
		sum.NumNosec += am.NumNosec
		sum.NumFound += am.NumFound
		n := 0
		for _, f := range p {
			n += len(alone[f.Name])
			if d := diffMultiset(alone[f.Name], together[f.Name]); d != "" {
				return violf("issues of part %d, file %s, scanned alone (first) and together with the other parts in the order %v, mode %s (second) differ: %s\n%s", i, f.Name, c.Order, c.Mode, d, dumpFiles(all))
			}
		}
		if n > 0 {
			with++
		}
	}
	if sum != *tm {
		return violf("metrics of the separate scans add up to %+v, together they are %+v\n%s", sum, *tm, dumpFiles(all))
	}
	for f := range together {
		ok := false
		for _, x := range all {
			ok = ok || x.Name == f
		}
		if !ok {
			return violf("an issue in %s, which is no scanned file", f)
		}
	}
	s.Label("mode " + c.Mode)
	if with >= 2 {
		s.NonTrivial()
		s.Label("mode " + c.Mode + ", at least two parts with issues")
	}
	return nil
}

var _ = filepath.Base

func init() {
	register("C03", "distinct sets of packages (or parts of one package) of which at least two have issues", 12000, 300000, genIndep, runIndep)
}
