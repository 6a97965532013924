package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2/issue"
)

// C02: the same packages with the same configuration give the same result, whatever the schedule, the order of the
// arguments, the process and the repetition.

type schedRun struct {
	Conc  int
	Procs int // GOMAXPROCS
	Perm  []int
	Rec   bool // ./... instead of the list of packages
	Race  bool // with the race detector
}

type schedCase struct {
	Pkgs   [][]File // several packages scanned with the command line tool; one package: repeated in the process
	Deps   []bool   // package i imports its predecessor
	Broken []int
	Track  bool
	Show   bool
	Tests  bool
	Runs   []schedRun
}

func genSched(t *rapid.T) schedCase {
	var c schedCase
	if !oneIn(t, 30, "cli") {
		fs := genProg(t, false)
		if oneIn(t, 2, "nosec") {
			fs = sprinkleNosec(t, fs)
		}
		c.Pkgs = [][]File{fs}
		c.Track = oneIn(t, 2, "track")
		return c
	}
	n := 2 + upTo(t, 7, "pkgs")
	for i := 0; i < n; i++ {
		fs := genProg(t, true)
		if oneIn(t, 2, "nosec") {
			fs = sprinkleNosec(t, fs)
		}
		if oneIn(t, 6, "broken") {
			c.Broken = append(c.Broken, i)
			for k := 0; k <= upTo(t, 2, "bad files"); k++ {
				src := sampled(brokenPool).Draw(t, "bad")
				fs = append(fs, File{fmt.Sprintf("zz%d.go", k), strings.Replace(src, "package b", "package "+pkgNameOf(fs[0].Src), 1)})
			}
		}
		if oneIn(t, 4, "test") {
			fs = append(fs, File{"v_test.go", "package " + pkgNameOf(fs[0].Src) + "\n\nimport _ \"crypto/md5\"\n"})
		}
		c.Pkgs = append(c.Pkgs, fs)
		c.Deps = append(c.Deps, oneIn(t, 3, "dep"))
	}
	c.Track = oneIn(t, 2, "track")
	c.Show = oneIn(t, 4, "show")
	c.Tests = oneIn(t, 3, "tests")
	for i := 0; i < 4; i++ {
		c.Runs = append(c.Runs, schedRun{
			Conc: sampled([]int{1, 2, 3, 8, 16, 64, 0}).Draw(t, "conc"), Procs: sampled([]int{1, 2, 8}).Draw(t, "procs"),
			Perm: permutation(t, n), Rec: oneIn(t, 3, "rec"), Race: i == 3,
		})
	}
	return c
}

func runSched(c schedCase, s *Stats) error {
	if len(c.Pkgs) == 1 {
		dir := caseDir()
		if err := writeFiles(dir, c.Pkgs[0]); err != nil {
			return err
		}
		var first []string
		for i := 0; i < 6; i++ {
			res, err := scanDir(dir, c.Pkgs[0], ScanOpts{Track: c.Track})
			if err != nil {
				return err
			}
			keys := append(issueMultiset(res.Issues, func(i *issue.Issue) string { return issueFull(i, dir) }), fmt.Sprintf("%+v", *res.Metrics))
			if i == 0 {
				first = keys
				continue
			}
			if d := diffMultiset(first, keys); d != "" {
				return violf("two scans of one package differ: %s\n%s", d, dumpFiles(c.Pkgs[0]))
			}
		}
		if len(first) > 2 {
			s.NonTrivial()
		}
		s.Label("package scanned six times")
		return nil
	}
	var files []File
	for i, fs := range c.Pkgs {
		files = append(files, inDir(fmt.Sprintf("p%d", i), fs)...)
		if i > 0 && c.Deps[i] && pkgNameOf(c.Pkgs[i-1][0].Src) != "main" {
			files = append(files, File{fmt.Sprintf("p%d/zdep.go", i), fmt.Sprintf("package %s\n\nimport _ \"example.com/m/p%d\"\n", pkgNameOf(fs[0].Src), i-1)})
		}
	}
	dir, err := writeModule(files)
	if err != nil {
		return err
	}
	run := func(r schedRun) (*cliResult, *cliReport, []string, error) {
		args := []string{"-fmt=json", "-quiet=false", fmt.Sprintf("-concurrency=%d", r.Conc)}
		if c.Track {
			args = append(args, "-track-suppressions")
		}
		if c.Show {
			args = append(args, "-show-ignored")
		}
		if c.Tests {
			args = append(args, "-tests")
		}
		if r.Rec {
			args = append(args, "./...")
		} else {
			for _, k := range r.Perm {
				args = append(args, fmt.Sprintf("./p%d", k))
			}
		}
		bin := gosecBin
		if r.Race {
			bin = gosecRace
		}
		res, err := runBin(bin, dir, []string{fmt.Sprintf("GOMAXPROCS=%d", r.Procs), "GORACE=exitcode=66"}, args...)
		if err != nil {
			return nil, nil, args, err
		}
		if i := strings.Index(res.Stderr, "WARNING: DATA RACE"); i >= 0 {
			return nil, nil, args, violf("gosec %v: the result depends on the schedule: %s", args, tail(res.Stderr[i:], 3000))
		}
		rep, err := res.mustReport(args)
		return res, rep, args, err
	}
	id := make([]int, len(c.Pkgs))
	for i := range id {
		id[i] = i
	}
	r0, rep0, args0, err := run(schedRun{Conc: 1, Procs: 4, Perm: id})
	if err != nil {
		return err
	}
	full := func(i *cliIssue) string { return i.full(dir) }
	want := cliMultiset(rep0.Issues, full)
	e0, _ := json.Marshal(rep0.Errors)
	for _, r := range c.Runs {
		res, rep, args, err := run(r)
		if err != nil {
			return err
		}
		where := fmt.Sprintf("gosec %v (first) and gosec %v with GOMAXPROCS=%d (second)", args0, args, r.Procs)
		if d := diffMultiset(want, cliMultiset(rep.Issues, full)); d != "" {
			return violf("%s differ: %s\n%s", where, d, dumpFiles(files))
		}
		if e, _ := json.Marshal(rep.Errors); string(e) != string(e0) {
			return violf("%s report different errors: %s versus %s\n%s", where, e0, e, dumpFiles(files))
		}
		if rep.Stats != rep0.Stats {
			return violf("%s report different metrics: %+v versus %+v\n%s", where, rep0.Stats, rep.Stats, dumpFiles(files))
		}
		if res.Exit != r0.Exit {
			return violf("%s end with exit status %d and %d\n%s", where, r0.Exit, res.Exit, dumpFiles(files))
		}
		s.Label(fmt.Sprintf("concurrency %d", r.Conc))
		if r.Race {
			s.Label("with the race detector")
		}
	}
	if len(want) > 1 {
		s.NonTrivial()
	}
	if len(c.Broken) > 0 {
		s.Label("with broken packages")
	}
	return nil
}

func init() {
	register("C02", "distinct packages or sets of packages with at least two findings", 1600, 60000, genSched, runSched, needRace, shrinkSeconds(60))
}
