package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C07: thresholds, found count, exit status and the flags that only concern the output. A case is a module, the
// options of the analysis and a list of runs which differ only in thresholds and output flags.

type thrRun struct {
	Sev, Conf string // "" = flag not given
	NoFail    bool
	Quiet     bool
	Sort      string // "", "true", "false"
	Out       bool   // -out file -stdout
}

type thrCase struct {
	Files       []File
	ShowIgnored string // "", "flag", "conf"
	Track       bool
	NoSec       bool
	Exclude     string
	Runs        []thrRun
}

var brokenPool = []string{
	"package b\n\nfunc F() int { return undefinedThing }\n",
	"package b\n\nfunc F() int { return \"x\" }\n\nvar x int = nil\n",
	"package b\n\nfunc F( {\n",
	"package b\n\nimport \"example.com/m/none\"\n\nvar X = none.Y\n",
	"package b\n\nimport \"unused\"\n",
}

func genThr(t *rapid.T) thrCase {
	var c thrCase
	n := 1 + upTo(t, 2, "pkgs")
	for i := 0; i < n; i++ {
		fs := genProg(t, true)
		if rapid.IntRange(0, 1).Draw(t, "nosec") == 0 {
			fs = sprinkleNosec(t, fs)
		}
		c.Files = append(c.Files, inDir(fmt.Sprintf("p%d", i), fs)...)
	}
	if rapid.IntRange(0, 3).Draw(t, "clean") == 0 {
		c.Files = []File{{"p0/x.go", "package p\n\nfunc F() int { return 1 }\n"}}
	}
	if rapid.IntRange(0, 4).Draw(t, "broken") == 0 {
		c.Files = append(c.Files, File{"b/b.go", sampled(brokenPool).Draw(t, "bad")})
	}
	c.ShowIgnored = sampled([]string{"", "", "flag", "conf"}).Draw(t, "show")
	c.Track = rapid.Bool().Draw(t, "track")
	c.NoSec = rapid.IntRange(0, 5).Draw(t, "ignore") == 0
	if rapid.IntRange(0, 2).Draw(t, "ex") == 0 {
		c.Exclude = strings.Join(genIDs(t, guessRules(c.Files[:1]), "exclude"), ",")
	}
	levels := []string{"", "low", "medium", "high", "LOW", "High"}
	for i := 0; i < 4; i++ {
		c.Runs = append(c.Runs, thrRun{
			Sev: sampled(levels).Draw(t, "sev"), Conf: sampled(levels).Draw(t, "conf"),
			NoFail: rapid.IntRange(0, 3).Draw(t, "nofail") == 0, Quiet: rapid.IntRange(0, 2).Draw(t, "quiet") == 0,
			Sort: sampled([]string{"", "", "true", "false"}).Draw(t, "sort"), Out: rapid.IntRange(0, 3).Draw(t, "out") == 0,
		})
	}
	return c
}

var scoreOf = map[string]int{"LOW": 0, "MEDIUM": 1, "HIGH": 2}

func runThr(c thrCase, s *Stats) error {
	dir, err := writeModule(c.Files)
	if err != nil {
		return err
	}
	args := []string{"-fmt=json"}
	conf := map[string]any{"global": map[string]any{}}
	switch c.ShowIgnored {
	case "flag":
		args = append(args, "-show-ignored")
	case "conf":
		conf["global"] = map[string]any{"show-ignored": "true"}
	}
	if c.Track {
		args = append(args, "-track-suppressions")
	}
	if c.NoSec {
		args = append(args, "-nosec")
	}
	if c.Exclude != "" {
		args = append(args, "-exclude="+c.Exclude)
	}
	if err := writeJSON(dir+"/conf.json", conf); err != nil {
		return harnessf("%v", err)
	}
	args = append(args, "-conf", "conf.json")
	all, err := runCLI(dir, nil, append(append([]string{}, args...), "-no-fail", "./...")...)
	if err != nil {
		return err
	}
	base, err := all.mustReport(args)
	if err != nil {
		return err
	}
	if all.Exit != 0 {
		return violf("-no-fail ends with exit status %d\n%s", all.Exit, dumpFiles(c.Files))
	}
	for _, r := range c.Runs {
		min := func(v string) int {
			if v == "" {
				return 0
			}
			return scoreOf[strings.ToUpper(v)]
		}
		var want []string
		real := 0
		for i := range base.Issues {
			is := &base.Issues[i]
			if scoreOf[is.Severity] >= min(r.Sev) && scoreOf[is.Confidence] >= min(r.Conf) {
				want = append(want, is.full(dir))
				if !is.NoSec && len(is.Suppressions) == 0 {
					real++
				}
			}
		}
		sort.Strings(want)
		a := append([]string{}, args...)
		add := func(cond bool, f string) {
			if cond {
				a = append(a, f)
			}
		}
		add(r.Sev != "", "-severity="+r.Sev)
		add(r.Conf != "", "-confidence="+r.Conf)
		add(r.NoFail, "-no-fail")
		add(r.Quiet, "-quiet")
		add(r.Sort != "", "-sort="+r.Sort)
		add(r.Out, "-out="+filepath.Join(dir, "out.json"))
		add(r.Out, "-stdout")
		a = append(a, "./...")
		_ = os.Remove(filepath.Join(dir, "out.json"))
		got, err := runCLI(dir, nil, a...)
		if err != nil {
			return err
		}
		wantExit := 0
		if (real > 0 || len(base.Errors) > 0) && !r.NoFail {
			wantExit = 1
		}
		where := fmt.Sprintf("gosec %v", a)
		if got.Exit != wantExit {
			return violf("%s: exit status %d, but %d unsuppressed issues and %d files with errors ask for %d\n%s\n%s", where, got.Exit, real, len(base.Errors), wantExit, got.Stdout, dumpFiles(c.Files))
		}
		if len(want) == 0 && r.Quiet && len(base.Errors) == 0 {
			if got.Stdout != "" {
				return violf("%s: output although nothing was found: %s", where, got.Stdout)
			}
			s.Label("quiet and nothing found")
			continue
		}
		rep, err := got.mustReport(a)
		if err != nil {
			return err
		}
		if d := diffMultiset(want, cliMultiset(rep.Issues, func(i *cliIssue) string { return i.full(dir) })); d != "" {
			return violf("%s: issues of the full report within the thresholds (first) and issues reported (second) differ: %s\n%s", where, d, dumpFiles(c.Files))
		}
		if rep.Stats.Found != real {
			return violf("%s: found is %d, but %d unsuppressed issues are reported\n%s", where, rep.Stats.Found, real, dumpFiles(c.Files))
		}
		if e1, e2 := fmt.Sprint(base.Errors), fmt.Sprint(rep.Errors); e1 != e2 {
			return violf("%s: errors differ: %s versus %s", where, e1, e2)
		}
		if rep.Stats.Files != base.Stats.Files || rep.Stats.Lines != base.Stats.Lines || rep.Stats.Nosec != base.Stats.Nosec {
			return violf("%s: metrics differ: %+v versus %+v", where, base.Stats, rep.Stats)
		}
		if r.Sort != "false" {
			for i := 1; i < len(rep.Issues); i++ {
				if scoreOf[rep.Issues[i].Severity] > scoreOf[rep.Issues[i-1].Severity] {
					return violf("%s: not sorted by descending severity: %s before %s", where, rep.Issues[i-1].full(dir), rep.Issues[i].full(dir))
				}
			}
		}
		if r.Out {
			b, err := os.ReadFile(filepath.Join(dir, "out.json"))
			if err != nil {
				return violf("%s: no output file: %v", where, err)
			}
			frep, err := parseReport(b)
			if err != nil {
				return violf("%s: output file is no JSON report: %v", where, err)
			}
			x, _ := json.Marshal(rep)
			y, _ := json.Marshal(frep)
			if string(x) != string(y) {
				return violf("%s: output file and standard output differ: %s versus %s", where, y, x)
			}
		}
		js, _ := json.Marshal(r)
		if len(want) < len(base.Issues) && len(want) > 0 {
			s.NonTrivialKey(string(s.curKey) + string(js))
			s.Label("thresholds drop some issues")
		}
		if len(want) > 0 && real == 0 {
			s.NonTrivialKey(string(s.curKey) + string(js))
			s.Label("only suppressed issues reported")
		}
		s.Label(fmt.Sprintf("exit status %d", got.Exit))
		if len(base.Errors) > 0 {
			s.Label("with Golang errors")
		}
	}
	return nil
}

func init() {
	register("C07", "distinct runs whose thresholds leave out some but not all issues, or in which only suppressed issues are reported", 160, 6000, genThr, runThr, needCLI, shrinkSeconds(60))
}
