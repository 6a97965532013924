package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2/issue"
)

// C06: include and exclude lists are projections of the full scan.

type projCase struct {
	Files   []File
	Include []string
	Exclude []string
	Track   bool
	Audit   bool
	// how the lists are given to the command line tool: "" = in process, else two letters for include and exclude:
	// f = flag, c = configuration file, b = both (the flag wins, the file holds the other list)
	How string
}

func genIDs(t *rapid.T, near []string, label string) []string {
	n := sampled([]int{0, 1, 1, 2, 3, 6, 20}).Draw(t, label)
	var out []string
	for i := 0; i < n; i++ {
		switch {
		case len(near) > 0 && rapid.IntRange(0, 3).Draw(t, "near") > 0:
			out = append(out, sampled(near).Draw(t, "id"))
		case rapid.IntRange(0, 9).Draw(t, "odd") == 0:
			out = append(out, sampled([]string{"G999", "G10", "G1011", "g101", "G113", "X"}).Draw(t, "id"))
		default:
			out = append(out, sampled(ruleIDs).Draw(t, "id"))
		}
	}
	return out
}

var projRuleRe = strings.NewReplacer()

func genProj(cli bool) func(t *rapid.T) projCase {
	return func(t *rapid.T) projCase {
		c := projCase{Files: genProg(t, cli)}
		if rapid.IntRange(0, 2).Draw(t, "nosec") == 0 {
			c.Files = sprinkleNosec(t, c.Files)
		}
		// rules that the program probably violates
		near := guessRules(c.Files)
		c.Include = genIDs(t, near, "include")
		c.Exclude = genIDs(t, near, "exclude")
		c.Track = rapid.Bool().Draw(t, "track")
		c.Audit = rapid.Bool().Draw(t, "audit")
		if cli {
			c.How = sampled([]string{"ff", "fc", "cf", "cc", "bb"}).Draw(t, "how")
		}
		return c
	}
}

// guessRules scans the program to know which rules matter (only used to steer the generator).
func guessRules(files []File) []string {
	r, err := FastScan(files, ScanOpts{NoSec: true})
	if err != nil {
		return nil
	}
	m := map[string]bool{}
	for _, i := range r.Issues {
		m[i.RuleID] = true
	}
	return sortedKeys(m)
}

func setOf(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// projectKey describes an issue with the suppressions it must have under the given lists.
func runProj(c projCase, s *Stats) error {
	inc, exc := setOf(c.Include), setOf(c.Exclude)
	keep := func(id string) bool { return (len(inc) == 0 || inc[id]) && !exc[id] }
	var full, got []string
	dropped, kept := 0, 0
	if c.How == "" {
		var o ScanOpts
		o.Track = c.Track
		if c.Audit {
			o.Globals = map[string]string{"audit": "true"}
		}
		dir := caseDir()
		if err := writeFiles(dir, c.Files); err != nil {
			return err
		}
		r, err := scanDir(dir, c.Files, o)
		if err != nil {
			return err
		}
		if len(r.TypeErr) > 0 {
			return harnessf("ill-typed program %v", r.TypeErr)
		}
		for _, i := range r.Issues {
			if !keep(i.RuleID) {
				dropped++
				if !c.Track {
					continue
				}
				i.Suppressions = append(i.Suppressions, issue.SuppressionInfo{Kind: "external", Justification: "Globally suppressed."})
			} else {
				kept++
			}
			full = append(full, issueFull(i, dir))
		}
		o.Include, o.Exclude = c.Include, c.Exclude
		r2, err := scanDir(dir, c.Files, o)
		if err != nil {
			return err
		}
		got = issueMultiset(r2.Issues, func(i *issue.Issue) string { return issueFull(i, dir) })
	} else {
		some := false
		for _, id := range ruleIDs {
			some = some || keep(id)
		}
		if !some && !c.Track {
			return nil // the tool refuses to run without rules
		}
		dir, err := writeModule(c.Files)
		if err != nil {
			return err
		}
		var base, args []string
		cfg := map[string]any{}
		glob := map[string]any{}
		if c.Audit {
			base = append(base, "-enable-audit")
		}
		if c.Track {
			base = append(base, "-track-suppressions")
		}
		base = append(base, "-fmt=json", "-no-fail")
		put := func(how byte, name string, l, other []string) {
			v := strings.Join(l, ",")
			if how == 'f' || how == 'b' {
				if v != "" {
					args = append(args, "-"+name+"="+v)
				}
			}
			if how == 'c' {
				glob[name] = v
			}
			if how == 'b' && v != "" {
				glob[name] = strings.Join(other, ",")
			}
		}
		put(c.How[0], "include", c.Include, []string{"G101", "G401"})
		put(c.How[1], "exclude", c.Exclude, []string{"G101", "G401", "G104"})
		cfg["global"] = glob
		if err := writeJSON(dir+"/conf.json", cfg); err != nil {
			return harnessf("%v", err)
		}
		a := append(append([]string{}, base...), "./...")
		r, err := runCLI(dir, nil, a...)
		if err != nil {
			return err
		}
		rep, err := r.mustReport(a)
		if err != nil {
			return err
		}
		if len(rep.Errors) > 0 {
			return harnessf("program does not load: %v", rep.Errors)
		}
		for i := range rep.Issues {
			is := &rep.Issues[i]
			if !keep(is.RuleID) {
				dropped++
				if !c.Track {
					continue
				}
				is.Suppressions = append(is.Suppressions, struct {
					Kind          string `json:"kind"`
					Justification string `json:"justification"`
				}{"external", "Globally suppressed."})
			} else {
				kept++
			}
			full = append(full, is.full(dir))
		}
		a = append(append(append([]string{"-conf", "conf.json"}, base...), args...), "./...")
		r2, err := runCLI(dir, nil, a...)
		if err != nil {
			return err
		}
		rep2, err := r2.mustReport(a)
		if err != nil {
			return err
		}
		got = cliMultiset(rep2.Issues, func(i *cliIssue) string { return i.full(dir) })
	}
	sortStrings(full)
	if d := diffMultiset(full, got); d != "" {
		return violf("include %v exclude %v track=%v %s: projection of the full scan (first) and the scan (second) differ: %s\n%s", c.Include, c.Exclude, c.Track, c.How, d, dumpFiles(c.Files))
	}
	if dropped > 0 {
		s.NonTrivial()
		s.Label("some issues dropped")
		if kept > 0 {
			s.Label("some dropped and some kept")
		}
	}
	if c.Track {
		s.Label("with suppression tracking")
	}
	if c.How != "" {
		s.Label("through the command line " + c.How)
	}
	return nil
}

func init() {
	register("C06", "distinct programs and lists for which at least one issue of the full scan is left out by the lists", 12000, 200000,
		func(t *rapid.T) projCase {
			return genProj(oneIn(t, 60, "cli"))(t)
		}, runProj, needCLI, enumerate(enumProj))
}

// enumProj includes and excludes each rule alone on a sample that has findings of it, and each pair of rules found in one program.
func enumProj(string) []projCase {
	loadGoodCorpus()
	var out []projCase
	seen := map[string]int{}
	for _, i := range goodCorpus {
		p := corpus[i]
		ids := guessRules(p.files())
		for _, id := range ids {
			if seen[id]++; seen[id] > 4 {
				continue
			}
			out = append(out,
				projCase{Files: p.files(), Include: []string{id}},
				projCase{Files: p.files(), Exclude: []string{id}},
				projCase{Files: p.files(), Exclude: []string{id}, Track: true},
				projCase{Files: p.files(), Include: []string{id}, Track: true, Audit: true})
		}
		if len(ids) > 1 {
			out = append(out, projCase{Files: p.files(), Include: ids[:1], Exclude: ids[1:]}, projCase{Files: p.files(), Include: ids, Exclude: ids[1:], Track: true})
		}
	}
	return out
}

var _ = fmt.Sprint
