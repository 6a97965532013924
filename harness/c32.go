package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
)

// C32: where the output goes. A case is a module, the options of the analysis and a list of runs which differ in the
// destinations and formats. The reference is a JSON report of the same analysis, written in the format asked for by
// the report package (whose formats C08 to C10 judge).

type outRun struct {
	Fmt     string // "" = flag not given
	Verbose string
	Out     string // "", relative path of the output file
	Old     int    // bytes already in the output file, -1: no file
	Stdout  bool
	Color   string // "", "true", "false"
	Term    bool   // the environment claims a terminal with colours
	Quiet   bool
	Terse   bool
	Log     string
	NoFail  bool
	Order   int
}

type outCase struct {
	Files []File
	Track bool
	Show  bool
	Args  []string
	Runs  []outRun
}

func genOut(t *rapid.T) outCase {
	var c outCase
	fs := genProg(t, true)
	if rapid.IntRange(0, 1).Draw(t, "nosec") == 0 {
		fs = sprinkleNosec(t, fs)
	}
	c.Files = inDir("p0", fs)
	c.Args = []string{"./..."}
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		c.Files = []File{{"p0/x.go", "package p\n\nfunc F() int { return 1 }\n"}}
	case 1:
		c.Files = append(c.Files, File{"b/b.go", sampled(brokenPool).Draw(t, "bad")})
	case 2:
		c.Files = append(c.Files, inDir("p1", genProg(t, true))...)
		c.Args = sampled([][]string{{"./..."}, {"./p0", "./p1"}, {"p1/...", "./p0/..."}}).Draw(t, "args")
	}
	c.Track = rapid.IntRange(0, 2).Draw(t, "track") == 0
	c.Show = rapid.IntRange(0, 2).Draw(t, "show") == 0
	formats := []string{"json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif", "text", "", "JSON", "xml"}
	for i := 0; i < 4; i++ {
		r := outRun{
			Fmt:   sampled(formats).Draw(t, "fmt"),
			Color: sampled([]string{"", "", "true", "false"}).Draw(t, "color"),
			Term:  rapid.Bool().Draw(t, "term"), Quiet: rapid.IntRange(0, 2).Draw(t, "quiet") == 0,
			Terse: rapid.IntRange(0, 4).Draw(t, "terse") == 0, NoFail: rapid.IntRange(0, 3).Draw(t, "nofail") == 0,
			Order: upTo(t, 1000, "order"), Old: -1,
		}
		if rapid.IntRange(0, 2).Draw(t, "verbosep") == 0 {
			r.Verbose = sampled(formats).Draw(t, "verbose")
		}
		if rapid.IntRange(0, 3).Draw(t, "outp") > 0 {
			r.Out = sampled([]string{"report.out", "p0/r.go.txt", "o.json", "a b"}).Draw(t, "out")
			r.Stdout = rapid.IntRange(0, 2).Draw(t, "stdout") > 0
			if rapid.Bool().Draw(t, "oldp") {
				r.Old = sampled([]int{0, 1, 20, 300000}).Draw(t, "old")
			}
		} else {
			r.Stdout = rapid.IntRange(0, 3).Draw(t, "stdout") == 0
		}
		if rapid.IntRange(0, 2).Draw(t, "logp") == 0 {
			r.Log = "the.log"
		}
		c.Runs = append(c.Runs, r)
	}
	return c
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// reportInfo rebuilds the data of a JSON report.
func reportInfo(text string) (*gosec.ReportInfo, error) {
	rep, err := parseReport([]byte(text))
	if err != nil {
		return nil, err
	}
	var v struct{ GosecVersion string }
	if err := json.Unmarshal([]byte(text), &v); err != nil {
		return nil, err
	}
	d := &gosec.ReportInfo{
		Errors: map[string][]gosec.Error{}, Issues: []*issue.Issue{}, GosecVersion: v.GosecVersion,
		Stats: &gosec.Metrics{NumFiles: rep.Stats.Files, NumLines: rep.Stats.Lines, NumNosec: rep.Stats.Nosec, NumFound: rep.Stats.Found},
	}
	for f, es := range rep.Errors {
		for _, e := range es {
			d.Errors[f] = append(d.Errors[f], gosec.Error{Line: e.Line, Column: e.Column, Err: e.Err})
		}
	}
	for i := range rep.Issues {
		r := &rep.Issues[i]
		x := &issue.Issue{
			Severity: issue.Score(scoreOf[r.Severity]), Confidence: issue.Score(scoreOf[r.Confidence]), Cwe: issue.GetCweByRule(r.RuleID),
			RuleID: r.RuleID, What: r.Details, File: r.File, Code: r.Code, Line: r.Line, Col: r.Column, NoSec: r.NoSec, Autofix: r.Autofix,
		}
		for _, s := range r.Suppressions {
			x.Suppressions = append(x.Suppressions, issue.SuppressionInfo{Kind: s.Kind, Justification: s.Justification})
		}
		d.Issues = append(d.Issues, x)
	}
	return d, nil
}

var logTime = regexp.MustCompile(`(?m)^(\[gosec\] )\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// logLines gives the lines of a log without the time, sorted.
func logLines(s string) string {
	l := strings.Split(strings.TrimRight(logTime.ReplaceAllString(s, "$1"), "\n"), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func runOut(c outCase, s *Stats) error {
	dir, err := writeModule(c.Files)
	if err != nil {
		return err
	}
	var base []string
	if c.Track {
		base = append(base, "-track-suppressions")
	}
	if c.Show {
		base = append(base, "-show-ignored")
	}
	all, err := runCLI(dir, nil, append(append([]string{}, base...), append([]string{"-fmt=json"}, c.Args...)...)...)
	if err != nil {
		return err
	}
	if _, err := all.mustReport(base); err != nil {
		return err
	}
	data, err := reportInfo(all.Stdout)
	if err != nil {
		return violf("the JSON report cannot be read: %v", err)
	}
	var roots []string
	for _, a := range c.Args {
		roots = append(roots, filepath.Clean(filepath.Join(dir, strings.TrimSuffix(a, "..."))))
	}
	want := func(format string) (string, error) {
		var b bytes.Buffer
		if err := report.CreateReport(&b, format, false, roots, data); err != nil {
			return "", violf("writing a %q report: %v", format, err)
		}
		return b.String(), nil
	}
	known := map[string]bool{"json": true, "yaml": true, "csv": true, "junit-xml": true, "html": true, "sonarqube": true, "golint": true, "sarif": true}
	for _, r := range c.Runs {
		var flags []string
		add := func(cond bool, f string) {
			if cond {
				flags = append(flags, f)
			}
		}
		add(r.Fmt != "", "-fmt="+r.Fmt)
		add(r.Verbose != "", "-verbose="+r.Verbose)
		add(r.Out != "", "-out="+r.Out)
		add(r.Stdout, "-stdout")
		add(r.Color != "", "-color="+r.Color)
		add(r.Quiet, "-quiet")
		add(r.Terse, "-terse")
		add(r.Log != "", "-log="+r.Log)
		add(r.NoFail, "-no-fail")
		flags = append(flags, base...)
		if n := len(flags); n > 1 { // flags mean the same in any order
			k := r.Order % n
			flags = append(append([]string{}, flags[k:]...), flags[:k]...)
		}
		a := append(flags, c.Args...)
		where := fmt.Sprintf("gosec %q", a)
		out, logf := filepath.Join(dir, r.Out), filepath.Join(dir, "the.log")
		_ = os.Remove(logf)
		if r.Out != "" {
			_ = os.Remove(out)
			if r.Old >= 0 {
				if err := os.WriteFile(out, bytes.Repeat([]byte("old\n"), r.Old/4+1)[:r.Old], 0o644); err != nil {
					return harnessf("%v", err)
				}
			}
		}
		env := []string{"NO_COLOR=", "FORCE_COLOR=", "COLORTERM="}
		if r.Term {
			env = []string{"NO_COLOR=", "FORCE_COLOR=true", "COLORTERM=truecolor", "TERM=xterm-256color"}
		}
		got, err := runCLI(dir, env, a...)
		if err != nil {
			return err
		}
		wantExit := all.Exit
		if r.NoFail {
			wantExit = 0
		}
		if got.Exit != wantExit {
			return violf("%s: exit status %d, but %d with the report as JSON on standard output\n%s\n%s", where, got.Exit, all.Exit, tail(got.Stderr, 1500), dumpFiles(c.Files))
		}
		silent := r.Quiet && len(data.Issues) == 0 && len(data.Errors) == 0
		// the log
		log := got.Stderr
		if r.Log != "" {
			if got.Stderr != "" {
				return violf("%s: output on standard error although the log has a file: %s", where, tail(got.Stderr, 1500))
			}
			b, err := os.ReadFile(logf)
			if err != nil {
				return violf("%s: no log file: %v", where, err)
			}
			log = string(b)
		}
		if r.Quiet || r.Terse {
			if log != "" {
				return violf("%s: log messages: %s", where, tail(log, 1500))
			}
		} else if l1, l2 := logLines(all.Stderr), logLines(log); l1 != l2 {
			return violf("%s: the log is not that of the run with a JSON report:\n%s\nversus\n%s", where, tail(l1, 1500), tail(l2, 1500))
		}
		// standard output
		format := r.Fmt
		if r.Verbose != "" {
			format = r.Verbose
		}
		switch {
		case silent || r.Out != "" && !r.Stdout:
			if got.Stdout != "" {
				return violf("%s: output on standard output: %s", where, tail(got.Stdout, 1500))
			}
		default:
			w, err := want(format)
			if err != nil {
				return err
			}
			text := got.Stdout
			if r.Color != "false" && !known[format] {
				text = ansi.ReplaceAllString(text, "")
				if text != got.Stdout {
					s.Label("coloured")
				}
			}
			if text != w {
				return violf("%s: standard output is not the %q report of these findings: %s\n%s", where, format, firstDiff(w, text), dumpFiles(c.Files))
			}
		}
		// the output file
		if r.Out != "" {
			b, err := os.ReadFile(out)
			switch {
			case silent:
				if r.Old < 0 && err == nil {
					return violf("%s: an output file although there is nothing to report", where)
				}
				if r.Old >= 0 && (err != nil || len(b) != r.Old) {
					return violf("%s: the existing output file changed although there is nothing to report", where)
				}
			case err != nil:
				return violf("%s: no output file: %v", where, err)
			default:
				w, err := want(r.Fmt)
				if err != nil {
					return err
				}
				if string(b) != w {
					return violf("%s: the output file is not the %q report of these findings: %s\n%s", where, r.Fmt, firstDiff(w, string(b)), dumpFiles(c.Files))
				}
			}
		}
		if r.Out != "" && !silent && (r.Stdout && format != r.Fmt || r.Old > 20 || r.Term) {
			js, _ := json.Marshal(r)
			s.NonTrivialKey(string(s.curKey) + string(js))
		}
		if silent {
			s.Label("nothing to say")
		}
		s.Label("format " + format)
		if r.Out != "" {
			s.Label("file " + r.Fmt)
		}
		if r.Stdout && r.Out != "" && format != r.Fmt {
			s.Label("file and standard output in different formats")
		}
	}
	return nil
}

// firstDiff shows where two texts part.
func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		to := i + 120
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			return ""
		}
		return s[from:to]
	}
	return fmt.Sprintf("at byte %d: want %q, got %q", i, cut(want), cut(got))
}

func init() {
	register("C32", "distinct runs with an output file and standard output in different formats, a longer file to replace, or a terminal with colours", 120, 4000, genOut, runOut, needCLI, shrinkSeconds(60))
}
