package main

import (
	"encoding/csv"
	"fmt"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"

	gosec "github.com/securego/gosec/v2"
)

// C08: the JSON, YAML, CSV, golint and text reports.

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

func (i *repIssue) cweName(nilName string) string {
	if w := i.real().Cwe; w != nil {
		return "CWE-" + w.ID
	}
	return nilName
}

func runReports(c repCase, s *Stats) error {
	if c.keysCollide() {
		return nil
	}
	shown := c.shown()
	// JSON
	out, err := c.write("json", c.Color)
	if err != nil {
		return err
	}
	if err := sameJSON(out, c.jsonWantAll(c.Issues)); err != nil {
		return violf("JSON report: %v", err)
	}
	// CSV
	if out, err = c.write("csv", c.Color); err != nil {
		return err
	}
	r := csv.NewReader(strings.NewReader(out))
	r.FieldsPerRecord = -1
	recs, err := r.ReadAll()
	if err != nil {
		return violf("the CSV report does not parse: %v\n%q", err, out)
	}
	if len(recs) != len(shown) {
		return violf("the CSV report has %d records for %d issues\n%q", len(recs), len(shown), out)
	}
	for k := range shown {
		i := &shown[k]
		w := []string{string(i.File), i.line(), string(i.What), scoreNames[i.Sev], scoreNames[i.Conf], string(i.Code), i.cweName("CWE-0000")}
		for f := range w {
			w[f] = strings.ReplaceAll(w[f], "\r\n", "\n") // CSV readers take both for one line end
		}
		if a, b := fmt.Sprintf("%q", w), fmt.Sprintf("%q", recs[k]); a != b {
			return violf("CSV report, record %d: expected %s, got %s", k+1, a, b)
		}
	}
	// golint
	if out, err = c.write("golint", c.Color); err != nil {
		return err
	}
	var b strings.Builder
	for k := range shown {
		i := &shown[k]
		tag := ""
		if !i.NoCwe && i.real().Cwe != nil {
			tag = "[" + i.cweName("") + "] "
		}
		fmt.Fprintf(&b, "%s:%d:%d: %s%s (Rule:%s, Severity:%s, Confidence:%s)\n", i.File, i.From, i.Col, tag, i.What, i.Rule, scoreNames[i.Sev], scoreNames[i.Conf])
	}
	if b.String() != out {
		return violf("golint report: expected %q, got %q", b.String(), out)
	}
	// text
	if out, err = c.write("text", c.Color); err != nil {
		return err
	}
	b.Reset()
	b.WriteString("Results:\n")
	es := c.data().Errors
	for _, f := range sortedKeys(es) {
		fmt.Fprintf(&b, "Golang errors in file: [%s]:\n", f)
		for _, e := range es[f] {
			fmt.Fprintf(&b, "  > [line %d : column %d] - %s\n", e.Line, e.Column, e.Err)
		}
	}
	for k := range shown {
		i := &shown[k]
		nosec := ""
		if i.NoSec {
			nosec = " (NoSec)"
		}
		fmt.Fprintf(&b, "[%s:%s] - %s%s (%s): %s (Confidence: %s, Severity: %s)\n", i.File, i.line(), i.Rule, nosec, i.cweName("CWE"), i.What, scoreNames[i.Conf], scoreNames[i.Sev])
		if i.Plain {
			b.WriteString(markedCode(i))
		} else {
			b.WriteString(strings.ReplaceAll("\n"+strings.TrimSuffix(string(i.Code), "\n"), "\n", "\n    ")[1:] + "\n")
		}
		fmt.Fprintf(&b, "Autofix: %s\n", i.Autofix)
	}
	fmt.Fprintf(&b, "Summary:\n  Gosec  : %s\n  Files  : %d\n  Lines  : %d\n  Nosec  : %d\n  Issues : %d\n", c.Version, c.Stats[0], c.Stats[1], c.Stats[2], c.Stats[3])
	strip := func(s string) string {
		if c.Color {
			s = ansiRe.ReplaceAllString(s, "")
		}
		var ls []string
		for _, l := range strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n") {
			if l = strings.TrimRight(l, " \t\r"); strings.TrimSpace(l) != "" {
				ls = append(ls, l)
			}
		}
		return strings.Join(ls, "\n")
	}
	for k := range shown {
		if !shown[k].Plain {
			strip0 := strip
			strip = func(s string) string { return strings.ReplaceAll(strip0(s), "  > ", "    ") }
			break
		}
	}
	if c.Color && strings.ContainsAny(c.dump(), "<\x1b") {
		s.Label("text report with colours left out: markup in the data")
	} else if w, g := strip(b.String()), strip(out); w != g {
		return violf("text report, without blank lines: expected\n%q\ngot\n%q", w, g)
	}
	// YAML
	if out, err = c.write("yaml", c.Color); err != nil {
		return err
	}
	var back gosec.ReportInfo
	bad := violf
	if c.yamlBlank() {
		bad = func(f string, a ...any) error { return violk("yaml-leading-blank", f, a...) }
	}
	if err := yaml.Unmarshal([]byte(out), &back); err != nil {
		return bad("the YAML report does not parse: %v\n%s\n%s", err, out, c.dump())
	}
	want := c.data()
	want.Issues = nil
	for k := range shown {
		want.Issues = append(want.Issues, shown[k].real())
	}
	if back.Stats == nil {
		return bad("the YAML report has no metrics: %s", out)
	}
	if a, b := fingerprint(want), fingerprint(&back); a != b {
		return bad("YAML report: expected\n%s\nparsed back\n%s\nreport\n%s", a, b, out)
	}
	s.LabelN("issues written", len(c.Issues))
	odd, sup := false, false
	for k := range c.Issues {
		i := &c.Issues[k]
		sup = sup || len(i.Sups) > 0
		odd = odd || strings.ContainsAny(string(i.What+i.File+i.Code), "<&\"'\n\x00\x1b")
	}
	if odd && len(shown) > 0 {
		s.NonTrivial()
	}
	if sup && len(shown) > 0 {
		s.Label("suppressed and other issues")
	}
	if len(c.Errors) > 0 {
		s.Label("with Golang errors")
	}
	return nil
}

// markedCode is the snippet of an issue with its lines marked.
func markedCode(i *repIssue) string {
	code := strings.TrimSuffix(string(i.Code), "\n")
	if i.Code == "" {
		return ""
	}
	var b strings.Builder
	line := i.From
	for _, l := range strings.Split(code, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, fmt.Sprint(line)) && line <= i.To {
			b.WriteString("  > " + l + "\n")
			line++
		} else {
			b.WriteString("    " + l + "\n")
		}
	}
	return b.String()
}

func init() {
	register("C08", "distinct sets of issues with special characters in message, file name or code", 16000, 1000000, genRep, runReports)
}
