package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// C10: the JUnit, HTML and SonarQube reports.

// xmlText replaces the characters XML cannot hold.
func xmlText(s string) string {
	var b strings.Builder
	for k := 0; k < len(s); {
		r, n := utf8.DecodeRuneInString(s[k:])
		ok := r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000
		if !ok {
			r = utf8.RuneError
		}
		b.WriteRune(r)
		k += n
	}
	return b.String()
}

type junitDoc struct {
	XMLName xml.Name `xml:"testsuites"`
	Suites  []struct {
		Name  string `xml:"name,attr"`
		Tests string `xml:"tests,attr"`
		Fails string `xml:"failures,attr"`
		Cases []struct {
			Name     string `xml:"name,attr"`
			Failures []struct {
				Message string `xml:"message,attr"`
				Text    string `xml:",chardata"`
				Inner   string `xml:",innerxml"`
			} `xml:"failure"`
		} `xml:"testcase"`
	} `xml:"testsuite"`
}

type sonarDoc struct {
	Issues []struct {
		EngineID string `json:"engineId"`
		RuleID   string `json:"ruleId"`
		Loc      struct {
			Message  string `json:"message"`
			FilePath string `json:"filePath"`
			Range    struct {
				Start int  `json:"startLine"`
				End   *int `json:"endLine"`
			} `json:"textRange"`
		} `json:"primaryLocation"`
		Type     string `json:"type"`
		Severity string `json:"severity"`
		Effort   int    `json:"effortMinutes"`
	} `json:"issues"`
}

var scriptEnd = regexp.MustCompile(`(?i)</script|<!--|<script`)

func runOtherReports(c repCase, s *Stats) error {
	if len(c.CLI) > 0 {
		return runRoots(c, s, "sonarqube", func(out string) (l []string, err error) {
			var d sonarDoc
			if err = json.Unmarshal([]byte(out), &d); err == nil {
				for _, i := range d.Issues {
					l = append(l, i.Loc.FilePath)
				}
			}
			return
		})
	}
	shown := c.shown()
	// JUnit
	out, err := c.write("junit-xml", c.Color)
	if err != nil {
		return err
	}
	dec := xml.NewDecoder(strings.NewReader(out))
	for depth, roots := 0, 0; ; {
		t, err := dec.Token()
		if err == io.EOF {
			if roots != 1 || depth != 0 {
				return violf("the JUnit report has %d root elements\n%s", roots, out)
			}
			break
		}
		if err != nil {
			return violf("the JUnit report is not well formed: %v\n%s", err, out)
		}
		switch e := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			switch e.Name.Local {
			case "testsuites", "testsuite", "testcase", "failure":
			default:
				return violf("the JUnit report has an element <%s>\n%s", e.Name.Local, out)
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(e)) != "" {
				return violf("the JUnit report has text outside its root\n%s", out)
			}
		}
	}
	var j junitDoc
	if err := xml.Unmarshal([]byte(out), &j); err != nil {
		return violf("the JUnit report does not parse: %v\n%s", err, out)
	}
	type group struct {
		what   string
		issues []*repIssue
	}
	var groups []*group
	byWhat := map[bstr]*group{}
	for k := range shown {
		i := &shown[k]
		g := byWhat[i.What]
		if g == nil {
			g = &group{what: xmlText(string(i.What))}
			byWhat[i.What] = g
			groups = append(groups, g)
		}
		g.issues = append(g.issues, i)
	}
	if len(j.Suites) != len(groups) {
		return violf("the JUnit report has %d groups, expected %d\n%s", len(j.Suites), len(groups), out)
	}
	for n, g := range groups {
		u := j.Suites[n]
		if u.Name != g.what || u.Tests != strconv.Itoa(len(g.issues)) || len(u.Cases) != len(g.issues) || u.Fails != "" && u.Fails != u.Tests {
			return violf("JUnit report: group %d is %q with count %s and %d test cases, expected %q with %d\n%s", n, u.Name, u.Tests, len(u.Cases), g.what, len(g.issues), out)
		}
		for k, i := range g.issues {
			t := u.Cases[k]
			if t.Name != xmlText(string(i.File)) || len(t.Failures) != 1 {
				return violf("JUnit report: test case %q with %d failures, expected %q\n%s", t.Name, len(t.Failures), i.File, out)
			}
			txt := unCR(t.Failures[0].Text)
			for _, w := range []string{string(i.File) + ":" + i.line(), string(i.What), string(i.Code), string(i.Autofix)} {
				if w = unCR(xmlText(w)); !strings.Contains(txt, w) {
					return violf("JUnit report: the failure of issue %s lacks %q\n%q", i.Rule, w, txt)
				}
			}
		}
		if len(g.issues) > 1 {
			s.Label("JUnit groups of several issues")
		}
	}
	// HTML
	if out, err = c.write("html", c.Color); err != nil {
		return err
	}
	const mark = "var data = "
	at := strings.Index(out, mark)
	if at < 0 {
		return violf("the HTML report has no data\n%s", out)
	}
	rest := out[at+len(mark):]
	jd := json.NewDecoder(strings.NewReader(rest))
	var data json.RawMessage
	if err := jd.Decode(&data); err != nil {
		return violf("HTML report: the data is no JSON: %v\n%s", err, rest)
	}
	end := int(jd.InputOffset())
	if !strings.HasPrefix(strings.TrimSpace(rest[end:]), ";") {
		return violf("HTML report: the data is followed by %.80q", rest[end:])
	}
	if m := scriptEnd.FindString(rest[:end]); m != "" {
		return violf("HTML report: the data contains %q\n%s", m, rest[:end])
	}
	if strings.ContainsAny(rest[:end], "\u2028\u2029") {
		return violf("HTML report: the data contains a raw line separator\n%q", rest[:end])
	}
	if !c.keysCollide() {
		if err := sameJSON(rest[:end], c.jsonWantAll(shown)); err != nil {
			return violf("HTML report: %v", err)
		}
	}
	ref, err := repCase{Version: c.Version}.write("html", c.Color)
	if err != nil {
		return err
	}
	cut := func(s string) string {
		a := strings.Index(s, mark) + len(mark)
		d := json.NewDecoder(strings.NewReader(s[a:]))
		var x json.RawMessage
		_ = d.Decode(&x)
		return s[:a] + s[a+int(d.InputOffset()):]
	}
	if cut(out) != cut(ref) {
		return violf("the HTML report differs from that of an empty scan in more than its data")
	}
	// SonarQube
	if out, err = c.write("sonarqube", c.Color); err != nil {
		return err
	}
	var q sonarDoc
	if err := json.Unmarshal([]byte(out), &q); err != nil {
		return violf("the SonarQube report is no valid JSON: %v\n%s", err, out)
	}
	if q.Issues == nil {
		return violf("the SonarQube report has no list of issues\n%s", out)
	}
	var below []*repIssue
	for k := range shown {
		if len(relTo(string(shown[k].File), c.Roots)) > 0 {
			below = append(below, &shown[k])
		}
	}
	if len(q.Issues) != len(below) {
		return violf("the SonarQube report has %d issues, expected %d below the roots %q\n%s\n%s", len(q.Issues), len(below), c.Roots, out, c.dump())
	}
	for k, i := range below {
		x := q.Issues[k]
		okPath := false
		for _, p := range relTo(string(i.File), c.Roots) {
			okPath = okPath || p == x.Loc.FilePath
		}
		end := x.Loc.Range.Start
		if x.Loc.Range.End != nil {
			end = *x.Loc.Range.End
		}
		want := fmt.Sprintf("gosec %s %q %d-%d VULNERABILITY %s 5", i.Rule, validText(string(i.What)), i.From, i.To, []string{"MINOR", "MAJOR", "BLOCKER"}[i.Sev])
		got := fmt.Sprintf("%s %s %q %d-%d %s %s %d", x.EngineID, x.RuleID, x.Loc.Message, x.Loc.Range.Start, end, x.Type, x.Severity, x.Effort)
		if want != got || !okPath {
			return violf("SonarQube report: issue %s in file %q below the roots %q, expected %s in file %q", got, x.Loc.FilePath, c.Roots, want, i.File)
		}
	}
	s.LabelN("issues written", len(c.Issues))
	s.LabelN("issues below a root", len(below))
	odd := false
	for k := range shown {
		odd = odd || strings.ContainsAny(string(shown[k].What+shown[k].File+shown[k].Code+shown[k].Autofix), "<&\"'\n\x00\x1b\u2028")
	}
	if odd {
		s.NonTrivial()
	}
	return nil
}

func unCR(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

func init() {
	register("C10", "distinct sets of issues with special characters in message, file name, code or fix", 16000, 1000000, genRep, runOtherReports, needCLI, enumerate(enumRoots))
}
