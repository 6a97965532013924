package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
)

// Report data for C08, C09 and C10.

// bstr is a string of any bytes, written as an ASCII Go literal in replay files.
type bstr string

func (b bstr) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *bstr) UnmarshalJSON(d []byte) error {
	var q string
	if err := json.Unmarshal(d, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*b = bstr(s)
	return err
}

type repSup struct{ Kind, Just bstr }

type repIssue struct {
	Sev, Conf  int
	Rule       string
	NoCwe      bool
	What, File bstr
	Code       bstr
	From, To   int // lines
	Col        int
	NoSec      bool
	Sups       []repSup
	Autofix    bstr
	Plain      bool // Code has the form gosec gives it
}

type repErr struct {
	Line, Col int
	Err       bstr
}

type repErrs struct {
	File bstr
	Errs []repErr
}

type repCase struct {
	Issues  []repIssue
	Errors  []repErrs
	Stats   [4]int
	Version string
	Roots   []string
	Color   bool
	CLI     []string `json:",omitempty"` // arguments of a run of the command line tool, with the folder to run in
}

var nastyPieces = []string{"<", ">", "&", "\"", "'", ",", "\n", "\r\n", "\r", "\t", "\x00", "\x1b[31m", "\u2028", "é", "日本", "😀", "{{.}}", "{{ end }}", "%s", "%!d", "\\", "\\n", "`", ": ", "- ", "#", " #", "? ", "|", "|-", ">-", "!!binary", "null", "true", "~", "1e3", "0x10",
	"yes", " ", "  ", "\ufeff", "\ufffe", "\uffff", "\xff", "\xc3\x28", "\xed\xa0\x80", "\u0085", "\x7f", "\x0b", "</script>", "<!--", "-->", "<script>", "]]>", "<![CDATA[", "&amp;", "&#xA;", "\\u003c", "{", "}", "[", "]", "@", "*", "%", "=", "\\.", "---", "...", "key: value", "<info>x</>", "\u200d", "\U0010ffff"}

var plainWords = []string{"Use", "of", "weak", "random", "number", "generator", "(math/rand)", "file", "permissions", "0600", "or", "less", "Potential", "x := 1", "if err != nil {", "}", "return", "int -> uint8", "// comment", "a < b && c", `fmt.Println("x")`}

func genText(t *rapid.T, nasty bool) string {
	var b strings.Builder
	n := upTo(t, 5, "pieces")
	for i := 0; i < n; i++ {
		switch {
		case nasty && oneIn(t, 2, "nasty"):
			b.WriteString(sampled(nastyPieces).Draw(t, "piece"))
		case nasty && oneIn(t, 6, "rune"):
			b.WriteRune(rune(upTo(t, 0x2fff, "r")))
		default:
			b.WriteString(sampled(plainWords).Draw(t, "word"))
		}
		if oneIn(t, 2, "space") {
			b.WriteString(" ")
		}
	}
	if yamlBlank(b.String()) && !oneIn(t, 30, "blank") {
		return strings.TrimLeft(b.String(), yamlBlanks)
	}
	return b.String()
}

const yamlBlanks = " \t\n\r\v\f\u0085\u2028\u2029"

// yamlBlank: a text of several lines that starts with white space.
func yamlBlank(s string) bool {
	return s != strings.TrimLeft(s, yamlBlanks) && strings.ContainsAny(s, "\n\r\u0085\u2028\u2029")
}

func (c repCase) yamlBlank() bool {
	for _, i := range c.shown() {
		if yamlBlank(string(i.What)) || yamlBlank(string(i.File)) || yamlBlank(string(i.Code)) || yamlBlank(string(i.Autofix)) {
			return true
		}
	}
	for _, e := range c.Errors {
		if yamlBlank(string(e.File)) {
			return true
		}
		for _, x := range e.Errs {
			if yamlBlank(string(x.Err)) {
				return true
			}
		}
	}
	return false
}

func genSnippet(t *rapid.T, nasty bool, from, to int) string {
	var b strings.Builder
	first := from - 1
	if first < 1 {
		first = from
	}
	last := to + upTo(t, 1, "eof")
	for l := first; l <= last; l++ {
		txt := genText(t, nasty)
		txt = strings.NewReplacer("\n", "", "\r", "").Replace(txt)
		if oneIn(t, 4, "indent") {
			txt = "\t\t" + txt
		}
		if oneIn(t, 8, "number") {
			txt = fmt.Sprintf("%d: %s", l+upTo(t, 2, "off"), txt)
		}
		if nasty && oneIn(t, 60, "long") {
			txt += strings.Repeat("x", 70000)
		}
		fmt.Fprintf(&b, "%d: %s\n", l, txt)
	}
	return b.String()
}

func genRep(t *rapid.T) repCase {
	var c repCase
	nasty := !oneIn(t, 4, "tame")
	roots := []string{"/r/proj", "/r/proj2", "/r/proj/sub", "/r", "/other", "/r/pro", "/r/a b", "/r/ünï", "/"}
	for i := 0; i <= upTo(t, 2, "roots"); i++ {
		c.Roots = append(c.Roots, sampled(roots[:8]).Draw(t, "root"))
	}
	if oneIn(t, 12, "rootdir") {
		c.Roots = append(c.Roots, "/")
	}
	n := upTo(t, 6, "issues")
	if oneIn(t, 20, "many") {
		n = 10 + upTo(t, 30, "n")
	}
	for i := 0; i < n; i++ {
		is := repIssue{Sev: upTo(t, 2, "sev"), Conf: upTo(t, 2, "conf"), Rule: sampled(ruleIDs).Draw(t, "rule"), Col: 1 + upTo(t, 80, "col")}
		is.NoCwe = oneIn(t, 8, "nocwe")
		is.What = bstr(genText(t, nasty))
		if i > 0 && oneIn(t, 3, "samewhat") {
			is.What = c.Issues[upTo(t, i-1, "w")].What
		}
		base := sampled(roots).Draw(t, "base")
		if base == "/" {
			base = ""
		}
		name := "f.go"
		if nasty && oneIn(t, 3, "oddname") {
			name = strings.NewReplacer("/", "", "\x00", "").Replace(genText(t, true)) + ".go"
		}
		is.File = bstr(base + sampled([]string{"/", "/", "/pkg/", "/r/proj/", "/sub dir/", "2/"}).Draw(t, "dir") + name)
		if i > 0 && oneIn(t, 3, "samefile") {
			is.File = c.Issues[upTo(t, i-1, "f")].File
		}
		is.From = 1 + upTo(t, sampled([]int{3, 12, 120, 100000}).Draw(t, "max"), "line")
		is.To = is.From
		if oneIn(t, 3, "multi") {
			is.To += 1 + upTo(t, 12, "lines")
		}
		if oneIn(t, 5, "odd") {
			is.Code = bstr(genText(t, nasty))
		} else {
			is.Code, is.Plain = bstr(genSnippet(t, nasty, is.From, is.To)), true
		}
		is.NoSec = oneIn(t, 5, "nosec")
		if oneIn(t, 3, "sup") {
			for k := 0; k <= upTo(t, 1, "sups"); k++ {
				is.Sups = append(is.Sups, repSup{bstr(sampled([]string{"inSource", "external"}).Draw(t, "kind")), bstr(genText(t, nasty))})
			}
		}
		if oneIn(t, 4, "autofix") {
			is.Autofix = bstr(genText(t, nasty))
		}
		if i > 0 && oneIn(t, 12, "dup") {
			is = c.Issues[upTo(t, i-1, "same")]
		}
		c.Issues = append(c.Issues, is)
	}
	seen := map[bstr]bool{}
	for i := 0; i < upTo(t, 2, "errs"); i++ {
		e := repErrs{File: bstr("/r/proj/" + genText(t, nasty) + ".go")}
		if oneIn(t, 4, "nofile") {
			e.File = ""
		}
		if seen[e.File] {
			continue
		}
		seen[e.File] = true
		for k := 0; k <= upTo(t, 2, "n"); k++ {
			e.Errs = append(e.Errs, repErr{upTo(t, 99, "l"), upTo(t, 99, "c"), bstr(genText(t, nasty))})
		}
		c.Errors = append(c.Errors, e)
	}
	for i := range c.Stats {
		c.Stats[i] = upTo(t, 100000, "stat")
	}
	if oneIn(t, 6, "zero") {
		c.Stats[3] = 0
	}
	c.Version = sampled([]string{"dev", "", "v2.22.0", "2.1.0-rc1"}).Draw(t, "version")
	c.Color = oneIn(t, 3, "color")
	return c
}

func (i *repIssue) line() string {
	if i.From == i.To {
		return strconv.Itoa(i.From)
	}
	return fmt.Sprintf("%d-%d", i.From, i.To)
}

func (i *repIssue) real() *issue.Issue {
	r := &issue.Issue{Severity: issue.Score(i.Sev), Confidence: issue.Score(i.Conf), RuleID: i.Rule, What: string(i.What), File: string(i.File), Code: string(i.Code),
		Line: i.line(), Col: strconv.Itoa(i.Col), NoSec: i.NoSec, Autofix: string(i.Autofix)}
	if !i.NoCwe {
		r.Cwe = issue.GetCweByRule(i.Rule)
	}
	for _, s := range i.Sups {
		r.Suppressions = append(r.Suppressions, issue.SuppressionInfo{Kind: string(s.Kind), Justification: string(s.Just)})
	}
	return r
}

func (c repCase) data() *gosec.ReportInfo {
	is := []*issue.Issue{}
	for k := range c.Issues {
		is = append(is, c.Issues[k].real())
	}
	es := map[string][]gosec.Error{}
	for _, e := range c.Errors {
		for _, x := range e.Errs {
			es[string(e.File)] = append(es[string(e.File)], gosec.Error{Line: x.Line, Column: x.Col, Err: string(x.Err)})
		}
	}
	return gosec.NewReportInfo(is, &gosec.Metrics{NumFiles: c.Stats[0], NumLines: c.Stats[1], NumNosec: c.Stats[2], NumFound: c.Stats[3]}, es).WithVersion(c.Version)
}

// shown are the issues the reports other than JSON and SARIF list.
func (c repCase) shown() []repIssue {
	var out []repIssue
	for _, i := range c.Issues {
		if len(i.Sups) == 0 {
			out = append(out, i)
		}
	}
	return out
}

// write creates a report and insists on the data being left alone.
func (c repCase) write(format string, color bool) (string, error) {
	d := c.data()
	before := fingerprint(d)
	var b bytes.Buffer
	if err := report.CreateReport(&b, format, color, append([]string{}, c.Roots...), d); err != nil {
		return "", violf("the %s report fails: %v\n%s", format, err, c.dump())
	}
	if after := fingerprint(d); after != before {
		return "", violf("writing the %s report changes the data\nbefore: %s\nafter: %s", format, before, after)
	}
	return b.String(), nil
}

func fingerprint(d *gosec.ReportInfo) string {
	var b strings.Builder
	for _, i := range d.Issues {
		w := "none"
		if i.Cwe != nil {
			w = fmt.Sprintf("%+q", *i.Cwe)
		}
		fmt.Fprintf(&b, "%d %d %+q %+q %+q %+q %+q %+q %v %+q %+q cwe %s\n", i.Severity, i.Confidence, i.RuleID, i.What, i.File, i.Code, i.Line, i.Col, i.NoSec, i.Suppressions, i.Autofix, w)
	}
	var ks []string
	for k := range d.Errors {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%q %+q\n", k, d.Errors[k])
	}
	fmt.Fprintf(&b, "%+v %q", *d.Stats, d.GosecVersion)
	return b.String()
}

func (c repCase) dump() string {
	b, _ := json.MarshalIndent(c, "", " ")
	return string(b)
}

// validText replaces what is no valid UTF-8, as encoding/json does.
func validText(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

var scoreNames = []string{"LOW", "MEDIUM", "HIGH"}

// jsonWant is the content of an issue as the JSON report has it.
func (i *repIssue) jsonWant() map[string]any {
	m := map[string]any{"severity": scoreNames[i.Sev], "confidence": scoreNames[i.Conf], "cwe": nil, "rule_id": i.Rule, "details": validText(string(i.What)), "file": validText(string(i.File)),
		"code": validText(string(i.Code)), "line": i.line(), "column": strconv.Itoa(i.Col), "nosec": i.NoSec, "suppressions": nil}
	if w := i.real().Cwe; w != nil {
		m["cwe"] = map[string]any{"id": w.ID, "url": "https://cwe.mitre.org/data/definitions/" + w.ID + ".html"}
	}
	if len(i.Sups) > 0 {
		var l []any
		for _, s := range i.Sups {
			l = append(l, map[string]any{"kind": validText(string(s.Kind)), "justification": validText(string(s.Just))})
		}
		m["suppressions"] = l
	}
	if i.Autofix != "" {
		m["autofix"] = validText(string(i.Autofix))
	}
	return m
}

func (c repCase) jsonWantAll(issues []repIssue) map[string]any {
	is := []any{}
	for k := range issues {
		is = append(is, issues[k].jsonWant())
	}
	es := map[string]any{}
	for _, e := range c.Errors {
		var l []any
		for _, x := range e.Errs {
			l = append(l, map[string]any{"line": x.Line, "column": x.Col, "error": validText(string(x.Err))})
		}
		es[validText(string(e.File))] = l
	}
	return map[string]any{"Golang errors": es, "Issues": is, "Stats": map[string]any{"files": c.Stats[0], "lines": c.Stats[1], "nosec": c.Stats[2], "found": c.Stats[3]}, "GosecVersion": c.Version}
}

// canon writes a JSON value in one way only.
func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var x any
	_ = json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

// sameJSON compares a JSON text with the expected value.
func sameJSON(text string, want any) error {
	var got any
	if err := json.Unmarshal([]byte(text), &got); err != nil {
		return fmt.Errorf("no valid JSON: %v", err)
	}
	b, _ := json.Marshal(got)
	if w := canon(want); w != string(b) {
		return fmt.Errorf("expected %s\ngot      %s", w, b)
	}
	return nil
}

// keysCollide: two file names of the errors become the same once they are valid text.
func (c repCase) keysCollide() bool {
	seen := map[string]bool{}
	for _, e := range c.Errors {
		k := validText(string(e.File))
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// enumRoots: the ways to name the root of a scan on the command line.
func enumRoots(tier string) []repCase {
	var out []repCase
	for _, a := range []string{". .", ". ./...", ". -r", ". -r|.", ". a", ". a/", ". ./a", ". a/...", ". a|a2", ". a2|a", ". ./a/...|./a2/...", ". {}/a", ". {}/a/...|{}/a2", ". {}/...", ". a/../a2", ". b c", ". ./b c/...",
		"a .", "a ..", "a ../...", "a ../a2", "a sub|..", "a -r", "a/sub ../../a2|../..", "b c ../a/...", ". a|a/sub", ". a/sub|a", ". ./...|./a/..."} {
		dir, args, _ := strings.Cut(a, " ")
		if strings.HasPrefix(a, "b c ") {
			dir, args = "b c", a[4:]
		}
		out = append(out, repCase{CLI: append([]string{dir}, strings.Split(args, "|")...)})
	}
	return out
}

// runRoots compares the paths in a report of the command line tool with those in its JSON report.
func runRoots(c repCase, s *Stats, format string, paths func(string) ([]string, error)) error {
	d := caseDir()
	src := "package p\n\nimport \"crypto/md5\"\n\nvar _ = md5.New()\n"
	files := []File{{Name: "go.mod", Src: "module m\n\ngo 1.20\n"}}
	for _, n := range []string{"x.go", "a/x.go", "a/sub/x.go", "a2/x.go", "b c/x.go"} {
		files = append(files, File{Name: n, Src: src})
	}
	if err := writeFiles(d, files); err != nil {
		return err
	}
	cwd := filepath.Join(d, c.CLI[0])
	var args, roots []string
	for _, a := range c.CLI[1:] {
		a = strings.ReplaceAll(a, "{}", d)
		args = append(args, a)
		if a == "-r" {
			continue
		}
		r := strings.TrimSuffix(a, "...")
		if !filepath.IsAbs(r) {
			r = cwd + "/" + r
		}
		roots = append(roots, filepath.Clean(r))
	}
	if len(roots) == 0 {
		roots = []string{cwd}
	}
	j, err := runCLI(cwd, nil, append([]string{"-quiet", "-no-fail", "-fmt=json"}, args...)...)
	if err != nil {
		return err
	}
	rep, err := j.mustReport(args)
	if err != nil {
		return err
	}
	if len(rep.Issues) == 0 {
		return violf("gosec %v in %s finds nothing: %s", args, cwd, j.Stderr)
	}
	r, err := runCLI(cwd, nil, append([]string{"-quiet", "-no-fail", "-fmt=" + format}, args...)...)
	if err != nil {
		return err
	}
	got, err := paths(r.Stdout)
	if err != nil {
		return violf("gosec -fmt=%s %v: %v\n%s", format, args, err, r.Stdout)
	}
	var wants []string
	for _, i := range rep.Issues {
		wants = append(wants, i.File)
	}
	if len(got) != len(wants) {
		return violf("gosec -fmt=%s %v in %s has %d issues, the JSON report %d\n%s", format, args, cwd, len(got), len(wants), r.Stdout)
	}
	// every path is that of a different issue
	left := append([]string{}, wants...)
	for _, g := range got {
		ok := false
		for k, f := range left {
			for _, x := range relTo(f, roots) {
				u, err := url.PathUnescape(g)
				ok = ok || x == g || err == nil && x == u
			}
			if ok {
				left = append(left[:k], left[k+1:]...)
				break
			}
		}
		if !ok {
			return violf("gosec -fmt=%s %v in %s has path %q, the files are %q and the roots %q", format, args, cwd, g, wants, roots)
		}
	}
	s.Label("command line runs with given roots")
	s.NonTrivial()
	return nil
}
