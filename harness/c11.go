package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/securego/gosec/v2/issue"
)

// C11: positions, snippets and metadata of the issues.

type placeCase struct {
	Files  []File
	Opts   ScanOpts
	Layout string // what was done to the text
}

// weaknessOf is the documented weakness of every rule.
var weaknessOf = map[string]string{
	"G101": "798", "G102": "200", "G103": "242", "G104": "703", "G106": "322", "G107": "88", "G108": "200", "G109": "190", "G110": "409", "G111": "22", "G112": "400", "G114": "676", "G115": "190",
	"G201": "89", "G202": "89", "G203": "79", "G204": "78", "G301": "276", "G302": "276", "G303": "377", "G304": "22", "G305": "22", "G306": "276", "G307": "276",
	"G401": "328", "G402": "295", "G403": "310", "G404": "338", "G405": "327", "G406": "328", "G407": "1204",
	"G501": "327", "G502": "327", "G503": "327", "G504": "327", "G505": "327", "G506": "327", "G507": "327", "G601": "118", "G602": "118",
}

var ssaRules = map[string]bool{"G115": true, "G407": true, "G602": true}

func genPlace(t *rapid.T) placeCase {
	var c placeCase
	if oneIn(t, 3, "robust") {
		r := genRobust(t)
		c.Files, c.Opts = r.Files, r.Opts
	} else {
		c.Files = genProg(t, false)
	}
	c.Opts.Track = oneIn(t, 3, "track")
	for k := range c.Files {
		src := c.Files[k].Src
		if !strings.Contains(src, "\r") && !strings.Contains(src, `import "C"`) {
			if oneIn(t, 2, "relayout") {
				src = relayout(t, src, 2+upTo(t, 20, "density"))
				c.Layout += "relayout "
			}
			if oneIn(t, 5, "crlf") {
				src = strings.ReplaceAll(src, "\n", "\r\n")
				c.Layout += "crlf "
			}
			if oneIn(t, 5, "cut") {
				src = strings.TrimRight(src, "\r\n\t ")
				c.Layout += "no final newline "
			}
			if oneIn(t, 8, "long") {
				src = "/* " + strings.Repeat("x", longLine(t)) + " */ " + src
				c.Layout += "long line "
			}
			if oneIn(t, 8, "bom") {
				src = "\ufeff" + src
				c.Layout += "byte order mark "
			}
		}
		c.Files[k].Src = src
	}
	return c
}

func runPlace(c placeCase, s *Stats) error {
	dir := caseDir()
	if err := writeFiles(dir, c.Files); err != nil {
		return err
	}
	r, err := scanDir(dir, c.Files, c.Opts)
	if err != nil {
		return err
	}
	if len(r.TypeErr) == 0 {
		s.Label("well-typed packages")
	}
	broken := len(r.TypeErr) > 0
	type info struct {
		lines  []string
		starts map[[2]int]bool
		broken bool            // has syntax errors
		nodes  map[string]bool // start line:column-end line
	}
	infos := map[string]*info{}
	load := func(f File) *info {
		n := &info{starts: map[[2]int]bool{}, nodes: map[string]bool{}}
		n.lines = strings.Split(f.Src, "\n")
		if n.lines[len(n.lines)-1] == "" {
			n.lines = n.lines[:len(n.lines)-1]
		}
		for k := range n.lines {
			n.lines[k] = strings.TrimSuffix(n.lines[k], "\r")
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, "x.go", f.Src, parser.AllErrors)
		n.broken = err != nil
		at := func(p token.Pos) token.Position { return fs.PositionFor(p, false) }
		if af != nil {
			ast.Inspect(af, func(x ast.Node) bool {
				if x != nil && x.Pos().IsValid() {
					a, b := at(x.Pos()), at(x.End())
					n.nodes[fmt.Sprintf("%d:%d-%d", a.Line, a.Column, b.Line)] = true
				}
				return true
			})
		}
		line, col := 1, 1
		step := func(x string) {
			for k := 0; k < len(x); k++ {
				if col++; x[k] == '\n' {
					line, col = line+1, 1
				}
			}
		}
		ts, _ := tokenize(f.Src)
		for _, t := range ts {
			step(t.pre)
			n.starts[[2]int{line, col}] = true
			step(t.text)
		}
		return n
	}
	for _, i := range r.Issues {
		bad := func(f string, a ...any) error {
			return violf("issue %s: %s\n%s", issueFull(i, dir), fmt.Sprintf(f, a...), dumpFiles(c.Files))
		}
		rel, err := filepath.Rel(dir, i.File)
		var file *File
		for k := range c.Files {
			if err == nil && c.Files[k].Name == rel {
				file = &c.Files[k]
			}
		}
		if file == nil {
			return bad("the file is none of those scanned")
		}
		n := infos[rel]
		if n == nil {
			n = load(*file)
			infos[rel] = n
		}
		from, to := lineOf(i)
		if from < 1 || to < from || to > len(n.lines) || i.Line != strconv.Itoa(from) && i.Line != fmt.Sprintf("%d-%d", from, to) || i.Line == fmt.Sprintf("%d-%d", from, from) {
			return bad("line %q in a file of %d lines", i.Line, len(n.lines))
		}
		col, err := strconv.Atoi(i.Col)
		if err != nil || strconv.Itoa(col) != i.Col || !n.starts[[2]int{from, col}] {
			return bad("no code starts at column %q", i.Col)
		}
		if !ssaRules[i.RuleID] && !n.broken && !n.nodes[fmt.Sprintf("%d:%d-%d", from, col, to)] {
			return bad("no piece of code starts at %d:%d and ends in line %d", from, col, to)
		}
		var want strings.Builder
		first := from - 1
		if first < 1 {
			first = 1
		}
		for l := first; l <= to+1 && l <= len(n.lines); l++ {
			fmt.Fprintf(&want, "%d: %s\n", l, n.lines[l-1])
		}
		if i.Code != want.String() {
			return bad("the snippet should be %q", want.String())
		}
		w, ok := weaknessOf[i.RuleID]
		if !ok {
			return bad("unknown rule")
		}
		if i.Cwe == nil || i.Cwe.ID != w || i.Cwe.Name == "" || i.Cwe.Description == "" {
			return bad("the weakness is %+v, it should be CWE-%s", i.Cwe, w)
		}
		if i.Severity < issue.Low || i.Severity > issue.High || i.Confidence < issue.Low || i.Confidence > issue.High || i.What == "" {
			return bad("severity, confidence or message missing")
		}
		s.Label("rule " + i.RuleID)
		if from != to {
			s.Label("issues of several lines")
		}
		if broken {
			s.Label("issues in broken packages")
		}
		if from == 1 || to == len(n.lines) {
			s.Label("issues at the first or last line")
		}
	}
	if len(r.Issues) > 0 && c.Layout != "" {
		s.NonTrivial()
	}
	for _, l := range strings.Fields(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(c.Layout, "no final newline", "cut"), "long line", "long"), "byte order mark", "bom")) {
		s.Label("layout " + l)
	}
	return nil
}

func init() {
	register("C11", "distinct packages with changed layout in which something is reported", 25000, 700000, genPlace, runPlace)
}

func longLine(t *rapid.T) int {
	if oneIn(t, 150, "very long") {
		return sampled([]int{1 << 17, 1 << 19, 3 << 20}).Draw(t, "long")
	}
	return sampled([]int{4000, 66000, 66000, 66000}).Draw(t, "long")
}
