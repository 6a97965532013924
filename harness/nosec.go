package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

func sortStrings(x []string) { sort.Strings(x) }

// genDirective makes the text of a suppression directive behind its tag.
func genDirective(t *rapid.T, near []string) string {
	var b strings.Builder
	n := sampled([]int{0, 0, 1, 1, 2, 3}).Draw(t, "nrules")
	sep := sampled([]string{" ", " ", ", ", "  ", ",", "\t", ";"}).Draw(t, "sep")
	first := sampled([]string{" ", " ", " ", "\t", "  ", ": "}).Draw(t, "first")
	for i := 0; i < n; i++ {
		id := sampled(ruleIDs).Draw(t, "rule")
		if len(near) > 0 && !oneIn(t, 3, "far") {
			id = sampled(near).Draw(t, "near")
		}
		if i == 0 {
			b.WriteString(first + id)
		} else {
			b.WriteString(sep + id)
		}
	}
	switch sampled([]int{0, 0, 1, 2, 3, 4}).Draw(t, "just") {
	case 1:
		b.WriteString(" -- " + sampled([]string{"fine", "false positive G401 G104", "see #12", "a -- b", "über \"x\"", "--", "x-y"}).Draw(t, "text"))
	case 2:
		b.WriteString(" ---- because")
	case 3:
		b.WriteString(" because a reviewer said so")
	case 4:
		b.WriteString(" --")
	}
	return b.String()
}

// inRawString tells which lines (from 0) begin or end inside of a string that spans several lines, or inside a comment.
func unsafeLines(src string) map[int]bool {
	bad := map[int]bool{}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil
	}
	mark := func(a, b token.Pos) {
		for l := fs.Position(a).Line; l <= fs.Position(b).Line; l++ {
			bad[l-1] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING && fs.Position(b.Pos()).Line != fs.Position(b.End()).Line {
			mark(b.Pos(), b.End())
		}
		return true
	})
	for _, g := range f.Comments {
		mark(g.Pos(), g.End())
	}
	return bad
}

// sprinkleNosec adds suppression comments at line ends and on lines of their own, in every form there is.
func sprinkleNosec(t *rapid.T, files []File) []File {
	return sprinkleTag(t, files, "#nosec", nil, true)
}

func sprinkleTag(t *rapid.T, files []File, tag string, near []string, directives bool) []File {
	var out []File
	for _, f := range files {
		lines := strings.Split(f.Src, "\n")
		bad := unsafeLines(f.Src)
		if bad == nil {
			out = append(out, f)
			continue
		}
		n := 1 + upTo(t, 4, "comments")
		used := map[int]bool{}
		for i := 0; i < n; i++ {
			k := upTo(t, len(lines)-1, "line")
			if bad[k] || used[k] {
				continue
			}
			used[k] = true
			d := genDirective(t, near)
			forms := 7
			if directives {
				forms = 9
			}
			ind := lines[k][:len(lines[k])-len(strings.TrimLeft(lines[k], "\t "))]
			switch upTo(t, forms, "form") {
			case 0, 1:
				lines[k] += " // " + tag + d
			case 2:
				lines[k] += " //" + tag + d
			case 3:
				lines[k] = ind + "// " + tag + d + "\n" + lines[k]
			case 4:
				lines[k] += fmt.Sprintf(" /* %s%s */", tag, d)
			case 5:
				lines[k] = ind + "// a remark\n" + ind + "// " + tag + d + "\n" + lines[k]
			case 6:
				lines[k] = ind + "/*\n" + ind + "a remark\n " + tag + d + "\n" + ind + "*/\n" + lines[k]
			case 7: // not a directive: the tag is not at the beginning of a line
				lines[k] += " // see " + tag + d
			case 8:
				lines[k] += " //gosec:disable" + d
			default:
				lines[k] = ind + "//gosec:disable" + d + "\n" + lines[k]
			}
		}
		out = append(out, File{f.Name, strings.Join(lines, "\n")})
	}
	return out
}

// inlineNosec adds suppression comments in front of tokens in the middle of lines, where they belong to a part of the code.
func inlineNosec(t *rapid.T, files []File, near []string) []File {
	var out []File
	for _, f := range files {
		lines := strings.Split(f.Src, "\n")
		bad := unsafeLines(f.Src)
		for i := upTo(t, 3, "inline"); i > 0 && bad != nil; i-- {
			k := upTo(t, len(lines)-1, "line")
			at := tokenStarts(lines[k])
			if bad[k] || len(at) == 0 {
				continue
			}
			bad[k] = true
			p := sampled(at).Draw(t, "token")
			lines[k] = lines[k][:p] + fmt.Sprintf("/* #nosec%s */ ", genDirective(t, near)) + lines[k][p:]
		}
		out = append(out, File{f.Name, strings.Join(lines, "\n")})
	}
	return out
}

// tokenStarts lists where the tokens of a line begin, which holds no part of a longer token.
func tokenStarts(line string) (at []int) {
	fs := token.NewFileSet()
	var sc scanner.Scanner
	sc.Init(fs.AddFile("l", 1, len(line)), []byte(line), func(token.Position, string) { at = nil }, 0)
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			return at
		}
		if tok == token.SEMICOLON && lit == "\n" {
			continue
		}
		at = append(at, int(pos)-1)
	}
}

// ---- model of the directives, from the documentation ----

type directive struct {
	start, end int // lines of the annotated node
	rules      []string
	all        bool
	just       string
	pos        token.Pos
}

var ruleIDRe = regexp.MustCompile(`G\d{3}`)

// parseDirective reads a comment group. ambiguous: more than one directive in it.
func parseDirective(g *ast.CommentGroup, tags []string) (found bool, rules []string, all bool, just string, ambiguous bool) {
	type hit struct{ args string }
	var hits []hit
	var follow []string // lines behind the directive
	for _, c := range g.List {
		text := c.Text
		if strings.HasPrefix(text, "//gosec:disable") {
			rest := strings.TrimPrefix(text, "//gosec:disable")
			if rest == "" || (strings.HasPrefix(rest, " ") && len(rest) > 1) {
				hits = append(hits, hit{rest})
			}
			continue
		}
		if strings.HasPrefix(text, "//") {
			text = text[2:]
		} else {
			text = strings.TrimSuffix(text[2:], "*/")
		}
		for _, l := range strings.Split(text, "\n") {
			l = strings.TrimSpace(l)
			is := false
			for _, tag := range tags {
				if strings.HasPrefix(l, tag) {
					hits = append(hits, hit{strings.TrimPrefix(l, tag)})
					is = true
					break
				}
			}
			if !is && len(hits) > 0 && l != "" {
				follow = append(follow, l)
			}
		}
	}
	if len(hits) == 0 {
		return
	}
	if len(hits) > 1 || len(follow) > 0 {
		ambiguous = true
	}
	found = true
	args := hits[0].args
	if i := strings.Index(args, "--"); i >= 0 {
		just = strings.TrimSpace(strings.TrimLeft(args[i:], "-"))
		args = args[:i]
	}
	seen := map[string]bool{}
	for _, r := range ruleIDRe.FindAllString(args, -1) {
		if !seen[r] {
			seen[r] = true
			rules = append(rules, r)
		}
	}
	all = len(rules) == 0
	return
}

// directivesOf lists the directives of a file with the lines of the code each one annotates (as go/ast associates
// comments with nodes), in the order of the source.
func directivesOf(src string, tags []string) (ds []directive, ambiguous bool, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	cm := ast.NewCommentMap(fs, f, f.Comments)
	for n, groups := range cm {
		for _, g := range groups {
			found, rules, all, just, amb := parseDirective(g, tags)
			if amb {
				ambiguous = true
			}
			if found {
				ds = append(ds, directive{fs.Position(n.Pos()).Line, fs.Position(n.End()).Line, rules, all, just, g.Pos()})
			}
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].pos < ds[j].pos })
	return ds, ambiguous, nil
}

// covers: the issue lies within the annotated lines (or the annotated code lies within the lines of the issue).
func (d directive) covers(start, end int) bool {
	return d.start <= start && end <= d.end || start <= d.start && d.end <= end
}

// suppressionsOf lists the suppressions of an issue: those of directives without rules, then those that list the rule.
func suppressionsOf(ds []directive, rule string, start, end int) []string {
	var gen, spec []string
	for _, d := range ds {
		if !d.covers(start, end) {
			continue
		}
		if d.all {
			gen = append(gen, "inSource:"+d.just)
		}
		for _, r := range d.rules {
			if r == rule {
				spec = append(spec, "inSource:"+d.just)
			}
		}
	}
	return append(gen, spec...)
}
