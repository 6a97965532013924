package main

import (
	"fmt"
	"go/build/constraint"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C13: which files are scanned. Every Go file carries exactly one finding (an import of crypto/md5).

type treeFile struct {
	Name  string // base name
	Ext   bool   // external test package
	Build string // build constraint
	Gen   int    // 0 none, 1 generated, 2.. near misses
	Extra int    // blank lines at the end
	Dep   bool   // imports the package "dep", whose API is guarded by the tag foo
}

type treeDir struct {
	Path  string
	Files []treeFile
}

type treeCase struct {
	Dirs    []treeDir
	Tags    []string
	Tests   bool
	ExclGen bool
	Excl    []string // -exclude-dir
	Args    []string
	Conc    int
	Dep     bool // module has the package dep
}

var (
	treeNames  = []string{"a", "b", "cmd", "internal", "testdata", "vendor", "vendored", "myvendor", ".git/hooks", "x.git", "_skip", ".hidden", "rules", "rules2", "gen", "node_modules", "a b", "c-d", "ünï"}
	treeConstr = []string{"", "", "", "", "", "", "", "", "", "", "foo", "!foo", "foo && bar", "foo || bar", "ignore", "linux", "windows", "!linux", "linux && amd64", "arm64", "go1.18", "!go1.18", "go1.99", "cgo || !cgo", "unix", "bar && !foo", "(foo || bar) && linux"}
	treeSuf    = []string{"", "", "", "", "", "", "", "", "_windows", "_linux", "_amd64", "_arm64", "_linux_amd64", "_linux_arm64", "_foo", "_darwin", "_unix"}
	genTexts   = []string{"", "// Code generated by tool. DO NOT EDIT.\n\n", "// Code generated by x y z DO NOT EDIT.\n\n", "// Code generated by tool; please do not edit.\n\n", "// code generated by tool. DO NOT EDIT.\n\n", "// Code generated by tool. DO NOT EDIT!\n\n", "/* Code generated by tool. DO NOT EDIT. */\n\n"}
)

func genTree(t *rapid.T) treeCase {
	var c treeCase
	n := 1 + upTo(t, 5, "dirs")
	seen := map[string]bool{}
	var dirs []string
	for i := 0; i < n; i++ {
		p := sampled(treeNames).Draw(t, "dir")
		if len(dirs) > 0 && oneIn(t, 2, "nested") {
			p = path.Join(sampled(dirs).Draw(t, "parent"), p)
		}
		if oneIn(t, 6, "root") {
			p = "."
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		dirs = append(dirs, p)
		d := treeDir{Path: p}
		m := 1 + upTo(t, 3, "files")
		for k := 0; k < m; k++ {
			f := treeFile{Build: sampled(treeConstr).Draw(t, "constraint"), Extra: upTo(t, 3, "extra")}
			base := fmt.Sprintf("f%d", k)
			if oneIn(t, 8, "odd") {
				base = sampled([]string{"_f", ".f", "linux", "windows", "test", "x.y"}).Draw(t, "oddname") + ""
			}
			base += sampled(treeSuf).Draw(t, "suffix")
			if oneIn(t, 3, "test") {
				base += "_test"
				f.Ext = oneIn(t, 2, "external")
			}
			f.Name = base + ".go"
			f.Gen = sampled([]int{0, 0, 0, 1, 2, 3, 4, 5, 6}).Draw(t, "generated")
			dup := false
			for _, o := range d.Files {
				dup = dup || o.Name == f.Name
			}
			if !dup {
				d.Files = append(d.Files, f)
			}
		}
		c.Dirs = append(c.Dirs, d)
	}
	if oneIn(t, 25, "large") {
		plain := func(i int) treeFile { return treeFile{Name: fmt.Sprintf("f%d.go", i)} }
		var d treeDir
		switch upTo(t, 3, "kind") {
		case 0: // many directories
			for i := 10 + upTo(t, 60, "many"); i >= 0; i-- {
				p := fmt.Sprintf("many/d%d", i)
				c.Dirs = append(c.Dirs, treeDir{p, []treeFile{plain(0)}})
				dirs = append(dirs, p)
			}
		case 1: // many files
			d.Path = "files"
			for i := 10 + upTo(t, 60, "many"); i >= 0; i-- {
				d.Files = append(d.Files, plain(i))
			}
		case 2: // large files
			d.Path = "big"
			for i := upTo(t, 1, "many"); i >= 0; i-- {
				f := plain(i)
				f.Extra = 1 << (10 + upTo(t, 10, "size"))
				d.Files = append(d.Files, f)
			}
		default: // far down
			d.Path, d.Files = "deep", []treeFile{plain(0)}
			for i := 4 + upTo(t, 25, "depth"); i >= 0; i-- {
				d.Path = path.Join(d.Path, sampled([]string{"a", "b", "deep", "pkg"}).Draw(t, "name"))
			}
		}
		if d.Path != "" {
			c.Dirs = append(c.Dirs, d)
			dirs = append(dirs, d.Path)
		}
	}
	more := []string{"foo", "bar", "ignore"}
	if oneIn(t, 6, "more tags") {
		more = []string{"t1", "t2", "foo", "t3", "t4", "t5", "bar", "t6", "ignore", "t7", "foo"}
	}
	for _, tag := range more {
		if oneIn(t, 3, "tag") {
			c.Tags = append(c.Tags, tag)
		}
	}
	c.Tests = oneIn(t, 2, "tests")
	c.ExclGen = oneIn(t, 2, "exclgen")
	if oneIn(t, 3, "exclude") {
		c.Excl = append(c.Excl, sampled([]string{"rules", "gen", "testdata", "a", "cmd", "internal/a", "c-d"}).Draw(t, "excluded"))
		if oneIn(t, 3, "exclude2") {
			c.Excl = append(c.Excl, sampled([]string{"b", "node_modules", "x.git", "/rules/"}).Draw(t, "excluded"))
		}
	}
	if len(c.Tags) > 0 && slices.Contains(c.Tags, "foo") && oneIn(t, 3, "dep") {
		c.Dep = true
		for i := range c.Dirs {
			if i < len(c.Dirs) && len(c.Dirs[i].Files) > 0 && oneIn(t, 2, "usesdep") {
				c.Dirs[i].Files[0].Dep = true
			}
		}
	}
	k := upTo(t, 5, "argkind")
	switch {
	case k <= 2:
		c.Args = []string{"./..."}
	case k == 3:
		c.Args = []string{"-r"}
	default:
		na := 1 + upTo(t, 2, "nargs")
		for i := 0; i < na; i++ {
			d := sampled(dirs).Draw(t, "arg")
			a := "./" + d
			if oneIn(t, 3, "clean") {
				a = d
			}
			if oneIn(t, 2, "rec") {
				a += "/..."
			}
			if oneIn(t, 12, "abs") {
				a = "ABS/" + strings.TrimPrefix(a, "./")
			}
			if oneIn(t, 12, "none") {
				a = "./nothere"
			}
			c.Args = append(c.Args, a)
		}
	}
	c.Conc = sampled([]int{0, 1, 2, 7}).Draw(t, "conc")
	return c
}

var knownOS = map[string]bool{"windows": true, "linux": true, "darwin": true}
var knownArch = map[string]bool{"amd64": true, "arm64": true}

// nameMatches decides on the _GOOS, _GOARCH suffixes of a file name.
func nameMatches(name string, tags map[string]bool) bool {
	n := strings.TrimSuffix(name, ".go")
	n = strings.TrimSuffix(n, "_test")
	n, _, _ = strings.Cut(n, ".")
	i := strings.Index(n, "_")
	if i < 0 {
		return true
	}
	parts := strings.Split(n[i:], "_") // the first element never counts
	k := len(parts)
	if k >= 2 && knownOS[parts[k-2]] && knownArch[parts[k-1]] {
		return tags[parts[k-2]] && tags[parts[k-1]]
	}
	if k >= 1 && (knownOS[parts[k-1]] || knownArch[parts[k-1]]) {
		return tags[parts[k-1]]
	}
	return true
}

func tagSatisfied(c treeCase, tag string) bool {
	switch tag {
	case "linux", "amd64", "unix", "gc", "cgo":
		return true
	}
	if v, ok := strings.CutPrefix(tag, "go1."); ok {
		n, err := strconv.Atoi(v)
		return err == nil && n <= 24
	}
	for _, t := range c.Tags {
		if t == tag {
			return true
		}
	}
	return false
}

// selected models whether a file is scanned, given that its directory is.
func selected(c treeCase, f treeFile) bool {
	if strings.HasPrefix(f.Name, "_") || strings.HasPrefix(f.Name, ".") {
		return false
	}
	tags := map[string]bool{"linux": true, "amd64": true}
	if !nameMatches(f.Name, tags) {
		return false
	}
	if f.Build != "" {
		x, err := constraint.Parse("//go:build " + f.Build)
		if err != nil || !x.Eval(func(tag string) bool { return tagSatisfied(c, tag) }) {
			return false
		}
	}
	if strings.HasSuffix(f.Name, "_test.go") && !c.Tests {
		return false
	}
	if c.ExclGen && (f.Gen == 1 || f.Gen == 2) {
		return false
	}
	return true
}

func pathHas(p, ex string) bool {
	return strings.Contains("/"+p+"/", "/"+strings.Trim(ex, "/")+"/")
}

// dirSelected models whether the directory is scanned.
func dirSelected(c treeCase, d string) (sel, unspecified bool) {
	excluded := pathHas(d, "vendor") || pathHas(d, ".git")
	for _, e := range c.Excl {
		excluded = excluded || pathHas(d, e)
	}
	for _, a := range c.Args {
		a = strings.TrimPrefix(strings.TrimPrefix(a, "ABS/"), "./")
		if a == "-r" {
			a = "..."
		}
		if base, rec := strings.CutSuffix(a, "..."); rec {
			base = strings.TrimSuffix(base, "/")
			if base == "" || base == "." || base == d || strings.HasPrefix(d, base+"/") {
				if !excluded {
					sel = true
				}
				// an exclusion inside of a root that matches itself is not specified
			}
		} else if path.Clean(a) == d {
			sel = true
			if excluded {
				unspecified = true
			}
		}
	}
	return
}

func (f treeFile) source() string {
	var b strings.Builder
	if f.Build != "" {
		b.WriteString("//go:build " + f.Build + "\n\n")
	}
	b.WriteString(genTexts[f.Gen])
	p := "p"
	if f.Ext {
		p = "p_test"
	}
	b.WriteString("package " + p + "\n\nimport _ \"crypto/md5\"\n")
	if f.Dep {
		b.WriteString("\nimport \"example.com/m/dep\"\n\nvar _ = dep.Foo\n")
	}
	b.WriteString(strings.Repeat("\n", f.Extra))
	return b.String()
}

func dumpTree(files []File) string {
	var out []File
	for _, f := range files {
		if n := len(f.Src); n > 1000 {
			f.Src = f.Src[:500] + fmt.Sprintf("... (%d bytes)\n", n)
		}
		out = append(out, f)
	}
	return dumpFiles(out)
}

func runTree(c treeCase, s *Stats) error {
	var files []File
	var want []string
	lines, nsel, nunsel := 0, 0, 0
	for _, d := range c.Dirs {
		sel, unspec := dirSelected(c, d.Path)
		if unspec {
			return nil
		}
		for _, f := range d.Files {
			if f.Dep && !c.Dep {
				f.Dep = false
			}
			src := f.source()
			p := path.Join(d.Path, f.Name)
			files = append(files, File{p, src})
			if sel && selected(c, f) {
				want = append(want, "/"+p)
				lines += strings.Count(src, "\n")
				nsel++
			} else {
				nunsel++
			}
		}
	}
	if c.Dep {
		files = append(files, File{"dep/dep.go", "//go:build foo\n\npackage dep\n\nvar Foo = 1\n"})
		if sel, unspec := dirSelected(c, "dep"); unspec {
			return nil
		} else if sel {
			lines += 5
			nsel++
		}
	}
	files = append(files, File{"doc/readme.txt", "import _ \"crypto/md5\"\n"})
	dir, err := writeModule(files)
	if err != nil {
		return err
	}
	args := []string{"-fmt=json", "-no-fail"}
	if len(c.Tags) > 0 {
		args = append(args, "-tags="+strings.Join(c.Tags, ","))
	}
	if c.Tests {
		args = append(args, "-tests")
	}
	if c.ExclGen {
		args = append(args, "-exclude-generated")
	}
	for _, e := range c.Excl {
		args = append(args, "-exclude-dir="+e)
	}
	if c.Conc > 0 {
		args = append(args, fmt.Sprintf("-concurrency=%d", c.Conc))
	}
	for _, a := range c.Args {
		if rest, ok := strings.CutPrefix(a, "ABS/"); ok {
			a = dir + "/" + rest
		}
		args = append(args, a)
	}
	r, err := runCLI(dir, nil, args...)
	if err != nil {
		return err
	}
	if strings.Contains(r.Stderr, "No packages found") {
		if len(want) > 0 {
			return violf("gosec %v: no packages found, but %v should be scanned\n%s", args, want, dumpTree(files))
		}
		s.Label("no packages found")
		return nil
	}
	rep, err := r.mustReport(args)
	if err != nil {
		return err
	}
	var got []string
	for _, i := range rep.Issues {
		if i.RuleID == "G501" {
			got = append(got, strings.TrimPrefix(i.File, dir))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if d := diffMultiset(want, got); d != "" {
		return violf("gosec %v: files that should be scanned (first) and were scanned (second) differ: %s\n%s", args, d, dumpTree(files))
	}
	if len(rep.Errors) > 0 {
		return violf("gosec %v: errors although everything compiles: %v\n%s", args, rep.Errors, dumpTree(files))
	}
	if rep.Stats.Files != nsel || rep.Stats.Lines != lines {
		return violf("gosec %v: %d files with %d lines should be counted, but %d with %d are\n%s", args, nsel, lines, rep.Stats.Files, rep.Stats.Lines, dumpTree(files))
	}
	if nsel > 0 && nunsel > 0 {
		s.NonTrivial()
	}
	if len(c.Tags) > 0 {
		s.Label("with tags")
	}
	if c.Tests {
		s.Label("with tests")
	}
	if c.Dep {
		s.Label("with a dependency guarded by a tag")
	}
	s.LabelN("files scanned", nsel)
	s.LabelN("files left out", nunsel)
	return nil
}

func init() {
	register("C13", "distinct trees and options with at least one file that is scanned and one that is left out", 280, 12000, genTree, runTree, needCLI, shrinkSeconds(60))
}
