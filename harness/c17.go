package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C17: call rules. A case is a list of files with placed gadgets; the findings are known by construction.

type placed struct {
	G   int // index into callPool
	Ctx int
}

type callFile struct {
	Items []placed
	Alias map[string]string
}

type callCase struct {
	Files []callFile
	Own   bool // the package has the name of one of its imports, and a function of its own like the one that is called
}

var ownCallRe = regexp.MustCompile(`@\{([^}]+)\}\.([A-Z]\w*)\(`)

var callPool = append(callGadgets(), stmtGadgets()...)

func genCallCase(t *rapid.T) callCase {
	var c callCase
	c.Own = oneIn(t, 5, "own")
	nf := rapid.IntRange(1, 2).Draw(t, "files")
	for i := 0; i < nf; i++ {
		var f callFile
		n := rapid.IntRange(1, 8).Draw(t, "items")
		var pieces []string
		for j := 0; j < n; j++ {
			g := upTo(t, len(callPool)-1, "gadget")
			p := placed{G: g, Ctx: sampled(callPool[g].contextsFor()).Draw(t, "ctx")}
			f.Items = append(f.Items, p)
			pieces = append(pieces, callPool[g].Text)
		}
		f.Alias = genAliases(t, pieces)
		c.Files = append(c.Files, f)
	}
	return c
}

// enumCallCases puts every gadget into every context once.
func enumCallCases(string) []callCase {
	var out []callCase
	for gi, g := range callPool {
		var f callFile
		for _, ctx := range g.contextsFor() {
			f.Items = append(f.Items, placed{gi, ctx})
		}
		out = append(out, callCase{Files: []callFile{f}})
		alias := map[string]string{}
		for k, m := range qualRe.FindAllStringSubmatch(g.Text, -1) {
			alias[m[1]] = fmt.Sprintf("al%d", k)
		}
		out = append(out, callCase{Files: []callFile{{Items: f.Items[:min(3, len(f.Items))], Alias: alias}}})
	}
	return out
}

func (c callCase) build() (files []File, want []string) {
	pkg, own := "p", ""
	if c.Own {
		f := c.Files[0]
		for _, it := range f.Items {
			m := ownCallRe.FindStringSubmatch(callPool[it.G].Text)
			if m == nil || f.Alias[m[1]] != "" || strings.Contains(helperFile+fakeDecls, " "+m[2]) {
				continue
			}
			pkg, own = importNames(map[string]bool{m[1]: true}, nil)[m[1]], m[2]
			break
		}
	}
	clause := func(s string) string { return strings.Replace(s, "package p\n", "package "+pkg+"\n", 1) }
	files = []File{{"zhelp.go", clause(helperFile)}, {"zfake.go", clause(fakeDecls)}}
	if own != "" {
		files = append(files, File{"zown.go", fmt.Sprintf("package %s\n\nfunc %s(a ...any) any { return nil }\n", pkg, own)})
	}
	n := 0
	for fi, f := range c.Files {
		var pieces, tags []string
		for _, it := range f.Items {
			g := callPool[it.G]
			n++
			pieces = append(pieces, g.place(g.context(it.Ctx), fmt.Sprint(n)))
			tags = append(tags, fmt.Sprintf("%s %s %s", g.Rule, g.Sev, g.Conf))
		}
		if own != "" {
			pieces = append(pieces, fmt.Sprintf("func ownCall%d() any {\n\t%s()\n\treturn %s(1, nil, \"a\")\n}", fi, own, own))
		}
		src, marks := buildFile(pkg, "", pieces, tags, f.Alias)
		name := fmt.Sprintf("f%d.go", fi)
		files = append(files, File{name, src})
		for _, m := range marks {
			want = append(want, fmt.Sprintf("%s:%d:%d %s", name, m.Line, m.Col, m.Tag))
		}
	}
	sort.Strings(want)
	return
}

func runCallCase(c callCase, s *Stats) error {
	files, want := c.build()
	r, err := MustScan(files, ScanOpts{NoAnalyze: true})
	if err != nil {
		return err
	}
	var got []string
	for _, i := range r.Issues {
		if !callRules[i.RuleID] {
			continue
		}
		line, _, _ := strings.Cut(i.Line, "-")
		got = append(got, fmt.Sprintf("%s:%s:%s %s %v %v", filepath.Base(i.File), line, i.Col, i.RuleID, i.Severity, i.Confidence))
	}
	sort.Strings(got)
	if d := diffMultiset(want, got); d != "" {
		return violf("call rules: expected (first) and reported (second) findings differ: %s\n%s", d, dumpFiles(files[2:]))
	}
	if len(files) > 2+len(c.Files) {
		s.Label("package named like its import")
	}
	neg := 0
	for _, f := range c.Files {
		for _, it := range f.Items {
			if callPool[it.G].Rule == "" {
				neg++
			} else {
				s.Label("rule " + callPool[it.G].Rule)
			}
			s.NonTrivialKey(fmt.Sprintf("%d/%d/%v", it.G, it.Ctx, len(f.Alias) > 0))
		}
	}
	s.LabelN("look-alikes", neg)
	s.LabelN("expected findings", len(want))
	return nil
}

func init() {
	register("C17", "a case is 1-2 files with up to 8 placed gadgets (listed calls with known findings, and look-alikes) under random import aliases, plus every gadget in every context enumerated; distinct non-trivial = distinct (gadget, context, aliased) triples, all of which are compared with the expected findings including position, severity and confidence",
		50000, 1500000, genCallCase, runCallCase, enumerate(enumCallCases))
}
