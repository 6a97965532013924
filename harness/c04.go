package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C04: suppression comments.

type supCase struct {
	Files []File
	Alt   string `json:",omitempty"`
	Tests bool   `json:",omitempty"`
}

func genSup(t *rapid.T) supCase {
	var c supCase
	fs := genProg(t, false)
	near := guessRules(fs)
	c.Files = sprinkleTag(t, fs, "#nosec", near, true)
	if oneIn(t, 3, "again") {
		c.Files = sprinkleTag(t, c.Files, "#nosec", near, true)
	}
	if oneIn(t, 3, "inline") {
		c.Files = inlineNosec(t, c.Files, near)
	}
	if oneIn(t, 8, "crlf") {
		for i := range c.Files {
			c.Files[i].Src = strings.ReplaceAll(c.Files[i].Src, "\n", "\r\n")
		}
	}
	return c
}

func runSup(c supCase, s *Stats) error {
	dir := caseDir()
	if err := writeFiles(dir, c.Files); err != nil {
		return err
	}
	tags := []string{"#nosec"}
	ds := map[string][]directive{}
	nd := 0
	for _, f := range c.Files {
		d, amb, err := directivesOf(f.Src, tags)
		if err != nil {
			return harnessf("%v\n%s", err, f.Src)
		}
		if amb {
			s.Label("left out: several directives in one comment")
			return nil
		}
		ds[f.Name] = d
		nd += len(d)
	}
	all, err := scanDir(dir, c.Files, ScanOpts{NoSec: true})
	if err != nil {
		return err
	}
	var wantTrack, wantPlain []string
	sup, unsup, partial := 0, 0, 0
	for _, i := range all.Issues {
		a, b := lineOf(i)
		name := strings.TrimPrefix(strings.TrimPrefix(i.File, dir), "/")
		ss := suppressionsOf(ds[name], i.RuleID, a, b)
		sort.Strings(ss)
		k := issueKey(i, dir)
		wantTrack = append(wantTrack, k+" "+strings.Join(ss, ";"))
		if len(ss) == 0 {
			wantPlain = append(wantPlain, k)
			unsup++
			for _, d := range ds[name] {
				if d.covers(a, b) {
					partial++
					break
				}
			}
		} else {
			sup++
		}
	}
	sort.Strings(wantTrack)
	sort.Strings(wantPlain)
	plain, err := scanDir(dir, c.Files, ScanOpts{})
	if err != nil {
		return err
	}
	var got []string
	for _, i := range plain.Issues {
		got = append(got, issueKey(i, dir))
	}
	sort.Strings(got)
	if d := diffMultiset(wantPlain, got); d != "" {
		return violf("issues which no directive covers (first) and issues reported (second) differ: %s\n%s", d, dumpFiles(c.Files))
	}
	tr, err := scanDir(dir, c.Files, ScanOpts{Track: true})
	if err != nil {
		return err
	}
	got = nil
	for _, i := range tr.Issues {
		var ss []string
		for _, x := range i.Suppressions {
			ss = append(ss, x.Kind+":"+x.Justification)
		}
		sort.Strings(ss)
		got = append(got, issueKey(i, dir)+" "+strings.Join(ss, ";"))
	}
	sort.Strings(got)
	if d := diffMultiset(wantTrack, got); d != "" {
		return violf("expected (first) and recorded (second) suppressions differ: %s\n%s", d, dumpFiles(c.Files))
	}
	if plain.Metrics.NumNosec != nd || tr.Metrics.NumNosec != nd {
		return violf("%d suppression comments, but %d counted\n%s", nd, plain.Metrics.NumNosec, dumpFiles(c.Files))
	}
	if all.Metrics.NumNosec != 0 {
		return violf("suppression comments are counted although they are ignored: %d", all.Metrics.NumNosec)
	}
	s.LabelN("issues suppressed", sup)
	s.LabelN("issues not suppressed", unsup)
	s.LabelN("issues covered by a directive which lists other rules", partial)
	if sup > 0 && unsup > 0 {
		s.NonTrivial()
		s.Label("some suppressed, some not")
	}
	return nil
}

// enumSup puts one directive of each form at each line of a few dense programs.
func enumSup(tier string) []supCase {
	var out []supCase
	loadGoodCorpus()
	var progs [][]File
	for _, r := range rarePool {
		progs = append(progs, r.files())
	}
	step := 12
	if tier == "thorough" {
		step = 1
	}
	for k, i := range goodCorpus {
		if k%step == 0 {
			progs = append(progs, corpus[i].files())
		}
	}
	for _, p := range progs {
		ids := guessRules(p)
		if len(ids) == 0 {
			continue
		}
		for fi, f := range p {
			bad := unsafeLines(f.Src)
			lines := strings.Split(f.Src, "\n")
			for k := range lines {
				if bad[k] || strings.TrimSpace(lines[k]) == "" {
					continue
				}
				for v, txt := range []string{" // #nosec", " /* #nosec " + ids[0] + " -- why */", "//gosec:disable " + ids[len(ids)-1]} {
					ls := append([]string{}, lines...)
					if v == 2 {
						ls[k] = txt + "\n" + ls[k]
					} else {
						ls[k] += txt
					}
					q := append([]File{}, p...)
					q[fi] = File{f.Name, strings.Join(ls, "\n")}
					out = append(out, supCase{Files: q})
				}
			}
		}
	}
	return out
}

var _ = fmt.Sprint

func init() {
	register("C04", "distinct annotated programs in which at least one issue is suppressed and at least one is not", 12000, 300000, genSup, runSup, enumerate(enumSup),
		assume("the code a comment annotates is the node that go/ast's CommentMap associates it with", "comments with several directives in one group are left out"))
}
