package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C05: the switches that concern suppression comments.

type switchCase struct {
	Files []File
	Tag   string // alternative tag, as given in the option
	How   string // "" in process, "flag" or "conf" with the command line tool
	Conc  string
}

var altTags = []string{"falsepositive", "#dontanalyze", "#nosecurity", "notsec", "#a.b*c+", "NOSEC", "#x(y", "nolint:gosec", "#sec-ok", "[x]", "a|b"}

func genSwitch(t *rapid.T) switchCase {
	var c switchCase
	cli := oneIn(t, 250, "cli")
	fs := genProg(t, cli)
	near := guessRules(fs)
	c.Files = sprinkleTag(t, fs, "#nosec", near, true)
	c.Tag = sampled(altTags).Draw(t, "tag")
	if cli {
		c.How = sampled([]string{"flag", "conf"}).Draw(t, "how")
	}
	return c
}

type swRec struct {
	key   string
	nosec bool
	sups  string
}

type swOut struct {
	recs  []swRec
	found int
	nosec int
}

func (o *swOut) keys(f func(swRec) bool) []string {
	var out []string
	for _, r := range o.recs {
		if f(r) {
			out = append(out, r.key)
		}
	}
	sort.Strings(out)
	return out
}

func (o *swOut) dump() []string {
	var out []string
	for _, r := range o.recs {
		out = append(out, fmt.Sprintf("%s nosec=%v %s", r.key, r.nosec, r.sups))
	}
	sort.Strings(out)
	return out
}

type swOpts struct {
	nosec, show, track bool
	tag                string
	nosecVal           string // other value of the nosec option (configuration only)
}

// scan runs gosec one way or the other.
func (c switchCase) scan(files []File, o swOpts) (*swOut, error) {
	out := &swOut{}
	g := map[string]string{}
	if o.nosec {
		g["nosec"] = "true"
	}
	if o.nosecVal != "" {
		g["nosec"] = o.nosecVal
	}
	if o.show {
		g["show-ignored"] = "true"
	}
	if o.tag != "" {
		g["#nosec"] = o.tag
	}
	if c.How == "" {
		dir := caseDir()
		if err := writeFiles(dir, files); err != nil {
			return nil, err
		}
		r, err := scanDir(dir, files, ScanOpts{Globals: g, Track: o.track})
		if err != nil {
			return nil, err
		}
		if len(r.TypeErr) > 0 {
			return nil, harnessf("ill-typed: %v\n%s", r.TypeErr, dumpFiles(files))
		}
		for _, i := range r.Issues {
			var ss []string
			for _, x := range i.Suppressions {
				ss = append(ss, x.Kind+":"+x.Justification)
			}
			sort.Strings(ss)
			out.recs = append(out.recs, swRec{issueKey(i, dir), i.NoSec, strings.Join(ss, ";")})
		}
		out.found, out.nosec = -1, r.Metrics.NumNosec
		return out, nil
	}
	dir, err := writeModule(files)
	if err != nil {
		return nil, err
	}
	args := []string{"-fmt=json", "-no-fail"}
	if o.track {
		args = append(args, "-track-suppressions")
	}
	if c.How == "flag" && o.nosecVal == "" {
		if o.nosec {
			args = append(args, "-nosec")
		}
		if o.show {
			args = append(args, "-show-ignored")
		}
		if o.tag != "" {
			args = append(args, "-nosec-tag="+o.tag)
		}
	} else {
		if err := writeJSON(dir+"/conf.json", map[string]any{"global": g}); err != nil {
			return nil, harnessf("%v", err)
		}
		args = append(args, "-conf=conf.json")
	}
	args = append(args, "./...")
	r, err := runCLI(dir, nil, args...)
	if err != nil {
		return nil, err
	}
	rep, err := r.mustReport(args)
	if err != nil {
		return nil, err
	}
	for k := range rep.Issues {
		i := &rep.Issues[k]
		var ss []string
		for _, x := range i.Suppressions {
			ss = append(ss, x.Kind+":"+x.Justification)
		}
		sort.Strings(ss)
		key := fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s", i.RuleID, strings.TrimPrefix(i.File, dir), i.Line, i.Column, i.Severity, i.Confidence, i.Details)
		out.recs = append(out.recs, swRec{key, i.NoSec, strings.Join(ss, ";")})
	}
	out.found, out.nosec = rep.Stats.Found, rep.Stats.Nosec
	return out, nil
}

func replaceIn(files []File, kv ...string) []File {
	var out []File
	r := strings.NewReplacer(kv...)
	for _, f := range files {
		out = append(out, File{f.Name, r.Replace(f.Src)})
	}
	return out
}

func replaceAll(xs []string, from, to string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, strings.ReplaceAll(x, from, to))
	}
	sort.Strings(out)
	return out
}

func runSwitch(c switchCase, s *Stats) error {
	all := func(swRec) bool { return true }
	var ferr error
	scan := func(files []File, o swOpts) *swOut {
		if ferr != nil {
			return &swOut{}
		}
		r, err := c.scan(files, o)
		if err != nil {
			ferr = err
			return &swOut{}
		}
		return r
	}
	def := scan(c.Files, swOpts{})
	full := scan(c.Files, swOpts{nosec: true})
	stripped := replaceIn(c.Files, "#nosec", "#nose_", "//gosec:disable", "//gosec:disabl_")
	bare := scan(stripped, swOpts{})
	tr := scan(c.Files, swOpts{track: true})
	show := scan(c.Files, swOpts{show: true})
	both := scan(c.Files, swOpts{show: true, track: true})
	fullTr := scan(c.Files, swOpts{nosec: true, track: true})
	fullShow := scan(c.Files, swOpts{nosec: true, show: true})
	altTag := c.Tag
	if !strings.HasPrefix(altTag, "#") {
		altTag = "#" + altTag
	}
	alt := scan(c.Files, swOpts{tag: c.Tag})
	altSrc := replaceIn(c.Files, "#nosec", altTag)
	alt2 := scan(altSrc, swOpts{tag: c.Tag, track: true})
	alt3 := scan(altSrc, swOpts{nosec: true, tag: c.Tag})
	alt4 := scan(altSrc, swOpts{show: true, tag: c.Tag})
	mixed := c.Files
	if len(mixed) > 0 {
		mixed = append(append([]File{}, c.Files[:1]...), altSrc[1:]...)
	}
	alt5 := scan(mixed, swOpts{tag: c.Tag})
	off := scan(c.Files, swOpts{nosecVal: "false"})
	on := scan(c.Files, swOpts{nosecVal: "enabled"})
	if ferr != nil {
		return ferr
	}
	eq := func(what string, a, b []string) error {
		if d := diffMultiset(a, b); d != "" {
			return violf("%s (tag %q, %s): %s\n%s", what, c.Tag, c.How, d, dumpFiles(c.Files))
		}
		return nil
	}
	none := func(r swRec) bool { return r.sups == "" }
	suppressed := len(full.recs) - len(def.recs)
	checks := []error{
		eq("comments ignored (first) versus comments removed (second)", full.dump(), bare.dump()),
		eq("default (first) versus unsuppressed issues with tracking (second)", def.keys(all), tr.keys(none)),
		eq("comments ignored (first) versus all issues with tracking (second)", full.keys(all), tr.keys(all)),
		eq("comments ignored (first) versus all issues with -show-ignored (second)", full.keys(all), show.keys(all)),
		eq("default (first) versus issues not marked nosec with -show-ignored (second)", def.keys(all), show.keys(func(r swRec) bool { return !r.nosec })),
		eq("tracking (first) versus tracking with -show-ignored (second)", tr.keys(none), both.keys(func(r swRec) bool { return none(r) && !r.nosec })),
		eq("all issues (first) versus tracking with -show-ignored (second)", full.keys(all), both.keys(all)),
		eq("suppressed with tracking (first) versus marked nosec (second)", tr.keys(func(r swRec) bool { return !none(r) }), both.keys(func(r swRec) bool { return r.nosec && !none(r) })),
		eq("comments ignored without (first) and with tracking (second)", full.dump(), fullTr.dump()),
		eq("comments ignored without (first) and with -show-ignored (second)", full.dump(), fullShow.dump()),
		eq("without (first) and with an alternative tag, default tag in the source (second)", def.dump(), alt.dump()),
		eq("tracking with default (first) and alternative tag (second)", tr.dump(), replaceAll(alt2.dump(), altTag, "#nosec")),
		eq("comments ignored with default (first) and alternative tag (second)", full.dump(), alt3.dump()),
		eq("-show-ignored with default (first) and alternative tag (second)", show.dump(), alt4.dump()),
		eq("default (first) versus default and alternative tag mixed (second)", def.dump(), alt5.dump()),
		eq("default (first) versus nosec option false (second)", def.dump(), off.dump()),
		eq("comments ignored (first) versus nosec option enabled (second)", full.dump(), on.dump()),
	}
	for _, e := range checks {
		if e != nil {
			return e
		}
	}
	if c.How != "" {
		for _, x := range []struct {
			n string
			o *swOut
		}{{"default", def}, {"-track-suppressions", tr}, {"-show-ignored", show}, {"both", both}, {"alternative tag", alt2}, {"alternative tag and -show-ignored", alt4}} {
			if x.o.found != len(def.recs) {
				return violf("%s: found is %d, but %d unsuppressed issues are reported (%s)\n%s", x.n, x.o.found, len(def.recs), c.How, dumpFiles(c.Files))
			}
		}
		if full.found != len(full.recs) {
			return violf("-nosec: found is %d of %d issues", full.found, len(full.recs))
		}
		s.Label("command line, " + c.How)
	}
	if full.nosec != 0 || def.nosec != tr.nosec || def.nosec != show.nosec || def.nosec != alt2.nosec {
		return violf("suppression comments counted: %d by default, %d when ignored, %d with tracking, %d with -show-ignored, %d with the alternative tag\n%s", def.nosec, full.nosec, tr.nosec, show.nosec, alt2.nosec, dumpFiles(c.Files))
	}
	if suppressed > 0 {
		s.NonTrivial()
		s.Label("some issues suppressed")
		if len(def.recs) > 0 {
			s.Label("some suppressed, some not")
		}
	}
	return nil
}

func init() {
	register("C05", "distinct annotated programs in which at least one issue is suppressed", 4000, 100000, genSwitch, runSwitch, needCLI, shrinkSeconds(40))
}
