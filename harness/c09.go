package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/issue"
)

// C09: the SARIF report.

type sarifText struct {
	Text     string `json:"text"`
	Markdown string `json:"markdown"`
}

type sarifRef struct {
	Name  string `json:"name"`
	GUID  string `json:"guid"`
	Index *int   `json:"index"`
}

type sarifDesc struct {
	ID            string    `json:"id"`
	Name          string    `json:"name"`
	GUID          string    `json:"guid"`
	HelpURI       string    `json:"helpUri"`
	Short         sarifText `json:"shortDescription"`
	Full          sarifText `json:"fullDescription"`
	Relationships []struct {
		Target struct {
			ID            string    `json:"id"`
			GUID          string    `json:"guid"`
			Index         *int      `json:"index"`
			ToolComponent *sarifRef `json:"toolComponent"`
		} `json:"target"`
	} `json:"relationships"`
}

type sarifComponent struct {
	Name                string      `json:"name"`
	GUID                string      `json:"guid"`
	Version             string      `json:"version"`
	Rules               []sarifDesc `json:"rules"`
	Taxa                []sarifDesc `json:"taxa"`
	SupportedTaxonomies []sarifRef  `json:"supportedTaxonomies"`
}

type sarifArtifact struct {
	URI string `json:"uri"`
}

type sarifRegion struct {
	StartLine   int        `json:"startLine"`
	EndLine     int        `json:"endLine"`
	StartColumn int        `json:"startColumn"`
	Snippet     *sarifText `json:"snippet"`
}

type sarifResult struct {
	RuleID    string    `json:"ruleId"`
	RuleIndex *int      `json:"ruleIndex"`
	Level     string    `json:"level"`
	Message   sarifText `json:"message"`
	Locations []struct {
		PhysicalLocation struct {
			ArtifactLocation sarifArtifact `json:"artifactLocation"`
			Region           sarifRegion   `json:"region"`
		} `json:"physicalLocation"`
	} `json:"locations"`
	Suppressions []struct {
		Kind          string `json:"kind"`
		Justification string `json:"justification"`
	} `json:"suppressions"`
	Fixes []struct {
		Description     *sarifText `json:"description"`
		ArtifactChanges []struct {
			ArtifactLocation *sarifArtifact `json:"artifactLocation"`
			Replacements     []struct {
				DeletedRegion *sarifRegion `json:"deletedRegion"`
			} `json:"replacements"`
		} `json:"artifactChanges"`
	} `json:"fixes"`
}

type sarifDoc struct {
	Schema  string `json:"$schema"`
	Version string `json:"version"`
	Runs    []struct {
		Tool struct {
			Driver sarifComponent `json:"driver"`
		} `json:"tool"`
		Taxonomies []sarifComponent `json:"taxonomies"`
		Results    []sarifResult    `json:"results"`
	} `json:"runs"`
}

// findNull returns the path of a null in a JSON value.
func findNull(v any, path string) string {
	switch x := v.(type) {
	case nil:
		return path
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if p := findNull(x[k], path+"."+k); p != "" {
				return p
			}
		}
	case []any:
		for k := range x {
			if p := findNull(x[k], fmt.Sprintf("%s[%d]", path, k)); p != "" {
				return p
			}
		}
	}
	return ""
}

// relTo lists the paths of a file relative to the roots that contain it.
func relTo(file string, roots []string) []string {
	var out []string
	for _, r := range roots {
		if p := strings.TrimSuffix(r, "/") + "/"; strings.HasPrefix(file, p) {
			out = append(out, validText(strings.TrimPrefix(file, p)))
		}
	}
	return out
}

func (i *repIssue) snippetLines() string {
	var out []string
	line := i.From
	for _, l := range strings.Split(string(i.Code), "\n") {
		if p := fmt.Sprintf("%d:", line); line <= i.To && strings.HasPrefix(l, p) {
			out = append(out, strings.TrimSpace(validText(strings.TrimPrefix(l, p))))
			line++
		}
	}
	return strings.Join(out, "\n")
}

func trimLines(s string) string {
	ls := strings.Split(s, "\n")
	for k := range ls {
		ls[k] = strings.TrimSpace(ls[k])
	}
	return strings.Join(ls, "\n")
}

func runSarif(c repCase, s *Stats) error {
	if len(c.CLI) > 0 {
		return runRoots(c, s, "sarif", func(out string) (l []string, err error) {
			var d sarifDoc
			if err = json.Unmarshal([]byte(out), &d); err == nil {
				for _, r := range d.Runs[0].Results {
					l = append(l, r.Locations[0].PhysicalLocation.ArtifactLocation.URI)
				}
			}
			return
		})
	}
	out, err := c.write("sarif", c.Color)
	if err != nil {
		return err
	}
	var raw any
	if err := json.Unmarshal([]byte(out), &raw); err != nil {
		return violf("the SARIF report is no valid JSON: %v\n%s", err, out)
	}
	if p := findNull(raw, ""); p != "" {
		return violf("the SARIF report has a null at %s\n%s", p, out)
	}
	var d sarifDoc
	if err := json.Unmarshal([]byte(out), &d); err != nil {
		return violf("the SARIF report has values of the wrong type: %v\n%s", err, out)
	}
	bad := func(f string, a ...any) error { return violf("SARIF report: %s\n%s", fmt.Sprintf(f, a...), out) }
	if d.Version != "2.1.0" || d.Schema == "" || len(d.Runs) != 1 {
		return bad("version %q, schema %q, %d runs", d.Version, d.Schema, len(d.Runs))
	}
	run := d.Runs[0]
	if _, ok := raw.(map[string]any)["runs"].([]any)[0].(map[string]any)["results"].([]any); !ok {
		return bad("no list of results")
	}
	if run.Tool.Driver.Name != "gosec" {
		return bad("the tool is named %q", run.Tool.Driver.Name)
	}
	if len(run.Taxonomies) != 1 || run.Taxonomies[0].Name != "CWE" {
		return bad("the taxonomies are not just CWE")
	}
	tax := run.Taxonomies[0]
	// the rules and taxa are those of the issues, once each
	wantRules, wantTaxa := map[string]bool{}, map[string]bool{}
	noCwe := map[string]bool{}
	for k := range c.Issues {
		i := &c.Issues[k]
		wantRules[i.Rule] = true
		if w := i.real().Cwe; w != nil {
			wantTaxa[w.ID] = true
		} else {
			noCwe[i.Rule] = true
		}
	}
	ids := func(l []sarifDesc) []string {
		out := []string{}
		for _, x := range l {
			out = append(out, x.ID)
		}
		sort.Strings(out)
		return out
	}
	if a, b := fmt.Sprint(sortedKeys(wantRules)), fmt.Sprint(ids(run.Tool.Driver.Rules)); a != b {
		return bad("the rules are %s, expected %s", b, a)
	}
	if a, b := fmt.Sprint(sortedKeys(wantTaxa)), fmt.Sprint(ids(tax.Taxa)); a != b {
		return bad("the taxa are %s, expected %s", b, a)
	}
	for _, x := range tax.Taxa {
		if x.GUID == "" || !strings.HasSuffix(x.HelpURI, "/"+x.ID+".html") {
			return bad("taxon %s has GUID %q and help %q", x.ID, x.GUID, x.HelpURI)
		}
	}
	for _, x := range run.Tool.Driver.Rules {
		w := issue.GetCweByRule(x.ID)
		if len(x.Relationships) == 0 && !noCwe[x.ID] {
			return bad("rule %s refers to no CWE", x.ID)
		}
		for _, r := range x.Relationships {
			if w == nil || r.Target.ID != w.ID {
				return bad("rule %s refers to CWE %s, its own is %v", x.ID, r.Target.ID, w)
			}
			if t := r.Target.ToolComponent; t == nil || t.Name != tax.Name || t.GUID != "" && t.GUID != tax.GUID {
				return bad("rule %s refers to no taxonomy of the report", x.ID)
			}
			found := false
			for n, y := range tax.Taxa {
				if y.ID == r.Target.ID {
					found = (r.Target.GUID == "" || r.Target.GUID == y.GUID) && (r.Target.Index == nil || *r.Target.Index == n)
				}
			}
			if !found {
				return bad("the reference of rule %s to CWE %s does not resolve", x.ID, r.Target.ID)
			}
		}
	}
	// the results are the issues
	if len(run.Results) != len(c.Issues) {
		return bad("%d results for %d issues", len(run.Results), len(c.Issues))
	}
	for k := range c.Issues {
		i, r := &c.Issues[k], run.Results[k]
		level := "error"
		if i.Sev == 0 {
			level = "warning"
		}
		if r.RuleID != i.Rule || r.Message.Text != validText(string(i.What)) || r.Level != level {
			return bad("result %d has rule %s, message %q and level %s, expected %s, %q and %s", k, r.RuleID, r.Message.Text, r.Level, i.Rule, i.What, level)
		}
		at := 0
		if r.RuleIndex != nil {
			at = *r.RuleIndex
		}
		if at == -1 {
			s.Label("results without rule index")
		} else if at < 0 || at >= len(run.Tool.Driver.Rules) || run.Tool.Driver.Rules[at].ID != i.Rule {
			return bad("result %d of rule %s has rule index %d", k, i.Rule, at)
		}
		if len(r.Locations) != 1 {
			return bad("result %d has %d locations", k, len(r.Locations))
		}
		g := r.Locations[0].PhysicalLocation.Region
		if g.StartLine != i.From || g.EndLine != i.To || g.StartColumn != i.Col {
			return bad("result %d has region %d-%d column %d, expected %d-%d column %d", k, g.StartLine, g.EndLine, g.StartColumn, i.From, i.To, i.Col)
		}
		if i.Plain && !strings.Contains(i.snippetLines(), "\r") {
			txt := ""
			if g.Snippet != nil {
				txt = g.Snippet.Text
			}
			if a, b := i.snippetLines(), trimLines(strings.TrimSuffix(txt, "\n")); a != b {
				return bad("result %d has snippet %q, expected %q", k, b, a)
			}
		}
		rel := relTo(string(i.File), c.Roots)
		uri := r.Locations[0].PhysicalLocation.ArtifactLocation.URI
		ok := len(rel) == 0
		for _, x := range rel {
			u, err := url.PathUnescape(uri)
			ok = ok || x == uri || err == nil && u == x
		}
		if !ok {
			return bad("result %d in file %q has URI %q, the roots are %q", k, i.File, uri, c.Roots)
		}
		if len(rel) > 0 {
			s.Label("file below a root")
		}
		if len(r.Suppressions) != len(i.Sups) {
			return bad("result %d has %d suppressions, expected %d", k, len(r.Suppressions), len(i.Sups))
		}
		for n, x := range i.Sups {
			if y := r.Suppressions[n]; y.Kind != string(x.Kind) || y.Justification != validText(string(x.Just)) {
				return bad("result %d has suppression %+v, expected %+v", k, y, x)
			}
		}
		if (len(r.Fixes) > 0) != (i.Autofix != "") || len(r.Fixes) > 1 {
			return bad("result %d has %d fixes for %q", k, len(r.Fixes), i.Autofix)
		}
		for _, f := range r.Fixes {
			fix := validText(string(i.Autofix))
			if f.Description == nil || f.Description.Text == "" || f.Description.Text != fix && f.Description.Markdown != fix {
				return bad("result %d has fix %+v, expected %q", k, f.Description, fix)
			}
			if len(f.ArtifactChanges) == 0 {
				return bad("the fix of result %d has no artifact changes", k)
			}
			for _, a := range f.ArtifactChanges {
				if a.ArtifactLocation == nil || len(a.Replacements) == 0 || a.Replacements[0].DeletedRegion == nil {
					return bad("the fix of result %d has an incomplete artifact change", k)
				}
			}
			s.Label("with fix")
		}
	}
	s.LabelN("issues written", len(c.Issues))
	if len(wantRules) > 1 {
		s.NonTrivial()
	}
	if len(wantTaxa) < len(wantRules) {
		s.Label("rules sharing a CWE or without one")
	}
	return nil
}

func init() {
	register("C09", "distinct sets of issues of at least two rules", 20000, 1000000, genRep, runSarif, needCLI, enumerate(enumRoots))
}
