package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"
	"pgregory.net/rapid"
)

// C26: generated fixes. A provider on the loopback interface answers by a script and writes down what it is asked.

type fixAnswer struct {
	Kind string // text, parts, status, empty, nocand, noparts, nocontent, badjson
	Text string
	Code int
}

type fixCase struct {
	Msgs    []int // message of each issue
	Script  []fixAnswer
	Preset  bool // the issues have fixes already
	Seed    int
	CLI     *fixCLI
	Key     string
	Unknown string // another provider
}

type fixCLI struct {
	Provider, Flag, Env string
	Endpoint            bool
	Format              string
	Quiet               bool
}

var fixMsgs = []string{"Use of weak cryptographic primitive", "Errors unhandled", "Expect file permissions to be 0600 or less", "a \"quoted\" `message`", "tabs\tand\nlines", "percent %d %s %%", "Grüße <&> \u2028",
	"", "Errors unhandled.", "errors unhandled", "Use of weak cryptographic primitive\n"}

func genFix(t *rapid.T) fixCase {
	c := fixCase{Preset: oneIn(t, 6, "preset"), Seed: upTo(t, 1000, "seed"), Key: sampled([]string{"key", "AIzaSy-x_1", "k e y"}).Draw(t, "key")}
	for i := upTo(t, 9, "nissues"); i > 0; i-- {
		c.Msgs = append(c.Msgs, upTo(t, len(fixMsgs)-1, "msg"))
	}
	if oneIn(t, 12, "unknown") {
		c.Unknown = sampled([]string{"", "Gemini", "gemini ", "openai", "gemini,openai"}).Draw(t, "provider")
		if c.Unknown == "" {
			c.Unknown = "none"
		}
	}
	for i := 0; i < 11; i++ {
		a := fixAnswer{Kind: "text", Text: fmt.Sprintf("fix %d", i) + sampled([]string{"", "", "", "\nline\n", " \"q\" <b>&", " %v é\u2029", "```go\nx := 1\n```"}).Draw(t, "text")}
		if oneIn(t, 12, "fail") {
			a.Kind = sampled([]string{"status", "status", "empty", "nocand", "noparts", "nocontent", "badjson", "blocked"}).Draw(t, "kind")
			a.Code = sampled([]int{400, 401, 403, 404, 418, 500, 501, 302}).Draw(t, "code")
		} else if oneIn(t, 6, "parts") {
			a.Kind = "parts"
		} else if oneIn(t, 12, "same") {
			a.Text = "the same fix"
		}
		c.Script = append(c.Script, a)
	}
	if oneIn(t, 150, "cli") {
		c.CLI = &fixCLI{Provider: sampled([]string{"gemini", "gemini", "gemini", "", "openai"}).Draw(t, "provider"), Flag: sampled([]string{"", "flagkey"}).Draw(t, "flag"), Env: sampled([]string{"", "envkey"}).Draw(t, "env"),
			Endpoint: true, Format: sampled([]string{"json", "json", "sarif", "text"}).Draw(t, "fmt"), Quiet: rapid.Bool().Draw(t, "quiet")}
	}
	return c
}

type fixReq struct{ path, key, prompt string }

type fixServer struct {
	mu     sync.Mutex
	script []fixAnswer
	reqs   []fixReq
	srv    *httptest.Server
	bad    string
}

func (s *fixServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var body struct {
		Contents []struct {
			Parts []struct {
				Text string `json:"text"`
			} `json:"parts"`
		} `json:"contents"`
	}
	b, _ := io.ReadAll(r.Body)
	if err := json.Unmarshal(b, &body); err != nil || len(body.Contents) != 1 || len(body.Contents[0].Parts) != 1 {
		s.bad = fmt.Sprintf("request %s with body %q (%v)", r.URL, b, err)
		w.WriteHeader(400)
		return
	}
	key := r.Header.Get("x-goog-api-key")
	if key == "" {
		key = r.URL.Query().Get("key")
	}
	n := len(s.reqs)
	s.reqs = append(s.reqs, fixReq{r.URL.Path, key, body.Contents[0].Parts[0].Text})
	a := fixAnswer{Kind: "text", Text: fmt.Sprintf("default fix %d", n)}
	if n < len(s.script) {
		a = s.script[n]
	}
	w.Header().Set("Content-Type", "application/json")
	cand := func(parts ...string) map[string]any {
		ps := []any{}
		for _, p := range parts {
			ps = append(ps, map[string]any{"text": p})
		}
		return map[string]any{"content": map[string]any{"role": "model", "parts": ps}, "finishReason": "STOP", "index": 0}
	}
	send := func(v any) { _ = json.NewEncoder(w).Encode(v) }
	switch a.Kind {
	case "text":
		send(map[string]any{"candidates": []any{cand(a.Text)}})
	case "parts":
		send(map[string]any{"candidates": []any{cand(a.Text, "more"), cand("other")}})
	case "empty":
		send(map[string]any{"candidates": []any{cand("")}})
	case "nocand":
		send(map[string]any{"candidates": []any{}})
	case "noparts":
		send(map[string]any{"candidates": []any{cand()}})
	case "nocontent":
		send(map[string]any{"candidates": []any{map[string]any{"finishReason": "MAX_TOKENS", "index": 0}}})
	case "blocked":
		send(map[string]any{"candidates": []any{map[string]any{"finishReason": "SAFETY", "index": 0}}})
	case "badjson":
		_, _ = io.WriteString(w, "{\"candidates\": [")
	default:
		w.WriteHeader(a.Code)
		send(map[string]any{"error": map[string]any{"code": a.Code, "message": "scripted failure", "status": "INVALID_ARGUMENT"}})
	}
}

func (a fixAnswer) ok() bool { return a.Kind == "text" || a.Kind == "parts" }

var (
	fixSrv     *fixServer
	fixSrvOnce sync.Once
)

func fixProvider(script []fixAnswer) *fixServer {
	fixSrvOnce.Do(func() {
		fixSrv = &fixServer{}
		fixSrv.srv = httptest.NewServer(fixSrv)
	})
	fixSrv.mu.Lock()
	defer fixSrv.mu.Unlock()
	fixSrv.script, fixSrv.reqs, fixSrv.bad = script, nil, ""
	return fixSrv
}

// expect computes the requests and fixes for issues with the given messages: distinct messages in order of appearance,
// up to the first answer that is none.
func (c fixCase) expect(msgs []string) (order []string, fix map[string]string, failed bool, stop int) {
	fix = map[string]string{}
	stop = len(msgs)
	for i, m := range msgs {
		if _, ok := fix[m]; ok {
			continue
		}
		order = append(order, m)
		a := c.Script[len(order)-1]
		if !a.ok() {
			return order, fix, true, i
		}
		fix[m] = a.Text
	}
	return
}

func (c fixCase) checkRequests(s *fixServer, order []string, key string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad != "" {
		return violf("the provider cannot read the %s", s.bad)
	}
	var got []string
	for _, r := range s.reqs {
		got = append(got, r.prompt)
		if r.key != key {
			return violf("the provider is given the key %q instead of %q", r.key, key)
		}
		if !strings.Contains(r.path, "gemini") {
			return violf("request to %s", r.path)
		}
	}
	if len(got) != len(order) {
		return violf("%d requests instead of %d, one for each of %q: %q", len(got), len(order), order, got)
	}
	for i, m := range order {
		if !strings.Contains(got[i], fmt.Sprintf("%q", m)) {
			return violf("request %d does not ask for %q but: %s", i, m, got[i])
		}
	}
	return nil
}

func runFix(c fixCase, s *Stats) error {
	if c.CLI != nil {
		return runFixCLI(c, s)
	}
	p := fixProvider(c.Script)
	var is, before []*issue.Issue
	var msgs []string
	for i, m := range c.Msgs {
		x := &issue.Issue{Severity: issue.Score(i % 3), Confidence: issue.Score((i + c.Seed) % 3), Cwe: issue.GetCweByRule("G401"), RuleID: fmt.Sprintf("G%d", 101+(i*c.Seed)%7), What: fixMsgs[m],
			File: fmt.Sprintf("/x/%d.go", i), Code: "1: x", Line: fmt.Sprint(i + 1), Col: "3", NoSec: i%4 == 1, Suppressions: []issue.SuppressionInfo{{Kind: "inSource", Justification: "j"}}}
		if c.Preset {
			x.Autofix = "old"
		}
		y := *x
		is, before, msgs = append(is, x), append(before, &y), append(msgs, x.What)
	}
	provider := "gemini"
	if c.Unknown != "" {
		provider = c.Unknown
	}
	err := autofix.GenerateSolution(provider, c.Key, p.srv.URL, is)
	order, fix, failed, stop := c.expect(msgs)
	if c.Unknown != "" {
		order, fix, failed, stop = nil, map[string]string{}, true, 0
	}
	if failed != (err != nil) {
		return violf("a failure of the provider (%v) ends with the error %v\nanswers %v to %q", failed, err, c.Script, order)
	}
	if e := c.checkRequests(p, order, c.Key); e != nil {
		return e
	}
	for i, x := range is {
		b := *before[i]
		f, ok := fix[b.What]
		switch {
		case i < stop:
			b.Autofix = f
		case ok && x.Autofix == f: // after a failure, of a message that was answered before
			b.Autofix = f
		}
		if !reflect.DeepEqual(&b, x) {
			return violf("issue %d is %+v instead of %+v; requests %q", i, *x, b, order)
		}
	}
	s.LabelN("requests", len(order))
	if failed {
		s.Label("provider fails")
	}
	if len(order) < len(msgs) && len(order) > 1 {
		s.NonTrivial()
	}
	return nil
}

func runFixCLI(c fixCase, s *Stats) error {
	dir, err := writeModule([]File{{"p.go", confProgram}})
	if err != nil {
		return err
	}
	p := fixProvider(c.Script)
	base := []string{"-fmt=" + c.CLI.Format, "-exclude=G104"}
	if c.CLI.Quiet {
		base = append(base, "-quiet")
	}
	off, err := runCLI(dir, []string{"GOSEC_AI_API_KEY="}, append(base, ".")...)
	if err != nil {
		return err
	}
	args := append([]string{}, base...)
	if c.CLI.Provider != "" {
		args = append(args, "-ai-api-provider="+c.CLI.Provider)
	}
	if c.CLI.Flag != "" {
		args = append(args, "-ai-api-key="+c.CLI.Flag)
	}
	args = append(args, "-ai-endpoint="+p.srv.URL, ".")
	on, err := runCLI(dir, []string{"GOSEC_AI_API_KEY=" + c.CLI.Env, "NO_PROXY=*"}, args...)
	if err != nil {
		return err
	}
	key := c.CLI.Env
	if key == "" {
		key = c.CLI.Flag
	}
	if c.CLI.Env != "" && c.CLI.Flag != "" { // which one counts is not specified
		p.mu.Lock()
		if len(p.reqs) > 0 {
			if key = p.reqs[0].key; key != c.CLI.Env && key != c.CLI.Flag {
				p.mu.Unlock()
				return violf("gosec %v with GOSEC_AI_API_KEY=%s uses the key %q", args, c.CLI.Env, key)
			}
		}
		p.mu.Unlock()
	}
	if on.Exit != off.Exit {
		return violf("gosec %v ends with exit status %d instead of %d: %s", args, on.Exit, off.Exit, tail(on.Stderr, 800))
	}
	var msgs []string
	if c.CLI.Format != "json" {
		jr, err := runCLI(dir, nil, "-fmt=json", "-exclude=G104", ".")
		if err != nil {
			return err
		}
		if jr.Rep == nil {
			return harnessf("no report")
		}
		off.Rep = jr.Rep
	}
	if off.Rep == nil {
		return harnessf("no report: %s", tail(off.Stderr, 500))
	}
	for i := range off.Rep.Issues {
		msgs = append(msgs, off.Rep.Issues[i].Details)
	}
	order, fix, failed, stop := c.expect(msgs)
	enabled := c.CLI.Provider == "gemini" && key != ""
	if !enabled {
		order, fix, stop, failed = nil, map[string]string{}, 0, c.CLI.Provider != "" && key != ""
	}
	if e := c.checkRequests(p, order, key); e != nil {
		return e
	}
	if failed && !c.CLI.Quiet && !strings.Contains(on.Stderr, "autofix") && !strings.Contains(on.Stderr, "provider") {
		return violf("gosec %v does not report the failure of the provider: %s", args, tail(on.Stderr, 800))
	}
	if c.CLI.Format == "json" {
		if on.Rep == nil {
			return violf("gosec %v prints no report: %s", args, tail(on.Stderr, 800))
		}
		var want []string
		for i := range off.Rep.Issues {
			x := off.Rep.Issues[i]
			if i < stop {
				x.Autofix = fix[x.Details]
			}
			want = append(want, x.full(dir))
		}
		sort.Strings(want)
		for i := stop; i < len(on.Rep.Issues); i++ {
			if on.Rep.Issues[i].Autofix == fix[on.Rep.Issues[i].Details] {
				on.Rep.Issues[i].Autofix = ""
			}
		}
		if d := diffMultiset(want, cliMultiset(on.Rep.Issues, func(i *cliIssue) string { return i.full(dir) })); d != "" {
			return violf("gosec %v: expected issues with fixes (first) and those reported (second) differ: %s", args, d)
		}
		if !reflect.DeepEqual(on.Rep.Stats, off.Rep.Stats) {
			return violf("gosec %v changes the metrics from %v to %v", args, off.Rep.Stats, on.Rep.Stats)
		}
	} else {
		for _, m := range order {
			if f, ok := fix[m]; ok && c.CLI.Format == "sarif" {
				b, _ := json.Marshal(f)
				if !strings.Contains(on.Stdout, string(b)) && f != "" {
					var doc any
					if json.Unmarshal([]byte(on.Stdout), &doc) != nil || !strings.Contains(fmt.Sprint(doc), f) {
						return violf("gosec %v: the fix %q is not in the report", args, f)
					}
				}
			}
		}
		if len(order) == 0 && on.Stdout != off.Stdout {
			return violf("gosec %v changes the report although no fix was requested\n%s", args, tail(on.Stdout, 800))
		}
	}
	s.Label("command line")
	if len(order) > 0 {
		s.NonTrivial()
	}
	return nil
}

func init() {
	register("C26", "distinct lists of issues with repeated messages; distinct runs of the tool that ask the provider", 4000, 200000, genFix, runFix, needCLI, shrinkSeconds(40))
}
