package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	gosec "github.com/securego/gosec/v2"
	"pgregory.net/rapid"
)

// C14: configurations. A case is a history of settings, documents read and round trips on one configuration, which ends
// with the same values and the same findings as a configuration that was given the final settings directly; some cases
// compare flags of the command line tool with the same settings in a file.

type confOp struct {
	Kind  string // set, global, trip, read, fresh
	Key   string
	Value json.RawMessage
	Str   string
	Doc   string
}

type confCLI struct {
	Opts     map[string]confOpt
	Sections string // further members of the configuration file
}

type confOpt struct {
	File, Flag string // "" = not given
}

type confCase struct {
	Ops []confOp
	CLI *confCLI
}

// confProgram has findings which depend on every setting.
const confProgram = `package p

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"strings"
)

func errs(f *os.File, b *bytes.Buffer) {
	os.Remove("x")
	ioutil.ReadFile("y")
	fmt.Sscan("1")
	f.Close()
	f.Sync()
	b.ReadByte()
	os.Chdir("/")
	_ = os.Remove("z")
	_, _ = ioutil.ReadFile("w")
	strings.NewReader("x").Seek(0, 0)
}

func perms() {
	_ = os.Mkdir("a", 0o700)
	_ = os.Mkdir("a", 0o750)
	_ = os.Mkdir("a", 0o770)
	_ = os.Mkdir("a", 0o777)
	_ = os.Chmod("a", 0o400)
	_ = os.Chmod("a", 0o600)
	_ = os.Chmod("a", 0o640)
	_ = os.Chmod("a", 0o644)
	_ = os.WriteFile("a", nil, 0o400)
	_ = os.WriteFile("a", nil, 0o600)
	_ = os.WriteFile("a", nil, 0o644)
	_ = os.WriteFile("a", nil, 0o666)
	_, _ = os.Create("a")
}

var password = "aaaaaaaaaaaa"

var secretToken = "f62e5bcda4fae4f8"

var pw = "secret123"

var zebra = "AF7fAFIs9aXxF+dw"

var other = "E2Rt#9$kLm!0pQz^"

func creds() {
	pwd := "p"
	apiKey := "0123456789abcdef"
	zebraKey := "kjh23kj4h2kj3h4kjh23k4jh"
	fmt.Println(pwd, apiKey, zebraKey, password == "qwertyu")
}

func dirs() {
	fmt.Println(http.Dir("/"), http.Dir("/etc"), http.Dir("x"))
}

func ignored() {
	_ = os.Chmod("a", 0o777) // #nosec
	_ = os.Chmod("a", 0o777) // #nosec G302 -- fine
	_ = os.Chmod("a", 0o777) // #nosec G301
	_ = os.Chmod("a", 0o777) // #falsepositive
	_ = os.Chmod("a", 0o777) // #alt G302
	_ = os.Chmod("a", 0o777) // gosec:ignore
}
`

var confSections = map[string][]string{
	"G101": {`{}`, `{"pattern": "(?i)zebra"}`, `{"pattern": "(?i)pass|zebra", "ignore_entropy": true}`, `{"ignore_entropy": true}`, `{"ignore_entropy": false, "entropy_threshold": "20.0", "per_char_threshold": "1.0", "truncate": "8"}`,
		`{"entropy_threshold": "500"}`, `{"truncate": "4"}`, `{"truncate": "x", "entropy_threshold": 10, "pattern": 7}`, `{"pattern": "<>&'\"\u00e9\\w+"}`, `"text"`, `null`, `[1]`},
	"G104": {`{"ioutil": ["ReadFile"]}`, `{"os": ["Remove", "Chdir"], "fmt": ["Sscan"]}`, `{"os.File": ["Close"], "*os.File": ["Sync"]}`, `{"bytes.Buffer": ["ReadByte"], "os": "Remove"}`, `{}`, `[]`, `{"os": [1, "Remove"]}`},
	"G111": {`{"pattern": "http\\.Dir\\(\"/etc\"\\)"}`, `{"pattern": "http\\.Dir"}`, `{}`, `{"pattern": 3}`, `"x"`},
	"G301": {`"0700"`, `"0o777"`, `"0x1ff"`, `448`, `511`, `"504"`, `"bad"`, `true`, `3.5`},
	"G302": {`"0644"`, `"0o400"`, `384`, `511`, `"0"`, `0`, `null`},
	"G306": {`"0666"`, `438`, `256`, `"-1"`, `-1`},
	"G307": {`"0600"`, `384`, `511`},
	"G999": {`{"a": [1, 2.5, "x", null, {"b": true}], "<&>": "\u2028"}`, `1`, `"x"`}, "x y": {`[]`, `{"global": {"nosec": "true"}}`}, "": {`"empty"`}}

var confGlobals = []string{"nosec", "show-ignored", "audit", "#nosec", "exclude", "include", "ssa", "unknown", "", "no\"sec<>"}

func genGlobalValue(t *rapid.T) string {
	return sampled([]string{"true", "false", "enabled", "disabled", "", "falsepositive", "#alt", "G101,G302", "x\"<>&\u00e9\u2028\\", "1", "-0", "null", "TRUE", " true"}).Draw(t, "value")
}

func genSection(t *rapid.T) (string, string) {
	k := sampled(sortedKeys(confSections)).Draw(t, "section")
	return k, sampled(confSections[k]).Draw(t, "content")
}

func genConf(t *rapid.T) confCase {
	var c confCase
	if oneIn(t, 100, "cli") {
		cli := &confCLI{Opts: map[string]confOpt{}}
		for _, o := range []string{"nosec", "show-ignored", "audit", "#nosec", "include", "exclude"} {
			vals := []string{"true", "enabled", "bool", "false", "disabled", "boolfalse"}
			flags := []string{"true"}
			switch o {
			case "#nosec":
				vals = []string{"falsepositive", "#alt", "#falsepositive"}
				flags = vals
			case "include":
				vals = []string{"G101,G302,G104", "G301,G302,G306,G401", "G302"}
				flags = vals
			case "exclude":
				vals = []string{"G101", "G104,G306", "G302,G111"}
				flags = vals
			}
			var v confOpt
			switch upTo(t, 4, "where") {
			case 1:
				v.File = sampled(vals).Draw(t, "file")
			case 2:
				v.Flag = sampled(flags).Draw(t, "flag")
			case 3:
				v.File = sampled(vals).Draw(t, "file")
				v.Flag = sampled(flags).Draw(t, "flag")
			}
			cli.Opts[o] = v
		}
		m := map[string]json.RawMessage{}
		for i := upTo(t, 2, "nsec"); i > 0; i-- {
			k, v := genSection(t)
			m[k] = json.RawMessage(v)
		}
		b, _ := json.Marshal(m)
		cli.Sections = strings.Trim(string(b), "{}")
		if len(m) > 0 {
			cli.Sections = string(b[1 : len(b)-1])
		}
		c.CLI = cli
		return c
	}
	for i := 1 + upTo(t, 7, "nops"); i > 0; i-- {
		var op confOp
		switch upTo(t, 9, "op") {
		case 0, 1, 2:
			op.Kind = "set"
			k, v := genSection(t)
			op.Key, op.Value = k, json.RawMessage(v)
		case 3, 4, 5:
			op.Kind = "global"
			op.Key, op.Str = sampled(confGlobals).Draw(t, "option"), genGlobalValue(t)
		case 6, 7:
			op.Kind = sampled([]string{"trip", "into", "twice"}).Draw(t, "trip")
		default:
			op.Kind = "read"
			m := map[string]any{}
			for i := upTo(t, 3, "nsec"); i > 0; i-- {
				k, v := genSection(t)
				m[k] = json.RawMessage(v)
			}
			switch upTo(t, 4, "glob") {
			case 0:
				m["global"] = map[string]any{}
			case 1:
				m["global"] = nil
			case 2, 3:
				g := map[string]any{}
				for i := upTo(t, 3, "nglob"); i > 0; i-- {
					g[sampled(confGlobals).Draw(t, "option")] = sampled([]any{true, false, nil, "true", "enabled", 1, "#alt", "G302"}).Draw(t, "gv")
				}
				m["global"] = g
			}
			b, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			op.Doc = string(b)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type confModel struct {
	sec  map[string]any
	glob map[string]string
}

func (m *confModel) config() gosec.Config {
	c := gosec.NewConfig()
	for k, v := range m.sec {
		c.Set(k, v)
	}
	for k, v := range m.glob {
		c.SetGlobal(gosec.GlobalOption(k), v)
	}
	return c
}

// modeNumbers: the library takes modes as numbers too.
func confValue(key string, raw json.RawMessage) any {
	var v any
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(err)
	}
	if f, ok := v.(float64); ok && f == float64(int64(f)) && strings.HasPrefix(key, "G30") {
		return int64(f)
	}
	return v
}

func sameValue(a, b any) bool {
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	if err1 != nil || err2 != nil {
		return false
	}
	var u, v any
	if json.Unmarshal(x, &u) != nil || json.Unmarshal(y, &v) != nil {
		return false
	}
	return reflect.DeepEqual(u, v)
}

func (m *confModel) check(c gosec.Config, when string) error {
	for k, v := range m.sec {
		got, err := c.Get(k)
		if err != nil || !sameValue(v, got) {
			return violf("%s: section %q is %v (%v) instead of %v", when, k, got, err, v)
		}
	}
	for k := range c {
		if _, ok := m.sec[k]; !ok && k != gosec.Globals {
			return violf("%s: section %q was never set", when, k)
		}
	}
	for _, k := range confGlobals {
		got, err := c.GetGlobal(gosec.GlobalOption(k))
		want, ok := m.glob[k]
		if ok != (err == nil) || got != want {
			return violf("%s: global option %q is %q (%v) instead of %q (set: %v)", when, k, got, err, want, ok)
		}
		on, err := c.IsGlobalEnabled(gosec.GlobalOption(k))
		if ok != (err == nil) || on != (ok && (want == "true" || want == "enabled")) {
			return violf("%s: global option %q = %q is taken for enabled: %v (%v)", when, k, want, on, err)
		}
	}
	return nil
}

func runConf(c confCase, s *Stats) error {
	if c.CLI != nil {
		return runConfCLI(c.CLI, s)
	}
	conf := gosec.NewConfig()
	m := &confModel{map[string]any{}, map[string]string{}}
	trips := 0
	for i, op := range c.Ops {
		when := fmt.Sprintf("after operation %d of %v", i, c.Ops[:i+1])
		switch op.Kind {
		case "set":
			v := confValue(op.Key, op.Value)
			conf.Set(op.Key, v)
			m.sec[op.Key] = v
		case "global":
			conf.SetGlobal(gosec.GlobalOption(op.Key), op.Str)
			m.glob[op.Key] = op.Str
		case "trip", "into", "twice":
			var b bytes.Buffer
			n, err := conf.WriteTo(&b)
			if err != nil || n != int64(b.Len()) {
				return violf("%s: writing ends with %v after %d of %d bytes", when, err, n, b.Len())
			}
			text := b.String()
			next := gosec.NewConfig()
			if op.Kind == "into" { // reading one's own settings again
				next = conf
			}
			if _, err := next.ReadFrom(strings.NewReader(text)); err != nil {
				return violf("%s: reading %s back: %v", when, text, err)
			}
			if op.Kind == "twice" {
				var b2 bytes.Buffer
				if _, err := next.WriteTo(&b2); err != nil || b2.String() != text {
					return violf("%s: written again %s becomes %s (%v)", when, text, b2.String(), err)
				}
			}
			conf = next
			trips++
		case "read":
			if n, err := conf.ReadFrom(strings.NewReader(op.Doc)); err != nil || n != int64(len(op.Doc)) {
				return violf("%s: reading ends with %v after %d bytes", when, err, n)
			}
			var doc map[string]any
			if err := json.Unmarshal([]byte(op.Doc), &doc); err != nil {
				return harnessf("%v", err)
			}
			for k, v := range doc {
				if k != gosec.Globals {
					m.sec[k] = v
					continue
				}
				m.glob = map[string]string{}
				if g, ok := v.(map[string]any); ok {
					for o, gv := range g {
						if gv != nil {
							m.glob[o] = fmt.Sprint(gv)
						}
					}
				}
			}
		}
		if err := m.check(conf, when); err != nil {
			return err
		}
	}
	if t := m.glob["#nosec"]; strings.TrimPrefix(t, "#") == "" {
		delete(m.glob, "#nosec")
		if _, err := conf.GetGlobal("#nosec"); err == nil {
			return nil // an empty tag
		}
	}
	files := []File{{"p.go", confProgram}}
	dir := caseDir()
	if err := writeFiles(dir, files); err != nil {
		return err
	}
	var runs [2][]string
	for i, cf := range []gosec.Config{m.config(), conf} {
		r, err := scanDir(dir, files, ScanOpts{Conf: cf, NoAnalyze: true})
		if err != nil {
			return err
		}
		if len(r.TypeErr) > 0 {
			return harnessf("%v", r.TypeErr)
		}
		runs[i] = append(issueMultiset(r.Issues, cliKeyOf(dir)), fmt.Sprint(*r.Metrics))
	}
	if d := diffMultiset(runs[0], runs[1]); d != "" {
		return violf("the findings under the settings given directly (first) and after %v (second) differ: %s", c.Ops, d)
	}
	if trips > 0 && len(m.sec)+len(m.glob) > 0 {
		s.NonTrivial()
	}
	s.Label("findings compared: " + fmt.Sprint(len(runs[0])/10*10) + "-")
	return nil
}

func runConfCLI(c *confCLI, s *Stats) error {
	dir, err := writeModule([]File{{"p.go", confProgram}})
	if err != nil {
		return err
	}
	fileValue := func(v string) any {
		switch v {
		case "bool":
			return true
		case "boolfalse":
			return false
		}
		return v
	}
	isBool := func(o string) bool { return o == "nosec" || o == "show-ignored" || o == "audit" }
	flagOf := func(o, v string) string {
		if isBool(o) {
			if o == "audit" {
				return "-enable-audit"
			}
			return "-" + o
		}
		if o == "#nosec" {
			return "-nosec-tag=" + v
		}
		return "-" + o + "=" + v
	}
	run := func(mode string) ([]string, []string, error) {
		glob := map[string]any{}
		var args []string
		for _, o := range sortedKeys(c.Opts) {
			v := c.Opts[o]
			eff := v.Flag
			if eff == "" {
				eff = v.File
			}
			switch mode {
			case "mixed":
				if v.File != "" {
					glob[o] = fileValue(v.File)
				}
				if v.Flag != "" {
					args = append(args, flagOf(o, v.Flag))
				}
			case "flags":
				if isBool(o) && (eff == "" || eff == "false" || eff == "disabled" || eff == "boolfalse") || eff == "" {
					continue
				}
				args = append(args, flagOf(o, eff))
			case "file":
				if eff != "" {
					glob[o] = fileValue(eff)
				}
			}
		}
		parts := []string{}
		if c.Sections != "" {
			parts = append(parts, c.Sections)
		}
		if len(glob) > 0 || mode == "mixed" {
			b, err := json.Marshal(glob)
			if err != nil {
				return nil, nil, harnessf("%v", err)
			}
			parts = append(parts, `"global": `+string(b))
		}
		if err := writeFiles(dir, []File{{"conf.json", "{" + strings.Join(parts, ", ") + "}"}}); err != nil {
			return nil, nil, err
		}
		all := append([]string{"-fmt=json", "-conf=conf.json"}, append(args, ".")...)
		r, err := runCLI(dir, nil, all...)
		if err != nil {
			return nil, nil, err
		}
		if r.Rep == nil && strings.Contains(r.Stderr, "No rules/analyzers are configured") {
			return []string{fmt.Sprintf("nothing to do, exit %d", r.Exit)}, all, nil
		}
		rep, err := r.mustReport(all)
		if err != nil {
			return nil, nil, err
		}
		out := cliMultiset(rep.Issues, func(i *cliIssue) string { return i.full(dir) })
		out = append(out, fmt.Sprintf("exit %d, %+v", r.Exit, rep.Stats))
		sort.Strings(out)
		return out, append(all, "{"+strings.Join(parts, ", ")+"}"), nil
	}
	first, how, err := run("mixed")
	if err != nil {
		return err
	}
	for _, mode := range []string{"flags", "file"} {
		out, how2, err := run(mode)
		if err != nil {
			return err
		}
		if d := diffMultiset(first, out); d != "" {
			return violf("the same settings give different results with %v (first) and with %v (second): %s", how, how2, d)
		}
	}
	s.Label("command line")
	s.NonTrivial()
	return nil
}

func init() {
	register("C14", "distinct histories with a round trip and at least one setting; distinct sets of flags and file settings", 4000, 100000, genConf, runConf, needCLI, shrinkSeconds(40))
}
