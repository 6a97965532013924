package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C35: one tree, scanned from several directories with the paths written in several ways.

type whereRun struct {
	Cwd   int // 0: module; 1: a package; 2: outside; 3: parent of the module
	Style int
}

type whereCase struct {
	Pkgs   [][]File // of the module
	Nested [][]File // of a module inside the module
	Broken bool
	Tests  bool
	Lib    int // what the packages import from the module
	Runs   []whereRun
}

func genWhere(t *rapid.T) whereCase {
	var c whereCase
	add := func(l *[][]File, dirs []string) {
		for _, d := range dirs {
			*l = append(*l, inDir(d, genProg(t, true)))
		}
	}
	add(&c.Pkgs, []string{"p0", "p1/sub"}[:1+upTo(t, 1, "pkgs")])
	if oneIn(t, 3, "nested") {
		add(&c.Nested, []string{"n0", "p0"}[:1+upTo(t, 1, "pkgs")])
	}
	c.Broken = oneIn(t, 4, "broken")
	c.Tests = oneIn(t, 3, "tests")
	c.Lib = upTo(t, 2, "lib")
	for i := 0; i < 3; i++ {
		c.Runs = append(c.Runs, whereRun{upTo(t, 3, "cwd"), upTo(t, 5, "style")})
	}
	return c
}

// files gives the files below the top directory, and the directories of the packages of both modules.
func (c whereCase) files() (fs []File, dirs, nested []string) {
	lib := "package lib\n\nimport \"strconv\"\n\nfunc Number(s string) (int64, error) { return strconv.ParseInt(s, 10, 64) }\n\ntype List []int\n\nfunc Key() []byte { return []byte(\"0123456789ab\") }\n"
	use := func(mod, pkg string, k int) string {
		return "package " + pkg + "\n\nimport viaLib \"" + mod + "/lib\"\n\n" + []string{
			"func viaLib0(s string) uint8 { n, _ := viaLib.Number(s); return uint8(n) }\n",
			"func viaLib0(s string) int { viaLib.Number(s); l := viaLib.List(make([]int, 3)); return l[4] }\n",
			"func viaLib0() { _, _ = viaLib.Number(\"x\"); viaLib.Number(\"y\") }\n",
		}[k]
	}
	put := func(top, mod string, pkgs [][]File, to *[]string) {
		if len(pkgs) == 0 {
			return
		}
		fs = append(fs, File{filepath.Join(top, "go.mod"), "module " + mod + "\n\ngo 1.24\n"}, File{filepath.Join(top, "lib/lib.go"), lib})
		*to = append(*to, filepath.Join(top, "lib"))
		for i, p := range pkgs {
			d := filepath.Dir(p[0].Name)
			*to = append(*to, filepath.Join(top, d))
			for _, f := range p {
				fs = append(fs, File{filepath.Join(top, f.Name), f.Src})
			}
			name := pkgNameOf(p[0].Src)
			fs = append(fs, File{filepath.Join(top, d, "zlib.go"), use(mod, name, c.Lib)},
				File{filepath.Join(top, d, "zlib_test.go"), fmt.Sprintf("package %s\n\nimport \"os\"\n\nfunc inTest%d() { os.Remove(\"x\") }\n", name, i)})
		}
	}
	put("m", "example.com/m", c.Pkgs, &dirs)
	if c.Broken {
		fs = append(fs, File{"m/bad/bad.go", "package bad\n\nimport \"example.com/m/lib\"\n\nvar X string = lib.Key()\n"})
		dirs = append(dirs, "m/bad")
	}
	put("m/p2/n", "example.com/n", c.Nested, &nested)
	return
}

type whereScan struct{ issues, errs, stats []string }

func runWhere(c whereCase, s *Stats) error {
	fs, dirs, nested := c.files()
	top := caseDir()
	if err := writeFiles(top, fs); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(top, "outside"), 0o755); err != nil {
		return harnessf("%v", err)
	}
	scan := func(cwd string, paths ...string) (*whereScan, string, error) {
		args := []string{"-fmt=json"}
		if c.Tests {
			args = append(args, "-tests")
		}
		args = append(args, paths...)
		where := fmt.Sprintf("gosec %q in %s", args, strings.TrimPrefix(cwd, top))
		r, err := runCLI(cwd, nil, args...)
		if err != nil {
			return nil, where, err
		}
		rep, err := r.mustReport(args)
		if err != nil {
			return nil, where, err
		}
		w := &whereScan{issues: cliMultiset(rep.Issues, func(i *cliIssue) string { return i.full(top) }), stats: []string{fmt.Sprintf("%+v exit %d", rep.Stats, r.Exit)}}
		for f, es := range rep.Errors {
			for _, e := range es {
				if f != "" { // messages of the go command
					w.errs = append(w.errs, fmt.Sprintf("%s:%d:%d %s", strings.TrimPrefix(f, top), e.Line, e.Column, e.Err))
				}
			}
		}
		sort.Strings(w.errs)
		return w, where, nil
	}
	// what the packages of each module amount to, scanned in the directory of that module
	mod := filepath.Join(top, "m")
	args := func(base string, dirs []string) (out []string) {
		for _, d := range dirs {
			rel, _ := filepath.Rel(base, d)
			out = append(out, "./"+rel)
		}
		return
	}
	want, name, err := scan(mod, args("m", dirs)...)
	if err != nil {
		return err
	}
	if len(nested) > 0 {
		x, _, err := scan(filepath.Join(mod, "p2/n"), args("m/p2/n", nested)...)
		if err != nil {
			return err
		}
		want.issues = append(want.issues, x.issues...)
		want.errs = append(want.errs, x.errs...)
		want.stats = nil
		sort.Strings(want.issues)
		sort.Strings(want.errs)
		s.Label("nested module")
	}
	nbad := 0
	for _, e := range want.errs {
		if !strings.HasPrefix(e, "/m/bad/") {
			return violf("%s: errors in packages that compile: %s\n%s", name, e, dumpFiles(fs))
		}
		nbad++
	}
	if (nbad > 0) != c.Broken {
		return violf("%s: no error for the package that does not compile\n%s", name, dumpFiles(fs))
	}
	for _, r := range c.Runs {
		cwd := []string{mod, filepath.Join(mod, "p0"), filepath.Join(top, "outside"), top}[r.Cwd]
		rel, err := filepath.Rel(cwd, mod)
		if err != nil {
			return harnessf("%v", err)
		}
		var paths []string
		switch r.Style {
		case 0:
			paths = []string{mod + "/..."}
		case 1:
			paths = []string{rel + "/..."}
			if r.Cwd == 0 {
				paths = []string{"-r"}
			}
		case 2: // one by one
			for _, d := range append(append([]string{}, dirs...), nested...) {
				p, _ := filepath.Rel(cwd, filepath.Join(top, d))
				paths = append(paths, p)
			}
		case 3: // one by one, absolute and untidy
			for i, d := range append(append([]string{}, dirs...), nested...) {
				paths = append(paths, top+[]string{"/", "//", "/./", "/outside/../"}[i%4]+d+[]string{"", "/"}[i%2])
			}
		case 4: // overlapping
			paths = []string{mod + "/...", "./" + rel + "/p0", rel + "/p0/..."}
		default:
			paths = []string{filepath.Join(rel, "p0") + "/../..."}
			if !strings.HasPrefix(paths[0], ".") {
				paths[0] = "./" + paths[0]
			}
		}
		got, where, err := scan(cwd, paths...)
		if err != nil {
			return err
		}
		if d := diffMultiset(want.issues, got.issues); d != "" {
			return violf("findings of %s (first) and %s (second) differ: %s\n%s", name, where, d, dumpFiles(fs))
		}
		if d := diffMultiset(want.errs, got.errs); d != "" {
			return violf("errors of %s (first) and %s (second) differ: %s\n%s", name, where, d, dumpFiles(fs))
		}
		if want.stats != nil && want.stats[0] != got.stats[0] {
			return violf("metrics and exit status of %s and %s differ: %s versus %s\n%s", name, where, want.stats[0], got.stats[0], dumpFiles(fs))
		}
		if len(got.issues) > 0 && (r.Cwd > 0 || len(nested) > 0) {
			s.NonTrivialKey(fmt.Sprint(string(s.curKey), r))
		}
		s.Label([]string{"in the module", "in a package", "outside", "above the module"}[r.Cwd])
	}
	return nil
}

func init() {
	register("C35", "distinct scans started elsewhere than in the only module, with findings", 70, 2500, genWhere, runWhere, needCLI, shrinkSeconds(60))
}
