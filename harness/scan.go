package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	gosec "github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// importable lists the packages that generated programs may import on the in-process path.
var importable = []string{
	"archive/tar", "archive/zip", "bufio", "bytes", "compress/bzip2", "compress/flate", "compress/gzip", "compress/lzw", "compress/zlib",
	"context", "crypto", "crypto/aes", "crypto/cipher", "crypto/des", "crypto/ecdsa", "crypto/ed25519", "crypto/elliptic", "crypto/hmac", "crypto/md5", "crypto/rand",
	"crypto/rc4", "crypto/rsa", "crypto/sha1", "crypto/sha256", "crypto/sha512", "crypto/subtle", "crypto/tls", "crypto/x509",
	"database/sql", "database/sql/driver", "embed", "encoding/base64", "encoding/binary", "encoding/hex", "encoding/json", "encoding/xml",
	"errors", "flag", "fmt", "go/ast", "hash", "hash/crc32", "hash/fnv", "html", "html/template", "io", "io/fs", "io/ioutil", "log", "maps", "math", "math/big",
	"math/bits", "math/cmplx", "math/rand", "math/rand/v2", "mime", "net", "net/http", "net/http/cgi", "net/http/httptest", "net/http/pprof", "net/mail", "net/smtp", "net/url",
	"os", "os/exec", "os/signal", "os/user", "path", "path/filepath", "reflect", "regexp", "runtime", "runtime/debug", "runtime/pprof", "slices", "sort", "strconv", "strings",
	"sync", "sync/atomic", "syscall", "testing", "text/template", "time", "unicode", "unicode/utf8", "unsafe",
	"golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160", "golang.org/x/crypto/ssh", "golang.org/x/crypto/chacha20poly1305", "golang.org/x/crypto/bcrypt", "golang.org/x/crypto/sha3",
}

var (
	exportMap    map[string]string
	exportOnce   sync.Once
	sharedImp    types.Importer
	sharedImpMu  sync.Mutex
	exportsFile  string
	scratchDir   string // of this worker
	gosecBin     string
	gosecRace    string
	utilBin      string
	tlsconfigBin string
)

type lockedImporter struct{ imp types.Importer }

func (l lockedImporter) Import(path string) (*types.Package, error) {
	sharedImpMu.Lock()
	defer sharedImpMu.Unlock()
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if src, ok := fakePkgs[path]; ok {
		if p := fakeCache[path]; p != nil {
			return p, nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "fake.go", src, 0)
		if err != nil {
			return nil, err
		}
		p, err := (&types.Config{Importer: l.imp}).Check(path, fs, []*ast.File{f}, nil)
		if err != nil {
			return nil, err
		}
		fakeCache[path] = p
		return p, nil
	}
	return l.imp.Import(path)
}

func loadExports() {
	exportOnce.Do(func() {
		exportMap = map[string]string{}
		f, err := os.Open(exportsFile)
		if err != nil {
			panic(fmt.Sprintf("cannot open export table: %v", err))
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			if i := strings.IndexByte(sc.Text(), '='); i > 0 {
				exportMap[sc.Text()[:i]] = sc.Text()[i+1:]
			}
		}
		sharedImp = lockedImporter{importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			p, ok := exportMap[path]
			if !ok || p == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(p)
		})}
	})
}

// File is one source file of a case.
type File struct {
	Name string // relative to the case directory
	Src  string
}

// ScanOpts selects how a scan runs.
type ScanOpts struct {
	NoSec     bool                         `json:",omitempty"` // ignore #nosec comments
	Globals   map[string]string            `json:",omitempty"`
	Config    map[string]any               `json:",omitempty"`
	ExclGen   bool                         `json:",omitempty"`
	Track     bool                         `json:",omitempty"`
	Include   []string                     `json:",omitempty"`
	Exclude   []string                     `json:",omitempty"`
	NoAnalyze bool                         `json:",omitempty"` // skip the SSA analyzers
	Conf      gosec.Config                 `json:"-"`          // in place of the options above
	Builders  map[string]gosec.RuleBuilder `json:"-"`          // in place of the rules of gosec
}

// Result of a scan.
type Result struct {
	Issues  []*issue.Issue
	Metrics *gosec.Metrics
	Errors  map[string][]gosec.Error
	TypeErr []string // errors of the type checker (in-process path)
}

var discardLog = log.New(io.Discard, "", 0)

func buildConfig(o ScanOpts) gosec.Config {
	c := gosec.NewConfig()
	for _, k := range sortedKeys(o.Config) {
		c.Set(k, o.Config[k])
	}
	if o.NoSec {
		c.SetGlobal(gosec.Nosec, "true")
	}
	for k, v := range o.Globals {
		c.SetGlobal(gosec.GlobalOption(k), v)
	}
	return c
}

// newAnalyzer is the configuration the command line tool would build.
func newAnalyzer(o ScanOpts, tests bool, conc int) *gosec.Analyzer {
	conf := o.Conf
	if conf == nil {
		conf = buildConfig(o)
	}
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(o.Include) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, o.Include...))
		af = append(af, analyzers.NewAnalyzerFilter(false, o.Include...))
	}
	if len(o.Exclude) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, o.Exclude...))
		af = append(af, analyzers.NewAnalyzerFilter(true, o.Exclude...))
	}
	a := gosec.NewAnalyzer(conf, tests, o.ExclGen, o.Track, conc, discardLog)
	loadInto(a, o, rf, af)
	return a
}

func loadInto(a *gosec.Analyzer, o ScanOpts, rf []rules.RuleFilter, af []analyzers.AnalyzerFilter) {
	if o.Builders != nil {
		a.LoadRules(o.Builders, map[string]bool{})
		return
	}
	a.LoadRules(rules.Generate(o.Track, rf...).RulesInfo())
	if !o.NoAnalyze {
		a.LoadAnalyzers(analyzers.Generate(o.Track, af...).AnalyzersInfo())
	}
}

func panicError(r any) error {
	st := string(debug.Stack())
	// keep the frames of the code under test
	var keep []string
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.Contains(l, "securego/gosec") && i+1 < len(lines) {
			keep = append(keep, strings.TrimSpace(l)+" @ "+strings.TrimSpace(lines[i+1]))
		}
		if len(keep) >= 6 {
			break
		}
	}
	if len(keep) == 0 {
		return harnessf("panic outside gosec: %v\n%s", r, st)
	}
	return violf("panic: %v\n  %s", r, strings.Join(keep, "\n  "))
}

// fakePkgs are look-alike packages that programs of the in-process path may import.
var fakePkgs = map[string]string{
	"example.com/crypto/md5":     "package md5\nfunc New() int { return 0 }\nfunc Sum(b []byte) [16]byte { return [16]byte{} }\n",
	"example.com/crypto/sha1":    "package sha1\nfunc New() int { return 0 }\nfunc Sum(b []byte) [20]byte { return [20]byte{} }\n",
	"example.com/crypto/des":     "package des\nfunc NewCipher(k []byte) (int, error) { return 0, nil }\nfunc NewTripleDESCipher(k []byte) (int, error) { return 0, nil }\n",
	"example.com/crypto/rc4":     "package rc4\nfunc NewCipher(k []byte) (int, error) { return 0, nil }\n",
	"github.com/lib/pq":          "package pq\nfunc QuoteIdentifier(s string) string { return s }\nfunc QuoteLiteral(s string) string { return s }\n",
	"crypto/md5/v2":              "package md5\nfunc New() int { return 0 }\nfunc Sum(b []byte) [16]byte { return [16]byte{} }\n",
	"crypto/md55":                "package md55\nfunc New() int { return 0 }\n",
	"example.com/net/http/pprof": "package pprof\nfunc Index() {}\nfunc NewX() int { return 0 }\n",
	"example.com/net/http/cgi":   "package cgi\nfunc Serve() error { return nil }\n",
	"example.com/math/rand":      "package rand\nfunc Int() int { return 0 }\nfunc Intn(n int) int { return 0 }\nfunc Read(b []byte) (int, error) { return 0, nil }\nfunc New(s any) int { return 0 }\nfunc Float64() float64 { return 0 }\n",
	"example.com/unsafe":         "package unsafe\nfunc String(p *byte, n int) string { return \"\" }\nfunc Slice(p *byte, n int) []byte { return nil }\n",
	"example.com/x/ssh":          "package ssh\nfunc InsecureIgnoreHostKey() int { return 0 }\n",
	"example.com/net/http":       "package http\nfunc ListenAndServe(a string, h any) error { return nil }\nfunc Serve(l any, h any) error { return nil }\nfunc Get(u string) (int, error) { return 0, nil }\n",
	"example.com/crypto/rsa":     "package rsa\nfunc GenerateKey(r any, bits int) (int, error) { return 0, nil }\n",
	"example.com/os":             "package os\nfunc Create(p string) (int, error) { return 0, nil }\nfunc WriteFile(p string, b []byte, m int) error { return nil }\nfunc Mkdir(p string, m int) error { return nil }\nfunc Open(p string) (int, error) { return 0, nil }\nfunc Chmod(p string, m int) error { return nil }\n",
	"example.com/net":            "package net\nfunc Listen(a, b string) (int, error) { return 0, nil }\n",
	"example.com/exec":           "package exec\nfunc Command(a string, b ...string) int { return 0 }\n",
	"example.com/template":       "package template\nfunc HTML(s string) string { return s }\nfunc JS(s string) string { return s }\n",
}

var fakeCache = map[string]*types.Package{}

var caseSeq int

// caseDir returns a fresh, empty directory for the current case.
func caseDir() string {
	caseSeq++
	d := filepath.Join(scratchDir, "c")
	if !strings.HasPrefix(d, "/dev/shm/verif-") && !strings.HasPrefix(d, "/tmp/verif-") {
		panic("scratch directory " + d)
	}
	_ = os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func writeFiles(dir string, files []File) error {
	for _, f := range files {
		p := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return harnessf("%v", err)
		}
		if err := os.WriteFile(p, []byte(f.Src), 0o644); err != nil {
			return harnessf("%v", err)
		}
	}
	return nil
}

// makePackage parses and type-checks files already written below dir, like go/packages would.
func makePackage(dir string, files []File) (*packages.Package, []string, error) {
	loadExports()
	fset := token.NewFileSet()
	var syn []*ast.File
	var terr []string
	pkg := &packages.Package{Fset: fset, PkgPath: "command-line-arguments", ID: "command-line-arguments"}
	for _, f := range files {
		p := filepath.Join(dir, f.Name)
		af, err := parser.ParseFile(fset, p, []byte(f.Src), parser.AllErrors|parser.ParseComments)
		if err != nil {
			terr = append(terr, err.Error())
			pkg.Errors = append(pkg.Errors, packages.Error{Pos: p + ":1:1", Msg: err.Error(), Kind: packages.ParseError})
		}
		if af != nil {
			syn = append(syn, af)
			pkg.GoFiles = append(pkg.GoFiles, p)
			if pkg.Name == "" && af.Name != nil {
				pkg.Name = af.Name.Name
			}
		}
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	conf := &types.Config{Importer: sharedImp, Sizes: types.SizesFor("gc", runtime.GOARCH), Error: func(err error) {
		terr = append(terr, err.Error())
		if te, ok := err.(types.Error); ok {
			pkg.TypeErrors = append(pkg.TypeErrors, te)
		}
	}}
	tp, _ := conf.Check("command-line-arguments", fset, syn, info)
	pkg.Syntax, pkg.Types, pkg.TypesInfo, pkg.TypesSizes = syn, tp, info, conf.Sizes
	pkg.IllTyped = len(terr) > 0
	return pkg, terr, nil
}

// goVersion makes a program count as one of a Go version with loop variables per loop until the result is called.
func goVersion(old bool) func() {
	if !old {
		return func() {}
	}
	before := os.Getenv("GOSECGOVERSION")
	os.Setenv("GOSECGOVERSION", "go1.21.0")
	return func() { os.Setenv("GOSECGOVERSION", before) }
}

// FastScan scans one package given as files, in process, without the go command.
func FastScan(files []File, o ScanOpts) (*Result, error) {
	dir := caseDir()
	if err := writeFiles(dir, files); err != nil {
		return nil, err
	}
	return scanDir(dir, files, o)
}

func scanDir(dir string, files []File, o ScanOpts) (*Result, error) {
	pkg, terr, err := makePackage(dir, files)
	if err != nil {
		return nil, err
	}
	a := newAnalyzer(o, true, 1)
	a.CheckRules(pkg)
	if !o.NoAnalyze {
		a.CheckAnalyzers(pkg)
	}
	is, m, e := a.Report()
	return &Result{Issues: is, Metrics: m, Errors: e, TypeErr: terr}, nil
}

// MustCompile scans and insists that the program was well typed (otherwise the generator is at fault).
func MustScan(files []File, o ScanOpts) (*Result, error) {
	r, err := FastScan(files, o)
	if err != nil {
		return nil, err
	}
	if len(r.TypeErr) > 0 {
		var b bytes.Buffer
		for _, f := range files {
			fmt.Fprintf(&b, "--- %s\n%s\n", f.Name, f.Src)
		}
		return nil, harnessf("generated program does not type-check: %s\n%s", strings.Join(r.TypeErr, "; "), b.String())
	}
	return r, nil
}

// issueKey identifies an issue without its absolute directory.
func issueKey(i *issue.Issue, dir string) string {
	return fmt.Sprintf("%s|%s|%s|%s|%v|%v|%s", i.RuleID, strings.TrimPrefix(i.File, dir), i.Line, i.Col, i.Severity, i.Confidence, i.What)
}

func issueFull(i *issue.Issue, dir string) string {
	cw := "-"
	if i.Cwe != nil {
		cw = i.Cwe.ID
	}
	var sup []string
	for _, s := range i.Suppressions {
		sup = append(sup, s.Kind+":"+s.Justification)
	}
	return fmt.Sprintf("%s|%s|%v|%q|%s|%q", issueKey(i, dir), cw, i.NoSec, i.Code, strings.Join(sup, ";"), i.Autofix)
}

func issueMultiset(is []*issue.Issue, key func(*issue.Issue) string) []string {
	out := make([]string, 0, len(is))
	for _, i := range is {
		out = append(out, key(i))
	}
	sort.Strings(out)
	return out
}

// diffMultiset describes the difference of two sorted multisets ("" when equal).
func diffMultiset(a, b []string) string {
	var onlyA, onlyB []string
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			onlyA = append(onlyA, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			onlyB = append(onlyB, b[j])
			j++
		default:
			i++
			j++
		}
	}
	if len(onlyA) == 0 && len(onlyB) == 0 {
		return ""
	}
	return fmt.Sprintf("only in first: %v; only in second: %v", onlyA, onlyB)
}

func lineOf(i *issue.Issue) (int, int) {
	var s, e int
	if n, _ := fmt.Sscanf(i.Line, "%d-%d", &s, &e); n == 1 {
		e = s
	}
	return s, e
}

func dumpFiles(files []File) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "--- %s\n%s\n", f.Name, f.Src)
	}
	return b.String()
}
