package main

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"math/bits"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// General purpose well-typed packages with many different findings.

var (
	goodOnce   sync.Once
	goodCorpus []int          // well-typed sample programs
	stdCorpus  []int          // those which import nothing but the standard library
	corpusBy   map[string]int // number of programs per rule
)

func loadGoodCorpus() {
	goodOnce.Do(func() {
		corpusBy = map[string]int{}
		for i, p := range corpus {
			dir := caseDir()
			fs := p.files()
			if writeFiles(dir, fs) != nil {
				continue
			}
			_, terr, err := makePackage(dir, fs)
			if err != nil || len(terr) > 0 {
				continue
			}
			goodCorpus = append(goodCorpus, i)
			corpusBy[p.Rule]++
			if stdOnly(fs) {
				stdCorpus = append(stdCorpus, i)
			}
		}
		if len(goodCorpus) < 100 {
			panic(fmt.Sprintf("only %d well-typed sample programs", len(goodCorpus)))
		}
	})
}

func stdOnly(fs []File) bool {
	for _, f := range fs {
		af, err := parser.ParseFile(token.NewFileSet(), "x.go", f.Src, parser.ImportsOnly)
		if err != nil {
			return false
		}
		for _, s := range af.Imports {
			p := strings.Trim(s.Path.Value, "\"`")
			if strings.Contains(p, ".") || fakePkgs[p] != "" || p == "C" || p == "embed" {
				return false
			}
		}
	}
	return true
}

// genProg generates one well-typed package; with std it only imports the standard library.
func genProg(t *rapid.T, std bool) []File {
	loadGoodCorpus()
	for {
		var fs []File
		switch upTo(t, 11, "prog") {
		case 0, 1, 2, 3, 4:
			idx := goodCorpus
			if std {
				idx = stdCorpus
			}
			fs = corpus[sampled(idx).Draw(t, "corpus")].files()
		case 5, 6, 7:
			fs, _ = genCallCase(t).build()
		case 8:
			fs = rarePool[upTo(t, len(rarePool)-1, "rare")].files()
		case 9, 10:
			// the transformations of some properties count tokens, of which gofmt removes some
			fs = formatted(judgedProg(t))
		default:
			fs = typedFiles(t)
			if !wellTyped(fs) {
				continue
			}
		}
		if std && !stdOnly(fs) {
			continue
		}
		return fs
	}
}

func formatted(fs []File) []File {
	for i, f := range fs {
		if src, err := format.Source([]byte(f.Src)); err == nil {
			fs[i].Src = string(src)
		}
	}
	return fs
}

// judgedProg returns a program made for one of the properties about rules.
func judgedProg(t *rapid.T) []File {
	switch upTo(t, 9, "judged") {
	case 0, 1:
		return genInj(t).build("G304").files
	case 2, 3:
		return genFlow(t).build("G109").files
	case 4:
		fs, _, _ := genTLS(t).build()
		return fs
	case 5:
		return genErrCase(t).build().files
	case 6:
		return genNonce(t).build().files
	case 7:
		return genConstArgs(t).build("G303").files
	case 8:
		return genLoops(t).build().files
	default:
		src, _ := genSl(t).build()
		return []File{{"a.go", src}}
	}
}

func wellTyped(fs []File) bool {
	dir := caseDir()
	if writeFiles(dir, fs) != nil {
		return false
	}
	_, terr, err := makePackage(dir, fs)
	return err == nil && len(terr) == 0
}

// rarePool holds programs with several findings of several rules close to one another.
type rareProg []string

func (r rareProg) files() []File {
	var out []File
	for i, s := range r {
		out = append(out, File{fmt.Sprintf("r%d.go", i), s})
	}
	return out
}

var rarePool = []rareProg{
	{`package p

import (
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
)

func F(a string) { fmt.Println(md5.New(), sha1.New(), rand.Int()); os.Remove(a); os.Open(a); exec.Command(a).Run() }

func G(a string, n int) {
	os.WriteFile("/tmp/x"+a, []byte(a), 0o777)
	_ = uint8(n)
	x := []int{1, 2}
	fmt.Println(x[3:], int32(n),
		md5.Sum(nil), sha1.Sum([]byte(
			fmt.Sprint(rand.Int()))))
}
`},
	{`package p

import (
	"crypto/tls"
	"database/sql"
	"net/http"
)

var password = "d2h5IGFyZSB5b3UgcmVhZGluZw"

func F(db *sql.DB, u string) (*tls.Config, error) {
	_, err := db.Query("SELECT * FROM t WHERE a = '" + u + "'")
	http.Get(u)
	go http.ListenAndServe(":8080", http.FileServer(http.Dir("/")))
	return &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10}, err
}
`, `package p

import "fmt"

func Loop() {
	var ps []*int
	for i := 0; i < 3; i++ {
		ps = append(ps, &i)
	}
	for _, v := range ps {
		fmt.Println(&v, uint16(*v))
	}
}
`},
}

// inDir moves the files of a package into a directory.
func inDir(dir string, fs []File) []File {
	var out []File
	for _, f := range fs {
		out = append(out, File{filepath.Join(dir, f.Name), f.Src})
	}
	return out
}

// ruleIDs are the documented rules and analyzers.
var ruleIDs = []string{"G101", "G102", "G103", "G104", "G106", "G107", "G108", "G109", "G110", "G111", "G112", "G114", "G115", "G201", "G202", "G203", "G204",
	"G301", "G302", "G303", "G304", "G305", "G306", "G307", "G401", "G402", "G403", "G404", "G405", "G406", "G407", "G501", "G502", "G503", "G504", "G505", "G506", "G507", "G601", "G602"}

// oneIn is true once in n draws and shrinks to false. (rapid's integer ranges and SampledFrom prefer small numbers.)
func oneIn(t *rapid.T, n int, label string) bool { return upTo(t, n-1, label) == n-1 }

// upTo is an evenly distributed number in [0, n].
func upTo(t *rapid.T, n int, label string) int {
	if n <= 0 {
		return 0
	}
	u := 0
	for k := bits.Len(uint(n)) + 4; k > 0; k-- {
		u <<= 1
		if boolGen.Draw(t, label) {
			u |= 1
		}
	}
	return u % (n + 1)
}

var boolGen = rapid.Bool()

// sampled draws evenly from a list.
type sampler[T any] []T

func sampled[T any](xs []T) sampler[T] { return xs }

func (s sampler[T]) Draw(t *rapid.T, label string) T { return s[upTo(t, len(s)-1, label)] }
