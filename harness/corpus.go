package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"strings"
)

//go:embed corpus.json
var corpusJSON []byte

// corpusProg is one of gosec's own sample programs (copied once), used as raw material.
type corpusProg struct {
	Rule   string
	Files  []string
	Errors int
	Config map[string]any
}

var corpus = func() []corpusProg {
	var c []corpusProg
	if err := json.Unmarshal(corpusJSON, &c); err != nil {
		panic(err)
	}
	var out []corpusProg
	for _, p := range c {
		ok := true
		for _, f := range p.Files {
			if strings.Contains(f, "import \"C\"") {
				ok = false
			}
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", f, 0); err != nil {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}()

func (p corpusProg) files() []File {
	var out []File
	for i, f := range p.Files {
		out = append(out, File{fmt.Sprintf("s%d.go", i), f})
	}
	return out
}
