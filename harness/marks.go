package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/issue"
)

// Programs with marks. markBad stands in front of the first token of something to be reported, markAny in front of something
// about which nothing is required; both are removed from the text.

const (
	markBad = "\x01"
	markAny = "\x02"
)

type marked struct {
	files []File
	want  map[string]int  // "file:line" -> number of issues
	any   map[string]bool // "file:line" about which nothing is required
}

func unmark(files []File) marked {
	m := marked{want: map[string]int{}, any: map[string]bool{}}
	for _, f := range files {
		var b strings.Builder
		l := 1
		for i := 0; i < len(f.Src); i++ {
			switch ch := f.Src[i]; ch {
			case markBad[0]:
				m.want[fmt.Sprintf("%s:%d", f.Name, l)]++
			case markAny[0]:
				m.any[fmt.Sprintf("%s:%d", f.Name, l)] = true
			default:
				if ch == '\n' {
					l++
				}
				b.WriteByte(ch)
			}
		}
		m.files = append(m.files, File{f.Name, b.String()})
	}
	return m
}

func sourceLine(files []File, at string) string {
	for _, f := range files {
		for n, l := range strings.Split(f.Src, "\n") {
			if fmt.Sprintf("%s:%d", f.Name, n+1) == at {
				return strings.TrimSpace(l)
			}
		}
	}
	return ""
}

// compare holds the issues of one rule against the marks.
func (m marked) compare(rule string, is []*issue.Issue) error {
	got := map[string]int{}
	for _, i := range is {
		if i.RuleID == rule {
			a, _ := lineOf(i)
			got[fmt.Sprintf("%s:%d", filepath.Base(i.File), a)]++
		}
	}
	all := map[string]bool{}
	for k := range got {
		all[k] = true
	}
	for k := range m.want {
		all[k] = true
	}
	ks := sortedKeys(all)
	sort.Strings(ks)
	var miss, extra []string
	for _, k := range ks {
		if m.any[k] || m.want[k] == got[k] {
			continue
		}
		t := fmt.Sprintf("%s (%d of %d): %s", k, got[k], m.want[k], sourceLine(m.files, k))
		if got[k] < m.want[k] {
			miss = append(miss, t)
		} else {
			extra = append(extra, t)
		}
	}
	if len(miss)+len(extra) == 0 {
		return nil
	}
	what := ""
	if len(miss) > 0 {
		what += rule + " does not report\n" + strings.Join(miss, "\n") + "\n"
	}
	if len(extra) > 0 {
		what += rule + " reports without reason\n" + strings.Join(extra, "\n") + "\n"
	}
	return violf("%s\n%s", what, dumpFiles(m.files))
}

// replaceQualifier renames the package name used in qualified identifiers.
func replaceQualifier(src, from, to string) string {
	re := regexp.MustCompile(`(^|[^\w."])` + from + `\.`)
	return re.ReplaceAllString(src, "${1}"+to+".")
}
