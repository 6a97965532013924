package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The command line tool, run in a scratch directory.

type cliIssue struct {
	Severity     string            `json:"severity"`
	Confidence   string            `json:"confidence"`
	Cwe          map[string]string `json:"cwe"`
	RuleID       string            `json:"rule_id"`
	Details      string            `json:"details"`
	File         string            `json:"file"`
	Code         string            `json:"code"`
	Line         string            `json:"line"`
	Column       string            `json:"column"`
	NoSec        bool              `json:"nosec"`
	Suppressions []struct {
		Kind          string `json:"kind"`
		Justification string `json:"justification"`
	} `json:"suppressions"`
	Autofix string `json:"autofix"`
}

type cliError struct {
	Line   int    `json:"line"`
	Column int    `json:"column"`
	Err    string `json:"error"`
}

type cliReport struct {
	Errors map[string][]cliError `json:"Golang errors"`
	Issues []cliIssue
	Stats  struct {
		Files int `json:"files"`
		Lines int `json:"lines"`
		Nosec int `json:"nosec"`
		Found int `json:"found"`
	}
}

type cliResult struct {
	Exit           int
	Stdout, Stderr string
	Rep            *cliReport // nil when the output is no JSON report
}

// runCLI runs gosec in dir, with additional variables in the environment ("unset:NAME" removes one).
func runCLI(dir string, env []string, args ...string) (*cliResult, error) {
	return runBin(gosecBin, dir, env, args...)
}

func runBin(bin, dir string, env []string, args ...string) (*cliResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(append([]string{}, os.Environ()...), "PWD="+dir)
	for _, e := range env {
		if name, ok := strings.CutPrefix(e, "unset:"); ok {
			cmd.Env = slices.DeleteFunc(cmd.Env, func(v string) bool { return strings.HasPrefix(v, name+"=") })
		} else {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, harnessf("gosec %v did not end within 300 s", args)
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return nil, harnessf("running gosec: %v", err)
	}
	r := &cliResult{Exit: cmd.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String()}
	if strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: ")) {
		return nil, violf("gosec %v crashed: %s", args, tail(r.Stderr, 3000))
	}
	r.Rep, _ = parseReport(so.Bytes())
	return r, nil
}

func parseReport(b []byte) (*cliReport, error) {
	var rep cliReport
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&rep); err != nil {
		return nil, err
	}
	return &rep, nil
}

// mustReport insists on a JSON report.
func (r *cliResult) mustReport(args []string) (*cliReport, error) {
	if r.Rep == nil {
		return nil, violf("gosec %v printed no report (exit status %d): %s\n%s", args, r.Exit, tail(r.Stdout, 1500), tail(r.Stderr, 1500))
	}
	return r.Rep, nil
}

func (i *cliIssue) sup() string {
	var s []string
	for _, x := range i.Suppressions {
		s = append(s, x.Kind+":"+x.Justification)
	}
	return strings.Join(s, ";")
}

func (i *cliIssue) key(dir string) string {
	return fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s|%q", i.RuleID, strings.TrimPrefix(i.File, dir), i.Line, i.Column, i.Severity, i.Confidence, i.Details, i.Code)
}

func (i *cliIssue) full(dir string) string {
	return fmt.Sprintf("%s|%v|%s|%s|%q", i.key(dir), i.Cwe, fmt.Sprint(i.NoSec), i.sup(), i.Autofix)
}

func cliMultiset(is []cliIssue, key func(*cliIssue) string) []string {
	out := make([]string, 0, len(is))
	for k := range is {
		out = append(out, key(&is[k]))
	}
	sort.Strings(out)
	return out
}

// writeModule puts a module with the files into a fresh directory.
func writeModule(files []File) (string, error) {
	dir := caseDir()
	fs := append([]File{{"go.mod", "module example.com/m\n\ngo 1.24\n"}}, files...)
	if err := writeFiles(dir, fs); err != nil {
		return "", err
	}
	d, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return "", harnessf("%v", err)
	}
	return d, nil
}
