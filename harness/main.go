package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

var verifRoot = func() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}()

func envSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func shardSeed(seed, shard int) uint64 {
	x := uint64(int64(seed))*0x9E3779B97F4A7C15 + uint64(shard+1)*0xBF58476D1CE4E5B9
	x ^= x >> 31
	x &= 0x7fffffffffffffff
	if x == 0 {
		x = 1
	}
	return x
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fail("usage: harness check ID | replay FILE | list")
	}
	switch os.Args[1] {
	case "list":
		for _, id := range sortedKeys(props) {
			p := props[id]
			fmt.Printf("%s quick=%d thorough=%d\n", id, p.Quick, p.Thorough)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2], len(os.Args) > 3 && os.Args[3] == "-v"))
	case "samples": // print generated cases: harness samples ID N
		samples(os.Args[2], os.Args[3])
	default:
		fail("unknown command %q", os.Args[1])
	}
}

// Replay is a stored case.
type Replay struct {
	Property string
	Message  string
	Case     json.RawMessage
}

// KnownFinding is one line of known_findings.txt.
type KnownFinding struct {
	Property, Key, Text, Replay string
}

func loadKnown(id string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifRoot, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) != 3 || f[0] != "property="+id || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		out = append(out, KnownFinding{Property: id, Key: strings.TrimPrefix(f[1], "key="), Text: f[2]})
	}
	return out
}

func makeScratch() string {
	base := "/dev/shm"
	if f, err := os.CreateTemp(base, "verif-probe"); err != nil {
		base = "/tmp"
	} else {
		f.Close()
		os.Remove(f.Name())
	}
	d, err := os.MkdirTemp(base, "verif-")
	if err != nil {
		fail("scratch: %v", err)
	}
	return d
}

// prepare lists export data (and builds the command line tool when asked to) into the scratch directory.
func prepare(scratch string, p *Prop) error {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}, importable...)
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifRoot, "harness")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	if err := os.WriteFile(filepath.Join(scratch, "exports.txt"), out, 0o644); err != nil {
		return err
	}
	build := func(args ...string) error {
		cmd := exec.Command("go", append([]string{"build"}, args...)...)
		cmd.Dir = "/repo"
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("building gosec: %v: %s", err, out)
		}
		return nil
	}
	if p.CLI {
		if err := build("-o", filepath.Join(scratch, "gosec"), "./cmd/gosec"); err != nil {
			return err
		}
	}
	if p.Tools {
		for _, tool := range []string{"gosecutil", "tlsconfig"} {
			if err := build("-o", filepath.Join(scratch, tool), "./cmd/"+tool); err != nil {
				return err
			}
		}
	}
	if p.Race {
		if err := build("-race", "-o", filepath.Join(scratch, "gosec-race"), "./cmd/gosec"); err != nil {
			return err
		}
	}
	return nil
}

func workerEnv(scratch string) []string {
	env := os.Environ()
	env = append(env, "GOSECGOVERSION=go1.24.0", "VERIF_SCRATCH_ROOT="+scratch)
	return env
}

func selfCmd(scratch string, args ...string) *exec.Cmd {
	self, err := os.Executable()
	if err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = workerEnv(scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	return cmd
}

type shardRes struct {
	out    workerOut
	exit   error
	stderr string
	cur    []byte
	sig    syscall.Signal
}

func check(id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fail("no property %q", id)
	}
	tier, seed := envTier(), envSeed()
	scratch := makeScratch()
	defer os.RemoveAll(scratch)
	if err := prepare(scratch, p); err != nil {
		fmt.Fprintln(os.Stderr, "prepare:", err)
		return 3
	}
	setScratch(scratch, "main")
	known := loadKnown(id)
	knownKeys := map[string]bool{}
	for _, k := range known {
		knownKeys[k.Key] = true
	}

	violations := 0
	report := func(msg string, c json.RawMessage) {
		violations++
		dir := filepath.Join(verifRoot, "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-%d.json", id, tier, seed, violations))
		_ = writeJSON(path, Replay{Property: id, Message: msg, Case: c})
		fmt.Printf("%s\n", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	harnessErr := ""

	// 1. stored regression cases and known findings
	regress, _ := filepath.Glob(filepath.Join(verifRoot, "regress", id, "*.json"))
	nreg := 0
	for _, r := range regress {
		nreg++
		code, msg := runReplayChild(scratch, r, 120*time.Second)
		isKnown := ""
		for _, k := range known {
			if filepath.Base(r) == "known-"+k.Key+".json" {
				isKnown = k.Text
			}
		}
		switch {
		case isKnown != "" && code == 1:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, isKnown)
		case isKnown != "" && code == 0:
			fmt.Printf("note: the known finding %s no longer shows\n", filepath.Base(r))
		case code == 1:
			rp, _ := readReplay(r)
			report(fmt.Sprintf("regression case %s: %s", filepath.Base(r), msg), rp.Case)
		case code != 0:
			harnessErr = fmt.Sprintf("regression case %s: exit %d: %s", r, code, msg)
		}
	}

	// 2. generated search, in shards
	shards := 8
	checks := p.Quick
	if tier == "thorough" {
		checks = p.Thorough
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil {
		checks = v
	}
	per := (checks + shards - 1) / shards
	res := make([]shardRes, shards)
	var wg sync.WaitGroup
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	limit -= time.Since(start)
	if violations == 0 {
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				res[i] = runShard(scratch, p, tier, seed, i, shards, per, limit)
			}(i)
		}
		wg.Wait()
	}
	var outs []workerOut
	seen := map[string]bool{}
	for i := range res {
		r := res[i]
		if violations > 0 && r.out.Stats == nil && r.exit == nil {
			continue
		}
		if r.exit != nil {
			// The worker died: a crash of the code under test if the same case kills a fresh process again.
			if len(r.cur) > 0 && isCrash(r.stderr) {
				rf := filepath.Join(scratch, fmt.Sprintf("crash-%d.json", i))
				_ = writeJSON(rf, Replay{Property: id, Case: r.cur})
				code, msg := runReplayChild(scratch, rf, 300*time.Second)
				if code == 1 {
					if !seen[msg] && violations == 0 {
						report(msg, r.cur)
					}
					seen[msg] = true
					continue
				}
			}
			if strings.Contains(r.stderr, "VERIF-HANG") && id == "C01" && len(r.cur) > 0 {
				rf := filepath.Join(scratch, fmt.Sprintf("hang-%d.json", i))
				_ = writeJSON(rf, Replay{Property: id, Case: r.cur})
				code, msg := runReplayChild(scratch, rf, 300*time.Second)
				if code == 1 {
					if violations == 0 {
						report(msg, r.cur)
					}
					continue
				}
			}
			dead := filepath.Join(verifRoot, "evidence", "replays", fmt.Sprintf("dead-%s-%d.json", id, i))
			if len(r.cur) > 0 && os.MkdirAll(filepath.Dir(dead), 0o755) == nil {
				_ = writeJSON(dead, Replay{Property: id, Message: "worker died", Case: r.cur})
			}
			harnessErr = fmt.Sprintf("worker %d died: %v: %s", i, r.exit, tail(r.stderr, 3000))
			continue
		}
		outs = append(outs, r.out)
		if r.out.HarnessEr != "" {
			harnessErr = r.out.HarnessEr + "\n" + string(r.out.Case)
		}
		if r.out.Failure != "" && violations == 0 {
			// confirm in a fresh process
			rf := filepath.Join(scratch, fmt.Sprintf("fail-%d.json", i))
			_ = writeJSON(rf, Replay{Property: id, Message: r.out.Failure, Case: r.out.Case})
			confirmed := false
			for k := 0; k < 12 && !confirmed; k++ {
				code, _ := runReplayChild(scratch, rf, 300*time.Second)
				confirmed = code == 1
			}
			if confirmed {
				report(r.out.Failure, r.out.Case)
			} else {
				harnessErr = "failure did not reproduce from its replay file: " + r.out.Failure + "\n" + string(r.out.Case)
			}
		}
	}

	m := mergeStats(outs)
	samples := m.Samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":         m.Evaluations,
		"distinct_nontrivial": len(m.Nontrivial),
		"rule":                p.Rule,
		"samples":             samples,
		"enumerated_cases":    m.Enumerated,
		"random_cases":        m.Evaluations - m.Enumerated,
		"regression_cases":    nreg,
		"classes":             m.Labels,
	}
	if len(m.Known) > 0 {
		cov["known_findings_met"] = m.Known
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "exploration", Coverage: cov,
		Assumptions: p.Assume, WallS: time.Since(start).Seconds(), Violations: violations}
	if err := writeJSON(filepath.Join(verifRoot, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d enumerated, %d distinct non-trivial), %.1fs\n", id, tier, seed, m.Evaluations, m.Enumerated, len(m.Nontrivial), time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "CHECK ERROR:", tail(harnessErr, 6000))
		return 3
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func isCrash(stderr string) bool {
	if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate") {
		return false
	}
	return strings.Contains(stderr, "stack overflow") || strings.Contains(stderr, "goroutine stack exceeds") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "panic:")
}

func runShard(scratch string, p *Prop, tier string, seed, shard, shards, per int, limit time.Duration) (r shardRes) {
	outFile := filepath.Join(scratch, fmt.Sprintf("out-%d.json", shard))
	curFile := filepath.Join(scratch, fmt.Sprintf("cur-%d.json", shard))
	cmd := selfCmd(scratch, "worker", p.ID, tier, strconv.Itoa(seed), strconv.Itoa(shard), strconv.Itoa(shards), strconv.Itoa(per), outFile, curFile)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		r.exit = err
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = fmt.Errorf("time limit")
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.stderr = eb.String()
	r.cur, _ = os.ReadFile(curFile)
	if err != nil {
		r.exit = err
		return r
	}
	b, err := os.ReadFile(outFile)
	if err == nil {
		err = json.Unmarshal(b, &r.out)
	}
	r.exit = err
	return r
}

func setScratch(root, name string) {
	scratchDir = filepath.Join(root, name)
	if err := os.MkdirAll(scratchDir, 0o755); err != nil {
		fail("%v", err)
	}
	exportsFile = filepath.Join(root, "exports.txt")
	gosecBin = filepath.Join(root, "gosec")
	gosecRace = filepath.Join(root, "gosec-race")
	utilBin = filepath.Join(root, "gosecutil")
	tlsconfigBin = filepath.Join(root, "tlsconfig")
}

func worker(a []string) {
	p := props[a[0]]
	tier := a[1]
	seed, _ := strconv.Atoi(a[2])
	shard, _ := strconv.Atoi(a[3])
	shards, _ := strconv.Atoi(a[4])
	per, _ := strconv.Atoi(a[5])
	outFile, curFile := a[6], a[7]
	setScratch(os.Getenv("VERIF_SCRATCH_ROOT"), fmt.Sprintf("w%d", shard))
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2500 << 20)
	os.Args = []string{os.Args[0]}
	flag.Parse()
	mustSet("rapid.checks", strconv.Itoa(per))
	mustSet("rapid.seed", strconv.FormatUint(shardSeed(seed, shard), 10))
	mustSet("rapid.nofailfile", "true")
	mustSet("rapid.shrinktime", fmt.Sprintf("%ds", p.ShrinkS))
	knownKeys := map[string]bool{}
	for _, k := range loadKnown(p.ID) {
		knownKeys[k.Key] = true
	}
	go watchdog(60)
	if f := os.Getenv("VERIF_PROFILE"); f != "" && shard == 0 {
		w, err := os.Create(f)
		if err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	out := p.runWorker(tier, shard, shards, per, curFile, knownKeys)
	b, err := json.Marshal(out)
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		fail("%v", err)
	}
}

// watchdog ends the process when a single case burns cpu seconds of processor time (not wall time).
func watchdog(cpu float64) {
	var base float64
	var cur int64
	for {
		time.Sleep(500 * time.Millisecond)
		s := caseStart.Load()
		u := cpuTime()
		if s == 0 || s != cur {
			cur, base = s, u
			continue
		}
		if u-base > cpu {
			fmt.Fprintln(os.Stderr, "VERIF-HANG: one case used", u-base, "seconds of processor time")
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(4)
		}
	}
}

func cpuTime() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func mustSet(k, v string) {
	if err := flag.Set(k, v); err != nil {
		fail("%v", err)
	}
}

func readReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r Replay
	return &r, json.Unmarshal(b, &r)
}

// runReplayChild replays a file in a fresh process: 0 holds, 1 violated, else error.
func runReplayChild(scratch, path string, limit time.Duration) (int, string) {
	cmd := selfCmd(scratch, "replay", path)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return 3, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return 3, "time limit"
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if err == nil {
		return 0, ob.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 1 {
			return 1, ob.String()
		}
		if ee.ExitCode() == 4 && strings.Contains(eb.String(), "VERIF-HANG") {
			return 1, "does not terminate: " + eb.String()
		}
		if isCrash(eb.String()) {
			return 1, "crash of the process: " + crashSummary(eb.String())
		}
	}
	return 3, tail(ob.String()+eb.String(), 3000)
}

func crashSummary(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic:") || strings.Contains(l, "stack exceeds") || (strings.Contains(l, "securego/gosec") && len(keep) < 14) {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 14 {
		keep = keep[:14]
	}
	return strings.Join(keep, "\n  ")
}

func replay(path string, verbose bool) int {
	r, err := readReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 3
	}
	root := os.Getenv("VERIF_SCRATCH_ROOT")
	own := root == ""
	if own {
		root = makeScratch()
		defer os.RemoveAll(root)
		if err := prepare(root, p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		os.Setenv("GOSECGOVERSION", "go1.24.0")
	}
	setScratch(root, fmt.Sprintf("r%d", os.Getpid()))
	debug.SetMaxStack(64 << 20)
	c, err := p.dec(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	go watchdog(100)
	caseStart.Store(time.Now().UnixNano())
	st := newStats()
	st.curKey = "x"
	err = p.runCase(c, st)
	if verbose {
		fmt.Println(st.Labels)
	}
	if err == nil {
		return 0
	}
	if he, ok := err.(*HarnessError); ok {
		fmt.Fprintln(os.Stderr, he)
		return 3
	}
	fmt.Println(err)
	if own {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	}
	return 1
}
