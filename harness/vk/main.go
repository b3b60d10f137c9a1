package vk

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// Main runs a check (parent) or one of its parts (child).
func Main(checks map[string]Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check <property> [part]")
		os.Exit(2)
	}
	id := os.Args[1]
	c, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no such check: %s\n", id)
		os.Exit(2)
	}
	if os.Getenv("VK_PART") != "" {
		child(id, c)
		return
	}
	os.Exit(parent(id, c, os.Args[2:]))
}

func seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func child(id string, c Check) {
	name := os.Getenv("VK_PART")
	for _, p := range c.Parts {
		if p.Name != name {
			continue
		}
		f, err := os.Create(os.Getenv("VK_OUT") + ".case")
		if err != nil {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR:", err)
			os.Exit(3)
		}
		r := &R{
			ID: id, Part: name, Seed: seed(), Tier: tier(),
			Scratch:  os.Getenv("VK_SCRATCH"),
			distinct: map[uint64]struct{}{}, counters: map[string]int64{}, viol: map[string]*Violation{},
			curFile: f, start: time.Now(),
		}
		// testing/synctest wants a test around it.
		testing.Init()
		flag.CommandLine.Parse([]string{"-test.timeout=0", "-test.count=1"})
		testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{
			Name: name, F: func(t *testing.T) {
				r.T = t
				p.Run(r)
				r.Finish()
			}}}, nil, nil)
		r.Fatal("part did not run to its end")
	}
	fmt.Fprintln(os.Stderr, "CHECK-ERROR: no such part", name)
	os.Exit(3)
}

type partRun struct {
	part  Part
	res   *partResult
	viol  []*Violation
	fail  string // error of the check
	wall  float64
	races int
}

func verifDir() string {
	if d := os.Getenv("VK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func parent(id string, c Check, only []string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vk-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	parts := c.Parts
	if len(only) > 0 {
		parts = nil
		for _, p := range c.Parts {
			for _, o := range only {
				if p.Name == o {
					parts = append(parts, p)
				}
			}
		}
	}
	runs := make([]*partRun, len(parts))
	par := runtime.NumCPU() / 2
	if par < 1 || c.Serial {
		par = 1
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, p := range parts {
		i, p := i, p
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			runs[i] = runPart(id, p, filepath.Join(scratch, p.Name))
		}()
	}
	wg.Wait()

	known := loadKnown(id)
	seen := map[string]bool{}
	var viols []*Violation
	counters := map[string]int64{}
	perPart := map[string]interface{}{}
	distinct := map[uint64]struct{}{}
	var evals int64
	var samples []interface{}
	failed := false
	for _, pr := range runs {
		if pr.fail != "" {
			failed = true
			fmt.Fprintf(os.Stderr, "CHECK-ERROR property=%s part=%s %s\n", id, pr.part.Name, pr.fail)
		}
		pp := map[string]interface{}{"wall_s": round(pr.wall)}
		if pr.res != nil {
			evals += pr.res.Evals
			for _, h := range pr.res.Distinct {
				distinct[h] = struct{}{}
			}
			for k, v := range pr.res.Counters {
				counters[k] += v
			}
			for _, s := range pr.res.Samples {
				samples = append(samples, map[string]interface{}{"part": pr.part.Name, "case": s})
			}
			pp["evaluations"] = pr.res.Evals
			pp["distinct_nontrivial"] = len(pr.res.Distinct)
		}
		perPart[pr.part.Name] = pp
		viols = append(viols, pr.viol...)
	}

	// A breach that a part reports as well as its crash dump is one breach.
	exit := 0
	replays := 0
	knownHit := map[string]bool{}
	for _, v := range viols {
		if seen[v.Sig] {
			continue
		}
		seen[v.Sig] = true
		if k := matchKnown(known, v.Sig); k != nil {
			knownHit[k.Sig] = true
			continue
		}
		replays++
		exit = 1
		path := filepath.Join(verifDir(), "evidence", "replay", fmt.Sprintf("%s-%d.json", id, replays))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "part": v.Part, "seed": seed(), "tier": tier(), "signature": v.Sig,
			"detail": v.Detail, "case": v.Case, "occurrences": v.N,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bin/check %s %s", seed(), tier(), id, v.Part),
		}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s [%s]: %s\n", v.Sig, v.Part, firstLines(v.Detail, 12))
	}
	for _, k := range known {
		if k.Status == "known" && knownHit[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c.Rule, "samples": samples,
		"observed": counters, "parts": perPart,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier(), "seed": seed(), "level": "exploration",
		"coverage": cov, "assumptions": c.Assumptions, "wall_s": round(time.Since(start).Seconds()),
		"violations": replays,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(verifDir(), "evidence", id+".json")
	os.MkdirAll(filepath.Dir(evp), 0o755)
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s\n", id, evals, len(distinct), replays, time.Since(start).Seconds())
	var ks []string
	for k, v := range counters {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("  observed: %s\n", strings.Join(ks, " "))
	if exit == 0 && failed {
		return 2
	}
	if exit == 0 && (evals == 0 || len(distinct) == 0) {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR property=%s nothing was observed\n", id)
		return 2
	}
	return exit
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return strings.Join(ls, "\n    ")
}

func runPart(id string, p Part, dir string) *partRun {
	pr := &partRun{part: p}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		pr.fail = err.Error()
		return pr
	}
	out := filepath.Join(dir, "out.json")
	work := filepath.Join(dir, "scratch")
	os.MkdirAll(work, 0o755)
	self, err := os.Executable()
	if err != nil {
		pr.fail = err.Error()
		return pr
	}
	limit := p.Limit
	if limit == 0 {
		limit = 180 * time.Second
	}
	if tier() == "thorough" {
		limit *= 10
	}
	stderr, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		pr.fail = err.Error()
		return pr
	}
	defer stderr.Close()
	cmd := exec.Command(self, id)
	cmd.Env = append(os.Environ(), "VK_PART="+p.Name, "VK_OUT="+out, "VK_SCRATCH="+work,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	cmd.Stdout, cmd.Stderr = stderr, stderr
	cmd.Dir = work
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		pr.fail = err.Error()
		return pr
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	pr.wall = time.Since(t0).Seconds()

	if b, err := os.ReadFile(out); err == nil {
		var res partResult
		if err := json.Unmarshal(b, &res); err == nil {
			pr.res = &res
			pr.viol = append(pr.viol, res.Viol...)
		}
	}
	var cur interface{}
	if b, err := os.ReadFile(out + ".case"); err == nil {
		if json.Unmarshal(b, &cur) != nil {
			cur = string(b)
		}
	}
	text := tail(filepath.Join(dir, "stderr"), 4<<20)
	if os.Getenv("VK_SHOW") != "" {
		fmt.Fprintf(os.Stderr, "--- %s/%s stderr\n%s\n", id, p.Name, tailStr(text, 6000))
	}
	if !p.NoRace {
		vs, harness := raceReports(dir)
		pr.viol = append(pr.viol, vs...)
		for _, v := range vs {
			v.Part = p.Name
			v.Case = cur
		}
		if harness != "" {
			pr.fail = "data race inside the harness:\n" + harness
		}
	}
	if pr.res == nil && !p.CrashOK {
		switch {
		case strings.Contains(text, "CHECK-ERROR:"):
			pr.fail = tailStr(text, 6000)
		case timedOut:
			pr.viol = append(pr.viol, &Violation{Sig: "hang:" + p.Name, Part: p.Name, Case: cur, N: 1,
				Detail: fmt.Sprintf("no end within %s\n%s", limit, trimHang(text))})
			if trimHang(text) == "" {
				pr.viol = pr.viol[:len(pr.viol)-1]
				pr.fail = "timed out without a goroutine in the code under test\n" + tailStr(text, 3000)
			}
		default:
			sig, detail := crash(text)
			// The harness never exits with 1: the code under test ended the process.
			if e, ok := werr.(*exec.ExitError); ok && sig == "" && e.ExitCode() == 1 && !fatalRe.MatchString(text) && !strings.Contains(text, "address already in use") {
				sig, detail = "exit:"+p.Name, "the code under test ended the process:\n"+tailStr(text, 2000)
			}
			if m := metricRe.FindString(text); m != "" && sig == "" {
				sig, detail = "metric-missing", m
			}
			if sig == "" {
				pr.fail = fmt.Sprintf("part ended with %v and no result\n%s", werr, tailStr(text, 6000))
			} else {
				pr.viol = append(pr.viol, &Violation{Sig: sig, Part: p.Name, Case: cur, N: 1, Detail: detail})
			}
		}
	}
	return pr
}

func tail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	if st, err := f.Stat(); err == nil && st.Size() > n {
		f.Seek(-n, 2)
	}
	b := make([]byte, n)
	m := 0
	for {
		k, err := f.Read(b[m:])
		m += k
		if err != nil || m == len(b) {
			break
		}
	}
	return string(b[:m])
}

func tailStr(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

var metricRe = regexp.MustCompile(`(?m)^panic: unknown metric: .*`)

var fatalRe = regexp.MustCompile(`(?m)^(panic: |fatal error: |unexpected fault address|SIGSEGV)`)

// crash finds the panic or fatal error in a dump and whether the code under
// test is on the crashing goroutine's stack.
func crash(text string) (sig, detail string) {
	loc := fatalRe.FindStringIndex(text)
	if loc == nil {
		return "", ""
	}
	d := text[loc[0]:]
	msg := strings.SplitN(d, "\n", 2)[0]
	// The first goroutine printed is the crashing one.
	gs := strings.Split(d, "\n\n")
	st := d
	for i, g := range gs {
		if strings.HasPrefix(strings.TrimSpace(g), "goroutine ") || (i == 0 && strings.Contains(g, "\ngoroutine ")) {
			st = g
			break
		}
	}
	fn := repoFrame(st)
	if fn == "" && strings.HasPrefix(msg, "fatal error: all goroutines are asleep") {
		fn = repoFrame(d)
	}
	if fn == "" {
		return "", ""
	}
	kind := "panic:"
	if strings.HasPrefix(msg, "fatal error") {
		kind = "fatal:"
	}
	return kind + fn, "the process crashed: " + msg + "\n" + trimStack(st)
}

// raceReports reads the race detector's logs. Reports that involve the code
// under test are breaches, others are errors of the harness.
func raceReports(dir string) (vs []*Violation, harness string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]*Violation{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			// Only the two accesses count, not where goroutines were created.
			acc := rep
			if i := strings.Index(rep, "Goroutine "); i >= 0 {
				acc = rep[:i]
			}
			var fns []string
			for _, blk := range strings.Split(acc, "\n\n") {
				fn := ""
				sc := bufio.NewScanner(strings.NewReader(blk))
				for sc.Scan() {
					l := strings.TrimSpace(sc.Text())
					if isHarnessFunc(l) {
						break
					}
					if isRepoFunc(l) {
						fn = cleanFunc(l)
						break
					}
				}
				if fn != "" {
					fns = append(fns, fn)
				}
			}
			if len(fns) == 0 {
				harness = rep
				continue
			}
			sort.Strings(fns)
			sig := "race:" + strings.Join(fns, "|")
			if v := seen[sig]; v != nil {
				v.N++
				continue
			}
			v := &Violation{Sig: sig, Detail: "data race" + trimStack(rep), N: 1}
			seen[sig] = v
			vs = append(vs, v)
		}
	}
	return vs, harness
}

// Known is an entry of known_findings.jsonl.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func loadKnown(id string) []*Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []*Known
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "fixed:") || strings.HasPrefix(l, "#") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id && k.Status == "known" {
			out = append(out, &k)
		}
	}
	return out
}

func matchKnown(ks []*Known, sig string) *Known {
	for _, k := range ks {
		if k.Sig == sig {
			return k
		}
	}
	return nil
}
