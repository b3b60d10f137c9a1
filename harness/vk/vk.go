// Package vk is the kit the monitors are written with: every check is a set of
// parts, each run in a process of its own, under the race detector; a part
// drives the real code, counts what it observed and reports violations. The
// parent process merges the parts, reads crash dumps and race reports, matches
// known findings, and writes the evidence file.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Part is a workload with its monitor.
type Part struct {
	Name string
	Run  func(*R)
	// Limit is the wall-clock limit; running out of it means a hang.
	Limit time.Duration
	// NoRace ignores race reports of this part.
	NoRace bool
	// CrashOK: the part expects to be killed; only its own verdicts count.
	CrashOK bool
}

// Check is everything that decides one property.
type Check struct {
	Rule        string
	Assumptions []string
	Parts       []Part
	// Serial runs the parts one after another.
	Serial bool
}

// Violation is one observed breach.
type Violation struct {
	Sig    string      `json:"sig"`
	Detail string      `json:"detail"`
	Case   interface{} `json:"case,omitempty"`
	Part   string      `json:"part"`
	N      int         `json:"n"`
}

// R is what a part reports to.
type R struct {
	ID   string
	Part string
	Seed int64
	Tier string

	// Scratch is a private directory, removed afterwards.
	Scratch string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []interface{}
	viol     map[string]*Violation
	order    []string
	cur      interface{}
	curFile  *os.File
	start    time.Time

	// T is for testing/synctest only.
	T *testing.T
}

// Thorough tells which tier this is.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Scale picks a number by tier.
func (r *R) Scale(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rand is a generator determined by the seed, the check, the part and the label.
func (r *R) Rand(label string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%s|%d", r.Seed, r.ID, r.Part, label, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts one evaluation; key identifies the case, nontrivial tells whether
// it exercised what the rule asks for.
func (r *R) Eval(key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(r.Part + "|" + key))
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named counter of what was observed.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Counter reads a counter.
func (r *R) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps a few cases for the evidence file.
func (r *R) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 2 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Case notes the case being run, so that a crash can name it.
func (r *R) Case(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cur = v
	if r.curFile != nil {
		b, _ := json.Marshal(v)
		if len(b) > 16000 {
			b = append(b[:16000], []byte(`..."`)...)
		}
		r.curFile.Truncate(0)
		r.curFile.WriteAt(b, 0)
	}
}

// Violate records a breach. sig names what is broken (not where in the run);
// the first report per sig keeps the case.
func (r *R) Violate(sig, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v := r.viol[sig]
	if v == nil {
		d := fmt.Sprintf(format, a...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		v = &Violation{Sig: sig, Detail: d, Case: r.cur, Part: r.Part}
		r.viol[sig] = v
		r.order = append(r.order, sig)
	}
	v.N++
}

// Violations is the number of breaches so far.
func (r *R) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, v := range r.viol {
		n += v.N
	}
	return n
}

// Fatal ends the part with an error of the check itself (exit 2).
func (r *R) Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// Safely runs f and turns a panic into a breach with the given sig prefix. It
// tells whether f returned normally.
func (r *R) Safely(what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			fn := repoFrame(st)
			if fn == "" {
				fmt.Fprintf(os.Stderr, "CHECK-ERROR: panic in the harness (%s): %v\n%s\n", what, p, st)
				os.Exit(3)
			}
			r.Violate("panic:"+fn, "%s: panic: %v\n%s", what, p, trimStack(st))
			ok = false
		}
	}()
	f()
	return true
}

// Within runs f in a goroutine and reports a hang when it takes longer than d.
// d must be far beyond what f can need.
func (r *R) Within(what string, d time.Duration, f func()) bool {
	done := make(chan bool, 1)
	go func() { done <- r.Safely(what, f) }()
	select {
	case ok := <-done:
		return ok
	case <-time.After(d):
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.Violate("hang:"+what, "%s did not end within %s\n%s", what, d, trimHang(string(buf)))
		return false
	}
}

func trimHang(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "log-cache/internal/") || strings.Contains(g, "log-cache/pkg/") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func isRepoFunc(line string) bool {
	return strings.HasPrefix(line, "code.cloudfoundry.org/log-cache/") && !strings.HasPrefix(line, "code.cloudfoundry.org/log-cache/verif")
}

func isHarnessFunc(line string) bool {
	return strings.HasPrefix(line, "main.") || strings.HasPrefix(line, "code.cloudfoundry.org/log-cache/verif")
}

// repoFrame is the innermost function of the code under test in a stack, or "".
func repoFrame(st string) string {
	lines := strings.Split(st, "\n")
	// Frames of recover/panic machinery come first; frames above the panic call
	// belong to deferred functions.
	from := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			from = i
		}
	}
	for _, l := range lines[from:] {
		l = strings.TrimSpace(l)
		if isHarnessFunc(l) {
			return ""
		}
		if isRepoFunc(l) {
			return cleanFunc(l)
		}
	}
	return ""
}

func cleanFunc(l string) string {
	if i := strings.LastIndex(l, "("); i > 0 && strings.HasSuffix(l, ")") {
		l = l[:i]
	}
	return strings.TrimPrefix(l, "code.cloudfoundry.org/log-cache/")
}

func trimStack(st string) string {
	if len(st) > 3000 {
		st = st[:3000] + "..."
	}
	return st
}

type partResult struct {
	Evals    int64
	Distinct []uint64
	Counters map[string]int64
	Samples  []interface{}
	Viol     []*Violation
}

func (r *R) result() *partResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := &partResult{Evals: r.evals, Counters: r.counters, Samples: r.samples}
	for h := range r.distinct {
		p.Distinct = append(p.Distinct, h)
	}
	sort.Slice(p.Distinct, func(i, j int) bool { return p.Distinct[i] < p.Distinct[j] })
	for _, s := range r.order {
		p.Viol = append(p.Viol, r.viol[s])
	}
	return p
}

// Flush writes the part's result; a part that cannot return (goroutines of a
// synctest bubble that never end) calls Finish instead.
func (r *R) flush() {
	out := os.Getenv("VK_OUT")
	b, err := json.Marshal(r.result())
	if err != nil {
		r.Fatal("marshal: %v", err)
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		r.Fatal("write: %v", err)
	}
	if err := os.Rename(out+".tmp", out); err != nil {
		r.Fatal("write: %v", err)
	}
}

// Finish writes the result and ends the part's process.
func (r *R) Finish() {
	r.flush()
	os.Exit(0)
}

// Sorted returns the keys of a map in order.
func Sorted[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// J renders a value as JSON for messages and keys.
func J(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// Bubble runs f under virtual time. All goroutines f starts must end, or f must
// end the process with Finish.
func (r *R) Bubble(f func()) {
	synctest.Test(r.T, func(*testing.T) { f() })
}

// Settle waits, in a bubble, until every other goroutine is blocked.
func Settle() { synctest.Wait() }
