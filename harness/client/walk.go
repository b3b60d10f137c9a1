package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// walkCase is a generated walk: its configuration, the data behind it and the
// faults of its reads. Times are nanoseconds relative to the start of the case.
type walkCase struct {
	Source    string
	Start     *int64 // absolute
	End       *int64
	Limit     *int
	Types     []logcache_v1.EnvelopeType
	Name      string
	Delay     *int64
	Backoff   string
	Interval  int64
	Max       int
	Envs      []walkEnv
	Script    []string
	ReadCost  int64
	VisitCost int64
	StopAfter int // visits
	CancelAt  int64
	Future    bool // the server also returns envelopes of the future
}

type walkEnv struct {
	TS     int64 // absolute
	Arrive int64 // absolute
	id     string
}

type ctxKey struct{}

// step is what the walker may do next.
type step int

const (
	wantRead step = iota
	wantBatch
	wantErr
	wantEmpty
	wantEnd
)

type walkMon struct {
	mu       sync.Mutex
	c        *walkCase
	bad      func(prop, sig, f string, a ...interface{})
	base     time.Time
	want     step
	resets   int // since the last batch response
	start    int64
	response []*loggregator_v2.Envelope
	lastErr  error
	empty    bool
	reads    int
	visits   int
	visited  []*loggregator_v2.Envelope
	onErr    int
	onEmpty  int
	heldBack int
	unpruned bool
	alive    bool
	over     bool
	ctx      context.Context
	cancel   func()
	log      []string
}

func (m *walkMon) note(f string, a ...interface{}) {
	if len(m.log) < 60 {
		m.log = append(m.log, fmt.Sprintf(f, a...))
	}
}

func (m *walkMon) trace() string { return strings.Join(m.log, "\n  ") }

// stop ends the walk's goroutine: what follows cannot be judged.
func (m *walkMon) stop() {
	m.over = true
	m.mu.Unlock()
	runtime.Goexit()
}

func (m *walkMon) wrong(prop, sig, f string, a ...interface{}) {
	m.bad(prop, sig, "%s\n  %s", fmt.Sprintf(f, a...), m.trace())
}

func ts(es []*loggregator_v2.Envelope) []int64 {
	var out []int64
	for _, e := range es {
		out = append(out, e.GetTimestamp())
	}
	return out
}

var errRead = errors.New("read failed")

// readErr is how the n-th read fails, if it does.
func readErr(n int) error {
	err := readErrs[n%len(readErrs)]
	if n/len(readErrs)%2 == 0 {
		return err
	}
	return fmt.Errorf("read %d: %w", n, err)
}

// readErrs are errors of the kinds that reads fail with.
var readErrs = []error{errRead, context.DeadlineExceeded, context.Canceled, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, fmt.Errorf("unexpected status code %d", 503), status.Error(codes.Unavailable, "no node"), status.Error(codes.InvalidArgument, "bad")}

func (m *walkMon) read(ctx context.Context, sourceID string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
	m.mu.Lock()
	if m.over {
		m.stop()
	}
	m.reads++
	c := m.c
	if m.reads > 2000 {
		m.wrong("C28", "walk-endless", "2000 reads and no end")
		m.stop()
	}
	if m.want != wantRead {
		switch m.want {
		case wantErr:
			m.wrong("C28", "backoff-not-asked", "a read follows a failed read without asking the backoff")
		case wantEmpty:
			m.wrong("C28", "backoff-not-asked", "a read follows an empty batch without asking the backoff")
		case wantBatch:
			m.wrong("C27", "batch-not-visited", "a read follows a batch (%v) that was not visited", ts(m.expect()))
		case wantEnd:
			m.wrong("C28", "read-after-end", "a read after the walk should have ended")
		}
		m.stop()
	}
	if m.visits > 0 && m.resets == 0 && m.alive && c.Backoff != "default" {
		m.wrong("C28", "no-reset", "the backoff was not reset after a successful batch")
		m.stop()
	}
	m.alive = false
	m.note("read start=%d", start.UnixNano())
	if sourceID != c.Source {
		m.wrong("C27", "wrong-source", "read of source %q, not %q", sourceID, c.Source)
	}
	if start.UnixNano() != m.start {
		m.wrong("C27", "wrong-start", "read %d starts at %d, not %d", m.reads, start.UnixNano(), m.start)
		m.stop()
	}
	if ctx.Value(ctxKey{}) != "mine" {
		m.wrong("C28", "wrong-context", "the read was not given the walk's context")
	}
	q := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, q)
	}
	exp := url.Values{}
	if c.End != nil {
		exp.Set("end_time", strconv.FormatInt(*c.End, 10))
	}
	if c.Limit != nil {
		exp.Set("limit", strconv.Itoa(*c.Limit))
	}
	for _, t := range c.Types {
		exp.Add("envelope_types", t.String())
	}
	if c.Name != "" {
		exp.Set("name_filter", c.Name)
	}
	if q.Encode() != exp.Encode() {
		m.wrong("C27", "wrong-options", "read options %q, configured %q", q.Encode(), exp.Encode())
	}
	n := m.reads - 1
	m.mu.Unlock()
	if c.ReadCost > 0 {
		time.Sleep(time.Duration(c.ReadCost))
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	act := "ok"
	if n < len(c.Script) {
		act = c.Script[n]
	}
	es := m.serve(start.UnixNano())
	if strings.HasPrefix(act, "cancel") {
		m.cancel()
	}
	m.response, m.lastErr = nil, nil
	switch act {
	case "err", "cancel-err":
		m.lastErr = readErr(n)
	case "err-data", "cancel-err-data":
		m.response, m.lastErr = es, readErr(n)
	case "err-canceled":
		m.lastErr = context.Canceled
	case "err-deadline":
		m.lastErr = context.DeadlineExceeded
	case "empty":
	case "nil-elem":
		m.response = es
	default:
		m.response = es
	}
	m.note(" -> %s %v err=%v now=%d", act, ts(m.response), m.lastErr, time.Now().UnixNano())
	switch {
	case m.lastErr != nil && ctx.Err() != nil:
		m.want = wantEnd
	case m.lastErr != nil:
		m.want = wantErr
	case len(m.expect()) == 0:
		m.want = wantEmpty
	default:
		m.want = wantBatch
		m.resets = 0
		m.alive = true
	}
	// The walk gets a slice of its own.
	return append([]*loggregator_v2.Envelope(nil), m.response...), m.lastErr
}

// serve is a reader that returns whole timestamps.
func (m *walkMon) serve(start int64) []*loggregator_v2.Envelope {
	c := m.c
	now := time.Now().UnixNano()
	limit := 100
	if c.Limit != nil {
		limit = *c.Limit
	}
	var es []*loggregator_v2.Envelope
	for _, e := range c.Envs {
		if e.Arrive > now || e.TS < start || (c.End != nil && e.TS >= *c.End && !c.Future) {
			continue
		}
		if len(es) >= limit && es[len(es)-1].Timestamp != e.TS {
			break
		}
		es = append(es, &loggregator_v2.Envelope{SourceId: c.Source, InstanceId: e.id, Timestamp: e.TS})
	}
	return es
}

// expect is the part of the response the visitor must get.
func (m *walkMon) expect() []*loggregator_v2.Envelope {
	c := m.c
	es := m.response
	delay := int64(time.Second)
	if c.Delay != nil {
		delay = *c.Delay
	}
	keep := func(f func(int64) bool) {
		n := len(es)
		for n > 0 && !f(es[n-1].Timestamp) {
			n--
		}
		es = es[:n]
	}
	young := time.Now().UnixNano() - delay
	if c.End == nil || !m.empty {
		k := len(es)
		keep(func(t int64) bool { return t <= young })
		m.heldBack += k - len(es)
	} else if len(es) > 0 && es[len(es)-1].Timestamp > young {
		m.unpruned = true
	}
	if c.End != nil {
		keep(func(t int64) bool { return t < *c.End })
	}
	return es
}

func (m *walkMon) visit(es []*loggregator_v2.Envelope) bool {
	m.mu.Lock()
	if m.over {
		m.stop()
	}
	m.note("visit %v", ts(es))
	if len(es) == 0 {
		m.wrong("C28", "empty-visit", "the visitor was called with an empty batch")
		m.stop()
	}
	if m.want != wantBatch {
		if m.want == wantEmpty {
			m.wrong("C27", "early-visit", "the visitor was given %v, which is outside the window or younger than the delay (now %d)", ts(es), time.Now().UnixNano())
		} else {
			m.wrong("C28", "visit-out-of-turn", "the visitor was called after %v", m.lastErr)
		}
		m.stop()
	}
	exp := m.expect()
	ok := len(exp) == len(es)
	for i := 0; ok && i < len(es); i++ {
		ok = es[i].GetInstanceId() == exp[i].GetInstanceId() && es[i].GetTimestamp() == exp[i].GetTimestamp()
	}
	if !ok {
		m.wrong("C27", "wrong-batch", "the visitor was given %v instead of %v (now %d)", ts(es), ts(exp), time.Now().UnixNano())
		m.stop()
	}
	m.visited = append(m.visited, es...)
	m.visits++
	m.empty = false
	last := es[len(es)-1].Timestamp
	m.start = last + 1
	m.want = wantRead
	if m.c.StopAfter > 0 && m.visits >= m.c.StopAfter {
		m.want = wantEnd
	}
	res := m.want != wantEnd
	if m.c.End != nil && last+1 >= *m.c.End {
		m.want = wantEnd
	}
	m.mu.Unlock()
	if m.c.VisitCost > 0 {
		time.Sleep(time.Duration(m.c.VisitCost))
	}
	return res
}

// recBackoff asks the wrapped backoff and records.
type recBackoff struct {
	m     *walkMon
	inner client.Backoff
}

func (b recBackoff) ask(what string, is step, f func() bool) bool {
	m := b.m
	m.mu.Lock()
	if m.over {
		m.stop()
	}
	if m.want != is {
		m.wrong("C28", "wrong-ask", "the backoff was asked %s when it should not have been (state %d)", what, m.want)
		m.stop()
	}
	m.mu.Unlock()
	ok := f()
	m.mu.Lock()
	m.note("%s -> %v", what, ok)
	m.want = wantEnd
	if ok {
		m.want = wantRead
	}
	m.mu.Unlock()
	return ok
}

func (b recBackoff) OnErr(err error) bool {
	return b.ask("OnErr", wantErr, func() bool {
		b.m.onErr++
		if err != b.m.lastErr {
			b.m.wrong("C28", "wrong-error", "the backoff was given %v, the read failed with %v", err, b.m.lastErr)
		}
		return b.inner.OnErr(err)
	})
}

func (b recBackoff) OnEmpty() bool {
	return b.ask("OnEmpty", wantEmpty, func() bool {
		b.m.onEmpty++
		b.m.empty = true
		return b.inner.OnEmpty()
	})
}

func (b recBackoff) Reset() {
	m := b.m
	m.mu.Lock()
	if m.over {
		m.stop()
	}
	m.note("Reset")
	m.resets++
	if m.want == wantErr || m.want == wantEmpty || !m.alive {
		m.wrong("C28", "wrong-reset", "the backoff was reset without a successful batch")
	}
	if m.resets > 1 {
		m.wrong("C28", "double-reset", "the backoff was reset twice for one batch")
	}
	m.mu.Unlock()
	b.inner.Reset()
}

// scripted answers at random but ends in refusal.
type scripted struct {
	rnd  *rand.Rand
	left int
}

func (s *scripted) next() bool {
	s.left--
	if s.left < 0 {
		return false
	}
	time.Sleep(time.Duration(s.rnd.Int63n(int64(2 * time.Second))))
	return s.rnd.Intn(8) != 0
}
func (s *scripted) OnErr(error) bool { return s.next() }
func (s *scripted) OnEmpty() bool    { return s.next() }
func (s *scripted) Reset()           {}

func p64(v int64) *int64 { return &v }

func genWalk(r *rand.Rand, now int64) *walkCase {
	c := &walkCase{Source: fmt.Sprintf("src-%d", r.Intn(5)), Interval: r.Int63n(int64(3 * time.Second)), Max: r.Intn(6)}
	pick := func(p float64) bool { return r.Float64() < p }
	delay := int64(time.Second)
	if pick(.6) {
		delay = []int64{0, 1, 5, int64(time.Millisecond), int64(time.Second), int64(3 * time.Second), int64(time.Minute)}[r.Intn(7)]
		c.Delay = p64(delay)
	}
	if pick(.4) {
		n := []int{1, 1, 2, 3, 5, 10, 1000}[r.Intn(7)]
		c.Limit = &n
	}
	for i := r.Intn(4) - 1; i > 0; i-- {
		c.Types = append(c.Types, logcache_v1.EnvelopeType(r.Intn(6)))
	}
	if pick(.3) {
		c.Name = []string{"cpu", "^mem.*$", "a b&c=d", "%2F"}[r.Intn(4)]
	}
	// Envelopes around interesting instants, densely and with duplicates.
	instants := []int64{now, now - delay, now - 10*int64(time.Second), now + int64(time.Second)}
	if pick(.5) {
		instants = append(instants, 0)
	}
	n := r.Intn(30)
	if pick(.1) {
		n = 100 + r.Intn(150)
	}
	if pick(.01) {
		n = 500 + r.Intn(1500)
		if pick(.7) {
			l := 1000
			c.Limit = &l
		}
	}
	var cur int64
	for i := 0; i < n; i++ {
		t := cur
		switch r.Intn(8) {
		case 0:
			t = instants[r.Intn(len(instants))] + r.Int63n(7) - 3
		case 1:
			t = now - r.Int63n(int64(20*time.Second))
		case 2, 3:
			t = cur
		case 4:
			t = cur + 1
		case 5:
			t = cur + r.Int63n(int64(time.Second))
		case 6:
			t = now - delay - r.Int63n(int64(5*time.Second))
		default:
			t = instants[r.Intn(len(instants))] - r.Int63n(10)
		}
		cur = t
		arrive := now
		switch r.Intn(6) {
		case 0:
			arrive = t + r.Int63n(delay+1) // as late as the delay allows
		case 1:
			arrive = t - r.Int63n(int64(time.Second)) // a clock ahead
		case 2:
			if pick(.2) {
				arrive = t + delay + r.Int63n(int64(5*time.Second)) // too late
			} else {
				arrive = t
			}
		}
		c.Envs = append(c.Envs, walkEnv{TS: t, Arrive: arrive, id: fmt.Sprintf("e%d", i)})
	}
	sort.SliceStable(c.Envs, func(i, j int) bool { return c.Envs[i].TS < c.Envs[j].TS })
	if pick(.5) {
		s := instants[r.Intn(len(instants))] - r.Int63n(int64(10*time.Second))
		if n > 0 && pick(.5) {
			s = c.Envs[r.Intn(n)].TS + r.Int63n(3) - 1
		}
		c.Start = &s
	}
	if pick(.5) {
		e := now + r.Int63n(int64(8*time.Second)) - int64(4*time.Second)
		if n > 0 && pick(.5) {
			e = c.Envs[r.Intn(n)].TS + r.Int63n(4) - 1
		}
		c.End = &e
		c.Future = pick(.2)
	}
	c.Backoff = []string{"done", "always", "retry", "onerr", "scripted", "scripted", "default"}[r.Intn(7)]
	for i := r.Intn(12); i > 0; i-- {
		c.Script = append(c.Script, []string{"ok", "ok", "ok", "ok", "ok", "err", "err", "err-data", "empty", "empty", "err-canceled", "err-deadline"}[r.Intn(12)])
	}
	if pick(.15) {
		c.Script = append(c.Script, []string{"cancel-err", "cancel-err", "cancel-err-data", "cancel-ok"}[r.Intn(4)])
	}
	if pick(.4) {
		c.ReadCost = r.Int63n(int64(2 * time.Second))
	}
	if pick(.3) {
		c.VisitCost = r.Int63n(int64(2 * time.Second))
	}
	if pick(.3) {
		c.StopAfter = 1 + r.Intn(6)
	}
	// Something must end a walk that would go on for ever.
	c.CancelAt = int64(time.Duration(5+r.Intn(60)) * time.Second)
	if c.Backoff == "always" && c.Interval < int64(100*time.Millisecond) {
		c.Interval = int64(100 * time.Millisecond)
	}
	return c
}

func runWalk(r *vk.R, prop string, c *walkCase, rnd *rand.Rand) {
	bad := func(p, sig, f string, a ...interface{}) {
		if p == prop {
			r.Violate(sig, f, a...)
		} else {
			r.Count("left_to_"+p, 1)
		}
	}
	m := &walkMon{c: c, bad: bad, base: time.Now()}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "mine"))
	defer cancel()
	m.ctx, m.cancel = ctx, cancel
	if c.Start != nil {
		m.start = *c.Start
	}
	var opts []client.WalkOption
	if c.Start != nil {
		opts = append(opts, client.WithWalkStartTime(time.Unix(0, *c.Start)))
	}
	if c.End != nil {
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, *c.End)))
	}
	if c.Limit != nil {
		opts = append(opts, client.WithWalkLimit(*c.Limit))
	}
	if c.Types != nil {
		opts = append(opts, client.WithWalkEnvelopeTypes(c.Types...))
	}
	if c.Name != "" {
		opts = append(opts, client.WithWalkNameFilter(c.Name))
	}
	if c.Delay != nil {
		opts = append(opts, client.WithWalkDelay(time.Duration(*c.Delay)))
	}
	opts = append(opts, client.WithWalkLogger(log.New(new(strings.Builder), "", 0)))
	var inner client.Backoff
	switch c.Backoff {
	case "done":
		inner = client.AlwaysDoneBackoff{}
	case "always":
		inner = client.NewAlwaysRetryBackoff(time.Duration(c.Interval))
	case "retry":
		inner = client.NewRetryBackoff(time.Duration(c.Interval), c.Max)
	case "onerr":
		inner = client.NewRetryBackoffOnErr(time.Duration(c.Interval), c.Max)
	case "scripted":
		inner = &scripted{rnd: rnd, left: 30}
	}
	if inner != nil {
		opts = append(opts, client.WithWalkBackoff(recBackoff{m, inner}))
	}
	rnd.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })

	done := make(chan bool)
	ended := false
	go func() {
		defer close(done)
		r.Safely("Walk", func() { client.Walk(ctx, c.Source, m.visit, m.read, opts...) })
		ended = true
	}()
	// Walks that poll for ever are ended the way a user ends them: the context
	// ends and reads fail from then on.
	tm := time.NewTimer(time.Duration(c.CancelAt))
	select {
	case <-done:
		tm.Stop()
	case <-tm.C:
		m.mu.Lock()
		cancel()
		m.c.Script = nil
		for i := 0; i < 2000; i++ {
			m.c.Script = append(m.c.Script, "err")
		}
		m.mu.Unlock()
		<-done
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if !ended || m.over {
		return
	}
	want := m.want
	if inner == nil && (want == wantErr || want == wantEmpty) {
		want = wantEnd // the default backoff is not ours to watch
	}
	switch want {
	case wantRead:
		m.wrong("C28", "ended-early", "the walk ended although the backoff, the visitor and the window let it go on")
	case wantBatch:
		m.wrong("C27", "batch-not-visited", "the walk ended without visiting %v", ts(m.expect()))
	case wantErr, wantEmpty:
		m.wrong("C28", "backoff-not-asked", "the walk ended on an error or empty batch without asking the backoff")
	}
	// Independent of the single steps: strictly ordered, no repetition, no gap.
	seen := map[string]bool{}
	for i, e := range m.visited {
		if seen[e.InstanceId] {
			m.wrong("C27", "visited-twice", "envelope %s was visited twice", e.InstanceId)
		}
		seen[e.InstanceId] = true
		if i > 0 && e.Timestamp < m.visited[i-1].Timestamp {
			m.wrong("C27", "out-of-order", "envelope at %d visited after %d", e.Timestamp, m.visited[i-1].Timestamp)
		}
	}
	delay := int64(time.Second)
	if c.Delay != nil {
		delay = *c.Delay
	}
	if len(m.visited) > 0 && !m.unpruned {
		last := m.visited[len(m.visited)-1].Timestamp
		from := int64(0)
		if c.Start != nil {
			from = *c.Start
		}
		for _, e := range c.Envs {
			if e.TS >= from && e.TS <= last && e.Arrive <= e.TS+delay && !seen[e.id] && (c.End == nil || e.TS < *c.End) {
				m.wrong("C27", "skipped", "envelope at %d, there since %d, was skipped: the walk went on to %d", e.TS, e.Arrive, last)
				break
			}
		}
	}
	r.Count("reads", m.reads)
	r.Count("visits", m.visits)
	r.Count("envelopes_visited", len(m.visited))
	r.Count("envelopes_held_back", m.heldBack)
	r.Count("backoff_on_err", m.onErr)
	r.Count("backoff_on_empty", m.onEmpty)
	if m.want == wantEnd && c.End != nil && m.start >= *c.End {
		r.Count("ended_by_window", 1)
	}
	r.Eval(vk.J(c), m.reads > 1)
	if m.reads > 2 && m.visits > 1 {
		r.Sample(map[string]interface{}{"config": fmt.Sprintf("start=%v end=%v backoff=%s max=%d", c.Start != nil, c.End != nil, c.Backoff, c.Max), "events": m.log})
	}
}

func walkPart(prop string, n, thorough int) func(*vk.R) {
	return func(r *vk.R) {
		for i := 0; i < r.Scale(n, thorough) && r.Violations() < 20; i++ {
			rnd := r.Rand("walk", i)
			r.Bubble(func() {
				c := genWalk(rnd, time.Now().UnixNano())
				r.Case(c)
				runWalk(r, prop, c, rnd)
			})
		}
	}
}

func c27() vk.Check {
	return vk.Check{
		Rule: "generated walks (start, end, limit, types, filter, delay, backoff; dense, duplicate, late and future timestamps; failing, empty and slow reads) in virtual time, watched event by event by an online model; non-trivial: more than one read",
		Assumptions: []string{
			"each read returns whole timestamps, oldest first",
			"an envelope arrives at most the walk delay after its timestamp",
			"with an end time set, envelopes younger than the delay are taken after an empty batch was waited out (documented by the existing test)",
		},
		Parts: []vk.Part{
			{Name: "walk", Run: walkPart("C27", 2500, 60000)},
			{Name: "walk-real-time", Run: walkRealTime},
		},
	}
}

// walkRealTime walks while another goroutine writes, for the race detector and
// the real clock: nothing may be skipped although writers are late.
func walkRealTime(r *vk.R) {
	for i := 0; i < r.Scale(4, 40); i++ {
		rnd := r.Rand("rt", i)
		var mu sync.Mutex
		var data []*loggregator_v2.Envelope
		n := 200 + rnd.Intn(200)
		stop := make(chan struct{})
		go func() {
			for k := 0; k < n; k++ {
				mu.Lock()
				data = append(data, &loggregator_v2.Envelope{Timestamp: time.Now().UnixNano(), InstanceId: strconv.Itoa(k)})
				sort.SliceStable(data, func(i, j int) bool { return data[i].Timestamp < data[j].Timestamp })
				mu.Unlock()
				time.Sleep(time.Duration(rnd.Intn(1000)) * time.Microsecond)
			}
			close(stop)
		}()
		read := func(ctx context.Context, _ string, start time.Time, _ ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
			mu.Lock()
			defer mu.Unlock()
			var out []*loggregator_v2.Envelope
			for _, e := range data {
				if e.Timestamp >= start.UnixNano() && (len(out) < 7 || out[len(out)-1].Timestamp == e.Timestamp) {
					out = append(out, e)
				}
			}
			return out, nil
		}
		var got []string
		r.Within("Walk", 2*time.Minute, func() {
			client.Walk(context.Background(), "s", func(es []*loggregator_v2.Envelope) bool {
				for _, e := range es {
					got = append(got, e.InstanceId)
				}
				return len(got) < n
			}, read, client.WithWalkDelay(20*time.Millisecond), client.WithWalkBackoff(client.NewAlwaysRetryBackoff(time.Millisecond)))
		})
		<-stop
		for k := 0; k < n; k++ {
			if k >= len(got) || got[k] != strconv.Itoa(k) {
				r.Violate("live-order", "walking while writing: position %d of %d is wrong (got %d envelopes)", k, n, len(got))
				break
			}
		}
		r.Count("live_envelopes", len(got))
		r.Eval(fmt.Sprint("rt", i), true)
	}
}

func c28() vk.Check {
	return vk.Check{
		Rule: "the walks of C27 with a recording backoff around every kind of backoff, plus generated call sequences on the retry backoffs under virtual time; non-trivial: more than one read, or a refused retry",
		Assumptions: []string{
			"the walk ends on a failing read after its context ended",
			"a retry backoff with maximum m refuses at the m-th consecutive failure",
		},
		Parts: []vk.Part{
			{Name: "walk", Run: walkPart("C28", 2500, 60000)},
			{Name: "backoff", Run: backoffs},
		},
	}
}

func backoffs(r *vk.R) {
	for i := 0; i < r.Scale(3000, 40000); i++ {
		rnd := r.Rand("b", i)
		max := rnd.Intn(7)
		interval := time.Duration(rnd.Int63n(int64(time.Minute)))
		kind := []string{"retry", "onerr", "always", "done"}[rnd.Intn(4)]
		ops := make([]string, 0, 40)
		for k := 5 + rnd.Intn(35); k > 0; k-- {
			ops = append(ops, []string{"err", "err", "err", "empty", "empty", "reset"}[rnd.Intn(6)])
		}
		r.Case(map[string]interface{}{"kind": kind, "max": max, "interval": interval, "ops": ops})
		r.Bubble(func() {
			var b client.Backoff
			switch kind {
			case "retry":
				b = client.NewRetryBackoff(interval, max)
			case "onerr":
				b = client.NewRetryBackoffOnErr(interval, max)
			case "always":
				b = client.NewAlwaysRetryBackoff(interval)
			default:
				b = client.AlwaysDoneBackoff{}
			}
			count, refused, granted := 0, 0, 0
			for k, op := range ops {
				t0 := time.Now()
				var got, want bool
				switch op {
				case "reset":
					b.Reset()
					count = 0
					got, want = true, true
				case "err":
					count++
					want = kind == "always" || ((kind == "retry" || kind == "onerr") && count < max)
					got = b.OnErr(readErrs[rnd.Intn(len(readErrs))])
				case "empty":
					switch kind {
					case "always":
						want = true
					case "retry":
						count++
						want = count < max
					}
					got = b.OnEmpty()
				}
				d := time.Since(t0)
				if got != want {
					r.Violate("backoff-count:"+kind, "%s backoff (max %d), step %d of %v: granted=%v, want %v", kind, max, k, ops, got, want)
					return
				}
				if op != "reset" && got && d != interval {
					r.Violate("backoff-interval:"+kind, "%s backoff waited %s, configured %s", kind, d, interval)
				}
				if (op == "reset" || !got) && d > interval {
					r.Violate("backoff-wait:"+kind, "%s backoff waited %s on %s although it does not retry", kind, d, op)
				}
				if op != "reset" {
					if got {
						granted++
					} else {
						refused++
					}
				}
			}
			r.Count("granted", granted)
			r.Count("refused", refused)
			r.Eval(fmt.Sprint(kind, max, interval, ops), refused > 0 && (granted > 0 || kind == "done"))
		})
	}
}
