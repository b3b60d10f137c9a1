// Monitors for internal/cache/store: C01, C02, C03, C04.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C01": {
			Rule:        "generated histories of writes (clustered, repeated, neighbouring, negative, extreme timestamps; all kinds) with evictions, then generated reads (window, limit, order, types, name filter), each compared with a list model and repeated; non-trivial: the window, a filter or the limit cuts something off",
			Assumptions: []string{"limits are at least 1, as the read service sees to"},
			Parts:       []vk.Part{{Name: "reads", Run: reads}, {Name: "big", Run: bigReads}},
		},
		"C02": {
			Rule:  "generated histories of writes and prunes over several sources in virtual time; after every step the whole contents are compared with those before it; the memory consultant over generated memory figures; non-trivial: something was evicted",
			Parts: []vk.Part{{Name: "histories", Run: func(r *vk.R) { histories(r, "C02") }}, {Name: "many", Run: func(r *vk.R) { many(r, "C02") }}, {Name: "consultant", Run: consultant}},
		},
		"C03": {
			Rule:  "the same histories, also with writes, reads and prunes in parallel bursts; at every quiescent point meta and counters are compared with the contents; non-trivial: something was evicted",
			Parts: []vk.Part{{Name: "histories", Run: func(r *vk.R) { histories(r, "C03") }}, {Name: "many", Run: func(r *vk.R) { many(r, "C03") }}, {Name: "bursts", Run: func(r *vk.R) { concurrent(r, "C03") }}},
		},
		"C04": {
			Rule:  "goroutines write, read and ask for meta in bursts that coincide with prunes (virtual time, race detector); reads are checked against the recorded calls, the final state for conservation; non-trivial: a prune evicted during the burst",
			Parts: []vk.Part{{Name: "bursts", Run: func(r *vk.R) { concurrent(r, "C04") }}, {Name: "emptying", Run: emptying}},
		},
	})
}

// spyMC is a memory consultant that does as it is told.
type spyMC struct {
	mu   sync.Mutex
	next func(count int64) int
}

func (m *spyMC) GetQuantityToPrune(c int64) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.next == nil {
		return 0
	}
	return m.next(c)
}
func (m *spyMC) SetMemoryReporter(metrics.Gauge) {}
func (m *spyMC) set(f func(int64) int) {
	m.mu.Lock()
	m.next = f
	m.mu.Unlock()
}

// once makes exactly the next prune remove n.
func (m *spyMC) once(n int) {
	done := false
	m.set(func(int64) int {
		if done {
			return 0
		}
		done = true
		return n
	})
}

var (
	minT = time.Unix(0, math.MinInt64)
	maxT = time.Unix(0, math.MaxInt64)
)

// stamps generates timestamps around a few points.
type stamps struct {
	rnd  *rand.Rand
	mode int
	base int64
	used []int64
}

func newStamps(rnd *rand.Rand) *stamps {
	s := &stamps{rnd: rnd, mode: rnd.Intn(6)}
	switch rnd.Intn(5) {
	case 0:
	case 1:
		s.base = -int64(rnd.Intn(20))
	case 2:
		s.base = time.Now().UnixNano()
	case 3:
		s.base = math.MinInt64
	default:
		s.base = math.MaxInt64 - 1<<20
	}
	return s
}

func (s *stamps) next() int64 {
	r := s.rnd
	t := s.base
	switch s.mode {
	case 0: // increasing, a little apart
		s.base += int64(r.Intn(3))
	case 1: // a handful of neighbouring nanoseconds
		t += int64(r.Intn(6))
	case 2: // spread
		t += r.Int63n(1 << 19)
	case 3: // anything
		t = r.Int63() - r.Int63()
	case 4: // repeats and neighbours
		if len(s.used) > 0 && r.Intn(4) > 0 {
			t = s.used[r.Intn(len(s.used))] + int64(r.Intn(3))
		} else {
			t += r.Int63n(1000)
		}
	default: // decreasing now and then
		s.base += int64(r.Intn(5))
		t = s.base
		if r.Intn(3) == 0 {
			t -= int64(r.Intn(8))
		}
	}
	if t == math.MaxInt64 {
		t--
	}
	if t < s.base && s.base == math.MinInt64 {
		t = math.MinInt64
	}
	s.used = append(s.used, t)
	return t
}

// item is an envelope in the model.
type item struct {
	id   int
	ts   int64
	e    *loggregator_v2.Envelope
	snap string
}

func ids(es []*item) string {
	var b strings.Builder
	for i, x := range es {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 60 {
			fmt.Fprintf(&b, "… (%d)", len(es))
			break
		}
		fmt.Fprintf(&b, "%d@%d", x.id, x.ts)
	}
	return b.String()
}

func got(es []*loggregator_v2.Envelope) string {
	var b strings.Builder
	for i, e := range es {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 60 {
			fmt.Fprintf(&b, "… (%d)", len(es))
			break
		}
		fmt.Fprintf(&b, "%s@%d", e.GetInstanceId(), e.GetTimestamp())
	}
	return b.String()
}

var names = []string{"cpu", "memory", "disk", "http", "requests", "cpu_total", ""}

// metric envelopes have names from a small pool so that name filters matter.
func mk(rnd *rand.Rand, src string, id int, ts int64) *loggregator_v2.Envelope {
	e := env.Any(rnd)
	switch m := e.Message.(type) {
	case *loggregator_v2.Envelope_Counter:
		if m.Counter != nil {
			m.Counter.Name = names[rnd.Intn(len(names))]
		}
	case *loggregator_v2.Envelope_Timer:
		if m.Timer != nil {
			m.Timer.Name = names[rnd.Intn(len(names))]
		}
	case *loggregator_v2.Envelope_Gauge:
		if m.Gauge != nil {
			m.Gauge.Metrics = map[string]*loggregator_v2.GaugeValue{}
			for k := rnd.Intn(4); k > 0; k-- {
				m.Gauge.Metrics[names[rnd.Intn(len(names))]] = &loggregator_v2.GaugeValue{Unit: "u", Value: float64(rnd.Intn(9))}
			}
			if rnd.Intn(15) == 0 {
				for k := rnd.Intn(80); k > 0; k-- {
					m.Gauge.Metrics[fmt.Sprint(names[rnd.Intn(len(names))], k)] = &loggregator_v2.GaugeValue{Unit: "u", Value: float64(k)}
				}
			}
		}
	}
	e.SourceId = src
	e.InstanceId = fmt.Sprint(id)
	e.Timestamp = ts
	return e
}

func kind(e *loggregator_v2.Envelope) logcache_v1.EnvelopeType {
	switch {
	case e.GetLog() != nil:
		return logcache_v1.EnvelopeType_LOG
	case e.GetCounter() != nil:
		return logcache_v1.EnvelopeType_COUNTER
	case e.GetGauge() != nil:
		return logcache_v1.EnvelopeType_GAUGE
	case e.GetTimer() != nil:
		return logcache_v1.EnvelopeType_TIMER
	case e.GetEvent() != nil:
		return logcache_v1.EnvelopeType_EVENT
	}
	return -1
}

// narrow is the envelope as a read with the name filter shows it.
func narrow(e *loggregator_v2.Envelope, f *regexp.Regexp) (string, bool) {
	if f == nil {
		return e.String(), true
	}
	switch {
	case e.GetCounter() != nil:
		return e.String(), f.MatchString(e.GetCounter().GetName())
	case e.GetTimer() != nil:
		return e.String(), f.MatchString(e.GetTimer().GetName())
	case e.GetGauge() != nil:
		c := *e
		m := map[string]*loggregator_v2.GaugeValue{}
		for k, v := range e.GetGauge().GetMetrics() {
			if f.MatchString(k) {
				m[k] = v
			}
		}
		c.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: m}}
		return c.String(), len(m) > 0
	}
	return "", false
}

// query is one read.
type query struct {
	Source     string
	Start, End int64
	Types      []logcache_v1.EnvelopeType
	Name       string
	Limit      int
	Desc       bool
}

var patterns = []string{"", "", "", "cpu", "^cpu$", "e", ".*", "^$", "nothing", "cpu|disk"}

func genQuery(rnd *rand.Rand, src string, items []*item) *query {
	q := &query{Source: src, Start: math.MinInt64, End: math.MaxInt64, Limit: 1 + rnd.Intn(12), Desc: rnd.Intn(2) == 0}
	at := func() int64 {
		if len(items) == 0 || rnd.Intn(12) == 0 {
			return rnd.Int63() - rnd.Int63()
		}
		return items[rnd.Intn(len(items))].ts + int64(rnd.Intn(3)-1)
	}
	switch rnd.Intn(8) {
	case 0:
	case 1:
		q.Start = at()
	case 2:
		q.End = at()
	default:
		q.Start, q.End = at(), at()
		if q.Start > q.End && rnd.Intn(8) > 0 {
			q.Start, q.End = q.End, q.Start
		}
	}
	switch rnd.Intn(6) {
	case 0:
		q.Limit = 1 << 20
	case 1:
		q.Limit = 1
	case 2:
		if len(items) > 0 {
			q.Limit = 1 + rnd.Intn(len(items))
		}
	}
	types := rnd.Intn(5) - 2
	if rnd.Intn(8) == 0 {
		types = rnd.Intn(9)
	}
	for n := types; n > 0; n-- {
		t := logcache_v1.EnvelopeType(rnd.Intn(6))
		if rnd.Intn(15) == 0 {
			t = 77
		}
		q.Types = append(q.Types, t)
	}
	q.Name = patterns[rnd.Intn(len(patterns))]
	return q
}

// want lists what the read must return, as groups of equal timestamp.
func want(items []*item, q *query) (out []*item, snaps map[int]string, cut bool) {
	var f *regexp.Regexp
	if q.Name != "" {
		f = regexp.MustCompile(q.Name)
	}
	snaps = map[int]string{}
	var sel []*item
	for _, x := range items {
		if x.ts < q.Start || x.ts >= q.End {
			cut = true
			continue
		}
		ok := len(q.Types) == 0
		for _, t := range q.Types {
			if t == logcache_v1.EnvelopeType_ANY || t == kind(x.e) {
				ok = true
			}
		}
		s, named := narrow(x.e, f)
		if !ok || !named {
			cut = true
			continue
		}
		snaps[x.id] = s
		sel = append(sel, x)
	}
	sort.SliceStable(sel, func(i, j int) bool {
		if q.Desc {
			return sel[i].ts > sel[j].ts
		}
		return sel[i].ts < sel[j].ts
	})
	for i, x := range sel {
		if i >= q.Limit && x.ts != sel[q.Limit-1].ts {
			cut = true
			break
		}
		out = append(out, x)
	}
	return
}

func get(s *store.Store, q *query) []*loggregator_v2.Envelope {
	var f *regexp.Regexp
	if q.Name != "" {
		f = regexp.MustCompile(q.Name)
	}
	return s.Get(q.Source, time.Unix(0, q.Start), time.Unix(0, q.End), q.Types, f, q.Limit, q.Desc)
}

// compare reports how a read's answer differs from the expected one.
func compare(es []*loggregator_v2.Envelope, exp []*item, snaps map[int]string) (sig, msg string) {
	d := fmt.Sprintf("got  %s\nwant %s", got(es), ids(exp))
	seen := map[string]bool{}
	for i, e := range es {
		if seen[e.GetInstanceId()] {
			return "read:twice", "an envelope is returned twice\n" + d
		}
		seen[e.GetInstanceId()] = true
		if i < len(exp) && e.GetTimestamp() != exp[i].ts {
			return "read:selection", d
		}
	}
	if len(es) != len(exp) {
		return "read:selection", d
	}
	for _, x := range exp {
		if !seen[fmt.Sprint(x.id)] {
			return "read:selection", fmt.Sprintf("%d is missing\n%s", x.id, d)
		}
	}
	for _, e := range es {
		var id int
		fmt.Sscan(e.GetInstanceId(), &id)
		if snaps[id] != e.String() {
			return "read:content", fmt.Sprintf("got  %s\nwant %s", e, snaps[id])
		}
	}
	return "", ""
}

func newStore(max int) (*store.Store, *spyMC, *testhelpers.SpyMetricsRegistry) {
	mc := &spyMC{}
	sm := testhelpers.NewMetricsRegistry()
	return store.NewStore(max, mc, sm), mc, sm
}

// sync brings a model's source in line with the store after an eviction; what
// went must be among the oldest.
func contents(s *store.Store, src string) map[string]bool {
	out := map[string]bool{}
	for _, e := range s.Get(src, minT, maxT, nil, nil, 1<<30, false) {
		out[e.GetInstanceId()] = true
	}
	return out
}

// alike are source ids that are easily taken for one another.
var alike = func() []string {
	long := strings.Repeat("5b0f7a3c-", 40)
	return []string{"s0", "S0", "s0 ", "s00", "", long + "a", long + "b", "a" + long, "s0/1", "s0\x00", "\u00e9", "e\u0301"}
}()

func reads(r *vk.R) {
	n := r.Scale(40, 1200)
	r.Bubble(func() {
		for c := 0; c < n; c++ {
			rnd := r.Rand("reads", c)
			max := 1 << 30
			if c%3 == 0 {
				max = 3 + rnd.Intn(40)
			}
			s, mc, _ := newStore(max)
			for k := 0; k < 12; k++ {
				src := alike[k]
				st := newStamps(rnd)
				var items []*item
				cnt := rnd.Intn(60)
				if rnd.Intn(8) == 0 {
					cnt = rnd.Intn(4)
				}
				for i := 0; i < cnt; i++ {
					e := mk(rnd, src, i, st.next())
					s.Put(e, src)
					items = append(items, &item{i, e.Timestamp, e, e.String()})
				}
				if k == 6 && c%2 == 0 {
					mc.once(rnd.Intn(80))
					time.Sleep(time.Second)
					vk.Settle()
				}
				// What evictions left is C02's business.
				kept := items
				if max < 1<<30 || k >= 6 {
					in := contents(s, src)
					kept = nil
					for _, x := range items {
						if in[fmt.Sprint(x.id)] {
							kept = append(kept, x)
						}
					}
				}
				for j := 0; j < 40; j++ {
					q := genQuery(rnd, src, kept)
					exp, snaps, cut := want(kept, q)
					r.Case(map[string]interface{}{"query": q, "stored": ids(kept)})
					var es []*loggregator_v2.Envelope
					if !r.Safely("Get", func() { es = get(s, q) }) {
						continue
					}
					r.Eval(fmt.Sprintf("%d/%d/%d/%d", c, k, j, len(exp)), cut && len(exp) > 0)
					r.Count("envelopes", len(es))
					if sig, msg := compare(es, exp, snaps); sig != "" {
						r.Violate(sig, "%s of %s\n%s", vk.J(q), ids(kept), msg)
						continue
					}
					if j%8 == 0 {
						r.Sample(map[string]interface{}{"query": q, "stored": len(kept), "returned": len(es)})
						again := get(s, q)
						if got(again) != got(es) {
							r.Violate("read:unstable", "%s: %s, then %s", vk.J(q), got(es), got(again))
						}
					}
				}
				for _, x := range items {
					if x.e.String() != x.snap {
						r.Violate("read:modifies", "envelope %s became %s", x.snap, x.e)
						break
					}
				}
			}
			if es := s.Get("unknown", minT, maxT, nil, nil, 10, false); len(es) != 0 {
				r.Violate("read:unknown", "unknown source returns %s", got(es))
			}
		}
		r.Finish()
	})
}

// bigReads has many envelopes on one timestamp and its neighbours.
func bigReads(r *vk.R) {
	r.Bubble(func() {
		for c, n := range []int{4100, 9000, r.Scale(9000, 60000)} {
			rnd := r.Rand("big", c)
			s, _, _ := newStore(1 << 30)
			base := int64(rnd.Intn(100))
			var items []*item
			for i := 0; i < n; i++ {
				ts := base
				if rnd.Intn(20) == 0 {
					ts += int64(rnd.Intn(5000))
				}
				e := &loggregator_v2.Envelope{SourceId: "s", InstanceId: fmt.Sprint(i), Timestamp: ts}
				s.Put(e, "s")
				items = append(items, &item{i, ts, e, ""})
			}
			for j := 0; j < 12; j++ {
				q := genQuery(rnd, "s", items)
				q.Types, q.Name = nil, ""
				exp, snaps, cut := want(items, q)
				r.Case(map[string]interface{}{"query": q, "stored": n})
				es := get(s, q)
				r.Eval(fmt.Sprintf("big/%d/%d", c, j), cut)
				if sig, msg := compare(es, exp, snaps); sig != "" {
					r.Violate(sig, "%s of %d envelopes at %d and above\n%s", vk.J(q), n, base, msg)
				}
			}
			if m := s.Meta()["s"]; m.Count != int64(n) {
				r.Violate("read:count", "%d envelopes written, meta says %d", n, m.Count)
			}
		}
		r.Finish()
	})
}

// state is the contents of a store as reads show them.
type state map[string]map[int]int64

func observe(s *store.Store, srcs []string) (state, int) {
	out, n := state{}, 0
	for _, src := range srcs {
		es := s.Get(src, minT, maxT, nil, nil, 1<<30, false)
		n += len(es)
		if len(es) == 0 {
			continue
		}
		m := map[int]int64{}
		for _, e := range es {
			var id int
			fmt.Sscan(e.GetInstanceId(), &id)
			m[id] = e.GetTimestamp()
		}
		out[src] = m
	}
	return out, n
}

// gone lists what is in a but not in b, and news what is in b but not in a.
func diff(a, b state) (gone, news []string, goneTS []int64) {
	for src, m := range a {
		for id, ts := range m {
			if _, ok := b[src][id]; !ok {
				gone = append(gone, fmt.Sprintf("%s/%d@%d", src, id, ts))
				goneTS = append(goneTS, ts)
			}
		}
	}
	for src, m := range b {
		for id, ts := range m {
			if _, ok := a[src][id]; !ok {
				news = append(news, fmt.Sprintf("%s/%d@%d", src, id, ts))
			}
		}
	}
	sort.Strings(gone)
	sort.Slice(goneTS, func(i, j int) bool { return goneTS[i] < goneTS[j] })
	return
}

func oldest(a state, n int, only string) []int64 {
	var ts []int64
	for src, m := range a {
		if only == "" || src == only {
			for _, t := range m {
				ts = append(ts, t)
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	if n < len(ts) {
		ts = ts[:n]
	}
	return ts
}

func sameTS(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ledger is what the counters and the meta information must say.
type ledger struct {
	ingress, egress, expired float64
	perSource                map[string]int64
	sizeKnown                bool
}

func (l *ledger) check(r *vk.R, s *store.Store, sm *testhelpers.SpyMetricsRegistry, now state, hist func() string) {
	meta := s.Meta()
	total := 0
	for src, m := range now {
		total += len(m)
		mi, ok := meta[src]
		if !ok {
			r.Violate("meta:missing", "source %s holds %d envelopes and has no meta\n%s", src, len(m), hist())
			return
		}
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		for _, ts := range m {
			lo, hi = min(lo, ts), max(hi, ts)
		}
		if mi.Count != int64(len(m)) || mi.Expired != l.perSource[src] || mi.OldestTimestamp != lo || mi.NewestTimestamp != hi {
			r.Violate("meta:wrong", "source %s: meta count %d expired %d oldest %d newest %d, contents %d expired %d oldest %d newest %d\n%s",
				src, mi.Count, mi.Expired, mi.OldestTimestamp, mi.NewestTimestamp, len(m), l.perSource[src], lo, hi, hist())
			return
		}
	}
	for src := range meta {
		if len(now[src]) == 0 {
			r.Violate("meta:empty", "source %s holds nothing and has meta %v\n%s", src, meta[src], hist())
			return
		}
	}
	v := func(n string, tags map[string]string) float64 { return sm.GetMetricValue(n, tags) }
	if g := v("log_cache_ingress", nil); g != l.ingress {
		r.Violate("counter:ingress", "ingress %v after %v writes\n%s", g, l.ingress, hist())
	}
	if g := v("log_cache_egress", nil); g != l.egress {
		r.Violate("counter:egress", "egress %v after reads of %v\n%s", g, l.egress, hist())
	}
	if g := v("log_cache_expired", nil); g != l.expired {
		r.Violate("counter:expired", "expired %v after %v evictions\n%s", g, l.expired, hist())
	}
	if l.sizeKnown {
		if g := v("log_cache_store_size", map[string]string{"unit": "entries"}); g != float64(total) {
			r.Violate("gauge:size", "store size %v with %d envelopes\n%s", g, total, hist())
		}
	}
}

func histories(r *vk.R, prop string) {
	n := r.Scale(120, 2500)
	r.Bubble(func() {
		for c := 0; c < n; c++ {
			rnd := r.Rand("histories", c)
			max := 1 + rnd.Intn(12)
			if rnd.Intn(4) == 0 {
				max = 1000
			}
			s, mc, sm := newStore(max)
			var srcs []string
			var st []*stamps
			for k := 0; k < 1+rnd.Intn(6); k++ {
				srcs = append(srcs, fmt.Sprintf("s%d", k))
				if k > 0 && rnd.Intn(2) == 0 {
					st = append(st, st[0])
				} else {
					st = append(st, newStamps(rnd))
				}
			}
			var log []string
			hist := func() string {
				l := log
				if len(l) > 80 {
					l = l[len(l)-80:]
				}
				return fmt.Sprintf("max %d per source: %s", max, strings.Join(l, ", "))
			}
			r.Case(map[string]interface{}{"case": c, "max": max})
			l := &ledger{perSource: map[string]int64{}}
			prev := state{}
			evicted, ops := 0, 20+rnd.Intn(60)
			bad := r.Violations()
			for i := 0; i < ops && r.Violations() == bad; i++ {
				var now state
				var cnt int
				if rnd.Intn(6) > 0 {
					k := rnd.Intn(len(srcs))
					src := srcs[k]
					e := mk(rnd, src, i, st[k].next())
					log = append(log, fmt.Sprintf("put %s/%d@%d", src, i, e.Timestamp))
					if !r.Safely("Put", func() { s.Put(e, src) }) {
						break
					}
					l.ingress++
					now, cnt = observe(s, srcs)
					gone, news, goneTS := diff(prev, now)
					var expGone []int64
					if len(prev[src]) >= max {
						expGone = oldest(prev, 1, src)
						l.perSource[src]++
						l.expired++
						evicted++
					} else {
						l.sizeKnown = true
					}
					if prop == "C02" {
						if len(news) != 1 || now[src][i] != e.Timestamp {
							r.Violate("put:lost", "writing %s/%d@%d adds %v\n%s", src, i, e.Timestamp, news, hist())
						}
						if !sameTS(goneTS, expGone) {
							r.Violate("put:evicts", "writing to %s (%d of %d) evicts %v, the oldest are %v\n%s", src, len(prev[src]), max, gone, expGone, hist())
						}
						if len(gone) == 1 && !strings.HasPrefix(gone[0], src+"/") {
							r.Violate("put:evicts-other", "writing to %s evicts %v\n%s", src, gone, hist())
						}
						if len(now[src]) > max {
							r.Violate("put:cap", "%s holds %d of %d\n%s", src, len(now[src]), max, hist())
						}
					}
				} else {
					_, total := observe(s, srcs)
					l.egress += float64(total)
					q := rnd.Intn(8)
					switch rnd.Intn(6) {
					case 0:
						q = 0
					case 1:
						q = total
					case 2:
						q = total + rnd.Intn(5)
					case 3:
						if total > 0 {
							q = rnd.Intn(total + 1)
						}
					}
					log = append(log, fmt.Sprintf("prune %d of %d", q, total))
					var told []int64
					mc.set(func(n int64) int {
						told = append(told, n)
						if len(told) > 1 {
							return 0
						}
						return q
					})
					time.Sleep(1100 * time.Millisecond)
					vk.Settle()
					mc.set(nil)
					if len(told) == 0 {
						r.Violate("prune:asleep", "the consultant was not asked for over a second\n%s", hist())
					} else if told[0] != int64(total) {
						r.Violate("prune:told", "the consultant is told of %d envelopes, there are %d\n%s", told[0], total, hist())
					}
					now, cnt = observe(s, srcs)
					gone, news, goneTS := diff(prev, now)
					exp := oldest(prev, q, "")
					if prop == "C02" {
						if len(news) != 0 {
							r.Violate("prune:adds", "a prune adds %v\n%s", news, hist())
						}
						if !sameTS(goneTS, exp) {
							r.Violate("prune:evicts", "prune of %d of %d evicts %d: %v; the oldest are at %v\n%s", q, total, len(gone), gone, exp, hist())
						}
						for src := range s.Meta() {
							if len(now[src]) == 0 {
								r.Violate("prune:source-left", "%s has no envelopes left and is still known\n%s", src, hist())
							}
						}
					}
					if q > 0 {
						l.sizeKnown = true
						period := sm.GetMetricValue("log_cache_cache_period", map[string]string{"unit": "milliseconds"})
						lo, hi := 0.0, 0.0
						if left := oldest(now, 1, ""); len(left) == 1 {
							age := float64(time.Now().UnixNano()) - float64(left[0])
							lo, hi = (age-1.1e9)/1e6-1, age/1e6+1
							if math.Abs(age) > 1<<62 {
								lo, hi = math.Inf(-1), math.Inf(1)
							}
						}
						if prop == "C03" && (period < lo || period > hi) {
							r.Violate("gauge:period", "cache period %v ms after a prune, the oldest envelope left says %v to %v\n%s", period, lo, hi, hist())
						}
					}
					for src, m := range prev {
						if len(now[src]) == 0 {
							delete(l.perSource, src)
						} else {
							l.perSource[src] += int64(len(m) - len(now[src]))
						}
					}
					l.expired += float64(len(gone))
					evicted += len(gone)
				}
				l.egress += float64(cnt)
				if prop == "C03" {
					l.check(r, s, sm, now, hist)
				}
				r.Count("steps", 1)
				prev = now
			}
			r.Count("evicted", evicted)
			r.Eval(fmt.Sprintf("%d/%d/%d", c, max, evicted), evicted > 0)
			if c%40 == 0 {
				r.Sample(map[string]interface{}{"max": max, "sources": len(srcs), "steps": ops, "evicted": evicted})
			}
			mc.set(func(n int64) int { return int(n) })
		}
		r.Finish()
	})
}

type fakeMem struct{ heap, avail, total uint64 }

func (m *fakeMem) Memory() (uint64, uint64, uint64) { return m.heap, m.avail, m.total }

type gauge struct{ v []float64 }

func (g *gauge) Add(float64)   {}
func (g *gauge) Set(f float64) { g.v = append(g.v, f) }

// consultant checks the real memory consultant: nothing at or below the limit,
// above it the share that brings use back to the limit, never more than there
// is.
func consultant(r *vk.R) {
	n := r.Scale(4000, 200000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("consultant", c)
		m := &fakeMem{total: 1 + uint64(rnd.Int63n(1<<uint(1+rnd.Intn(50))))}
		m.heap = uint64(rnd.Int63n(int64(m.total) + 1))
		if rnd.Intn(10) == 0 {
			m.heap = m.total + uint64(rnd.Intn(1000))
		}
		m.avail = uint64(rnd.Int63n(int64(m.total) + 1))
		fill := float64(1 + rnd.Intn(100))
		if rnd.Intn(3) == 0 && m.total >= 100 {
			fill = 50
			m.heap = m.total/2 + uint64(rnd.Intn(3)) - 1
		}
		count := rnd.Int63n(1 << uint(1+rnd.Intn(30)))
		pc := store.NewPruneConsultant(1+rnd.Intn(10), fill, m)
		g := &gauge{}
		if rnd.Intn(5) > 0 {
			pc.SetMemoryReporter(g)
		}
		r.Case(map[string]interface{}{"mem": fmt.Sprint(*m), "fill": fill, "count": count})
		q := pc.GetQuantityToPrune(count)
		use := float64(m.heap) / float64(m.total) * 100
		r.Eval(fmt.Sprintf("%d/%d", c, q), q > 0)
		if q < 0 || int64(q) > count {
			r.Violate("consultant:range", "asks for %d of %d (heap %d of %d, fill %v)", q, count, m.heap, m.total, fill)
		}
		tol := 1 + float64(count)*1e-9
		exp := 0.0
		if use > fill {
			exp = float64(count) * (1 - fill/use)
		}
		if math.Abs(float64(q)-exp) > tol {
			r.Violate("consultant:share", "asks for %d of %d where %v brings use from %v%% back to %v%%", q, count, exp, use, fill)
		}
		if len(g.v) > 0 && math.Abs(g.v[len(g.v)-1]-use) > 1e-6*use+1e-9 {
			r.Violate("consultant:gauge", "reports %v%%, use is %v%%", g.v, use)
		}
	}
}

// many has hundreds of sources and prunes of tens of thousands.
func many(r *vk.R, prop string) {
	r.Bubble(func() {
		for c := 0; c < r.Scale(3, 30); c++ {
			rnd := r.Rand("many", c)
			s, mc, sm := newStore(1 << 20)
			var srcs []string
			var st []*stamps
			for k := 0; k < 150+rnd.Intn(300); k++ {
				srcs = append(srcs, fmt.Sprintf("%08x-%d", rnd.Uint32(), k))
				st = append(st, newStamps(rnd))
			}
			n := 20000 + rnd.Intn(15000)
			for i := 0; i < n; i++ {
				k := rnd.Intn(len(srcs))
				s.Put(&loggregator_v2.Envelope{SourceId: srcs[k], InstanceId: fmt.Sprint(i), Timestamp: st[k].next()}, srcs[k])
			}
			prev, total := observe(s, srcs)
			if total != n {
				r.Violate("many:lost", "%d of %d envelopes are held", total, n)
			}
			expired := 0
			for _, q := range []int{1 + rnd.Intn(3000), 10001 + rnd.Intn(6000), rnd.Intn(4000)} {
				r.Case(map[string]interface{}{"case": c, "sources": len(srcs), "held": total, "prune": q})
				if !r.Safely("prune", func() {
					mc.once(q)
					time.Sleep(1100 * time.Millisecond)
					vk.Settle()
				}) {
					break
				}
				now, left := observe(s, srcs)
				gone, news, goneTS := diff(prev, now)
				if exp := oldest(prev, q, ""); prop == "C02" && (len(news) > 0 || !sameTS(goneTS, exp)) {
					r.Violate("many:evicts", "a prune of %d of %d envelopes on %d sources evicts %d and adds %d; the newest to go is at %v, of the oldest %d it is at %d", q, total, len(srcs), len(gone), len(news), last(goneTS), len(exp), last(exp))
					break
				}
				expired += len(gone)
				if m := sm.GetMetricValue("log_cache_expired", nil); prop == "C03" && m != float64(expired) {
					r.Violate("many:expired", "%v envelopes are counted as expired, %d are", m, expired)
				}
				for src, m := range s.Meta() {
					if prop == "C03" && (m.Count != int64(len(now[src])) || m.Count == 0) {
						r.Violate("many:meta", "%s has %d envelopes, meta says %d", src, len(now[src]), m.Count)
					}
				}
				r.Count("many_evicted", len(gone))
				r.Eval(fmt.Sprint("many", c, "/", q), len(gone) > 0)
				prev, total = now, left
			}
			mc.set(func(n int64) int { return int(n) })
		}
		r.Finish()
	})
}

func last(ts []int64) int64 {
	if len(ts) == 0 {
		return math.MinInt64
	}
	return ts[len(ts)-1]
}
