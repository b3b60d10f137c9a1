// Monitors for internal/promql: C15, C16, C17.
package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"github.com/prometheus/prometheus/pkg/labels"
	prom "github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C15": {
			Rule: "generated envelopes of several sources and generated queries (instant and range, every matcher kind, operators, functions, aggregations); the result is compared with Prometheus's own engine over the samples the envelopes hold; concurrent queries under the race detector; non-trivial: the result is not empty",
			Assumptions: []string{
				"a gauge's metrics have different sanitized names",
				"queries whose reference result depends on the order of series are left out",
				"no samples lie within the second of the query's end",
				"source ids hold no regular-expression syntax",
			},
			Parts: []vk.Part{{Name: "queries", Run: queries}, {Name: "parallel", Run: parallel}},
		},
		"C16": {
			Rule:  "failing, hanging and partial reads in virtual time; generated and mutated query texts, deep nesting, extreme times and steps in a process of their own, compared with Prometheus's parser and a definition of times and steps; non-trivial: something is wrong with the query or a read fails",
			Parts: []vk.Part{{Name: "reads", Run: failingReads}, {Name: "texts", Run: texts}, {Name: "params", Run: params}},
		},
		"C17": {
			Rule:        "generated queries: extracted ids against the ids the evaluation reads, replaced queries against the query rendered with the expected ids, by text-independent evaluation in Prometheus's engine; non-trivial: several ids or an expansion",
			Assumptions: []string{"source ids hold no regular-expression syntax", "every matcher keeps at least one id"},
			Parts:       []vk.Part{{Name: "extract", Run: extract}, {Name: "replace", Run: replace}},
		},
	})
}

var quiet = log.New(ioutil.Discard, "", 0)

const base = int64(1500000000) // s

// ---- what is stored

var names = []string{"cpu", "http.total", "mem/used-by app", "9lives", "_x", "io..wait::all"}
var sane = map[string]string{"cpu": "cpu", "http.total": "http_total", "mem/used-by app": "mem_used_by_app", "9lives": "_lives", "_x": "_x", "io..wait::all": "io__wait__all"}
var saneNames = []string{"cpu", "cpu", "http_total", "mem_used_by_app", "_lives", "_x", "io__wait__all"}
var sources = []string{"src-1", "src-2", "app-guid", "p.mysql", "x"}

// allSources are those of the few queries on very many sources.
var allSources = func() []string {
	l := append([]string{}, sources...)
	for i := 0; i < 25; i++ {
		l = append(l, fmt.Sprint("one-of-many-", i))
	}
	return l
}()

type world struct {
	envs map[string][]*loggregator_v2.Envelope
}

func genTags(rnd *rand.Rand) map[string]string {
	m := map[string]string{}
	pick := func(k string, vs ...string) {
		if rnd.Intn(2) == 0 {
			m[k] = vs[rnd.Intn(len(vs))]
		}
	}
	pick("job", "a", "b", "b-c-d", "")
	pick("c", "d", "e")
	pick("zone", "x", "xy", "x-y", "-")
	pick("dash-ed", "1", "2")
	if rnd.Intn(4) == 0 {
		m["instance_id"] = "from-tag"
	}
	if rnd.Intn(6) == 0 {
		m["source_id"] = sources[rnd.Intn(len(sources))]
	}
	if len(m) == 0 && rnd.Intn(2) == 0 {
		return nil
	}
	return m
}

func genWorld(rnd *rand.Rand) *world {
	w := &world{envs: map[string][]*loggregator_v2.Envelope{}}
	in := sources
	if rnd.Intn(4) == 0 {
		in = allSources
	}
	for i, s := range in {
		if rnd.Intn(10) == 0 {
			continue
		}
		most := 150
		if i >= len(sources) {
			most = 15
		}
		var tagSets []map[string]string
		var insts []string
		for i := 1 + rnd.Intn(5); i > 0; i-- {
			tagSets = append(tagSets, genTags(rnd))
			insts = append(insts, []string{"", "0", "1", "0"}[rnd.Intn(4)])
		}
		ns := names[:1+rnd.Intn(len(names))]
		t := base*1e9 - int64(rnd.Intn(300e3))*1e6
		for i := most/7 + rnd.Intn(most); i > 0; i-- {
			switch rnd.Intn(5) {
			case 0:
			case 1:
				t += int64(rnd.Intn(2e9))
			default:
				t += int64(rnd.Intn(20e9))
			}
			k := rnd.Intn(len(tagSets))
			e := &loggregator_v2.Envelope{SourceId: s, InstanceId: insts[k], Timestamp: t}
			if tagSets[k] != nil {
				e.Tags = map[string]string{}
				for a, b := range tagSets[k] {
					e.Tags[a] = b
				}
			}
			val := float64(rnd.Intn(4000)-1000) / 4
			switch rnd.Intn(7) {
			case 0, 1:
				total := uint64(rnd.Intn(5000))
				if rnd.Intn(60) == 0 {
					total = rnd.Uint64() >> uint(rnd.Intn(2)*rnd.Intn(40))
				}
				e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: ns[rnd.Intn(len(ns))], Total: total, Delta: 7}}
			case 2, 3:
				g := map[string]*loggregator_v2.GaugeValue{}
				for j := 1 + rnd.Intn(3); j > 0; j-- {
					g[ns[rnd.Intn(len(ns))]] = &loggregator_v2.GaugeValue{Unit: "u", Value: val + float64(j)}
				}
				if rnd.Intn(10) == 0 {
					g[ns[0]] = &loggregator_v2.GaugeValue{Value: math.NaN()}
				}
				e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: g}}
			case 4:
				st := rnd.Int63n(1e15)
				if rnd.Intn(2) == 0 {
					// Nanoseconds since 1970, as real ones.
					st = t - rnd.Int63n(1e9)
				}
				took := int64(rnd.Intn(1e6))
				switch rnd.Intn(8) {
				case 0:
					took = rnd.Int63n(1e12) // minutes
				case 1:
					took = -took
				}
				e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: ns[rnd.Intn(len(ns))], Start: st, Stop: st + took}}
			case 5:
				e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(ns[0])}}
			case 6:
				e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: ns[0], Body: "b"}}
			}
			w.envs[s] = append(w.envs[s], e)
		}
	}
	return w
}

// latest is a query time whose second holds no sample.
func (w *world) freeSecond(t int64) bool {
	for _, es := range w.envs {
		for _, e := range es {
			if floorSec(e.Timestamp) == t {
				return false
			}
		}
	}
	return true
}

func floorSec(ns int64) int64 {
	s := ns / 1e9
	if ns%1e9 < 0 {
		s--
	}
	return s
}

// queryTime picks a time (ms) near the samples with an empty second.
func (w *world) queryTime(rnd *rand.Rand) int64 {
	for {
		t := base + int64(rnd.Intn(1800)) - 200
		if w.freeSecond(t) {
			return t*1000 + int64(rnd.Intn(3))*250
		}
	}
}

// reader is the cache as PromQL sees it.
type reader struct {
	w     *world
	mu    sync.Mutex
	read  map[string]int
	reads int
	odd   string
	hook  func(ctx context.Context, src string) (bool, error)
}

func (r *reader) seen() (map[string]int, int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := map[string]int{}
	for k, v := range r.read {
		m[k] = v
	}
	return m, r.reads
}

func (r *reader) oddity() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.odd
}

func (r *reader) Read(ctx context.Context, in *rpc.ReadRequest) (*rpc.ReadResponse, error) {
	r.mu.Lock()
	if r.read == nil {
		r.read = map[string]int{}
	}
	r.read[in.SourceId]++
	r.reads++
	all := r.reads%3 == 0 // as a Log Cache that does not know of types
	if _, ok := ctx.Deadline(); !ok {
		r.odd = "a read without a time limit"
	}
	r.mu.Unlock()
	b := &loggregator_v2.EnvelopeBatch{}
	for _, e := range r.w.envs[in.SourceId] {
		if e.Timestamp < in.StartTime || (in.EndTime != 0 && e.Timestamp >= in.EndTime) {
			continue
		}
		if len(in.EnvelopeTypes) > 0 && !all {
			want := false
			for _, t := range in.EnvelopeTypes {
				if t == kind(e) || t == rpc.EnvelopeType_ANY {
					want = true
				}
			}
			if !want {
				continue
			}
		}
		b.Batch = append(b.Batch, proto.Clone(e).(*loggregator_v2.Envelope))
	}
	if r.hook != nil {
		if partial, err := r.hook(ctx, in.SourceId); err != nil {
			if partial {
				return &rpc.ReadResponse{Envelopes: b}, err
			}
			return nil, err
		}
	}
	return &rpc.ReadResponse{Envelopes: b}, nil
}

func kind(e *loggregator_v2.Envelope) rpc.EnvelopeType {
	switch e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		return rpc.EnvelopeType_LOG
	case *loggregator_v2.Envelope_Counter:
		return rpc.EnvelopeType_COUNTER
	case *loggregator_v2.Envelope_Gauge:
		return rpc.EnvelopeType_GAUGE
	case *loggregator_v2.Envelope_Timer:
		return rpc.EnvelopeType_TIMER
	case *loggregator_v2.Envelope_Event:
		return rpc.EnvelopeType_EVENT
	}
	return -1
}

// ---- the reference

type sample struct {
	t int64 // ms
	v float64
}

type series struct {
	ls  labels.Labels
	pts []sample
	raw []int64
}

// samples lists what a source holds under a metric name, as series.
func (w *world) samples(src, name string) map[string]*series {
	out := map[string]*series{}
	for _, e := range w.envs[src] {
		var v float64
		found := false
		switch m := e.Message.(type) {
		case *loggregator_v2.Envelope_Counter:
			found, v = sane[m.Counter.Name] == name, float64(m.Counter.Total)
		case *loggregator_v2.Envelope_Timer:
			found, v = sane[m.Timer.Name] == name, float64(m.Timer.Stop-m.Timer.Start)
		case *loggregator_v2.Envelope_Gauge:
			for k, g := range m.Gauge.Metrics {
				if sane[k] == name {
					found, v = true, g.Value
				}
			}
		}
		if !found {
			continue
		}
		ls := map[string]string{}
		for k, x := range e.Tags {
			ls[k] = x
		}
		ls["source_id"] = e.SourceId
		if e.InstanceId != "" {
			ls["instance_id"] = e.InstanceId
		}
		key := labelKey(ls)
		s := out[key]
		if s == nil {
			s = &series{}
			for k, x := range ls {
				s.ls = append(s.ls, labels.Label{Name: k, Value: x})
			}
			sort.Slice(s.ls, func(i, j int) bool { return s.ls[i].Name < s.ls[j].Name })
			out[key] = s
		}
		s.pts = append(s.pts, sample{floorSec(e.Timestamp) * 1000, v})
		s.raw = append(s.raw, e.Timestamp)
	}
	return out
}

func labelKey(m map[string]string) string {
	var b strings.Builder
	for _, k := range vk.Sorted(m) {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

// model answers Prometheus's engine from the world.
type model struct {
	w   *world
	rnd *rand.Rand // order of series
}

func (m *model) Querier(_ context.Context, mint, maxt int64) (storage.Querier, error) {
	return &mq{m, maxt}, nil
}

type mq struct {
	m    *model
	maxt int64
}

func (q *mq) LabelValues(string) ([]string, error) { return nil, nil }
func (q *mq) Close() error                         { return nil }

func alternatives(m *labels.Matcher) []string {
	if m.Type == labels.MatchEqual {
		return []string{m.Value}
	}
	return strings.Split(m.Value, "|")
}

func (q *mq) Select(_ *storage.SelectParams, ms ...*labels.Matcher) (storage.SeriesSet, error) {
	name := ""
	for _, m := range ms {
		if m.Name == "__name__" {
			name = m.Value
		}
	}
	set := &seriesSet{i: -1}
	for _, src := range allSources {
		ok := true
		for _, m := range ms {
			if m.Name == "source_id" && !m.Matches(src) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		found := q.m.w.samples(src, name)
		for _, k := range vk.Sorted(found) {
			s := found[k]
			match := true
			for _, m := range ms {
				if m.Name != "__name__" && !m.Matches(s.ls.Get(m.Name)) {
					match = false
				}
			}
			if !match {
				continue
			}
			n := sort.Search(len(s.raw), func(i int) bool { return s.raw[i] >= q.maxt*1e6 })
			if n > 0 {
				set.l = append(set.l, &refSeries{s.ls, s.pts[:n]})
			}
		}
	}
	if q.m.rnd != nil {
		q.m.rnd.Shuffle(len(set.l), func(i, j int) { set.l[i], set.l[j] = set.l[j], set.l[i] })
	}
	return set, nil
}

type seriesSet struct {
	l []*refSeries
	i int
}

func (s *seriesSet) Next() bool         { s.i++; return s.i < len(s.l) }
func (s *seriesSet) At() storage.Series { return s.l[s.i] }
func (s *seriesSet) Err() error         { return nil }

type refSeries struct {
	ls  labels.Labels
	pts []sample
}

func (s *refSeries) Labels() labels.Labels            { return s.ls }
func (s *refSeries) Iterator() storage.SeriesIterator { return &refIter{s.pts, -1} }

type refIter struct {
	pts []sample
	i   int
}

func (it *refIter) Seek(t int64) bool {
	it.i = 0
	for it.i < len(it.pts) && it.pts[it.i].t < t {
		it.i++
	}
	return it.i < len(it.pts)
}
func (it *refIter) Next() bool           { it.i++; return it.i < len(it.pts) }
func (it *refIter) At() (int64, float64) { return it.pts[it.i].t, it.pts[it.i].v }
func (it *refIter) Err() error           { return nil }

type q struct {
	Text             string
	Range            bool
	Start, End, Step int64 // ms
}

func (m *model) eval(x q) (*answer, error) {
	eng := prom.NewEngine(nil, nil, 10, time.Hour)
	var qq prom.Query
	var err error
	if x.Range {
		qq, err = eng.NewRangeQuery(m, x.Text, msTime(x.Start), msTime(x.End), time.Duration(x.Step)*time.Millisecond)
	} else {
		qq, err = eng.NewInstantQuery(m, x.Text, msTime(x.Start))
	}
	if err != nil {
		return nil, err
	}
	res := qq.Exec(context.Background())
	if res.Err != nil {
		return nil, res.Err
	}
	a := &answer{}
	switch v := res.Value.(type) {
	case prom.Scalar:
		a.kind = "scalar"
		a.add(map[string]string{}, sample{v.T, v.V})
	case prom.Vector:
		a.kind = "vector"
		for _, s := range v {
			a.add(s.Metric.Map(), sample{s.T, s.V})
		}
	case prom.Matrix:
		a.kind = "matrix"
		for _, s := range v {
			var ps []sample
			for _, p := range s.Points {
				ps = append(ps, sample{p.T, p.V})
			}
			a.add(s.Metric.Map(), ps...)
		}
	default:
		return nil, fmt.Errorf("a result of type %s", res.Value.Type())
	}
	return a, nil
}

func msTime(ms int64) time.Time { return time.Unix(0, ms*1e6) }

// ---- answers

type answer struct {
	kind string
	keys []string
	pts  map[string][]sample
	dup  bool
}

func (a *answer) add(ls map[string]string, ps ...sample) {
	if a.pts == nil {
		a.pts = map[string][]sample{}
	}
	k := labelKey(ls)
	if _, ok := a.pts[k]; ok {
		a.dup = true
	}
	a.keys = append(a.keys, k)
	a.pts[k] = ps
}

func parseMs(s string) int64 {
	var sec, ms int64
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if _, err := fmt.Sscanf(s, "%d.%03d", &sec, &ms); err != nil || !strings.Contains(s, ".") || len(s)-strings.Index(s, ".") != 4 {
		return math.MinInt64
	}
	if neg {
		return -sec*1000 - ms
	}
	return sec*1000 + ms
}

func fromInstant(r *rpc.PromQL_InstantQueryResult) *answer {
	a := &answer{}
	switch x := r.GetResult().(type) {
	case *rpc.PromQL_InstantQueryResult_Scalar:
		a.kind = "scalar"
		a.add(nil, sample{parseMs(x.Scalar.GetTime()), x.Scalar.GetValue()})
	case *rpc.PromQL_InstantQueryResult_Vector:
		a.kind = "vector"
		for _, s := range x.Vector.GetSamples() {
			a.add(s.GetMetric(), sample{parseMs(s.GetPoint().GetTime()), s.GetPoint().GetValue()})
		}
	case *rpc.PromQL_InstantQueryResult_Matrix:
		a.kind = "matrix"
		a.fromMatrix(x.Matrix)
	}
	return a
}

func (a *answer) fromMatrix(m *rpc.PromQL_Matrix) {
	for _, s := range m.GetSeries() {
		var ps []sample
		for _, p := range s.GetPoints() {
			ps = append(ps, sample{parseMs(p.GetTime()), p.GetValue()})
		}
		a.add(s.GetMetric(), ps...)
	}
}

func fromRange(r *rpc.PromQL_RangeQueryResult) *answer {
	a := &answer{}
	if x, ok := r.GetResult().(*rpc.PromQL_RangeQueryResult_Matrix); ok {
		a.kind = "matrix"
		a.fromMatrix(x.Matrix)
	}
	return a
}

func close2(a, b float64) bool {
	if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))+1e-12
}

// diff says how two answers differ.
func diff(got, want *answer) string {
	if got.kind != want.kind {
		return fmt.Sprintf("result is a %q, want a %q", got.kind, want.kind)
	}
	if got.dup && !want.dup {
		return "a label set comes twice"
	}
	for _, k := range want.keys {
		w := want.pts[k]
		g, ok := got.pts[k]
		if !ok {
			return fmt.Sprintf("{%s} is missing (want %v)", k, head(w))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("{%s} has %d points, want %d (%v, want %v)", k, len(g), len(w), head(g), head(w))
		}
		for i := range w {
			if g[i].t != w[i].t || !close2(g[i].v, w[i].v) {
				return fmt.Sprintf("{%s} point %d is %v, want %v", k, i, g[i], w[i])
			}
		}
	}
	for _, k := range got.keys {
		if _, ok := want.pts[k]; !ok {
			return fmt.Sprintf("{%s} is too much (%v)", k, head(got.pts[k]))
		}
	}
	return ""
}

func head(l []sample) []sample {
	if len(l) > 6 {
		return l[:6]
	}
	return l
}

// ---- queries

type gen struct {
	rnd  *rand.Rand
	srcs func(ids []string, regex bool) string // renders a positive source matcher
	used map[string]bool
	deep int
	// plain: nothing that depends on how a source matcher is written
	plain bool
}

func defaultSrc(ids []string, regex bool) string {
	if regex {
		return fmt.Sprintf("source_id=~%q", strings.Join(ids, "|"))
	}
	return fmt.Sprintf("source_id=%q", ids[0])
}

func newGen(rnd *rand.Rand) *gen {
	return &gen{rnd: rnd, srcs: defaultSrc, used: map[string]bool{}}
}

func pick(rnd *rand.Rand, l ...string) string { return l[rnd.Intn(len(l))] }

func (g *gen) selector() string {
	rnd := g.rnd
	var ms []string
	if rnd.Intn(3) > 0 {
		id := sources[rnd.Intn(len(sources))]
		g.used[id] = true
		ms = append(ms, g.srcs([]string{id}, false))
	} else {
		var ids []string
		from, n := sources, 1+rnd.Intn(3)
		if rnd.Intn(8) == 0 {
			from, n = allSources, 1+rnd.Intn(len(allSources))
		}
		for _, i := range rnd.Perm(len(from))[:n] {
			ids = append(ids, from[i])
			g.used[from[i]] = true
		}
		ms = append(ms, g.srcs(ids, true))
	}
	for n := rnd.Intn(6) - 3; n > 0; n-- {
		l := pick(rnd, "job", "c", "zone", "instance_id", "missing", "job", "zone")
		switch rnd.Intn(4) {
		case 0:
			ms = append(ms, fmt.Sprintf("%s=%q", l, pick(rnd, "a", "b", "d", "x", "0", "from-tag", "")))
		case 1:
			ms = append(ms, fmt.Sprintf("%s!=%q", l, pick(rnd, "a", "b", "d", "x", "0", "from-tag", "")))
		case 2:
			ms = append(ms, fmt.Sprintf("%s=~%q", l, pick(rnd, ".*", "a|b", "x.*", ".+", "x.?y", "[0-9]|from-tag", "")))
		case 3:
			ms = append(ms, fmt.Sprintf("%s!~%q", l, pick(rnd, "a|b", "x.*", ".+", "x", "[0-9]", "")))
		}
	}
	switch rnd.Intn(12) {
	case 0:
		ms = append(ms, fmt.Sprintf("source_id!=%q", sources[rnd.Intn(len(sources))]))
	case 1:
		ms = append(ms, fmt.Sprintf("source_id!~%q", pick(rnd, "src-.*", "x", ".*-.*")))
	case 2:
		id := sources[rnd.Intn(len(sources))]
		g.used[id] = true
		ms = append(ms, g.srcs([]string{id}, false))
	}
	rnd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	name := pick(rnd, saneNames...)
	if rnd.Intn(8) == 0 {
		ms = append(ms, fmt.Sprintf("__name__=%q", name))
		name = ""
	}
	return name + "{" + strings.Join(ms, ",") + "}"
}

func (g *gen) offset() string {
	if g.rnd.Intn(6) == 0 {
		return " offset " + pick(g.rnd, "30s", "1m", "4m")
	}
	return ""
}

func (g *gen) matrix() string {
	return g.selector() + "[" + pick(g.rnd, "30s", "1m", "90s", "5m", "1h") + "]" + g.offset()
}

func (g *gen) by() string {
	return pick(g.rnd, "", " by (source_id)", " by (job, zone)", " without (zone, instance_id)", " by (missing)", " by ()", " without ()")
}

func (g *gen) scalar() string {
	switch g.rnd.Intn(6) {
	case 0:
		return "time()"
	case 1:
		g.deep++
		if g.deep < 6 {
			return "scalar(" + g.vector() + ")"
		}
	case 2:
		return "-" + pick(g.rnd, "2", "0.5")
	case 3:
		return pick(g.rnd, "Inf", "1e3", "0x10", "017")
	}
	return pick(g.rnd, "0", "1", "2", "100", "0.25")
}

func (g *gen) vector() string {
	g.deep++
	if g.deep > 8 {
		return g.selector() + g.offset()
	}
	rnd := g.rnd
	switch rnd.Intn(16) {
	case 0, 1, 2:
		return g.selector() + g.offset()
	case 3, 4:
		return pick(rnd, "rate", "increase", "delta", "irate", "idelta", "min_over_time", "max_over_time", "sum_over_time", "avg_over_time", "count_over_time", "resets", "changes", "deriv", "stddev_over_time") + "(" + g.matrix() + ")"
	case 5, 6:
		return pick(rnd, "sum", "min", "max", "count") + g.by() + " (" + g.vector() + ")"
	case 7:
		return pick(rnd, "topk", "bottomk") + g.by() + " (" + pick(rnd, "50", "100") + ", " + g.vector() + ")"
	case 8:
		return "(" + g.vector() + ") " + pick(rnd, "+", "-", "*", "/", "%", "^") + " " + g.scalar()
	case 9:
		return g.scalar() + " " + pick(rnd, "+", "-", "*", "/") + " " + g.vector()
	case 10:
		return g.vector() + " " + pick(rnd, "> ", "< ", ">= bool ", "!= ", "< bool ", "> bool ") + g.scalar()
	case 11:
		return "(" + g.vector() + ") " + pick(rnd, "+", "-", "*", "and", "or", "unless", "/") + pick(rnd, "", " on(job)", " ignoring(source_id)", " on(source_id,job)") + " (" + g.vector() + ")"
	case 12:
		// absent's labels depend on how a matcher is written, not on what it
		// means.
		return pick(rnd, "abs", "ceil", "floor", "sort", map[bool]string{false: "absent", true: "ln"}[g.plain], "timestamp", "-", "sqrt", "exp") + "(" + g.vector() + ")"
	case 13:
		return "label_replace(" + g.vector() + `, "new", "$1-x", "` + pick(rnd, "job", "zone", "source_id") + `", "(.).*")`
	case 14:
		return "quantile_over_time(0.5, " + g.matrix() + ")"
	}
	return pick(rnd, "clamp_max", "clamp_min", "round") + "(" + g.vector() + ", 10)"
}

func (g *gen) text(isRange bool) string {
	switch k := g.rnd.Intn(12); {
	case k == 0:
		return g.scalar()
	case k == 1 && !isRange:
		return g.matrix()
	case k == 2:
		return "vector(" + g.scalar() + ")"
	}
	return g.vector()
}

func genQuery(rnd *rand.Rand, w *world, g *gen) q {
	x := q{Range: rnd.Intn(3) == 0}
	if x.Range {
		for {
			a, b := w.queryTime(rnd), w.queryTime(rnd)
			if a > b {
				a, b = b, a
			}
			x.Start, x.End = a, b
			x.Step = []int64{250, 1000, 5000, 15000, 61000, 3600000}[rnd.Intn(6)]
			if (b-a)/x.Step < 400 {
				break
			}
		}
	} else {
		x.Start = w.queryTime(rnd)
	}
	x.Text = g.text(x.Range)
	return x
}

func fmtMs(ms int64) string { return fmt.Sprintf("%d.%03d", ms/1000, ms%1000) }

type registry struct{ *metrics.Registry }

func newQL(rd promql.DataReader, timeout time.Duration) (*promql.PromQL, *counters) {
	m := &counters{Registry: metrics.NewRegistry(quiet)}
	return promql.New(rd, m, quiet, timeout), m
}

// counters keeps the counters by name.
type counters struct {
	*metrics.Registry
	mu sync.Mutex
	m  map[string]*count
}

type count struct {
	metrics.Counter
	mu sync.Mutex
	n  float64
}

func (c *count) Add(f float64) {
	c.mu.Lock()
	c.n += f
	c.mu.Unlock()
	c.Counter.Add(f)
}

func (c *counters) NewCounter(name string, o ...metrics.MetricOption) metrics.Counter {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.m == nil {
		c.m = map[string]*count{}
	}
	x := &count{Counter: c.Registry.NewCounter(name, o...)}
	c.m[name] = x
	return x
}

func (c *counters) get(name string) float64 {
	c.mu.Lock()
	x := c.m[name]
	c.mu.Unlock()
	if x == nil {
		return -1
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.n
}

func ask(ql *promql.PromQL, ctx context.Context, x q) (*answer, error) {
	if x.Range {
		r, err := ql.RangeQuery(ctx, &rpc.PromQL_RangeQueryRequest{Query: x.Text, Start: fmtMs(x.Start), End: fmtMs(x.End), Step: fmtMs(x.Step)})
		if err != nil {
			return nil, err
		}
		return fromRange(r), nil
	}
	r, err := ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: x.Text, Time: fmtMs(x.Start)})
	if err != nil {
		return nil, err
	}
	return fromInstant(r), nil
}

// reference evaluates with several series orders; ok is false when they
// disagree.
func reference(rnd *rand.Rand, w *world, x q) (*answer, error, bool) {
	a, err := (&model{w: w}).eval(x)
	for i := 0; i < 3; i++ {
		b, err2 := (&model{w: w, rnd: rnd}).eval(x)
		if (err == nil) != (err2 == nil) {
			return nil, nil, false
		}
		if err == nil && diff(a, b) != "" {
			return nil, nil, false
		}
	}
	return a, err, true
}

func queries(r *vk.R) {
	worlds := r.Scale(90, 2500)
	for c := 0; c < worlds; c++ {
		rnd := r.Rand("queries", c)
		w := genWorld(rnd)
		for k := 0; k < 40; k++ {
			g := newGen(rnd)
			x := genQuery(rnd, w, g)
			r.Case(map[string]interface{}{"world": c, "query": x})
			want, werr, ok := reference(rnd, w, x)
			if !ok {
				r.Count("order_dependent", 1)
				continue
			}
			rd := &reader{w: w}
			ql, _ := newQL(rd, time.Hour)
			var got *answer
			var err error
			if !r.Safely("query", func() { got, err = ask(ql, context.Background(), x) }) {
				continue
			}
			what := fmt.Sprintf("%+v (world %d)", x, c)
			seen, reads := rd.seen()
			for id := range seen {
				if !g.used[id] {
					r.Violate("reads-other-source", "%s reads source %q", what, id)
				}
			}
			switch {
			case (err == nil) != (werr == nil):
				r.Violate("result:error", "%s: error is %v, Prometheus says %v", what, err, werr)
			case err == nil:
				if d := diff(got, want); d != "" {
					r.Violate("result", "%s: %s", what, d)
				}
			default:
				r.Count("errors", 1)
			}
			n := 0
			if want != nil {
				n = len(want.keys)
				r.Count("series", n)
			}
			r.Count("reads", reads)
			r.Eval(fmt.Sprintf("%d/%d/%s", c, k, x.Text), n > 0)
			if k == 0 && c%20 == 0 {
				r.Sample(map[string]interface{}{"query": x, "series": n})
			}
		}
	}
}

func parallel(r *vk.R) {
	rounds := r.Scale(12, 200)
	for c := 0; c < rounds; c++ {
		rnd := r.Rand("parallel", c)
		w := genWorld(rnd)
		rd := &reader{w: w}
		ql, _ := newQL(rd, time.Hour)
		type job struct {
			x    q
			want *answer
			err  error
		}
		var jobs []job
		for len(jobs) < 48 {
			x := genQuery(rnd, w, newGen(rnd))
			if a, err, ok := reference(rnd, w, x); ok {
				jobs = append(jobs, job{x, a, err})
			}
		}
		r.Case(map[string]interface{}{"round": c})
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range jobs {
					j := jobs[(i+g*6)%len(jobs)]
					got, err := ask(ql, context.Background(), j.x)
					if (err == nil) != (j.err == nil) {
						r.Violate("parallel:error", "%+v: error is %v, Prometheus says %v", j.x, err, j.err)
					} else if err == nil {
						if d := diff(got, j.want); d != "" {
							r.Violate("parallel:result", "%+v: %s", j.x, d)
						}
					}
				}
			}()
		}
		wg.Wait()
		r.Count("parallel_queries", 8*len(jobs))
		r.Eval(fmt.Sprint("parallel", c), true)
	}
}
