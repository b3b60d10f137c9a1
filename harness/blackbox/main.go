// Monitors for internal/blackbox and cmd/blackbox: C32 and C33.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"google.golang.org/grpc"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C32": {
			Rule: "generated intervals, source ids and query results (errors, other kinds, no series, any number of points with any times) in virtual time; the query is parsed and compared; non-trivial: a result with points, or a failure",
			Assumptions: []string{
				"the window is a whole number of seconds and at least one emission interval long",
				"results are what protobuf can carry (no nil elements) and hold at most one series, as one metric of one source without tags does",
			},
			Parts: []vk.Part{{Name: "calculate", Run: calculate}, {Name: "process", Run: func(r *vk.R) { process(r, "C32") }, Limit: 240 * time.Second}},
		},
		"C33": {
			Rule: "emission loops with generated intervals and send failures in virtual time, each emission checked; generated measurements, uptimes and failures for the measured metrics; the blackbox process against fake servers; non-trivial: an emission was due or suppressed",
			Assumptions: []string{
				"emission intervals divide a day and leave room for five immediate tries; after a send that hangs only the resumption is judged",
			},
			Parts: []vk.Part{{Name: "emit", Run: emit}, {Name: "hanging", Run: hanging}, {Name: "measured", Run: measured}, {Name: "process", Run: func(r *vk.R) { process(r, "C33") }, Limit: 240 * time.Second}},
		},
	})
}

// queryable is a scripted Log Cache.
type queryable struct {
	res    *logcache_v1.PromQL_InstantQueryResult
	err    error
	up     int64
	upErr  error
	calls  []string
	times  []string
	ctxs   []bool
	others int
}

func (q *queryable) PromQL(ctx context.Context, s string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	v := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, v)
	}
	q.calls = append(q.calls, s)
	q.times = append(q.times, v.Get("time"))
	v.Del("time")
	q.others += len(v)
	_, ok := ctx.Deadline()
	q.ctxs = append(q.ctxs, ok)
	return q.res, q.err
}

func (q *queryable) LogCacheVMUptime(context.Context) (int64, error) { return q.up, q.upErr }

var ids = []string{"blackbox", "log-cache-blackbox", "a b", `qu"ote`, `back\slash`, "ü/日本", "{x}", "a'b", "%s", "`tick`", "new\nline"}

func calculate(r *vk.R) {
	r.Bubble(func() {
		for i := 0; i < r.Scale(6000, 200000) && r.Violations() < 20; i++ {
			rnd := r.Rand("c", i)
			time.Sleep(time.Duration(rnd.Int63n(int64(time.Hour))))
			sec := time.Second
			em := []time.Duration{100 * time.Millisecond, 300 * time.Millisecond, 700 * time.Millisecond, time.Millisecond, sec, 3 * sec, 7 * sec, time.Minute, 10 * time.Millisecond, 290 * time.Millisecond, 1500 * time.Millisecond, 2500 * time.Microsecond}[rnd.Intn(12)]
			win := time.Duration(1+rnd.Intn(1200)) * sec
			if rnd.Intn(3) == 0 {
				win = em * time.Duration(1+rnd.Intn(600))
				win = win.Round(sec)
			}
			for win < em || win == 0 {
				win += sec
			}
			rc := blackbox.ReliabilityCalculator{
				SampleInterval: []time.Duration{sec, 5 * sec, time.Minute, 100 * time.Millisecond, 250 * time.Millisecond}[rnd.Intn(5)],
				WindowInterval: win, WindowLag: time.Duration(rnd.Int63n(int64(30 * time.Minute))), EmissionInterval: em,
				SourceId: ids[rnd.Intn(len(ids))], InfoLogger: log.New(io.Discard, "", 0), ErrorLogger: log.New(io.Discard, "", 0),
			}
			if rnd.Intn(3) == 0 {
				rc.WindowLag = time.Duration(rnd.Intn(3)) * rc.SampleInterval
			}
			expected := int64(win / em)
			q := &queryable{}
			points := -1
			kind := rnd.Intn(10)
			switch kind {
			case 0:
				q.err = errors.New("query failed")
				if rnd.Intn(2) == 0 {
					q.res = matrix(rnd, 3)
				}
			case 1:
			case 2:
				q.res = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1", Value: 3}}}
			case 3:
				q.res = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Point: &logcache_v1.PromQL_Point{Time: "1"}}}}}}
			case 4:
				q.res = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
			default:
				points = rnd.Intn(20)
				switch rnd.Intn(3) {
				case 0:
					points = int(expected) + rnd.Intn(3) - 1
				case 1:
					points = rnd.Intn(int(expected) + 1)
				}
				if points > 3000 {
					points = 3000
				}
				q.res = matrix(rnd, points)
			}
			now := time.Now()
			r.Case(map[string]interface{}{"rc": fmt.Sprintf("%+v", rc), "kind": kind, "points": points})
			var got float64
			var err error
			if !r.Safely("Calculate", func() { got, err = rc.Calculate(q) }) {
				continue
			}
			if len(q.calls) != 1 {
				r.Violate("queries", "%d queries", len(q.calls))
				continue
			}
			if s := sameQuery(q.calls[0], rc.SourceId, win); s != "" {
				r.Violate("query", "query %s: %s", q.calls[0], s)
			}
			want := now.Add(-rc.WindowLag).Truncate(rc.SampleInterval)
			if t, ok := parseTime(q.times[0]); !ok || t.Sub(want) > time.Millisecond || want.Sub(t) > time.Millisecond || q.others != 0 {
				r.Violate("query-time", "query time %q, want %d.%03d", q.times[0], want.Unix(), want.Nanosecond()/1e6)
			}
			if points < 0 {
				if err == nil {
					r.Violate("number-for-failure", "a failing query or missing series gives reliability %v (query error %v, result %v)", got, q.err, q.res)
				}
				r.Count("failures", 1)
				r.Eval(fmt.Sprint(i), true)
				continue
			}
			if err != nil {
				r.Violate("refused", "%d points give error %v", points, err)
				continue
			}
			if w := float64(points) / float64(expected); math.Abs(got-w) > 1e-12*math.Abs(w) {
				r.Violate("reliability", "%d points in a window of %s with one every %s give %v, want %v", points, win, em, got, w)
			}
			r.Count("points", points)
			r.Eval(fmt.Sprint(i), points > 0)
			if i < 40 {
				r.Sample(map[string]interface{}{"query": q.calls[0], "time": q.times[0], "points": points, "reliability": got})
			}
		}
		r.Finish()
	})
}

func matrix(rnd *rand.Rand, n int) *logcache_v1.PromQL_InstantQueryResult {
	s := &logcache_v1.PromQL_Series{}
	for i := 0; i < n; i++ {
		t := strconv.FormatInt(946684800+int64(i), 10)
		switch rnd.Intn(20) {
		case 0:
			t = ""
		case 1:
			t = "abc"
		case 2:
			t = fmt.Sprintf("%d.%03d", 946684800+i, rnd.Intn(1000))
		}
		s.Points = append(s.Points, &logcache_v1.PromQL_Point{Time: t, Value: rnd.Float64()})
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{s}}}}
}

func sameQuery(s, id string, win time.Duration) string {
	e, err := promql.ParseExpr(s)
	if err != nil {
		return err.Error()
	}
	m, ok := e.(*promql.MatrixSelector)
	if !ok {
		return fmt.Sprintf("a %T", e)
	}
	if m.Range != win || m.Offset != 0 {
		return fmt.Sprintf("window %s offset %s, want %s", m.Range, m.Offset, win)
	}
	want := map[string]string{"__name__": "blackbox_test_metric", "source_id": id}
	for _, l := range m.LabelMatchers {
		if l.Type != labels.MatchEqual || want[l.Name] != l.Value {
			return fmt.Sprintf("matcher %s", l)
		}
		delete(want, l.Name)
	}
	if len(want) > 0 {
		return fmt.Sprintf("lacks matchers %v", want)
	}
	return ""
}

func parseTime(s string) (time.Time, bool) {
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return time.Unix(0, int64(math.Round(f*1000))*1e6), true
	}
	t, err := time.Parse(time.RFC3339Nano, s)
	return t, err == nil
}

// sender is a scripted ingress client.
type sender struct {
	mu    sync.Mutex
	sends []send
	act   func(n int, s send) error
	over  bool
	cut   bool // a send that outlives its context fails
}

type send struct {
	at      time.Time
	req     *logcache_v1.SendRequest
	bounded bool
	ctx     context.Context
}

func (s *sender) Send(ctx context.Context, q *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	s.mu.Lock()
	if s.over {
		s.mu.Unlock()
		runtime.Goexit()
	}
	_, ok := ctx.Deadline()
	x := send{time.Now(), proto.Clone(q).(*logcache_v1.SendRequest), ok, ctx}
	s.sends = append(s.sends, x)
	n := len(s.sends)
	s.mu.Unlock()
	if err := s.act(n, x); err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil && s.cut {
		return nil, err
	}
	return &logcache_v1.SendResponse{}, nil
}

func (s *sender) end() []send {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.over = true
	return append([]send(nil), s.sends...)
}

// capture collects the standard logger's output.
type capture struct {
	mu sync.Mutex
	n  int
	b  bytes.Buffer
}

func (c *capture) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	return len(p), nil
}

func (c *capture) lines() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}

// testEnvelope checks a test metric request and returns its timestamp.
func testEnvelope(q *logcache_v1.SendRequest, id string) (int64, string) {
	b := q.GetEnvelopes().GetBatch()
	if len(b) != 1 {
		return 0, fmt.Sprintf("%d envelopes", len(b))
	}
	e := b[0]
	if e.SourceId != id {
		return 0, fmt.Sprintf("source id %q", e.SourceId)
	}
	ms := e.GetGauge().GetMetrics()
	if _, ok := ms["blackbox_test_metric"]; !ok || len(ms) != 1 {
		return 0, fmt.Sprintf("metrics %v", ms)
	}
	return e.Timestamp, ""
}

func emit(r *vk.R) {
	logs := &capture{}
	log.SetOutput(logs)
	r.Bubble(func() {
		for i := 0; i < r.Scale(400, 8000) && r.Violations() < 20; i++ {
			rnd := r.Rand("e", i)
			iv := []time.Duration{100 * time.Millisecond, 200 * time.Millisecond, time.Second, 2 * time.Second, 5 * time.Second, 15 * time.Second, time.Minute, 250 * time.Millisecond}[rnd.Intn(8)]
			time.Sleep(time.Duration(rnd.Int63n(int64(iv))))
			id := ids[rnd.Intn(len(ids))]
			periods := 3 + rnd.Intn(30)
			var script []int // failures per emission
			for k := 0; k < periods+2; k++ {
				n := 0
				if rnd.Intn(2) == 0 {
					n = rnd.Intn(8)
				}
				script = append(script, n)
			}
			cost := time.Duration(0)
			if rnd.Intn(2) == 0 {
				cost = time.Duration(rnd.Int63n(int64(iv-40*time.Millisecond) / 5))
				if cost > 1800*time.Millisecond {
					cost = 1800 * time.Millisecond // five tries end within the limit of 10 s
				}
			}
			r.Case(map[string]interface{}{"interval": iv.String(), "id": id, "failures": script, "cost": cost.String()})
			s := &sender{cut: true}
			var emissions [][]send
			lineAt := map[int]int{}
			s.act = func(n int, x send) error {
				time.Sleep(cost)
				s.mu.Lock()
				defer s.mu.Unlock()
				// Sends of the same envelope are tries of one emission.
				if k := len(emissions); k > 0 && emissions[k-1][0].req.GetEnvelopes().GetBatch()[0].GetTimestamp() == x.req.GetEnvelopes().GetBatch()[0].GetTimestamp() {
					emissions[k-1] = append(emissions[k-1], x)
				} else {
					lineAt[k] = logs.lines()
					emissions = append(emissions, []send{x})
				}
				k := len(emissions) - 1
				if k < len(script) && len(emissions[k]) <= script[k] {
					return errors.New("send failed")
				}
				return nil
			}
			for k := 0; k < 1; k++ {
				if _, e := testEnvelope(&logcache_v1.SendRequest{}, ""); e == "" {
					r.Fatal("monitor")
				}
			}
			t0 := time.Now()
			go func() { r.Safely("StartEmittingTestMetrics", func() { blackbox.StartEmittingTestMetrics(id, iv, s) }) }()
			time.Sleep(iv*time.Duration(periods) + iv - time.Nanosecond)
			lines := logs.lines()
			s.end()
			time.Sleep(2 * iv)
			if len(emissions) < periods || len(emissions) > periods+1 {
				r.Violate("emissions", "%d emissions in %d intervals of %s", len(emissions), periods, iv)
				continue
			}
			last := int64(0)
			for k, es := range emissions {
				ts, e := testEnvelope(es[0].req, id)
				if e != "" {
					r.Violate("envelope", "emission %d: %s", k, e)
					break
				}
				at := es[0].at
				if d := at.Sub(t0); d > time.Duration(k+1)*iv {
					r.Violate("late", "emission %d came %s after the start, with interval %s", k, d, iv)
				}
				if ts != at.Truncate(iv).UnixNano() {
					r.Violate("timestamp", "emission %d at %d has timestamp %d, the interval %s began at %d", k, at.UnixNano(), ts, iv, at.Truncate(iv).UnixNano())
				}
				if k > 0 && ts-last != int64(iv) {
					r.Violate("skipped", "emission %d has timestamp %d after %d", k, ts, last)
				}
				last = ts
				for _, x := range es[1:] {
					if !proto.Equal(x.req, es[0].req) {
						r.Violate("retry-differs", "a retry sends %v instead of %v", x.req, es[0].req)
					}
				}
				want := script[k] + 1
				if want > 5 {
					want = 5
				}
				if k == len(emissions)-1 && at.Add(time.Duration(want)*(cost+10*time.Millisecond)).After(t0.Add(iv*time.Duration(periods)+iv)) {
					break
				}
				if len(es) != want {
					r.Violate("tries", "emission %d was tried %d times although %d tries failed", k, len(es), script[k])
				}
				next := lines
				if k+1 < len(emissions) {
					next = lineAt[k+1]
				}
				if script[k] >= 5 {
					r.Count("given_up", 1)
					if k+1 < len(emissions) && next == lineAt[k] {
						r.Violate("not-logged", "emission %d failed for good and nothing was logged", k)
					}
				}
				r.Count("tries", len(es))
			}
			r.Count("emissions", len(emissions))
			r.Eval(fmt.Sprint(i), true)
		}
		r.Finish()
	})
}

// hanging: sends that hang must not stop the loop for good.
func hanging(r *vk.R) {
	log.SetOutput(io.Discard)
	r.Bubble(func() {
		for i := 0; i < r.Scale(60, 1000); i++ {
			rnd := r.Rand("h", i)
			iv := []time.Duration{100 * time.Millisecond, time.Second, 15 * time.Second}[rnd.Intn(3)]
			hang := 1 + rnd.Intn(7)
			slow := map[int]time.Duration{}
			if rnd.Intn(2) == 0 {
				// Or sends that succeed, but take longer than the interval.
				hang = 0
				for n := 1 + rnd.Intn(5); n > 0; n-- {
					slow[1+rnd.Intn(12)] = time.Duration(rnd.Int63n(int64(10 * iv)))
				}
			}
			time.Sleep(time.Duration(rnd.Int63n(int64(iv))))
			r.Case(map[string]interface{}{"interval": iv.String(), "hanging sends": hang, "slow sends": slow})
			s := &sender{}
			s.act = func(n int, x send) error {
				time.Sleep(slow[n])
				if n <= hang {
					<-x.ctx.Done()
					return x.ctx.Err()
				}
				return nil
			}
			go func() { r.Safely("StartEmittingTestMetrics", func() { blackbox.StartEmittingTestMetrics("x", iv, s) }) }()
			time.Sleep(10 * time.Minute)
			sends := s.end()
			time.Sleep(2 * iv)
			ok := 0
			last := int64(-1)
			for k, x := range sends {
				ts, e := testEnvelope(x.req, "x")
				if e != "" {
					r.Violate("envelope", "send %d: %s", k, e)
					break
				}
				// A first try is stamped with the boundary it was sent after; a retry like the first.
				if b := x.at.Truncate(iv).UnixNano(); ts != b && (ts != last || hang == 0) {
					r.Violate("timestamp", "send %d at %d is stamped %d, its interval of %s began at %d", k, x.at.UnixNano(), ts, iv, b)
					break
				}
				last = ts
				if time.Since(x.at) < 2*time.Minute {
					ok++
				}
			}
			if ok < int(time.Minute/iv) {
				r.Violate("stopped", "after %d hanging sends only %d sends in the last two minutes (interval %s)", hang, ok, iv)
			}
			r.Eval(fmt.Sprint(i), true)
		}
		r.Finish()
	})
}

func measured(r *vk.R) {
	log.SetOutput(io.Discard)
	r.Bubble(func() {
		for i := 0; i < r.Scale(4000, 80000) && r.Violations() < 20; i++ {
			rnd := r.Rand("m", i)
			time.Sleep(time.Duration(rnd.Int63n(1e9)))
			ms := map[string]float64{}
			for n := rnd.Intn(4); n > 0; n-- {
				ms[[]string{"blackbox.grpc_reliability", "blackbox.http_reliability", "x", ""}[rnd.Intn(4)]] = []float64{0, 1, 0.5, 1.0 / 3, math.NaN(), math.Inf(1), 1.25, -0.5, rnd.Float64()}[rnd.Intn(9)]
			}
			if rnd.Intn(20) == 0 {
				ms = nil
			}
			q := &queryable{up: []int64{-1, 0, 1, 599, 600, 601, 1 << 40, rnd.Int63n(1200)}[rnd.Intn(8)]}
			if rnd.Intn(4) == 0 {
				q.up, q.upErr = -1, errors.New("no uptime")
			}
			var src blackbox.QueryableClient = q
			up := q.up
			if rnd.Intn(8) == 0 {
				src, up = nil, -1
			}
			fail := rnd.Intn(4) == 0
			r.Case(map[string]interface{}{"metrics": fmt.Sprint(ms), "up": q.up, "upErr": fmt.Sprint(q.upErr), "source": src != nil, "fail": fail})
			cost := time.Duration(rnd.Int63n(1800)) * time.Millisecond
			s := &sender{cut: true, act: func(int, send) error {
				time.Sleep(cost)
				if fail {
					return errors.New("send failed")
				}
				return nil
			}}
			if !r.Safely("EmitMeasuredMetrics", func() { blackbox.EmitMeasuredMetrics("src", s, src, ms) }) {
				continue
			}
			want := 1
			if len(ms) == 0 || (up >= 0 && up < 600) {
				want = 0
			}
			r.Eval(fmt.Sprint(i), true)
			if want == 0 {
				r.Count("suppressed", 1)
				if len(s.sends) != 0 {
					r.Violate("not-suppressed", "%d sends with %d metrics and uptime %d", len(s.sends), len(ms), up)
				}
				continue
			}
			r.Count("emitted", 1)
			if len(s.sends) == 0 || (!fail && len(s.sends) != 1) {
				r.Violate("emitted", "%d sends with %d metrics and uptime %d (%v)", len(s.sends), len(ms), up, q.upErr)
				continue
			}
			for _, x := range s.sends {
				b := x.req.GetEnvelopes().GetBatch()
				if len(b) != 1 || b[0].SourceId != "src" || b[0].Timestamp != x.at.UnixNano() {
					r.Violate("envelope", "sent %v at %d", b, x.at.UnixNano())
					continue
				}
				got := b[0].GetGauge().GetMetrics()
				if len(got) != len(ms) {
					r.Violate("values", "sent %v, computed %v", got, ms)
				}
				for k, v := range ms {
					if g, ok := got[k]; !ok || math.Float64bits(g.Value) != math.Float64bits(v) {
						r.Violate("values", "sent %v, computed %v", got, ms)
					}
				}
			}
		}
		r.Finish()
	})
}

func clip(s string) string {
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
