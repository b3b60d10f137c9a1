// Monitors for internal/promql/data_reader: C18.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql/data_reader"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C18": {
			Rule: "generated stores, windows, page sizes, types, page failures (with and without data), slow pages, cancellations and deadlines in virtual time; the result is compared with the window's contents; concurrent reads on one reader; non-trivial: more than one page, a failure or a cancellation",
			Assumptions: []string{
				"a page holds whole timestamps, as Log Cache's pages do",
				"the window has an end, as PromQL's windows do",
			},
			Parts: []vk.Part{{Name: "histories", Run: histories}, {Name: "concurrent", Run: concurrent}},
		},
	})
}

// scenario is one generated read.
type scenario struct {
	Source     string
	TS         []int64 `json:"-"`
	Kinds      []int   `json:"-"`
	N          int
	Start, End int64
	Limit      int64
	Types      []int32
	Script     []string
	Cost       time.Duration
	Deadline   time.Duration
	envs       []*loggregator_v2.Envelope
}

func envelope(src string, i int, ts int64, kind int) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{SourceId: src, InstanceId: strconv.Itoa(i), Timestamp: ts}
	switch kind {
	case 1:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{}}
	case 2:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{}}
	case 5:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{}}
	}
	return e
}

func kindOf(e *loggregator_v2.Envelope) int32 {
	switch e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		return 1
	case *loggregator_v2.Envelope_Counter:
		return 2
	case *loggregator_v2.Envelope_Gauge:
		return 3
	case *loggregator_v2.Envelope_Timer:
		return 4
	case *loggregator_v2.Envelope_Event:
		return 5
	}
	return 0
}

func gen(rnd *rand.Rand, now int64) *scenario {
	c := &scenario{Source: fmt.Sprintf("src-%d", rnd.Intn(1000))}
	n := rnd.Intn(60)
	if rnd.Intn(10) == 0 {
		n = 300 + rnd.Intn(2000)
	}
	if rnd.Intn(400) == 0 {
		n = 10000 + rnd.Intn(20000)
	}
	c.N = n
	span := int64(1) << uint(rnd.Intn(40))
	base := now - span - rnd.Int63n(1<<uint(10+rnd.Intn(40)))
	if rnd.Intn(4) == 0 {
		base = now - span/2
	}
	for i := 0; i < n; i++ {
		ts := base + rnd.Int63n(span+1)
		if i > 0 && rnd.Intn(5) == 0 {
			ts = c.TS[rnd.Intn(i)] + int64(rnd.Intn(2))
		}
		c.TS = append(c.TS, ts)
	}
	sort.Slice(c.TS, func(i, j int) bool { return c.TS[i] < c.TS[j] })
	for i, ts := range c.TS {
		k := rnd.Intn(6)
		c.Kinds = append(c.Kinds, k)
		c.envs = append(c.envs, envelope(c.Source, i, ts, k))
	}
	c.Start, c.End = base, base+span+1
	switch rnd.Intn(5) {
	case 0:
		c.End = now
	case 1:
		if n > 0 {
			c.Start, c.End = c.TS[rnd.Intn(n)]+int64(rnd.Intn(3)-1), c.TS[rnd.Intn(n)]+int64(rnd.Intn(3)-1)
			if c.Start > c.End {
				c.Start, c.End = c.End, c.Start
			}
		}
	case 2:
		c.Start = base + rnd.Int63n(span+1)
		c.End = c.Start + rnd.Int63n(span+1)
	}
	c.Limit = []int64{1, 2, 3, 7, 20, 100, 1000}[rnd.Intn(7)]
	if n >= 10000 {
		c.Limit = []int64{100, 1000}[rnd.Intn(2)]
	}
	for k := rnd.Intn([]int{1, 3, 7}[rnd.Intn(3)]); k > 0; k-- {
		c.Types = append(c.Types, int32(1+rnd.Intn(5)))
	}
	if rnd.Intn(2) == 0 {
		for k := 1 + rnd.Intn(12); k > 0; k-- {
			c.Script = append(c.Script, []string{"ok", "ok", "err", "err-data", "err-ctx", "err", "err"}[rnd.Intn(7)])
		}
		if rnd.Intn(6) == 0 {
			c.Script = append(c.Script, "cancel", "ok")
		} else if rnd.Intn(5) == 0 {
			c.Script = append(c.Script, "cancel-err")
		}
		if rnd.Intn(4) == 0 {
			for k := 0; k < 40; k++ {
				c.Script = append(c.Script, "err")
			}
		}
	}
	if rnd.Intn(3) == 0 {
		c.Cost = time.Duration(rnd.Int63n(int64(3 * time.Second)))
	}
	if rnd.Intn(4) == 0 {
		c.Deadline = time.Duration(rnd.Int63n(int64(20 * time.Second)))
		if rnd.Intn(3) == 0 {
			// A page that hangs until it is given up
			for k := rnd.Intn(4); k > 0; k-- {
				c.Script = append(c.Script, "ok")
			}
			c.Script = append(c.Script, "hang")
		}
	}
	return c
}

// page is what Log Cache answers.
func (c *scenario) page(start time.Time, opts []client.ReadOption) ([]*loggregator_v2.Envelope, string) {
	q := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, q)
	}
	limit := 100
	end := time.Now().UnixNano()
	if s := q.Get("limit"); s != "" {
		limit, _ = strconv.Atoi(s)
	}
	if s := q.Get("end_time"); s != "" {
		end, _ = strconv.ParseInt(s, 10, 64)
	}
	types := map[int32]bool{}
	for _, t := range q["envelope_types"] {
		types[logcache_v1.EnvelopeType_value[t]] = true
	}
	var es []*loggregator_v2.Envelope
	for _, e := range c.envs {
		if e.Timestamp < start.UnixNano() || e.Timestamp >= end || (len(types) > 0 && !types[0] && !types[kindOf(e)]) {
			continue
		}
		if len(es) >= limit && es[len(es)-1].Timestamp != e.Timestamp {
			break
		}
		es = append(es, e)
	}
	if q.Get("descending") != "" {
		return es, "descending"
	}
	return es, ""
}

var errRead = errors.New("read failed")

func histories(r *vk.R) {
	r.Bubble(func() {
		for i := 0; i < r.Scale(6000, 150000) && r.Violations() < 20; i++ {
			rnd := r.Rand("h", i)
			c := gen(rnd, time.Now().UnixNano())
			r.Case(c)
			one(r, c, i)
			if i < 2 {
				r.Sample(c)
			}
		}
		r.Finish()
	})
}

func one(r *vk.R, c *scenario, i int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Deadline > 0 {
		var cc context.CancelFunc
		ctx, cc = context.WithTimeout(ctx, c.Deadline)
		defer cc()
	}
	t0 := time.Now()
	reads, run, maxRun, fails := 0, 0, 0, 0
	lastFailed := false
	var lastFail time.Time
	ended := false // the context ended before or during the last page
	reader := func(rc context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
		reads++
		if reads > 10000 {
			r.Violate("endless", "10000 pages and no end")
			r.Finish()
		}
		if id != c.Source {
			r.Violate("wrong-source", "read of source %q, not %q", id, c.Source)
		}
		if lastFailed && time.Since(lastFail) < time.Second {
			r.Violate("retry-too-early", "a failed page is tried again after %s", time.Since(lastFail))
		}
		act := "ok"
		if reads-1 < len(c.Script) {
			act = c.Script[reads-1]
		}
		if act == "cancel" || act == "cancel-err" {
			cancel()
		}
		if act == "hang" {
			r.Count("hanging_pages", 1)
			select {
			case <-rc.Done():
			case <-time.After(time.Hour):
				r.Violate("hangs", "a page that hangs is not told that the read's context ended")
			}
		}
		if c.Cost > 0 {
			select {
			case <-time.After(c.Cost):
			case <-rc.Done():
			}
		}
		es, _ := c.page(start, opts)
		var err error
		switch act {
		case "err":
			es, err = nil, errRead
		case "err-data":
			err = errRead
		case "err-ctx":
			es, err = nil, context.DeadlineExceeded
		case "cancel-err":
			es, err = nil, context.Canceled
		}
		if rc.Err() != nil && act != "cancel" {
			es, err = nil, rc.Err()
		}
		ended = ctx.Err() != nil
		lastFailed = err != nil
		if err != nil {
			lastFail = time.Now()
			run++
			fails++
			if run > maxRun {
				maxRun = run
			}
		} else {
			run = 0
		}
		return es, err
	}
	dr := data_reader.NewWalkingDataReader(reader)
	var types []logcache_v1.EnvelopeType
	for _, t := range c.Types {
		types = append(types, logcache_v1.EnvelopeType(t))
	}
	var resp *logcache_v1.ReadResponse
	var err error
	if !r.Safely("Read", func() {
		resp, err = dr.Read(ctx, &logcache_v1.ReadRequest{SourceId: c.Source, StartTime: c.Start, EndTime: c.End, Limit: c.Limit, EnvelopeTypes: types})
	}) {
		return
	}
	ended = ended || ctx.Err() != nil
	r.Count("pages", reads)
	r.Count("failed_pages", fails)
	if maxRun > 5 {
		r.Violate("retries", "a page was tried %d times in a row", maxRun)
	}
	if err != nil {
		r.Count("errors", 1)
		if !ended && maxRun < 5 {
			r.Violate("gave-up", "Read failed with %v although no page failed more than %d times in a row", err, maxRun)
		}
		r.Eval(fmt.Sprint(i), true)
		return
	}
	want := map[string]bool{} // true: must be there
	young := t0.Add(-time.Second).UnixNano()
	n := 0
	for _, e := range c.envs {
		if e.Timestamp < c.Start || e.Timestamp >= c.End {
			continue
		}
		if len(c.Types) > 0 {
			ok := false
			for _, t := range c.Types {
				ok = ok || t == kindOf(e)
			}
			if !ok {
				continue
			}
		}
		want[e.InstanceId] = e.Timestamp < young
		if e.Timestamp < young {
			n++
		}
	}
	got := resp.GetEnvelopes().GetBatch()
	seen := map[string]bool{}
	last := int64(-1 << 63)
	for _, e := range got {
		if _, ok := want[e.InstanceId]; !ok {
			r.Violate("outside", "an envelope outside the window or types was returned: %v", e)
			return
		}
		if seen[e.InstanceId] {
			r.Violate("twice", "envelope %v was returned twice", e)
			return
		}
		seen[e.InstanceId] = true
		if e.Timestamp < last {
			r.Violate("order", "envelope %v is out of order", e)
			return
		}
		last = e.Timestamp
	}
	missing := 0
	for id, must := range want {
		if must && !seen[id] {
			missing++
		}
	}
	if missing > 0 {
		r.Violate("incomplete", "%d of %d envelopes are missing from a result reported as success (%d pages, %d of them failed, up to %d in a row, context: %v)", missing, n, reads, fails, maxRun, ctx.Err())
	}
	if reads > len(got)+fails+2 {
		r.Violate("too-many-reads", "%d pages (%d failed) for %d envelopes", reads, fails, len(got))
	}
	r.Count("envelopes", len(got))
	r.Eval(fmt.Sprint(i), reads > 1)
}

func concurrent(r *vk.R) {
	base := time.Now().Add(-time.Hour).UnixNano()
	stores := map[string]*scenario{}
	for s := 0; s < 8; s++ {
		rnd := r.Rand("s", s)
		c := &scenario{Source: fmt.Sprint("src", s)}
		for i := 0; i < 400; i++ {
			c.envs = append(c.envs, envelope(c.Source, i, base+int64(i/(1+s%3)), rnd.Intn(6)))
		}
		stores[c.Source] = c
	}
	dr := data_reader.NewWalkingDataReader(func(_ context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
		es, _ := stores[id].page(start, opts)
		return append([]*loggregator_v2.Envelope(nil), es...), nil
	})
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < r.Scale(60, 2000); k++ {
				rnd := r.Rand("q", w*100000+k)
				c := stores[fmt.Sprint("src", rnd.Intn(8))]
				start := base + rnd.Int63n(300)
				end := start + rnd.Int63n(200)
				resp, err := dr.Read(context.Background(), &logcache_v1.ReadRequest{SourceId: c.Source, StartTime: start, EndTime: end, Limit: int64(1 + rnd.Intn(50))})
				if err != nil {
					r.Violate("gave-up", "a concurrent read failed: %v", err)
					continue
				}
				var want []string
				for _, e := range c.envs {
					if e.Timestamp >= start && e.Timestamp < end {
						want = append(want, e.InstanceId)
					}
				}
				var got []string
				for _, e := range resp.GetEnvelopes().GetBatch() {
					if e.SourceId != c.Source {
						r.Violate("mixed", "a read of %s returned an envelope of %s", c.Source, e.SourceId)
					}
					got = append(got, e.InstanceId)
				}
				if vk.J(got) != vk.J(want) {
					r.Violate("incomplete", "a concurrent read returned %v, want %v", got, want)
				}
				r.Count("concurrent", 1)
				r.Eval(fmt.Sprint(w, k), true)
			}
		}()
	}
	wg.Wait()
}
