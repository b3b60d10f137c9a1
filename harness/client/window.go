package main

import (
	"context"
	"fmt"
	"net/url"
	"strconv"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

func c29() vk.Check {
	return vk.Check{
		Rule: "generated windows (start, width, interval, slow walkers and visitors, parent contexts that end) in virtual time with a recording walker and visitor, and built walkers over generated sources; non-trivial: more than one window, or a source with envelopes on both sides of a bound",
		Assumptions: []string{
			"a walker slower than the interval delays later windows, it does not skip them",
			"envelopes of a built walker's window are older than the default walk delay and its reads succeed",
		},
		Parts: []vk.Part{
			{Name: "window", Run: windows},
			{Name: "walker", Run: walkers},
		},
	}
}

func windows(r *vk.R) {
	for i := 0; i < r.Scale(2500, 40000) && r.Violations() < 20; i++ {
		rnd := r.Rand("w", i)
		type wc struct {
			Start           *int64
			Width, Interval *int64
			Stop            int
			Slow            []int64
			Cancel          int64
			Visit           int64
		}
		c := wc{Stop: 1 + rnd.Intn(12)}
		if rnd.Intn(40) == 0 {
			c.Stop = 13 + rnd.Intn(200)
		}
		if rnd.Intn(2) == 0 {
			s := rnd.Int63n(int64(1e18))
			c.Start = &s
		}
		width, interval := int64(time.Hour), int64(time.Minute)
		if rnd.Intn(4) > 0 {
			width = []int64{1, int64(time.Second), rnd.Int63n(int64(3*time.Hour)) + 1, int64(24 * time.Hour)}[rnd.Intn(4)]
			c.Width = &width
		}
		if rnd.Intn(4) > 0 {
			interval = []int64{1000, int64(time.Second), rnd.Int63n(int64(time.Hour)) + 1000}[rnd.Intn(3)]
			c.Interval = &interval
		}
		slow := rnd.Intn(3) == 0
		for k := 0; k < c.Stop; k++ {
			s := int64(0)
			if slow {
				s = rnd.Int63n(interval * 3 / 2)
			}
			c.Slow = append(c.Slow, s)
		}
		if rnd.Intn(4) == 0 {
			c.Cancel = interval * int64(1+rnd.Intn(5))
		}
		if rnd.Intn(4) == 0 {
			c.Visit = rnd.Int63n(interval)
		}
		r.Case(c)
		r.Bubble(func() {
			t0 := time.Now()
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "mine"))
			defer cancel()
			if c.Cancel > 0 {
				tm := time.AfterFunc(time.Duration(c.Cancel)+1, cancel)
				defer tm.Stop()
			}
			first := t0.Add(-time.Duration(width))
			if c.Start != nil {
				first = time.Unix(0, *c.Start)
			}
			calls, visits := 0, 0
			over := false
			var last []*loggregator_v2.Envelope
			var lastCtx context.Context
			var free time.Time // when the previous round ended
			free = t0
			walker := func(wctx context.Context, start, end time.Time) []*loggregator_v2.Envelope {
				k := calls
				calls++
				if over || calls > visits+1 {
					r.Violate("window-order", "walker call %d after %d visits (stopped=%v)", calls, visits, over)
				}
				ws := first.Add(time.Duration(int64(k) * interval))
				we := ws.Add(time.Duration(width))
				if !start.Equal(ws) || !end.Equal(we) {
					r.Violate("window-bounds", "window %d is [%d,%d), want [%d,%d)", k, start.UnixNano(), end.UnixNano(), ws.UnixNano(), we.UnixNano())
				}
				now := time.Now()
				tick := t0.Add(time.Duration(int64(k+1) * interval))
				busy := false // a round that overran its interval lets ticks merge
				for j := 0; j < k; j++ {
					busy = busy || c.Slow[j]+c.Visit >= interval
				}
				if !busy && !now.Equal(tick) {
					r.Violate("window-time", "window %d was asked %s after the start, want %s", k, now.Sub(t0), tick.Sub(t0))
				}
				if now.Before(tick) {
					r.Violate("window-early", "window %d was asked %s after the start, before its tick at %s", k, now.Sub(t0), tick.Sub(t0))
				}
				if busy && now.Sub(free) > time.Duration(interval) {
					r.Violate("window-late", "window %d was asked %s after the previous round, interval %s", k, now.Sub(free), time.Duration(interval))
				}
				dl, ok := wctx.Deadline()
				if !ok || dl.Sub(now) != time.Duration(interval) {
					r.Violate("window-context", "the walker's context ends in %s (set=%v), interval %s", dl.Sub(now), ok, time.Duration(interval))
				}
				if wctx.Value(ctxKey{}) != "mine" {
					r.Violate("window-context-parent", "the walker's context does not derive from the given one")
				}
				vk.Settle() // a cancellation at this very instant has spread
				if (wctx.Err() != nil) != (ctx.Err() != nil) {
					r.Violate("window-context-parent", "the walker's context is %v, the given one %v", wctx.Err(), ctx.Err())
				}
				lastCtx = wctx
				last = nil
				for n := rnd.Intn(4); n > 0; n-- {
					last = append(last, &loggregator_v2.Envelope{Timestamp: rnd.Int63()})
				}
				if k < len(c.Slow) && c.Slow[k] > 0 {
					time.Sleep(time.Duration(c.Slow[k]))
				}
				return last
			}
			visitor := func(es []*loggregator_v2.Envelope) bool {
				visits++
				if visits != calls || over {
					r.Violate("window-order", "visit %d after %d walks (stopped=%v)", visits, calls, over)
				}
				same := len(es) == len(last)
				for j := 0; same && j < len(es); j++ {
					same = es[j] == last[j]
				}
				if !same {
					r.Violate("window-result", "the visitor was given %v, the walker returned %v", ts(es), ts(last))
				}
				if c.Visit > 0 {
					time.Sleep(time.Duration(c.Visit))
				}
				free = time.Now()
				if visits >= c.Stop {
					over = true
					return false
				}
				return true
			}
			opts := []client.WindowOption{}
			if c.Start != nil {
				opts = append(opts, client.WithWindowStartTime(time.Unix(0, *c.Start)))
			}
			if c.Width != nil {
				opts = append(opts, client.WithWindowWidth(time.Duration(width)))
			}
			if c.Interval != nil {
				opts = append(opts, client.WithWindowInterval(time.Duration(interval)))
			}
			rnd.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			done := make(chan bool)
			go func() {
				defer close(done)
				r.Safely("Window", func() { client.Window(ctx, visitor, walker, opts...) })
			}()
			<-done
			if !over {
				r.Violate("window-ended-early", "Window ended after %d visits, none of which returned false", visits)
			}
			if lastCtx != nil && lastCtx.Err() == nil {
				r.Violate("window-context-leak", "the walker's context was not released when Window ended")
			}
			r.Count("windows", calls)
			r.Eval(vk.J(c), calls > 1)
		})
	}
}

func walkers(r *vk.R) {
	for i := 0; i < r.Scale(1500, 30000) && r.Violations() < 20; i++ {
		rnd := r.Rand("bw", i)
		r.Bubble(func() {
			now := time.Now().UnixNano()
			start := now - rnd.Int63n(int64(time.Hour)) - int64(time.Minute)
			end := start + rnd.Int63n(int64(time.Minute)-int64(2*time.Second))
			var all []*loggregator_v2.Envelope
			t := start - 5
			n := rnd.Intn(300)
			for k := 0; k < n; k++ {
				switch rnd.Intn(5) {
				case 0:
				case 1:
					t++
				case 2:
					t += rnd.Int63n(5)
				default:
					t += rnd.Int63n(2 * (end - start + 10) / int64(n+1))
				}
				if rnd.Intn(40) == 0 && t < end-3 {
					t = end - 3
				}
				all = append(all, &loggregator_v2.Envelope{Timestamp: t, InstanceId: strconv.Itoa(k)})
			}
			var want []*loggregator_v2.Envelope
			both := 0
			for _, e := range all {
				if e.Timestamp >= start && e.Timestamp < end {
					want = append(want, e)
				} else {
					both++
				}
			}
			limit := 1 + rnd.Intn(120)
			reads := 0
			ignoreEnd := rnd.Intn(3) == 0
			id := fmt.Sprintf("app-%d", rnd.Intn(3))
			read := func(ctx context.Context, sid string, st time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
				reads++
				if sid != id {
					r.Violate("walker-source", "read of %q, built for %q", sid, id)
				}
				if ctx.Value(ctxKey{}) != "mine" {
					r.Violate("walker-context", "the read was not given the walker's context")
				}
				q := url.Values{}
				for _, o := range opts {
					o(&url.URL{}, q)
				}
				e, err := strconv.ParseInt(q.Get("end_time"), 10, 64)
				if err != nil || e != end {
					r.Violate("walker-end", "read with end_time %q, window ends at %d", q.Get("end_time"), end)
				}
				if reads > 1000 {
					r.Violate("walker-endless", "1000 reads")
					return nil, errRead
				}
				var out []*loggregator_v2.Envelope
				for _, e := range all {
					if e.Timestamp < st.UnixNano() || (e.Timestamp >= end && !ignoreEnd) {
						continue
					}
					if len(out) >= limit && out[len(out)-1].Timestamp != e.Timestamp {
						break
					}
					out = append(out, e)
				}
				return out, nil
			}
			r.Case(map[string]interface{}{"start": start, "end": end, "timestamps": ts(all), "limit": limit})
			var got []*loggregator_v2.Envelope
			var mu sync.Mutex
			w := client.BuildWalker(id, read)
			// The same walker is used for one window after the other; a window that
			// was handed out stays what it was.
			var kept [][]*loggregator_v2.Envelope
			var wants [][]string
			for k := 0; k < 3; k++ {
				mu.Lock()
				reads = 0
				mu.Unlock()
				if k > 0 {
					start += rnd.Int63n(end - start)
				}
				want = nil
				var ids []string
				for _, e := range all {
					if e.Timestamp >= start && e.Timestamp < end {
						want = append(want, e)
						ids = append(ids, e.InstanceId)
					}
				}
				if !r.Safely("walker", func() {
					got = w(context.WithValue(context.Background(), ctxKey{}, "mine"), time.Unix(0, start), time.Unix(0, end))
				}) {
					return
				}
				kept, wants = append(kept, got), append(wants, ids)
				for n, es := range kept {
					ok := len(es) == len(wants[n])
					for j := 0; ok && j < len(es); j++ {
						ok = es[j].InstanceId == wants[n][j]
					}
					if !ok && n == k {
						r.Violate("walker-result", "window [%d,%d): got %v, want %v", start, end, ts(es), ts(want))
					} else if !ok {
						r.Violate("walker-result", "window %d holds %v after window %d was read, was %v", n, ts(es), k, wants[n])
					}
				}
			}
			r.Count("walker_reads", reads)
			r.Count("walker_envelopes", len(got))
			r.Eval(fmt.Sprint(i), both > 0 && len(want) > 0)
		})
	}
}
