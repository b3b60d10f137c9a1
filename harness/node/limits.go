package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	sigar "github.com/cloudfoundry/gosigar"
	"google.golang.org/grpc"
)

// alone starts a node that is on its own.
func alone(opts ...cache.LogCacheOption) *node {
	x := &node{addr: addresses(nil, 1)[0], met: testhelpers.NewMetricsRegistry()}
	x.lc = cache.New(x.met, quiet, append([]cache.LogCacheOption{cache.WithAddr(x.addr)}, opts...)...)
	x.lc.Start()
	x.connect(grpc.WithInsecure())
	setRanges([]*node{x}, full([]*node{x}, func(int) int { return 0 }, 1))
	return x
}

func (n *node) send(es ...*loggregator_v2.Envelope) error {
	ctx, c := long()
	defer c()
	_, err := n.in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}})
	return err
}

func (n *node) everything(src string) ([]*loggregator_v2.Envelope, error) {
	var l []*loggregator_v2.Envelope
	for start := int64(-1 << 62); ; {
		ctx, c := long()
		resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: src, StartTime: start, EndTime: 1 << 62, Limit: 1000})
		c()
		b := resp.GetEnvelopes().GetBatch()
		if err != nil || len(b) == 0 {
			return l, err
		}
		l = append(l, b...)
		start = b[len(b)-1].Timestamp + 1
	}
}

// perSource asks nodes of generated sizes what is left of too much.
func perSource(r *vk.R) {
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for k := 0; k < r.Scale(24, 300); k++ {
		k := k
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rnd := r.Rand("perSource", k)
			max := 1 + rnd.Intn(400)
			if k%6 == 0 {
				max = 1 + k/6%3
			}
			x := alone(cache.WithMaxPerSource(max), cache.WithMemoryLimit(100))
			defer stop([]*node{x})
			for s := 0; s < 4; s++ {
				src := fmt.Sprintf("s-%d", s)
				n := rnd.Intn(3 * max)
				var all []*loggregator_v2.Envelope
				order := rnd.Perm(n)
				if rnd.Intn(2) == 0 {
					sort.Ints(order)
				}
				for _, i := range order {
					e := env.Any(rnd)
					e.SourceId, e.Timestamp = src, int64(i+1)*1000
					all = append(all, e)
				}
				// What is left after each write depends on the order.
				var left []*loggregator_v2.Envelope
				for _, e := range all {
					if len(left) == max {
						left = left[1:]
					}
					i := sort.Search(len(left), func(i int) bool { return left[i].Timestamp > e.Timestamp })
					left = append(left[:i:i], append([]*loggregator_v2.Envelope{e}, left[i:]...)...)
				}
				for len(all) > 0 {
					m := 1 + rnd.Intn(len(all))
					if err := x.send(all[:m]...); err != nil {
						r.Violate("send-failed", "a plain send fails: %v", err)
					}
					all = all[m:]
				}
				got, err := x.everything(src)
				if err != nil {
					r.Violate("read-failed", "a plain read fails: %v", err)
					return
				}
				r.Eval(fmt.Sprint(k, s, max, n), n > max)
				if m := compare(got, left); m != "" {
					r.Violate("per-source", "%d envelopes of one source sent to a node of at most %d: %s", n, max, m)
					return
				}
				r.Count("sources", 1)
			}
		}()
	}
	wg.Wait()
}

func percent() float64 {
	var m sigar.Mem
	m.Get()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return float64(s.HeapInuse) * 100 / float64(m.Total)
}

func total(n *node) (int64, map[string]*rpc.MetaInfo) {
	ctx, c := long()
	defer c()
	m, err := n.out.Meta(ctx, &rpc.MetaRequest{})
	must(err)
	var t int64
	for _, x := range m.Meta {
		t += x.Count
	}
	return t, m.Meta
}

// memory runs nodes whose share of the memory is far above or below what this
// process uses.
func memory(r *vk.R) {
	debug.SetGCPercent(20)
	var m sigar.Mem
	must(m.Get())
	for k := 0; k < r.Scale(6, 60); k++ {
		rnd := r.Rand("memory", k)
		runtime.GC()
		now := percent()
		limit, over := now*20, false
		if k%2 == 1 {
			limit, over = now/20, true
		}
		x := alone(cache.WithMaxPerSource(100000), cache.WithMemoryLimit(limit))
		all := map[string][]*loggregator_v2.Envelope{}
		n := 0
		for i := 0; i < 20; i++ {
			var b []*loggregator_v2.Envelope
			for j := 0; j < 100; j++ {
				e := env.Any(rnd)
				n++
				e.SourceId, e.Timestamp = fmt.Sprintf("m-%d", rnd.Intn(7)), int64(n)*1e6
				b = append(b, e)
				all[e.SourceId] = append(all[e.SourceId], e)
			}
			if err := x.send(b...); err != nil {
				r.Violate("send-failed", "a plain send fails: %v", err)
			}
		}
		what := fmt.Sprintf("heap %.4f %% of the memory, limit %.4f %%, %d envelopes", now, limit, n)
		r.Eval(fmt.Sprint(k, over), over)
		if over {
			if s := try(func() string {
				if t, _ := total(x); t > int64(n/4) {
					return fmt.Sprintf("%d are still there", t)
				}
				return ""
			}); s != "" {
				r.Violate("not-pruned", "%s: %s", what, s)
			}
			r.Count("nodes that had to prune", 1)
		} else {
			time.Sleep(2 * time.Second)
			if t, _ := total(x); t != int64(n) {
				r.Violate("pruned", "%s: only %d are left", what, t)
			}
			r.Count("nodes that had not to prune", 1)
		}
		// What is gone is the oldest. Pruning goes on meanwhile, so each
		// source is looked at by itself.
		for _, s := range vk.Sorted(all) {
			got, err := x.everything(s)
			if err != nil {
				r.Violate("read-failed", "a plain read fails: %v", err)
				break
			}
			if len(got) > len(all[s]) || compare(got, all[s][len(all[s])-len(got):]) != "" {
				r.Violate("not-oldest", "%s: the %d of %d envelopes left of %q are not the newest", what, len(got), len(all[s]), s)
			}
		}
		if v := x.met.GetMetric("log_cache_total_system_memory", map[string]string{"unit": "bytes"}).Value(); v != float64(m.Total) {
			r.Violate("memory-metric", "the total memory is reported as %v, it is %v", v, m.Total)
		}
		var rt runtime.MemStats
		runtime.ReadMemStats(&rt)
		if v := x.met.GetMetric("log_cache_heap_in_use_memory", map[string]string{"unit": "bytes"}).Value(); v > float64(rt.HeapSys) || v < float64(rt.HeapInuse)/50 {
			r.Violate("memory-metric", "the heap is reported as %v, it is %v of %v", v, rt.HeapInuse, rt.HeapSys)
		}
		stop([]*node{x})
	}
}

// pressure has this process use much memory for a while.
func pressure(r *vk.R) {
	debug.SetGCPercent(20)
	for k := 0; k < r.Scale(1, 10); k++ {
		rnd := r.Rand("pressure", k)
		runtime.GC()
		var m sigar.Mem
		must(m.Get())
		step := 100 * float64(100<<20) / float64(m.Total)
		limit := percent() + step
		x := alone(cache.WithMemoryLimit(limit))
		n := 0
		write := func() map[string][]*loggregator_v2.Envelope {
			all := map[string][]*loggregator_v2.Envelope{}
			var b []*loggregator_v2.Envelope
			for j := 0; j < 1000; j++ {
				n++
				e := &loggregator_v2.Envelope{SourceId: fmt.Sprintf("p-%d", rnd.Intn(7)), Timestamp: int64(n) * 1e6, InstanceId: fmt.Sprint(n)}
				b = append(b, e)
				all[e.SourceId] = append(all[e.SourceId], e)
			}
			if err := x.send(b...); err != nil {
				r.Violate("send-failed", "a plain send fails: %v", err)
			}
			return all
		}
		var ballast [][]byte
		what := []string{"little used"}
		for phase := 0; phase < 4; phase++ {
			r.Eval(fmt.Sprint(k, phase), phase > 0)
			if phase%2 == 1 {
				write()
				for i := 0; i < 32; i++ {
					b := make([]byte, 10<<20)
					for j := 0; j < len(b); j += 4096 {
						b[j] = 1
					}
					ballast = append(ballast, b)
				}
				what = append(what, "much used")
				if s := try(func() string {
					if t, _ := total(x); t > 100 {
						return fmt.Sprintf("%d envelopes are still there", t)
					}
					return ""
				}); s != "" {
					r.Violate("not-pruned", "limit %.2f %%, heap %.2f %%, %s: %s", limit, percent(), strings.Join(what, ", "), s)
				}
				runtime.KeepAlive(ballast)
				continue
			}
			if ballast != nil {
				ballast = nil
				what = append(what, "little used")
				for i := 0; i < 100 && percent() > limit-step/2; i++ {
					debug.FreeOSMemory()
					time.Sleep(20 * time.Millisecond)
				}
				if percent() > limit-step/2 {
					r.Count("heap not freed", 1)
					break
				}
				// The prune that is under way may be the last.
				time.Sleep(1500 * time.Millisecond)
			}
			before, _ := total(x)
			all := write()
			time.Sleep(2500 * time.Millisecond)
			if t, _ := total(x); t != before+1000 && percent() < limit-step/3 {
				r.Violate("pruned", "limit %.2f %%, heap %.2f %%, %s: of %d envelopes %d are left", limit, percent(), strings.Join(what, ", "), before+1000, t)
			}
			for _, s := range vk.Sorted(all) {
				got, err := x.everything(s)
				if err != nil {
					r.Violate("read-failed", "a plain read fails: %v", err)
				}
				if len(got) >= len(all[s]) && compare(got[len(got)-len(all[s]):], all[s]) != "" {
					r.Violate("not-oldest", "%s: other envelopes than the newest of %q are left", strings.Join(what, ", "), s)
				}
			}
			r.Count("phases", 1)
		}
		stop([]*node{x})
	}
}

// slow asks nodes of different patience for something long.
func slow(r *vk.R) {
	rnd := r.Rand("slow", 0)
	fill := func(x *node) {
		base := time.Now().UnixNano() - 3600e9
		for s := 0; s < 10; s++ {
			var b []*loggregator_v2.Envelope
			for i := 0; i < 900; i++ {
				b = append(b, &loggregator_v2.Envelope{SourceId: fmt.Sprintf("q-%d", s), Timestamp: base + int64(i)*4e9, Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "hits", Total: uint64(i)}}})
			}
			if err := x.send(b...); err != nil {
				r.Violate("send-failed", "a plain send fails: %v", err)
			}
		}
	}
	query := func() *rpc.PromQL_RangeQueryRequest {
		var l []string
		for s := 0; s < 10; s++ {
			l = append(l, fmt.Sprintf(`%s(hits{source_id="q-%d"}[%dm])`, pick(rnd, "rate", "sum_over_time", "quantile_over_time(0.5,")+"", s, 30+rnd.Intn(30)))
		}
		for i := range l {
			l[i] = strings.Replace(l[i], ",(", ",", 1)
		}
		now := time.Now().Unix()
		return &rpc.PromQL_RangeQueryRequest{Query: strings.Join(l, "+ on(x) "), Start: fmt.Sprint(now - 3600), End: fmt.Sprint(now), Step: "1"}
	}
	ask := func(x *node, q *rpc.PromQL_RangeQueryRequest) (time.Duration, *rpc.PromQL_RangeQueryResult, error) {
		t := time.Now()
		ctx, c := context.WithTimeout(context.Background(), 2*patience)
		defer c()
		res, err := x.ql.RangeQuery(ctx, q)
		return time.Since(t), res, err
	}
	longest := time.Duration(0)
	patient := alone(cache.WithQueryTimeout(2*patience), cache.WithMemoryLimit(100))
	fill(patient)
	for _, limit := range []time.Duration{1, time.Millisecond, 200 * time.Millisecond} {
		x := alone(cache.WithQueryTimeout(limit), cache.WithMemoryLimit(100))
		fill(x)
		for k := 0; k < r.Scale(2, 10); k++ {
			q := query()
			took, _, err := ask(x, q)
			r.Eval(fmt.Sprint(limit, k), true)
			ref, _, rerr := ask(patient, q)
			if rerr != nil {
				r.Violate("refused", "a query of %v is refused by a node that allows %v: %v", ref, 2*patience, rerr)
			}
			if ref > longest {
				longest = ref
			}
			switch {
			case err == nil && took > limit+2*time.Second && ref > limit+2*time.Second:
				r.Violate("too-long", "a query is answered after %v by a node that allows %v", took, limit)
			case err == nil && limit < 2*time.Millisecond && ref > 500*time.Millisecond:
				r.Violate("too-long", "a query that takes %v is answered after %v by a node that allows %v", ref, took, limit)
			case took > limit+30*time.Second:
				r.Violate("too-long", "a query fails only after %v on a node that allows %v", took, limit)
			case err != nil:
				r.Count("queries ended", 1)
			}
		}
		// A node that gave up serves on.
		stop([]*node{x})
	}
	r.Count("ms of the longest query", int(longest.Milliseconds()))
	stop([]*node{patient})
}

// settings runs cmd/log-cache with limits.
func settings(r *vk.R) {
	rnd := r.Rand("settings", 0)
	ca := vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	creds := clientCreds(ca)
	ports := rand.New(rand.NewSource(time.Now().UnixNano()))
	begin := func(env ...string) (*process, *node) {
		a := addresses(rnd, 1)[0]
		p := &process{what: "log-cache", env: append([]string{"ADDR=" + a, fmt.Sprintf("HEALTH_PORT=%d", freePort(ports)), "CA_PATH=" + f.CA, "CERT_PATH=" + f.Cert, "KEY_PATH=" + f.Key}, env...)}
		p.start()
		x := &node{addr: a}
		x.connect(creds)
		if s := try(func() string {
			ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
			defer c()
			if _, err := x.out.Meta(ctx, &rpc.MetaRequest{}); err != nil {
				return err.Error()
			}
			return ""
		}); s != "" {
			p.kill()
			r.Violate("not-started", "log-cache with %v does not start: %s", env, s)
		}
		return p, x
	}
	write := func(x *node, n int) {
		for i := 0; i < n; {
			var b []*loggregator_v2.Envelope
			for ; len(b) < 1000 && i < n; i++ {
				b = append(b, &loggregator_v2.Envelope{SourceId: "a", Timestamp: time.Now().UnixNano() - 60e9 + int64(i)*1000, Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "hits", Total: 1}}})
			}
			if err := x.send(b...); err != nil {
				r.Violate("send-failed", "a plain send fails: %v", err)
			}
		}
	}
	ask := func(x *node) error {
		ctx, c := long()
		defer c()
		_, err := x.ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: `hits{source_id="a"}`})
		return err
	}
	// MEMORY_LIMIT_PERCENT and QUERY_TIMEOUT have defaults that nothing here
	// reaches.
	for _, c := range []struct {
		env         []string
		writes      int
		left        int64
		prune, slow bool
	}{
		{nil, 100500, 100000, false, false},
		{[]string{"MEMORY_LIMIT_PERCENT=0"}, 900, 0, true, false},
		{[]string{"MEMORY_LIMIT_PERCENT=100", "QUERY_TIMEOUT=1ns"}, 900, 900, false, true},
		{[]string{"MAX_PER_SOURCE=13", "QUERY_TIMEOUT=1m"}, 900, 13, false, false},
	} {
		p, x := begin(c.env...)
		setRanges([]*node{x}, full([]*node{x}, func(int) int { return 0 }, 1))
		write(x, c.writes)
		r.Eval(fmt.Sprint(c.env), len(c.env) > 0)
		if c.prune {
			if s := try(func() string {
				if t, _ := total(x); t > 90 {
					return fmt.Sprintf("%d of %d envelopes are still there", t, c.writes)
				}
				return ""
			}); s != "" {
				r.Violate("not-pruned", "log-cache with %v: %s", c.env, s)
			}
		} else {
			if s := try(func() string {
				if t, _ := total(x); t != c.left {
					return fmt.Sprintf("%d of %d envelopes are left instead of %d", t, c.writes, c.left)
				}
				return ""
			}); s != "" {
				r.Violate("per-source", "log-cache with %v: %s", c.env, s)
			}
			time.Sleep(1200 * time.Millisecond)
			if t, _ := total(x); t != c.left {
				r.Violate("pruned", "log-cache with %v: %d of %d envelopes are left instead of %d", c.env, t, c.writes, c.left)
			}
		}
		if err := ask(x); (err != nil) != c.slow {
			r.Violate("query-timeout", "log-cache with %v: a query ends with %v", c.env, err)
		}
		x.conn.Close()
		if m := p.kill(); m != "" {
			r.Violate("node-broken", "log-cache with %v: %s", c.env, m)
		}
		r.Count("processes", 1)
	}
}

// share runs processes that hold more than one hundredth of the memory.
func share(r *vk.R) {
	var m sigar.Mem
	m.Get()
	most := int(m.Total / 100 * 13 / 10)
	if most > 1<<30 || int(m.ActualFree) < 12*most {
		r.Count("left out for the size of the memory", 1)
		return
	}
	rnd := r.Rand("share", 0)
	ca := vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	ports := rand.New(rand.NewSource(time.Now().UnixNano()))
	var wg sync.WaitGroup
	for _, limit := range []string{"1", "5", ""} {
		limit := limit
		a := addresses(rnd, 1)[0]
		port := freePort(ports)
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := &process{what: "log-cache", env: []string{"ADDR=" + a, fmt.Sprintf("HEALTH_PORT=%d", port), "CA_PATH=" + f.CA, "CERT_PATH=" + f.Cert, "KEY_PATH=" + f.Key}}
			if limit != "" {
				p.env = append(p.env, "MEMORY_LIMIT_PERCENT="+limit)
			}
			p.start()
			x := &node{addr: a}
			x.connect(clientCreds(ca))
			defer x.conn.Close()
			if s := try(func() string {
				ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
				defer c()
				if _, err := x.out.Meta(ctx, &rpc.MetaRequest{}); err != nil {
					return err.Error()
				}
				return ""
			}); s != "" {
				p.kill()
				r.Violate("not-started", "log-cache with a share of %q does not start: %s", limit, s)
				return
			}
			setRanges([]*node{x}, full([]*node{x}, func(int) int { return 0 }, 1))
			b := make([]byte, 256<<10)
			n := 0
			for ; n*len(b) < most; n += 8 {
				var es []*loggregator_v2.Envelope
				for k := 0; k < 8; k++ {
					es = append(es, &loggregator_v2.Envelope{SourceId: fmt.Sprint("share-", k%3), Timestamp: time.Now().UnixNano(), Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b}}})
				}
				if err := x.send(es...); err != nil {
					r.Violate("send-failed", "a plain send fails: %v", err)
				}
			}
			r.Eval("share "+limit, true)
			if limit == "1" {
				if s := try(func() string {
					if t, _ := total(x); t >= int64(n) {
						return fmt.Sprintf("all %d envelopes are still there", t)
					}
					return ""
				}); s != "" {
					r.Violate("not-pruned", "log-cache with %d MB and a limit of 1 percent, which is %d MB: %s", n>>2, m.Total/100>>20, s)
				}
			} else {
				time.Sleep(2 * time.Second)
				if t, _ := total(x); t != int64(n) {
					r.Violate("pruned", "log-cache with %d MB and a limit of %q percent of %d MB: %d of %d envelopes are left", n>>2, limit, m.Total>>20, t, n)
				}
			}
			r.Count("MB sent to processes", n>>2)
			if s := p.kill(); s != "" {
				r.Violate("node-broken", "log-cache with a share of %q: %s", limit, s)
			}
			r.Count("processes", 1)
		}()
	}
	wg.Wait()
}
