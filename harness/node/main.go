// Monitors for whole nodes and clusters: C09, C12.
package main

import (
	"context"
	"fmt"
	"hash/crc64"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	sharedtls "code.cloudfoundry.org/log-cache/internal/tls"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C09": {
			Rule:        "running nodes are sent generated requests of every RPC from many clients at once, as bytes of a schema-driven generator (missing and repeated fields, map entries without value, unknown enum values, extreme numbers, damaged encodings, malformed and nested queries), while witnesses write and read through every service and compare; reads at and beyond the limits; a request that ends the process, gets no answer or makes a witness wrong is a violation; non-trivial: the request is not a plain valid one",
			Assumptions: []string{"an answer may take up to a minute under the race detector"},
			Parts:       []vk.Part{{Name: "reads", Run: reads}, {Name: "storm", Run: storm}, {Name: "ranges", Run: ranges}, {Name: "poison", Run: poison}, {Name: "rush", Run: rush}},
		},
		"C12": {
			Rule:  "clusters of one to five nodes (in one process, and as real processes with mutual TLS) with generated routing tables; concurrent writers send generated envelopes to any node; then every node is asked for every source by read, PromQL and meta; clients without a certificate of the CA try every RPC; non-trivial: a source is not owned by the node asked or written to",
			Parts: []vk.Part{{Name: "cluster", Run: clusters}, {Name: "large", Run: large}, {Name: "processes", Run: processes}},
		},
		"C35": {
			Rule:        "processes of a scheduler and two to four nodes with mutual TLS; in generated histories nodes are killed while they are written to and asked, held up, and started again, the scheduler likewise; after each step new envelopes sent through every living node must, once settled, be found through every living node by read and meta, exactly once, and a node that stayed has lost nothing; non-trivial: a fault came before",
			Assumptions: []string{"a cluster settles within a minute and a half with terms of 300 ms", "the go-orchestrator library is a stand-in that spreads the ranges over the nodes it reaches"},
			Parts:       []vk.Part{{Name: "heal", Run: heal}},
		},
		"C36": {
			Rule:        "nodes with generated limits in this process and as processes: more envelopes of a source than a node keeps, in generated orders, and which are left; a share of the memory far below and far above what the process uses, and whether the oldest envelopes go; long queries on nodes of little patience next to a patient one; non-trivial: a limit is exceeded",
			Assumptions: []string{"the gosigar library is a stand-in that reads /proc/meminfo"},
			Parts:       []vk.Part{{Name: "per-source", Run: perSource}, {Name: "memory", Run: memory}, {Name: "pressure", Run: pressure}, {Name: "slow", Run: slow}, {Name: "settings", Run: settings}, {Name: "share", Run: share}},
		},
	})
}

var quiet = log.New(ioutil.Discard, "", 0)

var ecma = crc64.MakeTable(crc64.ECMA)

func hash(s string) uint64 { return crc64.Checksum([]byte(s), ecma) }

type node struct {
	addr string
	lc   *cache.LogCache
	conn *grpc.ClientConn
	in   rpc.IngressClient
	out  rpc.EgressClient
	ql   rpc.PromQLQuerierClient
	orch rpc.OrchestrationClient
	met  *testhelpers.SpyMetricsRegistry
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var nets int32

// addresses are loopback addresses no outgoing connection is given.
func addresses(rnd *rand.Rand, n int) []string {
	var l []string
	k := atomic.AddInt32(&nets, 1)
	a := rand.New(rand.NewSource(time.Now().UnixNano() + int64(k)))
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("127.%d.%d.%d:%d", 1+a.Intn(250), a.Intn(250), 1+k%250, 8080+i))
	}
	return l
}

func (n *node) connect(opt grpc.DialOption) {
	conn, err := grpc.Dial(n.addr, opt, grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(128<<20)))
	must(err)
	n.conn = conn
	n.in, n.out, n.ql, n.orch = rpc.NewIngressClient(conn), rpc.NewEgressClient(conn), rpc.NewPromQLQuerierClient(conn), rpc.NewOrchestrationClient(conn)
}

// start runs n nodes in this process.
func start(rnd *rand.Rand, n, perSource int, timeout time.Duration, f *vk.Files) []*node {
	var l []*node
	addrs := addresses(rnd, n)
	dial := func() []grpc.DialOption {
		if f == nil {
			return []grpc.DialOption{grpc.WithInsecure()}
		}
		return []grpc.DialOption{grpc.WithTransportCredentials(sharedtls.TLS{CAPath: f.CA, CertPath: f.Cert, KeyPath: f.Key}.Credentials("log-cache"))}
	}
	for i, a := range addrs {
		x := &node{addr: a, met: testhelpers.NewMetricsRegistry()}
		opts := []cache.LogCacheOption{cache.WithAddr(a), cache.WithMaxPerSource(perSource), cache.WithQueryTimeout(timeout), cache.WithMemoryLimit(80)}
		if n > 1 || f != nil {
			opts = append(opts, cache.WithClustered(i, addrs, dial()...))
		}
		if f != nil {
			opts = append(opts, cache.WithServerOpts(grpc.Creds(sharedtls.TLS{CAPath: f.CA, CertPath: f.Cert, KeyPath: f.Key}.Credentials("log-cache"))))
		}
		x.lc = cache.New(x.met, log.New(ioutil.Discard, "", 0), opts...)
		x.lc.Start()
		x.connect(dial()[0])
		l = append(l, x)
	}
	return l
}

func stop(l []*node) {
	for _, n := range l {
		n.conn.Close()
	}
	for _, n := range l {
		n.lc.Close()
	}
}

const patience = time.Minute

func long() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), patience)
}

// try repeats f until it says nothing is missing or the time is over.
func try(f func() string) string {
	end := time.Now().Add(patience)
	for {
		s := f()
		if s == "" || time.Now().After(end) {
			return s
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func full(l []*node, owner func(i int) int, n int) *rpc.SetRangesRequest {
	req := &rpc.SetRangesRequest{Ranges: map[string]*rpc.Ranges{}}
	for _, x := range l {
		req.Ranges[x.addr] = &rpc.Ranges{}
	}
	step := math.MaxUint64/uint64(n) + 1
	for i := 0; i < n; i++ {
		s, e := uint64(i)*step, uint64(i+1)*step-1
		if i == n-1 || n == 1 {
			e = math.MaxUint64
		}
		a := req.Ranges[l[owner(i)].addr]
		a.Ranges = append(a.Ranges, &rpc.Range{Start: s, End: e})
	}
	return req
}

func setRanges(l []*node, req *rpc.SetRangesRequest) {
	for _, x := range l {
		if s := try(func() string {
			ctx, c := long()
			defer c()
			_, err := x.orch.SetRanges(ctx, req)
			if err != nil {
				return err.Error()
			}
			return ""
		}); s != "" {
			panic("SetRanges: " + s)
		}
	}
}

// owners lists the nodes that hold a source under a table.
func owners(l []*node, req *rpc.SetRangesRequest, src string) []int {
	h := hash(src)
	var o []int
	for i, n := range l {
		for _, x := range req.Ranges[n.addr].GetRanges() {
			if x.Start <= h && h <= x.End {
				o = append(o, i)
				break
			}
		}
	}
	return o
}

// warm waits until every node reaches every other; before that envelopes may
// be dropped.
func warm(l []*node, req *rpc.SetRangesRequest) {
	seen := map[int]bool{}
	for k := 0; len(seen) < len(l) && k < 1000; k++ {
		src := fmt.Sprintf("warm-%d", k)
		o := owners(l, req, src)
		if len(o) == 0 || len(o) == 1 && seen[o[0]] {
			continue
		}
		for _, i := range o {
			seen[i] = true
		}
		for i, via := range l {
			s := try(func() string {
				ctx, c := long()
				defer c()
				e := &loggregator_v2.Envelope{SourceId: src, InstanceId: fmt.Sprint(i), Timestamp: time.Now().UnixNano() - 1e9}
				via.in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{e}}})
				time.Sleep(300 * time.Millisecond)
				for _, j := range o {
					resp, err := l[j].out.Read(ctx, &rpc.ReadRequest{SourceId: src, Limit: 1000})
					if err != nil {
						return err.Error()
					}
					ok := false
					for _, g := range resp.GetEnvelopes().GetBatch() {
						ok = ok || g.InstanceId == fmt.Sprint(i)
					}
					if !ok {
						return fmt.Sprintf("node %d does not reach node %d", i, j)
					}
					if _, err := via.out.Read(ctx, &rpc.ReadRequest{SourceId: src}); err != nil {
						return err.Error()
					}
				}
				return ""
			})
			if s != "" {
				panic("warm up: " + s)
			}
		}
	}
}

func key(e *loggregator_v2.Envelope) string {
	b := proto.NewBuffer(nil)
	b.SetDeterministic(true)
	must(b.Marshal(e))
	return string(b.Bytes())
}

// compare says how a list of envelopes differs from what it should be, in
// this order.
func compare(got, want []*loggregator_v2.Envelope) string {
	n := map[string]int{}
	for _, e := range want {
		n[key(e)]++
	}
	var miss, more int
	for _, e := range got {
		n[key(e)]--
	}
	ex := ""
	for k, v := range n {
		if v > 0 {
			miss += v
		} else if v < 0 {
			more -= v
			e := &loggregator_v2.Envelope{}
			proto.Unmarshal([]byte(k), e)
			ex = e.String()
		}
	}
	if miss+more > 0 {
		return fmt.Sprintf("%d envelopes of %d are missing, %d unexpected %s", miss, len(want), more, ex)
	}
	for i := range got {
		// Those with one timestamp may come in any order.
		if got[i].Timestamp != want[i].Timestamp {
			return fmt.Sprintf("envelope %d of %d is out of order", i, len(got))
		}
	}
	return ""
}

// ---- C09

// reads: the documented limits of read requests, asked at the owner and
// through another node.
func reads(r *vk.R) {
	rnd := r.Rand("reads", 0)
	l := start(rnd, 2, 5000, 10*time.Second, nil)
	proper := full(l, func(i int) int { return i % 2 }, 2)
	setRanges(l, proper)
	warm(l, proper)
	now := time.Now()
	srcs := []string{"reads-a", "reads-b", "reads-c", "reads-d", "reads-e", "reads-f"}
	data := map[string][]*loggregator_v2.Envelope{}
	for _, s := range srcs {
		var es []*loggregator_v2.Envelope
		past, future := 1050+rnd.Intn(400), rnd.Intn(40)
		for i := -past; i < future; i++ {
			ts := now.Add(time.Duration(i)*time.Second - time.Second)
			if i >= 0 {
				ts = now.Add(time.Hour + time.Duration(i)*time.Second)
			}
			es = append(es, &loggregator_v2.Envelope{SourceId: s, Timestamp: ts.UnixNano(), InstanceId: fmt.Sprint(i), Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte("x")}}})
		}
		data[s] = es
		for len(es) > 0 {
			n := 400
			if n > len(es) {
				n = len(es)
			}
			ctx, c := long()
			_, err := l[rnd.Intn(2)].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es[:n]}})
			c()
			if err != nil {
				r.Violate("send-failed", "a plain send fails: %v", err)
			}
			es = es[n:]
		}
	}
	for _, s := range srcs {
		for i, x := range l {
			if m := try(func() string {
				ctx, c := long()
				defer c()
				resp, err := x.out.Read(ctx, &rpc.ReadRequest{SourceId: s, Limit: 1000, StartTime: math.MinInt64, EndTime: math.MaxInt64})
				if err != nil {
					return err.Error()
				}
				return compare(resp.GetEnvelopes().GetBatch(), data[s][:1000])
			}); m != "" {
				r.Violate("read-wrong", "reading 1000 of %d envelopes through node %d: %s", len(data[s]), i, m)
				return
			}
		}
	}
	for k := 0; k < r.Scale(1500, 20000); k++ {
		rnd := r.Rand("read", k)
		s := srcs[rnd.Intn(len(srcs))]
		req := &rpc.ReadRequest{SourceId: s, Descending: rnd.Intn(3) == 0}
		switch rnd.Intn(4) {
		case 0:
			req.Limit = []int64{1001, -1, 1000, 1, math.MaxInt64, math.MinInt64, 999, 2000, -1000, 1 << 32, 1<<32 + 5, math.MinInt64 + 100}[rnd.Intn(12)]
		case 1:
			req.Limit = int64(rnd.Intn(1100))
		}
		t := func() int64 {
			switch rnd.Intn(4) {
			case 0:
				return 0
			case 1:
				return env.Int(rnd)
			}
			return now.UnixNano() - rnd.Int63n(int64(30*time.Minute)) + int64(5*time.Minute)
		}
		req.StartTime, req.EndTime = t(), t()
		bad := ""
		if rnd.Intn(8) == 0 {
			// Nothing carries a name the filter may match.
			if rnd.Intn(2) == 0 {
				req.NameFilter = pick(rnd, "(", "[a", "a{1001}", "*", `\8`, "(?P<n", "a**", "x{2,1}", "[z-a]")
				bad = "a malformed name filter"
			}
		}
		if req.Limit > 1000 || req.Limit < 0 {
			bad = "such a limit"
		}
		if req.EndTime != 0 && req.StartTime > req.EndTime {
			bad = "start after end"
		}
		r.Eval(fmt.Sprint(req.Limit, req.StartTime, req.EndTime, req.NameFilter, req.Descending), bad != "" || req.Limit == 0 || req.EndTime == 0)
		i := rnd.Intn(2)
		ctx, c := long()
		before := time.Now().UnixNano()
		resp, err := l[i].out.Read(ctx, req)
		after := time.Now().UnixNano()
		c()
		if bad != "" {
			if err == nil {
				r.Violate("bad-read-accepted", "node %d answers %d envelopes to %v, which has %s", i, len(resp.GetEnvelopes().GetBatch()), req, bad)
			}
			r.Count("refused", 1)
			continue
		}
		if err != nil {
			r.Violate("read-refused", "node %d refuses %v: %v", i, req, err)
			continue
		}
		end := func(now int64) int64 {
			if req.EndTime != 0 {
				return req.EndTime
			}
			return now
		}
		lim := int(req.Limit)
		if lim == 0 {
			lim = 100
		}
		want := func(end int64) []*loggregator_v2.Envelope {
			var w []*loggregator_v2.Envelope
			for _, e := range data[s] {
				if e.Timestamp >= req.StartTime && e.Timestamp < end {
					w = append(w, e)
				}
			}
			if req.Descending {
				for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
					w[i], w[j] = w[j], w[i]
				}
			}
			if len(w) > lim {
				w = w[:lim]
			}
			return w
		}
		got := resp.GetEnvelopes().GetBatch()
		a := compare(got, want(end(before)))
		if a != "" && compare(got, want(end(after))) != "" {
			r.Violate("read-wrong", "node %d answers %v: %s", i, req, a)
		}
	}
	stop(l)
}

// witness writes and reads through a node and knows what must come back.
type witness struct {
	id   string
	want []*loggregator_v2.Envelope
	sum  float64
	base int64
}

func (w *witness) write(n *node, rnd *rand.Rand) string {
	var es []*loggregator_v2.Envelope
	sum := w.sum
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		v := float64(rnd.Intn(100))
		e := &loggregator_v2.Envelope{SourceId: w.id, InstanceId: "0", Timestamp: w.base + int64(len(w.want)+len(es))*1e6, Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"witness": {Unit: "u", Value: v}}}}}
		es = append(es, e)
		sum += v
	}
	ctx, c := long()
	defer c()
	_, err := n.in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}})
	if err != nil {
		return "send: " + err.Error()
	}
	w.want = append(w.want, es...)
	w.sum = sum
	return ""
}

func (w *witness) check(n *node, meta bool) string {
	ctx, c := long()
	defer c()
	resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: w.id, Limit: 1000})
	if err != nil {
		return "read: " + err.Error()
	}
	if s := compare(resp.GetEnvelopes().GetBatch(), w.want); s != "" {
		return "read: " + s
	}
	at := w.base + 60e9
	q, err := n.ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: fmt.Sprintf("sum_over_time(witness{source_id=%q}[5m])", w.id), Time: fmt.Sprint(at / 1e9)})
	if err != nil {
		return "query: " + err.Error()
	}
	if v := q.GetVector().GetSamples(); len(v) != 1 || v[0].GetPoint().GetValue() != w.sum {
		return fmt.Sprintf("query: %v, want the sum %v", q, w.sum)
	}
	if !meta {
		return ""
	}
	return try(func() string {
		m, err := n.out.Meta(ctx, &rpc.MetaRequest{})
		if err != nil {
			return "meta: " + err.Error()
		}
		i := m.GetMeta()[w.id]
		if i.GetCount() != int64(len(w.want)) || i.GetExpired() != 0 || i.GetOldestTimestamp() != w.want[0].Timestamp || i.GetNewestTimestamp() != w.want[len(w.want)-1].Timestamp {
			return fmt.Sprintf("meta: %v for %d envelopes", i, len(w.want))
		}
		return ""
	})
}

// fire sends one generated request and judges only that it is answered.
func fire(r *vk.R, n *node, w *wire, m method) {
	b := w.message(m.req)
	// Keep witnesses' data and the table out of it.
	ctx, c := long()
	defer c()
	var out []byte
	err := n.conn.Invoke(ctx, m.path, b, &out, grpc.ForceCodec(raw{}))
	r.Eval(m.path+string(b), true)
	switch {
	case ctx.Err() != nil:
		r.Violate("no-answer "+m.path, "%s gives no answer within %v to %x", m.path, patience, head(b))
	case err == nil:
		r.Count(m.path+" ok", 1)
	default:
		r.Count(m.path+" error", 1)
		if s := err.Error(); strings.Contains(s, "transport is closing") {
			r.Violate("unavailable "+m.path, "%s: %v, asked %x", m.path, err, head(b))
		}
	}
}

func head(b []byte) []byte {
	if len(b) > 600 {
		return b[:600]
	}
	return b
}

// storm sends everything to everything, except what changes the table.
func storm(r *vk.R) {
	rnd := r.Rand("storm", 0)
	l := start(rnd, 1, 700, 2*time.Second, nil)
	n := l[0]
	setRanges(l, full(l, func(int) int { return 0 }, 1))
	base := time.Now().UnixNano() - 50e9
	base -= base % 1e9
	var wg sync.WaitGroup
	var done int32
	for i := 0; i < 3; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := r.Rand("witness", i)
			w := &witness{id: fmt.Sprintf("witness-%d", i), base: base}
			for k := 0; atomic.LoadInt32(&done) == 0 || k < 5; k++ {
				if len(w.want) < 600 {
					if s := w.write(n, rnd); s != "" {
						r.Violate("witness-wrong", "while others send anything, a plain %s", s)
					}
				}
				if s := w.check(n, k%20 == 4); s != "" {
					r.Violate("witness-wrong", "while others send anything, a plain %s", s)
				}
				r.Count("witness checks", 1)
				time.Sleep(5 * time.Millisecond)
			}
		}()
	}
	var cl sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		cl.Add(1)
		go func() {
			defer cl.Done()
			for k := 0; k < r.Scale(1200, 15000); k++ {
				rnd := r.Rand("client", k*8+i)
				w := &wire{rnd: rnd, now: time.Now().UnixNano(), srcs: []string{"s0", "s1", "s2", "s3", "", "a|b", "ü/日本", "x y", strings.Repeat("long", 300)}, addrs: []string{"nobody:1", n.addr, ""}}
				if rnd.Intn(4) == 0 {
					w.damage = 30
				}
				m := methods[rnd.Intn(len(methods)-1)]
				for rnd.Intn(2) == 0 && strings.Contains(m.path, "Orch") {
					m = methods[rnd.Intn(len(methods)-1)]
				}
				fire(r, n, w, m)
			}
		}()
	}
	cl.Wait()
	atomic.StoreInt32(&done, 1)
	wg.Wait()
	stop(l)
}

// ranges sends orchestration requests; after each round of them a proper
// table is set and the cluster must work as ever.
func ranges(r *vk.R) {
	rnd := r.Rand("ranges", 0)
	l := start(rnd, 2, 700, 2*time.Second, nil)
	base := time.Now().UnixNano() - 50e9
	base -= base % 1e9
	var ws []*witness
	for i := 0; i < 4; i++ {
		ws = append(ws, &witness{id: fmt.Sprintf("witness-%d", i), base: base})
	}
	proper := full(l, func(i int) int { return i % 2 }, 2)
	setRanges(l, proper)
	warm(l, proper)
	for k := 0; k < r.Scale(12, 150); k++ {
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := r.Rand("client", k*6+i)
				w := &wire{rnd: rnd, now: time.Now().UnixNano(), srcs: []string{"s0", "s1", "s2", "s3", ""}, addrs: []string{"nobody:1", l[0].addr, l[1].addr, ""}}
				if rnd.Intn(4) == 0 {
					w.damage = 30
				}
				for j := 0; j < 12; j++ {
					m := methods[rnd.Intn(len(methods))]
					if rnd.Intn(3) > 0 {
						m = methods[len(methods)-1-rnd.Intn(4)]
					}
					fire(r, l[rnd.Intn(2)], w, m)
				}
			}()
		}
		wg.Wait()
		setRanges(l, proper)
		for _, w := range ws {
			if s := w.write(l[rnd.Intn(2)], rnd); s != "" {
				r.Violate("witness-wrong", "after a proper table is set, a plain %s", s)
			}
		}
		for _, w := range ws {
			for _, n := range l {
				if s := try(func() string { return w.check(n, k%6 == 5) }); s != "" {
					r.Violate("witness-wrong", "after a proper table is set, a plain %s", s)
				}
				r.Count("witness checks", 1)
			}
		}
	}
	stop(l)
}

// rush sends requests of every RPC that are all in order and all different
// from many clients at the very same time, and judges every answer.
func rush(r *vk.R) {
	rnd := r.Rand("rush", 0)
	l := start(rnd, 1, 5000, 10*time.Second, nil)
	n := l[0]
	setRanges(l, full(l, func(int) int { return 0 }, 1))
	base := time.Now().UnixNano() - 100e9
	base -= base % 1e9
	data := map[string][]*loggregator_v2.Envelope{}
	var srcs []string
	for i := 0; i < 5; i++ {
		s := fmt.Sprint("rush-", i)
		srcs = append(srcs, s)
		for j := 0; j < 60; j++ {
			data[s] = append(data[s], &loggregator_v2.Envelope{SourceId: s, InstanceId: fmt.Sprint(j % 3), Timestamp: base + int64(j)*1e9, Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: fmt.Sprint("m", j%7), Total: uint64(1 + i + j)}}})
		}
		ctx, c := long()
		_, err := n.in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: data[s]}})
		c()
		if err != nil {
			r.Violate("send-failed", "a plain send fails: %v", err)
		}
	}
	at := base/1e9 + 60
	sum := func(s string, m, from int) float64 {
		t := 0.0
		for j := from; j < 60; j++ {
			if j%7 == m {
				t += float64(data[s][j].GetCounter().Total)
			}
		}
		return t
	}
	own := new([16]int)
	ask := func(g, kind int, rnd *rand.Rand, id string) string {
		ctx, c := long()
		defer c()
		s := srcs[rnd.Intn(len(srcs))]
		m := rnd.Intn(7)
		switch kind {
		case 0:
			req := &rpc.ReadRequest{SourceId: s, Limit: 1000, NameFilter: fmt.Sprintf("^(m%d|x%s)$", m, id)}
			var want []*loggregator_v2.Envelope
			for _, e := range data[s] {
				if e.GetCounter().Name == fmt.Sprint("m", m) {
					want = append(want, e)
				}
			}
			resp, err := n.out.Read(ctx, req)
			if err != nil {
				return fmt.Sprintf("%v fails: %v", req, err)
			}
			if d := compare(resp.GetEnvelopes().GetBatch(), want); d != "" {
				return fmt.Sprintf("%v: %s", req, d)
			}
		case 1, 2:
			q := fmt.Sprintf("sum(sum_over_time(m%d{source_id=%q,x!=%q}[5m]))", m, s, id)
			want := sum(s, m, 0)
			if rnd.Intn(2) == 0 {
				q = fmt.Sprintf("sum(sum_over_time(m%d{source_id=~\"%s|%s|no-%s\"}[5m]))", m, s, srcs[0], id)
				if s != srcs[0] {
					want += sum(srcs[0], m, 0)
				}
			}
			var got float64
			if kind == 1 {
				resp, err := n.ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: q, Time: fmt.Sprint(at)})
				if err != nil {
					return fmt.Sprintf("%s fails: %v", q, err)
				}
				v := resp.GetVector().GetSamples()
				if len(v) != 1 {
					return fmt.Sprintf("%s: %v", q, resp)
				}
				got = v[0].GetPoint().GetValue()
			} else {
				resp, err := n.ql.RangeQuery(ctx, &rpc.PromQL_RangeQueryRequest{Query: q, Start: fmt.Sprint(at), End: fmt.Sprint(at + int64(rnd.Intn(100))), Step: fmt.Sprint(200 + rnd.Intn(100))})
				if err != nil {
					return fmt.Sprintf("range %s fails: %v", q, err)
				}
				v := resp.GetMatrix().GetSeries()
				if len(v) != 1 || len(v[0].Points) != 1 {
					return fmt.Sprintf("range %s: %v", q, resp)
				}
				got = v[0].Points[0].GetValue()
			}
			if got != want {
				return fmt.Sprintf("%s is %v, want %v", q, got, want)
			}
		case 3:
			e := &loggregator_v2.Envelope{SourceId: "new-" + id, InstanceId: id, Timestamp: base}
			if _, err := n.in.Send(ctx, &rpc.SendRequest{LocalOnly: rnd.Intn(2) == 0, Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{e}}}); err != nil {
				return fmt.Sprintf("send fails: %v", err)
			}
			resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: e.SourceId})
			if err != nil {
				return fmt.Sprintf("reading %s fails: %v", e.SourceId, err)
			}
			if d := compare(resp.GetEnvelopes().GetBatch(), []*loggregator_v2.Envelope{e}); d != "" {
				return "what was just sent: " + d
			}
		case 4:
			resp, err := n.out.Meta(ctx, &rpc.MetaRequest{LocalOnly: rnd.Intn(2) == 0})
			if err != nil {
				return fmt.Sprintf("meta fails: %v", err)
			}
			i := resp.GetMeta()[s]
			if i != nil && (i.Count != 60 || i.OldestTimestamp != base || i.NewestTimestamp != base+59e9) {
				return fmt.Sprintf("meta of %s: %v", s, i)
			}
		case 5:
			// A range of its own: [2g, 2g] to [2g+1, ...] never meets another's.
			x := &rpc.Range{Start: uint64(g) << 32, End: uint64(g)<<32 + uint64(own[g])}
			own[g]++
			if _, err := n.orch.AddRange(ctx, &rpc.AddRangeRequest{Range: x}); err != nil {
				return fmt.Sprintf("add %v: %v", x, err)
			}
			has := func() (bool, error) {
				resp, err := n.orch.ListRanges(ctx, &rpc.ListRangesRequest{})
				for _, y := range resp.GetRanges() {
					if y.Start == x.Start && y.End == x.End {
						return true, err
					}
				}
				return false, err
			}
			if ok, err := has(); !ok {
				return fmt.Sprintf("range %v is not listed after it was added: %v", x, err)
			}
			if _, err := n.orch.RemoveRange(ctx, &rpc.RemoveRangeRequest{Range: x}); err != nil {
				return fmt.Sprintf("remove %v: %v", x, err)
			}
			if ok, err := has(); ok || err != nil {
				return fmt.Sprintf("range %v is listed after it was removed: %v", x, err)
			}
		case 6:
			if _, err := n.orch.SetRanges(ctx, full(l, func(int) int { return 0 }, 1+rnd.Intn(5))); err != nil {
				return fmt.Sprintf("a full table is refused: %v", err)
			}
		}
		return ""
	}
	for k := 0; k < r.Scale(12, 160); k++ {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for g := 0; g < 12; g++ {
			g := g
			rnd := r.Rand("rusher", k*12+g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for j := 0; j < 25; j++ {
					kind := k / 2 % 6
					if k%2 == 1 { // mixed
						kind = rnd.Intn(7)
					}
					id := fmt.Sprintf("%d-%d-%d", k, g, j)
					r.Eval(fmt.Sprint(kind, id), false)
					r.Count(fmt.Sprint("rush kind ", kind), 1)
					if s := ask(g, kind, rnd, id); s != "" {
						r.Violate("rush-wrong", "with twelve clients at once: %s", s)
						return
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
	}
	stop(l)
}

// poison sends one generated batch at a time with an innocent envelope of
// another source in it, to the owner or through another node: it must be
// stored, and the sources of the batch must stay readable.
func poison(r *vk.R) {
	rnd := r.Rand("poison", 0)
	l := start(rnd, 2, 5000, 2*time.Second, nil)
	proper := full(l, func(i int) int { return i % 2 }, 2)
	setRanges(l, proper)
	warm(l, proper)
	type sent struct {
		src  string
		inn  *loggregator_v2.Envelope
		msg  *rpc.SendRequest
		wire []byte
	}
	var all []*sent
	for k := 0; k < r.Scale(500, 8000); k++ {
		rnd := r.Rand("batch", k)
		w := &wire{rnd: rnd, now: time.Now().UnixNano(), srcs: []string{fmt.Sprintf("p-%d", k)}}
		x := &sent{src: fmt.Sprintf("innocent-%d", k)}
		x.inn = &loggregator_v2.Envelope{SourceId: x.src, Timestamp: time.Now().UnixNano() - 1e9, Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(x.src)}}}
		ib, err := proto.Marshal(x.inn)
		must(err)
		var batch []byte
		at := rnd.Intn(4)
		for i := 0; i < 4; i++ {
			if i == at {
				batch = w.bytes(batch, 1, ib)
			} else {
				batch = w.bytes(batch, 1, w.message("Envelope"))
			}
		}
		x.wire = w.bytes(nil, 1, batch)
		x.msg = &rpc.SendRequest{}
		if proto.Unmarshal(x.wire, x.msg) != nil {
			continue // not well-formed (bad text)
		}
		ctx, c := long()
		var out []byte
		err = l[rnd.Intn(2)].conn.Invoke(ctx, "/logcache.v1.Ingress/Send", x.wire, &out, grpc.ForceCodec(raw{}))
		c()
		r.Eval(string(x.wire), true)
		if err != nil {
			r.Violate("send-refused", "a well-formed batch is refused: %v; %v", err, x.msg)
			continue
		}
		all = append(all, x)
	}
	for _, x := range all {
		for i, n := range l {
			if s := try(func() string {
				ctx, c := long()
				defer c()
				resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: x.src})
				if err != nil {
					return err.Error()
				}
				return compare(resp.GetEnvelopes().GetBatch(), []*loggregator_v2.Envelope{x.inn})
			}); s != "" {
				r.Violate("batch-poisoned", "an envelope sent along with others cannot be read through node %d: %s; the batch: %x", i, s, x.wire)
				stop(l)
				return
			}
			ids := map[string]bool{}
			for _, e := range x.msg.GetEnvelopes().GetBatch() {
				ids[e.GetSourceId()] = true
			}
			for id := range ids {
				ctx, c := long()
				resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: id, StartTime: math.MinInt64, EndTime: math.MaxInt64, Limit: 1000})
				if err != nil {
					r.Violate("source-poisoned", "source %q cannot be read any more: %v; the batch: %x", id, err, x.wire)
				} else {
					for _, e := range resp.GetEnvelopes().GetBatch() {
						_ = e
						r.Count("read back", 1)
					}
				}
				c()
			}
		}
	}
	stop(l)
}
