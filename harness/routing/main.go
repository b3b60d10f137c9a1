// Monitors for internal/routing: C05, C06, C07, C08, C11.
package main

import (
	"context"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C05": {
			Rule:  "generated range tables (partitions, overlaps, replicas, gaps, points, unknown nodes), probed at and around every boundary and compared with a direct definition; static tables of any size; lookups racing with table changes that identify their version; non-trivial: more or fewer than one owner, or a lookup during a change",
			Parts: []vk.Part{{Name: "tables", Run: tables}, {Name: "static", Run: static}, {Name: "swap", Run: swap}},
		},
		"C06": {
			Rule:  "generated batches, ownership layouts and failing nodes through the ingress proxy with recording clients, alone and from many goroutines; non-trivial: several nodes are concerned or one fails",
			Parts: []vk.Part{{Name: "fanout", Run: fanout}, {Name: "parallel", Run: fanoutParallel}},
		},
		"C07": {
			Rule:        "generated senders (several goroutines, pauses, bursts beyond the buffer) and peer behaviour (healthy, failing, slow, hanging) in virtual time under the race detector; every envelope is accounted for; non-trivial: concurrent senders, a peer failure or an overflow",
			Assumptions: []string{"the peer's client gives up when its context ends, as gRPC does"},
			Parts:       []vk.Part{{Name: "senders", Run: senders}, {Name: "overflow", Run: overflow}},
		},
		"C08": {
			Rule:  "generated ownership layouts, failing nodes and request orders through the egress proxy and the local reader with recording clients and store, meta over virtual time; non-trivial: remote, failing or cached",
			Parts: []vk.Part{{Name: "read", Run: egressRead}, {Name: "meta", Run: egressMeta}, {Name: "local", Run: localReader}, {Name: "parallel", Run: egressParallel}},
		},
		"C11": {
			Rule:  "generated histories of range calls against a set model; concurrent histories under the race detector checked for linearizability (porcupine); non-trivial: a range is repeated or removed, or calls overlap",
			Parts: []vk.Part{{Name: "histories", Run: rangeHistories}, {Name: "concurrent", Run: rangeConcurrent}},
		},
	})
}

var quiet = log.New(ioutil.Discard, "", 0)

// ---- C05

func num(h uint64) string { return strconv.FormatUint(h, 10) }
func unnum(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic("not a number: " + s)
	}
	return v
}

func point(rnd *rand.Rand, pts []uint64) uint64 {
	switch rnd.Intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2, 3:
		if len(pts) > 0 {
			return pts[rnd.Intn(len(pts))] + uint64(rnd.Intn(3)) - 1
		}
	}
	return rnd.Uint64() >> uint(rnd.Intn(64))
}

type table map[string]*rpc.Ranges

func genTable(rnd *rand.Rand, addrs []string) (table, []uint64) {
	t := table{}
	var pts []uint64
	put := func(a string, s, e uint64) {
		if t[a] == nil {
			t[a] = &rpc.Ranges{}
		}
		t[a].Ranges = append(t[a].Ranges, &rpc.Range{Start: s, End: e})
		pts = append(pts, s, e)
	}
	any := func() string {
		if rnd.Intn(15) == 0 {
			return "nobody:1"
		}
		return addrs[rnd.Intn(len(addrs))]
	}
	switch rnd.Intn(5) {
	case 0: // the scheduler's layout
		n := 1 + rnd.Intn(12)
		if rnd.Intn(8) == 0 {
			n = 1 + rnd.Intn(600)
		}
		x := uint64(math.MaxUint64) / uint64(n)
		var s uint64
		for i := 0; i < n; i++ {
			e := s + x
			if i == n-1 {
				e = math.MaxUint64
			}
			for k := 1 + rnd.Intn(3); k > 0; k-- {
				put(any(), s, e)
			}
			s = e + 1
		}
	case 1: // touching ranges
		var s uint64
		for i := rnd.Intn(10); i >= 0; i-- {
			e := s + rnd.Uint64()>>uint(4+rnd.Intn(56))
			if e < s {
				break
			}
			put(any(), s, e)
			s = e + 1
			if s == 0 {
				break
			}
		}
	default:
		for i := rnd.Intn(14); i > 0; i-- {
			s, e := point(rnd, pts), point(rnd, pts)
			if s > e && rnd.Intn(8) > 0 {
				s, e = e, s
			}
			put(any(), s, e)
		}
	}
	if rnd.Intn(4) == 0 {
		t[addrs[rnd.Intn(len(addrs))]] = &rpc.Ranges{}
	}
	return t, pts
}

func owners(t table, addrs []string, h uint64) []int {
	out := []int{}
	for i, a := range addrs {
		for _, r := range t[a].GetRanges() {
			if r.Start <= h && h <= r.End {
				out = append(out, i)
				break
			}
		}
	}
	return out
}

func asSet(l []int) []int {
	l = append([]int{}, l...)
	sort.Ints(l)
	return l
}

func tables(r *vk.R) {
	n := r.Scale(3000, 80000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("tables", c)
		var addrs []string
		count := 1 + rnd.Intn(8)
		if rnd.Intn(10) == 0 {
			count = 1 + rnd.Intn(60)
		}
		for i := count; i > 0; i-- {
			addrs = append(addrs, fmt.Sprintf("10.0.0.%d:8080", len(addrs)))
		}
		rt := routing.NewRoutingTable(addrs, unnum)
		for round := 0; round < 3; round++ {
			t, pts := genTable(rnd, addrs)
			r.Case(map[string]interface{}{"nodes": len(addrs), "table": t, "round": round})
			req := &rpc.SetRangesRequest{Ranges: t}
			cp := table{}
			for a, rs := range t {
				cp[a] = &rpc.Ranges{}
				for _, x := range rs.Ranges {
					cp[a].Ranges = append(cp[a].Ranges, &rpc.Range{Start: x.Start, End: x.End})
				}
			}
			if _, err := rt.SetRanges(context.Background(), req); err != nil {
				r.Violate("set-ranges", "%v", err)
			}
			// the caller may reuse its request
			for _, rs := range t {
				for _, x := range rs.Ranges {
					x.Start, x.End = 1, 0
				}
			}
			for k := 0; k < 25; k++ {
				h := point(rnd, pts)
				want := owners(cp, addrs, h)
				r.Eval(fmt.Sprintf("%d/%d/%d", c, round, h), len(want) != 1)
				r.Count(fmt.Sprintf("owners_%d", min(len(want), 3)), 1)
				if got := asSet(rt.Lookup(num(h))); vk.J(got) != vk.J(want) {
					r.Violate("lookup", "hash %d belongs to %v, Lookup says %v\n%s", h, want, got, vk.J(cp))
				}
				if got := asSet(rt.LookupAll(num(h))); vk.J(got) != vk.J(want) {
					r.Violate("lookup-all", "hash %d belongs to %v, LookupAll says %v\n%s", h, want, got, vk.J(cp))
				}
			}
			if c%500 == 0 {
				r.Sample(map[string]interface{}{"nodes": len(addrs), "table": cp})
			}
		}
	}
}

func static(r *vk.R) {
	n := r.Scale(1500, 20000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("static", c)
		routes := 1 + rnd.Intn(20)
		switch rnd.Intn(8) {
		case 0:
			routes = 1 + rnd.Intn(3000)
		case 1:
			routes = 1 << uint(rnd.Intn(11))
		}
		r.Case(map[string]interface{}{"routes": routes})
		l := routing.NewStaticLookup(routes, unnum)
		share := uint64(math.MaxUint64) / uint64(routes)
		for k := 0; k < 40; k++ {
			i := uint64(rnd.Intn(routes))
			h := i*share + uint64(rnd.Intn(3)) - 1
			if rnd.Intn(3) == 0 {
				h = point(rnd, nil)
			}
			want := int(h / share)
			if want >= routes {
				want = routes - 1
			}
			r.Eval(fmt.Sprintf("static/%d/%d", routes, h), routes > 1)
			if got := l.Lookup(num(h)); got != want {
				r.Violate("static", "hash %d of %d routes belongs to %d, Lookup says %d", h, routes, want, got)
			}
		}
	}
}

// swap installs tables whose owners tell their version while lookups run.
func swap(r *vk.R) {
	const nodes = 40
	var addrs []string
	for i := 0; i < nodes; i++ {
		addrs = append(addrs, fmt.Sprint("n", i))
	}
	rounds := r.Scale(40, 600)
	for c := 0; c < rounds; c++ {
		rnd := r.Rand("swap", c)
		rt := routing.NewRoutingTable(addrs, unnum)
		// version v: the whole space belongs to v mod nodes and v+7 mod nodes,
		// in many pieces
		mk := func(v int) *rpc.SetRangesRequest {
			m := table{}
			for k, a := range []string{addrs[v%nodes], addrs[(v+7)%nodes]} {
				rs := &rpc.Ranges{}
				p := uint64(10 + 7*k)
				x := math.MaxUint64 / p
				var s uint64
				for i := uint64(0); i < p; i++ {
					e := s + x
					if i == p-1 {
						e = math.MaxUint64
					}
					rs.Ranges = append(rs.Ranges, &rpc.Range{Start: s, End: e})
					s = e + 1
				}
				m[a] = rs
			}
			return &rpc.SetRangesRequest{Ranges: m}
		}
		rt.SetRanges(context.Background(), mk(0))
		var begun, done int64
		var stop int32
		var wg sync.WaitGroup
		versions := 60
		for g := 0; g < 3; g++ {
			hs := rand.New(rand.NewSource(rnd.Int63()))
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					h := num(hs.Uint64())
					lo := atomic.LoadInt64(&done)
					var got []int
					if g == 0 {
						got = rt.LookupAll(h)
					} else {
						got = rt.Lookup(h)
					}
					hi := atomic.LoadInt64(&begun)
					got = asSet(got)
					ok := false
					for v := lo; v <= hi && !ok; v++ {
						ok = vk.J(got) == vk.J(asSet([]int{int(v) % nodes, int(v+7) % nodes}))
					}
					r.Count("lookups", 1)
					r.Eval(fmt.Sprintf("swap/%d/%d", c, lo), hi > lo)
					if !ok {
						r.Violate("swap", "a lookup between version %d and %d of the table answers %v", lo, hi, got)
						return
					}
				}
			}()
		}
		for v := 1; v <= versions; v++ {
			atomic.StoreInt64(&begun, int64(v))
			rt.SetRanges(context.Background(), mk(v))
			atomic.StoreInt64(&done, int64(v))
			if v%8 == 0 {
				time.Sleep(time.Microsecond * time.Duration(rnd.Intn(200)))
			}
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	}
}

// ---- C06

type sent struct {
	req  *rpc.SendRequest
	snap string
}

// node is a fake peer.
type node struct {
	mu   sync.Mutex
	got  []sent
	fail func(*rpc.SendRequest) error
}

func (n *node) Send(ctx context.Context, in *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	n.mu.Lock()
	n.got = append(n.got, sent{in, in.String()})
	f := n.fail
	n.mu.Unlock()
	if f != nil {
		if err := f(in); err != nil {
			return nil, err
		}
	}
	return &rpc.SendResponse{}, nil
}

func (n *node) take() []sent {
	n.mu.Lock()
	defer n.mu.Unlock()
	g := n.got
	n.got = nil
	return g
}

// layout assigns owners to sources.
type layout struct {
	nodes int
	local int
	own   map[string][]int
}

func (l *layout) lookup(s string) []int { return l.own[s] }

// sources: the last one is nobody's.
var sources = []string{"s0", "s1", "S1", "s1 ", "", "a/b:c \u00e9", "s6", strings.Repeat("long", 100), "nobody"}

func genLayout(rnd *rand.Rand) *layout {
	if rnd.Intn(8) == 0 {
		return genLayoutN(rnd, 7+rnd.Intn(20))
	}
	return genLayoutN(rnd, 1+rnd.Intn(6))
}

func genLayoutN(rnd *rand.Rand, nodes int) *layout {
	l := &layout{nodes: nodes, own: map[string][]int{}}
	l.local = rnd.Intn(l.nodes)
	for i := 0; i < 8; i++ {
		k := 1
		switch rnd.Intn(5) {
		case 0:
			k = 0
		case 1, 2:
			k = 1 + rnd.Intn(l.nodes)
		}
		l.own[sources[i]] = rnd.Perm(l.nodes)[:k]
	}
	return l
}

// failure is one of the errors a peer may fail with.
func failure(rnd *rand.Rand) error {
	switch c := rnd.Intn(20); c {
	case 0, 17:
		return errors.New("down")
	case 18:
		return context.DeadlineExceeded
	case 19:
		return io.EOF
	default:
		return status.Error(codes.Code(c), "down")
	}
}

func batch(rnd *rand.Rand, l *layout, tag string, n int) []*loggregator_v2.Envelope {
	var out []*loggregator_v2.Envelope
	for i := 0; i < n; i++ {
		e := env.Any(rnd)
		e.SourceId = sources[rnd.Intn(len(sources))]
		e.InstanceId = fmt.Sprint(tag, "-", i)
		out = append(out, e)
	}
	return out
}

func fanout(r *vk.R) {
	n := r.Scale(1500, 80000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("fanout", c)
		l := genLayout(rnd)
		var nodes []*node
		var clients []rpc.IngressClient
		failing := map[int]bool{}
		for i := 0; i < l.nodes; i++ {
			x := &node{}
			if rnd.Intn(4) == 0 {
				failing[i] = true
				fr := rand.New(rand.NewSource(rnd.Int63()))
				x.fail = func(*rpc.SendRequest) error { return failure(fr) }
			}
			nodes = append(nodes, x)
			clients = append(clients, x)
		}
		p := routing.NewIngressReverseProxy(l.lookup, clients, l.local, quiet)
		for k := 0; k < 3; k++ {
			if k > 0 && rnd.Intn(2) == 0 {
				l.own = genLayoutN(rnd, l.nodes).own // ownership moves on
			}
			size := rnd.Intn(25)
			if rnd.Intn(150) == 0 {
				size = 25 + rnd.Intn(1500)
			}
			es := batch(rnd, l, "e", size)
			if len(es) > 0 && rnd.Intn(3) == 0 {
				// The same again, as a copy, and as the same value.
				j := rnd.Intn(len(es))
				es = append(es[:j+1], es[j:]...)
				if rnd.Intn(2) == 0 {
					es[j] = proto.Clone(es[j]).(*loggregator_v2.Envelope)
				}
			}
			var snaps []string
			for _, e := range es {
				snaps = append(snaps, e.String())
			}
			req := &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}, LocalOnly: rnd.Intn(5) == 0}
			if len(es) == 0 && rnd.Intn(2) == 0 {
				req.Envelopes = nil
			}
			r.Case(map[string]interface{}{"nodes": l.nodes, "local": l.local, "owners": l.own, "localOnly": req.LocalOnly, "envelopes": len(es), "failing": fmt.Sprint(failing)})
			var err error
			if !r.Safely("Send", func() { _, err = p.Send(context.Background(), req) }) {
				continue
			}
			concerned := 0
			for i, x := range nodes {
				var want []int
				for j, e := range es {
					if req.LocalOnly {
						if i == l.local {
							want = append(want, j)
						}
						continue
					}
					for _, o := range l.own[e.SourceId] {
						if o == i {
							want = append(want, j)
						}
					}
				}
				if len(want) > 0 {
					concerned++
				}
				var got []*loggregator_v2.Envelope
				for _, s := range x.take() {
					if !s.req.LocalOnly {
						r.Violate("peer-not-local-only", "node %d is sent a request that is not local-only", i)
					}
					got = append(got, s.req.GetEnvelopes().GetBatch()...)
				}
				if d := sameEnvelopes(got, es, snaps, want); d != "" {
					r.Violate("fanout", "node %d of %d (local %d, local-only %v, failing %v, owners %v): %s", i, l.nodes, l.local, req.LocalOnly, failing, l.own, d)
				}
			}
			if req.LocalOnly && err == nil && failing[l.local] {
				r.Violate("local-error", "a failed local-only write is answered with success")
			}
			if !req.LocalOnly && err != nil && len(failing) == 0 {
				r.Violate("error", "Send fails with %v though no node does", err)
			}
			r.Count("envelopes", len(es))
			r.Eval(fmt.Sprintf("%d/%d/%d", c, k, concerned), concerned > 1 || len(failing) > 0)
			if c%600 == 0 {
				r.Sample(map[string]interface{}{"nodes": l.nodes, "owners": l.own, "envelopes": len(es), "failing": len(failing)})
			}
		}
	}
}

// sameEnvelopes compares what a node got with the envelopes it should have: the
// same ones, each as often as it was sent, and those of one source in order.
func sameEnvelopes(got, es []*loggregator_v2.Envelope, snaps []string, want []int) string {
	due := map[string][]int{}
	for _, j := range want {
		due[es[j].SourceId] = append(due[es[j].SourceId], j)
	}
	for _, e := range got {
		l := due[e.GetSourceId()]
		if len(l) == 0 {
			return fmt.Sprintf("got %s/%s, which it should not get (again)", e.GetSourceId(), e.GetInstanceId())
		}
		if e.String() != snaps[l[0]] {
			return fmt.Sprintf("source %s: got %s where envelope %d is due: %s", e.SourceId, e, l[0], snaps[l[0]])
		}
		due[e.GetSourceId()] = l[1:]
	}
	for s, l := range due {
		if len(l) > 0 {
			return fmt.Sprintf("envelope %d of source %q is missing (%d got, %d wanted)", l[0], s, len(got), len(want))
		}
	}
	return ""
}

func fanoutParallel(r *vk.R) {
	n := r.Scale(40, 1500)
	for c := 0; c < n; c++ {
		rnd := r.Rand("fanoutParallel", c)
		l := genLayout(rnd)
		var nodes []*node
		var clients []rpc.IngressClient
		for i := 0; i < l.nodes; i++ {
			x := &node{}
			if rnd.Intn(4) == 0 {
				why := failure(rnd)
				x.fail = func(*rpc.SendRequest) error { return why }
			}
			nodes = append(nodes, x)
			clients = append(clients, x)
		}
		p := routing.NewIngressReverseProxy(l.lookup, clients, l.local, quiet)
		var wg sync.WaitGroup
		var mu sync.Mutex
		all := map[string]*loggregator_v2.Envelope{}
		snap := map[string]string{}
		localOnly := map[string]bool{}
		r.Case(map[string]interface{}{"case": c})
		for g := 0; g < 6; g++ {
			g := g
			gr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 8; k++ {
					es := batch(gr, l, fmt.Sprintf("%d-%d", g, k), gr.Intn(30))
					lo := gr.Intn(6) == 0
					mu.Lock()
					for _, e := range es {
						all[e.InstanceId] = e
						snap[e.InstanceId] = e.String()
						localOnly[e.InstanceId] = lo
					}
					mu.Unlock()
					p.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}, LocalOnly: lo})
				}
			}()
		}
		wg.Wait()
		for i, x := range nodes {
			got := map[string]int{}
			for _, s := range x.take() {
				for _, e := range s.req.GetEnvelopes().GetBatch() {
					got[e.InstanceId]++
					if e.String() != snap[e.InstanceId] {
						r.Violate("parallel:content", "got %s for %s", e, snap[e.InstanceId])
					}
				}
			}
			for id, e := range all {
				want := 0
				if localOnly[id] {
					if i == l.local {
						want = 1
					}
				} else {
					for _, o := range l.own[e.SourceId] {
						if o == i {
							want = 1
						}
					}
				}
				if got[id] != want {
					r.Violate("parallel:fanout", "node %d got %s/%s %d times, want %d (local-only %v, owners %v, local %d)", i, e.SourceId, id, got[id], want, localOnly[id], l.own[e.SourceId], l.local)
				}
			}
		}
		r.Count("parallel_envelopes", len(all))
		r.Eval(fmt.Sprint("parallel", c), l.nodes > 1)
	}
}

// ---- C07

type counter struct{ n int64 }

func (c *counter) Add(f float64) { atomic.AddInt64(&c.n, int64(f)) }

var _ metrics.Counter = (*counter)(nil)

// given is an envelope handed in.
type given struct {
	at  time.Time
	sum uint64
}

type arrival struct {
	at    time.Time
	ids   []string
	sums  []uint64
	nsize int
	local bool
}

type peer struct {
	mu       sync.Mutex
	got      []arrival
	behave   func(k int) (string, time.Duration)
	why      error
	calls    int
	total    int
	unbound  bool
	inFlight int
	overlap  bool
}

// sum stands for the contents of an envelope.
func sum(e *loggregator_v2.Envelope) uint64 {
	h := fnv.New64a()
	if l := e.GetLog().GetPayload(); len(l) > 0 {
		fmt.Fprint(h, proto.Size(e), crc32.ChecksumIEEE(l), e.SourceId, e.InstanceId, e.Timestamp)
	} else {
		io.WriteString(h, e.String())
	}
	return h.Sum64()
}

func (p *peer) Send(ctx context.Context, in *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	p.mu.Lock()
	a := arrival{at: time.Now(), nsize: len(in.GetEnvelopes().GetBatch()), local: in.LocalOnly}
	for _, e := range in.GetEnvelopes().GetBatch() {
		a.ids = append(a.ids, e.GetSourceId()+"/"+e.GetInstanceId())
		a.sums = append(a.sums, sum(e))
	}
	p.got = append(p.got, a)
	p.total += a.nsize
	k := p.calls
	p.calls++
	if _, ok := ctx.Deadline(); !ok {
		p.unbound = true
	}
	p.mu.Unlock()
	what, d := p.behave(k)
	switch what {
	case "fail":
		return nil, p.why
	case "slow":
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	case "hang":
		<-ctx.Done()
		return nil, ctx.Err()
	}
	return &rpc.SendResponse{}, nil
}

func (p *peer) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.total
}

func senders(r *vk.R) {
	n := r.Scale(300, 6000)
	r.Bubble(func() {
		var checks []func()
		var cases sync.WaitGroup
		for c := 0; c < n; c++ {
			c := c
			rnd := r.Rand("senders", c)
			size := 1 + rnd.Intn(120)
			interval := time.Duration(1+rnd.Intn(2000)) * time.Millisecond
			gs := 1 + rnd.Intn(6)
			mood := rnd.Intn(5)
			bs := rand.New(rand.NewSource(rnd.Int63()))
			down, outage := true, 0
			p := &peer{why: failure(rnd), behave: func(k int) (string, time.Duration) {
				if mood == 0 {
					return "ok", 0
				}
				if mood == 4 {
					// It is away for a while, and back for a while.
					if outage--; outage < 0 {
						down, outage = !down, bs.Intn(40)
					}
					if !down {
						return "ok", 0
					}
					return "fail", 0
				}
				switch bs.Intn(3 + 3*mood) {
				case 0:
					return "fail", 0
				case 1:
					return "slow", time.Duration(bs.Intn(2500)) * time.Millisecond
				case 2:
					if mood == 3 {
						return "hang", 0
					}
				}
				return "ok", 0
			}}
			drop := &counter{}
			cl := routing.NewBatchedIngressClient(size, interval, p, drop, quiet)
			r.Case(map[string]interface{}{"case": c, "size": size, "interval": interval.String(), "senders": gs, "mood": mood})
			var wg sync.WaitGroup
			var mu sync.Mutex
			handed := map[string]given{}
			pauses := rnd.Intn(3)
			cases.Add(1)
			for g := 0; g < gs; g++ {
				g := g
				gr := rand.New(rand.NewSource(rnd.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					id := 0
					for k := 0; k < 2+gr.Intn(12); k++ {
						var es []*loggregator_v2.Envelope
						for j := gr.Intn(min(60, 3*size)); j > 0; j-- {
							e := &loggregator_v2.Envelope{Timestamp: int64(id)}
							switch gr.Intn(20) {
							case 0:
								e = env.Any(gr)
							case 1:
								e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: make([]byte, gr.Intn(1<<uint(gr.Intn(18))))}}
							}
							e.SourceId, e.InstanceId = fmt.Sprint(g), fmt.Sprint(id)
							es = append(es, e)
							id++
						}
						t0 := time.Now()
						mu.Lock()
						for _, e := range es {
							handed[e.SourceId+"/"+e.InstanceId] = given{t0, sum(e)}
						}
						mu.Unlock()
						req := &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}, LocalOnly: gr.Intn(2) == 0}
						if len(es) == 0 && gr.Intn(2) == 0 {
							req.Envelopes = nil
						}
						if _, err := cl.Send(context.Background(), req); err != nil {
							r.Violate("send-error", "Send fails: %v", err)
						}
						if d := time.Since(t0); d != 0 {
							r.Violate("send-blocks", "handing in took %v", d)
						}
						switch pauses {
						case 1:
							time.Sleep(time.Duration(gr.Intn(300)) * time.Millisecond)
						case 2:
							if gr.Intn(3) == 0 {
								time.Sleep(time.Duration(gr.Intn(6000)) * time.Millisecond)
							}
						}
					}
				}()
			}
			go func() {
				defer cases.Done()
				wg.Wait()
				for end := time.Now().Add(time.Duration(len(handed)/size+40)*3100*time.Millisecond + 2*interval); time.Now().Before(end) && p.count() < len(handed); {
					time.Sleep(100 * time.Millisecond)
				}
				// Time for what should not come.
				time.Sleep(8*time.Second + 2*interval)
			}()
			checks = append(checks, func() {
				account(r, p, drop, handed, size, fmt.Sprintf("size %d interval %v senders %d mood %d", size, interval, gs, mood), len(handed) < 9000)
				if mood == 0 {
					for _, a := range p.got {
						for _, id := range a.ids {
							if late := a.at.Sub(handed[id].at); late > interval+250*time.Millisecond {
								r.Violate("late", "an envelope was sent %v after it was handed in (interval %v, healthy peer)", late, interval)
							}
						}
					}
				}
				r.Count("batches", len(p.got))
				r.Count("envelopes", len(handed))
				r.Eval(fmt.Sprintf("%d/%d/%d", c, gs, len(p.got)), gs > 1 || mood > 0)
				if c%60 == 0 {
					r.Sample(map[string]interface{}{"size": size, "interval": interval.String(), "senders": gs, "envelopes": len(handed), "batches": len(p.got)})
				}
			})
			// Clients never end, so many share one stretch of virtual time.
			if len(checks) == 100 || c == n-1 {
				cases.Wait()
				vk.Settle()
				for _, f := range checks {
					f()
				}
				checks = nil
			}
		}
		r.Finish()
	})
}

func account(r *vk.R, p *peer, drop *counter, handed map[string]given, size int, what string, noDrops bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	seen := map[string]bool{}
	last := map[string]int{}
	for _, a := range p.got {
		if a.nsize > size || a.nsize == 0 {
			r.Violate("batch-size", "a batch of %d, size is %d (%s)", a.nsize, size, what)
		}
		if !a.local {
			r.Violate("not-local-only", "a peer is sent a request that is not local-only (%s)", what)
		}
		for i, id := range a.ids {
			if was, ok := handed[id]; !ok {
				r.Violate("invented", "%s was sent but never handed in (%s)", id, what)
			} else if was.sum != a.sums[i] {
				r.Violate("changed", "%s was handed in with other contents than it is sent with (%s)", id, what)
			}
			if seen[id] {
				r.Violate("sent-twice", "%s was sent twice (%s)", id, what)
			}
			seen[id] = true
			var g, k int
			fmt.Sscanf(id, "%d/%d", &g, &k)
			if prev, ok := last[fmt.Sprint(g)]; ok && prev > k {
				r.Violate("order", "envelope %d of sender %d was sent after %d (%s)", k, g, prev, what)
			}
			last[fmt.Sprint(g)] = k
		}
	}
	d := atomic.LoadInt64(&drop.n)
	if int64(len(seen))+d != int64(len(handed)) {
		r.Violate("lost", "%d handed in, %d sent, %d counted as dropped (%s)", len(handed), len(seen), d, what)
	} else if noDrops && d != 0 {
		r.Violate("dropped", "%d of %d envelopes dropped though few waited (%s)", d, len(handed), what)
	}
	if p.unbound {
		r.Violate("unbounded", "a request to the peer has no time limit (%s)", what)
	}
}

// overflow floods the buffer while the peer is stuck.
func overflow(r *vk.R) {
	n := r.Scale(8, 100)
	r.Bubble(func() {
		for c := 0; c < n; c++ {
			rnd := r.Rand("overflow", c)
			size := 50 + rnd.Intn(100)
			gs := 1 + rnd.Intn(4)
			total := 9000 + rnd.Intn(20000)
			p := &peer{why: failure(rnd), behave: func(k int) (string, time.Duration) {
				if k == 0 {
					return "slow", 2 * time.Second
				}
				return "ok", 0
			}}
			drop := &counter{}
			cl := routing.NewBatchedIngressClient(size, 100*time.Millisecond, p, drop, quiet)
			r.Case(map[string]interface{}{"case": c, "size": size, "senders": gs, "total": total})
			first := &loggregator_v2.Envelope{SourceId: "99", InstanceId: "0"}
			handed := map[string]given{"99/0": {time.Now(), sum(first)}}
			cl.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{first}}})
			time.Sleep(time.Second) // the peer is stuck in the first batch by now
			var wg sync.WaitGroup
			var mu sync.Mutex
			for g := 0; g < gs; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for id := 0; id < total/gs; {
						var es []*loggregator_v2.Envelope
						for j := 0; j < 100; j++ {
							es = append(es, &loggregator_v2.Envelope{SourceId: fmt.Sprint(g), InstanceId: fmt.Sprint(id)})
							id++
						}
						mu.Lock()
						for _, e := range es {
							handed[e.SourceId+"/"+e.InstanceId] = given{time.Now(), sum(e)}
						}
						mu.Unlock()
						cl.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}})
					}
				}()
			}
			wg.Wait()
			time.Sleep(10 * time.Second)
			// What waits in the buffer comes out with the next traffic at the
			// latest.
			for k := 0; k < 3; k++ {
				id := fmt.Sprint(k)
				e := &loggregator_v2.Envelope{SourceId: "98", InstanceId: id}
				handed["98/"+id] = given{time.Now(), sum(e)}
				cl.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{e}}})
				time.Sleep(5 * time.Second)
			}
			vk.Settle()
			account(r, p, drop, handed, size, fmt.Sprintf("overflow of %d by %d senders", len(handed), gs), false)
			r.Count("dropped", int(drop.n))
			r.Count("overflow_envelopes", len(handed))
			r.Eval(fmt.Sprintf("overflow/%d/%d", c, drop.n), drop.n > 0)
		}
		r.Finish()
	})
}
