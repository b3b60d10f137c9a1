package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/anishathalye/porcupine"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// enode is a fake node to read from.
type enode struct {
	mu    sync.Mutex
	id    int
	down  bool
	reads []string
	metas []bool
	meta  map[string]*rpc.MetaInfo
	reply *rpc.ReadResponse
	// gone is when the caller leaves: before the node answers (1) or after (2).
	gone    int
	leave   func()
	careful bool // the local reader answers even a caller that has left
	gave    bool
}

func (n *enode) Read(_ context.Context, in *rpc.ReadRequest, _ ...grpc.CallOption) (*rpc.ReadResponse, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.reads = append(n.reads, in.String())
	if n.down {
		return nil, failure(rand.New(rand.NewSource(int64(n.id + 7*len(n.reads)))))
	}
	return n.reply, nil
}

func (n *enode) Meta(ctx context.Context, in *rpc.MetaRequest, _ ...grpc.CallOption) (*rpc.MetaResponse, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.metas = append(n.metas, in.LocalOnly)
	if n.down {
		return nil, failure(rand.New(rand.NewSource(int64(n.id + 7*len(n.metas)))))
	}
	if n.gone == 1 {
		n.leave()
	}
	if err := ctx.Err(); err != nil && n.careful {
		return nil, status.Error(codes.Canceled, err.Error())
	}
	if n.gone == 2 {
		n.leave()
	}
	n.gave = true
	m := map[string]*rpc.MetaInfo{}
	for k, v := range n.meta {
		c := *v
		m[k] = &c
	}
	return &rpc.MetaResponse{Meta: m}, nil
}

func enodes(l *layout) ([]*enode, []rpc.EgressClient) {
	var ns []*enode
	var cs []rpc.EgressClient
	for i := 0; i < l.nodes; i++ {
		n := &enode{id: i, reply: &rpc.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{InstanceId: fmt.Sprint(i)}}}}}
		ns = append(ns, n)
		cs = append(cs, n)
	}
	return ns, cs
}

func genRead(rnd *rand.Rand, src string) *rpc.ReadRequest {
	q := &rpc.ReadRequest{SourceId: src, StartTime: env.Int(rnd), EndTime: env.Int(rnd), Limit: int64(rnd.Intn(1100) - 50), Descending: rnd.Intn(2) == 0}
	if rnd.Intn(3) == 0 {
		q.EndTime = 0
	}
	if rnd.Intn(3) == 0 {
		q.Limit = 0
	}
	if rnd.Intn(3) == 0 {
		q.NameFilter = []string{"cpu", "^a.*b$", "[", "(?i)x", "a\\"}[rnd.Intn(5)]
	}
	for k := rnd.Intn(6) - 3; k > 0; k-- {
		q.EnvelopeTypes = append(q.EnvelopeTypes, rpc.EnvelopeType(rnd.Intn(6)))
	}
	return q
}

func egressRead(r *vk.R) {
	n := r.Scale(4000, 80000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("egressRead", c)
		l := genLayout(rnd)
		ns, cs := enodes(l)
		p := routing.NewEgressReverseProxy(l.lookup, cs, l.local, quiet)
		for k := 0; k < 4; k++ {
			for _, x := range ns {
				x.down = rnd.Intn(3) == 0
				x.reads, x.metas = nil, nil
			}
			if k > 0 && rnd.Intn(2) == 0 {
				l.own = genLayoutN(rnd, l.nodes).own
			}
			src := fmt.Sprint("s", rnd.Intn(9))
			own := l.own[src]
			q := genRead(rnd, src)
			before := q.String()
			r.Case(map[string]interface{}{"nodes": l.nodes, "local": l.local, "owners": own, "request": q})
			var resp *rpc.ReadResponse
			var err error
			if !r.Safely("Read", func() { resp, err = p.Read(context.Background(), q) }) {
				continue
			}
			asked := -1
			for i, x := range ns {
				if len(x.reads) == 0 {
					continue
				}
				if asked >= 0 || len(x.reads) > 1 {
					r.Violate("read:asks-more", "more than one read of %s (owners %v, local %d)", src, own, l.local)
				}
				asked = i
				if x.reads[0] != before {
					r.Violate("read:request", "node %d is asked %s for %s", i, x.reads[0], before)
				}
			}
			local, owner := false, false
			for _, o := range own {
				local = local || o == l.local
				owner = owner || o == asked
			}
			switch {
			case len(own) == 0:
				if err == nil || asked >= 0 {
					r.Violate("read:no-owner", "a source without owner is answered %v, %v (asked %d)", resp, err, asked)
				}
			case !owner:
				r.Violate("read:owner", "source of %v (local %d): node %d is asked, answer %v %v", own, l.local, asked, resp, err)
			case local && asked != l.local:
				r.Violate("read:local", "source of %v: node %d is asked, local is %d", own, asked, l.local)
			case ns[asked].down != (err != nil):
				r.Violate("read:error", "node %d down=%v, answer %v, %v", asked, ns[asked].down, resp, err)
			case err == nil && resp.String() != ns[asked].reply.String():
				r.Violate("read:answer", "node %d says %v, answer %v", asked, ns[asked].reply, resp)
			}
			r.Eval(fmt.Sprintf("%d/%d/%d", c, k, asked), asked != l.local)
			if err != nil {
				r.Count("read_errors", 1)
			} else {
				r.Count("read_answers", 1)
			}
		}
	}
}

func genMetas(rnd *rand.Rand, ns []*enode) {
	for _, x := range ns {
		x.mu.Lock()
		x.meta = map[string]*rpc.MetaInfo{}
		for k := rnd.Intn(5); k > 0; k-- {
			x.meta[fmt.Sprint("m", rnd.Intn(12))] = &rpc.MetaInfo{Count: rnd.Int63n(100), Expired: rnd.Int63n(100), OldestTimestamp: rnd.Int63(), NewestTimestamp: rnd.Int63()}
		}
		if rnd.Intn(150) == 0 {
			for k := rnd.Intn(4000); k > 0; k-- {
				x.meta[fmt.Sprint("many", rnd.Intn(5000))] = &rpc.MetaInfo{Count: int64(k)}
			}
		}
		x.down = rnd.Intn(3) == 0
		x.reads, x.metas = nil, nil
		x.gone, x.gave, x.careful = 0, false, true
		x.mu.Unlock()
	}
}

func metaString(m *rpc.MetaResponse) string { return m.String() }

// checkUnion checks a freshly collected answer.
func checkUnion(ns []*enode, got map[string]*rpc.MetaInfo) string {
	keys := map[string][]*rpc.MetaInfo{}
	for _, x := range ns {
		if !x.down {
			for k, v := range x.meta {
				keys[k] = append(keys[k], v)
			}
		}
	}
	for k, g := range got {
		ok := false
		for _, w := range keys[k] {
			ok = ok || (g.GetCount() == w.Count && g.GetExpired() == w.Expired && g.GetOldestTimestamp() == w.OldestTimestamp && g.GetNewestTimestamp() == w.NewestTimestamp)
		}
		if !ok {
			return fmt.Sprintf("source %s is reported as %v, the nodes say %v", k, g, keys[k])
		}
	}
	for k := range keys {
		if _, ok := got[k]; !ok {
			return fmt.Sprintf("source %s is missing", k)
		}
	}
	return ""
}

func egressMeta(r *vk.R) {
	n := r.Scale(600, 12000)
	for c := 0; c < n; c++ {
		rnd := r.Rand("egressMeta", c)
		r.Bubble(func() {
			l := genLayout(rnd)
			ns, cs := enodes(l)
			d := time.Second
			var opts []routing.EgressReverseProxyOption
			if rnd.Intn(2) == 0 {
				d = time.Duration(rnd.Intn(5000)) * time.Millisecond
				opts = append(opts, routing.WithMetaCacheDuration(d))
			}
			p := routing.NewEgressReverseProxy(l.lookup, cs, l.local, quiet, opts...)
			type memo struct {
				at   time.Time
				snap string
				gave []*enode // who told a caller that left
			}
			cache := map[bool]*memo{}
			for k := 0; k < 14; k++ {
				genMetas(rnd, ns)
				lo := rnd.Intn(3) == 0
				// Some callers leave before, during or after the collection;
				// what the others are told is none of their business.
				ctx, leave := context.WithCancel(context.Background())
				left := "no"
				if rnd.Intn(4) == 0 {
					ns[l.local].careful = rnd.Intn(2) == 0
					if rnd.Intn(4) == 0 {
						leave()
						left = "before"
					} else {
						x := rnd.Intn(len(ns))
						ns[x].gone, ns[x].leave = 1+rnd.Intn(2), leave
						left = fmt.Sprint("node ", x, " ", ns[x].gone)
					}
				}
				r.Case(map[string]interface{}{"nodes": l.nodes, "local": l.local, "localOnly": lo, "cache": d.String(), "step": k, "caller leaves": left})
				var resp *rpc.MetaResponse
				var err error
				if !r.Safely("Meta", func() { resp, err = p.Meta(ctx, &rpc.MetaRequest{LocalOnly: lo}) }) {
					return
				}
				asked, downs := 0, 0
				for i, x := range ns {
					if x.down {
						downs++
					}
					if len(x.metas) > 1 {
						r.Violate("meta:asks-more", "node %d is asked %d times", i, len(x.metas))
					}
					asked += len(x.metas)
					if lo && i != l.local && len(x.metas) > 0 {
						r.Violate("meta:local", "local-only meta asks node %d, local is %d", i, l.local)
					}
					if len(x.metas) > 0 && !x.metas[0] {
						r.Violate("meta:bounce", "node %d is asked for more than its own meta", i)
					}
				}
				m := cache[lo]
				gone := ctx.Err() != nil
				leave()
				switch {
				case gone:
					// Only an answer that lacks nothing may be kept.
					whole := asked > 0
					var gave []*enode
					for i, x := range ns {
						whole = whole && (x.gave || x.down || lo && i != l.local)
						if x.gave {
							gave = append(gave, &enode{meta: x.meta})
						}
					}
					if whole && len(gave) > 0 {
						cache[lo] = &memo{at: time.Now(), gave: gave}
					}
					r.Count("meta_caller_left", 1)
				case asked == 0:
					r.Count("meta_cached", 1)
					if m == nil || time.Since(m.at) > d {
						r.Violate("meta:stale", "an answer is given without asking anyone, %v, %v (cache %v)", resp, err, d)
					} else if m.gave != nil && err == nil {
						if s := checkUnion(m.gave, resp.GetMeta()); s != "" {
							r.Violate("meta:cache", "local-only %v: kept from a caller that left: %s", lo, s)
						}
						m.gave, m.snap = nil, metaString(resp)
					} else if err != nil || metaString(resp) != m.snap {
						r.Violate("meta:cache", "local-only %v: the cached answer was %s and is now %v, %v", lo, m.snap, resp, err)
					}
				case lo:
					x := ns[l.local]
					if x.down != (err != nil) {
						r.Violate("meta:local-error", "local node down=%v, answer %v, %v", x.down, resp, err)
					} else if err == nil {
						if s := checkUnion([]*enode{x}, resp.GetMeta()); s != "" {
							r.Violate("meta:local-answer", "%s", s)
						}
					}
				default:
					if asked != len(ns) {
						r.Violate("meta:incomplete", "%d of %d nodes asked", asked, len(ns))
					}
					if (downs == len(ns)) != (err != nil) {
						r.Violate("meta:error", "%d of %d nodes down, answer %v, %v", downs, len(ns), resp, err)
					} else if err == nil {
						if s := checkUnion(ns, resp.GetMeta()); s != "" {
							r.Violate("meta:union", "%d of %d nodes down: %s", downs, len(ns), s)
						}
					}
					r.Count("meta_collected", 1)
				}
				if asked > 0 && err == nil && !gone {
					cache[lo] = &memo{at: time.Now(), snap: metaString(resp)}
				}
				r.Eval(fmt.Sprintf("meta/%d/%d", c, k), asked == 0 || downs > 0)
				switch rnd.Intn(4) {
				case 0:
				case 1:
					time.Sleep(d)
				case 2:
					time.Sleep(d + time.Nanosecond)
				default:
					time.Sleep(time.Duration(rnd.Int63n(int64(d)*2 + 1)))
				}
			}
		})
	}
}

// egressParallel has concurrent callers for the race detector; the nodes do not
// change, so that every answer is known.
func egressParallel(r *vk.R) {
	n := r.Scale(60, 1200)
	for c := 0; c < n; c++ {
		rnd := r.Rand("egressParallel", c)
		l := genLayout(rnd)
		ns, cs := enodes(l)
		genMetas(rnd, ns)
		all := true
		for _, x := range ns {
			all = all && x.down
		}
		ns[l.local].down = false
		p := routing.NewEgressReverseProxy(l.lookup, cs, l.local, quiet, routing.WithMetaCacheDuration(time.Duration(rnd.Intn(300))*time.Microsecond))
		r.Case(map[string]interface{}{"case": c})
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			gr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Safely("concurrent requests", func() {
					for k := 0; k < 40; k++ {
						if gr.Intn(3) == 0 {
							src := fmt.Sprint("s", gr.Intn(9))
							resp, err := p.Read(context.Background(), &rpc.ReadRequest{SourceId: src})
							ok := false
							for _, o := range l.own[src] {
								if err != nil {
									ok = ok || ns[o].down
								} else {
									ok = ok || resp.String() == ns[o].reply.String()
								}
							}
							if !ok && !(err != nil && len(l.own[src]) == 0) {
								r.Violate("parallel:read", "source of %v: %v %v", l.own[src], resp, err)
							}
							continue
						}
						lo := gr.Intn(2) == 0
						resp, err := p.Meta(context.Background(), &rpc.MetaRequest{LocalOnly: lo})
						from := ns
						if lo {
							from = ns[l.local : l.local+1]
						}
						if err != nil {
							r.Violate("parallel:meta-error", "%v", err)
						} else if s := checkUnion(from, resp.GetMeta()); s != "" {
							r.Violate("parallel:meta", "local-only %v: %s", lo, s)
						}
					}
				})
			}()
		}
		wg.Wait()
		r.Eval(fmt.Sprint("parallel", c), l.nodes > 1)
	}
}

// spyStore records what the local reader asks of the store.
type spyStore struct {
	calls int
	src   string
	start int64
	end   int64
	types []rpc.EnvelopeType
	name  *regexp.Regexp
	limit int
	desc  bool
	out   []*loggregator_v2.Envelope
	meta  map[string]rpc.MetaInfo
}

func (s *spyStore) Get(src string, start, end time.Time, types []rpc.EnvelopeType, name *regexp.Regexp, limit int, desc bool) []*loggregator_v2.Envelope {
	s.calls++
	s.src, s.start, s.end, s.types, s.name, s.limit, s.desc = src, start.UnixNano(), end.UnixNano(), types, name, limit, desc
	return s.out
}
func (s *spyStore) Meta() map[string]rpc.MetaInfo { return s.meta }

func localReader(r *vk.R) {
	n := r.Scale(6000, 120000)
	r.Bubble(func() {
		for c := 0; c < n; c++ {
			rnd := r.Rand("localReader", c)
			s := &spyStore{meta: map[string]rpc.MetaInfo{}}
			for k := rnd.Intn(4); k > 0; k-- {
				s.out = append(s.out, &loggregator_v2.Envelope{InstanceId: fmt.Sprint(k)})
				s.meta[fmt.Sprint("m", k)] = rpc.MetaInfo{Count: int64(k), Expired: rnd.Int63(), OldestTimestamp: rnd.Int63(), NewestTimestamp: rnd.Int63()}
			}
			lr := routing.NewLocalStoreReader(s)
			q := genRead(rnd, env.Str(rnd))
			if rnd.Intn(4) == 0 {
				q.Limit = []int64{1000, 1001, -1, 1, math.MaxInt64, math.MinInt64}[rnd.Intn(6)]
			}
			if rnd.Intn(6) == 0 {
				q.EndTime = q.StartTime + int64(rnd.Intn(3)-1)
			}
			o := *q
			r.Case(map[string]interface{}{"request": o.String()})
			var f *regexp.Regexp
			var ferr error
			if q.NameFilter != "" {
				f, ferr = regexp.Compile(q.NameFilter)
			}
			bad := q.Limit > 1000 || q.Limit < 0 || ferr != nil || (q.EndTime != 0 && q.StartTime > q.EndTime)
			var resp *rpc.ReadResponse
			var err error
			if !r.Safely("Read", func() { resp, err = lr.Read(context.Background(), q) }) {
				continue
			}
			r.Eval(fmt.Sprintf("local/%d", c), true)
			if bad {
				r.Count("refused", 1)
				if err == nil || s.calls != 0 {
					r.Violate("local:accepts", "%s is answered %v", o.String(), resp)
				}
				continue
			}
			r.Count("local_reads", 1)
			if err != nil || s.calls != 1 {
				r.Violate("local:refuses", "%s: %v (%d store reads)", o.String(), err, s.calls)
				continue
			}
			end, limit := o.EndTime, int(o.Limit)
			if end == 0 {
				end = time.Now().UnixNano()
			}
			if limit == 0 {
				limit = 100
			}
			var types []rpc.EnvelopeType
			for _, t := range o.EnvelopeTypes {
				if t != rpc.EnvelopeType_ANY {
					types = append(types, t)
				}
			}
			if s.src != o.SourceId || s.start != o.StartTime || s.end != end || s.limit != limit || s.desc != o.Descending ||
				(f == nil) != (s.name == nil) || (f != nil && f.String() != s.name.String()) || !sameTypes(types, s.types) {
				r.Violate("local:request", "%s asks the store for %q [%d,%d) types %v name %v limit %d descending %v", o.String(), s.src, s.start, s.end, s.types, s.name, s.limit, s.desc)
			}
			if !reflect.DeepEqual(append([]*loggregator_v2.Envelope{}, resp.GetEnvelopes().GetBatch()...), append([]*loggregator_v2.Envelope{}, s.out...)) {
				r.Violate("local:answer", "the store says %v, the answer is %v", s.out, resp)
			}
			m, err := lr.Meta(context.Background(), &rpc.MetaRequest{LocalOnly: rnd.Intn(2) == 0})
			if err != nil || len(m.Meta) != len(s.meta) {
				r.Violate("local:meta", "%v %v for %v", m, err, s.meta)
			}
			for k, v := range s.meta {
				if g := m.GetMeta()[k]; g.GetCount() != v.Count || g.GetExpired() != v.Expired || g.GetOldestTimestamp() != v.OldestTimestamp || g.GetNewestTimestamp() != v.NewestTimestamp {
					r.Violate("local:meta", "%s is reported as %v, the store says %v", k, g, vk.J(v))
				}
			}
		}
		r.Finish()
	})
}

func sameTypes(a, b []rpc.EnvelopeType) bool {
	m := map[rpc.EnvelopeType]bool{}
	for _, t := range a {
		m[t] = true
	}
	k := map[rpc.EnvelopeType]bool{}
	for _, t := range b {
		k[t] = true
	}
	return reflect.DeepEqual(m, k)
}

// ---- C11

type setter struct {
	mu  sync.Mutex
	got []*rpc.SetRangesRequest
	err error
}

func (s *setter) SetRanges(_ context.Context, in *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, in)
	if s.err != nil {
		return nil, s.err
	}
	return &rpc.SetRangesResponse{}, nil
}

type rng struct{ s, e uint64 }

func listed(l []*rpc.Range) (map[rng]bool, string) {
	m := map[rng]bool{}
	for _, x := range l {
		if x == nil {
			return m, "an empty range"
		}
		k := rng{x.Start, x.End}
		if m[k] {
			return m, fmt.Sprintf("range %v twice", k)
		}
		m[k] = true
	}
	return m, ""
}

func rangeHistories(r *vk.R) {
	n := r.Scale(1500, 30000)
	bg := context.Background()
	for c := 0; c < n; c++ {
		rnd := r.Rand("ranges", c)
		st := &setter{}
		o := routing.NewOrchestratorAgent(st)
		model := map[rng]bool{}
		pool, steps := make([]rng, 2+rnd.Intn(6)), 30
		if c%150 == 75 {
			pool, steps = make([]rng, 400), 700
		}
		for i := range pool {
			pool[i] = rng{uint64(rnd.Intn(4)), uint64(rnd.Intn(4))}
			switch x := rnd.Intn(6); {
			case x < 2 || steps > 30:
				pool[i] = rng{rnd.Uint64(), rnd.Uint64()}
			case x == 2:
				pool[i] = rng{[]uint64{0, math.MaxUint64, math.MaxUint64 - 1, 1 << 63}[rnd.Intn(4)], []uint64{0, math.MaxUint64, 1 << 63, 1<<63 - 1}[rnd.Intn(4)]}
			}
		}
		var hist []string
		type kept struct {
			l    []*rpc.Range
			snap string
			step int
		}
		var lists []kept
		reused := false
		for k := 0; k < steps; k++ {
			x := pool[rnd.Intn(len(pool))]
			act := rnd.Intn(9)
			if steps > 30 && k < len(pool) {
				x, act = pool[k], 0
			}
			if len(hist) > 40 {
				hist = append([]string{"..."}, hist[len(hist)-30:]...)
			}
			rg := &rpc.Range{Start: x.s, End: x.e}
			r.Case(map[string]interface{}{"case": c, "history": hist})
			switch act {
			case 0, 1, 2:
				hist = append(hist, fmt.Sprint("add ", x))
				reused = reused || model[x]
				if _, err := o.AddRange(bg, &rpc.AddRangeRequest{Range: rg}); err != nil {
					r.Violate("range:add", "%v: %v", hist, err)
				}
				model[x] = true
			case 3, 4:
				hist = append(hist, fmt.Sprint("remove ", x))
				reused = reused || model[x]
				if _, err := o.RemoveRange(bg, &rpc.RemoveRangeRequest{Range: rg}); err != nil {
					r.Violate("range:remove", "%v: %v", hist, err)
				}
				delete(model, x)
			case 5:
				t, _ := genTable(rnd, []string{"a", "b", "c"})
				req := &rpc.SetRangesRequest{Ranges: t}
				want := req.String()
				st.err = nil
				if rnd.Intn(3) == 0 {
					st.err = failure(rnd)
				}
				st.got = nil
				hist = append(hist, "set table")
				_, err := o.SetRanges(bg, req)
				if len(st.got) != 1 || st.got[0].String() != want || (err != nil) != (st.err != nil) {
					r.Violate("range:table", "table %s handed over as %v, answer %v", want, st.got, err)
				}
			case 6:
				if rnd.Intn(3) == 0 {
					hist = append(hist, "empty request")
					r.Safely("a request without a range", func() {
						o.AddRange(bg, &rpc.AddRangeRequest{})
						o.RemoveRange(bg, &rpc.RemoveRangeRequest{})
					})
				}
			default:
			}
			if steps > 30 && k%50 != 0 && k != steps-1 {
				continue
			}
			resp, err := o.ListRanges(bg, &rpc.ListRangesRequest{})
			if err != nil {
				r.Violate("range:list", "%v: %v", hist, err)
				break
			}
			got, bad := listed(resp.Ranges)
			if bad != "" || !reflect.DeepEqual(got, model) {
				r.Violate("range:list", "after %v the list is %v %s, want %v", hist, resp.Ranges, bad, model)
				break
			}
			lists = append(lists, kept{resp.Ranges, fmt.Sprint(resp.Ranges), k})
		}
		for _, l := range lists {
			if fmt.Sprint(l.l) != l.snap {
				r.Violate("range:list-changes", "the list of step %d was %s and is now %v", l.step, l.snap, l.l)
				break
			}
		}
		r.Count("range_steps", steps)
		r.Eval(fmt.Sprint("ranges", c), reused)
	}
}

type rop struct {
	kind string
	x    int
	out  uint64 // bit set of listed ranges
}

func rangeConcurrent(r *vk.R) {
	n := r.Scale(250, 5000)
	model := porcupine.Model{
		Init: func() interface{} { return uint64(0) },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			s, o := state.(uint64), in.(rop)
			switch o.kind {
			case "add":
				return true, s | 1<<uint(o.x)
			case "remove":
				return true, s &^ (1 << uint(o.x))
			}
			return out.(uint64) == s, s
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
	bg := context.Background()
	for c := 0; c < n; c++ {
		rnd := r.Rand("rangeConcurrent", c)
		o := routing.NewOrchestratorAgent(&setter{})
		keys := 2 + rnd.Intn(5)
		t0 := time.Now()
		var mu sync.Mutex
		var ops []porcupine.Operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		r.Case(map[string]interface{}{"case": c})
		for g := 0; g < 4; g++ {
			g := g
			gr := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				var mine []porcupine.Operation
				for k := 0; k < 12; k++ {
					x := gr.Intn(keys)
					rg := &rpc.Range{Start: uint64(x), End: uint64(x * 10)}
					op := rop{x: x}
					var out uint64
					from := time.Since(t0).Nanoseconds()
					switch gr.Intn(4) {
					case 0, 1:
						op.kind = "add"
						o.AddRange(bg, &rpc.AddRangeRequest{Range: rg})
					case 2:
						op.kind = "remove"
						o.RemoveRange(bg, &rpc.RemoveRangeRequest{Range: rg})
					default:
						op.kind = "list"
						resp, _ := o.ListRanges(bg, &rpc.ListRangesRequest{})
						_ = resp.String() // as gRPC reads it, after the call
						got, bad := listed(resp.GetRanges())
						if bad != "" {
							r.Violate("range:concurrent-list", "%s in %v", bad, resp)
						}
						for x := range got {
							out |= 1 << uint(x.s)
						}
					}
					to := time.Since(t0).Nanoseconds()
					mine = append(mine, porcupine.Operation{ClientId: g, Input: op, Output: out, Call: from, Return: to})
				}
				mu.Lock()
				ops = append(ops, mine...)
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		resp, _ := o.ListRanges(bg, &rpc.ListRangesRequest{})
		got, _ := listed(resp.GetRanges())
		var out uint64
		for x := range got {
			out |= 1 << uint(x.s)
		}
		end := time.Since(t0).Nanoseconds()
		ops = append(ops, porcupine.Operation{ClientId: 9, Input: rop{kind: "list"}, Output: out, Call: end, Return: end + 1})
		overlaps := 0
		for i := range ops {
			for j := range ops {
				if i < j && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
					overlaps++
				}
			}
		}
		r.Count("range_calls", len(ops))
		r.Count("overlapping_pairs", overlaps)
		r.Eval(fmt.Sprintf("lin/%d/%d", c, overlaps), overlaps > 0)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			r.Violate("range:linearizable", "no order of the calls explains their answers: %+v", ops)
		case porcupine.Unknown:
			r.Count("undecided", 1)
		}
	}
}
