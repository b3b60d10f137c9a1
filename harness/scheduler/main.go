// Monitors for the scheduler: C10.
package main

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"sort"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/scheduler"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/grpclog"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

func main() {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(ioutil.Discard, ioutil.Discard, ioutil.Discard))
	vk.Main(map[string]vk.Check{
		"C10": {
			Rule:        "schedulers with generated numbers of nodes, ranges and replicas in virtual time, over gRPC to fake nodes that fail, hang, restart, lose or keep ranges, or carry foreign ones, while leadership comes and goes; every change is judged when it arrives, the whole state after each calm stretch; the real command over mutual TLS with a leadership endpoint; non-trivial: a fault or a change of leadership happened, or several replicas",
			Assumptions: []string{"go-orchestrator, which is not installed here, behaves as the stand-in in shims/ does: it lists all workers, then adds and removes towards an even spread"},
			Parts:       []vk.Part{{Name: "histories", Run: histories}, {Name: "counts", Run: counts}, {Name: "command", Run: command}},
		},
	})
}

type rng struct{ s, e uint64 }

func rngs(l []*rpc.Range) []rng {
	var o []rng
	for _, x := range l {
		o = append(o, rng{x.GetStart(), x.GetEnd()})
	}
	sort.Slice(o, func(i, j int) bool { return o[i].s < o[j].s || o[i].s == o[j].s && o[i].e < o[j].e })
	return o
}

func same(a, b []rng) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// world is one scheduler and its nodes.
type world struct {
	mu       sync.Mutex
	r        *vk.R
	name     string
	nodes    []*node
	leader   bool
	interval time.Duration
	count    int
	rf       int
	events   []string
	changes  int
	sets     int
	asked    int
}

func (w *world) note(f string, a ...interface{}) {
	w.events = append(w.events, time.Now().Format("04:05.000 ")+fmt.Sprintf(f, a...))
	if len(w.events) > 60 {
		w.events = append([]string(nil), w.events[len(w.events)-40:]...)
	}
}

func (w *world) bad(sig, f string, a ...interface{}) {
	w.r.Violate(sig, "%s: %s; history: %v", w.name, fmt.Sprintf(f, a...), w.events)
}

func (w *world) isLeader() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.asked++
	return w.leader
}

const (
	ok = iota
	fails
	hangs
	down
)

type node struct {
	w       *world
	addr    string
	mode    int
	since   time.Time // when the mode was set
	delay   time.Duration
	addErr  bool
	remErr  bool
	ranges  []*rpc.Range
	listed  []rng
	everL   bool
	table   map[string][]rng
	srv     *grpc.Server
	lis     *bufconn.Listener
	tableAt time.Time
}

func (n *node) serve() {
	n.lis = bufconn.Listen(1 << 16)
	n.srv = grpc.NewServer()
	rpc.RegisterOrchestrationServer(n.srv, n)
	go n.srv.Serve(n.lis)
}

// enter waits as the mode says; with no error it returns with the lock held.
func (n *node) enter(ctx context.Context, what string) error {
	n.w.mu.Lock()
	n.w.note("%s %s", n.addr, what)
	m, d := n.mode, n.delay
	n.w.mu.Unlock()
	switch m {
	case fails:
		return status.Error(codes.Unavailable, "not today")
	case hangs:
		<-ctx.Done()
		return ctx.Err()
	}
	if d > 0 {
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	n.w.mu.Lock()
	return nil
}

// change judges that a change is asked for by a leader.
func (n *node) change(what string) {
	n.w.mu.Lock()
	defer n.w.mu.Unlock()
	n.w.changes++
	if !n.w.leader {
		n.w.bad("changed-while-follower "+what, "%s arrives at %s although the scheduler is not leader", what, n.addr)
	}
}

func (n *node) AddRange(ctx context.Context, q *rpc.AddRangeRequest) (*rpc.AddRangeResponse, error) {
	n.change("AddRange")
	if err := n.enter(ctx, fmt.Sprint("add ", q)); err != nil {
		return nil, err
	}
	defer n.w.mu.Unlock()
	if n.addErr {
		return nil, errors.New("no adding today")
	}
	for _, x := range n.ranges {
		if x.Start == q.Range.Start && x.End == q.Range.End {
			return &rpc.AddRangeResponse{}, nil
		}
	}
	n.ranges = append(n.ranges, proto.Clone(q.Range).(*rpc.Range))
	return &rpc.AddRangeResponse{}, nil
}

func (n *node) RemoveRange(ctx context.Context, q *rpc.RemoveRangeRequest) (*rpc.RemoveRangeResponse, error) {
	n.change("RemoveRange")
	if err := n.enter(ctx, fmt.Sprint("remove ", q)); err != nil {
		return nil, err
	}
	defer n.w.mu.Unlock()
	if n.remErr {
		return nil, errors.New("no removing today")
	}
	for i, x := range n.ranges {
		if x.Start == q.Range.Start && x.End == q.Range.End {
			n.ranges = append(n.ranges[:i:i], n.ranges[i+1:]...)
			break
		}
	}
	return &rpc.RemoveRangeResponse{}, nil
}

func (n *node) ListRanges(ctx context.Context, q *rpc.ListRangesRequest) (*rpc.ListRangesResponse, error) {
	if err := n.enter(ctx, "list"); err != nil {
		return nil, err
	}
	defer n.w.mu.Unlock()
	resp := &rpc.ListRangesResponse{}
	for _, x := range n.ranges {
		resp.Ranges = append(resp.Ranges, proto.Clone(x).(*rpc.Range))
	}
	n.listed, n.everL = rngs(n.ranges), true
	return resp, nil
}

func (n *node) SetRanges(ctx context.Context, q *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	n.change("SetRanges")
	n.w.mu.Lock()
	n.w.sets++
	got := map[string][]rng{}
	for a, x := range q.Ranges {
		got[a] = rngs(x.GetRanges())
	}
	long := 3*n.w.interval + time.Duration(len(n.w.nodes)*n.w.count)*5*time.Second
	for _, m := range n.w.nodes {
		l, in := got[m.addr]
		age := time.Since(m.since)
		switch {
		case in && !m.everL:
			n.w.bad("table-unlisted", "%s is told that %s, which never answered, holds %v", n.addr, m.addr, l)
		case in && m.mode == ok && !same(l, m.listed):
			n.w.bad("table-differs", "%s is told that %s holds %v; it last answered %v", n.addr, m.addr, l, m.listed)
		case in && m.mode != ok && age > long && len(l) > 0:
			n.w.bad("table-dead-node", "%s is told that %s, which has not answered for %v, holds %v", n.addr, m.addr, age, l)
		case !in && m.mode == ok && age > long+4*time.Minute:
			n.w.bad("table-lacks-node", "%s is told nothing about %s, which has been well for %v", n.addr, m.addr, age)
		}
		delete(got, m.addr)
	}
	for a := range got {
		n.w.bad("table-stranger", "%s is told about %s, which is no node", n.addr, a)
	}
	n.w.mu.Unlock()
	if err := n.enter(ctx, fmt.Sprint("set ", q)); err != nil {
		return nil, err
	}
	defer n.w.mu.Unlock()
	n.table = map[string][]rng{}
	for a, x := range q.Ranges {
		n.table[a] = rngs(x.GetRanges())
	}
	n.tableAt = time.Now()
	return &rpc.SetRangesResponse{}, nil
}

// settled judges the state after a calm stretch under one leader. Nodes that
// are not well for all of it count as none.
func (w *world) settled() {
	w.mu.Lock()
	defer w.mu.Unlock()
	var up []*node
	for _, n := range w.nodes {
		if n.mode == ok {
			up = append(up, n)
		}
	}
	holders := map[rng]map[string]bool{}
	total, most, least := 0, 0, math.MaxInt
	for _, n := range up {
		l := rngs(n.ranges)
		total += len(l)
		if len(l) > most {
			most = len(l)
		}
		if len(l) < least {
			least = len(l)
		}
		for _, x := range l {
			if holders[x] == nil {
				holders[x] = map[string]bool{}
			}
			holders[x][n.addr] = true
		}
	}
	var all []*rpc.Range
	for x := range holders {
		all = append(all, &rpc.Range{Start: x.s, End: x.e})
	}
	l := rngs(all)
	if len(l) != w.count {
		w.bad("count", "there are %d ranges instead of %d", len(l), w.count)
	}
	var next uint64
	whole := false
	for i, x := range l {
		if x.s != next || x.e < x.s || whole {
			w.bad("cover", "range %d of %d is %v, the ones before end before %d", i, len(l), x, next)
			break
		}
		next = x.e + 1
		whole = x.e == math.MaxUint64
	}
	if !whole && len(l) > 0 {
		w.bad("cover", "the ranges end at %d", l[len(l)-1].e)
	}
	want := w.rf
	if want > len(up) {
		want = len(up)
	}
	for _, x := range l {
		if len(holders[x]) != want {
			w.bad("replicas", "range %v is on %d of %d nodes, %d of them well, the replication factor is %d", x, len(holders[x]), len(w.nodes), len(up), w.rf)
			break
		}
	}
	if share := (total + len(up) - 1) / len(up); most > share {
		w.bad("uneven", "a node has %d of %d ranges on %d nodes, another %d", most, total, len(up), least)
	}
	for _, n := range up {
		for _, m := range w.nodes {
			t, in := n.table[m.addr]
			if m.mode != ok {
				if len(t) > 0 {
					w.bad("table-old", "%s believes that %s, which has been gone for %v, holds %v", n.addr, m.addr, time.Since(m.since), t)
				}
				continue
			}
			if !in {
				w.bad("table-old", "%s knows nothing of %s, told %v ago", n.addr, m.addr, time.Since(n.tableAt))
			}
			if !same(t, rngs(m.ranges)) {
				w.bad("table-old", "%s believes that %s holds %v, which holds %v, told %v ago", n.addr, m.addr, t, rngs(m.ranges), time.Since(n.tableAt))
				break
			}
		}
		if a := time.Since(n.tableAt); a > 2*w.interval {
			w.bad("table-old", "%s was told %v ago, the interval is %v", n.addr, a, w.interval)
		}
	}
	if w.sets == 0 {
		w.bad("no-table", "no table was sent")
	}
}

// seed gives nodes ranges of an earlier life.
func (w *world) seed(rnd *rand.Rand, n *node) {
	x := uint64(math.MaxUint64) / uint64(w.count)
	for k := rnd.Intn(w.count + 2); k > 0; k-- {
		i := uint64(rnd.Intn(w.count))
		s := i * (x + 1)
		e := s + x
		if i == uint64(w.count)-1 {
			e = math.MaxUint64
		}
		if rnd.Intn(6) == 0 { // of another layout
			e = s + x/2
		}
		dup := false
		for _, y := range n.ranges {
			dup = dup || y.Start == s && y.End == e
		}
		if !dup {
			n.ranges = append(n.ranges, &rpc.Range{Start: s, End: e})
		}
	}
}

// build starts a scheduler over fake nodes.
func build(r *vk.R, rnd *rand.Rand, name string, nodes, count, rf int, interval time.Duration, leader bool, seeded bool) *world {
	w := &world{r: r, name: fmt.Sprintf("%s: %d nodes, %d ranges, replication factor %d, every %v", name, nodes, count, rf, interval), interval: interval, count: count, rf: rf, leader: leader}
	var addrs []string
	by := map[string]*node{}
	for i := 0; i < nodes; i++ {
		n := &node{w: w, addr: fmt.Sprintf("node-%d:8080", i), since: time.Now()}
		if seeded && rnd.Intn(3) == 0 {
			w.seed(rnd, n)
		}
		n.serve()
		w.nodes = append(w.nodes, n)
		addrs = append(addrs, n.addr)
		by[n.addr] = n
	}
	dial := func(ctx context.Context, a string) (net.Conn, error) {
		n := by[a]
		w.mu.Lock()
		lis, gone := n.lis, n.mode == down
		w.mu.Unlock()
		if gone {
			return nil, errors.New("connection refused")
		}
		return lis.Dial()
	}
	s := scheduler.NewScheduler(addrs,
		scheduler.WithSchedulerInterval(interval),
		scheduler.WithSchedulerCount(count),
		scheduler.WithSchedulerReplicationFactor(rf),
		scheduler.WithSchedulerLeadership(w.isLeader),
		scheduler.WithSchedulerDialOpts(grpc.WithInsecure(), grpc.WithContextDialer(dial)),
	)
	s.Start()
	return w
}

// heal makes all nodes well and the scheduler leader.
func (w *world) heal() {
	for _, n := range w.nodes {
		w.mu.Lock()
		was := n.mode
		if was != ok {
			n.mode, n.since = ok, time.Now()
		}
		n.addErr, n.remErr, n.delay = false, false, 0
		if was == down {
			n.serve()
		}
		w.mu.Unlock()
	}
	w.mu.Lock()
	w.note("all well, leader")
	w.leader = true
	w.mu.Unlock()
}

// leave makes some nodes stay away while all others are well.
func (w *world) leave(rnd *rand.Rand) (what string) {
	w.heal()
	for _, i := range rnd.Perm(len(w.nodes))[:1+rnd.Intn(len(w.nodes)-1)] {
		n := w.nodes[i]
		w.mu.Lock()
		n.mode, n.since = fails, time.Now()
		if rnd.Intn(2) == 0 {
			n.mode = down
		}
		what += fmt.Sprint(n.addr, []string{"", " fails, ", "", " is gone, "}[n.mode])
		stop, gone := n.srv, n.mode == down
		w.note("%s", what)
		w.mu.Unlock()
		if gone {
			stop.Stop()
		}
	}
	return what
}

func (w *world) upset(rnd *rand.Rand) string {
	n := w.nodes[rnd.Intn(len(w.nodes))]
	var stop *grpc.Server
	w.mu.Lock()
	what := ""
	switch rnd.Intn(9) {
	case 0, 1:
		w.leader = !w.leader
		what = fmt.Sprint("leader ", w.leader)
	case 2:
		if n.mode != down {
			n.mode, n.since = 1+rnd.Intn(2), time.Now()
			what = fmt.Sprint(n.addr, []string{"", " fails", " hangs"}[n.mode])
		}
	case 3:
		if n.mode != down {
			n.mode, n.since = down, time.Now()
			stop = n.srv
			what = n.addr + " goes down"
			if rnd.Intn(2) == 0 {
				n.ranges, n.table = nil, nil
				what += ", loses all"
			}
		}
	case 4:
		what = n.addr + " well"
		if n.mode == down {
			n.mode, n.since = ok, time.Now()
			n.serve()
		} else if n.mode != ok {
			n.mode, n.since = ok, time.Now()
		}
	case 5:
		if len(n.ranges) > 0 {
			i := rnd.Intn(len(n.ranges))
			n.ranges = append(n.ranges[:i:i], n.ranges[i+1:]...)
			what = n.addr + " loses a range"
		}
	case 6:
		n.ranges = nil
		w.seed(rnd, n)
		what = n.addr + " has other ranges"
	case 7:
		n.addErr, n.remErr = rnd.Intn(2) == 0, rnd.Intn(2) == 0
		what = fmt.Sprint(n.addr, " refuses add ", n.addErr, ", remove ", n.remErr)
	case 8:
		n.delay = time.Duration(rnd.Intn(4)) * 700 * time.Millisecond
		what = fmt.Sprint(n.addr, " takes ", n.delay)
	}
	w.note("%s", what)
	w.mu.Unlock()
	if stop != nil {
		stop.Stop()
	}
	return what
}

// calm is long enough for connections to come back and terms to pass.
func (w *world) calm() time.Duration {
	return 3*time.Minute + 6*w.interval
}

func histories(r *vk.R) {
	r.Bubble(func() {
		var wg sync.WaitGroup
		for k := 0; k < r.Scale(24, 150); k++ {
			rnd := r.Rand("history", k)
			n := 1 + rnd.Intn(5)
			if k%8 == 5 {
				n = 6 + rnd.Intn(12)
			}
			count := []int{1, 2, 3, 7, 5 + rnd.Intn(20)}[rnd.Intn(5)]
			rf := 1
			if rnd.Intn(2) == 0 {
				rf = 1 + rnd.Intn(n+1)
			}
			iv := time.Duration(10+10*rnd.Intn(3)) * time.Second
			w := build(r, rnd, fmt.Sprint("scheduler ", k), n, count, rf, iv, rnd.Intn(3) > 0, true)
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				// Between the whole milliseconds at which the scheduler acts.
				time.Sleep(time.Duration(137+k)*time.Microsecond + 500*time.Nanosecond)
				hist := fmt.Sprint(n, count, rf)
				for round := 0; round < r.Scale(4, 8); round++ {
					ups := 0
					if rnd.Intn(3) == 0 {
						// A slow cluster whose leader changes within terms.
						w.mu.Lock()
						for _, n := range w.nodes {
							n.delay = time.Duration(500+rnd.Intn(3000)) * time.Millisecond
						}
						w.mu.Unlock()
						for j := 12; j > 0; j-- {
							time.Sleep(time.Duration(rnd.Int63n(int64(iv/time.Millisecond))) * time.Millisecond)
							w.mu.Lock()
							w.leader = !w.leader
							w.note("leader %v", w.leader)
							w.mu.Unlock()
						}
						hist += "slow"
						ups++
					}
					for j := rnd.Intn(7); j > 0; j-- {
						hist += w.upset(rnd)
						ups++
						time.Sleep(time.Duration(rnd.Int63n(int64(2*iv/time.Millisecond))) * time.Millisecond)
					}
					if n > 1 && rnd.Intn(2) == 0 {
						// Some nodes stay away for long.
						hist += w.leave(rnd)
						ups++
						time.Sleep(w.calm())
						w.settled()
						r.Count("calm stretches without some nodes", 1)
					}
					w.heal()
					time.Sleep(w.calm())
					w.settled()
					r.Eval(hist+fmt.Sprint(round), ups > 0 || rf > 1)
				}
				w.mu.Lock()
				r.Count("changes asked for", w.changes)
				r.Count("tables sent", w.sets)
				r.Count("asked for leadership", w.asked)
				// It never ends; make it quick from here on.
				w.leader = false
				for _, n := range w.nodes {
					n.mode = fails
				}
				w.mu.Unlock()
			}()
		}
		wg.Wait()
		r.Finish()
	})
}

// counts: many numbers of ranges.
func counts(r *vk.R) {
	r.Bubble(func() {
		rnd := r.Rand("counts", 0)
		l := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 64, 100, 255, 256, 257, 641, 1000}
		for k := 0; k < r.Scale(10, 100); k++ {
			l = append(l, 1+rnd.Intn(600))
		}
		for i, c := range l {
			n := 1 + i%3
			if i%5 == 4 {
				n += 12
			}
			w := build(r, rnd, "counts", n, c, 1, time.Minute, true, false)
			time.Sleep(w.calm())
			w.settled()
			r.Eval(fmt.Sprint(c), true)
			w.mu.Lock()
			w.leader = false
			for _, n := range w.nodes {
				n.mode = fails
			}
			w.mu.Unlock()
		}
		r.Finish()
	})
}
