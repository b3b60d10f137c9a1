package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

// A recorded call; from and to are ticks of one global clock.
type write struct {
	id       int
	src      string
	ts       int64
	from, to int64
}
type read struct {
	src        string
	start, end int64
	limit      int
	desc       bool
	from, to   int64
	got        []int
}

// phase is a point in virtual time the store's prune runs at: goroutines that
// wake there run in parallel with it.
func nextTick(born time.Time) {
	d := time.Since(born) % (500 * time.Millisecond)
	time.Sleep(500*time.Millisecond - d)
}

func concurrent(r *vk.R, prop string) {
	n := r.Scale(60, 1200)
	r.Bubble(func() {
		for c := 0; c < n && r.Violations() == 0; c++ {
			burst(r, c, prop)
		}
		r.Finish()
	})
}

func burst(r *vk.R, c int, prop string) {
	rnd := r.Rand("burst", c)
	max := 1 << 20
	switch rnd.Intn(3) {
	case 0:
		max = 1 + rnd.Intn(8)
	case 1:
		max = 50 + rnd.Intn(200)
	}
	pruning := rnd.Intn(4) > 0
	s, mc, sm := newStore(max)
	born := time.Now()
	var pruned, prunes int64
	mode := rnd.Intn(3)
	prnd := rand.New(rand.NewSource(rnd.Int63()))
	if pruning {
		mc.set(func(n int64) int {
			q := 0
			switch mode {
			case 0:
				q = int(n)
			case 1:
				q = prnd.Intn(40)
			default:
				q = int(n/2) + 1
			}
			atomic.AddInt64(&prunes, 1)
			return q
		})
	}
	nsrc := 1 + rnd.Intn(5)
	writers, readers := 2+rnd.Intn(5), 1+rnd.Intn(4)
	rounds, perRound := 3+rnd.Intn(3), 20+rnd.Intn(60)
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var ws []*write
	var rs []*read
	var egress int64
	spread := 1 + rnd.Intn(400)
	r.Case(map[string]interface{}{"case": c, "max": max, "pruning": pruning, "mode": mode, "sources": nsrc, "writers": writers, "readers": readers, "rounds": rounds, "perRound": perRound})

	var wg sync.WaitGroup
	var nextID int64
	for w := 0; w < writers; w++ {
		wr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []*write
			r.Safely("Put", func() {
				for k := 0; k < rounds; k++ {
					nextTick(born)
					for i := 0; i < perRound; i++ {
						x := &write{id: int(atomic.AddInt64(&nextID, 1)), src: fmt.Sprintf("s%d", wr.Intn(nsrc)), ts: int64(k*100 + wr.Intn(spread))}
						e := &loggregator_v2.Envelope{SourceId: x.src, InstanceId: fmt.Sprint(x.id), Timestamp: x.ts}
						x.from = tick()
						s.Put(e, x.src)
						x.to = tick()
						mine = append(mine, x)
					}
				}
			})
			mu.Lock()
			ws = append(ws, mine...)
			mu.Unlock()
		}()
	}
	for w := 0; w < readers; w++ {
		rr := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []*read
			r.Safely("Get or Meta", func() {
				for k := 0; k < rounds; k++ {
					nextTick(born)
					for i := 0; i < perRound/2; i++ {
						if rr.Intn(3) == 0 {
							for src, m := range s.Meta() {
								if m.Count < 1 || m.Count > int64(max) || m.Expired < 0 || m.OldestTimestamp > m.NewestTimestamp {
									r.Violate("concurrent:meta", "source %s: meta %+v while at most %d are kept", src, m, max)
								}
							}
							continue
						}
						x := &read{src: fmt.Sprintf("s%d", rr.Intn(nsrc)), start: -1 << 40, end: 1 << 40, limit: 1 << 30, desc: rr.Intn(2) == 0}
						if rr.Intn(2) == 0 {
							x.start = int64(rr.Intn(300))
							x.end = x.start + int64(rr.Intn(300))
						}
						if rr.Intn(3) == 0 {
							x.limit = 1 + rr.Intn(30)
						}
						x.from = tick()
						es := s.Get(x.src, time.Unix(0, x.start), time.Unix(0, x.end), nil, nil, x.limit, x.desc)
						x.to = tick()
						atomic.AddInt64(&egress, int64(len(es)))
						seen := map[string]bool{}
						for j, e := range es {
							if j > 0 && (es[j-1].Timestamp > e.Timestamp) != x.desc && es[j-1].Timestamp != e.Timestamp {
								r.Violate("concurrent:order", "read %+v returns %s", *x, got(es))
							}
							if e.SourceId != x.src || e.Timestamp < x.start || e.Timestamp >= x.end || seen[e.InstanceId] {
								r.Violate("concurrent:selection", "read %+v returns %s/%s@%d (twice: %v)", *x, e.SourceId, e.InstanceId, e.Timestamp, seen[e.InstanceId])
							}
							seen[e.InstanceId] = true
							var id int
							fmt.Sscan(e.InstanceId, &id)
							x.got = append(x.got, id)
						}
						if len(es) > max {
							r.Violate("concurrent:cap", "read %+v returns %d envelopes of a source that holds at most %d", *x, len(es), max)
						}
						mine = append(mine, x)
					}
				}
			})
			mu.Lock()
			rs = append(rs, mine...)
			mu.Unlock()
		}()
	}
	wg.Wait()
	// Let the last prune finish, then look at the quiet store.
	mc.set(nil)
	time.Sleep(1200 * time.Millisecond)
	vk.Settle()
	quiesce(r, prop, c, s, sm.GetMetricValue, ws, nsrc, max, float64(egress))
	pruned = int64(sm.GetMetricValue("log_cache_expired", nil))
	r.Count("writes", len(ws))
	r.Count("reads", len(rs))
	r.Count("evicted", int(pruned))
	r.Count("prunes", int(prunes))
	r.Eval(fmt.Sprintf("%d/%d/%d", c, max, pruned), pruned > 0)
	if c%20 == 0 {
		r.Sample(map[string]interface{}{"max": max, "writes": len(ws), "reads": len(rs), "evicted": pruned, "prunes": prunes})
	}
	if prop == "C04" {
		checkReads(r, s, ws, rs, nsrc, max, pruning)
	}
	mc.set(func(n int64) int { return int(n) })
}

// quiesce checks that contents, meta and counters agree when all is quiet.
func quiesce(r *vk.R, prop string, c int, s *store.Store, metric func(string, map[string]string) float64, ws []*write, nsrc, max int, egress float64) {
	// A write to a new source refreshes the size.
	s.Put(&loggregator_v2.Envelope{SourceId: "fresh", InstanceId: "0", Timestamp: 1}, "fresh")
	written := map[int]*write{}
	for _, w := range ws {
		written[w.id] = w
	}
	srcs := []string{"fresh"}
	for k := 0; k < nsrc; k++ {
		srcs = append(srcs, fmt.Sprintf("s%d", k))
	}
	now, total := observe(s, srcs)
	meta := s.Meta()
	for src, m := range now {
		lo, hi := int64(1<<62), int64(-1<<62)
		for id, ts := range m {
			lo, hi = min(lo, ts), maxI(hi, ts)
			if src != "fresh" && (written[id] == nil || written[id].src != src || written[id].ts != ts) {
				r.Violate("quiet:foreign", "%s holds %d@%d, which was not written to it", src, id, ts)
			}
		}
		if mi := meta[src]; mi.Count != int64(len(m)) || mi.OldestTimestamp != lo || mi.NewestTimestamp != hi {
			r.Violate("quiet:meta", "source %s: meta %+v, contents %d oldest %d newest %d", src, mi, len(m), lo, hi)
		}
		if len(m) > max {
			r.Violate("quiet:cap", "%s holds %d of at most %d", src, len(m), max)
		}
	}
	for src, mi := range meta {
		if len(now[src]) == 0 {
			r.Violate("quiet:meta", "source %s holds nothing, meta %+v", src, mi)
		}
	}
	in, ex, eg := metric("log_cache_ingress", nil), metric("log_cache_expired", nil), metric("log_cache_egress", nil)
	size := metric("log_cache_store_size", map[string]string{"unit": "entries"})
	w := float64(len(ws) + 1)
	if in != w || ex != w-float64(total) || size != float64(total) || eg != egress+float64(total) {
		r.Violate("quiet:counters", "case %d: %v writes, %d readable, %v returned by reads; ingress %v expired %v size %v egress %v", c, w, total, egress+float64(total), in, ex, size, eg)
	}
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// checkReads: an envelope whose write had completed before a read began is in
// it unless it was evicted, and what was evicted stays away.
func checkReads(r *vk.R, s *store.Store, ws []*write, rs []*read, nsrc, max int, pruning bool) {
	final := map[int]bool{}
	for k := 0; k < nsrc; k++ {
		for _, e := range s.Get(fmt.Sprintf("s%d", k), minT, maxT, nil, nil, 1<<30, false) {
			var id int
			fmt.Sscan(e.InstanceId, &id)
			final[id] = true
		}
	}
	byID := map[int]*write{}
	for _, w := range ws {
		byID[w.id] = w
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].from < rs[j].from })
	// ends of reads that prove an envelope evicted
	missed := map[int]int64{}
	for _, x := range rs {
		in := map[int]bool{}
		for _, id := range x.got {
			in[id] = true
			w := byID[id]
			if w == nil || w.src != x.src || w.from > x.to {
				r.Violate("read:invented", "read %+v returns %d, written as %+v", brief(x), id, w)
				continue
			}
			if at, ok := missed[id]; ok && at < x.from {
				r.Violate("read:resurrected", "read %+v returns %d@%d, which a read that ended at %d no longer had", brief(x), id, w.ts, at)
			}
		}
		cutLo, cutHi := x.start, x.end
		if len(x.got) >= x.limit && len(x.got) > 0 {
			last := byID[x.got[len(x.got)-1]]
			if last == nil {
				continue
			}
			// beyond the timestamp the limit fell on nothing is promised
			if x.desc {
				cutLo = last.ts
			} else {
				cutHi = last.ts + 1
			}
		}
		for _, w := range ws {
			if w.src != x.src || w.to >= x.from || w.ts < cutLo || w.ts >= cutHi || in[w.id] {
				continue
			}
			if final[w.id] || (!pruning && max == 1<<20) {
				r.Violate("read:missed", "read %+v misses %d@%d, written before it and never evicted", brief(x), w.id, w.ts)
				continue
			}
			if _, ok := missed[w.id]; !ok || x.to < missed[w.id] {
				missed[w.id] = x.to
			}
		}
	}
}

func brief(x *read) string {
	return fmt.Sprintf("{%s [%d,%d) limit %d desc %v at %d..%d: %d envelopes}", x.src, x.start, x.end, x.limit, x.desc, x.from, x.to, len(x.got))
}

// emptying lets writers race with prunes that empty the very sources they
// write to.
func emptying(r *vk.R) {
	n := r.Scale(150, 3000)
	r.Bubble(func() {
		for c := 0; c < n && r.Violations() == 0; c++ {
			rnd := r.Rand("emptying", c)
			s, mc, sm := newStore(100)
			born := time.Now()
			mc.set(func(n int64) int { return int(n) + 5 })
			nsrc := 30
			r.Case(map[string]interface{}{"case": c})
			for k := 0; k < nsrc; k++ {
				src := fmt.Sprintf("s%d", k)
				s.Put(&loggregator_v2.Envelope{SourceId: src, InstanceId: "0", Timestamp: int64(k)}, src)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			var ws []*write
			for k := 0; k < nsrc; k++ {
				ws = append(ws, &write{id: 0, src: fmt.Sprintf("s%d", k), ts: int64(k)})
			}
			writers := 4
			for w := 0; w < writers; w++ {
				w := w
				wr := rand.New(rand.NewSource(rnd.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.Safely("Put", func() {
						for k := 0; k < 3; k++ {
							nextTick(born)
							for i := 0; i < wr.Intn(60); i++ {
								s.Meta()
							}
							for _, j := range wr.Perm(nsrc) {
								src := fmt.Sprintf("s%d", j)
								id := 1 + w + k*writers
								s.Put(&loggregator_v2.Envelope{SourceId: src, InstanceId: fmt.Sprint(id), Timestamp: int64(1000 * id)}, src)
								mu.Lock()
								ws = append(ws, &write{id: id, src: src, ts: int64(1000 * id)})
								mu.Unlock()
							}
						}
					})
				}()
			}
			wg.Wait()
			mc.set(nil)
			time.Sleep(1200 * time.Millisecond)
			vk.Settle()
			s.Put(&loggregator_v2.Envelope{SourceId: "fresh", InstanceId: "0", Timestamp: 1}, "fresh")
			srcs := []string{"fresh"}
			for k := 0; k < nsrc; k++ {
				srcs = append(srcs, fmt.Sprintf("s%d", k))
			}
			now, total := observe(s, srcs)
			left := 0
			for _, m := range now {
				left += len(m)
			}
			in, ex := sm.GetMetricValue("log_cache_ingress", nil), sm.GetMetricValue("log_cache_expired", nil)
			size := sm.GetMetricValue("log_cache_store_size", map[string]string{"unit": "entries"})
			if in != float64(len(ws)+1) || in-ex != float64(left) || size != float64(left) || left != total {
				r.Violate("emptying:lost", "%d writes, %v evicted, %d readable, store size %v", len(ws)+1, ex, left, size)
			}
			r.Count("writes", len(ws))
			r.Count("evicted", int(ex))
			r.Eval(fmt.Sprintf("%d/%v", c, ex), ex > float64(nsrc))
			mc.set(func(n int64) int { return int(n) })
		}
		r.Finish()
	})
}
