// Monitors for the nozzle: C13.
package main

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"regexp"
	"strconv"
	"sync"
	"time"

	loggregator "code.cloudfoundry.org/go-loggregator"
	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/nozzle"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"google.golang.org/grpc/test/bufconn"
)

func main() {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(ioutil.Discard, ioutil.Discard, ioutil.Discard))
	log.SetOutput(ioutil.Discard)
	vk.Main(map[string]vk.Check{
		"C13": {
			Rule:  "generated streams of batches (pauses, bursts, empty batches) through nozzles in virtual time, over gRPC to a fake Log Cache whose writes succeed, fail, take their time or hang, under the race detector; every envelope is accounted for at the end; bursts beyond the buffers; the real command between a fake logs provider and a fake Log Cache over mutual TLS; non-trivial: a write fails or is slow, several batches are under way, or a buffer overflows",
			Parts: []vk.Part{{Name: "streams", Run: streams}, {Name: "overflow", Run: overflow}, {Name: "command", Run: command}},
		},
	})
}

const (
	maxBatch = 512
	latest   = 500 * time.Millisecond
)

func key(e *loggregator_v2.Envelope) string {
	b := proto.NewBuffer(nil)
	b.SetDeterministic(true)
	if err := b.Marshal(e); err != nil {
		panic(err)
	}
	return string(b.Bytes())
}

// world is a nozzle between a fake provider and a fake Log Cache.
type world struct {
	r       *vk.R
	name    string
	mu      sync.Mutex
	rnd     *rand.Rand
	feed    chan []*loggregator_v2.Envelope
	reqs    []*loggregator_v2.EgressBatchRequest
	fed     []string
	at      map[string]time.Time // when an envelope was streamed
	order   map[string]int
	got     map[string]int
	writes  int
	okEnv   int
	failed  int
	most    int
	busy    int
	mode    string
	timely  bool
	missed  int
	metrics *testhelpers.SpyMetricsRegistry
	late    time.Duration
	lis     *bufconn.Listener
}

func (w *world) Stream(ctx context.Context, req *loggregator_v2.EgressBatchRequest) loggregator.EnvelopeStream {
	w.mu.Lock()
	w.reqs = append(w.reqs, req)
	w.mu.Unlock()
	return func() []*loggregator_v2.Envelope { return <-w.feed }
}

var dropped = regexp.MustCompile(`dropped (\d+) points`)

func (w *world) Write(p []byte) (int, error) {
	if m := dropped.FindSubmatch(p); m != nil {
		n, _ := strconv.Atoi(string(m[1]))
		w.mu.Lock()
		w.missed += n
		w.mu.Unlock()
	}
	return len(p), nil
}

func (w *world) Send(ctx context.Context, q *rpc.SendRequest) (*rpc.SendResponse, error) {
	now := time.Now()
	w.mu.Lock()
	l := q.GetEnvelopes().GetBatch()
	if q.GetLocalOnly() {
		w.r.Violate("local-only", "%s: a write is marked local only", w.name)
	}
	if len(l) > maxBatch || len(l) == 0 {
		w.r.Violate("batch-size", "%s: a write has %d envelopes", w.name, len(l))
	}
	last := -1
	for _, e := range l {
		k := key(e)
		o, known := w.order[k]
		if !known {
			w.r.Violate("stranger", "%s: an envelope was written that was not streamed: %v", w.name, e)
			continue
		}
		if o < last {
			w.r.Violate("order", "%s: within a write envelope %d comes after %d", w.name, o, last)
		}
		last = o
		w.got[k]++
		if w.got[k] > 1 {
			w.r.Violate("twice", "%s: envelope %d is written %d times", w.name, o, w.got[k])
		}
		if d := now.Sub(w.at[k]); d > w.late {
			w.late = d
			if w.timely && d > latest+10*time.Millisecond {
				w.r.Violate("late", "%s: an envelope is written %v after it was streamed", w.name, d)
			}
		}
	}
	w.writes++
	w.busy++
	if w.busy > w.most {
		w.most = w.busy
	}
	mode := w.mode
	x := w.rnd.Intn(100)
	w.mu.Unlock()
	err := w.treat(ctx, mode, x)
	w.mu.Lock()
	w.busy--
	if err == nil {
		w.okEnv += len(l)
	} else {
		w.failed++
	}
	w.mu.Unlock()
	return &rpc.SendResponse{}, err
}

func (w *world) treat(ctx context.Context, mode string, x int) error {
	wait := func(d time.Duration) error {
		select {
		case <-time.After(d):
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	switch mode {
	case "fails":
		return errors.New("no")
	case "some fail":
		if x < 40 {
			return errors.New("no")
		}
	case "slow":
		return wait(time.Duration(x) * 20 * time.Millisecond)
	case "hangs":
		<-ctx.Done()
		return ctx.Err()
	case "mixed":
		switch {
		case x < 20:
			return errors.New("no")
		case x < 40:
			<-ctx.Done()
			return ctx.Err()
		case x < 70:
			return wait(time.Duration(x) * 30 * time.Millisecond)
		}
	}
	return nil
}

func build(r *vk.R, rnd *rand.Rand, name, shard string, sel []string) *world {
	w := &world{r: r, name: name, rnd: rand.New(rand.NewSource(rnd.Int63())), feed: make(chan []*loggregator_v2.Envelope), at: map[string]time.Time{}, order: map[string]int{}, got: map[string]int{}, metrics: testhelpers.NewMetricsRegistry(), lis: bufconn.Listen(1 << 20)}
	s := grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))
	rpc.RegisterIngressServer(s, w)
	go s.Serve(w.lis)
	n := nozzle.NewNozzle(w, "log-cache:8080", shard, w.metrics, log.New(w, "", 0),
		nozzle.WithDialOpts(grpc.WithInsecure(), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return w.lis.Dial() })),
		nozzle.WithSelectors(sel...))
	go n.Start()
	return w
}

// push streams one batch.
func (w *world) push(l []*loggregator_v2.Envelope) {
	w.mu.Lock()
	now := time.Now()
	for _, e := range l {
		k := key(e)
		w.order[k] = len(w.fed)
		w.at[k] = now
		w.fed = append(w.fed, k)
	}
	w.mu.Unlock()
	w.feed <- l
}

// some makes n envelopes like no others.
func (w *world) some(rnd *rand.Rand, n int) []*loggregator_v2.Envelope {
	var l []*loggregator_v2.Envelope
	for ; n > 0; n-- {
		e := env.Any(rnd)
		e.InstanceId = fmt.Sprint(len(w.fed)+len(l), " ", e.InstanceId)
		l = append(l, e)
	}
	return l
}

func (w *world) metric(n string) int { return int(w.metrics.GetMetricValue(n, nil)) }

// account judges a nozzle after everything has come to rest, when no buffer
// can have overflown.
func (w *world) account(lost bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	for i, k := range w.fed {
		if w.got[k] == 0 {
			n++
			if n == 1 && !lost {
				w.r.Violate("lost", "%s: envelope %d of %d was never written (%d writes, %d failed)", w.name, i, len(w.fed), w.writes, w.failed)
			}
		}
	}
	w.r.Count("lost to full buffers", n)
	w.r.Count("envelopes", len(w.fed))
	w.r.Count("writes", w.writes)
	w.r.Count("writes failed", w.failed)
	if v := w.metric("nozzle_ingress"); v != len(w.fed) {
		w.r.Violate("ingress-counter", "%s: nozzle_ingress is %d after %d envelopes", w.name, v, len(w.fed))
	}
	if v := w.metric("nozzle_egress"); v != w.okEnv {
		w.r.Violate("egress-counter", "%s: nozzle_egress is %d, %d envelopes were written well", w.name, v, w.okEnv)
	}
	if v := w.metric("nozzle_err"); v != w.failed {
		w.r.Violate("error-counter", "%s: nozzle_err is %d, %d writes failed", w.name, v, w.failed)
	}
	if w.mode == "" {
		w.r.Count("latest hand-over ms", int(w.late/time.Millisecond))
	}
}

var kinds = []string{"log", "gauge", "counter", "timer", "event"}

func kind(s *loggregator_v2.Selector) string {
	switch s.GetMessage().(type) {
	case *loggregator_v2.Selector_Log:
		return "log"
	case *loggregator_v2.Selector_Gauge:
		return "gauge"
	case *loggregator_v2.Selector_Counter:
		return "counter"
	case *loggregator_v2.Selector_Timer:
		return "timer"
	case *loggregator_v2.Selector_Event:
		return "event"
	}
	return "?"
}

// asked judges the request to the provider.
func asked(r *vk.R, name string, q *loggregator_v2.EgressBatchRequest, shard string, sel []string) {
	want := map[string]bool{}
	for _, s := range sel {
		want[s] = true
	}
	for _, s := range q.Selectors {
		k := kind(s)
		if !want[k] && k != "?" || k == "?" || s.SourceId != "" {
			r.Violate("selectors", "%s: asks for %v, configured is %v", name, q.Selectors, sel)
		}
		if k == "gauge" && len(s.GetGauge().GetNames()) > 0 || k == "counter" && s.GetCounter().GetName() != "" {
			r.Violate("selectors", "%s: asks only for some of the %ss: %v", name, k, s)
		}
	}
	have := map[string]bool{}
	for _, s := range q.Selectors {
		have[kind(s)] = true
	}
	if len(have) != len(want) {
		r.Violate("selectors", "%s: asks for %v, configured is %v", name, q.Selectors, sel)
	}
	if q.ShardId != shard || q.GetDeterministicName() != "" || !q.UsePreferredTags {
		r.Violate("request", "%s: asks with %v; the shard is %q", name, q, shard)
	}
}

// streams: whole histories in which no buffer can overflow.
func streams(r *vk.R) {
	modes := []string{"", "", "fails", "some fail", "slow", "hangs", "mixed"}
	r.Bubble(func() {
		var wg sync.WaitGroup
		for k := 0; k < r.Scale(21, 100); k++ {
			rnd := r.Rand("stream", k)
			var sel []string
			for _, i := range rnd.Perm(5)[:1+rnd.Intn(5)] {
				sel = append(sel, kinds[i])
			}
			shard := env.Str(rnd)
			mode := modes[k%len(modes)]
			w := build(r, rnd, fmt.Sprintf("nozzle %d (%s)", k, mode), shard, sel)
			w.mode, w.timely = mode, mode == "" || mode == "fails" || mode == "some fail"
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < r.Scale(25, 80); j++ {
					n := []int{0, 1, 1, 2, 10, 100, 511, 512, 513, rnd.Intn(1500)}[rnd.Intn(10)]
					w.push(w.some(rnd, n))
					switch rnd.Intn(4) {
					case 0:
						time.Sleep(time.Duration(rnd.Intn(1200)) * time.Millisecond)
					case 1:
						time.Sleep(time.Duration(498+rnd.Intn(5)) * time.Millisecond)
					case 2:
						time.Sleep(time.Millisecond)
					}
				}
				time.Sleep(30 * time.Second)
				if mode != "" {
					// Well again: nothing stays behind.
					w.mu.Lock()
					w.mode, w.timely = "", true
					w.mu.Unlock()
					time.Sleep(5 * time.Second)
					w.push(w.some(rnd, 40))
					time.Sleep(2 * time.Second)
				}
				vk.Settle()
				w.account(false)
				w.mu.Lock()
				if len(w.reqs) != 1 {
					r.Violate("request", "%s: %d requests to the provider", w.name, len(w.reqs))
				}
				for _, q := range w.reqs {
					asked(r, w.name, q, shard, sel)
				}
				r.Eval(w.name, mode != "" || w.most > 1)
				w.mu.Unlock()
			}()
			if k%7 == 6 {
				wg.Wait()
			}
		}
		wg.Wait()
		r.Finish()
	})
}

// overflow: more than the buffers hold. Nothing is written twice or out of
// order, what the first buffer loses is reported, and later envelopes get
// through.
func overflow(r *vk.R) {
	r.Bubble(func() {
		rnd := r.Rand("overflow", 0)
		small := func(w *world, n int) []*loggregator_v2.Envelope {
			l := make([]*loggregator_v2.Envelope, n)
			for i := range l {
				l[i] = &loggregator_v2.Envelope{Timestamp: int64(len(w.fed) + i + 1)}
			}
			return l
		}
		for k := 0; k < r.Scale(1, 5); k++ {
			w := build(r, rnd, "burst", "s", kinds)
			w.push(small(w, 160000))
			time.Sleep(5 * time.Second)
			w.push(small(w, 100))
			time.Sleep(2 * time.Second)
			vk.Settle()
			w.account(true)
			w.mu.Lock()
			n := 0
			for i, x := range w.fed {
				if w.got[x] == 0 {
					n++
					if i >= 160000 {
						r.Violate("lost-after-burst", "envelope %d, streamed after a burst of 160000, was not written", i)
						break
					}
				}
			}
			if n != w.missed {
				r.Violate("loss-reported", "after a burst %d of %d envelopes are missing; %d are reported as dropped", n, len(w.fed), w.missed)
			}
			r.Count("reported as dropped", w.missed)
			r.Eval(fmt.Sprint("burst ", k), true)
			w.mu.Unlock()

			// Log Cache hangs until even the batches are too many.
			w = build(r, rnd, "hanging Log Cache", "s", kinds)
			w.mode = "hangs"
			for j := 0; j < 8; j++ {
				w.push(small(w, 60000))
				time.Sleep(100 * time.Millisecond)
			}
			time.Sleep(400 * time.Second)
			w.mu.Lock()
			w.mode = ""
			before := len(w.fed)
			w.mu.Unlock()
			time.Sleep(5 * time.Second)
			w.push(small(w, 3000))
			time.Sleep(2 * time.Second)
			vk.Settle()
			w.account(true)
			w.mu.Lock()
			for i, x := range w.fed[before:] {
				if w.got[x] == 0 {
					r.Violate("lost-after-hang", "envelope %d, streamed after Log Cache came back, was not written", i)
					break
				}
			}
			r.Eval(fmt.Sprint("hang ", k), true)
			w.mu.Unlock()
		}
		r.Finish()
	})
}
