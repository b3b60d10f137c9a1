package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
)

// setup is how a blackbox process is configured.
type setup struct {
	CF                            bool
	Emission, Sample, Window, Lag time.Duration
	Source                        string
}

// cycle is one round of measuring: what its queries are answered with, which of
// them came and what was sent.
type cycle struct {
	GRPC, HTTP int // points; -1: an error, -2: no series
	Up         int64
	SendFails  bool
	seen       map[string]bool
	sent       bool
}

// world is the Log Cache, its gateway and the UAA of a blackbox process.
type world struct {
	r     *vk.R
	prop  string
	c     setup
	mu    sync.Mutex
	rnd   *rand.Rand
	test  map[int64]bool
	cur   *cycle
	over  int // finished cycles
	http  int
	sends int
	kinds map[string]int
}

// v reports a violation of a property, if it is the one looked at.
func (w *world) v(prop, sig, f string, a ...interface{}) {
	if prop == w.prop {
		w.r.Violate("process-"+sig, "%+v: "+f, append([]interface{}{w.c}, a...)...)
	}
}

func (w *world) expected() int { return int(w.c.Window / w.c.Emission) }

// want is what the cycle has to report.
func (w *world) want(c *cycle) map[string]float64 {
	m := map[string]float64{}
	if c.GRPC >= 0 {
		m["blackbox.grpc_reliability"] = float64(c.GRPC) / float64(w.expected())
	}
	if w.c.CF && c.HTTP >= 0 {
		m["blackbox.http_reliability"] = float64(c.HTTP) / float64(w.expected())
	}
	if w.c.CF && c.Up >= 0 && c.Up < 600 {
		m = nil
	}
	return m
}

func (w *world) finish() {
	c := w.cur
	if c == nil {
		return
	}
	w.over++
	if !c.seen["grpc"] || w.c.CF != c.seen["http"] {
		w.v("C33", "measures", "in a round (answers: gRPC %d, HTTP %d points) it asks only %v", c.GRPC, c.HTTP, vk.Sorted(c.seen))
	}
	want := w.want(c)
	if len(want) > 0 && !c.sent {
		w.v("C33", "not-emitted", "nothing is emitted, measured is %v with uptime %d", want, c.Up)
	}
	w.kinds[fmt.Sprintf("%v %v %v", c.GRPC >= 0, c.HTTP >= 0, len(want))]++
	w.r.Eval(fmt.Sprintf("%v grpc %d http %d up %d", w.c, c.GRPC, c.HTTP, c.Up), true)
}

// query is one question for the points; it returns the answer.
func (w *world) query(kind, q, t string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	if w.cur == nil || w.cur.seen[kind] {
		w.finish()
		n := func() int {
			switch w.rnd.Intn(6) {
			case 0:
				return -1
			case 1:
				return -2
			}
			return w.rnd.Intn(w.expected() + 3)
		}
		w.cur = &cycle{GRPC: n(), HTTP: n(), Up: []int64{600, 601, 6000, 1 << 40, 599, 0, 300, -1, -2}[w.rnd.Intn(9)], SendFails: w.rnd.Intn(5) == 0, seen: map[string]bool{}}
	}
	w.cur.seen[kind] = true
	if s := sameQuery(q, w.c.Source, w.c.Window); s != "" {
		w.v("C32", "query", "the query over %s is %q: %s", kind, q, s)
	}
	// Lateness of the machine is no fault.
	at, ok := parseTime(t)
	if due := now.Add(-w.c.Lag); !ok || !at.Truncate(w.c.Sample).Equal(at) || at.After(due) || at.Before(due.Add(-w.c.Sample-time.Minute)) {
		w.v("C32", "time", "the query over %s is for %q at %s", kind, t, now)
	}
	if kind == "grpc" {
		return w.cur.GRPC
	}
	if !w.c.CF {
		w.v("C33", "asks-http", "the gateway is asked for points")
	}
	return w.cur.HTTP
}

func (w *world) InstantQuery(_ context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	switch n := w.query("grpc", q.Query, q.Time); n {
	case -1:
		return nil, status.Error(codes.Internal, "no")
	case -2:
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}, nil
	default:
		return matrix(rand.New(rand.NewSource(1)), n), nil
	}
}

func (w *world) RangeQuery(context.Context, *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.v("C32", "query", "it makes a range query")
	return nil, status.Error(codes.Unimplemented, "not expected")
}

func (w *world) Send(_ context.Context, q *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if at, s := testEnvelope(q, w.c.Source); s == "" {
		if time.Duration(at)%w.c.Emission != 0 {
			w.v("C33", "test", "a test envelope is stamped %d", at)
		}
		w.test[at] = true
		if w.rnd.Intn(8) == 0 {
			return nil, status.Error(codes.Unavailable, "busy")
		}
		return &logcache_v1.SendResponse{}, nil
	}
	got := map[string]float64{}
	for _, e := range q.GetEnvelopes().GetBatch() {
		for k, v := range e.GetGauge().GetMetrics() {
			got[k] = v.Value
		}
		if e.SourceId != w.c.Source {
			w.v("C33", "source", "it emits for the source %q", e.SourceId)
		}
	}
	if n := len(q.GetEnvelopes().GetBatch()); n != 1 || w.cur == nil || w.cur.sent {
		w.v("C33", "emitted", "%d envelopes with %v are sent; measured: %+v", n, got, w.cur)
		return &logcache_v1.SendResponse{}, nil
	}
	w.cur.sent = true
	w.sends++
	if want := w.want(w.cur); fmt.Sprint(got) != fmt.Sprint(want) {
		w.v("C33", "measured", "emitted is %v instead of %v (answers: gRPC %d, HTTP %d points, uptime %d)", got, want, w.cur.GRPC, w.cur.HTTP, w.cur.Up)
	}
	if w.cur.SendFails {
		return nil, status.Error(codes.Unavailable, "busy")
	}
	return &logcache_v1.SendResponse{}, nil
}

func (w *world) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	switch q.URL.Path {
	case "/oauth/token":
		json.NewEncoder(rw).Encode(map[string]string{"access_token": "t", "token_type": "bearer"})
	case "/api/v1/info":
		w.mu.Lock()
		up := int64(6000)
		if w.cur != nil {
			up = w.cur.Up
		}
		w.mu.Unlock()
		switch up {
		case -1:
			rw.WriteHeader(503)
		case -2:
			io.WriteString(rw, `{"version":"2.0.0"}`)
		default:
			fmt.Fprintf(rw, `{"version":"2.0.0","vm_uptime":"%d"}`, up)
		}
	case "/api/v1/query":
		switch n := w.query("http", q.FormValue("query"), q.FormValue("time")); n {
		case -1:
			rw.WriteHeader(500)
			io.WriteString(rw, `{"status":"error","errorType":"internal","error":"no"}`)
		case -2:
			io.WriteString(rw, `{"status":"success","data":{"resultType":"matrix","result":[]}}`)
		default:
			var pts []string
			for i := 0; i < n; i++ {
				pts = append(pts, fmt.Sprintf(`[%d,"10"]`, 1000+i))
			}
			fmt.Fprintf(rw, `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[%s]}]}}`, strings.Join(pts, ","))
		}
	default:
		rw.WriteHeader(404)
	}
}

// process runs the command in worlds where all fails at times.
func process(r *vk.R, prop string) {
	ca := vk.NewCA("ca")
	files := ca.Write(r.Scratch, "log-cache")
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for k := 0; k < r.Scale(6, 36); k++ {
		rnd := r.Rand("process", k)
		c := setup{
			CF:       k%3 != 0,
			Emission: []time.Duration{50, 100, 125, 200}[rnd.Intn(4)] * time.Millisecond,
			Sample:   []time.Duration{250, 300, 400, 500}[rnd.Intn(4)] * time.Millisecond,
			Window:   []time.Duration{1, 2, 10}[rnd.Intn(3)] * time.Second,
			Lag:      []time.Duration{0, 20, 100, 3600}[rnd.Intn(4)] * time.Second,
			Source:   []string{"bb", "blackbox \"1\"", "b\\b", "black.box-2"}[rnd.Intn(4)],
		}
		w := &world{r: r, prop: prop, c: c, rnd: rnd, test: map[int64]bool{}, kinds: map[string]int{}}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			w.run(ca, files)
		}()
	}
	wg.Wait()
}

func (w *world) run(ca *vk.CA, files vk.Files) {
	pair := ca.Pair("log-cache")
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		w.r.Fatal("listen: %v", err)
	}
	s := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&pair)))
	logcache_v1.RegisterIngressServer(s, w)
	logcache_v1.RegisterPromQLQuerierServer(s, w)
	go s.Serve(lis)
	defer s.Stop()
	api := httptest.NewTLSServer(w)
	defer api.Close()
	cmd := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "blackbox"))
	cmd.Env = append(os.Environ(), "EMISSION_INTERVAL="+w.c.Emission.String(), "SAMPLE_INTERVAL="+w.c.Sample.String(), "WINDOW_INTERVAL="+w.c.Window.String(), "WINDOW_LAG="+w.c.Lag.String(), "SOURCE_ID="+w.c.Source,
		"DATA_SOURCE_GRPC_ADDR="+lis.Addr().String(), "CA_PATH="+files.CA, "CERT_PATH="+files.Cert, "KEY_PATH="+files.Key,
		fmt.Sprintf("CF_BLACKBOX_ENABLED=%v", w.c.CF), "DATA_SOURCE_HTTP_ADDR="+api.URL, "UAA_ADDR="+api.URL, "CLIENT_ID=id", "CLIENT_SECRET=s", "SKIP_TLS_VERIFY=true",
		"GORACE=halt_on_error=0 exitcode=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		w.r.Fatal("start: %v", err)
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	state := func() (int, int) {
		w.mu.Lock()
		defer w.mu.Unlock()
		return len(w.test), w.over
	}
	enough := w.r.Scale(16, 60)
	last, moved := -1, time.Now()
	for {
		select {
		case err := <-exited:
			w.mu.Lock()
			w.v("C33", "died", "the blackbox ended (%v):\n%s", err, clip(out.String()))
			w.mu.Unlock()
			return
		case <-time.After(50 * time.Millisecond):
		}
		test, over := state()
		if test >= 20 && over >= enough {
			break
		}
		if over != last {
			last, moved = over, time.Now()
		}
		if time.Since(moved) > 60*time.Second {
			w.mu.Lock()
			w.v(w.prop, "silent", "no measuring for a minute after %d rounds; %d test envelopes", over, test)
			w.mu.Unlock()
			break
		}
	}
	cmd.Process.Kill()
	<-exited
	s.Stop()
	w.mu.Lock()
	defer w.mu.Unlock()
	var ts []int64
	for t := range w.test {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	near := 0
	for i := 1; i < len(ts); i++ {
		if ts[i]-ts[i-1] == int64(w.c.Emission) {
			near++
		}
	}
	if len(ts) >= 20 && near == 0 {
		w.v("C33", "interval", "of %d test envelopes no two are stamped an emission interval apart", len(ts))
	}
	w.r.Count("process test envelopes", len(ts))
	w.r.Count("process rounds", w.over)
	w.r.Count("process measured", w.sends)
}
