// Monitors for internal/gateway: C23 and C24.
package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/pq"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C23": {
			Rule: "requests generated from typed values, spelled in several ways (escapings, parameter order, defaults written or not, enums by name or number), sent over HTTPS to a running gateway, and to the real command, in front of a recording gRPC server with generated replies; non-trivial: a parameter is set",
			Assumptions: []string{
				"strings are valid UTF-8, which protobuf requires, and source ids are not empty",
				"parameters are sent once, under their documented names; others, and other spellings of source_id and query, have no effect",
			},
			Parts: []vk.Part{{Name: "requests", Run: requests}, {Name: "odd-ids", Run: oddIDs}, {Name: "slow", Run: slow, NoRace: true}, {Name: "info", Run: info, NoRace: true}, {Name: "concurrent", Run: concurrentFaithful}, {Name: "command", Run: command}},
		},
		"C24": {
			Rule: "every gRPC code with generated messages on every endpoint, untranslatable requests, unrenderable replies, an oversized reply, a backend that goes away and comes back, impatient clients, and mixes of all of it from many goroutines; non-trivial: an error was answered",
			Assumptions: []string{
				"error messages are valid UTF-8",
				"the status of a code is the one of the grpc-gateway table",
			},
			Parts: []vk.Part{{Name: "codes", Run: statuses}, {Name: "untranslatable", Run: untranslatable}, {Name: "unrenderable", Run: unrenderable}, {Name: "outage", Run: outage}, {Name: "concurrent", Run: concurrentErrors}},
		},
	})
}

// backend is the Log Cache behind the gateway.
type backend struct {
	mu     sync.Mutex
	calls  []proto.Message
	answer func(q proto.Message) (proto.Message, error)
}

func (b *backend) handle(q proto.Message) (proto.Message, error) {
	// Requests given up by their client may arrive at any time.
	if strings.Contains(q.String(), "impatient-client") {
		time.Sleep(300 * time.Millisecond)
		return nil, status.Error(codes.Internal, "too late")
	}
	b.mu.Lock()
	b.calls = append(b.calls, proto.Clone(q))
	f := b.answer
	b.mu.Unlock()
	return f(q)
}

func (b *backend) set(f func(q proto.Message) (proto.Message, error)) {
	b.mu.Lock()
	b.calls, b.answer = nil, f
	b.mu.Unlock()
}

func (b *backend) got() []proto.Message {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]proto.Message(nil), b.calls...)
}

func (b *backend) Read(_ context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	m, err := b.handle(q)
	r, _ := m.(*logcache_v1.ReadResponse)
	return r, err
}

func (b *backend) Meta(_ context.Context, q *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	m, err := b.handle(q)
	r, _ := m.(*logcache_v1.MetaResponse)
	return r, err
}

func (b *backend) InstantQuery(_ context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	m, err := b.handle(q)
	r, _ := m.(*logcache_v1.PromQL_InstantQueryResult)
	return r, err
}

func (b *backend) RangeQuery(_ context.Context, q *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	m, err := b.handle(q)
	r, _ := m.(*logcache_v1.PromQL_RangeQueryResult)
	return r, err
}

func (b *backend) serve(r *vk.R, addr string, opts ...grpc.ServerOption) (*grpc.Server, string) {
	var lis net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if lis, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		r.Fatal("listen: %v", err)
	}
	s := grpc.NewServer(append(opts, grpc.MaxRecvMsgSize(1<<28), grpc.MaxSendMsgSize(1<<28))...)
	logcache_v1.RegisterEgressServer(s, b)
	logcache_v1.RegisterPromQLQuerierServer(s, b)
	go s.Serve(lis)
	return s, lis.Addr().String()
}

var (
	certs sync.Once
	ca    *vk.CA
	files vk.Files
)

type rig struct {
	r    *vk.R
	b    *backend
	srv  *grpc.Server
	bend string
	base string
	cl   *http.Client
}

func start(r *vk.R, opts ...gateway.GatewayOption) *rig {
	b := &backend{}
	s, addr := b.serve(r, "127.0.0.1:0")
	certs.Do(func() {
		ca = vk.NewCA("ca")
		files = ca.Write(r.Scratch, "localhost")
	})
	f := files
	opts = append([]gateway.GatewayOption{gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure())}, opts...)
	g := gateway.NewGateway(addr, "127.0.0.1:0", f.Cert, f.Key, opts...)
	g.Start()
	return &rig{r: r, b: b, srv: s, bend: addr, base: "https://" + g.Addr(), cl: httpClient(ca)}
}

func httpClient(ca *vk.CA) *http.Client {
	return &http.Client{
		Timeout:       60 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{
			TLSClientConfig:     &tls.Config{RootCAs: ca.Pool(), ServerName: "localhost"},
			MaxIdleConnsPerHost: 64,
		},
	}
}

type reply struct {
	code  int
	ctype string
	body  []byte
}

func (g *rig) get(path string, hdr ...string) (reply, error) {
	u, err := url.Parse(g.base + path)
	if err != nil {
		g.r.Fatal("url %q: %v", path, err)
	}
	req := &http.Request{Method: "GET", URL: u, Host: u.Host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := g.cl.Do(req)
	if err != nil {
		return reply{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return reply{resp.StatusCode, resp.Header.Get("Content-Type"), b}, err
}

// param is one query parameter, still unescaped.
type param struct{ k, v string }

func escapeID(rnd *rand.Rand, id string) string {
	switch rnd.Intn(4) {
	case 0:
		return url.PathEscape(id)
	case 1:
		var s strings.Builder
		for i := 0; i < len(id); i++ {
			fmt.Fprintf(&s, "%%%02X", id[i])
		}
		return s.String()
	case 2:
		ps := strings.Split(id, "/")
		for i := range ps {
			ps[i] = url.PathEscape(ps[i])
		}
		return strings.Join(ps, "/")
	}
	var s strings.Builder
	for i := 0; i < len(id); i++ {
		c := id[i]
		if c >= 'a' && c <= 'z' && rnd.Intn(2) == 0 {
			s.WriteByte(c)
		} else {
			fmt.Fprintf(&s, "%%%02x", c)
		}
	}
	return s.String()
}

func escapeQuery(rnd *rand.Rand, s string) string {
	e := url.QueryEscape(s)
	if rnd.Intn(2) == 0 {
		e = strings.ReplaceAll(e, "+", "%20")
	}
	return e
}

func query(rnd *rand.Rand, ps []param, shuffle bool) string {
	if shuffle {
		rnd.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}
	var out []string
	for _, p := range ps {
		out = append(out, p.k+"="+escapeQuery(rnd, p.v))
	}
	if len(out) == 0 {
		if rnd.Intn(4) == 0 {
			return "?"
		}
		return ""
	}
	return "?" + strings.Join(out, "&")
}

var idParts = []string{"some-id", "app", "0c9a6f2e-1c1c-4b3a-9d62-5f4b8b5a4f0e", "a b", "ü", "日本", "100%", "%2F", "a+b", "q?x=y", "#frag", "a&b", "a;b", "\"q\"", "\\", "a=b", "~", "*", "{x}", "😀", "a@b", "$", "%", "api", "v1", "..a", "a.", "a\tb"}

func genID(rnd *rand.Rand) string {
	n := 1
	if rnd.Intn(3) == 0 {
		n = 1 + rnd.Intn(3)
	}
	var ps []string
	for ; n > 0; n-- {
		ps = append(ps, idParts[rnd.Intn(len(idParts))])
	}
	return strings.Join(ps, "/")
}

var queries = []string{`metric{source_id="a"}`, `sum(rate(metric{source_id="a",tag=~"x.*|y"}[5m])) by (x) + 1`, "", "a b+c&d=e;f#g%20", "ü日本😀", "\n\t\x01", "}{", `x{a="\"\\"}`}
var times = []string{"", "0", "1234.567", "2018-02-07T16:00:00+01:00", "-1", "1e9", "5m", "ü", " ", "abc"}

// request is a generated request.
type request struct {
	msg     proto.Message
	path    string
	nontriv bool
	noise   int
}

func num(rnd *rand.Rand) int64 { return env.Int(rnd) }

func genRequest(rnd *rand.Rand) *request {
	q := &request{}
	add := func(ps *[]param, k, v string, zero bool) {
		if zero {
			if rnd.Intn(2) == 0 {
				return
			}
		} else {
			q.nontriv = true
		}
		*ps = append(*ps, param{k, v})
	}
	var ps []param
	switch rnd.Intn(5) {
	case 0, 1:
		m := &logcache_v1.ReadRequest{SourceId: genID(rnd)}
		if rnd.Intn(3) > 0 {
			m.StartTime = num(rnd)
		}
		if rnd.Intn(3) > 0 {
			m.EndTime = num(rnd)
		}
		if rnd.Intn(2) > 0 {
			m.Limit = num(rnd)
		}
		m.Descending = rnd.Intn(2) == 0
		if rnd.Intn(2) == 0 {
			m.NameFilter = []string{".*", "^a|b$", "[x", "a+b c", "ü%", "\\d{3}&"}[rnd.Intn(6)]
		}
		add(&ps, "start_time", strconv.FormatInt(m.StartTime, 10), m.StartTime == 0)
		add(&ps, "end_time", strconv.FormatInt(m.EndTime, 10), m.EndTime == 0)
		add(&ps, "limit", strconv.FormatInt(m.Limit, 10), m.Limit == 0)
		add(&ps, "descending", strconv.FormatBool(m.Descending), !m.Descending)
		add(&ps, "name_filter", m.NameFilter, m.NameFilter == "")
		if rnd.Intn(2) == 0 {
			rnd.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		}
		for n := rnd.Intn(4); n > 0; n-- {
			t := logcache_v1.EnvelopeType(rnd.Intn(6))
			m.EnvelopeTypes = append(m.EnvelopeTypes, t)
			s := t.String()
			if rnd.Intn(4) == 0 {
				s = strconv.Itoa(int(t))
			}
			add(&ps, "envelope_types", s, false)
		}
		q.msg = m
		q.path = "/api/v1/read/" + escapeID(rnd, m.SourceId) + query(rnd, ps, false)
	case 2:
		m := &logcache_v1.MetaRequest{LocalOnly: rnd.Intn(2) == 0}
		add(&ps, "local_only", strconv.FormatBool(m.LocalOnly), !m.LocalOnly)
		q.msg = m
		q.path = "/api/v1/meta" + query(rnd, ps, true)
	case 3:
		m := &logcache_v1.PromQL_InstantQueryRequest{Query: queries[rnd.Intn(len(queries))], Time: times[rnd.Intn(len(times))]}
		add(&ps, "query", m.Query, m.Query == "")
		add(&ps, "time", m.Time, m.Time == "")
		q.msg = m
		q.path = "/api/v1/query" + query(rnd, ps, true)
	case 4:
		m := &logcache_v1.PromQL_RangeQueryRequest{Query: queries[rnd.Intn(len(queries))], Start: times[rnd.Intn(len(times))], End: times[rnd.Intn(len(times))], Step: times[rnd.Intn(len(times))]}
		add(&ps, "query", m.Query, m.Query == "")
		add(&ps, "start", m.Start, m.Start == "")
		add(&ps, "end", m.End, m.End == "")
		add(&ps, "step", m.Step, m.Step == "")
		q.msg = m
		q.path = "/api/v1/query_range" + query(rnd, ps, true)
	}
	return q
}

// withNoise adds parameters that must not have any effect: unknown ones, and other
// spellings of what decides which data is read.
func withNoise(rnd *rand.Rand, q *request) {
	if rnd.Intn(3) > 0 {
		return
	}
	var keys []string
	switch kind(q.msg) {
	case "read":
		keys = []string{"source_id", "sourceId", "source_id[yours]", "sourceId[yours]", "source_id.x", "sourceId[]", "sourceID", "source-id", "SourceId", "query", "foo", "query[x]"}
	case "query", "query_range":
		keys = []string{"query[yours]", "query[]", "Query", "source_id", "sourceId", "query[a][b]", "foo", "promql"}
	default:
		keys = []string{"source_id", "sourceId", "foo", "query"}
	}
	for n := 1 + rnd.Intn(3); n > 0; n-- {
		ps := []param{{keys[rnd.Intn(len(keys))], []string{"yours", "", "x/y", "1", "up{source_id=\"yours\"}"}[rnd.Intn(5)]}}
		for i := range ps {
			ps[i].k = escapeQuery(rnd, ps[i].k)
		}
		extra := ps[0].k + "=" + escapeQuery(rnd, ps[0].v)
		i := strings.IndexByte(q.path, '?')
		switch {
		case i < 0:
			q.path += "?" + extra
		case rnd.Intn(2) == 0 || i+1 == len(q.path):
			q.path = strings.TrimSuffix(q.path, "?")
			if strings.IndexByte(q.path, '?') < 0 {
				q.path += "?" + extra
			} else {
				q.path += "&" + extra
			}
		default:
			q.path = q.path[:i+1] + extra + "&" + q.path[i+1:]
		}
		q.noise++
	}
}

// genReply makes a reply fit for the request, and a check of its JSON form.
func genReply(rnd *rand.Rand, q proto.Message, size int) (proto.Message, func([]byte) string) {
	switch q.(type) {
	case *logcache_v1.ReadRequest:
		m := &logcache_v1.ReadResponse{}
		if rnd.Intn(20) > 0 {
			m.Envelopes = &loggregator_v2.EnvelopeBatch{}
			for n := rnd.Intn(size); n > 0; n-- {
				m.Envelopes.Batch = append(m.Envelopes.Batch, env.Any(rnd))
			}
		}
		return m, func(b []byte) string { return env.SameJSON(b, env.ReadJSON(m)) }
	case *logcache_v1.MetaRequest:
		m := &logcache_v1.MetaResponse{}
		for n := rnd.Intn(size); n > 0; n-- {
			if m.Meta == nil {
				m.Meta = map[string]*logcache_v1.MetaInfo{}
			}
			m.Meta[genID(rnd)] = &logcache_v1.MetaInfo{Count: num(rnd), Expired: num(rnd), OldestTimestamp: num(rnd), NewestTimestamp: num(rnd)}
		}
		return m, func(b []byte) string { return env.SameJSON(b, env.MetaJSON(m)) }
	case *logcache_v1.PromQL_InstantQueryRequest:
		for {
			if m, ok := pq.Gen(rnd, nil).(*logcache_v1.PromQL_InstantQueryResult); ok {
				return m, sameResult(m)
			}
		}
	}
	for {
		if m, ok := pq.Gen(rnd, nil).(*logcache_v1.PromQL_RangeQueryResult); ok {
			return m, sameResult(m)
		}
	}
}

func sameResult(m proto.Message) func([]byte) string {
	return func(b []byte) string {
		f, e := pq.ReadDoc(b)
		if e != "" {
			return e
		}
		return pq.Differs(f, pq.Flatten(m))
	}
}

func kind(m proto.Message) string {
	switch m.(type) {
	case *logcache_v1.ReadRequest:
		return "read"
	case *logcache_v1.MetaRequest:
		return "meta"
	case *logcache_v1.PromQL_InstantQueryRequest:
		return "query"
	}
	return "query_range"
}

// faithful sends one request and compares what Log Cache got and what came back.
func (g *rig) faithful(q *request, rep proto.Message, same func([]byte) string, sig func(string) string, hdr ...string) {
	g.b.set(func(proto.Message) (proto.Message, error) { return rep, nil })
	a, err := g.get(q.path, hdr...)
	k := kind(q.msg)
	if err != nil {
		g.r.Violate(sig("no-answer:"+k), "GET %s: %v", q.path, err)
		return
	}
	if a.code != 200 {
		g.r.Violate(sig("refused:"+k), "GET %s is answered %d %s", q.path, a.code, a.body)
		return
	}
	got := g.b.got()
	if len(got) != 1 {
		g.r.Violate(sig("calls:"+k), "GET %s made %d calls", q.path, len(got))
		return
	}
	if !proto.Equal(got[0], q.msg) || kind(got[0]) != k {
		g.r.Violate(sig("request:"+k), "GET %s reached Log Cache as %T %v, want %v", q.path, got[0], got[0], q.msg)
	}
	g.checkBody(k, q.path, a, same, sig)
}

func (g *rig) checkBody(k, path string, a reply, same func([]byte) string, sig func(string) string) {
	if !strings.HasPrefix(a.ctype, "application/json") {
		g.r.Violate(sig("content-type:"+k), "GET %s is answered with content type %q", path, a.ctype)
	}
	if !strings.HasSuffix(string(a.body), "\n") {
		g.r.Violate(sig("newline:"+k), "the answer of GET %s does not end in a newline: %q", path, tail(a.body))
	}
	if s := same(a.body); s != "" {
		g.r.Violate(sig("reply:"+k), "the answer of GET %s differs from Log Cache's: %s\n%s", path, s, tail(a.body))
	}
}

func tail(b []byte) string {
	if len(b) > 1500 {
		return "..." + string(b[len(b)-1500:])
	}
	return string(b)
}

func plain(s string) string { return s }

func requests(r *vk.R) {
	g := start(r)
	for i := 0; i < r.Scale(2500, 60000) && r.Violations() < 20; i++ {
		rnd := r.Rand("q", i)
		q := genRequest(rnd)
		withNoise(rnd, q)
		r.Count("noise", q.noise)
		r.Case(q.path)
		size := 5
		if rnd.Intn(200) == 0 {
			size = 1500
		}
		rep, same := genReply(rnd, q.msg, size)
		if m, ok := rep.(*logcache_v1.ReadResponse); ok && i%50 == 7 && i < 5000 {
			// A full read of long logs takes more than gRPC lets through by default
			m.Envelopes = &loggregator_v2.EnvelopeBatch{}
			b := make([]byte, 1<<19)
			rnd.Read(b)
			n := 1 + rnd.Intn(7)
			if i%900 == 7 {
				n = 10 + rnd.Intn(12)
			}
			for ; n > 0; n-- {
				m.Envelopes.Batch = append(m.Envelopes.Batch, &loggregator_v2.Envelope{Timestamp: int64(n), Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b}}})
			}
			r.Count("large_replies", 1)
		}
		var hdr []string
		if rnd.Intn(3) == 0 {
			hdr = headers[rnd.Intn(len(headers))]
		}
		g.faithful(q, rep, same, plain, hdr...)
		r.Count(kind(q.msg), 1)
		r.Eval(q.path, q.nontriv)
		if i < 2 {
			r.Sample(q.path)
		}
	}
}

// headers a request may carry without any effect on the answer.
var headers = [][]string{
	{"Accept", "text/plain"},
	{"Accept", "application/octet-stream"},
	{"Content-Type", "application/x-www-form-urlencoded"},
	{"Content-Type", "text/html; charset=utf-8", "Accept", "*/*"},
	{"Authorization", "bearer abc", "X-Forwarded-For", "1.2.3.4", "X-Vcap-Request-Id", "id"},
	{"Grpc-Metadata-Source-Id", "yours", "Cookie", "a=b", "Range", "bytes=0-5"},
	{"If-None-Match", "*", "If-Modified-Since", "Mon, 02 Jan 2034 15:04:05 GMT", "User-Agent", ""},
	{"X-Http-Method-Override", "POST", "Origin", "https://example.com"},
	{"Grpc-Timeout", "50S"},
}

// slow: replies that take their time arrive all the same.
func slow(r *vk.R) {
	g := start(r)
	var mu sync.Mutex
	replies := map[string]proto.Message{}
	g.b.set(func(m proto.Message) (proto.Message, error) {
		q := m.(*logcache_v1.ReadRequest)
		time.Sleep(time.Duration(q.Limit) * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		return replies[q.SourceId], nil
	})
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		rnd := r.Rand("slow", i)
		id := fmt.Sprint("slow", i)
		d := 500 + rnd.Intn(r.Scale(11000, 58000))
		if i == 0 {
			d = r.Scale(11500, 58000)
		}
		rep, same := genReply(rnd, &logcache_v1.ReadRequest{}, 5)
		mu.Lock()
		replies[id] = rep
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			path := fmt.Sprintf("/api/v1/read/%s?limit=%d", id, d)
			a, err := g.get(path)
			if err != nil || a.code != 200 {
				r.Violate("refused:slow", "GET %s, answered after %d ms by Log Cache: %d %s %v", path, d, a.code, a.body, err)
				return
			}
			g.checkBody("slow", path, a, same, plain)
			r.Count("slow_replies", 1)
			r.Eval(path, true)
		}()
	}
	wg.Wait()
}

func oddIDs(r *vk.R) {
	g := start(r)
	segs := []string{"", ".", "..", ":", "a:b", "a:", ":b", "a::b", "x", "read", "::", "...", "a b"}
	for i := 0; i < r.Scale(600, 10000); i++ {
		rnd := r.Rand("q", i)
		var ps []string
		for n := 1 + rnd.Intn(3); n > 0; n-- {
			ps = append(ps, segs[rnd.Intn(len(segs))])
		}
		id := strings.Join(ps, "/")
		if id == "" {
			continue
		}
		class := "segments"
		last := ps[len(ps)-1]
		if strings.HasSuffix(last, ":") || strings.LastIndex(last, ":") == 0 {
			class = "colon-edge"
		} else if strings.Contains(last, ":") {
			class = "colon"
		}
		q := &request{msg: &logcache_v1.ReadRequest{SourceId: id}, path: "/api/v1/read/" + escapeID(rnd, id)}
		r.Case(q.path)
		rep, same := genReply(rnd, q.msg, 3)
		g.faithful(q, rep, same, func(s string) string {
			// Known: the colon is lost or the path is not found.
			if class == "colon-edge" && !strings.HasPrefix(s, "request:") && !strings.HasPrefix(s, "refused:") {
				return "source-id:" + s
			}
			return "source-id:" + class
		})
		r.Count(class, 1)
		r.Eval(q.path, true)
	}
}

func info(r *vk.R) {
	versions := []string{"", "1.2.3", `a"b`, `back\slash`, "new\nline", "ü日本", "\x00\x1f", "</script>", "%d", "%s%%", "2.0.0-dev+build.5", "😀", "v3.4.5", " 1.0 "}
	for i, v := range versions {
		for _, up := range []int64{0, 1, 789, -1, 1 << 62} {
			r.Case([]interface{}{v, up})
			var now int64
			g := start(r, gateway.WithGatewayVersion(v), gateway.WithGatewayVMUptimeFn(func() int64 { return atomic.LoadInt64(&now) }))
			for k, p := range []string{"/api/v1/info", "/api/v1/info?x=y", "/api/v1/info"} {
				up := up + int64(k*k*k) // the machine stays up
				atomic.StoreInt64(&now, up)
				a, err := g.get(p)
				if err != nil || a.code != 200 {
					r.Violate("no-answer:info", "GET %s: %d %v", p, a.code, err)
					continue
				}
				var got map[string]interface{}
				if err := json.Unmarshal(a.body, &got); err != nil {
					r.Violate("info-invalid", "version %q: the info endpoint answers %q: %v", v, a.body, err)
					continue
				}
				if got["version"] != v || fmt.Sprint(got["vm_uptime"]) != strconv.FormatInt(up, 10) || len(got) != 2 {
					r.Violate("info", "version %q uptime %d: the info endpoint answers %q", v, up, a.body)
				}
				if !strings.HasSuffix(string(a.body), "\n") {
					r.Violate("newline:info", "the info answer %q does not end in a newline", a.body)
				}
				r.Eval(fmt.Sprint(i, up, p), true)
			}
			g.srv.Stop()
		}
	}
}

// concurrentFaithful mixes requests from many goroutines.
func concurrentFaithful(r *vk.R) {
	g := start(r)
	var mu sync.Mutex
	want := map[string]*request{}
	replies := map[string]proto.Message{}
	mark := func(m proto.Message) string {
		switch q := m.(type) {
		case *logcache_v1.ReadRequest:
			return q.SourceId
		case *logcache_v1.PromQL_InstantQueryRequest:
			return q.Query
		case *logcache_v1.PromQL_RangeQueryRequest:
			return q.Query
		}
		return ""
	}
	calls := map[string]int{}
	g.b.set(func(m proto.Message) (proto.Message, error) {
		mu.Lock()
		defer mu.Unlock()
		k := mark(m)
		calls[k]++
		q := want[k]
		if q == nil || !proto.Equal(q.msg, m) {
			r.Violate("request:concurrent", "Log Cache got %v, want %v", m, q)
		}
		return replies[k], nil
	})
	n := r.Scale(150, 3000)
	var wg sync.WaitGroup
	for w := 0; w < 12; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				rnd := r.Rand("c", w*1000000+i)
				id := fmt.Sprintf("m-%d-%d", w, i)
				q := &request{}
				switch rnd.Intn(3) {
				case 0:
					q.msg = &logcache_v1.ReadRequest{SourceId: id, Limit: int64(i)}
					q.path = "/api/v1/read/" + id + "?limit=" + strconv.Itoa(i)
				case 1:
					q.msg = &logcache_v1.PromQL_InstantQueryRequest{Query: id, Time: strconv.Itoa(i)}
					q.path = "/api/v1/query?query=" + id + "&time=" + strconv.Itoa(i)
				case 2:
					q.msg = &logcache_v1.PromQL_RangeQueryRequest{Query: id, Start: strconv.Itoa(i), End: "9", Step: strconv.Itoa(w)}
					q.path = "/api/v1/query_range?query=" + id + "&end=9&start=" + strconv.Itoa(i) + "&step=" + strconv.Itoa(w)
				}
				rep, same := genReply(rnd, q.msg, 4)
				mu.Lock()
				want[id], replies[id] = q, rep
				mu.Unlock()
				a, err := g.get(q.path)
				if err != nil || a.code != 200 {
					r.Violate("refused:concurrent", "GET %s: %d %s %v", q.path, a.code, a.body, err)
					continue
				}
				g.checkBody("concurrent", q.path, a, same, plain)
				mu.Lock()
				if calls[id] != 1 {
					r.Violate("calls:concurrent", "GET %s made %d calls", q.path, calls[id])
				}
				mu.Unlock()
				r.Count("concurrent", 1)
				r.Eval(q.path, true)
			}
		}()
	}
	wg.Wait()
}

var httpStatus = map[codes.Code]int{
	codes.Canceled: 408, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504, codes.NotFound: 404,
	codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.ResourceExhausted: 429, codes.FailedPrecondition: 400,
	codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501, codes.Internal: 500, codes.Unavailable: 503,
	codes.DataLoss: 500, codes.Unauthenticated: 401,
}

// errorShape checks the body of an error. A nil msg means any message.
func errorShape(k string, a reply, msg *string, code *codes.Code) string {
	if !strings.HasPrefix(a.ctype, "application/json") {
		return fmt.Sprintf("content type %q", a.ctype)
	}
	var got map[string]interface{}
	if err := json.Unmarshal(a.body, &got); err != nil {
		return fmt.Sprintf("invalid JSON: %v", err)
	}
	text, ok := got["error"].(string)
	if !ok || (msg != nil && text != *msg) || (msg == nil && text == "") {
		return fmt.Sprintf("error is %#v", got["error"])
	}
	if strings.HasPrefix(k, "query") {
		if et, ok := got["errorType"].(string); !ok || et == "" {
			return fmt.Sprintf("errorType is %#v", got["errorType"])
		}
		if got["status"] != "error" {
			return fmt.Sprintf("status is %#v", got["status"])
		}
		if _, ok := got["data"]; ok || len(got) != 3 {
			return "unexpected members"
		}
		return ""
	}
	if got["message"] != text {
		return fmt.Sprintf("message is %#v", got["message"])
	}
	if c, ok := got["code"].(float64); !ok || (code != nil && c != float64(*code)) {
		return fmt.Sprintf("code is %#v", got["code"])
	}
	if _, ok := got["envelopes"]; ok {
		return "an error carries envelopes"
	}
	if _, ok := got["meta"]; ok {
		return "an error carries meta"
	}
	return ""
}

var messages = []string{"", "boom", `"quoted" \ back`, "line\nbreak\ttab", "ü日本😀", "<a&b>", "100%", "%20", strings.Repeat("long ", 500), "{\"status\":\"success\"}", "trailing ", " leading", "\x7f\x01"}

func healthy(g *rig, rnd *rand.Rand) {
	q := genRequest(rnd)
	rep, same := genReply(rnd, q.msg, 3)
	g.faithful(q, rep, same, func(s string) string { return "after-error:" + s })
}

func statuses(r *vk.R) {
	g := start(r)
	var cs []codes.Code
	for c := codes.Code(1); c <= 16; c++ {
		cs = append(cs, c)
	}
	cs = append(cs, 17, 99, 12345)
	n := 0
	for round := 0; round < r.Scale(6, 80); round++ {
		for _, c := range cs {
			for mi := range messages {
				n++
				rnd := r.Rand("s", n)
				q := genRequest(rnd)
				msg := messages[(mi+round)%len(messages)]
				r.Case([]interface{}{c, msg, q.path})
				withReply := rnd.Intn(2) == 0
				g.b.set(func(proto.Message) (proto.Message, error) {
					var rep proto.Message
					if withReply {
						rep, _ = genReply(rnd, q.msg, 3)
					}
					return rep, status.Error(c, msg)
				})
				k := kind(q.msg)
				a, err := g.get(q.path)
				if err != nil {
					r.Violate("no-answer:"+k, "code %d: GET %s: %v", c, q.path, err)
					continue
				}
				want, ok := httpStatus[c]
				if !ok {
					want = 500
				}
				if a.code != want {
					r.Violate("status:"+k, "code %v on GET %s is answered %d, want %d: %s", c, q.path, a.code, want, a.body)
				}
				if s := errorShape(k, a, &msg, &c); s != "" {
					r.Violate("shape:"+k, "code %v message %q on GET %s: %s\n%s", c, msg, q.path, s, tail(a.body))
				}
				if len(g.b.got()) != 1 {
					r.Violate("retried:"+k, "a failing GET %s made %d calls", q.path, len(g.b.got()))
				}
				r.Count(fmt.Sprint("http_", a.code), 1)
				r.Eval(fmt.Sprint(c, msg, q.path), true)
				if rnd.Intn(10) == 0 {
					healthy(g, rnd)
				}
			}
		}
	}
}

func untranslatable(r *vk.R) {
	g := start(r)
	bad := []string{"abc", "1.5", "99999999999999999999", " 1", "1 ", "--1", "ü"}
	for i := 0; i < r.Scale(1500, 20000); i++ {
		rnd := r.Rand("u", i)
		var path, k string
		var hdr []string
		id := escapeID(rnd, genID(rnd))
		q := escapeQuery(rnd, queries[rnd.Intn(len(queries))])
		switch rnd.Intn(7) {
		case 0:
			k, path = "read", "/api/v1/read/"+id+"?start_time="+escapeQuery(rnd, bad[rnd.Intn(len(bad))])
		case 1:
			k, path = "read", "/api/v1/read/"+id+"?limit=5&end_time="+escapeQuery(rnd, bad[rnd.Intn(len(bad))])
		case 2:
			k, path = "read", "/api/v1/read/"+id+"?limit="+escapeQuery(rnd, bad[rnd.Intn(len(bad))])+"&descending=true"
		case 3:
			k, path = "read", "/api/v1/read/"+id+"?envelope_types="+[]string{"FOO", "77", "", "log", "-1"}[rnd.Intn(5)]
		case 4:
			k, path = "read", "/api/v1/read/"+id+"?descending="+[]string{"maybe", "2", "yes"}[rnd.Intn(3)]
		case 5:
			k, path = "meta", "/api/v1/meta?local_only="+[]string{"maybe", "2", "yes"}[rnd.Intn(3)]
		case 6:
			ps := []string{"read", "meta", "query", "query_range"}
			k = ps[rnd.Intn(4)]
			path = map[string]string{"read": "/api/v1/read/" + id, "meta": "/api/v1/meta", "query": "/api/v1/query?query=" + q, "query_range": "/api/v1/query_range?query=" + q}[k]
			hdr = []string{"Grpc-Timeout", []string{"abc", "1", "1x", "xS"}[rnd.Intn(4)]}
		}
		r.Case(path)
		g.b.set(func(proto.Message) (proto.Message, error) {
			return nil, status.Error(codes.Internal, "not to be asked")
		})
		a, err := g.get(path, hdr...)
		if err != nil {
			r.Violate("no-answer:"+k, "GET %s: %v", path, err)
			continue
		}
		if a.code != 400 {
			r.Violate("bad-request:"+k, "GET %s %v is answered %d: %s", path, hdr, a.code, a.body)
		} else if s := errorShape(k, a, nil, nil); s != "" {
			r.Violate("shape:"+k, "GET %s %v: %s\n%s", path, hdr, s, a.body)
		}
		if n := len(g.b.got()); n != 0 {
			r.Violate("bad-request-forwarded:"+k, "GET %s %v made %d calls", path, hdr, n)
		}
		r.Count("bad_"+k, 1)
		r.Eval(path+fmt.Sprint(hdr), true)
		if rnd.Intn(5) == 0 {
			healthy(g, rnd)
		}
	}
}

// unrenderable: replies that no JSON result can say, and one that is too big.
func unrenderable(r *vk.R) {
	g := start(r)
	for i := 0; i < r.Scale(400, 5000); i++ {
		rnd := r.Rand("b", i)
		bad := false
		m := pq.Gen(rnd, &bad)
		k := "query"
		if _, ok := m.(*logcache_v1.PromQL_RangeQueryResult); ok {
			k = "query_range"
		}
		if rnd.Intn(4) > 0 {
			p := &logcache_v1.PromQL_Point{Time: pq.BadTimes[rnd.Intn(len(pq.BadTimes))], Value: 1}
			bad = true
			if k == "query" {
				switch rnd.Intn(3) {
				case 0:
					m = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.Time}}}
				case 1:
					m = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Point: p}}}}}
				case 2:
					m = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Points: []*logcache_v1.PromQL_Point{p}}}}}}
				}
			} else {
				m = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Points: []*logcache_v1.PromQL_Point{p}}}}}}
			}
		}
		path := "/api/v1/" + k + "?query=x"
		r.Case(path + " " + proto.CompactTextString(m))
		g.b.set(func(proto.Message) (proto.Message, error) { return m, nil })
		a, err := g.get(path)
		if err != nil {
			r.Violate("no-answer:"+k, "GET %s: %v", path, err)
			continue
		}
		if !bad {
			if s := sameResult(m)(a.body); a.code != 200 || s != "" {
				r.Violate("after-error:"+k, "a good result is answered %d %s", a.code, s)
			}
			continue
		}
		if a.code < 500 {
			r.Violate("unrenderable:"+k, "a reply with an impossible time is answered %d: %s", a.code, a.body)
		} else if s := errorShape(k, a, nil, nil); s != "" {
			r.Violate("shape:"+k, "a reply with an impossible time: %s\n%s", s, a.body)
		}
		r.Count("unrenderable", 1)
		r.Eval(proto.CompactTextString(m), true)
	}
	for i := 0; i < 3; i++ {
		rnd := r.Rand("big", i)
		size := 1 << 20
		if i == 0 {
			size = 9 << 20
		}
		m := &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}
		for n := 0; n < 6; n++ {
			m.Envelopes.Batch = append(m.Envelopes.Batch, &loggregator_v2.Envelope{Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: make([]byte, size)}}})
		}
		r.Case("oversized")
		g.b.set(func(proto.Message) (proto.Message, error) { return m, nil })
		a, err := g.get("/api/v1/read/x")
		if err != nil {
			r.Violate("no-answer:read", "oversized reply: %v", err)
		} else if a.code == 200 {
			if s := env.SameJSON(a.body, env.ReadJSON(m)); s != "" {
				r.Violate("oversized", "an oversized reply is answered 200 with something else: %s", s)
			}
		} else if s := errorShape("read", a, nil, nil); s != "" {
			r.Violate("shape:read", "oversized reply: %s\n%s", s, tail(a.body))
		}
		r.Eval(fmt.Sprint("big", i), true)
		healthy(g, rnd)
	}
}

func outage(r *vk.R) {
	g := start(r)
	for round := 0; round < r.Scale(3, 10); round++ {
		rnd := r.Rand("o", round)
		// Impatient clients.
		paths := []string{"/api/v1/read/impatient-client", "/api/v1/query?query=impatient-client", "/api/v1/query_range?query=impatient-client"}
		var wg sync.WaitGroup
		for i := 0; i < 10; i++ {
			path := paths[rnd.Intn(len(paths))]
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
				defer cancel()
				req, _ := http.NewRequest("GET", g.base+path, nil)
				if resp, err := g.cl.Do(req.WithContext(ctx)); err == nil {
					resp.Body.Close()
				}
			}()
		}
		wg.Wait()
		r.Eval(fmt.Sprint("impatient", round), true)
		for i := 0; i < 5; i++ {
			healthy(g, rnd)
		}

		g.srv.Stop()
		down := 0
		for i := 0; i < 20; i++ {
			q := genRequest(rnd)
			k := kind(q.msg)
			r.Case("down " + q.path)
			a, err := g.get(q.path)
			if err != nil {
				r.Violate("no-answer:"+k, "with Log Cache down: GET %s: %v", q.path, err)
				continue
			}
			if a.code != 503 {
				r.Violate("down:"+k, "with Log Cache down GET %s is answered %d: %s", q.path, a.code, a.body)
			} else if s := errorShape(k, a, nil, nil); s != "" {
				r.Violate("shape:"+k, "with Log Cache down: %s\n%s", s, a.body)
			}
			down++
			r.Eval(fmt.Sprint("down", round, q.path), true)
		}
		r.Count("down", down)

		g.b.set(func(proto.Message) (proto.Message, error) { return &logcache_v1.MetaResponse{}, nil })
		g.srv, _ = g.b.serve(r, g.bend)
		back := false
		for i := 0; i < 1200; i++ {
			if a, err := g.get("/api/v1/meta"); err == nil && a.code == 200 {
				back = true
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if !back {
			r.Violate("no-recovery", "Log Cache is back but the gateway does not find it within two minutes")
			return
		}
		for i := 0; i < 5; i++ {
			healthy(g, rnd)
		}
	}
}

func concurrentErrors(r *vk.R) {
	g := start(r)
	g.b.set(func(m proto.Message) (proto.Message, error) {
		var mark string
		switch q := m.(type) {
		case *logcache_v1.ReadRequest:
			mark = q.SourceId
		case *logcache_v1.PromQL_InstantQueryRequest:
			mark = q.Query
		case *logcache_v1.PromQL_RangeQueryRequest:
			mark = q.Query
		}
		ps := strings.Split(mark, "-")
		if len(ps) != 3 {
			return nil, status.Error(codes.Internal, "bad mark "+mark)
		}
		if c, _ := strconv.Atoi(ps[0]); c != 0 {
			return nil, status.Error(codes.Code(c), mark)
		}
		switch m.(type) {
		case *logcache_v1.ReadRequest:
			return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{SourceId: mark}}}}, nil
		case *logcache_v1.PromQL_InstantQueryRequest:
			return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
				Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"mark": mark}, Point: &logcache_v1.PromQL_Point{Time: "1", Value: 2}}}}}}, nil
		}
		return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
			Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"mark": mark}, Points: []*logcache_v1.PromQL_Point{{Time: "1", Value: 2}}}}}}}, nil
	})
	n := r.Scale(250, 4000)
	var wg sync.WaitGroup
	for w := 0; w < 12; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				rnd := r.Rand("c", w*1000000+i)
				code := codes.Code(0)
				if rnd.Intn(2) == 0 {
					code = codes.Code(1 + rnd.Intn(16))
				}
				mark := fmt.Sprintf("%d-%d-%d", code, w, i)
				k := []string{"read", "query", "query_range"}[rnd.Intn(3)]
				path := map[string]string{"read": "/api/v1/read/" + mark, "query": "/api/v1/query?query=" + mark, "query_range": "/api/v1/query_range?query=" + mark}[k]
				bad := rnd.Intn(5) == 0
				var hdr []string
				if bad && k == "read" {
					path += "?limit=x"
				} else if bad {
					hdr = []string{"Grpc-Timeout", "never"}
				}
				a, err := g.get(path, hdr...)
				if err != nil {
					r.Violate("no-answer:"+k, "GET %s: %v", path, err)
					continue
				}
				switch {
				case bad:
					if a.code != 400 {
						r.Violate("bad-request:"+k, "GET %s is answered %d: %s", path, a.code, a.body)
					} else if s := errorShape(k, a, nil, nil); s != "" {
						r.Violate("shape:"+k, "GET %s: %s\n%s", path, s, a.body)
					}
				case code != 0:
					if a.code != httpStatus[code] {
						r.Violate("status:"+k, "GET %s is answered %d: %s", path, a.code, a.body)
					}
					if s := errorShape(k, a, &mark, &code); s != "" {
						r.Violate("shape:"+k, "GET %s: %s\n%s", path, s, a.body)
					}
				default:
					if a.code != 200 || !strings.Contains(string(a.body), `"`+mark+`"`) {
						r.Violate("cross-talk:"+k, "GET %s is answered %d: %s", path, a.code, a.body)
					}
				}
				r.Count("concurrent", 1)
				r.Eval(path, code != 0 || bad)
			}
		}()
	}
	wg.Wait()
}
