package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/blang/semver"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func c30() vk.Check {
	return vk.Check{
		Rule: "generated calls of every client method with generated options and answers (versions, statuses, malformed, truncated and broken bodies, transport errors, ended contexts), over a recording HTTP client and over a real gRPC server, each compared with a model of the request and of the result; plus concurrent calls on one client; non-trivial: the call carried an option or a fault",
		Assumptions: []string{
			"envelope types are ones the API defines; times fit 64-bit nanoseconds",
			"asking the server's version (at most once per call) is not part of the one request",
		},
		Parts: []vk.Part{
			{Name: "http", Run: httpCalls},
			{Name: "grpc", Run: grpcCalls},
			{Name: "concurrent", Run: concurrentCalls},
			{Name: "loopback", Run: loopbackCalls},
			{Name: "bad-address", Run: badAddressCalls},
		},
	}
}

// call is one generated client call.
type call struct {
	Method  string
	Source  string
	Start   int64
	End     *int64
	Limit   *int
	Types   []logcache_v1.EnvelopeType
	Desc    bool
	Name    *string
	Query   string
	Time    *int64
	RStart  *int64
	REnd    *int64
	Step    *string
	Options int
}

var methods = []string{"Read", "Read", "Read", "Meta", "PromQL", "PromQLRange", "PromQLRaw", "PromQLRangeRaw", "LogCacheVersion", "LogCacheVMUptime"}

var sources = []string{"app-guid", "a", "some id", "a/b", "a?b", "a#b", "a%2Fb", "a&b=c", "ü-ñ", "日本", "a+b", "a;b", "*", "a:b", "%", "a..b", "-", "~!@$^()", `"quoted"`, "doppler"}
var queries = []string{`metric{source_id="x"}`, "1", "", `sum(rate(m{source_id="a b"}[1m])) by (x) + 1`, `a&b=c`, "100%", `{source_id=~"x|y"}`, "ü", "a+b", "query=1&time=2", "\n"}

func genTime(r *rand.Rand) int64 {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		return -r.Int63n(1e18)
	case 2:
		return math.MaxInt64
	case 3:
		return r.Int63()
	case 4:
		return int64(r.Intn(100))
	default:
		return 1600000000e9 + r.Int63n(1e17)
	}
}

func genCall(r *rand.Rand, grpcOnly bool) *call {
	c := &call{}
	for {
		c.Method = methods[r.Intn(len(methods))]
		if !grpcOnly || (!strings.HasSuffix(c.Method, "Raw") && !strings.HasPrefix(c.Method, "LogCache")) {
			break
		}
	}
	switch c.Method {
	case "Read":
		c.Source = sources[r.Intn(len(sources))]
		c.Start = genTime(r)
		if r.Intn(2) == 0 {
			c.End = p64(genTime(r))
		}
		if r.Intn(2) == 0 {
			n := []int{0, 1, 100, 1000, 1001, -1, math.MaxInt32, 7, math.MaxInt64, math.MinInt64, 1<<32 + 5}[r.Intn(11)]
			c.Limit = &n
		}
		for n := r.Intn(8) - 2; n > 0; n-- {
			c.Types = append(c.Types, logcache_v1.EnvelopeType(r.Intn(len(logcache_v1.EnvelopeType_name))))
		}
		c.Desc = r.Intn(3) == 0
		if r.Intn(3) == 0 {
			s := []string{"cpu", "^a.*b$", "a b&limit=1", "", "%41", "ü", "(?i)x+"}[r.Intn(7)]
			c.Name = &s
		}
	case "Meta", "LogCacheVersion", "LogCacheVMUptime":
	default:
		c.Query = queries[r.Intn(len(queries))]
		if strings.Contains(c.Method, "Range") {
			if r.Intn(4) > 0 {
				c.RStart = p64(genTime(r))
			}
			if r.Intn(4) > 0 {
				c.REnd = p64(genTime(r))
			}
			if r.Intn(4) > 0 {
				s := []string{"1m", "15", "1.5", "1h30m", "a b&c", ""}[r.Intn(6)]
				c.Step = &s
			}
		} else if r.Intn(3) > 0 {
			c.Time = p64(genTime(r))
		}
	}
	return c
}

func (c *call) readOpts(r *rand.Rand) []client.ReadOption {
	var o []client.ReadOption
	if c.End != nil {
		o = append(o, client.WithEndTime(time.Unix(0, *c.End)))
	}
	if c.Limit != nil {
		o = append(o, client.WithLimit(*c.Limit))
	}
	if c.Types != nil {
		o = append(o, client.WithEnvelopeTypes(c.Types...))
	}
	if c.Desc {
		o = append(o, client.WithDescending())
	}
	if c.Name != nil {
		o = append(o, client.WithNameFilter(*c.Name))
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func (c *call) promOpts(r *rand.Rand) []client.PromQLOption {
	var o []client.PromQLOption
	if c.Time != nil {
		o = append(o, client.WithPromQLTime(time.Unix(0, *c.Time)))
	}
	if c.RStart != nil {
		o = append(o, client.WithPromQLStart(time.Unix(0, *c.RStart)))
	}
	if c.REnd != nil {
		o = append(o, client.WithPromQLEnd(time.Unix(0, *c.REnd)))
	}
	if c.Step != nil {
		o = append(o, client.WithPromQLStep(*c.Step))
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// sameTime: the text is the decimal seconds of t, to the millisecond.
func sameTime(text string, t int64) bool {
	i := strings.IndexByte(text, '.')
	neg := strings.HasPrefix(text, "-")
	s := strings.TrimPrefix(text, "-")
	frac := "0"
	if i >= 0 {
		s, frac, _ = strings.Cut(s, ".")
	}
	sec, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return false
	}
	for len(frac) < 9 {
		frac += "0"
	}
	ns, err := strconv.ParseInt(frac[:9], 10, 64)
	if err != nil {
		return false
	}
	// Seconds of the largest times would overflow in nanoseconds.
	got := float64(sec)*1e3 + float64(ns)/1e6
	if neg {
		got = -got
	}
	want := float64(t) / 1e6
	if t%1000000 == 0 {
		return math.Abs(got-want) < .01
	}
	return math.Abs(got-want) <= 1
}

// sameQuery checks the parameters of a request, once each.
func (c *call) sameQuery(got url.Values) string {
	want := url.Values{}
	times := map[string]int64{}
	switch c.Method {
	case "Read":
		want.Set("start_time", strconv.FormatInt(c.Start, 10))
		if c.End != nil {
			want.Set("end_time", strconv.FormatInt(*c.End, 10))
		}
		if c.Limit != nil {
			want.Set("limit", strconv.Itoa(*c.Limit))
		}
		for _, t := range c.Types {
			want.Add("envelope_types", logcache_v1.EnvelopeType_name[int32(t)])
		}
		if c.Desc {
			want.Set("descending", "true")
		}
		if c.Name != nil {
			want.Set("name_filter", *c.Name)
		}
	case "Meta":
	default:
		want.Set("query", c.Query)
		for k, v := range map[string]*int64{"time": c.Time, "start": c.RStart, "end": c.REnd} {
			if v == nil {
				continue
			}
			times[k] = *v
			if len(got[k]) == 1 && sameTime(got[k][0], *v) {
				want.Set(k, got[k][0])
			} else {
				want.Set(k, fmt.Sprint(*v, "ns"))
			}
		}
		if c.Step != nil {
			want.Set("step", *c.Step)
		}
	}
	if got.Encode() != want.Encode() {
		return fmt.Sprintf("parameters %q, want %q", got.Encode(), want.Encode())
	}
	return ""
}

func (c *call) options() bool {
	return c.End != nil || c.Limit != nil || c.Types != nil || c.Desc || c.Name != nil || c.Time != nil || c.RStart != nil || c.REnd != nil || c.Step != nil
}

func genEnvelope(r *rand.Rand, id string) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{Timestamp: genTime(r), SourceId: id, InstanceId: strconv.Itoa(r.Intn(5))}
	for n := r.Intn(3); n > 0; n-- {
		if e.Tags == nil {
			e.Tags = map[string]string{}
		}
		e.Tags[fmt.Sprint("t", n)] = []string{"", "v", "a\"b", "ü", "\u2028<>&"}[r.Intn(5)]
	}
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b, Type: loggregator_v2.Log_Type(r.Intn(2))}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Delta: r.Uint64(), Total: r.Uint64()}}
	case 2:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"g": {Unit: "u", Value: r.NormFloat64()}, "h": {Value: math.MaxFloat64}}}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: genTime(r), Stop: genTime(r)}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: "T", Body: "b\nx"}}
	}
	return e
}

// answer is what a server replies with, in typed form.
type answer struct {
	read    *logcache_v1.ReadResponse
	meta    *logcache_v1.MetaResponse
	instant *logcache_v1.PromQL_InstantQueryResult
	rng     *logcache_v1.PromQL_RangeQueryResult
	version string
	uptime  string
}

func genLabels(r *rand.Rand) map[string]string {
	m := map[string]string{}
	for n := r.Intn(3); n > 0; n-- {
		m[fmt.Sprint("l", n)] = []string{"x", "y z", "é\"", ""}[r.Intn(4)]
	}
	return m
}

// genMilli is a time the API's millisecond numbers carry exactly.
func genMilli(r *rand.Rand) string {
	return fmt.Sprintf("%d.%03d", r.Int63n(2e9), r.Intn(1000))
}

func genVal(r *rand.Rand) float64 {
	return []float64{0, 1.5, -3, 1e300, 5e-324, math.Inf(1), 1234567.891, r.NormFloat64()}[r.Intn(8)]
}

func genSeries(r *rand.Rand, big bool) []*logcache_v1.PromQL_Series {
	var out []*logcache_v1.PromQL_Series
	series, points := r.Intn(4), 4
	if big {
		series, points = 30, 2200
	}
	for n := series; n > 0; n-- {
		s := &logcache_v1.PromQL_Series{Metric: genLabels(r)}
		for k := 1 + r.Intn(points); k > 0; k-- {
			s.Points = append(s.Points, &logcache_v1.PromQL_Point{Time: genMilli(r), Value: genVal(r)})
		}
		out = append(out, s)
	}
	return out
}

// genAnswer generates an answer, of some megabytes if big.
func genAnswer(r *rand.Rand, c *call, big bool) *answer {
	a := &answer{}
	switch c.Method {
	case "Read":
		a.read = &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}
		for n := r.Intn(5); n > 0; n-- {
			a.read.Envelopes.Batch = append(a.read.Envelopes.Batch, genEnvelope(r, c.Source))
		}
		if r.Intn(10) == 0 {
			a.read.Envelopes = nil
		}
		if big {
			a.read.Envelopes = &loggregator_v2.EnvelopeBatch{}
			for n := 300; n > 0; n-- {
				e := genEnvelope(r, c.Source)
				e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: bytes.Repeat([]byte{byte(n)}, 2000+r.Intn(3000))}}
				a.read.Envelopes.Batch = append(a.read.Envelopes.Batch, e)
			}
		}
	case "Meta":
		a.meta = &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{}}
		for n := r.Intn(4); n > 0; n-- {
			a.meta.Meta[sources[r.Intn(len(sources))]] = &logcache_v1.MetaInfo{Count: r.Int63(), Expired: r.Int63n(5), OldestTimestamp: genTime(r), NewestTimestamp: genTime(r)}
		}
	case "PromQL", "PromQLRaw":
		a.instant = &logcache_v1.PromQL_InstantQueryResult{}
		kind := r.Intn(3)
		if big {
			kind = 2
		}
		switch kind {
		case 0:
			a.instant.Result = &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: genMilli(r), Value: genVal(r)}}
		case 1:
			v := &logcache_v1.PromQL_Vector{}
			for n := r.Intn(4); n > 0; n-- {
				v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: genLabels(r), Point: &logcache_v1.PromQL_Point{Time: genMilli(r), Value: genVal(r)}})
			}
			a.instant.Result = &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: v}
		default:
			a.instant.Result = &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: genSeries(r, big)}}
		}
	case "PromQLRange", "PromQLRangeRaw":
		a.rng = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: genSeries(r, big)}}}
	}
	a.version = []string{"2.0.0", "2.1.3", "10.0.0", "1.4.8", "1.9.99", "2.0.0-rc.1", "2.0.1-beta+x", "0.0.1"}[r.Intn(8)]
	a.uptime = strconv.FormatInt([]int64{r.Int63n(1e6), r.Int63(), 0}[r.Intn(3)], 10)
	return a
}

func (a *answer) json() []byte {
	var m proto.Message
	var mr runtime.Marshaler = &runtime.JSONPb{OrigName: true, EmitDefaults: true}
	switch {
	case a.read != nil:
		m = a.read
	case a.meta != nil:
		m = a.meta
	case a.instant != nil:
		m, mr = a.instant, marshaler.NewPromqlMarshaler(mr)
	case a.rng != nil:
		m, mr = a.rng, marshaler.NewPromqlMarshaler(mr)
	}
	b, err := mr.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// result of a call, as text for comparison.
type result struct {
	err error
	val interface{}
}

// canon sorts what has no order of its own.
func canon(v interface{}) string {
	switch x := v.(type) {
	case []*loggregator_v2.Envelope:
		var b bytes.Buffer
		for _, e := range x {
			b.WriteString(proto.MarshalTextString(e))
			b.WriteByte('|')
		}
		return b.String()
	case map[string]*logcache_v1.MetaInfo:
		return proto.MarshalTextString(&logcache_v1.MetaResponse{Meta: x})
	case proto.Message:
		return proto.MarshalTextString(x)
	}
	return vk.J(v)
}

func (c *call) do(cl *client.Client, ctx context.Context, rnd *rand.Rand) (res result) {
	switch c.Method {
	case "Read":
		v, err := cl.Read(ctx, c.Source, time.Unix(0, c.Start), c.readOpts(rnd)...)
		return result{err, v}
	case "Meta":
		v, err := cl.Meta(ctx)
		return result{err, v}
	case "PromQL":
		v, err := cl.PromQL(ctx, c.Query, c.promOpts(rnd)...)
		return result{err, v}
	case "PromQLRange":
		v, err := cl.PromQLRange(ctx, c.Query, c.promOpts(rnd)...)
		return result{err, v}
	case "PromQLRaw":
		v, err := cl.PromQLRaw(ctx, c.Query, c.promOpts(rnd)...)
		return result{err, v}
	case "PromQLRangeRaw":
		v, err := cl.PromQLRangeRaw(ctx, c.Query, c.promOpts(rnd)...)
		return result{err, v}
	case "LogCacheVersion":
		v, err := cl.LogCacheVersion(ctx)
		return result{err, v}
	default:
		v, err := cl.LogCacheVMUptime(ctx)
		return result{err, v}
	}
}

func isNilVal(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []*loggregator_v2.Envelope:
		return len(x) == 0
	case map[string]*logcache_v1.MetaInfo:
		return len(x) == 0
	case *logcache_v1.PromQL_InstantQueryResult:
		return x == nil
	case *logcache_v1.PromQL_RangeQueryResult:
		return x == nil
	case *client.PromQLQueryResult:
		return x == nil
	case semver.Version:
		return x.Equals(semver.Version{})
	case int64:
		return x == -1
	}
	return false
}

func (a *answer) want(c *call) string {
	switch c.Method {
	case "Read":
		return canon(a.read.GetEnvelopes().GetBatch())
	case "Meta":
		return canon(a.meta.Meta)
	case "PromQL":
		return canon(a.instant)
	case "PromQLRange":
		return canon(a.rng)
	}
	return ""
}

func httpCalls(r *vk.R) {
	for i := 0; i < r.Scale(12000, 200000) && r.Violations() < 20; i++ {
		rnd := r.Rand("h", i)
		c := genCall(rnd, false)
		big := i < 12000 && i%1200 == 5
		if big {
			c.Method = []string{"PromQLRaw", "Read", "PromQLRangeRaw", "PromQL", "PromQLRange"}[i/1200%5]
		}
		a := genAnswer(rnd, c, big)
		isInfo := strings.HasPrefix(c.Method, "LogCache")
		raw := strings.HasSuffix(c.Method, "Raw")
		versioned := c.Method == "Read" || c.Method == "Meta"

		// What the server does.
		fault := "none"
		if rnd.Intn(2) == 0 && !big {
			fault = []string{"status", "status", "status", "transport", "garbage", "empty", "truncated", "broken", "shape", "canceled"}[rnd.Intn(10)]
		}
		st := 200
		if fault == "status" {
			st = []int{300, 302, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503, 504}[rnd.Intn(13)]
		}
		info := "ok"
		if versioned && rnd.Intn(5) == 0 {
			info = []string{"404", "500", "503", "transport", "garbage", "noversion", "badversion", "broken"}[rnd.Intn(8)]
		}
		addr := []string{"https://lc.example", "https://lc.example/", "http://lc.example:8080", "https://lc.example/some/path"}[rnd.Intn(4)]
		r.Case(map[string]interface{}{"call": c, "fault": fault, "status": st, "info": info, "version": a.version, "addr": addr})

		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "mine"))
		open, infos, mains := 0, 0, 0
		var mainURL string
		reply := func(status int, rd io.Reader) (*http.Response, error) {
			open++
			return &http.Response{StatusCode: status, Status: http.StatusText(status), Header: http.Header{}, Body: &body{Reader: rd, onEnd: func() { open-- }}}, nil
		}
		var goodBody []byte
		hc := doerFunc(func(req *http.Request) (*http.Response, error) {
			if req.Method != "GET" {
				r.Violate("method", "%s used %s", c.Method, req.Method)
			}
			if req.Context().Value(ctxKey{}) != "mine" {
				r.Violate("context", "%s sent a request without the call's context", c.Method)
			}
			au, _ := url.Parse(addr)
			if req.URL.Host != au.Host || req.URL.Scheme != au.Scheme {
				r.Violate("host", "request to %s, configured %s", req.URL, addr)
			}
			if err := req.Context().Err(); err != nil {
				return nil, err
			}
			if req.URL.Path == "/api/v1/info" && !isInfo {
				infos++
				switch info {
				case "404":
					return reply(404, strings.NewReader("404 page not found"))
				case "500", "503":
					n, _ := strconv.Atoi(info)
					return reply(n, strings.NewReader(`{"version":"2.0.0"}`))
				case "transport":
					return nil, errTransport
				case "garbage":
					return reply(200, strings.NewReader("<html>"))
				case "noversion":
					return reply(200, strings.NewReader(`{}`))
				case "badversion":
					return reply(200, strings.NewReader(`{"version":"two"}`))
				case "broken":
					return reply(200, brokenReader{strings.NewReader(`{"vers`)})
				}
				return reply(200, strings.NewReader(fmt.Sprintf("{\"version\":%q,\"vm_uptime\":%q}\n", a.version, a.uptime)))
			}
			mains++
			mainURL = req.URL.String()
			// What goes over the wire is the text, not the struct.
			wire, err := url.Parse(mainURL)
			if err != nil {
				r.Violate("url", "%s asked for %q: %v", c.Method, mainURL, err)
				return nil, err
			}
			path := map[string]string{"Read": "/read/" + c.Source, "Meta": "/meta", "PromQL": "/query", "PromQLRaw": "/query", "PromQLRange": "/query_range", "PromQLRangeRaw": "/query_range", "LogCacheVersion": "/info", "LogCacheVMUptime": "/info"}[c.Method]
			prefix := "/api/v1"
			if versioned {
				v, _ := semver.Parse(a.version)
				if info == "404" || v.LT(semver.MustParse("2.0.0")) {
					prefix = "/v1"
				}
			}
			if wire.Path != prefix+path {
				r.Violate("path:"+c.Method, "%s (version %s, info %s) asked for path %q, want %q", c.Method, a.version, info, wire.Path, prefix+path)
			}
			if !isInfo {
				q, err := url.ParseQuery(wire.RawQuery)
				if err != nil {
					r.Violate("url", "%s: query %q: %v", c.Method, wire.RawQuery, err)
				}
				if d := c.sameQuery(q); d != "" {
					r.Violate("parameters:"+c.Method, "%s over HTTP sent %s", c.Method, d)
				}
			}
			var good []byte
			if isInfo {
				good = []byte(fmt.Sprintf("{\"version\":%q,\"vm_uptime\":%q}\n", a.version, a.uptime))
			} else {
				good = append(a.json(), '\n')
			}
			goodBody = good
			if len(good) > 1<<20 {
				r.Count("bodies_over_1MB", 1)
			}
			switch fault {
			case "transport":
				return nil, errTransport
			case "status":
				if raw && (st == 400 || st == 500) {
					goodBody = []byte(`{"status":"error","errorType":"bad_data","error":"parse error <x>"}` + "\n")
				} else if rnd.Intn(2) == 0 {
					goodBody = []byte(`{"status":"error","errorType":"internal","error":"boom"}`)
				}
				return reply(st, bytes.NewReader(goodBody))
			case "garbage":
				return reply(200, strings.NewReader("<html>oops</html>"))
			case "empty":
				return reply(200, strings.NewReader(""))
			case "truncated":
				return reply(200, bytes.NewReader(good[:rnd.Intn(len(good)-2)]))
			case "broken":
				return reply(200, brokenReader{bytes.NewReader(good[:rnd.Intn(len(good)-2)])})
			case "shape":
				return reply(200, strings.NewReader([]string{`[]`, `5`, `"x"`, `{"envelopes":5,"meta":5,"status":5,"data":5,"version":5,"vm_uptime":5}`}[rnd.Intn(4)]))
			case "canceled":
				cancel()
				return nil, ctx.Err()
			}
			return reply(200, bytes.NewReader(good))
		})
		cl := client.NewClient(addr, client.WithHTTPClient(hc))
		var res result
		if !r.Safely(c.Method, func() { res = c.do(cl, ctx, rnd) }) {
			cancel()
			continue
		}
		cancel()
		if infos > 1 {
			r.Violate("info-requests", "%s asked for the version %d times", c.Method, infos)
		}
		if !versioned && infos > 0 {
			r.Violate("info-requests", "%s asked for the version", c.Method)
		}
		if open != 0 {
			r.Violate("body-open:"+c.Method, "%s left %d response bodies open (fault %s, info %s)", c.Method, open, fault, info)
		}
		what := fmt.Sprintf("%s (fault %s, status %d, info %s)", c.Method, fault, st, info)
		infoBad := versioned && info != "ok" && info != "404"
		switch {
		case infoBad:
			if res.err == nil || mains != 0 {
				r.Violate("error-lost:"+c.Method, "%s: the version could not be found out, but %d requests were sent and the error is %v", what, mains, res.err)
			}
		case mains != 1:
			r.Violate("requests:"+c.Method, "%s sent %d requests", what, mains)
		case fault == "none":
			if res.err != nil {
				r.Violate("error-invented:"+c.Method, "%s failed: %v (body %q)", what, res.err, goodBody)
				break
			}
			switch c.Method {
			case "LogCacheVersion":
				if res.val.(semver.Version).String() != a.version {
					r.Violate("result:"+c.Method, "%s returned %v, the server said %s", what, res.val, a.version)
				}
			case "LogCacheVMUptime":
				if strconv.FormatInt(res.val.(int64), 10) != a.uptime {
					r.Violate("result:"+c.Method, "%s returned %v, the server said %s", what, res.val, a.uptime)
				}
			case "PromQLRaw", "PromQLRangeRaw":
				sameRaw(r, what, res.val.(*client.PromQLQueryResult), goodBody)
			default:
				if got, want := canon(res.val), a.want(c); got != want {
					r.Violate("result:"+c.Method, "%s returned\n%s\nthe server said\n%s", what, got, want)
				}
			}
		case fault == "status" && raw && (st == 400 || st == 500):
			if res.err != nil {
				r.Violate("raw-error:"+c.Method, "%s: the error document came back as %v", what, res.err)
				break
			}
			sameRaw(r, what, res.val.(*client.PromQLQueryResult), goodBody)
		case fault == "status" && c.Method == "LogCacheVersion" && st == 404:
			if res.err != nil || res.val.(semver.Version).String() != "1.4.7" {
				r.Violate("result:"+c.Method, "%s: a server without info endpoint is %v, %v, want 1.4.7", what, res.val, res.err)
			}
		case fault == "broken" && !raw, fault == "truncated" && !raw && isInfo:
			// A JSON document can be complete before the break.
			if res.err == nil && len(goodBody) > 0 && !json.Valid(bytes.TrimSpace(goodBody)) {
				r.Violate("error-lost:"+c.Method, "%s returned %v", what, res.val)
			}
			if res.err == nil {
				r.Violate("error-lost:"+c.Method, "%s returned %v", what, canon(res.val))
			}
		default:
			if res.err == nil {
				r.Violate("error-lost:"+c.Method, "%s returned %s and no error", what, canon(res.val))
			} else if !isNilVal(res.val) {
				r.Violate("data-with-error:"+c.Method, "%s returned %s with error %v", what, canon(res.val), res.err)
			}
		}
		if fault == "status" && res.err != nil && !strings.Contains(res.err.Error(), strconv.Itoa(st)) {
			r.Count("errors_without_status", 1)
		}
		r.Count("http_"+c.Method, 1)
		r.Count("fault_"+fault, 1)
		r.Eval(fmt.Sprint(vk.J(c), fault, st, info, a.version), c.options() || fault != "none")
		if i < 4 {
			r.Sample(map[string]interface{}{"method": c.Method, "url": mainURL, "fault": fault})
		}
	}
}

func sameRaw(r *vk.R, what string, got *client.PromQLQueryResult, body []byte) {
	var want map[string]interface{}
	if err := json.Unmarshal(body, &want); err != nil {
		r.Fatal("body %q: %v", body, err)
	}
	str := func(m map[string]interface{}, k string) string { s, _ := m[k].(string); return s }
	data, _ := want["data"].(map[string]interface{})
	if got == nil {
		r.Violate("result:raw", "%s returned nothing", what)
		return
	}
	var res interface{}
	if len(got.Data.Result) > 0 {
		if err := json.Unmarshal(got.Data.Result, &res); err != nil {
			r.Violate("result:raw", "%s: result %q: %v", what, got.Data.Result, err)
		}
	}
	if got.Status != str(want, "status") || got.Error != str(want, "error") || got.ErrorType != str(want, "errorType") ||
		got.Data.ResultType != str(data, "resultType") || vk.J(res) != vk.J(data["result"]) {
		r.Violate("result:raw", "%s returned %s, the server said %s", what, vk.J(got), body)
	}
}

// grpcServer records and answers.
type grpcServer struct {
	mu      sync.Mutex
	handler func(ctx context.Context, req proto.Message) (proto.Message, error)
}

func (s *grpcServer) call(ctx context.Context, req proto.Message) (proto.Message, error) {
	s.mu.Lock()
	h := s.handler
	s.mu.Unlock()
	return h(ctx, req)
}
func (s *grpcServer) Read(ctx context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	m, err := s.call(ctx, q)
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.ReadResponse), nil
}
func (s *grpcServer) Meta(ctx context.Context, q *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	m, err := s.call(ctx, q)
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.MetaResponse), nil
}
func (s *grpcServer) InstantQuery(ctx context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	m, err := s.call(ctx, q)
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_InstantQueryResult), nil
}
func (s *grpcServer) RangeQuery(ctx context.Context, q *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	m, err := s.call(ctx, q)
	if err != nil {
		return nil, err
	}
	return m.(*logcache_v1.PromQL_RangeQueryResult), nil
}

func startGRPC(r *vk.R) (*grpcServer, string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Fatal("listen: %v", err)
	}
	s := &grpcServer{}
	g := grpc.NewServer()
	logcache_v1.RegisterEgressServer(g, s)
	logcache_v1.RegisterPromQLQuerierServer(g, s)
	go g.Serve(l)
	return s, l.Addr().String(), g.Stop
}

// sameGRPC compares a gRPC request with the call.
func (c *call) sameGRPC(m proto.Message) string {
	tm := func(name, text string, t *int64) string {
		if t == nil && text != "" || t != nil && !sameTime(text, *t) {
			return fmt.Sprintf("%s %q", name, text)
		}
		return ""
	}
	switch q := m.(type) {
	case *logcache_v1.ReadRequest:
		w := &logcache_v1.ReadRequest{SourceId: c.Source, StartTime: c.Start, Descending: c.Desc, EnvelopeTypes: c.Types}
		if c.End != nil {
			w.EndTime = *c.End
		}
		if c.Limit != nil {
			w.Limit = int64(*c.Limit)
		}
		if c.Name != nil {
			w.NameFilter = *c.Name
		}
		if c.Method != "Read" || !proto.Equal(q, w) {
			return fmt.Sprintf("%v, want %v", q, w)
		}
	case *logcache_v1.MetaRequest:
		if c.Method != "Meta" || q.LocalOnly {
			return fmt.Sprint(q)
		}
	case *logcache_v1.PromQL_InstantQueryRequest:
		if c.Method != "PromQL" || q.Query != c.Query {
			return fmt.Sprint(q)
		}
		return tm("time", q.Time, c.Time)
	case *logcache_v1.PromQL_RangeQueryRequest:
		step := ""
		if c.Step != nil {
			step = *c.Step
		}
		if c.Method != "PromQLRange" || q.Query != c.Query || q.Step != step {
			return fmt.Sprint(q)
		}
		return tm("start", q.Start, c.RStart) + tm("end", q.End, c.REnd)
	}
	return ""
}

func (a *answer) msg() proto.Message {
	switch {
	case a.read != nil:
		return a.read
	case a.meta != nil:
		return a.meta
	case a.instant != nil:
		return a.instant
	}
	return a.rng
}

func grpcCalls(r *vk.R) {
	s, addr, stop := startGRPC(r)
	defer stop()
	cl := client.NewClient(addr, client.WithViaGRPC(grpc.WithInsecure()))
	for i := 0; i < r.Scale(4000, 80000) && r.Violations() < 20; i++ {
		rnd := r.Rand("g", i)
		c := genCall(rnd, true)
		a := genAnswer(rnd, c, false)
		fault := "none"
		if rnd.Intn(3) == 0 {
			fault = []string{"code", "code", "canceled", "blank"}[rnd.Intn(4)]
		}
		code := codes.Code(1 + rnd.Intn(16))
		r.Case(map[string]interface{}{"call": c, "fault": fault, "code": code.String()})
		var n int32
		s.mu.Lock()
		s.handler = func(ctx context.Context, m proto.Message) (proto.Message, error) {
			atomic.AddInt32(&n, 1)
			if _, ok := ctx.Deadline(); !ok {
				r.Violate("context", "%s over gRPC without the call's deadline", c.Method)
			}
			if d := c.sameGRPC(m); d != "" {
				r.Violate("parameters:"+c.Method, "%s over gRPC sent %s", c.Method, d)
			}
			switch fault {
			case "code":
				return nil, status.Error(code, "boom")
			case "blank":
				b := proto.Clone(a.msg())
				b.Reset()
				return b, nil
			}
			return a.msg(), nil
		}
		s.mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		if fault == "canceled" {
			cancel()
		}
		var res result
		ok := r.Safely(c.Method+" over gRPC", func() { res = c.do(cl, ctx, rnd) })
		cancel()
		if !ok {
			continue
		}
		what := fmt.Sprintf("%s over gRPC (fault %s)", c.Method, fault)
		switch fault {
		case "none":
			if res.err != nil {
				r.Violate("error-invented:"+c.Method, "%s failed: %v", what, res.err)
			} else if got, want := canon(res.val), a.want(c); got != want {
				r.Violate("result:"+c.Method, "%s returned\n%s\nthe server said\n%s", what, got, want)
			}
			if atomic.LoadInt32(&n) != 1 {
				r.Violate("requests:"+c.Method, "%s sent %d requests", what, n)
			}
		case "blank":
			if res.err != nil {
				r.Violate("error-invented:"+c.Method, "%s: an empty answer came back as %v", what, res.err)
			} else if s := canon(res.val); s != "" && s != "null" && s != "{}" {
				r.Violate("result:"+c.Method, "%s: an empty answer came back as %s", what, s)
			}
		default:
			if res.err == nil {
				r.Violate("error-lost:"+c.Method, "%s returned %s", what, canon(res.val))
			} else if !isNilVal(res.val) {
				r.Violate("data-with-error:"+c.Method, "%s returned %s with error %v", what, canon(res.val), res.err)
			}
		}
		r.Count("grpc_"+c.Method, 1)
		r.Count("grpc_fault_"+fault, 1)
		r.Eval(fmt.Sprint(vk.J(c), fault), c.options() || fault != "none")
	}
}

// concurrentCalls shares one client between goroutines; every answer echoes its
// request, so that a mix-up shows.
func concurrentCalls(r *vk.R) {
	s, addr, stop := startGRPC(r)
	defer stop()
	s.handler = func(ctx context.Context, m proto.Message) (proto.Message, error) {
		switch q := m.(type) {
		case *logcache_v1.ReadRequest:
			return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{SourceId: q.SourceId, Timestamp: q.StartTime, Tags: map[string]string{"end": strconv.FormatInt(q.EndTime, 10), "limit": strconv.FormatInt(q.Limit, 10), "name": q.NameFilter}}}}}, nil
		case *logcache_v1.PromQL_InstantQueryRequest:
			return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"q": q.Query, "t": q.Time}, Point: &logcache_v1.PromQL_Point{Time: "1.000", Value: 1}}}}}}, nil
		}
		return nil, status.Error(codes.Unimplemented, "")
	}
	hc := doerFunc(func(req *http.Request) (*http.Response, error) {
		q := req.URL.Query()
		var m proto.Message
		switch {
		case req.URL.Path == "/api/v1/info":
			return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(`{"version":"2.1.0","vm_uptime":"5"}`))}, nil
		case strings.HasPrefix(req.URL.Path, "/api/v1/read/"):
			rq := &logcache_v1.ReadRequest{SourceId: strings.TrimPrefix(req.URL.Path, "/api/v1/read/"), NameFilter: q.Get("name_filter")}
			rq.StartTime, _ = strconv.ParseInt(q.Get("start_time"), 10, 64)
			rq.EndTime, _ = strconv.ParseInt(q.Get("end_time"), 10, 64)
			rq.Limit, _ = strconv.ParseInt(q.Get("limit"), 10, 64)
			m, _ = s.handler(context.Background(), rq)
		default:
			m, _ = s.handler(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q.Get("query"), Time: q.Get("time")})
		}
		b, err := marshaler.NewPromqlMarshaler(&runtime.JSONPb{OrigName: true}).Marshal(m)
		if err != nil {
			return nil, err
		}
		return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(b))}, nil
	})
	clients := []*client.Client{
		client.NewClient("https://lc.example", client.WithHTTPClient(hc)),
		client.NewClient(addr, client.WithViaGRPC(grpc.WithInsecure())),
	}
	shared := []client.ReadOption{client.WithLimit(7), client.WithEndTime(time.Unix(0, 99))}
	r.Within("concurrent calls", 3*time.Minute, func() {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rnd := r.Rand("cc", w)
				for k := 0; k < r.Scale(150, 3000); k++ {
					cl := clients[k%2]
					id := fmt.Sprintf("s-%d-%d", w, k)
					if rnd.Intn(2) == 0 {
						opts := append([]client.ReadOption(nil), shared...)
						name := ""
						if rnd.Intn(2) == 0 {
							name = "n" + id
							opts = append(opts, client.WithNameFilter(name))
						}
						st := rnd.Int63()
						es, err := cl.Read(context.Background(), id, time.Unix(0, st), opts...)
						if err != nil || len(es) != 1 || es[0].SourceId != id || es[0].Timestamp != st || es[0].Tags["end"] != "99" || es[0].Tags["limit"] != "7" || es[0].Tags["name"] != name {
							r.Violate("mixed-up", "read %s from %d (name %q): %v, %v", id, st, name, es, err)
						}
					} else {
						var opts []client.PromQLOption
						want := ""
						if rnd.Intn(2) == 0 {
							sec := rnd.Int63n(1e9)
							want = fmt.Sprintf("%d.000", sec)
							opts = append(opts, client.WithPromQLTime(time.Unix(sec, 0)))
						}
						v, err := cl.PromQL(context.Background(), id, opts...)
						if err != nil || len(v.GetVector().GetSamples()) != 1 || v.GetVector().Samples[0].Metric["q"] != id || v.GetVector().Samples[0].Metric["t"] != want {
							r.Violate("mixed-up", "query %s at %q: %v, %v", id, want, v, err)
						}
					}
					r.Count("concurrent_calls", 1)
				}
			}(w)
		}
		wg.Wait()
	})
	r.Eval("concurrent", true)
}

// loopbackCalls goes through a real HTTP server with the default HTTP client:
// real escaping, real contexts, and connections that are reused only if bodies
// are dealt with.
func loopbackCalls(r *vk.R) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Fatal("listen: %v", err)
	}
	var mu sync.Mutex
	var got *url.URL
	hold := make(chan struct{})
	gone := make(chan bool, 10)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		if req.URL.Path == "/api/v1/info" {
			io.WriteString(w, `{"version":"2.1.0","vm_uptime":"1"}`)
			return
		}
		if strings.HasSuffix(req.URL.Path, "/hold") || req.URL.Query().Get("query") == "hold" {
			select {
			case <-hold:
			case <-req.Context().Done():
				gone <- true
			}
			return
		}
		mu.Lock()
		u := *req.URL
		got = &u
		mu.Unlock()
		switch {
		case strings.HasPrefix(req.URL.Path, "/api/v1/read/"):
			io.WriteString(w, `{"envelopes":{"batch":[{"timestamp":"5"}]}}`)
		case req.URL.Path == "/api/v1/meta":
			io.WriteString(w, `{"meta":{"a":{"count":"1"}}}`)
		case req.URL.Path == "/api/v1/query":
			io.WriteString(w, `{"status":"success","data":{"resultType":"scalar","result":[1.000,"2"]}}`)
		default:
			io.WriteString(w, `{"status":"success","data":{"resultType":"matrix","result":[]}}`)
		}
	})}
	go srv.Serve(l)
	defer srv.Close()
	cl := client.NewClient("http://" + l.Addr().String())
	for i := 0; i < r.Scale(600, 10000); i++ {
		rnd := r.Rand("l", i)
		c := genCall(rnd, false)
		if strings.HasPrefix(c.Method, "LogCache") {
			continue
		}
		r.Case(c)
		res := c.do(cl, context.Background(), rnd)
		if res.err != nil {
			r.Violate("error-invented:"+c.Method, "%s over loopback: %v", c.Method, res.err)
			continue
		}
		mu.Lock()
		u := *got
		mu.Unlock()
		if c.Method == "Read" && u.Path != "/api/v1/read/"+c.Source {
			r.Violate("path:Read", "read of %q arrived as %q", c.Source, u.Path)
		}
		q, err := url.ParseQuery(u.RawQuery)
		if d := c.sameQuery(q); d != "" || err != nil {
			r.Violate("parameters:"+c.Method, "%s over loopback arrived with %s (%v)", c.Method, d, err)
		}
		r.Count("loopback_"+c.Method, 1)
		r.Eval(vk.J(c), c.options())
	}
	// A context that ends ends the call.
	for _, f := range []func(context.Context) error{
		func(ctx context.Context) error { _, err := cl.Read(ctx, "hold", time.Unix(0, 0)); return err },
		func(ctx context.Context) error { _, err := cl.PromQL(ctx, "hold"); return err },
		func(ctx context.Context) error { _, err := cl.PromQLRange(ctx, "hold"); return err },
		func(ctx context.Context) error { _, err := cl.PromQLRaw(ctx, "hold"); return err },
		func(ctx context.Context) error { _, err := cl.PromQLRangeRaw(ctx, "hold"); return err },
	} {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		t0 := time.Now()
		err := f(ctx)
		if err == nil {
			r.Violate("context-ignored", "a call whose context ended succeeded")
		}
		// The client's own timeout is 5 seconds.
		if d := time.Since(t0); d > 4*time.Second {
			r.Violate("context-ignored", "a call whose context ended went on for %s", d)
		}
		cancel()
		r.Eval(fmt.Sprintf("hold %p", f), true)
	}
	close(hold)
}

// badAddressCalls uses clients whose address cannot be used: every call is an
// error, whatever its options, and sends nothing.
func badAddressCalls(r *vk.R) {
	addrs := []string{":", "http://[::1", "http://a b/", "http://%zz", "%", "http://host:port", "http://a\x7f/", "\x00", "http://x:99999999999999999999:1", ""}
	for i := 0; i < r.Scale(400, 8000); i++ {
		rnd := r.Rand("b", i)
		c := genCall(rnd, false)
		addr := addrs[rnd.Intn(len(addrs))]
		r.Case(vk.J(map[string]interface{}{"addr": addr, "call": c}))
		h := &deafHTTP{}
		cl := client.NewClient(addr, client.WithHTTPClient(h))
		var res result
		if !r.Safely("panic:"+c.Method, func() { res = c.do(cl, context.Background(), rnd) }) {
			continue
		}
		if res.err == nil {
			r.Violate("error-lost:"+c.Method, "%s with the address %q succeeded with %s", c.Method, addr, canon(res.val))
		}
		r.Count("bad_address_"+c.Method, 1)
		r.Eval(addr+c.Method, true)
	}
}

// deafHTTP fails each request as a transport would.
type deafHTTP struct{}

func (h *deafHTTP) Do(req *http.Request) (*http.Response, error) {
	return nil, fmt.Errorf("deaf")
}
