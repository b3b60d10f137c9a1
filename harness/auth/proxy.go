package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
)

// The sources Log Cache holds. Whatever it says of one carries the marker of
// that source.
var sources = func() []string {
	var l []string
	for i := 0; i < 16; i++ {
		l = append(l, fmt.Sprintf("guid-%02d", i))
	}
	return append(l, "GUID-01", "guid-0", "guid", "guid-01/x", "guid-02:5", "doppler", "a b", "ünï", "50%", "q?x=1&y", "a+b", "web", "guid.03", "x#y")
}()

var sourceIndex = func() map[string]int {
	m := map[string]int{}
	for i, s := range sources {
		m[s] = i
	}
	return m
}()

var markRE = regexp.MustCompile(`SECRET(\d\d\d)X`)

func mark(id string) string {
	i, ok := sourceIndex[id]
	if !ok {
		return "NONE"
	}
	return fmt.Sprintf("SECRET%03dX", i)
}

// marks are the sources a text carries data of.
func marks(text string) []string {
	m := map[string]bool{}
	for _, x := range markRE.FindAllStringSubmatch(text, -1) {
		i, _ := strconv.Atoi(x[1])
		m[sources[i]] = true
	}
	return vk.Sorted(m)
}

// touch is a read that reached Log Cache.
type touch struct {
	id   string
	slot int64 // the request it belongs to, by its time; -1 without
}

// cache is a fake Log Cache behind the gateway. It answers every read with
// data of the source, and remembers it.
type cache struct {
	mu      sync.Mutex
	touches []touch
	metas   int
	ql      *promql.PromQL
}

// Every request has times of its own: slots of 100000 seconds.
const slotLen = 100000

func slotOf(ns int64) int64 {
	if ns <= 0 {
		return -1
	}
	return ns / 1e9 / slotLen
}

func (c *cache) note(id string, ns int64) {
	c.mu.Lock()
	c.touches = append(c.touches, touch{id, slotOf(ns)})
	c.mu.Unlock()
}

func (c *cache) take(slot int64) (mine []touch) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var rest []touch
	for _, t := range c.touches {
		if slot < 0 || t.slot == slot {
			mine = append(mine, t)
		} else {
			rest = append(rest, t)
		}
	}
	c.touches = rest
	return mine
}

func (c *cache) Read(_ context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	c.note(q.SourceId, q.StartTime)
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{
		SourceId: q.SourceId, Timestamp: q.StartTime + 1, Tags: map[string]string{"mark": mark(q.SourceId)},
		Message: &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: mark(q.SourceId)}},
	}}}}, nil
}

func (c *cache) Meta(context.Context, *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	c.mu.Lock()
	c.metas++
	c.mu.Unlock()
	m := map[string]*logcache_v1.MetaInfo{}
	for i, id := range sources {
		m[id] = &logcache_v1.MetaInfo{Count: int64(7000000 + i), Expired: int64(i)}
	}
	return &logcache_v1.MetaResponse{Meta: m}, nil
}

func (c *cache) InstantQuery(ctx context.Context, q *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	return c.ql.InstantQuery(ctx, q)
}

func (c *cache) RangeQuery(ctx context.Context, q *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	return c.ql.RangeQuery(ctx, q)
}

// feed is what PromQL reads from.
type feed struct{ c *cache }

func (f feed) Read(_ context.Context, q *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	f.c.note(q.SourceId, q.EndTime)
	b := &loggregator_v2.EnvelopeBatch{}
	for t := q.EndTime - 1e9; t > q.StartTime && len(b.Batch) < 30; t -= 30e9 {
		b.Batch = append([]*loggregator_v2.Envelope{{
			SourceId: q.SourceId, Timestamp: t, Tags: map[string]string{"mark": mark(q.SourceId)},
			Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "requests", Total: uint64(t / 1e9)}},
		}}, b.Batch...)
	}
	return &logcache_v1.ReadResponse{Envelopes: b}, nil
}

// house is the proxy with everything around it.
type house struct {
	r     *vk.R
	c     *cache
	u     *uaa
	cc    *capi
	ring  *ring
	addr  string
	ca    *vk.CA
	files vk.Files
	next  int64
	mu    sync.Mutex
	conns chan *wire
	uc    *auth.UAAClient
}

type wire struct {
	net.Conn
	br *bufio.Reader
}

// behind builds what is behind the proxy: Log Cache, the gateway, the UAA and
// the Cloud Controller. It returns the address of the gateway.
func behind(r *vk.R, rnd *rand.Rand) (*house, string) {
	h := &house{r: r, c: &cache{}, ring: newRing(3), ca: vk.NewCA("ca"), next: 1000, conns: make(chan *wire, 64)}
	h.c.ql = promql.New(feed{h.c}, testhelpers.NewMetricsRegistry(), quiet, 30*time.Second)
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := grpc.NewServer()
	logcache_v1.RegisterEgressServer(s, h.c)
	logcache_v1.RegisterPromQLQuerierServer(s, h.c)
	go s.Serve(lis)
	dir, err := ioutil.TempDir(r.Scratch, "house")
	must(err)
	h.files = h.ca.Write(dir, "localhost")
	g := gateway.NewGateway(lis.Addr().String(), "127.0.0.1:0", h.files.Cert, h.files.Key, gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure()), gateway.WithGatewayVersion("9.9.9"))
	g.Start()
	h.u = newUAA(r, h.ring)
	h.u.keys = map[string]int{"key-1": 0, "key-2": 1}
	h.cc = &capi{r: r, rnd: rand.New(rand.NewSource(rnd.Int63())), grants: map[string]grants{}, page: 3, name: "proxy", loose: true}
	return h, strings.Replace(g.Addr(), "127.0.0.1", "localhost", 1)
}

var quiet = log.New(ioutil.Discard, "", 0)

func build(r *vk.R, rnd *rand.Rand, opts ...auth.CAPIOption) *house {
	h, gw := behind(r, rnd)
	gw = "https://" + gw
	uc := h.u.client(auth.WithMinimumRefreshInterval(100 * time.Millisecond))
	must(uc.RefreshTokenKeys())
	h.uc = uc
	cc := auth.NewCAPIClient("https://"+capiHost, h.cc, testhelpers.NewMetricsRegistry(), quiet, opts...)
	meta := client.NewClient(gw, client.WithHTTPClient(&http.Client{Timeout: 30 * time.Second, Transport: cfauthproxy.NewTransportWithRootCA(h.ca.Pool())}))
	m := auth.NewCFAuthMiddlewareProvider(uc, cc, meta, promql.ExtractSourceIds, cc)
	p := cfauthproxy.NewCFAuthProxy(gw, "127.0.0.1:0", h.files.Cert, h.files.Key, h.ca.Pool(), cfauthproxy.WithAuthMiddleware(m.Middleware))
	p.Start()
	h.addr = p.Addr()
	return h
}

// overTLS serves what a fake answers to a client over TLS.
func (h *house) overTLS(cn, host string, do func(*http.Request) (*http.Response, error)) string {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &http.Server{ErrorLog: quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		u := *q.URL
		u.Scheme, u.Host = "https", host
		c := &http.Request{Method: q.Method, URL: &u, Header: q.Header}
		resp, err := do(c)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(resp.StatusCode)
		io.Copy(w, resp.Body)
		resp.Body.Close()
	})}
	go s.Serve(tls.NewListener(lis, &tls.Config{Certificates: []tls.Certificate{h.ca.Pair(cn)}}))
	return "https://" + lis.Addr().String()
}

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

// launch runs cmd/cf-auth-proxy; stop ends it and judges what it printed.
func launch(r *vk.R, rnd *rand.Rand, logTo string, extra ...string) (h *house, stop func()) {
	fresh := rand.New(rand.NewSource(time.Now().UnixNano()))
	h, gw := behind(r, rnd)
	uaaAddr := h.overTLS("localhost", "uaa.internal", h.u.Do)
	capiAddr := h.overTLS("capi.service", capiHost, h.cc.Do)
	f := h.files
	port := freePort(fresh)
	h.addr = fmt.Sprintf("127.0.0.1:%d", port)
	c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "cf-auth-proxy"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "LOG_CACHE_GATEWAY_ADDR=http://" + gw, "ADDR=" + h.addr, "INTERNAL_IP=10.9.8.7",
		fmt.Sprintf("HEALTH_PORT=%d", freePort(fresh)), "EXTERNAL_CERT=" + f.Cert, "EXTERNAL_KEY=" + f.Key, "PROXY_CA_PATH=" + f.CA, "SECURITY_EVENT_LOG=" + logTo,
		"CAPI_ADDR=" + capiAddr, "CAPI_CA_PATH=" + f.CA, "CAPI_COMMON_NAME=capi.service",
		"UAA_ADDR=" + strings.Replace(uaaAddr, "127.0.0.1", "localhost", 1), "UAA_CA_PATH=" + f.CA, "UAA_CLIENT_ID=x", "UAA_CLIENT_SECRET=y",
		"CACHE_EXPIRATION_INTERVAL=30m", "GORACE=halt_on_error=0"}
	c.Env = append(c.Env, extra...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	must(c.Start())
	stop = func() {
		c.Process.Kill()
		c.Wait()
		s := out.String()
		for _, w := range []string{"DATA RACE", "concurrent map", "panic:", "panic serving"} {
			if k := strings.Index(s, w); k >= 0 {
				if len(s) > k+3000 {
					s = s[:k+3000]
				}
				r.Violate("command-broken", "cmd/cf-auth-proxy reports: %s", s[k:])
				return
			}
		}
	}
	for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		w, err := tls.DialWithDialer(&net.Dialer{Timeout: 5 * time.Second}, "tcp", h.addr, &tls.Config{RootCAs: h.ca.Pool(), ServerName: "localhost"})
		if err == nil {
			w.Close()
			return h, stop
		}
		if time.Now().After(end) {
			stop()
			r.Violate("not-serving", "cmd/cf-auth-proxy takes no connections: %s: %.2000s", err, out.String())
			r.Finish()
		}
	}
}

// caller is someone with a token.
type caller struct {
	token  string
	good   bool
	admin  bool
	what   string
	signer int
}

// callersUntil issues genuine tokens that expire.
func (h *house) callersUntil(rnd *rand.Rand, n int, end time.Time) (l []*caller) {
	for i := 0; i < n; i++ {
		signer := i % 2
		sc := []string{"cloud_controller.read"}
		c := &caller{good: true, admin: i%3 == 0, what: "genuine", signer: signer}
		if c.admin {
			sc = append(sc, pick(rnd, "logs.admin", "doppler.firehose"))
		}
		c.token = pick(rnd, "bearer ", "Bearer ", "") + h.ring.sign("RS256", signer, quote(map[string]string{"alg": "RS256", "kid": fmt.Sprintf("key-%d", signer+1)}), quote(map[string]interface{}{"exp": end.Unix(), "scope": sc, "n": rnd.Int63()}))
		l = append(l, c)
	}
	return l
}

// callers issues tokens of every kind; the Cloud Controller would grant
// something to each of them, were it asked.
func (h *house) callers(rnd *rand.Rand, n int) []*caller {
	var l []*caller
	far := time.Now().Add(time.Hour)
	for i := 0; i < n; i++ {
		kid, signer := "key-1", 0
		if rnd.Intn(2) == 0 {
			kid, signer = "key-2", 1
		}
		var c *caller
		switch {
		case i%3 < 2:
			sc := []string{"cloud_controller.read", "logs.admins"}
			admin := i%6 == 0
			if admin {
				sc = append(sc, pick(rnd, "logs.admin", "doppler.firehose"))
			}
			if rnd.Intn(6) == 0 {
				// Scopes of very many zones.
				for k := rnd.Intn(300); k > 0; k-- {
					sc = append(sc, fmt.Sprintf("zones.%d.read", rnd.Int()))
				}
				rnd.Shuffle(len(sc), func(i, j int) { sc[i], sc[j] = sc[j], sc[i] })
			}
			c = &caller{good: true, admin: admin, what: "genuine"}
			c.token = h.ring.sign("RS256", signer, quote(map[string]string{"alg": "RS256", "kid": kid}), quote(map[string]interface{}{"exp": far.Unix(), "scope": sc, "n": rnd.Int63()}))
			c.token = pick(rnd, "bearer ", "Bearer ", "") + c.token
		case rnd.Intn(4) == 0:
			c = &caller{token: pick(rnd, "x", "bearer", "bearer ", "Basic YWRtaW46YWRtaW4=", "bearer a.b.c"), what: "no token"}
		default:
			for c == nil {
				t := issue(rnd, h.ring, time.Now(), kid, signer)
				if rnd.Intn(4) == 0 {
					t = issue(rnd, h.ring, time.Now(), kid, 2)
					t.sound = false
				}
				if !t.sound && !strings.ContainsAny(t.text, "\r\n\x00") && len(t.text) < 8000 && t.text == strings.TrimSpace(t.text) && t.text != "" {
					c = &caller{token: t.text, what: t.what}
				}
			}
		}
		l = append(l, c)
	}
	return l
}

func (h *house) endow(rnd *rand.Rand, c *caller) grants {
	var g grants
	for _, i := range rnd.Perm(len(sources))[:[]int{0, 1, 4, 12, 12}[rnd.Intn(5)]] {
		if rnd.Intn(4) == 0 {
			g.services = append(g.services, sources[i])
		} else {
			n := appNames[rnd.Intn(len(appNames))]
			if rnd.Intn(8) == 0 {
				n = sources[rnd.Intn(len(sources))] // an app named like a source of others
			}
			g.apps = append(g.apps, app{sources[i], n})
		}
	}
	h.cc.mu.Lock()
	h.cc.grants[c.token] = g
	h.cc.mu.Unlock()
	return g
}

// ask is a request and what may come of it.
type ask struct {
	raw    string
	body   string
	what   string
	slot   int64
	reach  map[string]bool // sources that may be read for it
	status []int           // expected, when the request is plain
	exact  bool            // every source of reach has to be read, and its data answered
	meta   bool
}

func sub(a []touch) string {
	m := map[string]bool{}
	for _, t := range a {
		m[t.id] = true
	}
	return fmt.Sprintf("%q", vk.Sorted(m))
}

// dial gets a connection to the proxy.
func (h *house) dial() *wire {
	select {
	case w := <-h.conns:
		return w
	default:
	}
	c, err := tls.DialWithDialer(&net.Dialer{Timeout: 30 * time.Second}, "tcp", h.addr, &tls.Config{RootCAs: h.ca.Pool(), ServerName: "localhost"})
	if err != nil {
		h.r.Violate("proxy-down", "cannot connect to the proxy: %s", err)
		return nil
	}
	return &wire{c, bufio.NewReader(c)}
}

// send sends a request as it is and returns the status and everything that
// came back.
func (h *house) send(method, raw string) (int, string) {
	w := h.dial()
	if w == nil {
		return 0, ""
	}
	w.SetDeadline(time.Now().Add(60 * time.Second))
	io.WriteString(w, raw)
	resp, err := http.ReadResponse(w.br, &http.Request{Method: method})
	if err != nil {
		w.Close()
		if e, ok := err.(net.Error); ok && e.Timeout() {
			h.r.Violate("no-answer", "no answer to %.300q", raw)
		}
		return 0, ""
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	var hd bytes.Buffer
	resp.Header.Write(&hd)
	if err != nil || resp.Close {
		w.Close()
	} else {
		h.conns <- w
	}
	return resp.StatusCode, hd.String() + "\n" + string(b)
}

// esc escapes a source id for a path; every way means the same.
func esc(rnd *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~:/", c) >= 0
		if !plain || rnd.Intn(12) == 0 {
			fmt.Fprintf(&b, []string{"%%%02X", "%%%02x"}[rnd.Intn(2)], c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// want draws a source to ask for: one's own often.
func want(rnd *rand.Rand, g grants) string {
	if l := g.ids(); len(l) > 0 && rnd.Intn(2) == 0 {
		return l[rnd.Intn(len(l))]
	}
	if rnd.Intn(10) == 0 {
		return pick(rnd, "nobody", "", "guid-0|guid-01", ".*", "guid-01:", ":guid-01", "guid-01,guid-02", "*")
	}
	return sources[rnd.Intn(len(sources))]
}

// selector draws a PromQL selector; expand tells what each name in it stands
// for. It returns the names of the source_id matchers that select.
func selector(rnd *rand.Rand, g grants) (text string, names [][]string) {
	name := func() string {
		if rnd.Intn(4) == 0 {
			return appNames[rnd.Intn(len(appNames))]
		}
		return want(rnd, g)
	}
	var ms []string
	one := func() {
		switch rnd.Intn(3) {
		case 0:
			var l []string
			n := 1 + rnd.Intn(3)
			if own := g.ids(); rnd.Intn(4) == 0 && len(own) > 0 {
				// Many, of which all but the last may well be the caller's.
				for _, k := range rnd.Perm(len(own))[:rnd.Intn(len(own)+1)] {
					l = append(l, own[k])
				}
				n = 1
				if rnd.Intn(2) == 0 {
					l, n = append(l, sources[rnd.Intn(len(sources))]), 0
				}
			}
			for ; n > 0; n-- {
				l = append(l, name())
			}
			v := strings.Join(l, "|")
			if _, err := regexp.Compile(v); err != nil {
				v = "guid-01|guid-02"
			}
			names = append(names, strings.Split(v, "|"))
			ms = append(ms, "source_id=~"+strconv.Quote(v))
		default:
			s := name()
			names = append(names, []string{s})
			ms = append(ms, "source_id="+strconv.Quote(s))
		}
	}
	if rnd.Intn(12) > 0 {
		one()
	}
	if rnd.Intn(8) == 0 {
		one()
	}
	if rnd.Intn(6) == 0 {
		ms = append(ms, pick(rnd, `source_id!="guid-01"`, `source_id!~"guid-0.*"`, `source_id!~".*"`))
	}
	if rnd.Intn(6) == 0 {
		ms = append(ms, pick(rnd, `mark=~"SECRET.*"`, `mark!=""`, `job=""`, `sourceid!="guid-04"`))
	}
	rnd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	if rnd.Intn(8) == 0 {
		return "{" + strings.Join(append([]string{`__name__="requests"`}, ms...), ",") + "}", names
	}
	return "requests{" + strings.Join(ms, ",") + "}", names
}

// expression puts selectors together.
func expression(rnd *rand.Rand, g grants) (text string, sels [][][]string) {
	var vec func(d int) string
	sel := func() string {
		t, n := selector(rnd, g)
		sels = append(sels, n)
		return t
	}
	vec = func(d int) string {
		x := rnd.Intn(11)
		if d > 2 && x > 3 {
			x = rnd.Intn(4)
		}
		switch x {
		case 0, 1:
			return sel()
		case 2:
			return sel() + " offset " + pick(rnd, "1m", "10m", "1h")
		case 3:
			return pick(rnd, "rate", "sum_over_time", "count_over_time", "max_over_time") + "(" + sel() + "[" + pick(rnd, "1m", "5m", "20m") + "])"
		case 4, 5:
			return vec(d+1) + pick(rnd, " + ", " or ", " and ", " unless ", " == ", " > bool ", " * on(mark) group_left ", " / ignoring(source_id) ") + vec(d+1)
		case 6:
			return pick(rnd, "sum", "max", "count") + pick(rnd, " by(mark) ", " without(source_id) ", "") + "(" + vec(d+1) + ")"
		case 7:
			return "label_replace(" + vec(d+1) + `, "source_id", "guid-01", "mark", ".*")`
		case 8:
			return "-(" + vec(d+1) + ")"
		case 9:
			return pick(rnd, "topk(2, ", "quantile(0.5, ", "count_values(\"mark\", ") + vec(d+1) + ")"
		default:
			return pick(rnd, "abs(", "absent(", "scalar(", "sort(") + vec(d+1) + ")"
		}
	}
	return vec(0), sels
}

func inter(a, b map[string]bool) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		if b[k] {
			m[k] = true
		}
	}
	return m
}

// judgeQuery says what a query of a caller may read, and with which statuses
// it may be answered.
func judgeQuery(c *caller, g grants, q string, sels [][][]string) (reach map[string]bool, status []int, refused bool) {
	reach = map[string]bool{}
	if _, err := promql.ExtractSourceIds(q); err != nil {
		if !c.good {
			return reach, []int{400, 404}, true
		}
		return reach, []int{400}, true
	}
	own := map[string]bool{}
	for _, id := range g.ids() {
		own[id] = true
	}
	expand := map[string]map[string]bool{}
	some := false
	for _, s := range sels {
		for _, m := range s {
			for _, n := range m {
				some = true
				e := map[string]bool{n: c.admin || own[n]}
				for _, a := range g.apps {
					// (The Cloud Controller takes a comma for the end of a name.)
					if a.name == n {
						e[a.guid] = true
					}
				}
				for k, ok := range e {
					if !ok {
						delete(e, k)
					}
				}
				expand[n] = e
			}
		}
	}
	switch {
	case !some && !c.good:
		return reach, []int{400, 404}, true
	case !some:
		return reach, []int{400}, true
	case !c.good:
		return reach, []int{404}, true
	}
	for _, e := range expand {
		if len(e) == 0 {
			return reach, []int{404}, true
		}
	}
	for _, s := range sels {
		for _, m := range s {
			for _, n := range m {
				for k := range expand[n] {
					reach[k] = true
				}
			}
		}
	}
	return reach, nil, false
}

func head(rnd *rand.Rand, method, target, token string, extra ...string) string {
	raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: log-cache.example.com\r\n", method, target)
	if token != "" {
		raw += pick(rnd, "Authorization", "authorization") + ": " + token + "\r\n"
	}
	for _, x := range extra {
		raw += x + "\r\n"
	}
	return raw
}

// plain makes a request with nothing odd about it.
func (h *house) plain(rnd *rand.Rand, c *caller, g grants) (method string, a *ask) {
	a = &ask{slot: atomic.AddInt64(&h.next, 1), reach: map[string]bool{}}
	base := a.slot*slotLen + slotLen/2
	own := map[string]bool{}
	for _, id := range g.ids() {
		own[id] = true
	}
	method = "GET"
	target := ""
	switch x := rnd.Intn(20); {
	case x < 8:
		id := want(rnd, g)
		target = "/api/v1/read/" + esc(rnd, id) + fmt.Sprintf("?start_time=%d&limit=%d", base*1e9, 1+rnd.Intn(1000))
		switch {
		case strings.HasSuffix(id, ":") || strings.HasPrefix(id, ":"):
			// Known to be read without the colon: C23.
			if c.good && c.admin {
				return h.plain(rnd, c, g)
			}
			fallthrough
		case !c.good, !c.admin && !own[id]:
			a.status = []int{404}
		case id == "":
			a.reach[id] = true
		default:
			a.reach[id] = true
			a.status, a.exact = []int{200}, true
		}
		a.what = "read"
	case x < 16:
		q, sels := expression(rnd, g)
		v := url.Values{"query": {q}}
		if x < 13 {
			v.Set("time", fmt.Sprint(base))
			target = "/api/v1/query?" + v.Encode()
		} else {
			v.Set("start", fmt.Sprint(base))
			v.Set("end", fmt.Sprint(base+600))
			v.Set("step", "60")
			target = "/api/v1/query_range?" + v.Encode()
		}
		var refused bool
		a.reach, a.status, refused = judgeQuery(c, g, q, sels)
		if !refused && q[0] == 'r' && len(sels) == 1 && len(sels[0]) == 1 && !strings.ContainsAny(q, "!") && len(a.reach) > 0 {
			a.exact = true
		}
		a.what = "query"
	case x < 19:
		target = "/api/v1/meta" + pick(rnd, "", "?x=1", "?local_only=true")
		a.what, a.meta = "meta", true
		a.status = []int{404}
		if c.good {
			a.status = []int{200}
			for _, id := range sources {
				if c.admin || own[id] {
					a.reach[id] = true
				}
			}
		}
	default:
		target = "/api/v1/info"
		a.what, a.status = "info", []int{200}
	}
	a.raw = head(rnd, method, target, c.token) + "\r\n"
	return method, a
}

// tricky makes a request that tries to get at something else.
func (h *house) tricky(rnd *rand.Rand, c *caller, g grants) (method string, a *ask) {
	a = &ask{slot: -1, reach: map[string]bool{}, what: "tricky"}
	if c.good {
		for _, id := range g.ids() {
			a.reach[id] = true
		}
		if c.admin {
			for _, id := range sources {
				a.reach[id] = true
			}
			for _, n := range []string{"nobody", ""} {
				a.reach[n] = true
			}
		}
	}
	mine, other := want(rnd, g), sources[rnd.Intn(len(sources))]
	if l := g.ids(); len(l) > 0 && rnd.Intn(4) > 0 {
		mine = l[rnd.Intn(len(l))]
	}
	qm, qo := url.QueryEscape(fmt.Sprintf("requests{source_id=%q}", mine)), url.QueryEscape(fmt.Sprintf("requests{source_id=%q}", other))
	em, eo := esc(rnd, mine), esc(rnd, other)
	method = "GET"
	var extra []string
	body := ""
	read := "/api/v1/read/"
	ep := pick(rnd, "/api/v1/query", "/api/v1/query_range")
	span := "&time=1500000000&start=1500000000&end=1500000060&step=30"
	target := ""
	switch rnd.Intn(24) {
	case 0:
		target = read + em + "?" + pick(rnd, "source_id", "sourceId", "SourceId", "source_id[]", "sourceId[x]", "source%5Fid", "source_id.x", "sourceid") + "=" + url.QueryEscape(other)
	case 1:
		target = ep + "?query=" + qm + "&query=" + qo + span
	case 2:
		target = ep + "?query=" + qo + "&query=" + qm + span
	case 3:
		target = ep + "?" + pick(rnd, "query[]", "query%5B%5D", "Query", "query.x", "QUERY", "query[a]", "%71uery", "q%75ery") + "=" + qo + "&query=" + qm + span
	case 4:
		target = ep + "?query=" + qm + ";query=" + qo + span
	case 5:
		target = ep + "?query=" + qo + ";x&query=" + qm + span
	case 6:
		target = ep + "?query=" + qm + "%26query=" + qo + span
	case 7:
		method, body = "POST", "query="+qo+span
		target = ep + "?query=" + qm + pick(rnd, span, "")
		extra = append(extra, "Content-Type: application/x-www-form-urlencoded")
	case 8:
		method, body = "POST", "query="+qo+span
		target = ep
		extra = append(extra, "Content-Type: application/x-www-form-urlencoded")
	case 9:
		method, body = pick(rnd, "POST", "PUT", "DELETE", "PATCH"), pick(rnd, `{"source_id":`+quote(other)+`}`, "source_id="+url.QueryEscape(other), "sourceId="+url.QueryEscape(other))
		target = read + em
		extra = append(extra, "Content-Type: "+pick(rnd, "application/json", "application/x-www-form-urlencoded"))
	case 10:
		method = "POST"
		target = pick(rnd, read+eo, ep+"?query="+qo+span, "/api/v1/meta")
		extra = append(extra, "X-HTTP-Method-Override: "+pick(rnd, "GET", "get", "POST"), "Content-Type: application/x-www-form-urlencoded")
	case 11:
		method = pick(rnd, "HEAD", "OPTIONS", "TRACE", "PROPFIND", "get")
		target = pick(rnd, read+eo, ep+"?query="+qo+span, "/api/v1/meta")
	case 12:
		target = read + em + pick(rnd, "/../", "/%2e%2e/", "%2f..%2f", "/..%2f", "/./../", "/..;/", "%2F%2E%2E%2F", "\\..\\", "//../") + eo
	case 13:
		target = pick(rnd, "//api/v1/read/", "/api//v1/read/", "/./api/v1/read/", "/api/v1/read//", "/api/v1/info/../read/", "/api/v1/info/%2e%2e/read/", "/api/v1/info%2f..%2fread/", "/api/v1/meta/../read/", "/API/V1/READ/", "/api/v1/read%2f", "/api%2fv1%2fread%2f", "/%61pi/v1/read/", "/api/v1/info?/../read/", "/api/v1/info#/../read/", "/x/../api/v1/read/") + eo
	case 14:
		target = read + eo + pick(rnd, ":", "%3A", "/", "%2F", "?", "#", "%00", "%20", ";", "..", "/.", "/..", "%0a", "%0d%0a", ":x", "/:x")
	case 15:
		target = read + pick(rnd, ":", "%3a", "/", "./", "%00", "%20") + eo
	case 16:
		target = "https://" + pick(rnd, "localhost", "evil.example.com", "127.0.0.1:1") + pick(rnd, read+eo, "/api/v1/info", "/api/v1/meta", ep+"?query="+qo+span)
	case 17:
		target = read + eo
		extra = append(extra, pick(rnd, "X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Prefix", "X-Forwarded-Path")+": /api/v1/info", "Grpc-Metadata-Source-Id: "+eo, "Grpc-Metadata-Authorization: x")
	case 18:
		target = "/api/v1/info"
		extra = append(extra, pick(rnd, "X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Prefix", "X-Forwarded-Path")+": "+read+eo)
	case 19: // another token beside one's own
		target = pick(rnd, read+eo, ep+"?query="+qo+span, "/api/v1/meta")
		extra = append(extra, "Authorization: bearer admin", "Proxy-Authorization: bearer admin")
	case 20:
		target = ep + "?query=" + url.QueryEscape(pick(rnd,
			fmt.Sprintf("requests{source_id=%q,source_id!=%q}", mine, mine),
			fmt.Sprintf("requests{source_id!=%q}", mine),
			fmt.Sprintf("requests{source_id=~%q}", ".*"),
			fmt.Sprintf("requests{source_id=~%q}", mine+".*"),
			fmt.Sprintf("requests{source_id=~%q}", mine+"|"),
			fmt.Sprintf("requests{source_id=~%q}", "("+mine+"|"+other+")"),
			fmt.Sprintf("requests{source_id=~%q}", mine+"|.+"),
			fmt.Sprintf("requests{source_id=%q} or requests{source_id!=%q}", mine, mine),
			fmt.Sprintf("requests{source_id=%q} or requests{source_id=%q}", mine, other),
			fmt.Sprintf("requests{source_id=%q} or requests", mine),
			fmt.Sprintf("requests{source_id=%q}\n# } or requests{source_id=%q", mine, other),
			fmt.Sprintf("requests{source_id='%s'}", mine),
			fmt.Sprintf("requests{source_id=`%s|%s`}", mine, other),
			fmt.Sprintf("max_over_time(requests{source_id=%q}[5m:1m]) or requests{source_id=%q}", mine, other),
			fmt.Sprintf("max_over_time((requests{source_id=%q} or requests{source_id=%q})[5m:1m])", mine, other),
		)) + span
	case 21:
		target = ep + "?query=" + qm + span + "&query=" + qo
		extra = append(extra, "Content-Type: application/x-www-form-urlencoded")
	case 22:
		target = pick(rnd, "/", "/api", "/api/v1", "/api/v1/", "/api/v1/read", "/api/v1/read/", "/api/v1/querys?query="+qo+span, "/api/v1/query/?query="+qo+span, "/api/v1/query/x?query="+qo+span, "/api/v1/meta/", "/api/v1/meta/x", "*", "/logcache.v1.Egress/Read", "/logcache.v1.Egress/Meta", "/logcache.v1.Ingress/Send", "/debug/pprof/", "/metrics")
		method = pick(rnd, "GET", "POST")
	default:
		target = read + em + "?envelope_types=" + pick(rnd, "LOG", "ANY", "99", "x") + "&limit=" + pick(rnd, "1", "-1", "x") + "&source_id=" + url.QueryEscape(other) + "&sourceId=" + url.QueryEscape(other)
	}
	if body != "" {
		extra = append(extra, fmt.Sprintf("Content-Length: %d", len(body)))
	} else if method == "POST" || method == "PUT" || method == "PATCH" {
		extra = append(extra, "Content-Length: 0")
	}
	if strings.HasPrefix(target, read) && (strings.HasSuffix(mine, ":") || strings.HasPrefix(mine, ":")) && c.good && c.admin {
		return h.tricky(rnd, c, g)
	}
	a.raw = head(rnd, method, target, c.token, extra...) + "\r\n" + body
	return method, a
}

var metaRE = regexp.MustCompile(`70000(\d\d)`)

// check sends a request and judges what reached Log Cache and what came back.
func (h *house) check(name string, method string, a *ask, c *caller, g grants, alone bool) {
	r := h.r
	if alone {
		h.c.take(-1)
	}
	code, text := h.send(method, a.raw)
	slot := a.slot
	if alone {
		slot = -1
	}
	got := h.c.take(slot)
	who := fmt.Sprintf("a caller (%s, admin %v) granted %q", c.what, c.admin, g.ids())
	req := strings.Replace(a.raw, c.token, "TOKEN", 1)
	for _, t := range got {
		if !a.reach[t.id] && !(c.admin && c.good && a.slot < 0) {
			r.Violate("reached", "%s: %s asks %.500q; Log Cache is read for source %q", name, who, req, t.id)
			break
		}
		r.Count("reads that reached Log Cache", 1)
	}
	data := marks(text)
	var js struct {
		Meta map[string]json.RawMessage `json:"meta"`
	}
	if i := strings.Index(text, "\n{"); i >= 0 {
		json.Unmarshal([]byte(text[i:]), &js)
	}
	for _, m := range metaRE.FindAllStringSubmatch(text, -1) {
		i, _ := strconv.Atoi(m[1])
		if i < len(sources) {
			data = append(data, sources[i])
		}
	}
	for id := range js.Meta {
		data = append(data, id)
	}
	for _, id := range data {
		if !a.reach[id] {
			r.Violate("leak", "%s: %s asks %.500q and gets data of %q", name, who, req, id)
			break
		}
	}
	if a.status != nil {
		ok := false
		for _, s := range a.status {
			ok = ok || s == code
		}
		if !ok {
			r.Violate("status", "%s: %s asks %.500q and gets %d instead of %v: %.300q", name, who, req, code, a.status, text)
		}
	}
	if a.meta && code == 200 && len(js.Meta) != len(a.reach) {
		r.Violate("meta", "%s: %s gets the meta of %d sources, %d are theirs", name, who, len(js.Meta), len(a.reach))
	}
	if a.exact {
		read := map[string]bool{}
		for _, t := range got {
			read[t.id] = true
		}
		if len(inter(read, a.reach)) != len(a.reach) {
			r.Violate("withheld", "%s: %s asks %.500q; only %s of %q is read (status %d)", name, who, req, sub(got), vk.Sorted(a.reach), code)
		}
		if a.what == "read" {
			for id := range a.reach {
				if mark(id) != "NONE" && !contains(data, id) {
					r.Violate("withheld", "%s: %s asks %.500q; the answer lacks the data: %.300q", name, who, req, text)
				}
			}
		}
	}
	r.Count(a.what+" "+strconv.Itoa(code), 1)
	r.Eval(name, a.slot < 0 || code == 404 || len(got) > 1)
}

// proxyRequests: one request at a time, plain ones and tricks.
func proxyRequests(r *vk.R) {
	rnd := r.Rand("proxy", 0)
	h := build(r, rnd)
	for k := 0; k < r.Scale(12, 200); k++ {
		rnd := r.Rand("proxy", 1+k)
		cs := h.callers(rnd, 6)
		gs := map[*caller]grants{}
		for _, c := range cs {
			gs[c] = h.endow(rnd, c)
		}
		for i := 0; i < 180; i++ {
			c := cs[rnd.Intn(len(cs))]
			f := h.plain
			if rnd.Intn(2) == 0 {
				f = h.tricky
			}
			if rnd.Intn(12) == 0 {
				c = &caller{what: "none at all"}
				gs[c] = grants{}
			}
			method, a := f(rnd, c, gs[c])
			h.check(fmt.Sprintf("round %d, request %d", k, i), method, a, c, gs[c], true)
		}
	}
	h.cc.tidy()
}

// proxyParallel: many callers at once.
func proxyParallel(r *vk.R) {
	rnd := r.Rand("parallel", 0)
	h := build(r, rnd)
	h.cc.slow = false
	cs := h.callers(rnd, 18)
	gs := make([]grants, len(cs))
	for i, c := range cs {
		gs[i] = h.endow(rnd, c)
	}
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		w, rnd := w, rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < r.Scale(120, 3000); i++ {
				j := rnd.Intn(len(cs))
				method, a := h.plain(rnd, cs[j], gs[j])
				h.check(fmt.Sprintf("caller %d, request %d", w, i), method, a, cs[j], gs[j], false)
			}
		}()
	}
	wg.Wait()
	if l := h.c.take(-1); len(l) > 0 {
		r.Violate("reached", "reads of no request reach Log Cache: %s", sub(l))
	}
}

// proxyChanges: grants come and go, and the Cloud Controller fails.
func proxyChanges(r *vk.R) {
	rnd := r.Rand("changes", 0)
	const keep = 250 * time.Millisecond
	h := build(r, rnd, auth.WithCacheExpirationInterval(keep), auth.WithTokenPruningInterval(100*time.Millisecond))
	cs := h.callers(rnd, 12)
	for k := 0; k < r.Scale(10, 100); k++ {
		gs := make([]grants, len(cs))
		for i, c := range cs {
			gs[i] = h.endow(rnd, c)
		}
		h.cc.mu.Lock()
		down := k%4 == 3
		h.cc.fail = 0
		if down {
			h.cc.fail = 100
		}
		h.cc.mu.Unlock()
		time.Sleep(keep + 50*time.Millisecond)
		for i := 0; i < 60; i++ {
			j := rnd.Intn(len(cs))
			g := gs[j]
			if down {
				g = grants{}
			}
			method, a := h.plain(rnd, cs[j], g)
			h.check(fmt.Sprintf("epoch %d, request %d, Cloud Controller down %v", k, i, down), method, a, cs[j], g, true)
		}
		r.Count("epochs", 1)
	}
}

// proxyExpiry: tokens that were good when last used.
func proxyExpiry(r *vk.R) {
	rnd := r.Rand("expiry", 0)
	h := build(r, rnd)
	for k := 0; k < r.Scale(2, 12); k++ {
		end := time.Now().Add(4 * time.Second).Truncate(time.Second)
		over := h.callersUntil(rnd, 8, end)
		far := h.callersUntil(rnd, 4, end.Add(time.Hour))
		cs := append(append([]*caller{}, over...), far...)
		gs := make([]grants, len(cs))
		for i, c := range cs {
			gs[i] = h.endow(rnd, c)
		}
		for i := 0; time.Now().Before(end.Add(-1500*time.Millisecond)) && i < 120; i++ {
			j := i % len(cs)
			method, a := h.plain(rnd, cs[j], gs[j])
			if j < len(over) {
				// It could expire under way on a machine that stands still.
				a.status, a.exact, a.meta = nil, false, false
			}
			h.check(fmt.Sprintf("round %d, request %d, the token expires in a while", k, i), method, a, cs[j], gs[j], true)
			r.Count("requests before the token expired", 1)
		}
		time.Sleep(time.Until(end.Add(1200 * time.Millisecond)))
		for _, c := range over {
			c.good, c.what = false, "expired meanwhile"
		}
		for i := 0; i < 60; i++ {
			j := rnd.Intn(len(cs))
			method, a := h.plain(rnd, cs[j], gs[j])
			h.check(fmt.Sprintf("round %d, request %d, the token expired", k, i), method, a, cs[j], gs[j], true)
			r.Count("requests after the token expired", 1)
		}
		// A key that is no longer published.
		h.u.mu.Lock()
		h.u.keys = map[string]int{"key-2": 1}
		h.u.mu.Unlock()
		time.Sleep(120 * time.Millisecond)
		must(h.uc.RefreshTokenKeys())
		for i := 0; i < 40; i++ {
			j := len(over) + i%len(far)
			c := *cs[j]
			if c.signer == 0 {
				c.good, c.what = false, "signed by a withdrawn key"
			}
			method, a := h.plain(rnd, &c, gs[j])
			h.check(fmt.Sprintf("round %d, request %d, the key was withdrawn", k, i), method, a, &c, gs[j], true)
			r.Count("requests after a key was withdrawn", 1)
		}
		h.u.mu.Lock()
		h.u.keys = map[string]int{"key-1": 0, "key-2": 1}
		h.u.mu.Unlock()
		time.Sleep(120 * time.Millisecond)
		must(h.uc.RefreshTokenKeys())
	}
}

// proxyCommand: the real command.
func proxyCommand(r *vk.R) {
	rnd := r.Rand("command", 0)
	h, stop := launch(r, rnd, filepath.Join(r.Scratch, "access.log"))
	defer stop()
	cs := h.callers(rnd, 12)
	gs := make([]grants, len(cs))
	for i, c := range cs {
		gs[i] = h.endow(rnd, c)
	}
	for i := 0; i < r.Scale(400, 8000); i++ {
		j := rnd.Intn(len(cs))
		f := h.plain
		if rnd.Intn(2) == 0 {
			f = h.tricky
		}
		method, a := f(rnd, cs[j], gs[j])
		h.check(fmt.Sprintf("cmd/cf-auth-proxy, request %d", i), method, a, cs[j], gs[j], true)
	}
}

// accessCommand: the access log of the real command, under concurrency.
func accessCommand(r *vk.R) {
	rnd := r.Rand("access-command", 0)
	path := filepath.Join(r.Scratch, "access.log")
	must(ioutil.WriteFile(path, []byte("what was there before\n"), 0600))
	h, stop := launch(r, rnd, path)
	cs := h.callers(rnd, 8)
	for _, c := range cs {
		h.endow(rnd, c)
	}
	from := time.Now()
	var mu sync.Mutex
	sent := map[string]visit{}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		w, rnd := w, rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < r.Scale(60, 2000); i++ {
				c := cs[rnd.Intn(len(cs))]
				key := fmt.Sprintf("%d-%d", w, i)
				id, fwd, sh, sp := headers(rnd)
				v := visit{method: pick(rnd, "GET", "GET", "GET", "DELETE"), uri: uri(rnd), id: strings.TrimSpace(key + " " + id), srcHost: sh, srcPort: sp}
				if rnd.Intn(2) == 0 {
					v.uri = pick(rnd, "/api/v1/info", "/api/v1/meta", "/api/v1/query?query=requests%7Bsource_id%3D%22guid-01%22%7D", "/api/v1/read/"+esc(rnd, sources[rnd.Intn(len(sources))])+"?limit=3")
				}
				extra := []string{"X-Vcap-Request-Id: " + v.id}
				if fwd != "" {
					extra = append(extra, "X-Forwarded-For: "+fwd)
				} else {
					v.srcHost, v.srcPort = "127.0.0.1", "?"
				}
				if code, _ := h.send(v.method, head(rnd, v.method, v.uri, c.token, extra...)+"\r\n"); code == 0 {
					r.Count("requests not answered", 1)
					continue
				}
				mu.Lock()
				sent[key] = v
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	to := time.Now()
	stop()
	text, err := ioutil.ReadFile(path)
	must(err)
	lines := strings.Split(string(text), "\n")
	if lines[0] != "what was there before" {
		r.Violate("lost", "cmd/cf-auth-proxy overwrites the access log that was there: it begins with %.300q", lines[0])
	}
	seen := map[string]int{}
	_, port, _ := net.SplitHostPort(h.addr)
	for _, line := range lines {
		m := idRE.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		seen[m[1]]++
		if v, ok := sent[m[1]]; ok {
			if why := judge(line, v, "10.9.8.7", port, from, to); why != "" {
				r.Violate("line", "cmd/cf-auth-proxy: the line of %s %.300q: %s; the line is %.600q", v.method, v.uri, why, line)
			}
		}
	}
	if n := len(lines) - 2; n > len(seen) {
		r.Violate("lines", "cmd/cf-auth-proxy: %d lines for %d requests", n, len(seen))
	}
	for key, v := range sent {
		if seen[key] != 1 {
			r.Violate("count", "cmd/cf-auth-proxy: the request %s %.300q was answered and has %d lines", v.method, v.uri, seen[key])
		}
		r.Eval("command request "+key, true)
	}
	r.Count("requests to the command", len(sent))
}
