// Monitors for the syslog server: C14.
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/syslog"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
)

func main() {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(ioutil.Discard, ioutil.Discard, ioutil.Discard))
	log.SetOutput(ioutil.Discard)
	vk.Main(map[string]vk.Check{
		"C14": {
			Rule:        "generated octet-counted RFC 5424 streams (every header field present, nil or malformed; log text and structured data of every kind, well and badly formed; broken framing) over many concurrent TLS connections, cut into random packets, to a running server under the race detector, an offline checker comparing what Log Cache got per connection with a model of the messages; hostile clients (raw bytes, aborted handshakes, resets, stalled Log Cache) beside healthy ones; idle, trickling and active connections around the idle timeout; the real command with a fake Log Cache, also starved of file descriptors; non-trivial: several connections at once, a malformed message among good ones, or a hostile client",
			Assumptions: []string{"the octet-counting parser of go-syslog v2 is not in this sandbox; a stand-in frames the stream and hands each message to the real rfc5424 parser of go-syslog v1.0.1"},
			Parts:       []vk.Part{{Name: "messages", Run: messages}, {Name: "hostile", Run: hostile}, {Name: "idle", Run: idle}, {Name: "command", Run: command}},
		},
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func key(e *loggregator_v2.Envelope) string {
	b := proto.NewBuffer(nil)
	b.SetDeterministic(true)
	must(b.Marshal(e))
	return string(b.Bytes())
}

// item is one frame of a stream and what it means.
type item struct {
	frame string
	want  []string // envelopes it may become, as bytes
	none  bool     // it may (with no want: must) be counted as invalid
	ends  bool     // broken framing: the server closes the connection
	what  string
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

const printable = "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// word is printable ASCII, never "-".
func word(r *rand.Rand, max int, not string) string {
	n := 1 + r.Intn(max)
	if r.Intn(3) > 0 && n > 8 {
		n = 8
	}
	b := make([]byte, 0, n)
	for len(b) < n {
		c := printable[r.Intn(len(printable))]
		if strings.IndexByte(not, c) < 0 {
			b = append(b, c)
		}
	}
	if string(b) == "-" {
		return "x"
	}
	return string(b)
}

var texts = []string{"a", "just a test", " ", "  padded\t", "line\nline", "κόσμε", "日本語", "{\"a\":[1,2]}", "[not@structured data=\"x\"]", "<14>1 - - - - - -", "-", "tab\there\n", "quote \" back\\slash ]", "end\r\n", "42 <14>1 x", strings.Repeat("long ", 700)}

func text(r *rand.Rand) string {
	t := texts[r.Intn(len(texts))]
	if r.Intn(3) == 0 {
		t += fmt.Sprint(" ", r.Int63())
	}
	if r.Intn(60) == 0 {
		t += strings.Repeat(" line", r.Intn(12000)) + "."
	}
	if r.Intn(4) == 0 {
		t += "\n"
	}
	return t
}

func escape(s string) string {
	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "]", "\\]").Replace(s)
}

type kv struct{ k, v string }

func element(r *rand.Rand, id string, ps []kv) string {
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	s := "[" + id
	for _, p := range ps {
		s += " " + p.k + "=\"" + escape(p.v) + "\""
	}
	return s + "]"
}

func val(r *rand.Rand) string {
	return pick(r, "name", "a b", "κόσμε", "quo\"te", "back\\slash", "brack]et", "[x]", "=", "100%", "new\nline", "http_requests", strconv.Itoa(r.Intn(1000)))
}

// content is a structured data element and the envelope content it stands
// for; bad says that it stands for none.
func content(r *rand.Rand, env *loggregator_v2.Envelope) (sd string, bad bool) {
	suffix := pick(r, "@47450", "@47450", "@1", "")
	name := val(r)
	ps := []kv{{"name", name}}
	if r.Intn(5) == 0 {
		ps = append(ps, kv{"other", val(r)})
	}
	ints := func() string {
		return pick(r, "0", "1", strconv.FormatInt(r.Int63(), 10), strconv.Itoa(r.Intn(1000)), strconv.Itoa(math.MaxInt64), "0"+strconv.Itoa(r.Intn(1000)), "0017")
	}
	wrong := func() string {
		return pick(r, "", "d", "1.5", "1e3", "--1", "0x", " 1", "1 ", "99999999999999999999999", "1,000", "١", "0x1f", "0b1", "0o7", "1_000")
	}
	spoil := r.Intn(6) == 0
	switch r.Intn(4) {
	case 0:
		d, t := ints(), ints()
		if r.Intn(6) == 0 {
			t = strconv.FormatUint(math.MaxUint64, 10)
		}
		if r.Intn(6) == 0 {
			d = strconv.FormatUint(r.Uint64()|1<<63, 10)
		}
		if spoil {
			bad = true
			switch r.Intn(4) {
			case 0:
				d = wrong()
			case 1:
				t = wrong()
			case 2:
				d = "-1"
			case 3:
				ps = append(ps, kv{"delta", d})
				return element(r, "counter"+suffix, ps), true
			}
		}
		ps = append(ps, kv{"delta", d}, kv{"total", t})
		dv, _ := strconv.ParseUint(d, 10, 64)
		tv, _ := strconv.ParseUint(t, 10, 64)
		env.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: name, Delta: dv, Total: tv}}
		return element(r, "counter"+suffix, ps), bad
	case 1:
		v := pick(r, "0", "0.23", "-1", "1e300", "5e-324", strconv.FormatFloat(r.NormFloat64(), 'g', -1, 64), "1e3", "+7")
		unit := pick(r, "percentage", "", "bytes", "κ", "a\"b")
		if spoil {
			bad = true
			switch r.Intn(3) {
			case 0:
				v = pick(r, "", "d", "1,5", "--1", " 1", "1.2.3")
			case 1:
				ps = append(ps, kv{"value", v})
				return element(r, "gauge"+suffix, ps), true
			case 2:
				ps = append(ps, kv{"unit", unit})
				return element(r, "gauge"+suffix, ps), true
			}
		}
		ps = append(ps, kv{"value", v}, kv{"unit", unit})
		f, _ := strconv.ParseFloat(v, 64)
		env.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{name: {Unit: unit, Value: f}}}}
		return element(r, "gauge"+suffix, ps), bad
	case 2:
		t, b := val(r), text(r)
		env.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: t, Body: b}}
		return element(r, "event"+suffix, []kv{{"title", t}, {"body", b}}), false
	}
	a, b := ints(), ints()
	if r.Intn(4) == 0 {
		a = "-" + ints()
	}
	if spoil {
		bad = true
		switch r.Intn(3) {
		case 0:
			a = wrong()
		case 1:
			b = wrong()
		case 2:
			ps = append(ps, kv{"stop", b})
			return element(r, "timer"+suffix, ps), true
		}
	}
	ps = append(ps, kv{"start", a}, kv{"stop", b})
	av, _ := strconv.ParseInt(a, 10, 64)
	bv, _ := strconv.ParseInt(b, 10, 64)
	env.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: name, Start: av, Stop: bv}}
	return element(r, "timer"+suffix, ps), bad
}

// source makes the app name of a connection.
func source(r *rand.Rand, k int) string { return fmt.Sprintf("s%d-%s", k, word(r, 24, " ")) }

// message makes the n-th message of a source.
func message(r *rand.Rand, app string, n int) item {
	env := &loggregator_v2.Envelope{SourceId: app}
	it := item{what: "valid"}
	pri := []int{14, 11, 0, 1, 191, 10, 12, 8 + 3, r.Intn(192)}[r.Intn(9)]
	ver := pick(r, "1", "1", "1", "1", "2", "999")
	at := time.Unix(1580000000+int64(r.Intn(3)), 0).Add(time.Duration(n) * time.Microsecond)
	if r.Intn(6) == 0 {
		at = at.AddDate(-50-r.Intn(200), 0, 0)
	} else if r.Intn(6) == 0 {
		at = at.AddDate(r.Intn(240), 0, 0)
	}
	env.Timestamp = at.UnixNano()
	zone := time.UTC
	if r.Intn(2) == 0 {
		zone = time.FixedZone("", (r.Intn(48)-24)*1800)
	}
	ts := at.In(zone).Format("2006-01-02T15:04:05.000000Z07:00")
	host := pick(r, "-", "host", word(r, 255, " "))
	types := []string{"APP", "RTR", "CELL", "APP", "1"}
	inst := pick(r, "0", "1", "17", "abc")
	typ := types[r.Intn(len(types))]
	proc := pick(r, "["+typ+"/"+inst+"]", typ+"/"+inst, "["+typ+"/PROC/WEB/"+inst+"]")
	if r.Intn(8) == 0 {
		proc, typ = "["+inst+"]", inst
	}
	env.InstanceId = inst
	msgid := pick(r, "-", "-", "ID47", word(r, 32, " "))
	sd := "-"
	txt, hasTxt := text(r), true
	if r.Intn(2) == 0 {
		var bad bool
		sd, bad = content(r, env)
		if bad {
			it.none, it.what = true, "content"
		}
		hasTxt = r.Intn(2) == 0
		if r.Intn(12) == 0 {
			// Two elements: one of them counts, or the message is invalid.
			other := proto.Clone(env).(*loggregator_v2.Envelope)
			sd2, bad2 := content(r, other)
			if id := func(s string) string {
				return strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune("[] ", c) })[0]
			}; id(sd) != id(sd2) {
				sd += sd2
				if !bad2 {
					it.want = append(it.want, key(other))
				}
				it.none, it.what = true, "two elements"
				if !bad {
					it.want = append(it.want, key(env))
				}
			}
		} else if r.Intn(12) == 0 {
			sd = element(r, pick(r, "tags@47450", "exampleSDID@32473", "Counter@1", "x"), []kv{{"name", val(r)}})
			it.none, it.what = true, "unknown element"
		}
	} else {
		t := loggregator_v2.Log_OUT
		if pri == 11 {
			t = loggregator_v2.Log_ERR
		}
		env.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(strings.TrimSpace(txt)), Type: t}}
		env.Tags = map[string]string{"source_type": typ}
	}
	isLog := sd == "-"
	p := strconv.Itoa(pri)
	if r.Intn(5) == 0 {
		it.want, it.none = nil, true
		switch r.Intn(11) {
		case 0:
			p, it.what = pick(r, "192", "999", "", "01", "x", "-1"), "priority"
		case 1:
			ver, it.what = pick(r, "0", "", "1000", "x"), "version"
		case 2:
			ts, it.what = pick(r, "1970-13-01T00:00:00Z", "1970-01-01 00:00:00Z", "yesterday", "1970-01-01T00:00:00", "2019-02-30T00:00:00Z", "1970-01-01T25:00:00Z"), "timestamp"
		case 3:
			app, it.what = strings.Repeat("a", 49), "long app name"
		case 4:
			proc, it.what = strings.Repeat("1", 129), "long process id"
		case 5:
			sd, it.what = pick(r, "[", "[]", "[counter@1 name=x]", "[gauge@1 name=\"x]", "x", "[event@1 title=\"a]b\"]", "[event@1][event@1]"), "structured data"
		case 6:
			app, it.what = "-", "no app name"
		case 7:
			proc, it.what = "-", "no process id"
		case 8:
			ts, it.what = "-", "no timestamp"
		case 9:
			ts, it.what = pick(r, "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", "1677-09-21T00:12:43Z", "2262-04-11T23:47:17Z", "2500-01-01T00:00:00Z", "1000-01-01T00:00:00Z"), "timestamp beyond range"
		case 10:
			if isLog {
				hasTxt, it.what = false, "log without text"
			} else {
				app, proc, ts, sd, it.what = "-", "-", "-", "-", "nothing but nil"
			}
		}
	} else if !it.none {
		it.want = []string{key(env)}
	}
	m := fmt.Sprintf("<%s>%s %s %s %s %s %s %s", p, ver, ts, host, app, proc, msgid, sd)
	if hasTxt {
		m += " " + txt
	}
	it.frame = fmt.Sprintf("%d %s", len(m), m)
	return it
}

// breakage is a frame that ends the stream.
func breakage(r *rand.Rand) item {
	f := pick(r, "x", "0 <14>1", "<14>1 - - - - - -", " 5 <", "12x<14>1", "\n", "5 hello", "-1 <14>", "99999999999999999999 <", "\x00\x00\x00\x00")
	return item{frame: f, none: true, ends: true, what: "framing"}
}

// cache is a fake Log Cache.
type cache struct {
	mu    sync.Mutex
	got   map[string][]string
	taken int
	fails map[string]bool // sources whose sends fail now and then
	stuck map[string]chan bool
	lost  int
}

func newCache() *cache {
	return &cache{got: map[string][]string{}, fails: map[string]bool{}, stuck: map[string]chan bool{}}
}

func (c *cache) Send(ctx context.Context, q *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	for _, e := range q.GetEnvelopes().GetBatch() {
		c.mu.Lock()
		k := key(e)
		c.got[e.SourceId] = append(c.got[e.SourceId], k)
		fail := c.fails[e.SourceId] && len(c.got[e.SourceId])%3 == 0
		if fail {
			c.lost++
		} else {
			c.taken++
		}
		ch := c.stuck[e.SourceId]
		c.mu.Unlock()
		if ch != nil {
			<-ch
		}
		if fail {
			return nil, errors.New("no")
		}
	}
	return &rpc.SendResponse{}, nil
}

type bed struct {
	r       *vk.R
	ca      *vk.CA
	files   vk.Files
	metrics *testhelpers.SpyMetricsRegistry
	lc      *cache
	s       *syslog.Server
	addr    string
}

func newBed(r *vk.R, opts ...syslog.ServerOption) *bed {
	b := &bed{r: r, ca: vk.NewCA("syslog-ca"), metrics: testhelpers.NewMetricsRegistry(), lc: newCache()}
	b.files = b.ca.Write(r.Scratch, "syslog")
	b.s = syslog.NewServer(log.New(ioutil.Discard, "", 0), b.lc, b.metrics, b.files.Cert, b.files.Key, append([]syslog.ServerOption{syslog.WithServerPort(0)}, opts...)...)
	go b.s.Start()
	for i := 0; b.s.Addr() == ""; i++ {
		if i > 4000 {
			r.Violate("no-server", "the server does not listen after 20 s")
			r.Finish()
		}
		time.Sleep(5 * time.Millisecond)
	}
	_, port, _ := net.SplitHostPort(b.s.Addr())
	b.addr = "127.0.0.1:" + port
	return b
}

func (b *bed) metric(n string) int { return int(b.metrics.GetMetricValue(n, nil)) }

func dial(addr string, ca *vk.CA) (*tls.Conn, error) {
	return tls.DialWithDialer(&net.Dialer{Timeout: 30 * time.Second}, "tcp", addr, &tls.Config{RootCAs: ca.Pool(), ServerName: "syslog"})
}

// stream sends items in random packets and waits until the server has closed
// the connection, which it does after it handled everything.
func stream(rnd *rand.Rand, addr string, ca *vk.CA, l []item) error {
	c, err := dial(addr, ca)
	if err != nil {
		return fmt.Errorf("cannot connect: %s", err)
	}
	defer c.Close()
	var all strings.Builder
	for _, it := range l {
		all.WriteString(it.frame)
	}
	s := all.String()
	most := []int{1, 7, 100, 4000, 100000}[rnd.Intn(5)]
	if most == 1 && len(s) > 3000 {
		most = 30
	}
	var werr error
	for len(s) > 0 && werr == nil {
		n := 1 + rnd.Intn(most)
		if n > len(s) {
			n = len(s)
		}
		c.SetWriteDeadline(time.Now().Add(60 * time.Second))
		_, werr = io.WriteString(c, s[:n])
		s = s[n:]
		if rnd.Intn(40) == 0 {
			time.Sleep(time.Duration(rnd.Intn(3)) * time.Millisecond)
		}
	}
	ends := l[len(l)-1].ends
	if werr != nil && !ends {
		return fmt.Errorf("the server stops reading %d bytes before the end: %s", len(s), werr)
	}
	c.CloseWrite()
	c.SetReadDeadline(time.Now().Add(60 * time.Second))
	n, err := io.Copy(ioutil.Discard, c)
	if e, ok := err.(net.Error); ok && e.Timeout() {
		return errors.New("the server does not close the connection after its end")
	}
	if n > 0 {
		return fmt.Errorf("the server sent %d bytes", n)
	}
	return nil
}

// compare holds what Log Cache got from a source against its items; it
// returns how many items were invalid.
func compare(r *vk.R, who string, l []item, got []string) int {
	invalid, g := 0, 0
	for i, it := range l {
		hit := false
		if g < len(got) {
			for _, w := range it.want {
				hit = hit || w == got[g]
			}
		}
		switch {
		case hit:
			g++
		case it.none:
			invalid++
		default:
			have := "nothing"
			if g < len(got) {
				e := &loggregator_v2.Envelope{}
				proto.Unmarshal([]byte(got[g]), e)
				have = fmt.Sprint(e)
			}
			w := &loggregator_v2.Envelope{}
			proto.Unmarshal([]byte(it.want[0]), w)
			r.Violate("envelope", "%s, message %d %.300q: Log Cache got %.300s instead of %.300v", who, i, it.frame, have, w)
			return invalid
		}
	}
	if g < len(got) {
		e := &loggregator_v2.Envelope{}
		proto.Unmarshal([]byte(got[g]), e)
		r.Violate("extra", "%s: Log Cache got %d envelopes for %d: %.300v", who, len(got), g, e)
	}
	return invalid
}

func messages(r *vk.R) {
	for k := 0; k < r.Scale(14, 120); k++ {
		rnd := r.Rand("messages", k)
		b := newBed(r)
		n := 1 + rnd.Intn(30)
		type src struct {
			name  string
			items []item
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var all []src
		for i := 0; i < n; i++ {
			i, rnd := i, rand.New(rand.NewSource(rnd.Int63()))
			app := source(rnd, i)
			if rnd.Intn(5) == 0 {
				b.lc.mu.Lock()
				b.lc.fails[app] = true
				b.lc.mu.Unlock()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var items []item
				// A source may come in several connections, one after the other.
				for c := 0; c < 1+rnd.Intn(3); c++ {
					var l []item
					for j := 0; j < 1+rnd.Intn(r.Scale(60, 200)); j++ {
						l = append(l, message(rnd, app, len(items)+j))
					}
					if rnd.Intn(3) == 0 {
						l = append(l, breakage(rnd))
					}
					if err := stream(rnd, b.addr, b.ca, l); err != nil {
						r.Violate("connection", "bed %d, source %q: %s", k, app, err)
					}
					items = append(items, l...)
				}
				mu.Lock()
				all = append(all, src{app, items})
				mu.Unlock()
			}()
		}
		wg.Wait()
		b.lc.mu.Lock()
		invalid, broken := 0, 0
		known := map[string]bool{}
		for _, s := range all {
			known[s.name] = true
			for _, it := range s.items {
				r.Count("messages: "+it.what, 1)
				if it.ends {
					broken++
				}
			}
			invalid += compare(r, fmt.Sprintf("bed %d, source %q", k, s.name), s.items, b.lc.got[s.name])
		}
		for s, l := range b.lc.got {
			if !known[s] {
				e := &loggregator_v2.Envelope{}
				proto.Unmarshal([]byte(l[0]), e)
				r.Violate("stranger", "bed %d: Log Cache got %.300v", k, e)
			}
		}
		if r.Violations() == 0 {
			if v := b.metric("ingress"); v != b.lc.taken {
				r.Violate("ingress-counter", "bed %d: ingress is %d, Log Cache took %d envelopes and refused %d", k, v, b.lc.taken, b.lc.lost)
			}
			if v := b.metric("invalid_ingress"); v != invalid {
				r.Violate("invalid-counter", "bed %d: invalid_ingress is %d after %d invalid messages, of them %d of broken framing", k, v, invalid, broken)
			}
		}
		r.Count("envelopes", b.lc.taken)
		r.Count("connections", n)
		b.lc.mu.Unlock()
		r.Eval(fmt.Sprint("bed ", k), n > 1 || invalid > 0)
		b.s.Stop()
	}
}

// hostile clients beside healthy ones.
func hostile(r *vk.R) {
	for k := 0; k < r.Scale(2, 20); k++ {
		rnd := r.Rand("hostile", k)
		b := newBed(r)
		var wg sync.WaitGroup
		stop := make(chan bool)
		type src struct {
			name  string
			items []item
		}
		all := make([]src, 5)
		for i := range all {
			rnd := rand.New(rand.NewSource(rnd.Int63()))
			all[i].name = source(rnd, i)
			s := &all[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := dial(b.addr, b.ca)
				if err != nil {
					r.Violate("connection", "a healthy client cannot connect: %s", err)
					return
				}
				defer c.Close()
				for done := false; !done; {
					select {
					case <-stop:
						done = true
					case <-time.After(time.Duration(rnd.Intn(20)) * time.Millisecond):
					}
					it := message(rnd, s.name, len(s.items))
					s.items = append(s.items, it)
					c.SetWriteDeadline(time.Now().Add(60 * time.Second))
					if _, err := io.WriteString(c, it.frame); err != nil {
						r.Violate("disturbed", "a healthy connection breaks: %s", err)
						return
					}
				}
				c.CloseWrite()
				c.SetReadDeadline(time.Now().Add(60 * time.Second))
				if _, err := io.Copy(ioutil.Discard, c); err != nil {
					if e, ok := err.(net.Error); ok && e.Timeout() {
						r.Violate("disturbed", "a healthy connection is not closed after its end")
					}
				}
			}()
		}
		// A source whose sends never come back blocks nobody else.
		stuck := make(chan bool)
		b.lc.mu.Lock()
		b.lc.stuck["stuck"] = stuck
		b.lc.mu.Unlock()
		sc, err := dial(b.addr, b.ca)
		if err == nil {
			for j := 0; j < 3; j++ {
				it := message(rnd, "stuck", j)
				io.WriteString(sc, it.frame)
			}
		}
		var bad sync.WaitGroup
		var kinds [9]int64
		for i := 0; i < r.Scale(120, 400); i++ {
			i, rnd := i, rand.New(rand.NewSource(rnd.Int63()))
			bad.Add(1)
			if i%16 == 15 {
				time.Sleep(20 * time.Millisecond)
			}
			go func() {
				defer bad.Done()
				kind := i % len(kinds)
				atomic.AddInt64(&kinds[kind], 1)
				junk := make([]byte, 1+rnd.Intn(3000))
				rnd.Read(junk)
				if kind < 3 {
					// No TLS at all.
					c, err := net.DialTimeout("tcp", b.addr, 30*time.Second)
					if err != nil {
						r.Violate("refuses", "the server does not accept connections: %s", err)
						return
					}
					defer c.Close()
					switch kind {
					case 0:
						c.Write(junk)
					case 1:
						io.WriteString(c, message(rnd, "plain", i).frame)
					}
					time.Sleep(time.Duration(rnd.Intn(100)) * time.Millisecond)
					if rnd.Intn(2) == 0 {
						c.(*net.TCPConn).SetLinger(0)
					}
					return
				}
				c, err := dial(b.addr, b.ca)
				if err != nil {
					r.Violate("refuses", "the server does not shake hands: %s", err)
					return
				}
				defer c.Close()
				switch kind {
				case 3:
					c.Write(junk)
				case 4: // a frame that ends early
					f := message(rnd, "hostile", i).frame
					io.WriteString(c, f[:rnd.Intn(len(f))])
				case 5: // a frame of junk
					fmt.Fprintf(c, "%d <%s", len(junk)+1, junk)
				case 6: // mutated messages
					for j := 0; j < 30; j++ {
						f := []byte(message(rnd, "hostile", i).frame)
						sp := strings.IndexByte(string(f), ' ') + 1
						for m := rnd.Intn(4); m >= 0; m-- {
							f[sp+1+rnd.Intn(len(f)-sp-1)] = []byte{0, ' ', '-', '[', ']', '"', '\\', '<', '=', 0xff, byte(rnd.Intn(256))}[rnd.Intn(11)]
						}
						c.Write(f)
					}
				case 7: // nil everywhere
					for bits := 0; bits < 256; bits++ {
						f := []string{"2020-01-01T00:00:00Z", "host", "hostile", "[APP/1]", "ID", "[event@1 title=\"a\"]"}
						for j := range f {
							if bits>>uint(j)&1 == 1 {
								f[j] = "-"
							}
						}
						m := "<14>1 " + strings.Join(f, " ")
						if bits&64 > 0 {
							m += " text"
						}
						if bits&128 > 0 {
							m = pick(rnd, "<14>1", "<14>1 - - -", "<14>", "<", m+" ")
						}
						fmt.Fprintf(c, "%d %s", len(m), m)
					}
				case 8: // elements without their parameters
					for _, id := range []string{"counter@1", "gauge@1", "event@1", "timer@1", "other@1"} {
						m := fmt.Sprintf("<14>1 2020-01-01T00:00:00Z h hostile [APP/1] - [%s]", id)
						fmt.Fprintf(c, "%d %s", len(m), m)
					}
				}
				if rnd.Intn(2) == 0 {
					time.Sleep(time.Duration(rnd.Intn(50)) * time.Millisecond)
				}
				if rnd.Intn(3) == 0 {
					c.NetConn().(*net.TCPConn).SetLinger(0)
				}
			}()
		}
		bad.Wait()
		time.Sleep(100 * time.Millisecond)
		close(stop)
		wg.Wait()
		for i, n := range kinds {
			r.Count(fmt.Sprint("hostile clients of kind ", i), int(n))
		}
		b.lc.mu.Lock()
		for _, s := range all {
			r.Count("messages beside hostile clients", len(s.items))
			compare(r, fmt.Sprintf("source %q beside hostile clients", s.name), s.items, b.lc.got[s.name])
		}
		b.lc.mu.Unlock()
		close(stuck)
		if sc != nil {
			sc.Close()
		}
		r.Eval(fmt.Sprint("hostile ", k), true)
		b.s.Stop()
	}
}

// idle connections end, active ones stay.
func idle(r *vk.R) {
	const limit = time.Second
	rnd := r.Rand("idle", 0)
	b := newBed(r, syslog.WithIdleTimeout(limit))
	frame := func(rnd *rand.Rand) string { return message(rnd, "idle", rnd.Intn(1000)).frame }
	var wg sync.WaitGroup
	for k := 0; k < r.Scale(24, 64); k++ {
		k, rnd := k, rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			began := time.Now()
			c, err := dial(b.addr, b.ca)
			if err != nil {
				r.Violate("connection", "cannot connect: %s", err)
				return
			}
			defer c.Close()
			closed := make(chan time.Time, 1)
			go func() {
				c.Read(make([]byte, 1))
				closed <- time.Now()
			}()
			end := func(what string, since time.Time) {
				select {
				case at := <-closed:
					if d := at.Sub(since); d < limit {
						r.Violate("early", "%s: the connection is closed %v after its last message, the idle timeout is %v", what, d, limit)
					}
				case <-time.After(30 * time.Second):
					r.Violate("not-closed", "%s: the connection is still open after 30 s, the idle timeout is %v", what, limit)
				}
			}
			switch k % 4 {
			case 0:
				end("silent", began)
				r.Eval(fmt.Sprint("silent ", k), true)
			case 1:
				for j := rnd.Intn(4); j >= 0; j-- {
					time.Sleep(time.Duration(rnd.Intn(200)) * time.Millisecond)
					began = time.Now()
					io.WriteString(c, frame(rnd))
				}
				end("some messages, then silent", began)
				r.Eval(fmt.Sprint("messages, then silent ", k), true)
			case 2:
				// Bytes, but never a whole message.
				go func() {
					io.WriteString(c, "100000 <14>1 ")
					for {
						if _, err := io.WriteString(c, "x"); err != nil {
							return
						}
						time.Sleep(100 * time.Millisecond)
					}
				}()
				end("bytes, but never a whole message", began)
				r.Eval(fmt.Sprint("trickle ", k), true)
			case 3:
				// Active: a message now and then, for several times the limit. A
				// try counts only when it was not this process that was late.
				ok := false
				for try := 0; try < 4 && !ok; try++ {
					if try > 0 {
						c.Close()
						if c, err = dial(b.addr, b.ca); err != nil {
							r.Violate("connection", "cannot connect: %s", err)
							return
						}
						ch := make(chan time.Time, 1)
						closed = ch
						go func(c *tls.Conn) {
							c.Read(make([]byte, 1))
							ch <- time.Now()
						}(c)
					}
					ok = true
					for j := 0; j < 12+4*try && ok; j++ {
						if _, err := io.WriteString(c, frame(rnd)); err != nil {
							ok = false
						}
						select {
						case <-closed:
							ok = false
						case <-time.After(time.Duration(150+rnd.Intn(250)) * time.Millisecond):
						}
					}
				}
				if !ok {
					r.Violate("closed", "four times a connection with a message at least every 0.4 s was closed; the idle timeout is %v", limit)
				}
				r.Eval(fmt.Sprint("active ", k), true)
			}
		}()
	}
	wg.Wait()
	b.s.Stop()
}
