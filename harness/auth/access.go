package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

// visit is a request and what its line has to say.
type visit struct {
	method  string
	uri     string // as sent
	id      string
	srcHost string
	srcPort string
}

var lineRE = regexp.MustCompile(`^rt=(-?\d+) cs1Label=userAuthenticationMechanism cs1=oauth-access-token cs2Label=vcapRequestId cs2=(.*?) request=(\S*) requestMethod=(\S*) src=(.*?) spt=(.*?) dst=(\S*) dpt=(\S*)$`)

// fields cuts a CEF line at its bars; \| is no bar.
func fields(line string) []string {
	var l []string
	from := 0
	for i := 0; i < len(line) && len(l) < 7; i++ {
		switch line[i] {
		case '\\':
			i++
		case '|':
			l = append(l, line[from:i])
			from = i + 1
		}
	}
	return append(l, line[from:])
}

var idRE = regexp.MustCompile(` cs2=(\d+-\d+)`)

var unbar = strings.NewReplacer(`\\`, `\`, `\|`, `|`, `\=`, `=`)

// sameURI says whether a logged path and query mean the request that was
// sent: the same path once unescaped, and the same query.
func sameURI(logged, sent string) bool {
	cut := func(s string) (string, string) {
		if i := strings.IndexByte(s, '?'); i >= 0 {
			return s[:i], s[i+1:]
		}
		return s, ""
	}
	lp, lq := cut(logged)
	sp, sq := cut(sent)
	up, err1 := url.PathUnescape(lp)
	us, err2 := url.PathUnescape(sp)
	if err1 != nil || err2 != nil || up != us {
		return false
	}
	bar := strings.NewReplacer("|", "%7C", "%7c", "%7C")
	return bar.Replace(lq) == bar.Replace(sq)
}

// judge compares a line with its request; it returns what is wrong.
func judge(line string, v visit, host, port string, from, to time.Time) string {
	f := fields(line)
	if len(f) != 8 {
		return fmt.Sprintf("it has %d fields", len(f))
	}
	if strings.Join(f[:4], "|") != "CEF:0|cloud_foundry|log_cache|1.0" || f[6] != "0" {
		return "its fixed fields are wrong"
	}
	for _, x := range f[4:6] {
		fits := false
		for _, x := range []string{x, unbar.Replace(x)} {
			i := strings.IndexByte(x, ' ')
			fits = fits || i >= 0 && x[:i] == v.method && sameURI(x[i+1:], v.uri)
		}
		if !fits {
			return fmt.Sprintf("its name %q is not the method and path", x)
		}
	}
	m := lineRE.FindStringSubmatch(f[7])
	if m == nil {
		return fmt.Sprintf("its extensions are not as they should be: %q", f[7])
	}
	for i := range m {
		if i != 3 {
			m[i] = unbar.Replace(m[i])
		}
	}
	ms, _ := strconv.ParseInt(m[1], 10, 64)
	switch {
	case ms < from.UnixNano()/1e6 || ms > to.UnixNano()/1e6:
		return fmt.Sprintf("its time is %d, the request came between %d and %d", ms, from.UnixNano()/1e6, to.UnixNano()/1e6)
	case m[2] != v.id:
		return fmt.Sprintf("the request id is %q", m[2])
	case !sameURI(m[3], v.uri) && !sameURI(unbar.Replace(m[3]), v.uri):
		return fmt.Sprintf("the request is %q", m[3])
	case m[4] != v.method:
		return fmt.Sprintf("the method is %q", m[4])
	case m[5] != v.srcHost || v.srcPort != "?" && m[6] != v.srcPort:
		return fmt.Sprintf("the source is %q port %q", m[5], m[6])
	case m[7] != host || m[8] != port:
		return fmt.Sprintf("the destination is %q port %q", m[7], m[8])
	}
	return ""
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

var pieces = []string{"api", "v1", "read", "query", "a b", "a+b", "x&y", "<b>", "it's", "\"q\"", "|", "||x", "\n", "\r\nCEF:0|cloud_foundry|log_cache|1.0|GET /forged|GET /forged|0|rt=1", "\t", "=", " request=/forged", "ü", "日本", "\x00", "%41", "100%", "\\", "\\|", "src=1.2.3.4", "{{.Path}}", "\u2028", "\xff\xfe", ";", ",", "&amp;", "#"}

// uri makes a request target; every byte that cannot stand in a request line
// is escaped, some others too.
func uri(r *rand.Rand) string {
	esc := func(s string, query bool) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			c := s[i]
			must := c <= ' ' || c >= 0x7f || c == '%' || c == '#' || !query && c == '?'
			if must || r.Intn(6) == 0 {
				fmt.Fprintf(&b, []string{"%%%02X", "%%%02x"}[r.Intn(2)], c)
			} else {
				b.WriteByte(c)
			}
		}
		return b.String()
	}
	s := ""
	for n := 1 + r.Intn(4); n > 0; n-- {
		s += "/" + esc(pick(r, pieces...), false)
	}
	if r.Intn(2) == 0 {
		s += "?"
		for n := 1 + r.Intn(3); n > 0; n-- {
			s += esc(pick(r, pieces...), true) + pick(r, "=", "") + esc(pick(r, pieces...), true) + pick(r, "&", "")
		}
	}
	return s
}

// headers draws a request id and an X-Forwarded-For; src is what the latter
// says the source is.
func headers(r *rand.Rand) (id, fwd, host, port string) {
	id = pick(r, "", "7d2a-41", fmt.Sprint(r.Int63()), "a|b", "x request=/forged requestMethod=PUT", "a b", "<i>", "a&b", "\\", "=", "ü")
	switch r.Intn(8) {
	case 0, 1, 2:
		return id, "", "", ""
	case 3:
		h := fmt.Sprintf("10.0.%d.%d", r.Intn(256), r.Intn(256))
		return id, h + pick(r, "", ", 1.2.3.4", ",5.6.7.8", ", 1.2.3.4, 9.9.9.9"), h, ""
	case 4:
		h, p := fmt.Sprintf("10.0.%d.%d", r.Intn(256), r.Intn(256)), fmt.Sprint(1+r.Intn(65535))
		return id, h + ":" + p + pick(r, "", ", 1.2.3.4"), h, p
	case 5:
		return id, "2001:db8::17" + pick(r, "", ", 1.2.3.4"), "2001:db8::17", ""
	case 6:
		return id, "[2001:db8::18]:99", "2001:db8::18", "99"
	}
	h := pick(r, "unknown", "a|b", "<x>", "1.2.3.4 dst=6.6.6.6")
	return id, h, h, ""
}

var methods = []string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "X|Y", "get", "M-SEARCH", "a&b", "it's"}

// book is where lines end up, in pieces as they are written.
type book struct {
	mu     sync.Mutex
	writes []string
	fail   bool
}

func (b *book) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.fail {
		return 0, errors.New("disk full")
	}
	b.writes = append(b.writes, string(p))
	return len(p), nil
}

func (b *book) take() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	w := b.writes
	b.writes = nil
	return w
}

// accessLines: one request at a time, as the HTTP server would hand it over.
func accessLines(r *vk.R) {
	rnd := r.Rand("lines", 0)
	for k := 0; k < r.Scale(8000, 400000); k++ {
		b := &book{}
		host, port := pick(rnd, "10.1.2.3", "0.0.0.0", "fd00::1"), fmt.Sprint(rnd.Intn(65536))
		v := visit{method: pick(rnd, methods...), uri: uri(rnd)}
		var fwd string
		v.id, fwd, v.srcHost, v.srcPort = headers(rnd)
		raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: proxy\r\n", v.method, v.uri)
		if v.id != "" || rnd.Intn(3) == 0 {
			raw += pick(rnd, "X-Vcap-Request-ID", "x-vcap-request-id", "X-Vcap-Request-Id") + ": " + v.id + "\r\n"
		}
		if fwd != "" {
			raw += "X-Forwarded-For: " + fwd + "\r\n"
		}
		req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw + "\r\n")))
		if err != nil {
			r.Count("not HTTP", 1)
			continue
		}
		req.RemoteAddr = pick(rnd, "192.0.2.7:4711", "[2001:db8::2]:80")
		if fwd == "" {
			v.srcHost, v.srcPort, _ = net.SplitHostPort(req.RemoteAddr)
		}
		before := -1
		h := auth.NewAccessMiddleware(auth.NewAccessLogger(b), host, port)(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			b.mu.Lock()
			before = len(b.writes)
			b.mu.Unlock()
			if q != req && (q.Method != v.method || q.RequestURI != v.uri) {
				r.Violate("request-changed", "the handler gets %s %s instead of %s %s", q.Method, q.RequestURI, v.method, v.uri)
			}
			w.WriteHeader(418)
		}))
		b.fail = rnd.Intn(20) == 0
		failing := b.fail
		from := time.Now()
		rec := httptest.NewRecorder()
		if !r.Safely("logging "+raw, func() { h.ServeHTTP(rec, req) }) {
			continue
		}
		to := time.Now()
		text := strings.Join(b.take(), "")
		if rec.Code != 418 || before < 0 {
			r.Violate("not-handled", "%q is not handed on", raw)
		}
		if failing {
			r.Count("log not writable", 1)
			continue
		}
		if before < 1 {
			r.Violate("late", "%q is handled before it is logged", raw)
		}
		if !strings.HasSuffix(text, "\n") || strings.Count(text, "\n") != 1 || strings.ContainsAny(text, "\r\x00") {
			r.Violate("lines", "the log of %q is not one line: %q", raw, text)
			continue
		}
		if why := judge(strings.TrimSuffix(text, "\n"), v, host, port, from, to); why != "" {
			r.Violate("line", "the log line of %q: %s; the line is %q", raw, why, text)
		}
		r.Count("lines", 1)
		r.Eval(fmt.Sprint("line ", k), strings.ContainsAny(v.uri+v.id+fwd, "|=&<>'\"%+ \\"))
	}
}

// accessServer: an HTTP server under concurrency, logging to a file. Every
// request carries an id of its own, by which the lines are told apart.
func accessServer(r *vk.R) {
	rnd := r.Rand("server", 0)
	path := filepath.Join(r.Scratch, "access.log")
	f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
	must(err)
	var mu sync.Mutex
	handled := map[string]bool{}
	h := auth.NewAccessMiddleware(auth.NewAccessLogger(f), "10.9.8.7", "8083")(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		handled[q.Header.Get("X-Vcap-Request-Id")] = true
		mu.Unlock()
		io.Copy(ioutil.Discard, q.Body)
	}))
	srv := httptest.NewUnstartedServer(h)
	srv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	addr := srv.Listener.Addr().String()
	sent := map[string]visit{}
	from := time.Now()
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		w, rnd := w, rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c net.Conn
			var br *bufio.Reader
			for i := 0; i < r.Scale(250, 5000); i++ {
				if c == nil {
					var err error
					if c, err = net.DialTimeout("tcp", addr, 30*time.Second); err != nil {
						r.Violate("server", "cannot connect: %s", err)
						return
					}
					br = bufio.NewReader(c)
				}
				id, fwd, sh, sp := headers(rnd)
				id = fmt.Sprintf("%d-%d %s", w, i, id)
				id = strings.TrimSpace(id)
				v := visit{method: pick(rnd, methods...), uri: uri(rnd), id: id, srcHost: sh, srcPort: sp}
				if rnd.Intn(4) == 0 {
					v.uri += strings.Repeat("x", rnd.Intn(9000))
				}
				raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: proxy\r\nX-Vcap-Request-Id: %s\r\n", v.method, v.uri, id)
				if fwd != "" {
					raw += "X-Forwarded-For: " + fwd + "\r\n"
				} else {
					v.srcHost, v.srcPort, _ = net.SplitHostPort(c.LocalAddr().String())
				}
				mu.Lock()
				sent[id] = v
				mu.Unlock()
				c.SetDeadline(time.Now().Add(60 * time.Second))
				io.WriteString(c, raw+"\r\n")
				resp, err := http.ReadResponse(br, &http.Request{Method: v.method})
				if err != nil {
					r.Violate("server", "no answer to %q: %s", raw, err)
					c.Close()
					c = nil
					continue
				}
				io.Copy(ioutil.Discard, resp.Body)
				resp.Body.Close()
				if resp.Close || rnd.Intn(20) == 0 {
					c.Close()
					c = nil
				}
			}
		}()
	}
	wg.Wait()
	to := time.Now()
	f.Close()
	text, err := ioutil.ReadFile(path)
	must(err)
	seen := map[string]int{}
	byNo := map[string]visit{}
	for id, v := range sent {
		byNo[strings.Fields(id)[0]] = v
	}
	if len(text) > 0 && !bytes.HasSuffix(text, []byte("\n")) {
		r.Violate("lines", "the last line of the log has no end")
	}
	for _, line := range strings.Split(strings.TrimSuffix(string(text), "\n"), "\n") {
		m := idRE.FindStringSubmatch(line)
		if m == nil {
			r.Violate("lines", "a line of no request: %.400q", line)
			continue
		}
		v := byNo[m[1]]
		seen[m[1]]++
		if why := judge(line, v, "10.9.8.7", "8083", from, to); why != "" {
			r.Violate("line", "the line of %s %.300q: %s; the line is %.600q", v.method, v.uri, why, line)
		}
		r.Eval("request "+m[1], true)
	}
	for id := range handled {
		if n := seen[strings.Fields(id)[0]]; n != 1 {
			r.Violate("count", "a request handled has %d lines", n)
		}
	}
	r.Count("requests handled", len(handled))
	r.Count("lines", len(seen))
}
