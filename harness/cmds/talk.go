package main

import (
	"crypto"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// moody answers in all the ways a server may fail.
type moody struct {
	mu   sync.Mutex
	rnd  *rand.Rand
	good func(*http.Request) string
	seen map[string]int
}

func (m *moody) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	q.ParseForm()
	m.mu.Lock()
	k := m.rnd.Intn(9)
	first := m.seen[q.URL.Path] == 0
	m.seen[q.URL.Path]++
	m.mu.Unlock()
	good := m.good(q)
	if first && strings.HasPrefix(q.URL.Path, "/token_key") {
		k = 0
	}
	rw.Header().Set("Content-Type", "application/json")
	switch k {
	case 0, 1:
		fmt.Fprint(rw, good)
	case 2:
		rw.WriteHeader(401)
		fmt.Fprint(rw, `{"error":"unauthorized","error_description":"Bad credentials"}`)
	case 3:
		rw.WriteHeader(500)
		fmt.Fprint(rw, "<html>oops</html>")
	case 4:
		fmt.Fprint(rw, "<html>fine</html>")
	case 5:
		fmt.Fprint(rw, `{}`)
	case 6:
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
	case 7:
		rw.Header().Set("Content-Length", fmt.Sprint(len(good)+100))
		fmt.Fprint(rw, good)
	case 8:
		http.Redirect(rw, q, "https://localhost:1/elsewhere", []int{301, 302, 307}[m.seenOf(q)%3])
	}
}

func (m *moody) seenOf(q *http.Request) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.seen[q.URL.Path]
}

func (m *moody) total() (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, v := range m.seen {
		n += v
	}
	return n
}

// talk looks for secrets in what blackbox and the proxy print while the servers
// they ask fail in every way.
func talk(r *vk.R) {
	w := newWorld(r)
	defer w.close()
	cmds := map[string]command{}
	for _, c := range w.cmds {
		cmds[c.name] = c
	}
	var wg sync.WaitGroup
	for k := 0; k < r.Scale(2, 12); k++ {
		k := k
		wg.Add(2)
		go func() { defer wg.Done(); talkBlackbox(r, w, cmds["blackbox"], k) }()
		go func() { defer wg.Done(); talkProxy(r, w, cmds["cf-auth-proxy"], k) }()
	}
	wg.Wait()
}

func (w *world) serve(m *moody, cn string) (string, *httptest.Server) {
	s := httptest.NewUnstartedServer(m)
	s.Config.ErrorLog = quietLog
	s.TLS = &tls.Config{Certificates: []tls.Certificate{w.ca.Pair(cn)}}
	s.StartTLS()
	_, p, _ := net.SplitHostPort(s.Listener.Addr().String())
	return "https://localhost:" + p, s
}

func newMoody(rnd *rand.Rand, good func(*http.Request) string) *moody {
	return &moody{rnd: rand.New(rand.NewSource(rnd.Int63())), good: good, seen: map[string]int{}}
}

// told judges what a command printed.
func told(r *vk.R, c command, out string, secrets map[string]string) {
	for _, s := range vk.Sorted(secrets) {
		v := secrets[s]
		for _, f := range []string{v, base64.StdEncoding.EncodeToString([]byte("me:" + v))} {
			if strings.Contains(out, f) {
				r.Violate("secret", "%s prints %s: %s", c.name, s, tail(out[:strings.Index(out, f)+len(f)]))
			}
		}
	}
	r.Count("bytes looked at", len(out))
}

func talkBlackbox(r *vk.R, w *world, c command, k int) {
	rnd := r.Rand("blackbox", k)
	m := newMoody(rnd, func(q *http.Request) string {
		if strings.HasPrefix(q.URL.Path, "/oauth") {
			return `{"access_token":"open-sesame","token_type":"bearer"}`
		}
		return `{"envelopes":{"batch":[]},"version":"1","vm_uptime":"1000"}`
	})
	addr, s := w.serve(m, "localhost")
	defer s.Close()
	// A Log Cache that implements nothing answers fast.
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	g := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{w.ca.Pair("log-cache")}})))
	go g.Serve(lis)
	defer g.Stop()
	_, p, _ := net.SplitHostPort(lis.Addr().String())
	secrets := map[string]string{"CLIENT_SECRET": fmt.Sprintf("geheim%x%x", rnd.Uint64(), rnd.Uint64()), "the token it got": "open-sesame"}
	x := start(w.dir, c, c.env(map[string]string{
		"CLIENT_SECRET": secrets["CLIENT_SECRET"], "UAA_ADDR": addr, "DATA_SOURCE_HTTP_ADDR": addr, "DATA_SOURCE_GRPC_ADDR": "localhost:" + p,
		"EMISSION_INTERVAL": "100ms", "SAMPLE_INTERVAL": "100ms", "WINDOW_INTERVAL": "1s", "WINDOW_LAG": "100ms",
	}))
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && m.total() < 40 && !x.ended(50*time.Millisecond); {
	}
	x.kill()
	r.Eval(fmt.Sprint("blackbox", k), m.total() >= 10)
	r.Count("requests of blackbox", m.total())
	told(r, c, x.out.String(), secrets)
}

// signer makes tokens and tells the keys to check them with.
func signer() (func(kid, alg string, claims map[string]interface{}) string, string) {
	key, err := rsa.GenerateKey(crand.Reader, 2048)
	must(err)
	der, err := x509.MarshalPKIXPublicKey(&key.PublicKey)
	must(err)
	public := string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	keys, _ := json.Marshal(map[string]interface{}{"keys": []map[string]string{{"kid": "key-1", "value": public}}})
	b64 := func(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
	sign := func(kid, alg string, claims map[string]interface{}) string {
		h, _ := json.Marshal(map[string]string{"alg": alg, "kid": kid, "typ": "JWT"})
		b, _ := json.Marshal(claims)
		t := b64(h) + "." + b64(b)
		d := sha256.Sum256([]byte(t))
		sig, err := rsa.SignPKCS1v15(nil, key, crypto.SHA256, d[:])
		must(err)
		return t + "." + b64(sig)
	}
	return sign, string(keys)
}

func talkProxy(r *vk.R, w *world, c command, k int) {
	rnd := r.Rand("proxy", k)
	sign, keys := signer()
	uaa := newMoody(rnd, func(*http.Request) string { return keys })
	capi := newMoody(rnd, func(*http.Request) string {
		return `{"resources":[{"guid":"app-1","name":"app"}],"pagination":{"next":null}}`
	})
	uaaAddr, s := w.serve(uaa, "localhost")
	defer s.Close()
	capiAddr, s2 := w.serve(capi, "capi")
	defer s2.Close()
	p := port()
	events := filepath.Join(w.dir, fmt.Sprintf("events-%d.log", k))
	secrets := map[string]string{"UAA_CLIENT_SECRET": fmt.Sprintf("geheim%x%x", rnd.Uint64(), rnd.Uint64())}
	e := c.env(map[string]string{
		"UAA_CLIENT_SECRET": secrets["UAA_CLIENT_SECRET"], "UAA_ADDR": uaaAddr, "CAPI_ADDR": capiAddr, "ADDR": "localhost:" + p, "SECURITY_EVENT_LOG": events,
	})
	x := start(w.dir, c, e)
	defer x.kill()
	if s := up(c, x, e); s != "" {
		r.Violate("starts:cf-auth-proxy", "cf-auth-proxy %s", s)
		return
	}
	h := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: w.ca.Pool(), ServerName: "log-cache"}, DisableKeepAlives: true}}
	for i := 0; i < 40; i++ {
		kid, alg := "key-1", "RS256"
		if i%5 == 1 {
			kid = "key-2"
		}
		if i%5 == 2 {
			alg = "HS256"
		}
		exp := time.Now().Add(time.Hour).Unix()
		if i%5 == 3 {
			exp -= 7200
		}
		t := sign(kid, alg, map[string]interface{}{"user_id": "u", "user_name": "u", "client_id": "cf", "exp": exp, "scope": []string{"openid"}, "n": rnd.Int63()})
		parts := strings.Split(t, ".")
		secrets[fmt.Sprintf("the signature of token %d", i)] = parts[2]
		secrets[fmt.Sprintf("the payload of token %d", i)] = parts[1]
		if i%7 == 6 {
			t = t[:len(t)-rnd.Intn(30)-1]
			secrets[fmt.Sprintf("the signature of token %d", i)] = strings.Split(t, ".")[2]
		}
		path := []string{"/api/v1/read/app-1", "/api/v1/query?query=up%7Bsource_id%3D%22app%22%7D", "/api/v1/meta", "/api/v1/query_range?query=up%7Bsource_id%3D%22app-1%22%7D", "/v1/read/app-1"}[rnd.Intn(5)]
		q, _ := http.NewRequest("GET", "https://localhost:"+p+path, nil)
		q.Header.Set("Authorization", []string{"bearer ", "Bearer ", ""}[rnd.Intn(3)]+t)
		if resp, err := h.Do(q); err == nil {
			ioutil.ReadAll(resp.Body)
			resp.Body.Close()
			r.Count("requests to the proxy", 1)
		}
	}
	x.kill()
	r.Eval(fmt.Sprint("proxy", k), capi.total() > 5)
	r.Count("requests of the proxy to UAA", uaa.total())
	r.Count("requests of the proxy to CAPI", capi.total())
	told(r, c, x.out.String(), secrets)
	if b, err := ioutil.ReadFile(events); err != nil {
		r.Violate("no-events", "the proxy keeps no security event log: %v", err)
	} else {
		told(r, c, string(b), secrets)
	}
}

// asked counts what a server is asked and answers the same each time.
type asked struct {
	mu   sync.Mutex
	n    int
	body string
	info string
}

func (a *asked) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	a.mu.Lock()
	a.n++
	a.mu.Unlock()
	rw.Header().Set("Content-Type", "application/json")
	if strings.HasSuffix(q.URL.Path, "/info") {
		fmt.Fprint(rw, a.info)
		return
	}
	fmt.Fprint(rw, a.body)
}

func (a *asked) times() int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.n
}

func (w *world) present(h http.Handler, c tls.Certificate) (string, *httptest.Server) {
	s := httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = quietLog
	s.TLS = &tls.Config{Certificates: []tls.Certificate{c}}
	s.StartTLS()
	_, p, _ := net.SplitHostPort(s.Listener.Addr().String())
	return "https://localhost:" + p, s
}

// trust runs the proxy and blackbox next to servers of the CA they are told and
// of others.
func trust(r *vk.R) {
	w := newWorld(r)
	defer w.close()
	cmds := map[string]command{}
	for _, c := range w.cmds {
		cmds[c.name] = c
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	run := func(f func()) {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f()
		}()
	}
	good := []string{"", "", ""}
	var l [][]string
	l = append(l, good)
	for i := range good {
		for _, v := range []string{"another CA", "another name"} {
			c := append([]string{}, good...)
			c[i] = v
			l = append(l, c)
		}
	}
	for _, c := range l {
		for _, skip := range []bool{false, true} {
			c, skip := c, skip
			run(func() { trustProxy(r, w, cmds["cf-auth-proxy"], c, skip) })
		}
	}
	for _, skip := range []bool{false, true} {
		for _, known := range []bool{false, true} {
			skip, known := skip, known
			run(func() { trustBlackbox(r, w, cmds["blackbox"], skip, known) })
		}
	}
	wg.Wait()
}

func (w *world) certificate(fault, cn string) tls.Certificate {
	switch fault {
	case "another CA":
		return vk.NewCA("ca").Pair(cn)
	case "another name":
		return w.ca.Pair("elsewhere", func(c *x509.Certificate) { c.DNSNames = []string{"elsewhere"} })
	}
	return w.ca.Pair(cn, func(c *x509.Certificate) { c.DNSNames = []string{cn} })
}

// skipping is a setting that skips verification or not; not is the default.
func skipping(skip, say bool) string {
	if !skip && !say {
		return gone
	}
	return fmt.Sprint(skip)
}

func trustProxy(r *vk.R, w *world, c command, faults []string, skip bool) {
	sign, keys := signer()
	uaa, capi, gw := &asked{body: keys}, &asked{body: `{"resources":[{"guid":"app-1","name":"app"}],"pagination":{"next":null}}`}, &asked{body: `{"meta":{"app-1":{"count":"1"}}}`, info: `{"version":"2.6.0","vm_uptime":"1"}`}
	uaaAddr, s := w.present(uaa, w.certificate(faults[0], "localhost"))
	defer s.Close()
	capiAddr, s2 := w.present(capi, w.certificate(faults[1], "capi"))
	defer s2.Close()
	gwAddr, s3 := w.present(gw, w.certificate(faults[2], "localhost"))
	defer s3.Close()
	if skip {
		// The proxy talks TLS to the gateway whatever scheme it is given.
		gwAddr = strings.Replace(gwAddr, "https://", "http://", 1)
	}
	p := port()
	e := c.env(map[string]string{
		"UAA_ADDR": uaaAddr, "CAPI_ADDR": capiAddr, "LOG_CACHE_GATEWAY_ADDR": gwAddr, "ADDR": "localhost:" + p, "SKIP_CERT_VERIFY": skipping(skip, faults[0]+faults[1]+faults[2] != "another CA"),
	})
	what := fmt.Sprintf("certificates of UAA, CAPI and gateway with faults %q, skipping verification %v", faults, skip)
	x := start(w.dir, c, e)
	defer x.kill()
	r.Eval(what, true)
	if faults[0] != "" && !skip {
		if !x.ended(20 * time.Second) {
			r.Violate("starts:untrusted", "cf-auth-proxy starts though it must not trust UAA: %s", what)
		} else if x.code == 0 {
			r.Violate("ends-well", "cf-auth-proxy says it ended well though it must not trust UAA: %s", what)
		}
		if n := uaa.times(); n > 0 {
			r.Violate("trusts:uaa", "cf-auth-proxy asked a UAA it must not trust %d times: %s", n, what)
		}
		return
	}
	if s := up(c, x, e); s != "" {
		r.Violate("starts:cf-auth-proxy", "cf-auth-proxy (%s) %s", what, s)
		return
	}
	t := sign("key-1", "RS256", map[string]interface{}{"user_id": "u", "user_name": "u", "client_id": "cf", "exp": time.Now().Add(time.Hour).Unix(), "scope": []string{"openid"}})
	h := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: w.ca.Pool(), ServerName: "log-cache"}, DisableKeepAlives: true}}
	capiOK, gwOK := faults[1] == "" || skip, faults[2] == ""
	for _, path := range []string{"/api/v1/read/app-1", "/api/v1/meta", "/api/v1/info"} {
		q, _ := http.NewRequest("GET", "https://localhost:"+p+path, nil)
		q.Header.Set("Authorization", "bearer "+t)
		resp, err := h.Do(q)
		if err != nil {
			r.Violate("no-answer", "cf-auth-proxy (%s) does not answer %s: %v", what, path, err)
			continue
		}
		b, _ := ioutil.ReadAll(resp.Body)
		resp.Body.Close()
		// Nobody may see anything whom CAPI does not say so of.
		fine := gwOK && (capiOK || path != "/api/v1/read/app-1")
		if !capiOK && strings.Contains(string(b), "app-1") {
			r.Violate("answers:untrusted", "cf-auth-proxy (%s) answers %s with %s", what, path, b)
		}
		if fine != (resp.StatusCode == 200) {
			r.Violate("answers:trust", "cf-auth-proxy (%s) answers %s with %d", what, path, resp.StatusCode)
		}
		r.Count("requests to the proxy", 1)
	}
	if n := capi.times(); capiOK != (n > 0) {
		r.Violate("trusts:capi", "cf-auth-proxy (%s) asked CAPI %d times", what, n)
	}
	if n := gw.times(); gwOK != (n > 0) {
		r.Violate("trusts:gateway", "cf-auth-proxy (%s) asked the gateway %d times", what, n)
	}
}

func trustBlackbox(r *vk.R, w *world, c command, skip, known bool) {
	a := &asked{body: `{"access_token":"open-sesame","token_type":"bearer"}`}
	addr, s := w.present(a, w.ca.Pair("localhost"))
	defer s.Close()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	g := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{w.ca.Pair("log-cache")}})))
	go g.Serve(lis)
	defer g.Stop()
	_, p, _ := net.SplitHostPort(lis.Addr().String())
	ca := c.base["CA_PATH"]
	if !known {
		ca = filepath.Join(w.dir, fmt.Sprintf("roots-%v.pem", skip))
		must(os.MkdirAll(ca+".d", 0700))
		b, err := ioutil.ReadFile(vk.NewCA("roots").Write(ca+".d", "nobody").CA)
		must(err)
		must(ioutil.WriteFile(ca, b, 0600))
	}
	x := start(w.dir, c, c.env(map[string]string{
		"UAA_ADDR": addr, "DATA_SOURCE_HTTP_ADDR": addr, "DATA_SOURCE_GRPC_ADDR": "localhost:" + p, "SKIP_TLS_VERIFY": skipping(skip, known),
		"EMISSION_INTERVAL": "100ms", "SAMPLE_INTERVAL": "100ms", "WINDOW_INTERVAL": "1s", "WINDOW_LAG": "100ms",
		"SSL_CERT_FILE": ca, "SSL_CERT_DIR": w.dir + "/none",
	}))
	defer x.kill()
	want := skip || known
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && a.times() == 0 && !x.ended(50*time.Millisecond); {
		if !want && time.Until(end) < 16*time.Second {
			break
		}
	}
	what := fmt.Sprintf("skipping verification %v, the CA of UAA is one of the machine's: %v", skip, known)
	r.Eval("blackbox "+what, true)
	if n := a.times(); want != (n > 0) {
		r.Violate("trusts:blackbox", "blackbox (%s) asked UAA %d times", what, n)
	}
}
