package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

// ring holds signing keys and their public halves as PEM.
type ring struct {
	keys []*rsa.PrivateKey
	pems []string
}

func newRing(n int) *ring {
	g := &ring{keys: make([]*rsa.PrivateKey, n), pems: make([]string, n)}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, err := rsa.GenerateKey(crand.Reader, 1024)
			must(err)
			b, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
			must(err)
			g.keys[i], g.pems[i] = k, string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
		}()
	}
	wg.Wait()
	return g
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// sign makes a compact JWS over raw header and payload documents.
func (g *ring) sign(alg string, key int, head, payload string) string {
	s := b64([]byte(head)) + "." + b64([]byte(payload))
	var sig []byte
	var err error
	k := g.keys[key]
	switch alg {
	case "RS256":
		d := sha256.Sum256([]byte(s))
		sig, err = rsa.SignPKCS1v15(crand.Reader, k, crypto.SHA256, d[:])
	case "RS384":
		d := sha512.Sum384([]byte(s))
		sig, err = rsa.SignPKCS1v15(crand.Reader, k, crypto.SHA384, d[:])
	case "RS512":
		d := sha512.Sum512([]byte(s))
		sig, err = rsa.SignPKCS1v15(crand.Reader, k, crypto.SHA512, d[:])
	case "PS256":
		d := sha256.Sum256([]byte(s))
		sig, err = rsa.SignPSS(crand.Reader, k, crypto.SHA256, d[:], &rsa.PSSOptions{SaltLength: 32})
	case "HS256":
		m := hmac.New(sha256.New, []byte(g.pems[key]))
		m.Write([]byte(s))
		sig = m.Sum(nil)
	case "none":
	}
	must(err)
	return s + "." + b64(sig)
}

func quote(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// ticket is a token and what it is worth.
type ticket struct {
	text   string
	what   string
	kid    string
	signer int  // the key that signed it as RS256
	sound  bool // well formed, RS256, signed by signer, and not expired
	sealed bool // the signature fits signer and the header is in order
	admin  bool
	exp    time.Time
}

var scopes = []string{"openid", "cloud_controller.read", "logs.admin ", "Logs.Admin", "doppler.firehose.x", "doppler", "logs.admins", "uaa.admin", ""}

// issue makes a token under kid, signed by key signer.
func issue(r *rand.Rand, g *ring, now time.Time, kid string, signer int) ticket {
	t := ticket{what: "genuine", kid: kid, signer: signer, sound: true, sealed: true}
	sc := []string{}
	for n := r.Intn(4); n > 0; n-- {
		sc = append(sc, scopes[r.Intn(len(scopes))])
	}
	if r.Intn(2) == 0 {
		t.admin = true
		sc = append(sc, []string{"logs.admin", "doppler.firehose"}[r.Intn(2)])
		r.Shuffle(len(sc), func(i, j int) { sc[i], sc[j] = sc[j], sc[i] })
	}
	t.exp = now.Add(time.Duration(2+r.Intn(100000)) * time.Second)
	head := map[string]interface{}{"alg": "RS256", "kid": kid, "typ": "JWT"}
	claims := map[string]interface{}{"user_name": "u", "user_id": fmt.Sprint(r.Int63()), "scope": sc, "exp": t.exp.Unix(), "iat": now.Unix(), "client_id": "cf"}
	t.exp = time.Unix(t.exp.Unix(), 0)
	if r.Intn(8) == 0 {
		delete(head, "typ")
		head["jku"] = "https://uaa/token_keys"
	}
	alg := "RS256"
	bad := func(what string) { t.what, t.sound = what, false }
	if r.Intn(8) == 0 {
		// A fraction of a second in the expiry.
		claims["exp"] = float64(t.exp.Unix()) + 0.5
	}
	h, p := "", ""
	x := 20
	if r.Intn(5) < 3 {
		x = r.Intn(20)
	}
	switch x {
	case 0, 1:
		t.exp = time.Unix(now.Unix()-1-int64([]int{0, r.Intn(60), r.Intn(1000), r.Intn(100000)}[r.Intn(4)]), 0)
		claims["exp"] = t.exp.Unix()
		bad("expired")
	case 2:
		delete(claims, "exp")
		bad("without expiry")
	case 3:
		claims["exp"] = []interface{}{"tomorrow", fmt.Sprint(t.exp.Unix()), true, nil, []int{1}}[r.Intn(5)]
		bad("odd expiry")
	case 4:
		claims["scope"] = []interface{}{"logs.admin", map[string]bool{"logs.admin": true}, 7, []int{1}}[r.Intn(4)]
		bad("odd scope")
	case 5, 6:
		alg = []string{"RS384", "RS512", "PS256", "HS256", "none"}[r.Intn(5)]
		head["alg"] = alg
		t.sealed = false
		bad("algorithm " + alg)
	case 7:
		head["alg"] = []interface{}{"rs256", "RS256 ", "ES256", "", "None", 256, nil, true, []string{"RS256"}, map[string]int{}}[r.Intn(10)]
		t.sealed = false
		bad("odd algorithm")
	case 8:
		delete(head, "alg")
		t.sealed = false
		bad("no algorithm")
	case 9:
		delete(head, "kid")
		t.sealed = false
		bad("no key id")
	case 10:
		head["kid"] = []interface{}{1, nil, true, []string{kid}, map[string]string{"kid": kid}, 1.5}[r.Intn(6)]
		t.sealed = false
		bad("odd key id")
	case 11:
		h = []string{"", "[]", "null", "7", "\"RS256\"", "{", "{}", "{\"alg\":\"RS256\"", "\x00", "{\"alg\":\"none\",\"kid\":\"" + kid + "\"}"}[r.Intn(10)]
		t.sealed = false
		bad("odd header")
	case 12:
		p = []string{"", "[]", "7", "{", "\"x\"", "\x00\xff", "{\"exp\":"}[r.Intn(7)]
		bad("odd claims")
	}
	if h == "" && t.what != "odd header" {
		h = quote(head)
	}
	if p == "" && t.what != "odd claims" {
		p = quote(claims)
	}
	t.text = g.sign(alg, signer, h, p)
	parts := strings.Split(t.text, ".")
	switch x {
	case 13: // raise yourself to admin
		claims["scope"] = []string{"logs.admin"}
		claims["user_id"] = "root"
		parts[1] = b64([]byte(quote(claims)))
		t.text, t.sealed = strings.Join(parts, "."), false
		bad("tampered claims")
	case 14: // a longer life
		claims["exp"] = now.Unix() + 1000000
		claims["x"] = 1
		parts[1] = b64([]byte(quote(claims)))
		t.text, t.sealed = strings.Join(parts, "."), false
		bad("tampered expiry")
	case 15: // another signature
		sig, _ := base64.RawURLEncoding.DecodeString(parts[2])
		sig[r.Intn(len(sig))] ^= byte(1 << uint(r.Intn(8)))
		parts[2] = b64(sig)
		t.text, t.sealed = strings.Join(parts, "."), false
		bad("tampered signature")
	case 16:
		t.text = []string{parts[0] + "." + parts[1] + ".", parts[0] + "." + parts[1], parts[0], ".", "..", "", "....", parts[0] + ".." + parts[2], t.text + ".x", t.text + "." + parts[1] + "." + parts[2], "bearer", "x.y.z", "\x00", strings.Repeat("a.", 300)}[r.Intn(14)]
		t.sealed = false
		bad("torn")
	case 17: // the header names another kid than the one it was signed with
		head["kid"] = kid + "x"
		parts[0] = b64([]byte(quote(head)))
		t.text, t.sealed, t.kid = strings.Join(parts, "."), false, kid+"x"
		bad("tampered key id")
	}
	if t.text != "" {
		t.text = []string{"", "bearer ", "Bearer ", "BEARER  ", "bearer\t"}[r.Intn(5)] + t.text
	}
	return t
}

// uaa is a fake UAA.
type uaa struct {
	r      *vk.R
	g      *ring
	mu     sync.Mutex
	keys   map[string]int // published
	mode   string
	asks   []time.Time
	known  map[string]int  // as last published to the client
	fuzzy  map[string]bool // kids of answers that are only partly good
	bodies []*body
	pause  func()
}

func (u *uaa) Do(q *http.Request) (*http.Response, error) {
	u.mu.Lock()
	u.asks = append(u.asks, time.Now())
	mode, pause := u.mode, u.pause
	if q.Method != "GET" || q.URL.String() != "https://uaa.internal/token_keys" {
		u.r.Violate("uaa-request", "the UAA is asked with %s %s", q.Method, q.URL)
	}
	u.mu.Unlock()
	if pause != nil {
		pause()
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	type k struct {
		Kid   string `json:"kid"`
		Value string `json:"value"`
		Alg   string `json:"alg"`
	}
	var l []k
	for _, kid := range vk.Sorted(u.keys) {
		l = append(l, k{kid, u.g.pems[u.keys[kid]], "RS256"})
	}
	code, text := 200, ""
	good := false
	switch mode {
	case "down":
		return nil, errors.New("connection refused")
	case "error":
		code, text = []int{500, 503, 404, 401, 302, 204}[len(u.asks)%6], quote(map[string]interface{}{"keys": l})
	case "garbage":
		text = []string{"", "<html>", "{\"keys\":[{\"kid\":1}]}", "{\"keys\":", "[]"}[len(u.asks)%5]
	case "poisoned":
		bad := []string{"", "no pem", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", ecPEM}[len(u.asks)%4]
		l = append(l, k{"poison", bad, "RS256"})
		i := len(u.asks) % len(l)
		l[i], l[len(l)-1] = l[len(l)-1], l[i]
		text = quote(map[string]interface{}{"keys": l})
		for kid := range u.keys {
			u.fuzzy[kid] = true
		}
	default:
		text = quote(map[string]interface{}{"keys": l})
		good = true
	}
	if good {
		u.known = map[string]int{}
		for kid, i := range u.keys {
			u.known[kid] = i
		}
		u.fuzzy = map[string]bool{}
	}
	b := newBody(text)
	u.bodies = append(u.bodies, b)
	return reply(code, b), nil
}

var ecPEM = func() string {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	b, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	must(err)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}()

func (u *uaa) count() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.asks)
}

func (u *uaa) snapshot() (known map[string]int, fuzzy map[string]bool, last time.Time, asks int) {
	u.mu.Lock()
	defer u.mu.Unlock()
	known, fuzzy = map[string]int{}, map[string]bool{}
	for k, v := range u.known {
		known[k] = v
	}
	for k := range u.fuzzy {
		fuzzy[k] = true
	}
	if len(u.asks) > 0 {
		last = u.asks[len(u.asks)-1]
	}
	return known, fuzzy, last, len(u.asks)
}

func newUAA(r *vk.R, g *ring) *uaa {
	return &uaa{r: r, g: g, keys: map[string]int{}, known: map[string]int{}, fuzzy: map[string]bool{}}
}

func (u *uaa) client(opts ...auth.UAAOption) *auth.UAAClient {
	return auth.NewUAAClient("https://uaa.internal", u, testhelpers.NewMetricsRegistry(), log.New(ioutil.Discard, "", 0), opts...)
}

// tokens: histories in virtual time.
func tokens(r *vk.R) {
	g := newRing(6)
	kids := []string{"key-1", "key-2", "legacy", ""}
	for k := 0; k < r.Scale(60, 600); k++ {
		k := k
		r.Bubble(func() {
			rnd := r.Rand("tokens", k)
			u := newUAA(r, g)
			limit := 30 * time.Second
			var opts []auth.UAAOption
			if rnd.Intn(2) == 0 {
				limit = time.Duration(1+rnd.Intn(120)) * time.Second
				opts = append(opts, auth.WithMinimumRefreshInterval(limit))
			}
			c := u.client(opts...)
			for n := 1 + rnd.Intn(3); n > 0; n-- {
				u.keys[kids[rnd.Intn(len(kids))]] = rnd.Intn(len(g.keys))
			}
			if rnd.Intn(3) > 0 {
				if err := c.RefreshTokenKeys(); err != nil {
					r.Violate("refresh", "history %d: the first refresh fails: %s", k, err)
				}
			}
			var accepted []ticket
			for step := 0; step < r.Scale(60, 150); step++ {
				name := fmt.Sprintf("history %d, step %d", k, step)
				switch rnd.Intn(10) {
				case 0, 1:
					time.Sleep(time.Duration(rnd.Int63n(int64(limit) * 3 / 2)))
				case 2:
					u.mu.Lock()
					kid := kids[rnd.Intn(len(kids))]
					if _, there := u.keys[kid]; there && len(u.keys) > 1 && rnd.Intn(2) == 0 {
						delete(u.keys, kid)
					} else {
						u.keys[kid] = rnd.Intn(len(g.keys))
					}
					u.mu.Unlock()
				case 3:
					u.mu.Lock()
					u.mode = []string{"", "", "", "", "down", "error", "garbage", "poisoned"}[rnd.Intn(8)]
					u.mu.Unlock()
				case 4:
					_, _, last, n := u.snapshot()
					c.RefreshTokenKeys()
					vk.Settle()
					if u.count() == n && (n == 0 || time.Since(last) >= limit) {
						r.Violate("never-asks", "%s: a refresh does not ask the UAA, %v after it was asked last", name, time.Since(last))
					}
				default:
					var t ticket
					if len(accepted) > 0 && rnd.Intn(5) == 0 {
						t = accepted[rnd.Intn(len(accepted))]
						t.what = "again: " + t.what
						if !time.Now().Before(t.exp) {
							t.sound, t.what = false, "expired since"
						}
					} else {
						// Mostly under a published key id and key.
						kid, signer := kids[rnd.Intn(len(kids))], rnd.Intn(len(g.keys))
						u.mu.Lock()
						if s, ok := u.keys[kid]; ok && rnd.Intn(4) > 0 {
							signer = s
						}
						u.mu.Unlock()
						t = issue(rnd, g, time.Now(), kid, signer)
					}
					before, fz, last, n := u.snapshot()
					now := time.Now()
					var ctx auth.Oauth2ClientContext
					var err error
					if !r.Safely("reading a token "+t.what+" "+quote(t.text), func() { ctx, err = c.Read(t.text) }) {
						continue
					}
					vk.Settle()
					after, fz2, _, n2 := u.snapshot()
					keys := before
					_, had := before[t.kid]
					if !had {
						keys = after
					}
					fits := false
					if s, ok := keys[t.kid]; ok && t.sealed && s == t.signer {
						fits = true
					}
					want := fits && t.sound
					r.Count("tokens: "+strings.TrimPrefix(t.what, "again: "), 1)
					if !(fz[t.kid] || fz2[t.kid]) {
						if err == nil && !want {
							r.Violate("accepted", "%s: accepted a token (%s, key id %q, signed by key %d) while the UAA last published %v: %s", name, t.what, t.kid, t.signer, keys, t.text)
						}
						if err != nil && want {
							r.Violate("refused", "%s: refused a token (%s, key id %q, signed by key %d) while the UAA last published %v: %s", name, t.what, t.kid, t.signer, keys, err)
						}
						may := n == 0 || now.Sub(last) >= limit
						if t.sealed && !fits && may && n2 == n {
							r.Violate("never-asks", "%s: a token of key id %q, signed by key %d, does not make the client ask the UAA again; it knows %v, asked last %v ago", name, t.kid, t.signer, before, now.Sub(last))
						}
					}
					if err == nil {
						if !t.sound || !t.sealed {
							r.Violate("accepted", "%s: accepted a token: %s: %s", name, t.what, t.text)
						}
						if ctx.IsAdmin != t.admin {
							r.Violate("admin", "%s: the admin role of a token is %v instead of %v: %s", name, ctx.IsAdmin, t.admin, t.text)
						}
						if ctx.Token != t.text || !ctx.ExpiresAt.Equal(t.exp) {
							r.Violate("context", "%s: token and expiry are %q and %v instead of %q and %v", name, ctx.Token, ctx.ExpiresAt, t.text, t.exp)
						}
						accepted = append(accepted, t)
						r.Count("accepted", 1)
					} else if ctx != (auth.Oauth2ClientContext{}) {
						r.Violate("context", "%s: a refused token yields %+v", name, ctx)
					}
					r.Eval(fmt.Sprintf("%s %v %v", t.what, had, err == nil), !t.sound || err != nil || n2 > n)
				}
			}
			vk.Settle()
			u.mu.Lock()
			for i := 1; i < len(u.asks); i++ {
				if d := u.asks[i].Sub(u.asks[i-1]); d < limit {
					r.Violate("refresh-limit", "history %d: the UAA is asked twice within %v; the limit is %v", k, d, limit)
				}
			}
			for i, b := range u.bodies {
				if _, closed := b.state(); !closed {
					r.Violate("body", "history %d: the body of answer %d of the UAA is never closed", k, i)
					break
				}
			}
			r.Count("UAA requests", len(u.asks))
			u.mu.Unlock()
		})
	}
}

// concurrentReads: many tokens at once.
func concurrentReads(r *vk.R) {
	g := newRing(4)
	for k := 0; k < r.Scale(30, 300); k++ {
		rnd := r.Rand("concurrent", k)
		u := newUAA(r, g)
		u.keys = map[string]int{"key-1": 0, "key-2": 1}
		u.pause = func() { time.Sleep(time.Duration(1+k%5) * time.Millisecond) }
		// The client may ask once: it has not, or long ago.
		c := u.client(auth.WithMinimumRefreshInterval(time.Hour))
		type job struct {
			t    ticket
			want bool
		}
		var jobs []job
		now := time.Now()
		for i := 0; i < 40; i++ {
			kid, signer := []string{"key-1", "key-2", "key-3"}[rnd.Intn(3)], rnd.Intn(3)
			if s, ok := u.keys[kid]; ok && rnd.Intn(3) > 0 {
				signer = s
			}
			t := issue(rnd, g, now, kid, signer)
			if t.sound {
				t.exp = now.Add(time.Hour)
				t.text = g.sign("RS256", signer, quote(map[string]string{"alg": "RS256", "kid": kid}), quote(map[string]interface{}{"exp": t.exp.Unix(), "scope": []string{"x"}, "n": i}))
				t.admin = false
			}
			s, ok := u.keys[kid]
			jobs = append(jobs, job{t, t.sound && ok && s == t.signer})
		}
		var wg sync.WaitGroup
		gate := make(chan bool)
		for i := range jobs {
			j := jobs[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				r.Safely("reading a token "+quote(j.t.text), func() {
					ctx, err := c.Read(j.t.text)
					if (err == nil) != j.want {
						r.Violate("concurrent-verdict", "run %d: a token (%s, key id %q, key %d) read beside others: accepted is %v, should be %v: %v", k, j.t.what, j.t.kid, j.t.signer, err == nil, j.want, err)
					}
					if err == nil && (ctx.Token != j.t.text || ctx.IsAdmin) {
						r.Violate("context", "run %d: a token read beside others yields %+v", k, ctx)
					}
				})
			}()
		}
		close(gate)
		wg.Wait()
		if n := u.count(); n != 1 {
			r.Violate("refresh-limit", "run %d: %d concurrent reads ask the UAA %d times within the refresh interval", k, len(jobs), n)
		}
		r.Count("concurrent reads", len(jobs))
		r.Eval(fmt.Sprint("concurrent ", k), true)
	}
}
