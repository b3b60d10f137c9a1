package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

// body notes whether it was closed, and can break in the middle.
type body struct {
	io.Reader
	closed int32
	onEnd  func()
}

func (b *body) Close() error {
	if atomic.AddInt32(&b.closed, 1) == 1 && b.onEnd != nil {
		b.onEnd()
	}
	return nil
}

type brokenReader struct{ r io.Reader }

func (b brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func c31() vk.Check {
	return vk.Check{
		Rule: "generated sequences of requests with scripted token-server and server answers, and concurrent ones under the race detector, checked against a model of the token cache; non-trivial: at least one token was reused or refetched",
		Assumptions: []string{
			"a response outside 2xx is what says that a token is no longer good; a transport error says nothing",
			"under concurrency a response may invalidate a token fetched meanwhile",
		},
		Parts: []vk.Part{
			{Name: "sequences", Run: oauthSequences},
			{Name: "concurrent", Run: oauthConcurrent},
		},
	}
}

type oauthStep struct {
	HasOwn bool   // has an Authorization header of its own
	Own    string // that header
	Status int    // answer of the server; 0: transport error
	Token  string // what the token server does, if asked
}

func oauthSequences(r *vk.R) {
	for i := 0; i < r.Scale(6000, 120000) && r.Violations() < 20; i++ {
		rnd := r.Rand("o", i)
		user := rnd.Intn(2) == 0
		id, secret := []string{"client", "c id", "cf&x=1", "ü"}[rnd.Intn(4)], []string{"secret", "s e:c/ret", "", "p%40@?#"}[rnd.Intn(4)]
		name, pass := []string{"user", "u ser@x", "a&b"}[rnd.Intn(3)], []string{"pw", "", "p&w=1 +"}[rnd.Intn(3)]
		typ := []string{"bearer", "Bearer", "BEARER", "mac"}[rnd.Intn(4)]
		var steps []oauthStep
		for k := 1 + rnd.Intn(15); k > 0; k-- {
			s := oauthStep{Status: []int{200, 200, 200, 200, 201, 204, 299, 301, 304, 400, 401, 403, 404, 500, 503, 0}[rnd.Intn(16)]}
			if rnd.Intn(6) == 0 {
				s.HasOwn, s.Own = true, []string{"bearer own", "basic abc", "", " ", "x"}[rnd.Intn(5)]
			}
			s.Token = []string{"ok", "ok", "ok", "ok", "ok", "transport", "500", "401", "404", "302", "garbage", "empty", "truncated", "array", "broken", "no-token"}[rnd.Intn(16)]
			steps = append(steps, s)
		}
		r.Case(map[string]interface{}{"user": user, "client": id, "secret": secret, "name": name, "pass": pass, "type": typ, "steps": steps})

		var open int
		fetches, current := 0, ""
		var cur *oauthStep
		mayFetch, fetched, sent := false, 0, 0
		var downstream string
		hc := doerFunc(func(req *http.Request) (*http.Response, error) {
			if req.URL.Host == "uaa.example" {
				fetches++
				fetched++
				if !mayFetch {
					r.Violate("needless-fetch", "a token was fetched although a good one was at hand")
				}
				checkTokenRequest(r, req, user, id, secret, name, pass)
				return tokenAnswer(cur.Token, typ, fetches, &open)
			}
			sent++
			downstream = req.Header.Get("Authorization")
			if len(req.Header["Authorization"]) != 1 {
				r.Violate("auth-header-count", "%d Authorization headers", len(req.Header["Authorization"]))
			}
			if cur.Status == 0 {
				return nil, errTransport
			}
			return &http.Response{StatusCode: cur.Status, Body: &body{Reader: strings.NewReader("hello")}}, nil
		})
		opts := []client.Oauth2Option{client.WithOauth2HTTPClient(hc)}
		if user {
			opts = append(opts, client.WithOauth2HTTPUser(name, pass))
		}
		oc := client.NewOauth2HTTPClient("https://uaa.example", id, secret, opts...)
		reuse, refetch := 0, 0
		ok := r.Safely("Do", func() {
			for k := range steps {
				cur = &steps[k]
				req, _ := http.NewRequest("GET", fmt.Sprintf("https://log-cache.example/api/v1/meta?n=%d", k), nil)
				if cur.HasOwn {
					req.Header.Set("Authorization", cur.Own)
				}
				mayFetch = !cur.HasOwn && current == ""
				fetched, sent, downstream = 0, 0, ""
				hadToken := current
				resp, err := oc.Do(req)
				if cur.HasOwn {
					if sent != 1 || downstream != cur.Own {
						r.Violate("own-header", "a request with its own Authorization %q was sent %d times with %q", cur.Own, sent, downstream)
					}
				} else if hadToken == "" {
					if fetched != 1 {
						r.Violate("no-fetch", "step %d: no good token at hand and %d were fetched", k, fetched)
						return
					}
					refetch++
					if cur.Token != "ok" {
						if err == nil || resp != nil || sent != 0 {
							r.Violate("bad-token-used:"+cur.Token, "step %d: the token server answered %q, but %d requests were sent (err=%v, Authorization %q)", k, cur.Token, sent, err, downstream)
							return
						}
						continue
					}
					current = typ + " " + tok(fetches)
				} else {
					reuse++
				}
				if !cur.HasOwn {
					if sent != 1 || downstream != current {
						r.Violate("wrong-token", "step %d: sent %d times with %q, want once with %q", k, sent, downstream, current)
						return
					}
				}
				if cur.Status == 0 {
					if err != errTransport && !errors.Is(err, errTransport) {
						r.Violate("transport-error", "a transport error came back as %v", err)
					}
					continue
				}
				if err != nil || resp == nil || resp.StatusCode != cur.Status {
					r.Violate("response", "the response (status %d) came back as %v, %v", cur.Status, resp, err)
					return
				}
				if b := resp.Body.(*body); atomic.LoadInt32(&b.closed) != 0 {
					r.Violate("body-closed", "the response's body was closed before the caller got it")
				}
				if !cur.HasOwn && (cur.Status < 200 || cur.Status > 299) {
					current = ""
				}
			}
		})
		if ok && open != 0 {
			r.Violate("token-body-open", "%d token responses were not closed", open)
		}
		r.Count("token_fetches", fetches)
		r.Count("token_reuses", reuse)
		r.Eval(fmt.Sprint(user, id, secret, name, pass, steps), reuse > 0 || refetch > 1)
	}
}

var errTransport = errors.New("no route")

type doerFunc func(*http.Request) (*http.Response, error)

func (f doerFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

func checkTokenRequest(r *vk.R, req *http.Request, user bool, id, secret, name, pass string) {
	if req.Method != "POST" || req.URL.Path != "/oauth/token" || req.URL.Scheme != "https" {
		r.Violate("token-request", "token request %s %s", req.Method, req.URL)
	}
	if ct := req.Header.Get("Content-Type"); ct != "application/x-www-form-urlencoded" {
		r.Violate("token-request", "token request with Content-Type %q", ct)
	}
	var b []byte
	if req.Body != nil {
		b, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	f, err := url.ParseQuery(string(b))
	if err != nil {
		r.Violate("token-request", "token request with body %q", b)
		return
	}
	// Client credentials go by basic authentication, either way of setting it.
	bu, bp, _ := req.BasicAuth()
	if req.URL.User != nil {
		bu = req.URL.User.Username()
		bp, _ = req.URL.User.Password()
	}
	if user {
		want := url.Values{"grant_type": {"password"}, "client_id": {id}, "client_secret": {secret}, "username": {name}, "password": {pass}}
		if f.Encode() != want.Encode() {
			r.Violate("token-credentials", "token request %q, want %q", f.Encode(), want.Encode())
		}
		return
	}
	if f.Get("grant_type") != "client_credentials" || f.Get("client_id") != id {
		r.Violate("token-credentials", "token request %q for client %q", f.Encode(), id)
	}
	if bu != id || bp != secret {
		r.Violate("token-credentials", "token request authenticates as %q/%q, configured %q/%q", bu, bp, id, secret)
	}
}

// tok is the n-th token; some are long, as those with many scopes.
func tok(n int) string {
	s := fmt.Sprintf("tok-%d", n)
	if n%5 == 2 {
		s += strings.Repeat(".eyJzY29w", 100<<uint(n%4))
	}
	return s
}

func tokenAnswer(kind, typ string, n int, open *int) (*http.Response, error) {
	b, _ := json.Marshal(map[string]interface{}{"token_type": typ, "access_token": tok(n), "expires_in": 1000})
	status := 200
	var rd io.Reader = bytes.NewReader(b)
	switch kind {
	case "transport":
		return nil, errTransport
	case "500", "401", "404", "302":
		fmt.Sscan(kind, &status)
	case "garbage":
		rd = strings.NewReader("<html>")
	case "empty":
		rd = strings.NewReader("")
	case "truncated":
		rd = bytes.NewReader(b[:len(b)-5])
	case "array":
		rd = strings.NewReader(`["bearer","x"]`)
	case "broken":
		rd = brokenReader{bytes.NewReader(b[:len(b)/2])}
	case "no-token":
		rd = strings.NewReader(`{"error":"temporarily unavailable"}`)
	}
	*open++
	return &http.Response{StatusCode: status, Body: &body{Reader: rd, onEnd: func() { *open-- }}}, nil
}

// oauthConcurrent: many requests at once against a token server whose tokens go
// bad. Every request carries a token that was issued; a fetch happens only when
// there was none or a response had said that the token is bad.
func oauthConcurrent(r *vk.R) {
	for i := 0; i < r.Scale(60, 1500) && r.Violations() < 20; i++ {
		rnd := r.Rand("c", i)
		user := rnd.Intn(2) == 0
		workers, per := 2+rnd.Intn(12), 5+rnd.Intn(20)
		badRate := []int{0, 3, 10, 50}[rnd.Intn(4)]
		var mu sync.Mutex
		issued := map[string]bool{}
		fetches, nonOK, openTok := 0, 0, 0
		// revokedBefore: tokens whose failing response had been returned to a caller
		dead := map[string]bool{}
		rnds := rand.New(rand.NewSource(rnd.Int63()))
		hc := doerFunc(func(req *http.Request) (*http.Response, error) {
			if req.URL.Host == "uaa.example" {
				if req.Body != nil {
					io.Copy(io.Discard, req.Body)
				}
				mu.Lock()
				fetches++
				n := fetches
				issued["bearer "+tok(n)] = true
				openTok++
				d := time.Duration(rnds.Intn(300)) * time.Microsecond
				mu.Unlock()
				time.Sleep(d)
				return &http.Response{StatusCode: 200, Body: &body{Reader: strings.NewReader(fmt.Sprintf(`{"token_type":"bearer","access_token":%q}`, tok(n))), onEnd: func() { mu.Lock(); openTok--; mu.Unlock() }}}, nil
			}
			mu.Lock()
			tok := req.Header.Get("Authorization")
			if !issued[tok] {
				r.Violate("token-not-issued", "a request carries %q, which the token server never issued", tok)
			}
			st := 200
			if badRate > 0 && rnds.Intn(100) < badRate {
				st = 401
				nonOK++
			}
			d := time.Duration(rnds.Intn(200)) * time.Microsecond
			mu.Unlock()
			time.Sleep(d)
			return &http.Response{StatusCode: st, Header: http.Header{"X-Tok": {tok}}, Body: &body{Reader: strings.NewReader("")}}, nil
		})
		opts := []client.Oauth2Option{client.WithOauth2HTTPClient(hc)}
		if user {
			opts = append(opts, client.WithOauth2HTTPUser("u", "p"))
		}
		oc := client.NewOauth2HTTPClient("https://uaa.example", "id", "secret", opts...)
		r.Case(map[string]interface{}{"workers": workers, "per": per, "bad_rate": badRate, "user": user})
		r.Within("Oauth2HTTPClient.Do", 2*time.Minute, func() {
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < per; k++ {
						mu.Lock()
						deadNow := map[string]bool{}
						for t := range dead {
							deadNow[t] = true
						}
						mu.Unlock()
						req, _ := http.NewRequest("GET", "https://log-cache.example/x", nil)
						resp, err := oc.Do(req)
						if err != nil {
							r.Violate("concurrent-error", "%v", err)
							return
						}
						tok := resp.Header.Get("X-Tok")
						if deadNow[tok] {
							r.Violate("dead-token", "a request was sent with %q after a response to that token had failed", tok)
						}
						if resp.StatusCode != 200 {
							mu.Lock()
							dead[tok] = true
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
		})
		mu.Lock()
		if fetches > 1+nonOK {
			r.Violate("too-many-fetches", "%d tokens were fetched for %d failed responses", fetches, nonOK)
		}
		if openTok != 0 {
			r.Violate("token-body-open", "%d token responses were not closed", openTok)
		}
		r.Count("concurrent_requests", workers*per)
		r.Count("concurrent_fetches", fetches)
		r.Count("concurrent_failures", nonOK)
		mu.Unlock()
		r.Eval(fmt.Sprint(i, workers, per, badRate), badRate > 0 || workers > 2)
	}
}
