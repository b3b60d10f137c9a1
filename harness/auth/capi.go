package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net/http"
	"net/url"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/verif/vk"
)

type app struct{ guid, name string }

// grants are what the Cloud Controller lists for a token.
type grants struct {
	apps     []app
	services []string
}

func (g grants) ids() []string {
	var l []string
	for _, a := range g.apps {
		l = append(l, a.guid)
	}
	return append(l, g.services...)
}

// listing is one walk over the pages of a resource.
type listing struct {
	token string
	path  string
	names string
	got   []app
	next  string // the link to the page that is due; "" when it is complete
	bad   bool
	at    time.Time
}

// capi is a fake Cloud Controller.
type capi struct {
	r      *vk.R
	mu     sync.Mutex
	rnd    *rand.Rand
	grants map[string]grants
	page   int // resources per page
	fail   int // per cent of requests that fail
	slow   bool
	lists  []*listing
	from   int // the first listing of the call that goes on
	reqs   int
	firsts int // listings of all apps that were begun
	pages  int
	faults int
	bodies []*body
	name   string
	loose  bool // concurrent callers: listings are not tracked
}

const capiHost = "capi.internal"

func (c *capi) Do(q *http.Request) (*http.Response, error) {
	c.mu.Lock()
	slow := time.Duration(0)
	if c.slow && c.rnd.Intn(3) == 0 {
		slow = time.Duration(c.rnd.Intn(4000)) * time.Millisecond
	}
	c.mu.Unlock()
	if slow > 0 {
		time.Sleep(slow)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reqs++
	v := func(sig, f string, a ...interface{}) { c.r.Violate(sig, c.name+": "+f, a...) }
	if q.URL == nil {
		v("capi-request", "the Cloud Controller is asked for no URL")
		return nil, errors.New("http: nil Request.URL")
	}
	token := q.Header.Get("Authorization")
	if q.URL.Host != capiHost || q.URL.Scheme != "https" || q.Host != "" && q.Host != capiHost {
		v("elsewhere", "a request with the token of a caller goes to %s", q.URL)
	}
	g, known := c.grants[token]
	if !known || len(q.Header["Authorization"]) != 1 {
		v("token", "a request carries %q, no caller's token", q.Header["Authorization"])
	}
	if q.Method != "GET" || q.Body != nil && q.Body != http.NoBody {
		v("request", "a request is %s %s", q.Method, q.URL)
	}
	var all []app
	switch q.URL.Path {
	case "/v3/apps":
		all = g.apps
	case "/v3/service_instances":
		for _, s := range g.services {
			all = append(all, app{s, "service-" + s})
		}
	default:
		v("request", "a request for %s", q.URL)
	}
	qs := q.URL.Query()
	if n := qs.Get("names"); n != "" {
		want := map[string]bool{}
		for _, x := range strings.Split(n, ",") {
			want[x] = true
		}
		var l []app
		for _, a := range all {
			if want[a.name] {
				l = append(l, a)
			}
		}
		all = l
	}
	from, _ := strconv.Atoi(qs.Get("from"))
	if from == 0 && q.URL.Path == "/v3/apps" && qs.Get("names") == "" {
		c.firsts++
	}
	to := from + c.page
	if to > len(all) {
		to = len(all)
	}
	if from > to {
		from = to
	}
	// The walk this request belongs to.
	var l *listing
	if !c.loose {
		// Listings of different resources may go on side by side.
		var due []string
		for _, o := range c.lists[c.from:] {
			if o.next == "" || o.bad {
				continue
			}
			due = append(due, o.next)
			if l == nil && o.token == token && o.next == q.URL.RequestURI() {
				l = o
			}
		}
		if l == nil {
			if from != 0 {
				v("pages", "the client asks for %s; the pages that are due: %q", q.URL.RequestURI(), due)
			}
			l = &listing{token: token, path: q.URL.Path, names: qs.Get("names")}
			c.lists = append(c.lists, l)
		}
	} else {
		l = &listing{}
	}
	l.at = time.Now()
	l.next = ""
	c.pages++
	if c.rnd.Intn(100) < c.fail {
		l.bad = true
		c.faults++
		switch c.rnd.Intn(4) {
		case 0:
			return nil, errors.New("connection reset")
		case 1:
			b := newBody(strings.Repeat("sorry ", c.rnd.Intn(2000)))
			c.bodies = append(c.bodies, b)
			return reply([]int{500, 502, 401, 403, 404, 429, 201, 302}[c.rnd.Intn(8)], b), nil
		case 2:
			b := newBody([]string{"", "<html>", "[]", "{\"resources\":7}", "{\"resources\":[{\"guid\":1}]}", "{\"resources\":[{\"guid\":\"trap\"}"}[c.rnd.Intn(6)])
			c.bodies = append(c.bodies, b)
			return reply(200, b), nil
		case 3: // a good answer with a bad status
			b := newBody(quote(map[string]interface{}{"resources": []map[string]string{{"guid": "trap", "name": "trap"}}}))
			c.bodies = append(c.bodies, b)
			return reply(500, b), nil
		}
	}
	type res struct {
		Guid string `json:"guid"`
		Name string `json:"name,omitempty"`
		Type string `json:"type"`
	}
	rs := []res{}
	for _, a := range all[from:to] {
		rs = append(rs, res{a.guid, a.name, "x"})
	}
	l.got = append(l.got, all[from:to]...)
	doc := map[string]interface{}{"resources": rs}
	var next interface{}
	if to < len(all) || c.rnd.Intn(10) == 0 && from < to {
		n := url.Values{"from": {fmt.Sprint(to)}, "per_page": {"50"}}
		if x := qs.Get("names"); x != "" {
			n.Set("names", x)
		}
		l.next = q.URL.Path + "?" + n.Encode()
		host := []string{"https://" + capiHost, "http://" + capiHost, "https://api.example.com", "", "https://evil.example.com:8443", "//evil.example.com"}[c.rnd.Intn(6)]
		next = map[string]string{"href": host + l.next}
	}
	doc["pagination"] = map[string]interface{}{"total_results": len(all), "next": next}
	b := newBody(quote(doc) + []string{"", "\n", "  \n" + strings.Repeat(" ", c.rnd.Intn(10000))}[c.rnd.Intn(3)])
	c.bodies = append(c.bodies, b)
	return reply(200, b), nil
}

// tidy judges the bodies of all answers so far.
func (c *capi) tidy() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, b := range c.bodies {
		read, closed := b.state()
		if !read || !closed {
			c.r.Violate("body", "%s: the body of an answer: read to its end %v, closed %v (answer %d)", c.name, read, closed, i)
			return
		}
	}
	c.bodies = nil
}

// since returns the listings from the n-th on; the walk must be over.
func (c *capi) since(n int) []*listing {
	c.mu.Lock()
	defer c.mu.Unlock()
	bad := false
	for _, l := range c.lists[n:] {
		bad = bad || l.bad
	}
	for _, l := range c.lists[n:] {
		if l.next != "" && !bad {
			c.r.Violate("pages", "%s: a listing of %s stops before its last page", c.name, l.path)
		}
	}
	return append([]*listing{}, c.lists[n:]...)
}

func (c *capi) count() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.from = len(c.lists)
	return c.from
}

// sources is what a full listing (apps, then service instances) said; ok is
// false when it failed.
func (c *capi) sources(ls []*listing, token string) (ids []string, ok bool) {
	seen := map[string]bool{}
	bad := false
	for _, l := range ls {
		if l.token != token {
			c.r.Violate("token", "%s: a listing for %q is made with the token %q", c.name, token, l.token)
		}
		if l.names != "" || seen[l.path] {
			c.r.Violate("listings", "%s: one look at the sources of a token lists %s twice or by name (%q)", c.name, l.path, l.names)
		}
		seen[l.path] = true
		bad = bad || l.bad
		for _, a := range l.got {
			ids = append(ids, a.guid)
		}
	}
	if bad {
		return nil, false
	}
	if !seen["/v3/apps"] || !seen["/v3/service_instances"] {
		c.r.Violate("listings", "%s: one look at the sources of a token lists only %v", c.name, vk.Sorted(seen))
		return nil, false
	}
	return ids, true
}

func set(l []string) string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return fmt.Sprint(vk.Sorted(m))
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var guids = func() []string {
	var l []string
	for i := 0; i < 30; i++ {
		l = append(l, fmt.Sprintf("guid-%02d", i))
	}
	return append(l, "doppler", "", "GUID-01", "guid-0")
}()

var appNames = []string{"web", "worker", "db", "my app", "a", "b", "web-green", "ünï"}

// grant draws what a token may see.
func grant(r *rand.Rand) grants {
	var g grants
	n := []int{0, 1, 3, 10, 20}[r.Intn(5)]
	for _, i := range r.Perm(len(guids))[:n] {
		if r.Intn(4) == 0 {
			g.services = append(g.services, guids[i])
		} else {
			g.apps = append(g.apps, app{guids[i], appNames[r.Intn(len(appNames))]})
		}
	}
	return g
}

// capiHistories: one caller at a time, in virtual time.
func capiHistories(r *vk.R) {
	r.Bubble(func() {
		for k := 0; k < r.Scale(150, 1000); k++ {
			rnd := r.Rand("capi", k)
			c := &capi{r: r, rnd: rand.New(rand.NewSource(rnd.Int63())), grants: map[string]grants{}, page: 1 + rnd.Intn(6), name: fmt.Sprint("history ", k)}
			keep, prune := time.Minute, time.Minute
			var opts []auth.CAPIOption
			if rnd.Intn(2) == 0 {
				keep = time.Duration(1+rnd.Intn(100)) * time.Second
				opts = append(opts, auth.WithCacheExpirationInterval(keep))
			}
			if rnd.Intn(2) == 0 {
				prune = time.Duration(1+rnd.Intn(100)) * time.Second
				opts = append(opts, auth.WithTokenPruningInterval(prune))
			}
			cl := auth.NewCAPIClient("https://"+capiHost, c, testhelpers.NewMetricsRegistry(), log.New(ioutil.Discard, "", 0), opts...)
			tokens := []string{"bearer one", "bearer two", "bearer one ", "Bearer one", ""}
			for _, t := range tokens {
				c.grants[t] = grant(rnd)
			}
			// What a token's sources were, when the Cloud Controller said so and
			// how often it was asked again.
			type entry struct {
				ids   []string
				at    time.Time
				again int
			}
			cache := map[string]*entry{}
			for step := 0; step < r.Scale(60, 150); step++ {
				name := fmt.Sprintf("history %d, step %d", k, step)
				token := tokens[rnd.Intn(len(tokens))]
				n := c.count()
				switch x := rnd.Intn(12); x {
				case 0:
					time.Sleep(time.Duration(rnd.Int63n(int64(keep) * 5 / 4)))
				case 1:
					c.mu.Lock()
					c.grants[token] = grant(rnd)
					c.mu.Unlock()
				case 2:
					c.mu.Lock()
					c.fail = []int{0, 0, 0, 0, 10, 50, 100}[rnd.Intn(7)]
					c.slow = rnd.Intn(4) == 0
					c.page = 1 + rnd.Intn(6)
					c.mu.Unlock()
				case 3:
					got := cl.AvailableSourceIDs(token)
					ls := c.since(n)
					want, ok := c.sources(ls, token)
					if !ok && len(got) > 0 {
						r.Violate("fails-open", "%s: although the Cloud Controller fails, %v are available", name, got)
					}
					if ok && set(got) != set(want) {
						r.Violate("available", "%s: the available sources are %s, the Cloud Controller listed %s", name, set(got), set(want))
					}
					r.Eval(fmt.Sprintf("available %d pages=%d ok=%v", k, c.pages, ok), true)
				case 4, 5:
					var names []string
					for _, i := range rnd.Perm(len(appNames))[:rnd.Intn(4)] {
						names = append(names, appNames[i])
					}
					if rnd.Intn(15) == 0 {
						for i := rnd.Intn(150); i > 0; i-- {
							names = append(names, fmt.Sprint("other-", i))
						}
					}
					got := cl.GetRelatedSourceIds(names, token)
					ls := c.since(n)
					want := map[string][]string{}
					bad := false
					for _, l := range ls {
						bad = bad || l.bad
						if l.token != token || l.path != "/v3/apps" {
							r.Violate("token", "%s: the apps of %q are looked up in %s with the token %q", name, token, l.path, l.token)
						}
						ask := strings.Split(l.names, ",")
						sort.Strings(ask)
						w := append([]string{}, names...)
						sort.Strings(w)
						if fmt.Sprint(ask) != fmt.Sprint(w) {
							r.Violate("names", "%s: looking up %q asks for %q", name, names, l.names)
						}
						for _, a := range l.got {
							want[a.name] = append(want[a.name], a.guid)
						}
					}
					if len(names) > 0 && len(ls) != 1 {
						r.Violate("listings", "%s: looking up %q makes %d listings", name, names, len(ls))
					}
					if bad {
						want = map[string][]string{}
					}
					for _, a := range vk.Sorted(got) {
						if set(got[a]) != set(want[a]) {
							r.Violate("related", "%s: the app %q has sources %s, the Cloud Controller listed %s (failing: %v)", name, a, set(got[a]), set(want[a]), bad)
						}
					}
					for _, a := range vk.Sorted(want) {
						if len(got[a]) == 0 {
							r.Violate("related", "%s: the app %q has no sources, the Cloud Controller listed %s", name, a, set(want[a]))
						}
					}
					if got == nil {
						r.Violate("related", "%s: looking up %q yields nil", name, names)
					}
					r.Eval(fmt.Sprintf("related %d %v", len(got), bad), true)
				case 6:
					// Expired tokens do not stay.
					live := 0
					now := time.Now()
					for _, t := range vk.Sorted(cache) {
						if !now.After(cache[t].at.Add(keep + prune)) {
							live++
						}
					}
					if s := cl.TokenCacheSize(); s > live {
						r.Violate("stays", "%s: %d tokens are cached; only %d were asked about within the cache time (%v) and the pruning interval (%v)", name, s, live, keep, prune)
					}
				default:
					src := guids[rnd.Intn(len(guids))]
					if g := c.grants[token].ids(); len(g) > 0 && rnd.Intn(2) == 0 {
						src = g[rnd.Intn(len(g))]
					}
					now := time.Now()
					got := cl.IsAuthorized(src, token)
					ls := c.since(n)
					e := cache[token]
					fresh := e != nil && now.Before(e.at.Add(keep))
					if len(ls) > 0 {
						ids, _ := c.sources(ls, token)
						again := 0
						if fresh {
							again = e.again + 1
							if contains(e.ids, src) {
								// Asking although it is known is no harm; what was just
								// listed counts.
								again = e.again
							} else if again > 3 {
								r.Violate("asks-on", "%s: a source the token does not have makes the client list the sources again, %d times within the cache time", name, again)
							}
						}
						e = &entry{ids, time.Now(), again}
						cache[token] = e
						if got != contains(ids, src) {
							r.Violate("verdict", "%s: source %q of token %q is authorised: %v; the Cloud Controller just listed %v", name, src, token, got, ids)
						}
						r.Eval(fmt.Sprintf("asked %v again=%d", got, again), true)
					} else {
						switch {
						case !fresh && e == nil:
							r.Violate("verdict", "%s: source %q of token %q is authorised: %v, without the Cloud Controller ever being asked", name, src, token, got)
						case !fresh:
							r.Violate("stale", "%s: source %q of token %q is authorised: %v, by a listing %v old; the cache time is %v", name, src, token, got, now.Sub(e.at), keep)
						case got != contains(e.ids, src):
							r.Violate("verdict", "%s: source %q of token %q is authorised: %v; %v ago the Cloud Controller listed %v", name, src, token, got, now.Sub(e.at), e.ids)
						case !got && e.again < 3:
							r.Violate("not-asked", "%s: source %q of token %q is refused without asking again; the Cloud Controller was asked again only %d times", name, src, token, e.again)
						}
						r.Eval(fmt.Sprintf("cached %v", got), true)
					}
				}
				c.tidy()
			}
			time.Sleep(keep + prune + time.Second)
			if s := cl.TokenCacheSize(); s != 0 {
				r.Violate("stays", "history %d: %d tokens are still cached after the cache time and the pruning interval", k, s)
			}
			r.Count("listings", len(c.lists))
			r.Count("pages", c.pages)
			r.Count("failing requests", c.faults)
		}
		// The pruning goroutines never end.
		r.Finish()
	})
}

// capiConcurrent: many callers with tokens of their own; grants do not change.
func capiConcurrent(r *vk.R) {
	for k := 0; k < r.Scale(12, 100); k++ {
		rnd := r.Rand("capi-concurrent", k)
		c := &capi{r: r, rnd: rand.New(rand.NewSource(rnd.Int63())), grants: map[string]grants{}, page: 1 + rnd.Intn(5), name: fmt.Sprint("run ", k), loose: true}
		if k%3 == 2 {
			c.fail = 10
		}
		cl := auth.NewCAPIClient("https://"+capiHost, c, testhelpers.NewMetricsRegistry(), log.New(ioutil.Discard, "", 0),
			auth.WithCacheExpirationInterval(time.Duration(1+rnd.Intn(20))*time.Millisecond), auth.WithTokenPruningInterval(time.Millisecond))
		var tokens []string
		for i := 0; i < 6; i++ {
			t := fmt.Sprint("bearer ", i)
			tokens = append(tokens, t)
			c.grants[t] = grant(rnd)
		}
		var wg sync.WaitGroup
		for w := 0; w < 12; w++ {
			rnd := rand.New(rand.NewSource(rnd.Int63()))
			token := tokens[w%len(tokens)]
			g := c.grants[token]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					switch rnd.Intn(6) {
					case 0:
						got := cl.AvailableSourceIDs(token)
						if set(got) != set(g.ids()) && !(c.fail > 0 && len(got) == 0) {
							r.Violate("concurrent", "run %d: the sources of a token are %s instead of %s", k, set(got), set(g.ids()))
						}
					case 1:
						n := appNames[rnd.Intn(len(appNames))]
						var want []string
						for _, a := range g.apps {
							if a.name == n {
								want = append(want, a.guid)
							}
						}
						got := cl.GetRelatedSourceIds([]string{n}, token)[n]
						if set(got) != set(want) && !(c.fail > 0 && len(got) == 0) {
							r.Violate("concurrent", "run %d: the app %q has sources %s instead of %s", k, n, set(got), set(want))
						}
					default:
						src := guids[rnd.Intn(len(guids))]
						if l := g.ids(); len(l) > 0 && rnd.Intn(2) == 0 {
							src = l[rnd.Intn(len(l))]
						}
						got, want := cl.IsAuthorized(src, token), contains(g.ids(), src)
						if got && !want || !got && want && c.fail == 0 {
							r.Violate("concurrent", "run %d: source %q of token %q is authorised: %v", k, src, token, got)
						}
						cl.TokenCacheSize()
					}
					r.Count("concurrent calls", 1)
				}
			}()
		}
		wg.Wait()
		c.tidy()
		r.Eval(fmt.Sprint("concurrent ", k), true)
	}
}

// capiCommand: the cache time the real command is told is the one that goes,
// whatever it is told of how often to look for old entries.
func capiCommand(r *vk.R) {
	rnd := r.Rand("capi-command", 0)
	var wg sync.WaitGroup
	run := func(dir string, f func(h *house, c *caller, ask func(id string) int), env ...string) {
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			h, stop := launch(r, rnd, filepath.Join(r.Scratch, dir), env...)
			defer stop()
			c := h.callersUntil(rnd, 2, time.Now().Add(time.Hour))[1] // no admin
			f(h, c, func(id string) int {
				code, _ := h.send("GET", head(rnd, "GET", "/api/v1/read/"+id, c.token)+"\r\n")
				r.Eval(fmt.Sprintf("%s: read of %s", strings.Join(env, " "), id), true)
				r.Count("requests to the command", 1)
				return code
			})
		}()
	}
	set := func(h *house, c *caller, ids ...string) {
		g := grants{services: ids}
		h.cc.mu.Lock()
		h.cc.grants[c.token] = g
		h.cc.mu.Unlock()
	}
	run("short.log", func(h *house, c *caller, ask func(string) int) {
		for i := 0; i < r.Scale(3, 10); i++ {
			set(h, c, "guid-01", "guid-02")
			time.Sleep(2500 * time.Millisecond)
			if code := ask("guid-01"); code != 200 {
				r.Violate("command-refused", "cmd/cf-auth-proxy with a cache time of 2 s answers %d for a source the Cloud Controller has listed for longer than that", code)
			}
			set(h, c, "guid-02")
			time.Sleep(2500 * time.Millisecond)
			if code := ask("guid-01"); code == 200 {
				r.Violate("command-stale", "cmd/cf-auth-proxy with a cache time of 2 s answers 200 for a source that the Cloud Controller stopped listing 2.5 s before")
			}
		}
	}, "CACHE_EXPIRATION_INTERVAL=2s", "TOKEN_PRUNING_INTERVAL=1h")
	run("long.log", func(h *house, c *caller, ask func(string) int) {
		set(h, c, "guid-01")
		h.cc.mu.Lock()
		from := h.cc.firsts
		h.cc.mu.Unlock()
		for i := 0; i < r.Scale(8, 30); i++ {
			if code := ask("guid-05"); code == 200 {
				r.Violate("command-open", "cmd/cf-auth-proxy answers 200 for a source the Cloud Controller does not list")
			}
			time.Sleep(1200 * time.Millisecond)
		}
		h.cc.mu.Lock()
		n := h.cc.firsts - from
		h.cc.mu.Unlock()
		// The first one and three more.
		if n > 1+3 {
			r.Violate("command-retries", "cmd/cf-auth-proxy with a cache time of 1 h asks the Cloud Controller %d times within some seconds for the sources of a token with an unknown source", n)
		}
		if n == 0 {
			r.Violate("command-unasked", "cmd/cf-auth-proxy never asks the Cloud Controller")
		}
	}, "CACHE_EXPIRATION_INTERVAL=1h", "TOKEN_PRUNING_INTERVAL=1s")
	wg.Wait()
}
