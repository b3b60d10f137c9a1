// Package mux is a minimal stand-in for github.com/gorilla/mux: path templates
// with {name} and {name:pattern}, path cleaning, and Vars.
package mux

import (
	"context"
	"net/http"
	"path"
	"regexp"
	"strings"
)

type varsKey struct{}

// Vars returns the variables of the matched route.
func Vars(r *http.Request) map[string]string {
	v, _ := r.Context().Value(varsKey{}).(map[string]string)
	return v
}

// SetURLVars sets the variables, for tests.
func SetURLVars(r *http.Request, v map[string]string) *http.Request {
	return r.WithContext(context.WithValue(r.Context(), varsKey{}, v))
}

// Route is a registered route.
type Route struct {
	re      *regexp.Regexp
	names   []string
	h       http.Handler
	methods map[string]bool
}

// Methods restricts the route to the methods.
func (r *Route) Methods(ms ...string) *Route {
	r.methods = map[string]bool{}
	for _, m := range ms {
		r.methods[strings.ToUpper(m)] = true
	}
	return r
}

// Router matches requests against its routes in the order of registration.
type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

// NewRouter returns an empty router.
func NewRouter() *Router { return &Router{} }

// Handle registers a handler.
func (r *Router) Handle(tpl string, h http.Handler) *Route {
	var b strings.Builder
	b.WriteString("^")
	rt := &Route{h: h}
	rest := tpl
	for {
		i := strings.IndexByte(rest, '{')
		if i < 0 {
			b.WriteString(regexp.QuoteMeta(rest))
			break
		}
		b.WriteString(regexp.QuoteMeta(rest[:i]))
		depth, j := 0, i
		for ; j < len(rest); j++ {
			if rest[j] == '{' {
				depth++
			}
			if rest[j] == '}' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		name, pat := rest[i+1:j], "[^/]+"
		if k := strings.IndexByte(name, ':'); k >= 0 {
			name, pat = name[:k], name[k+1:]
		}
		rt.names = append(rt.names, name)
		b.WriteString("(?P<v" + string(rune('a'+len(rt.names)-1)) + ">" + pat + ")")
		rest = rest[j+1:]
	}
	b.WriteString("$")
	rt.re = regexp.MustCompile(b.String())
	r.routes = append(r.routes, rt)
	return rt
}

// HandleFunc registers a function.
func (r *Router) HandleFunc(tpl string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handle(tpl, http.HandlerFunc(f))
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

// ServeHTTP dispatches.
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		u := *req.URL
		u.Path = p
		w.Header().Set("Location", u.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	wrongMethod := false
	for _, rt := range r.routes {
		m := rt.re.FindStringSubmatch(req.URL.Path)
		if m == nil {
			continue
		}
		if rt.methods != nil && !rt.methods[req.Method] {
			wrongMethod = true
			continue
		}
		vars := map[string]string{}
		for i, n := range rt.names {
			vars[n] = m[rt.re.SubexpIndex("v"+string(rune('a'+i)))]
		}
		rt.h.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), varsKey{}, vars)))
		return
	}
	if wrongMethod {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}
