// Monitors for the auth proxy: C19 to C22.
package main

import (
	"errors"
	"io"
	"io/ioutil"
	"log"
	"net/http"
	"strings"
	"sync"

	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc/grpclog"
)

func main() {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(ioutil.Discard, ioutil.Discard, ioutil.Discard))
	log.SetOutput(ioutil.Discard)
	jose := "jose2go is not in this sandbox; a stand-in with the same interface verifies signatures with the standard library"
	vk.Main(map[string]vk.Check{
		"C19": {
			Rule:        "generated requests (reads, PromQL expressions, meta; paths, parameters, methods, bodies and headers that try to get at something else) of callers with tokens of every kind through the real proxy over TLS, the real gateway and the real PromQL engine to a recording Log Cache whose every source carries a marker; what reached Log Cache and what came back is judged against the grants of a fake Cloud Controller; concurrent callers under the race detector; grants that change and a Cloud Controller that fails; tokens that expire, and signing keys that are withdrawn, between requests; non-trivial: a trick, a refusal, or a query of several sources",
			Assumptions: []string{jose, "gorilla/mux is not in this sandbox; a stand-in routes with the same templates and path cleaning"},
			Parts:       []vk.Part{{Name: "requests", Run: proxyRequests}, {Name: "parallel", Run: proxyParallel}, {Name: "changes", Run: proxyChanges}, {Name: "expiry", Run: proxyExpiry}, {Name: "command", Run: proxyCommand}},
		},
		"C20": {
			Rule:        "generated histories of key rotation and UAA failure, in virtual time, with tokens of every kind (genuine, expired, re-signed, tampered, other algorithms, odd headers and claims) read in between; an online model of the keys last published and of the refresh limit judges each answer; concurrent reads of genuine and bogus tokens under the race detector; non-trivial: a token that is refused, or accepted after a rotation",
			Assumptions: []string{jose},
			Parts:       []vk.Part{{Name: "tokens", Run: tokens}, {Name: "concurrent", Run: concurrentReads}},
		},
		"C21": {
			Rule:  "generated histories of grants, page layouts, failures and delays of a fake Cloud Controller in virtual time, with tokens asking for sources in between; an online model of what was listed for each token and when judges each answer, request and response body; concurrent callers under the race detector; non-trivial: several pages, a failure, or an answer from the cache",
			Parts: []vk.Part{{Name: "histories", Run: capiHistories}, {Name: "concurrent", Run: capiConcurrent}, {Name: "command", Run: capiCommand, NoRace: true}},
		},
		"C22": {
			Rule:  "generated requests (hostile paths, queries, methods and headers, as raw HTTP and as request values) through the access middleware under concurrency; each line of the log is matched with a request by an offline checker; the log file of the real command; non-trivial: a request with characters that mean something to the format, or several at once",
			Parts: []vk.Part{{Name: "lines", Run: accessLines}, {Name: "server", Run: accessServer}, {Name: "command", Run: accessCommand}},
		},
	})
}

// body is a response body that remembers what happened to it.
type body struct {
	mu     sync.Mutex
	r      io.Reader
	read   bool // to its end
	closed bool
}

func newBody(s string) *body { return &body{r: strings.NewReader(s)} }

func (b *body) Read(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	n, err := b.r.Read(p)
	if err != nil {
		b.read = true
	}
	return n, err
}

func (b *body) Close() error {
	b.mu.Lock()
	b.closed = true
	b.mu.Unlock()
	return nil
}

func (b *body) state() (read, closed bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.read, b.closed
}

func reply(code int, b *body) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Header: http.Header{}, Body: b}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
