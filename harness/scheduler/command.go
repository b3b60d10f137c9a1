package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// election is the leadership endpoint.
type election struct {
	mu    sync.Mutex
	how   string
	hang  chan bool
	asked int
	conns map[net.Conn]bool
	most  int
}

func (e *election) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	e.mu.Lock()
	e.asked++
	how, h := e.how, e.hang
	e.mu.Unlock()
	if h != nil {
		select {
		case <-h:
		case <-q.Context().Done():
		}
	}
	code, err := strconv.Atoi(how)
	if err != nil {
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		switch how {
		case "answers nonsense":
			c.Write([]byte("200 OK\r\n\r\nyes"))
		case "cuts its answer off":
			c.Write([]byte("HTTP/1.1 2"))
		}
		c.Close()
		return
	}
	w.WriteHeader(code)
	w.Write([]byte("an answer of some length, which nobody reads"))
}

func (e *election) state(c net.Conn, s http.ConnState) {
	e.mu.Lock()
	defer e.mu.Unlock()
	switch s {
	case http.StateNew:
		e.conns[c] = true
	case http.StateClosed, http.StateHijacked:
		delete(e.conns, c)
	}
	if len(e.conns) > e.most {
		e.most = len(e.conns)
	}
}

func (e *election) set(how string) {
	e.mu.Lock()
	e.how = how
	e.mu.Unlock()
}

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

// command runs cmd/scheduler.
func command(r *vk.R) {
	rnd := r.Rand("command", 0)
	ca := vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	pair, err := tls.LoadX509KeyPair(f.Cert, f.Key)
	must(err)
	const n, count, rf = 3, 13, 2
	w := &world{r: r, name: "cmd/scheduler", interval: 100 * time.Millisecond, count: count, rf: rf, leader: true}
	var addrs []string
	for i := 0; i < n; i++ {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		x := &node{w: w, addr: lis.Addr().String(), since: time.Now()}
		x.srv = grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{pair}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: ca.Pool()})))
		rpc.RegisterOrchestrationServer(x.srv, x)
		go x.srv.Serve(lis)
		w.nodes = append(w.nodes, x)
		addrs = append(addrs, x.addr)
	}
	el := &election{how: "200", conns: map[net.Conn]bool{}}
	srv := httptest.NewUnstartedServer(el)
	srv.Config.ConnState = el.state
	srv.Start()
	c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "scheduler"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), fmt.Sprintf("HEALTH_PORT=%d", freePort(rand.New(rand.NewSource(time.Now().UnixNano())))), "NODE_ADDRS=" + strings.Join(addrs, ","), "INTERVAL=100ms", fmt.Sprintf("COUNT=%d", count), fmt.Sprintf("REPLICATION_FACTOR=%d", rf), "LEADER_ELECTION_ENDPOINT=" + srv.URL, "CA_PATH=" + f.CA, "CERT_PATH=" + f.Cert, "KEY_PATH=" + f.Key, "GORACE=halt_on_error=0"}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	must(c.Start())

	w.name += fmt.Sprintf(" with COUNT=%d REPLICATION_FACTOR=%d on %d nodes", count, rf, n)
	// good tells whether everything is as it should be.
	good := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		held := map[rng]int{}
		for _, x := range w.nodes {
			for _, y := range rngs(x.ranges) {
				held[y]++
			}
			for _, m := range w.nodes {
				if !same(x.table[m.addr], rngs(m.ranges)) {
					return false
				}
			}
		}
		for _, k := range held {
			if k != rf {
				return false
			}
		}
		return len(held) == count
	}
	wait := func(what string) bool {
		for end := time.Now().Add(40 * time.Second); ; {
			if good() {
				return true
			}
			if time.Now().After(end) {
				w.mu.Lock()
				w.bad("never "+what, "%s: the ranges do not settle", what)
				w.mu.Unlock()
				return false
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	judge := func() {
		// The interval is real time here: leave the age of the table aside.
		w.mu.Lock()
		iv := w.interval
		w.interval = time.Hour
		w.mu.Unlock()
		w.settled()
		w.mu.Lock()
		w.interval = iv
		w.mu.Unlock()
	}
	r.Eval("start", true)
	alive := wait("at the start")
	if alive {
		judge()
	}
	for k := 0; k < r.Scale(5, 40) && alive; k++ {
		// Most often it fails, says no or says something else than yes.
		how := [][]string{{"hangs up", "answers nonsense", "cuts its answer off"}, {"503", "404", "423", "500"}, {"204", "202", "304", "206"}}[k%3][rnd.Intn(3)]
		r.Eval(fmt.Sprint(k, how), true)
		el.set(how)
		// What was asked for before may still arrive.
		time.Sleep(3 * time.Second)
		w.mu.Lock()
		w.leader = false
		w.note("follower: %s", how)
		x := w.nodes[rnd.Intn(n)]
		if rnd.Intn(2) == 0 {
			x.ranges = nil
		} else {
			w.seed(rnd, x)
		}
		w.mu.Unlock()
		time.Sleep(700 * time.Millisecond)
		w.mu.Lock()
		w.leader = true
		w.note("leader")
		w.mu.Unlock()
		el.set("200")
		alive = wait("as leader again")
		if alive {
			judge()
		}
	}
	if alive {
		// An endpoint that does not answer must not end it for good.
		r.Eval("endpoint hangs", true)
		h := make(chan bool)
		el.mu.Lock()
		el.hang = h
		el.mu.Unlock()
		time.Sleep(300 * time.Millisecond)
		el.mu.Lock()
		el.hang = nil
		el.mu.Unlock()
		w.mu.Lock()
		w.nodes[0].ranges = nil
		w.mu.Unlock()
		wait("after an endpoint that hung")
		close(h)
	}
	el.mu.Lock()
	r.Count("asked for leadership by the command", el.asked)
	r.Count("connections to the endpoint", el.most)
	if el.most > 20 {
		r.Violate("connections", "%d connections to the leadership endpoint are open after %d requests", el.most, el.asked)
	}
	el.mu.Unlock()
	c.Process.Kill()
	c.Wait()
	if s := out.String(); strings.Contains(s, "DATA RACE") || strings.Contains(s, "panic:") {
		k := strings.Index(s, "DATA RACE")
		if k < 0 {
			k = strings.Index(s, "panic:")
		}
		e := k + 3000
		if e > len(s) {
			e = len(s)
		}
		r.Violate("command-broken", "cmd/scheduler reports: %s", s[k:e])
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
