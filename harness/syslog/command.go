package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"golang.org/x/net/context"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

type ingress struct {
	r  *vk.R
	lc *cache
}

func (s *ingress) Send(ctx context.Context, q *rpc.SendRequest) (*rpc.SendResponse, error) {
	if q.LocalOnly {
		s.r.Violate("local-only", "cmd/syslog-server: a write is marked local only, so it never gets to the node that serves its source")
	}
	return s.lc.Send(ctx, q)
}

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

// command runs cmd/syslog-server in front of a fake Log Cache.
func command(r *vk.R) {
	rnd := r.Rand("command", 0)
	fresh := rand.New(rand.NewSource(time.Now().UnixNano()))
	slCA, lcCA := vk.NewCA("syslog-ca"), vk.NewCA("lc-ca")
	sf, lf := slCA.Write(r.Scratch, "syslog"), lcCA.Write(r.Scratch, "log-cache")
	lc := newCache()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	gs := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{lcCA.Pair("log-cache")}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: lcCA.Pool()})))
	rpc.RegisterIngressServer(gs, &ingress{r, lc})
	go gs.Serve(lis)

	defer idleCommand(r, slCA, sf, lf, lis.Addr().String(), freePort(fresh), freePort(fresh))()

	port := freePort(fresh)
	c := exec.Command("/bin/bash", "-c", "ulimit -n 60; exec "+filepath.Join(os.Getenv("VK_BIN"), "syslog-server"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), fmt.Sprintf("HEALTH_PORT=%d", freePort(fresh)), "LOG_CACHE_ADDR=" + lis.Addr().String(), fmt.Sprintf("SYSLOG_PORT=%d", port),
		"SYSLOG_TLS_CERT_PATH=" + sf.Cert, "SYSLOG_TLS_KEY_PATH=" + sf.Key, "SYSLOG_IDLE_TIMEOUT=30s",
		"CA_PATH=" + lf.CA, "CERT_PATH=" + lf.Cert, "KEY_PATH=" + lf.Key, "GORACE=halt_on_error=0"}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	must(c.Start())
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	defer func() {
		c.Process.Kill()
		c.Wait()
		if s := out.String(); strings.Contains(s, "DATA RACE") || strings.Contains(s, "panic:") || strings.Contains(s, "concurrent map") {
			k := strings.Index(s, "DATA RACE")
			if k < 0 {
				k = strings.Index(s, "panic:")
			}
			if k < 0 {
				k = 0
			}
			e := k + 3000
			if e > len(s) {
				e = len(s)
			}
			r.Violate("command-broken", "cmd/syslog-server reports: %s", s[k:e])
		}
	}()
	up := func(what string) bool {
		for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			c, err := tls.DialWithDialer(&net.Dialer{Timeout: 5 * time.Second}, "tcp", addr, &tls.Config{RootCAs: slCA.Pool(), ServerName: "syslog"})
			if err == nil {
				c.Close()
				return true
			}
			if time.Now().After(end) {
				r.Violate("not-serving", "cmd/syslog-server %s does not take connections: %s", what, err)
				return false
			}
		}
	}
	if !up("after its start") {
		return
	}
	round := func(what string, k int) bool {
		type src struct {
			name  string
			items []item
		}
		all := make([]src, 8)
		var wg sync.WaitGroup
		for i := range all {
			rnd := rand.New(rand.NewSource(rnd.Int63()))
			s := &all[i]
			s.name = fmt.Sprintf("r%d-%s", k, source(rnd, i))
			for j := 0; j < 50+rnd.Intn(200); j++ {
				s.items = append(s.items, message(rnd, s.name, j))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := stream(rnd, addr, slCA, s.items); err != nil {
					r.Violate("connection", "cmd/syslog-server, %s, source %q: %s", what, s.name, err)
				}
			}()
		}
		wg.Wait()
		for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			// All there once the last certain envelope of each source is.
			miss := ""
			lc.mu.Lock()
			for _, s := range all {
				for j := len(s.items) - 1; j >= 0; j-- {
					if it := s.items[j]; !it.none {
						if l := lc.got[s.name]; !has(l, it.want[0]) {
							miss = s.name
						}
						break
					}
				}
			}
			lc.mu.Unlock()
			if miss == "" {
				break
			}
			if time.Now().After(end) {
				r.Violate("never-written", "cmd/syslog-server, %s: the envelopes of source %q do not arrive", what, miss)
				return false
			}
		}
		time.Sleep(100 * time.Millisecond)
		lc.mu.Lock()
		for _, s := range all {
			compare(r, fmt.Sprintf("cmd/syslog-server, %s, source %q", what, s.name), s.items, lc.got[s.name])
			r.Count("messages through the command", len(s.items))
		}
		lc.mu.Unlock()
		r.Eval(fmt.Sprint("command round ", k), true)
		return true
	}
	good := true
	for k := 0; k < r.Scale(3, 20) && good; k++ {
		good = round("at first", k)
	}
	// More connections than it has file descriptors; once they are gone it
	// takes connections again.
	for k := 0; k < r.Scale(2, 10) && good; k++ {
		var l []net.Conn
		for i := 0; i < 120; i++ {
			if c, err := net.DialTimeout("tcp", addr, 2*time.Second); err == nil {
				l = append(l, c)
			}
		}
		time.Sleep(200 * time.Millisecond)
		for _, c := range l {
			c.Close()
		}
		r.Count("connections beyond the limit", len(l))
		r.Eval(fmt.Sprint("starved ", k), true)
		good = up("after a flood of connections") && round("after a flood of connections", 100+k)
	}
}

func has(l []string, k string) bool {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == k {
			return true
		}
	}
	return false
}

// idleCommand runs a cmd/syslog-server with an idle timeout of 2 s; nobody
// sends it anything. What it returns waits for what comes of it.
func idleCommand(r *vk.R, slCA *vk.CA, sf, lf vk.Files, lc string, port, health int) (wait func()) {
	c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "syslog-server"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), fmt.Sprintf("HEALTH_PORT=%d", health), "LOG_CACHE_ADDR=" + lc, fmt.Sprintf("SYSLOG_PORT=%d", port),
		"SYSLOG_TLS_CERT_PATH=" + sf.Cert, "SYSLOG_TLS_KEY_PATH=" + sf.Key, "SYSLOG_IDLE_TIMEOUT=2s",
		"CA_PATH=" + lf.CA, "CERT_PATH=" + lf.Cert, "KEY_PATH=" + lf.Key}
	must(c.Start())
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer c.Wait()
		defer c.Process.Kill()
		var w *tls.Conn
		for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
			var err error
			w, err = tls.DialWithDialer(&net.Dialer{Timeout: 5 * time.Second}, "tcp", fmt.Sprintf("127.0.0.1:%d", port), &tls.Config{RootCAs: slCA.Pool(), ServerName: "syslog"})
			if err == nil {
				break
			}
			if time.Now().After(end) {
				r.Violate("not-serving", "cmd/syslog-server with an idle timeout of 2 s does not take connections: %s", err)
				return
			}
		}
		defer w.Close()
		w.SetReadDeadline(time.Now().Add(45 * time.Second))
		_, err := w.Read(make([]byte, 1))
		if e, ok := err.(net.Error); ok && e.Timeout() {
			r.Violate("idle", "cmd/syslog-server with an idle timeout of 2 s keeps a connection that sends nothing for 45 s")
		}
		r.Eval("idle connection to the command", true)
	}()
	return func() { <-done }
}
