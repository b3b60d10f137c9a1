package main

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// provider is a fake reverse log proxy.
type provider struct {
	mu   sync.Mutex
	reqs []*loggregator_v2.EgressBatchRequest
	feed chan []*loggregator_v2.Envelope
	end  chan bool
}

func (p *provider) Receiver(*loggregator_v2.EgressRequest, loggregator_v2.Egress_ReceiverServer) error {
	return errors.New("use the batched one")
}

func (p *provider) BatchedReceiver(q *loggregator_v2.EgressBatchRequest, s loggregator_v2.Egress_BatchedReceiverServer) error {
	p.mu.Lock()
	p.reqs = append(p.reqs, q)
	p.mu.Unlock()
	for {
		select {
		case l := <-p.feed:
			if err := s.Send(&loggregator_v2.EnvelopeBatch{Batch: l}); err != nil {
				return err
			}
		case <-p.end:
			return errors.New("that is all")
		case <-s.Context().Done():
			return s.Context().Err()
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

func serverCreds(ca *vk.CA, cn string) grpc.ServerOption {
	return grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{ca.Pair(cn)}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: ca.Pool()}))
}

// command runs cmd/nozzle between the two.
func command(r *vk.R) {
	rnd := r.Rand("command", 0)
	fresh := rand.New(rand.NewSource(time.Now().UnixNano()))
	rlpCA, lcCA := vk.NewCA("rlp-ca"), vk.NewCA("lc-ca")
	rf, lf := rlpCA.Write(r.Scratch, "rlp"), lcCA.Write(r.Scratch, "log-cache")
	p := &provider{feed: make(chan []*loggregator_v2.Envelope), end: make(chan bool)}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	ps := grpc.NewServer(serverCreds(rlpCA, "reverselogproxy"))
	loggregator_v2.RegisterEgressServer(ps, p)
	go ps.Serve(lis)

	w := &world{r: r, name: "cmd/nozzle", rnd: rand.New(rand.NewSource(rnd.Int63())), at: map[string]time.Time{}, order: map[string]int{}, got: map[string]int{}}
	addr := fmt.Sprintf("127.%d.%d.%d:8080", 1+fresh.Intn(250), fresh.Intn(250), 1+fresh.Intn(250))
	var sel []string
	for _, i := range rnd.Perm(5)[:2+rnd.Intn(2)] {
		sel = append(sel, kinds[i])
	}
	shard := fmt.Sprintf("shard-%d", rnd.Intn(1000))
	c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "nozzle"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), fmt.Sprintf("HEALTH_PORT=%d", freePort(fresh)), "LOGS_PROVIDER_ADDR=" + lis.Addr().String(), "LOG_CACHE_ADDR=" + addr, "SHARD_ID=" + shard, "SELECTORS=" + strings.Join(sel, ","),
		"LOGS_PROVIDER_CA_FILE_PATH=" + rf.CA, "LOGS_PROVIDER_CERT_FILE_PATH=" + rf.Cert, "LOGS_PROVIDER_KEY_FILE_PATH=" + rf.Key,
		"CA_PATH=" + lf.CA, "CERT_PATH=" + lf.Cert, "KEY_PATH=" + lf.Key, "GORACE=halt_on_error=0"}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	must(c.Start())

	w.feed = p.feed
	push := func(n int) bool {
		l := w.some(rnd, n)
		w.mu.Lock()
		for _, e := range l {
			k := key(e)
			w.order[k], w.at[k] = len(w.fed), time.Now()
			w.fed = append(w.fed, k)
		}
		w.mu.Unlock()
		select {
		case p.feed <- l:
			return true
		case <-time.After(40 * time.Second):
			r.Violate("not-streaming", "cmd/nozzle does not take envelopes from the provider")
			return false
		}
	}
	// arrive waits until an envelope of the feed arrives.
	arrive := func(what string, from int) bool {
		for end := time.Now().Add(40 * time.Second); ; time.Sleep(20 * time.Millisecond) {
			w.mu.Lock()
			miss := 0
			for _, k := range w.fed[from:] {
				if w.got[k] == 0 {
					miss++
				}
			}
			w.mu.Unlock()
			if miss == 0 {
				return true
			}
			if time.Now().After(end) {
				r.Violate("never-written", "cmd/nozzle, %s: %d of %d envelopes are not written", what, miss, len(w.fed)-from)
				return false
			}
		}
	}
	// Log Cache is not there yet.
	r.Eval("Log Cache down", true)
	good := push(20)
	time.Sleep(1200 * time.Millisecond)
	lc, err := net.Listen("tcp", addr)
	must(err)
	ls := grpc.NewServer(serverCreds(lcCA, "log-cache"))
	rpc.RegisterIngressServer(ls, w)
	go ls.Serve(lc)
	// Single envelopes until one gets through.
	for end := time.Now().Add(40 * time.Second); good; {
		good = push(1)
		time.Sleep(700 * time.Millisecond)
		w.mu.Lock()
		n := w.writes
		w.mu.Unlock()
		if n > 0 {
			break
		}
		if time.Now().After(end) {
			r.Violate("never-written", "cmd/nozzle writes nothing although Log Cache is there")
			good = false
		}
	}
	for k := 0; k < r.Scale(4, 30) && good; k++ {
		from := len(w.fed)
		for j := 0; j < 12 && good; j++ {
			good = push(rnd.Intn(300))
		}
		r.Eval(fmt.Sprint("round ", k), true)
		good = good && arrive("Log Cache is well", from)
		if k%2 == 0 && good {
			// The stream breaks; the nozzle comes back with the same request.
			select {
			case p.end <- true:
			case <-time.After(20 * time.Second):
			}
		}
	}
	p.mu.Lock()
	for _, q := range p.reqs {
		asked(r, "cmd/nozzle", q, shard, sel)
	}
	r.Count("streams asked for", len(p.reqs))
	p.mu.Unlock()
	w.mu.Lock()
	r.Count("envelopes through the command", len(w.fed))
	w.mu.Unlock()
	c.Process.Kill()
	c.Wait()
	if s := out.String(); strings.Contains(s, "DATA RACE") || strings.Contains(s, "panic:") {
		k := strings.Index(s, "DATA RACE")
		if k < 0 {
			k = strings.Index(s, "panic:")
		}
		e := k + 3000
		if e > len(s) {
			e = len(s)
		}
		r.Violate("command-broken", "cmd/nozzle reports: %s", s[k:e])
	}
}
