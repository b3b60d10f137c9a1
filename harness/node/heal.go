package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// lockedBuffer keeps what a process prints.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// process is a command that may be killed and started again.
type process struct {
	what string
	env  []string
	cmd  *exec.Cmd
	out  *lockedBuffer
	done chan bool
	told bool
}

func (p *process) start() {
	p.cmd = exec.Command(filepath.Join(os.Getenv("VK_BIN"), p.what))
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "GORACE=halt_on_error=0"}, p.env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.out = &lockedBuffer{}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	must(p.cmd.Start())
	p.done = make(chan bool)
	go func(c *exec.Cmd, d chan bool) { c.Wait(); close(d) }(p.cmd, p.done)
}

// ended tells whether it ended by itself.
func (p *process) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// kill ends it and says what it has to complain about.
func (p *process) kill() string {
	m := ""
	if p.ended() {
		m = "ended by itself"
	}
	p.cmd.Process.Kill()
	<-p.done
	s := p.out.String()
	k := strings.Index(s, "DATA RACE")
	if k < 0 {
		k = strings.Index(s, "panic:")
	}
	if k < 0 {
		k = strings.Index(s, "fatal error:")
	}
	if k < 0 && m == "" {
		return ""
	}
	if k < 0 {
		k = len(s) - 2000
	}
	if k < 0 {
		k = 0
	}
	s = s[k:]
	if len(s) > 3000 {
		s = s[:3000]
	}
	return m + " " + s
}

// attempt writes new sources through every living node and says what is not
// then found through every living node. What is missing may take a moment.
func attempt(rnd *rand.Rand, l []*node, alive map[int]bool, count int, tag string, wait time.Duration) string {
	want := map[string][]*loggregator_v2.Envelope{}
	base := time.Now().UnixNano() - 60e9
	var via []int
	for i := range l {
		if alive[i] {
			via = append(via, i)
		}
	}
	// There are sources in each part of the hashes, so that every node that
	// has anything to serve is reached by every other.
	part := map[uint64]bool{}
	for k, some := 0, 0; len(part) < count || some < 12; k++ {
		s := fmt.Sprintf("%s-%d", tag, k)
		if p := hash(s) / (math.MaxUint64/uint64(count) + 1); part[p] && some >= 12 {
			continue
		} else {
			part[p] = true
			some++
		}
		for j, i := range via {
			var es []*loggregator_v2.Envelope
			for m := 0; m < 2; m++ {
				e := env.Any(rnd)
				e.SourceId, e.Timestamp = s, base+int64(j*2+m)*1e6
				es = append(es, e)
			}
			ctx, c := context.WithTimeout(context.Background(), 20*time.Second)
			_, err := l[i].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}})
			c()
			if err != nil {
				return fmt.Sprintf("node %d refuses a send: %v", i, err)
			}
			want[s] = append(want[s], es...)
		}
	}
	end := time.Now().Add(wait)
	for {
		m := ""
	nodes:
		for _, i := range via {
			for _, s := range vk.Sorted(want) {
				ctx, c := context.WithTimeout(context.Background(), 20*time.Second)
				resp, err := l[i].out.Read(ctx, &rpc.ReadRequest{SourceId: s, Limit: 1000})
				c()
				if err != nil {
					m = fmt.Sprintf("node %d, read of %q: %v", i, s, err)
				} else if d := compare(resp.GetEnvelopes().GetBatch(), want[s]); d != "" {
					m = fmt.Sprintf("node %d, read of %q: %s", i, s, d)
				}
				if m != "" {
					break nodes
				}
			}
			ctx, c := context.WithTimeout(context.Background(), 20*time.Second)
			meta, err := l[i].out.Meta(ctx, &rpc.MetaRequest{})
			c()
			if err != nil {
				m = fmt.Sprintf("node %d, meta: %v", i, err)
				break
			}
			for s, es := range want {
				if n := meta.Meta[s].GetCount(); n != int64(len(es)) {
					m = fmt.Sprintf("node %d, meta: %d of %q instead of %d", i, n, s, len(es))
					break nodes
				}
			}
		}
		if m == "" || time.Now().After(end) {
			return m
		}
		time.Sleep(100 * time.Millisecond)
	}
}

var tries int64

// settle waits until attempts succeed twice in a row, and for so long that the
// scheduler has had the terms to say what it makes of the nodes: the ranges of
// nodes that are back move once more.
func settle(rnd *rand.Rand, l []*node, alive map[int]bool, count int, term time.Duration) string {
	end := time.Now().Add(patience + patience/2)
	good, m := 0, ""
	since := time.Now()
	for good < 2 || time.Since(since) < 5*term/2+time.Second {
		tag := fmt.Sprintf("settle-%d", atomic.AddInt64(&tries, 1))
		// As an alive node's certificates and tables stay the same, an
		// attempt fails only for what the fault has left behind.
		if m = attempt(rnd, l, alive, count, tag, 1500*time.Millisecond); m == "" {
			if good++; good > 1 {
				time.Sleep(term / 4)
			}
			continue
		}
		if good = 0; time.Now().After(end) {
			return m
		}
		time.Sleep(200 * time.Millisecond)
		since = time.Now()
	}
	return ""
}

func clientCreds(ca *vk.CA) grpc.DialOption {
	return grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: ca.Pool(), ServerName: "log-cache", Certificates: []tls.Certificate{ca.Pair("log-cache")}}))
}

// heal runs a scheduler and nodes, kills some of them, and starts them again.
func heal(r *vk.R) {
	ca := vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	for k := 0; k < r.Scale(3, 20); k++ {
		k := k
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			history(r, r.Rand("heal", k), k, ca, f)
		}()
	}
	wg.Wait()
}

func history(r *vk.R, rnd *rand.Rand, k int, ca *vk.CA, f vk.Files) {
	n := 2 + k%3
	addrs := addresses(rnd, n)
	ports := rand.New(rand.NewSource(time.Now().UnixNano()))
	creds := clientCreds(ca)
	files := []string{"CA_PATH=" + f.CA, "CERT_PATH=" + f.Cert, "KEY_PATH=" + f.Key}
	var ps []*process
	var l []*node
	alive := map[int]bool{}
	for i := 0; i < n; i++ {
		p := &process{what: "log-cache", env: append([]string{"ADDR=" + addrs[i], fmt.Sprintf("HEALTH_PORT=%d", freePort(ports)), "NODE_ADDRS=" + strings.Join(addrs, ","), fmt.Sprintf("NODE_INDEX=%d", i), "MAX_PER_SOURCE=700", "MEMORY_LIMIT_PERCENT=80"}, files...)}
		p.start()
		ps = append(ps, p)
		x := &node{addr: addrs[i]}
		x.connect(creds)
		l = append(l, x)
		alive[i] = true
	}
	replicas := 1
	if n > 2 && rnd.Intn(2) == 0 {
		replicas = 2
	}
	count := 1 + rnd.Intn(20)
	// One of the schedulers leads.
	leader := int32(0)
	election := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if q.URL.Path != fmt.Sprintf("/%d", atomic.LoadInt32(&leader)) {
			w.WriteHeader(http.StatusLocked)
		}
	}))
	defer election.Close()
	var scheds []*process
	two := k%3 != 0
	interval := pick(rnd, "200ms", "400ms")
	if k%3 == 2 {
		interval = "1s"
	}
	term, err := time.ParseDuration(interval)
	must(err)
	for i := 0; i == 0 || two && i < 2; i++ {
		p := &process{what: "scheduler", env: append([]string{fmt.Sprintf("HEALTH_PORT=%d", freePort(ports)), "NODE_ADDRS=" + strings.Join(addrs, ","), "INTERVAL=" + interval, fmt.Sprintf("COUNT=%d", count), fmt.Sprintf("REPLICATION_FACTOR=%d", replicas)}, files...)}
		if two {
			p.env = append(p.env, fmt.Sprintf("LEADER_ELECTION_ENDPOINT=%s/%d", election.URL, i))
		}
		p.start()
		scheds = append(scheds, p)
	}
	defer func() {
		for _, x := range l {
			x.conn.Close()
		}
		for i, p := range ps {
			if m := p.kill(); m != "" && alive[i] {
				r.Violate("node-broken", "node %d reports: %s", i, m)
			}
		}
		for _, p := range scheds {
			if m := p.kill(); m != "" {
				r.Violate("scheduler-broken", "the scheduler reports: %s", m)
			}
		}
	}()
	steps := []string{"start, terms of " + interval}
	// Others keep sending meanwhile.
	others := func() func() {
		stop := make(chan bool)
		var all sync.WaitGroup
		for i := range l {
			if !alive[i] {
				continue
			}
			i := i
			all.Add(1)
			go func() {
				defer all.Done()
				for q := 0; ; q++ {
					select {
					case <-stop:
						return
					case <-time.After(20 * time.Millisecond):
					}
					ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
					l[i].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{
						{SourceId: fmt.Sprintf("others-%d", q%40), Timestamp: time.Now().UnixNano(), Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c"}}},
					}}})
					c()
				}
			}()
		}
		return func() { close(stop); all.Wait() }
	}
	check := func() bool {
		at := strings.Join(steps, ", ")
		defer others()()
		if m := settle(rnd, l, alive, count, term); m != "" {
			r.Violate("not-healed", "%d nodes, %d replicas, %s; %v later: %s", n, replicas, at, patience+patience/2, m)
			return false
		}
		// From now on nothing fails.
		for j := 0; j < 2; j++ {
			r.Eval(fmt.Sprint(k, at, j), len(steps) > 1)
			if m := attempt(rnd, l, alive, count, fmt.Sprintf("h%d-%d-%d", k, len(steps), j), 20*time.Second); m != "" {
				r.Violate("answers", "%d nodes, %d replicas, settled after %s: %s", n, replicas, at, m)
				return false
			}
		}
		return true
	}
	if !check() {
		return
	}
	for s := 0; s < r.Scale(3, 8); s++ {
		c := rnd.Intn(4)
		// Long terms are for nodes that are back within one, two schedulers for
		// taking over.
		sudden := k%3 == 2 && s > 0 && s < 3
		takeover := k%3 == 1 && s == 1
		if takeover {
			c = 2
		}
		switch {
		case c < 2 || s == 0 || sudden:
			// Some nodes are killed while they are written to and asked.
			kill := rnd.Perm(n)[:1+rnd.Intn(n)]
			if (s == 0 || sudden) && len(kill) == n {
				kill = kill[1:]
			}
			stopLoad := make(chan bool)
			var load sync.WaitGroup
			for i := range l {
				i := i
				lr := rand.New(rand.NewSource(rnd.Int63()))
				load.Add(1)
				go func() {
					defer load.Done()
					for q := 0; ; q++ {
						select {
						case <-stopLoad:
							return
						default:
						}
						e := env.Any(lr)
						e.SourceId = fmt.Sprintf("load-%d-%d", i, lr.Intn(30))
						e.Timestamp = time.Now().UnixNano()
						ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
						l[i].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{e}}})
						l[i].out.Read(ctx, &rpc.ReadRequest{SourceId: e.SourceId})
						if q%5 == 0 {
							l[i].out.Meta(ctx, &rpc.MetaRequest{})
							l[i].ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: fmt.Sprintf("hits{source_id=%q}", e.SourceId)})
						}
						c()
						time.Sleep(time.Millisecond)
					}
				}()
			}
			time.Sleep(time.Duration(rnd.Intn(800)) * time.Millisecond)
			// What a node that stays has, it keeps.
			before := map[int]*rpc.MetaResponse{}
			for i := range l {
				ctx, c := long()
				m, err := l[i].out.Meta(ctx, &rpc.MetaRequest{LocalOnly: true})
				c()
				if err == nil {
					before[i] = m
				}
			}
			for _, i := range kill {
				if m := ps[i].kill(); m != "" {
					r.Violate("node-broken", "node %d reports: %s", i, m)
				}
				alive[i] = false
				if !sudden {
					time.Sleep(time.Duration(rnd.Intn(400)) * time.Millisecond)
				}
			}
			steps = append(steps, fmt.Sprintf("nodes %v killed", kill))
			r.Count("nodes killed", len(kill))
			quick := false
			back := rnd.Intn(2) == 0 && len(kill) < n
			if s == 0 {
				back = true
			} else if sudden || rnd.Intn(3) == 0 {
				back = false
				quick = true
			}
			if quick {
				// They are back before anybody asks for them.
				close(stopLoad)
				load.Wait()
			} else if back {
				close(stopLoad)
				load.Wait()
				if !check() {
					return
				}
			} else {
				time.Sleep(time.Duration(rnd.Intn(2500)) * time.Millisecond)
				close(stopLoad)
				load.Wait()
			}
			for i := range l {
				if !alive[i] || before[i] == nil {
					continue
				}
				ctx, c := long()
				m, err := l[i].out.Meta(ctx, &rpc.MetaRequest{LocalOnly: true})
				c()
				if err != nil {
					r.Violate("survivor", "node %d, which stayed, does not tell what it has: %v", i, err)
					return
				}
				for s, x := range before[i].GetMeta() {
					if y := m.GetMeta()[s]; y.GetCount()+y.GetExpired() < x.GetCount()+x.GetExpired() || y.GetCount() < x.GetCount() && y.GetCount() < 700 {
						r.Violate("survivor", "node %d, which stayed, had %v of %q and has %v", i, x, s, y)
						return
					}
				}
			}
			for _, i := range kill {
				ps[i].start()
				alive[i] = true
			}
			steps = append(steps, fmt.Sprintf("nodes %v started", kill))
			r.Count("nodes started again", len(kill))
		case c == 2:
			// Without the scheduler all goes on as it was.
			was := atomic.LoadInt32(&leader)
			if m := scheds[was].kill(); m != "" {
				r.Violate("scheduler-broken", "the scheduler reports: %s", m)
			}
			steps = append(steps, "scheduler killed")
			for j := 0; j < 2; j++ {
				r.Eval(fmt.Sprint(k, steps, j), true)
				if m := attempt(rnd, l, alive, count, fmt.Sprintf("n%d-%d-%d", k, len(steps), j), 20*time.Second); m != "" {
					r.Violate("answers", "%d nodes, %d replicas, %s: %s", n, replicas, strings.Join(steps, ", "), m)
					return
				}
			}
			other := takeover || two && rnd.Intn(3) > 0
			if other || rnd.Intn(2) == 0 {
				i := rnd.Intn(n)
				if m := ps[i].kill(); m != "" {
					r.Violate("node-broken", "node %d reports: %s", i, m)
				}
				if takeover {
					// The table stays as it is, so they keep sending to it.
					end := others()
					time.Sleep(2500 * time.Millisecond)
					ps[i].start()
					time.Sleep(200 * time.Millisecond)
					end()
				} else {
					ps[i].start()
				}
				steps = append(steps, fmt.Sprintf("node %d killed and started", i))
				r.Count("nodes killed", 1)
				r.Count("nodes started again", 1)
			}
			if other {
				atomic.StoreInt32(&leader, 1-was)
				steps = append(steps, "the other scheduler leads")
				r.Count("leaders replaced", 1)
				if !check() {
					return
				}
			}
			scheds[was].start()
			steps = append(steps, "scheduler started")
			r.Count("schedulers killed", 1)
		default:
			// A node hangs for a while.
			i := rnd.Intn(n)
			ps[i].cmd.Process.Signal(syscall.SIGSTOP)
			time.Sleep(time.Duration(500+rnd.Intn(2500)) * time.Millisecond)
			ps[i].cmd.Process.Signal(syscall.SIGCONT)
			steps = append(steps, fmt.Sprintf("node %d held up", i))
			r.Count("nodes held up", 1)
		}
		if !check() {
			return
		}
	}
	r.Count("histories", 1)
}
