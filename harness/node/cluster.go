package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/env"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/grpclog"
)

func init() {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(ioutil.Discard, ioutil.Discard, ioutil.Discard))
	log.SetOutput(ioutil.Discard)
}

// layout generates a table that covers everything, each part with one owner
// or more.
func layout(rnd *rand.Rand, l []*node) *rpc.SetRangesRequest {
	req := &rpc.SetRangesRequest{Ranges: map[string]*rpc.Ranges{}}
	for _, x := range l {
		req.Ranges[x.addr] = &rpc.Ranges{}
	}
	var cuts []uint64
	for k := rnd.Intn(12); k > 0; k-- {
		cuts = append(cuts, rnd.Uint64())
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	cuts = append(cuts, math.MaxUint64)
	replicas := 1
	if rnd.Intn(3) == 0 {
		replicas = 1 + rnd.Intn(len(l))
	}
	var s uint64
	for _, e := range cuts {
		if e < s {
			continue
		}
		for _, i := range rnd.Perm(len(l))[:replicas] {
			a := req.Ranges[l[i].addr]
			a.Ranges = append(a.Ranges, &rpc.Range{Start: s, End: e})
		}
		s = e + 1
	}
	for _, x := range req.Ranges {
		rnd.Shuffle(len(x.Ranges), func(i, j int) { x.Ranges[i], x.Ranges[j] = x.Ranges[j], x.Ranges[i] })
	}
	return req
}

// fill writes generated envelopes of several sources through generated nodes
// from several goroutines and returns what each source must hold.
func fill(r *vk.R, rnd *rand.Rand, l []*node, tag string, base int64) map[string][]*loggregator_v2.Envelope {
	data := map[string][]*loggregator_v2.Envelope{}
	var srcs []string
	for i := 0; i < 10; i++ {
		s := fmt.Sprintf("%s-%d-%x", tag, i, rnd.Uint32())
		if rnd.Intn(4) == 0 {
			s = tag + pick(rnd, "/", " ", "ü", ".", "😀", `\`, `"`) + fmt.Sprint(i)
		}
		srcs = append(srcs, s)
	}
	var blocks [][]*loggregator_v2.Envelope
	for _, s := range srcs {
		n := 1 + rnd.Intn(60)
		perm := rnd.Perm(500)
		// Some come in runs of one instance, several with one timestamp.
		runs := rnd.Intn(3) == 0
		for k := 0; k < n; k++ {
			e := env.Any(rnd)
			e.SourceId, e.Timestamp = s, base+int64(perm[k])*1e9
			if rnd.Intn(2) == 0 {
				e.InstanceId, e.Tags, e.DeprecatedTags = "0", nil, nil
				e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "hits", Total: uint64(k)}}
			} else if runs {
				e.InstanceId = "1"
				e.Timestamp = base + int64(perm[k/4])*1e9 + 1
				e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(fmt.Sprint("line ", k))}}
			}
			if b := len(blocks) - 1; runs && b >= 0 && blocks[b][0].SourceId == s && rnd.Intn(8) > 0 {
				blocks[b] = append(blocks[b], e)
			} else {
				blocks = append(blocks, []*loggregator_v2.Envelope{e})
			}
			data[s] = append(data[s], e)
		}
		sort.Slice(data[s], func(i, j int) bool { return data[s][i].Timestamp < data[s][j].Timestamp })
	}
	rnd.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	var all []*loggregator_v2.Envelope
	for _, b := range blocks {
		all = append(all, b...)
	}
	var wg sync.WaitGroup
	const writers = 4
	for w := 0; w < writers; w++ {
		mine := all[w*len(all)/writers : (w+1)*len(all)/writers]
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(mine) > 0 {
				n := 1 + rnd.Intn(40)
				if n > len(mine) {
					n = len(mine)
				}
				i := rnd.Intn(len(l))
				ctx, c := long()
				_, err := l[i].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: mine[:n]}})
				c()
				if err != nil {
					r.Violate("send-failed", "node %d of %d refuses a send: %v", i, len(l), err)
				}
				mine = mine[n:]
			}
		}()
	}
	wg.Wait()
	return data
}

func hits(es []*loggregator_v2.Envelope) (n int) {
	for _, e := range es {
		if e.GetCounter().GetName() == "hits" && e.InstanceId == "0" && len(e.Tags)+len(e.DeprecatedTags) == 0 {
			n++
		}
	}
	return n
}

// look asks one node for everything and says what is wrong.
func look(n *node, data map[string][]*loggregator_v2.Envelope, base int64) string {
	ctx, c := long()
	defer c()
	for s, want := range data {
		resp, err := n.out.Read(ctx, &rpc.ReadRequest{SourceId: s, Limit: 1000})
		if err != nil {
			return fmt.Sprintf("read of %q: %v", s, err)
		}
		if m := compare(resp.GetEnvelopes().GetBatch(), want); m != "" {
			return fmt.Sprintf("read of %q: %s", s, m)
		}
		h := hits(want)
		q, err := n.ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: fmt.Sprintf(`count_over_time(hits{source_id=%q,instance_id="0"}[20m])`, s), Time: fmt.Sprint(base/1e9 + 600)})
		if err != nil {
			return fmt.Sprintf("query of %q: %v", s, err)
		}
		got := 0
		for _, v := range q.GetVector().GetSamples() {
			if len(v.Metric) == 2 && v.Metric["source_id"] == s {
				got = int(v.GetPoint().GetValue())
			}
		}
		if got != h {
			return fmt.Sprintf("query of %q counts %d instead of %d: %v", s, got, h, q)
		}
	}
	// One query over all plainly named sources.
	var ids []string
	for _, s := range vk.Sorted(data) {
		if strings.Trim(s, "0123456789abcdefghijklmnopqrstuvwxyz-") == "" {
			ids = append(ids, s)
		}
	}
	q, err := n.ql.InstantQuery(ctx, &rpc.PromQL_InstantQueryRequest{Query: fmt.Sprintf(`count_over_time(hits{source_id=~%q,instance_id="0"}[20m])`, strings.Join(ids, "|")), Time: fmt.Sprint(base/1e9 + 600)})
	if err != nil && len(ids) > 0 {
		return fmt.Sprintf("query of %d sources: %v", len(ids), err)
	}
	counts := map[string]int{}
	for _, v := range q.GetVector().GetSamples() {
		counts[v.Metric["source_id"]] += int(v.GetPoint().GetValue())
	}
	for _, s := range ids {
		if h := hits(data[s]); counts[s] != h {
			return fmt.Sprintf("query of %d sources counts %d of %q instead of %d", len(ids), counts[s], s, h)
		}
	}
	m, err := n.out.Meta(ctx, &rpc.MetaRequest{})
	if err != nil {
		return fmt.Sprintf("meta: %v", err)
	}
	for s, want := range data {
		i := m.Meta[s]
		if i.GetCount() != int64(len(want)) || i.GetExpired() != 0 || i.GetOldestTimestamp() != want[0].Timestamp || i.GetNewestTimestamp() != want[len(want)-1].Timestamp {
			return fmt.Sprintf("meta of %q is %v for %d envelopes", s, i, len(want))
		}
	}
	for s := range m.Meta {
		if _, ok := data[s]; !ok && !strings.HasPrefix(s, "warm-") {
			return fmt.Sprintf("meta tells of %q", s)
		}
	}
	return ""
}

// local says what is wrong with what a node itself holds.
func local(l []*node, i int, req *rpc.SetRangesRequest, data map[string][]*loggregator_v2.Envelope) string {
	ctx, c := long()
	defer c()
	m, err := l[i].out.Meta(ctx, &rpc.MetaRequest{LocalOnly: true})
	if err != nil {
		return fmt.Sprintf("local meta: %v", err)
	}
	for s, want := range data {
		mine := false
		for _, o := range owners(l, req, s) {
			mine = mine || o == i
		}
		x, held := m.Meta[s]
		if held != mine || mine && x.GetCount() != int64(len(want)) {
			return fmt.Sprintf("node %d has %v of %q; it owns it: %v, there are %d", i, x, s, mine, len(want))
		}
	}
	return ""
}

// cover runs a cluster through writes and questions.
func cover(r *vk.R, rnd *rand.Rand, l []*node, req *rpc.SetRangesRequest, tag string, base int64, all map[string][]*loggregator_v2.Envelope) {
	for s, es := range fill(r, rnd, l, tag, base) {
		all[s] = es
	}
	for s := range all {
		o := owners(l, req, s)
		r.Eval(s, len(o) < len(l))
	}
	for i, n := range l {
		if m := try(func() string { return look(n, all, base) }); m != "" {
			r.Violate("answers", "node %d of %d: %s", i, len(l), m)
			return
		}
		if m := try(func() string { return local(l, i, req, all) }); m != "" {
			r.Violate("placement", "%s", m)
			return
		}
	}
	// What is still under way must not add anything.
	time.Sleep(1300 * time.Millisecond)
	for i, n := range l {
		for k := 0; k < 2; k++ {
			if m := look(n, all, base); m != "" {
				r.Violate("answers-later", "node %d of %d, once it answered rightly: %s", i, len(l), m)
				return
			}
		}
		if m := local(l, i, req, all); m != "" {
			r.Violate("placement", "%s", m)
			return
		}
	}
	r.Count("clusters asked", 1)
	r.Count("sources", len(all))
}

func clusters(r *vk.R) {
	ca := vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	var wg sync.WaitGroup
	sem := make(chan bool, 5)
	for k := 0; k < r.Scale(9, 60); k++ {
		k := k
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rnd := r.Rand("cluster", k)
			n := 1 + k%5
			var files *vk.Files
			if rnd.Intn(2) == 0 {
				files = &f
			}
			l := start(rnd, n, 2000, 10*time.Second, files)
			req := layout(rnd, l)
			setRanges(l, req)
			warm(l, req)
			base := time.Now().UnixNano() - 600e9
			base -= base % 1e9
			all := map[string][]*loggregator_v2.Envelope{}
			for round := 0; round < 2 && r.Violations() == 0; round++ {
				cover(r, rnd, l, req, fmt.Sprintf("c%d-%d", k, round), base, all)
			}
			stop(l)
		}()
	}
	wg.Wait()
}

// large moves as much at once as the nozzle and the peers do, with logs as long
// as an application may write.
func large(r *vk.R) {
	for k := 0; k < r.Scale(3, 20); k++ {
		rnd := r.Rand("large", k)
		n := 1 + k%3
		l := start(rnd, n, 2000, 10*time.Second, nil)
		req := layout(rnd, l)
		setRanges(l, req)
		warm(l, req)
		base := time.Now().UnixNano() - 600e9
		data := map[string][]*loggregator_v2.Envelope{}
		var all []*loggregator_v2.Envelope
		for i := 0; i < 6; i++ {
			s := fmt.Sprintf("large-%d-%d", k, i)
			size := 1 + rnd.Intn(60<<10)
			if i < 2 {
				size = 60 << 10
			}
			for j := 0; j < 60+rnd.Intn(60); j++ {
				b := make([]byte, size)
				rnd.Read(b)
				e := &loggregator_v2.Envelope{SourceId: s, Timestamp: base + int64(j)*1e6, InstanceId: fmt.Sprint(j), Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: b}}}
				data[s] = append(data[s], e)
				all = append(all, e)
			}
		}
		for len(all) > 0 {
			m := 1 + rnd.Intn(400)
			if m > len(all) {
				m = len(all)
			}
			i := rnd.Intn(n)
			ctx, c := long()
			_, err := l[i].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: all[:m]}})
			c()
			if err != nil {
				r.Violate("large-refused", "node %d of %d refuses %d envelopes of up to 60 KB: %v", i, n, m, err)
			}
			all = all[m:]
		}
		for _, s := range vk.Sorted(data) {
			total := 0
			for _, e := range data[s] {
				total += len(e.GetLog().Payload)
			}
			for i, x := range l {
				r.Eval(fmt.Sprint(s, i), total > 4<<20)
				end := time.Now().Add(15 * time.Second)
				for m := "?"; m != ""; {
					ctx, c := long()
					resp, err := x.out.Read(ctx, &rpc.ReadRequest{SourceId: s, Limit: 1000})
					c()
					if m = fmt.Sprint(err); err == nil {
						m = compare(resp.GetEnvelopes().GetBatch(), data[s])
					}
					if len(m) > 200 {
						m = m[:200]
					}
					if m != "" && time.Now().After(end) {
						r.Violate("large-lost", "%d bytes of a source sent to %d nodes, asked of node %d: %s", total, n, i, m)
						end = end.Add(time.Hour)
						break
					}
					if m != "" {
						time.Sleep(100 * time.Millisecond)
					}
				}
			}
			r.Count("bytes", total)
			if r.Violations() > 0 {
				break
			}
		}
		stop(l)
	}
}

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

// processes runs cmd/log-cache.
func processes(r *vk.R) {
	rnd := r.Rand("processes", 0)
	ca, other := vk.NewCA("ca"), vk.NewCA("ca")
	f := ca.Write(r.Scratch, "log-cache")
	const n = 3
	addrs := addresses(rnd, n)
	ports := rand.New(rand.NewSource(time.Now().UnixNano()))
	var l []*node
	var cmds []*exec.Cmd
	outs := make([]*bytes.Buffer, n)
	creds := func(pair *tls.Certificate) grpc.DialOption {
		c := &tls.Config{RootCAs: ca.Pool(), ServerName: "log-cache"}
		if pair != nil {
			c.Certificates = []tls.Certificate{*pair}
		}
		return grpc.WithTransportCredentials(credentials.NewTLS(c))
	}
	me := ca.Pair("log-cache")
	for i := 0; i < n; i++ {
		c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "log-cache"))
		c.Env = []string{"PATH=" + os.Getenv("PATH"), "ADDR=" + addrs[i], fmt.Sprintf("HEALTH_PORT=%d", freePort(ports)), "NODE_ADDRS=" + strings.Join(addrs, ","), fmt.Sprintf("NODE_INDEX=%d", i), "CA_PATH=" + f.CA, "CERT_PATH=" + f.Cert, "KEY_PATH=" + f.Key, "MAX_PER_SOURCE=700", "MEMORY_LIMIT_PERCENT=80", "QUERY_TIMEOUT=5s", "GORACE=halt_on_error=0"}
		outs[i] = &bytes.Buffer{}
		c.Stdout, c.Stderr = outs[i], outs[i]
		must(c.Start())
		cmds = append(cmds, c)
		x := &node{addr: addrs[i]}
		x.connect(creds(&me))
		l = append(l, x)
	}
	req := layout(rnd, l)
	setRanges(l, req)
	warm(l, req)
	base := time.Now().UnixNano() - 600e9
	base -= base % 1e9
	all := map[string][]*loggregator_v2.Envelope{}
	for k := 0; k < r.Scale(2, 20) && r.Violations() == 0; k++ {
		cover(r, rnd, l, req, fmt.Sprintf("p%d", k), base, all)
	}

	// A source of more than MAX_PER_SOURCE keeps the newest of them.
	var es []*loggregator_v2.Envelope
	for i := 0; i < 900; i++ {
		es = append(es, &loggregator_v2.Envelope{SourceId: "many", Timestamp: base + int64(i)*1e6, InstanceId: fmt.Sprint(i), Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte("x")}}})
	}
	for i := 0; i < 900; i += 300 {
		ctx, c := long()
		if _, err := l[rnd.Intn(n)].in.Send(ctx, &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es[i : i+300]}}); err != nil {
			r.Violate("send-failed", "a plain send fails: %v", err)
		}
		c()
	}
	for i, x := range l {
		r.Eval(fmt.Sprint("many ", i), true)
		if m := try(func() string {
			ctx, c := long()
			defer c()
			resp, err := x.out.Read(ctx, &rpc.ReadRequest{SourceId: "many", Limit: 1000})
			if err != nil {
				return err.Error()
			}
			return compare(resp.GetEnvelopes().GetBatch(), es[200:])
		}); m != "" {
			r.Violate("max-per-source", "node %d, 900 envelopes sent, MAX_PER_SOURCE=700: %s", i, m)
			break
		}
	}

	// Strangers.
	strangers := map[string]grpc.DialOption{"no TLS": grpc.WithInsecure(), "no certificate": creds(nil)}
	o := other.Pair("log-cache")
	strangers["a certificate of another CA"] = creds(&o)
	for _, x := range addrs {
		for _, who := range vk.Sorted(strangers) {
			conn, err := grpc.Dial(x, strangers[who])
			must(err)
			for _, m := range methods {
				ctx, c := context.WithTimeout(context.Background(), 2*time.Second)
				var out []byte
				err := conn.Invoke(ctx, m.path, []byte{}, &out, grpc.ForceCodec(raw{}))
				c()
				r.Eval(x+who+m.path, true)
				if err == nil {
					r.Violate("stranger-served", "a client with %s is served %s", who, m.path)
				}
			}
			conn.Close()
		}
	}
	for _, x := range l {
		x.conn.Close()
	}
	for i, c := range cmds {
		c.Process.Kill()
		c.Wait()
		if s := outs[i].String(); strings.Contains(s, "DATA RACE") || strings.Contains(s, "panic:") {
			k := strings.Index(s, "DATA RACE")
			if k < 0 {
				k = strings.Index(s, "panic:")
			}
			e := k + 3000
			if e > len(s) {
				e = len(s)
			}
			r.Violate("node-broken", "node %d reports: %s", i, s[k:e])
		}
	}
}
