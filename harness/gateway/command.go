package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vk"
	"github.com/shirou/gopsutil/host"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

func freePort(rnd *rand.Rand) int {
	for {
		p := 20000 + rnd.Intn(12000)
		lis, err := net.Listen("tcp", fmt.Sprintf("localhost:%d", p))
		if err == nil {
			lis.Close()
			return p
		}
	}
}

// command runs cmd/gateway in front of a Log Cache that wants its
// certificate. bin/check builds it as version 7.8.9.
func command(r *vk.R) {
	fresh := rand.New(rand.NewSource(time.Now().UnixNano()))
	gwCA, lcCA := vk.NewCA("gateway-ca"), vk.NewCA("lc-ca")
	gf, lf := gwCA.Write(r.Scratch, "localhost"), lcCA.Write(r.Scratch, "log-cache")
	b := &backend{}
	srv, bend := b.serve(r, "127.0.0.1:0", grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{lcCA.Pair("log-cache")}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: lcCA.Pool(),
	})))
	port := freePort(fresh)
	c := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "gateway"))
	c.Env = []string{"PATH=" + os.Getenv("PATH"), fmt.Sprintf("ADDR=127.0.0.1:%d", port), "LOG_CACHE_ADDR=" + bend, fmt.Sprintf("HEALTH_PORT=%d", freePort(fresh)),
		"PROXY_CERT_PATH=" + gf.Cert, "PROXY_KEY_PATH=" + gf.Key, "CA_PATH=" + lf.CA, "CERT_PATH=" + lf.Cert, "KEY_PATH=" + lf.Key, "GORACE=halt_on_error=0"}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		r.Fatal("cmd/gateway: %v", err)
	}
	defer func() {
		c.Process.Kill()
		c.Wait()
		s := out.String()
		for _, w := range []string{"DATA RACE", "concurrent map", "panic:", "panic serving"} {
			if k := strings.Index(s, w); k >= 0 {
				r.Violate("command-broken", "cmd/gateway reports: %.3000s", s[k:])
				return
			}
		}
	}()
	g := &rig{r: r, b: b, srv: srv, bend: bend, base: fmt.Sprintf("https://127.0.0.1:%d", port), cl: httpClient(gwCA)}
	for end := time.Now().Add(40 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		_, err := g.get("/api/v1/info")
		if err == nil {
			break
		}
		if time.Now().After(end) {
			r.Violate("not-serving", "cmd/gateway does not answer: %v", err)
			return
		}
	}
	from, err1 := host.Uptime()
	a, err := g.get("/api/v1/info")
	to, err2 := host.Uptime()
	var got map[string]string
	if err != nil || a.code != 200 || json.Unmarshal(a.body, &got) != nil {
		r.Violate("no-answer:info", "cmd/gateway answers GET /api/v1/info with %d %s %v", a.code, a.body, err)
	} else {
		up, err := strconv.ParseInt(got["vm_uptime"], 10, 64)
		if got["version"] != "7.8.9" || err != nil || err1 == nil && err2 == nil && (up < int64(from)-2 || up > int64(to)+2) {
			r.Violate("info", "cmd/gateway of version 7.8.9 on a machine up for %d s answers %s", from, a.body)
		}
	}
	for i := 0; i < r.Scale(250, 8000) && r.Violations() < 10; i++ {
		rnd := r.Rand("command", i)
		q := genRequest(rnd)
		withNoise(rnd, q)
		r.Case(q.path)
		rep, same := genReply(rnd, q.msg, 5)
		g.faithful(q, rep, same, func(s string) string { return "command:" + s })
		r.Count("requests to the command", 1)
		r.Eval("command "+q.path, q.nontriv)
	}
}
