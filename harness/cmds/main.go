// Monitors for the commands' settings: C37.
package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vk"
)

func main() {
	log.SetOutput(ioutil.Discard)
	vk.Main(map[string]vk.Check{
		"C37": {
			Rule:  "each of the seven commands is started with complete settings, with each needed setting missing or empty, with each number, duration and file broken in generated ways, and with secrets that are looked for in all it prints, also while UAA and CAPI fail in every way; servers it asks present certificates of other CAs and names; what a running one serves on its health port is asked for over every loopback address; non-trivial: a setting is missing, broken or secret",
			Parts: []vk.Part{{Name: "settings", Run: settings}, {Name: "secrets", Run: secrets}, {Name: "talk", Run: talk}, {Name: "trust", Run: trust}, {Name: "health", Run: health}},
		},
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// command describes the settings of a command.
type command struct {
	name   string
	base   map[string]string
	need   []string // without these it does not start
	number []string
	period []string
	toggle []string
	files  []string
	secret []string
	quiet  bool // has no health port
}

type box struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *box) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *box) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// run is a started command.
type run struct {
	cmd  *exec.Cmd
	out  *box
	done chan bool
	code int
}

func start(dir string, c command, env map[string]string) *run {
	x := &run{out: &box{}, done: make(chan bool)}
	x.cmd = exec.Command(filepath.Join(os.Getenv("VK_BIN"), c.name))
	x.cmd.Dir = dir
	x.cmd.Env = []string{"PATH=" + os.Getenv("PATH")}
	for _, k := range vk.Sorted(env) {
		x.cmd.Env = append(x.cmd.Env, k+"="+env[k])
	}
	x.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	x.cmd.Stdout, x.cmd.Stderr = x.out, x.out
	must(x.cmd.Start())
	go func() {
		x.cmd.Wait()
		x.code = x.cmd.ProcessState.ExitCode()
		close(x.done)
	}()
	return x
}

func (x *run) kill() {
	x.cmd.Process.Kill()
	<-x.done
}

func (x *run) ended(d time.Duration) bool {
	select {
	case <-x.done:
		return true
	case <-time.After(d):
		return false
	}
}

var quietLog = log.New(ioutil.Discard, "", 0)

var ports int32

func port() string {
	for {
		p := 33000 + (int(atomic.AddInt32(&ports, 1))*7+int(time.Now().UnixNano()/1000)%5000)%10000
		lis, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			lis.Close()
			return fmt.Sprint(p)
		}
	}
}

// up waits for the health port. It says "" once it serves.
func up(c command, x *run, env map[string]string) string {
	if c.quiet {
		if x.ended(2 * time.Second) {
			return fmt.Sprintf("ends with %d: %s", x.code, tail(x.out.String()))
		}
		return ""
	}
	for t := time.Now(); time.Since(t) < 40*time.Second; {
		if x.ended(50 * time.Millisecond) {
			return fmt.Sprintf("ends with %d: %s", x.code, tail(x.out.String()))
		}
		if ask("127.0.0.1", env["HEALTH_PORT"]) == http.StatusOK {
			return ""
		}
	}
	return "does not serve its health port: " + tail(x.out.String())
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

var client = &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func ask(host, port string) int {
	resp, err := client.Get("http://" + net.JoinHostPort(host, port) + "/debug/pprof/cmdline")
	if err != nil {
		return 0
	}
	defer resp.Body.Close()
	ioutil.ReadAll(resp.Body)
	return resp.StatusCode
}

// world has the servers and files the commands need.
type world struct {
	dir  string
	ca   *vk.CA
	uaa  *httptest.Server
	cmds []command
	// other is a key that fits no certificate.
	other string
}

func (w *world) close() { w.uaa.Close() }

func newWorld(r *vk.R) *world {
	w := &world{dir: r.Scratch}
	ca := vk.NewCA("ca")
	w.ca = ca
	f := ca.Write(r.Scratch, "log-cache")
	must(os.MkdirAll(filepath.Join(r.Scratch, "other"), 0700))
	w.other = vk.NewCA("ca").Write(filepath.Join(r.Scratch, "other"), "log-cache").Key
	w.uaa = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		rw.Write([]byte(`{"keys":[]}`))
	}))
	w.uaa.TLS = &tls.Config{Certificates: []tls.Certificate{ca.Pair("localhost")}}
	w.uaa.StartTLS()
	_, p, _ := net.SplitHostPort(w.uaa.Listener.Addr().String())
	uaa := "https://localhost:" + p
	own := map[string]string{"CA_PATH": f.CA, "CERT_PATH": f.Cert, "KEY_PATH": f.Key}
	with := func(m map[string]string) map[string]string {
		for k, v := range own {
			m[k] = v
		}
		return m
	}
	tlsFiles := []string{"CA_PATH", "CERT_PATH", "KEY_PATH"}
	w.cmds = []command{
		{
			name:   "log-cache",
			base:   with(map[string]string{"ADDR": "localhost:0", "QUERY_TIMEOUT": "3s", "MEMORY_LIMIT_PERCENT": "70", "MAX_PER_SOURCE": "100", "NODE_INDEX": "0", "NODE_ADDRS": "localhost:1"}),
			need:   append([]string{"CA_PATH", "CERT_PATH", "KEY_PATH"}),
			number: []string{"HEALTH_PORT", "MEMORY_LIMIT_PERCENT", "MAX_PER_SOURCE", "NODE_INDEX"},
			period: []string{"QUERY_TIMEOUT"},
			files:  tlsFiles,
		},
		{
			name:   "scheduler",
			base:   with(map[string]string{"INTERVAL": "1s", "COUNT": "3", "REPLICATION_FACTOR": "1", "NODE_ADDRS": "localhost:1,localhost:2"}),
			need:   tlsFiles,
			number: []string{"HEALTH_PORT", "COUNT", "REPLICATION_FACTOR"},
			period: []string{"INTERVAL"},
			files:  tlsFiles,
		},
		{
			name:   "nozzle",
			base:   with(map[string]string{"LOGS_PROVIDER_ADDR": "localhost:1", "LOG_CACHE_ADDR": "localhost:1", "SHARD_ID": "x", "SELECTORS": "log,gauge", "LOGS_PROVIDER_CA_FILE_PATH": f.CA, "LOGS_PROVIDER_CERT_FILE_PATH": f.Cert, "LOGS_PROVIDER_KEY_FILE_PATH": f.Key}),
			need:   append([]string{"LOGS_PROVIDER_ADDR", "LOGS_PROVIDER_CA_FILE_PATH", "LOGS_PROVIDER_CERT_FILE_PATH", "LOGS_PROVIDER_KEY_FILE_PATH"}, tlsFiles...),
			number: []string{"HEALTH_PORT"},
			files:  append([]string{"LOGS_PROVIDER_CA_FILE_PATH", "LOGS_PROVIDER_CERT_FILE_PATH", "LOGS_PROVIDER_KEY_FILE_PATH"}, tlsFiles...),
		},
		{
			name:   "syslog-server",
			base:   with(map[string]string{"LOG_CACHE_ADDR": "localhost:1", "SYSLOG_PORT": "0", "SYSLOG_TLS_CERT_PATH": f.Cert, "SYSLOG_TLS_KEY_PATH": f.Key, "SYSLOG_IDLE_TIMEOUT": "1m"}),
			need:   append([]string{"SYSLOG_TLS_CERT_PATH", "SYSLOG_TLS_KEY_PATH"}, tlsFiles...),
			number: []string{"HEALTH_PORT", "SYSLOG_PORT"},
			period: []string{"SYSLOG_IDLE_TIMEOUT"},
			files:  append([]string{"SYSLOG_TLS_CERT_PATH", "SYSLOG_TLS_KEY_PATH"}, tlsFiles...),
		},
		{
			name:   "gateway",
			base:   with(map[string]string{"ADDR": "localhost:0", "LOG_CACHE_ADDR": "localhost:1", "PROXY_CERT_PATH": f.Cert, "PROXY_KEY_PATH": f.Key}),
			need:   append([]string{"PROXY_CERT_PATH", "PROXY_KEY_PATH"}, tlsFiles...),
			number: []string{"HEALTH_PORT"},
			files:  append([]string{"PROXY_CERT_PATH", "PROXY_KEY_PATH"}, tlsFiles...),
		},
		{
			name: "cf-auth-proxy",
			base: map[string]string{
				"LOG_CACHE_GATEWAY_ADDR": "localhost:1", "ADDR": "localhost:0", "INTERNAL_IP": "1.2.3.4",
				"EXTERNAL_CERT": f.Cert, "EXTERNAL_KEY": f.Key, "PROXY_CA_PATH": f.CA, "SKIP_CERT_VERIFY": "false",
				"TOKEN_PRUNING_INTERVAL": "1m", "CACHE_EXPIRATION_INTERVAL": "1m",
				"CAPI_ADDR": "https://localhost:1", "CAPI_CA_PATH": f.CA, "CAPI_COMMON_NAME": "capi",
				"UAA_CLIENT_ID": "me", "UAA_CLIENT_SECRET": "you", "UAA_ADDR": uaa, "UAA_CA_PATH": f.CA,
			},
			need:   []string{"EXTERNAL_CERT", "EXTERNAL_KEY", "PROXY_CA_PATH", "CAPI_ADDR", "CAPI_CA_PATH", "CAPI_COMMON_NAME", "UAA_CLIENT_ID", "UAA_CLIENT_SECRET", "UAA_ADDR", "UAA_CA_PATH"},
			number: []string{"HEALTH_PORT"},
			period: []string{"TOKEN_PRUNING_INTERVAL", "CACHE_EXPIRATION_INTERVAL"},
			toggle: []string{"SKIP_CERT_VERIFY"},
			files:  []string{"EXTERNAL_CERT", "EXTERNAL_KEY", "PROXY_CA_PATH", "CAPI_CA_PATH", "UAA_CA_PATH"},
			secret: []string{"UAA_CLIENT_SECRET"},
		},
		{
			name:   "blackbox",
			base:   with(map[string]string{"EMISSION_INTERVAL": "1s", "SAMPLE_INTERVAL": "1s", "WINDOW_INTERVAL": "10s", "WINDOW_LAG": "1s", "SOURCE_ID": "bb", "CF_BLACKBOX_ENABLED": "true", "DATA_SOURCE_HTTP_ADDR": uaa, "UAA_ADDR": uaa, "CLIENT_ID": "me", "CLIENT_SECRET": "you", "SKIP_TLS_VERIFY": "true", "DATA_SOURCE_GRPC_ADDR": "localhost:1"}),
			need:   append([]string{"EMISSION_INTERVAL", "SAMPLE_INTERVAL", "WINDOW_INTERVAL", "WINDOW_LAG", "SOURCE_ID"}, tlsFiles...),
			period: []string{"EMISSION_INTERVAL", "SAMPLE_INTERVAL", "WINDOW_INTERVAL", "WINDOW_LAG"},
			toggle: []string{"CF_BLACKBOX_ENABLED", "SKIP_TLS_VERIFY"},
			files:  tlsFiles,
			secret: []string{"CLIENT_SECRET"},
			quiet:  true,
		},
	}
	return w
}

func (c command) env(over map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range c.base {
		m[k] = v
	}
	if !c.quiet {
		m["HEALTH_PORT"] = port()
	}
	for k, v := range over {
		if v == "\x00" {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	return m
}

const gone = "\x00"

// settings starts each command with something missing or broken.
func settings(r *vk.R) {
	w := newWorld(r)
	defer w.close()
	type trial struct {
		c    command
		key  string
		what string
		v    string
	}
	var l []trial
	rnd := r.Rand("settings", 0)
	bad := filepath.Join(r.Scratch, "bad.pem")
	must(ioutil.WriteFile(bad, []byte("-----BEGIN CERTIFICATE-----\nbm8=\n-----END CERTIFICATE-----\n"), 0600))
	empty := filepath.Join(r.Scratch, "empty.pem")
	must(ioutil.WriteFile(empty, nil, 0600))
	some := func(vs ...string) []string {
		if r.Thorough() {
			return vs
		}
		rnd.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		return vs[:2]
	}
	for _, c := range w.cmds {
		for _, k := range c.need {
			for _, v := range some(gone, "") {
				l = append(l, trial{c, k, "missing", v})
			}
		}
		for _, k := range c.number {
			for _, v := range some("x", "1x", "99999999999999999999", "0x", "1.5", "--1", "1 2") {
				l = append(l, trial{c, k, "no number", v})
			}
		}
		for _, k := range c.period {
			for _, v := range some("x", "5", "1 s", "1y", "s", "1s1") {
				l = append(l, trial{c, k, "no duration", v})
			}
		}
		for _, k := range c.files {
			vs := []string{filepath.Join(r.Scratch, "missing.pem"), r.Scratch, empty, bad}
			if strings.Contains(k, "KEY") {
				vs = append(vs, w.other)
			}
			for _, v := range vs {
				l = append(l, trial{c, k, "no such file", v})
			}
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, t := range l {
		i, t := i, t
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			e := t.c.env(map[string]string{t.key: t.v})
			x := start(w.dir, t.c, e)
			r.Eval(fmt.Sprint(i, t.c.name, t.key, t.v), true)
			if !x.ended(20 * time.Second) {
				r.Violate("starts", "%s starts though %s is %s (%q)", t.c.name, t.key, t.what, t.v)
				x.kill()
			} else if x.code == 0 {
				r.Violate("ends-well", "%s says it ended well though %s is %s (%q)", t.c.name, t.key, t.what, t.v)
			}
			r.Count("starts refused", 1)
		}()
	}
	wg.Wait()
}

// secrets looks for secrets in what commands print.
func secrets(r *vk.R) {
	w := newWorld(r)
	defer w.close()
	var wg sync.WaitGroup
	for k := 0; k < r.Scale(3, 30); k++ {
		rnd := r.Rand("secrets", k)
		for _, c := range w.cmds {
			if len(c.secret) == 0 {
				continue
			}
			c := c
			over := map[string]string{}
			for _, s := range c.secret {
				over[s] = fmt.Sprintf("geheim%x%x", rnd.Uint64(), rnd.Uint64())
			}
			hide := map[string]string{}
			for s, v := range over {
				hide[s] = v
			}
			fail := k%3 == 1
			if fail {
				over[c.period[rnd.Intn(len(c.period))]] = "broken"
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := start(w.dir, c, c.env(over))
				x.ended(3 * time.Second)
				x.kill()
				r.Eval(fmt.Sprint(k, c.name), true)
				out := x.out.String()
				for s, v := range hide {
					if strings.Contains(out, v) {
						r.Violate("secret", "%s prints %s: %s", c.name, s, tail(out[:strings.Index(out, v)+len(v)]))
					}
				}
				key, err := ioutil.ReadFile(c.base["KEY_PATH"])
				if err == nil && strings.Contains(out, strings.Split(string(key), "\n")[1]) {
					r.Violate("secret", "%s prints its key", c.name)
				}
				r.Count("bytes looked at", len(out))
			}()
		}
	}
	wg.Wait()
}

// health asks running commands for their health port.
func health(r *vk.R) {
	w := newWorld(r)
	defer w.close()
	others := []string{"127.0.0.2", "127.9.9.9"}
	as, _ := net.InterfaceAddrs()
	for _, a := range as {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() {
			others = append(others, n.IP.String())
		}
	}
	var wg sync.WaitGroup
	for i, c := range w.cmds {
		i, c := i, c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < r.Scale(2, 10); k++ {
				rnd := rand.New(rand.NewSource(int64(i*100 + k)))
				over := map[string]string{}
				// What has a default may be left out.
				for _, s := range append(append([]string{}, c.number...), append(c.period, c.toggle...)...) {
					if rnd.Intn(2) == 0 && s != "HEALTH_PORT" && !has(c.need, s) && s != "SYSLOG_PORT" {
						over[s] = gone
					}
				}
				e := c.env(over)
				x := start(w.dir, c, e)
				m := up(c, x, e)
				r.Eval(fmt.Sprint(c.name, k), k > 0)
				if m != "" {
					r.Violate("not-started", "%s with complete settings (without %v) %s", c.name, vk.Sorted(over), m)
				} else if !c.quiet {
					for _, h := range others {
						if s := ask(h, e["HEALTH_PORT"]); s != 0 {
							r.Violate("health-exposed", "%s serves its health port on %s", c.name, h)
						}
						r.Count("addresses asked", 1)
					}
				}
				if m == "" && x.ended(0) {
					r.Violate("not-started", "%s ends with %d: %s", c.name, x.code, tail(x.out.String()))
				}
				x.kill()
				r.Count("commands run", 1)
			}
		}()
	}
	wg.Wait()
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
