// Monitors for internal/tls and the code that connects with it: C34.
package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	sharedtls "code.cloudfoundry.org/log-cache/internal/tls"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vk"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

func main() {
	vk.Main(map[string]vk.Check{
		"C34": {
			Rule: "real handshakes over loopback between a connection made from the shared settings and a peer whose certificate (issuer, name, validity, usage, chain), protocol versions and cipher suites are generated; generated damage to the certificate files; the node's and the auth proxy's servers; the blackbox' clients; non-trivial: every handshake",
			Assumptions: []string{
				"crypto/tls and crypto/x509 implement what the settings say",
			},
			Parts: []vk.Part{
				{Name: "as-client", Run: asClient},
				{Name: "as-server", Run: asServer},
				{Name: "files", Run: brokenFiles},
				{Name: "isolation", Run: isolation},
				{Name: "grpc", Run: overGRPC},
				{Name: "auth-proxy", Run: authProxy},
				{Name: "node", Run: node, Limit: 3 * time.Minute},
			},
		},
	})
}

const cn = "log-cache"

// pki is what the generated peers are made of. Keys are expensive, so a fixed
// set of certificates is made once per part.
type pki struct {
	ca, other *vk.CA
	// foreign authorities that are near at hand
	chained, system *vk.CA
	systemFile      string
	files           vk.Files
	peers           []peer
}

// peer is a certificate and whether it must be believed.
type peer struct {
	name       string
	cert       tls.Certificate
	none       bool
	asServer   bool // acceptable as the server we dial
	asClient   bool // acceptable as a client of ours
	noRSASuite bool // cannot use the two suites under TLS 1.2
}

func noIP(t *x509.Certificate) { t.IPAddresses = nil }

func names(ns ...string) vk.CertOpt {
	return func(t *x509.Certificate) { t.DNSNames, t.IPAddresses = ns, nil }
}

func newPKI(r *vk.R) *pki {
	p := &pki{ca: vk.NewCA("ca"), other: vk.NewCA("ca")}
	p.files = p.ca.Write(r.Scratch, cn)
	// The certificate file carries a foreign authority along, and the system
	// trusts another: neither makes a peer trusted.
	p.chained, p.system = vk.NewCA("ca"), vk.NewCA("ca")
	b, err := os.ReadFile(p.files.Cert)
	must(err)
	must(os.WriteFile(p.files.Cert, append(b, p.chained.PEM...), 0o600))
	p.systemFile = filepath.Join(r.Scratch, "system.pem")
	must(os.WriteFile(p.systemFile, p.system.PEM, 0o600))
	os.Setenv("SSL_CERT_FILE", p.systemFile)
	os.Setenv("SSL_CERT_DIR", r.Scratch+"/none")
	add := func(name string, c tls.Certificate, srv, cl bool) {
		p.peers = append(p.peers, peer{name: name, cert: c, asServer: srv, asClient: cl})
	}
	add("good", p.ca.Pair(cn), true, true)
	add("good-wide", p.ca.Pair("x", names("a", "b", cn)), true, true)
	add("other-ca-same-name", p.other.Pair(cn), false, false)
	add("ca-the-system-trusts", p.system.Pair(cn), false, false)
	add("ca-in-our-certificate-file", p.chained.Pair(cn), false, false)
	add("wrong-name", p.ca.Pair("evil", names("evil", "log-cache.evil", "xlog-cache", "localhost")), false, true)
	add("only-common-name", p.ca.Pair(cn, names()), false, true)
	add("wildcard", p.ca.Pair("w", names("*", "*.log-cache")), false, true)
	add("expired", p.ca.Pair(cn, func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Minute) }), false, false)
	add("not-yet", p.ca.Pair(cn, func(t *x509.Certificate) { t.NotBefore = time.Now().Add(time.Hour) }), false, false)
	add("client-usage-only", p.ca.Pair(cn, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }), false, true)
	add("server-usage-only", p.ca.Pair(cn, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} }), true, false)
	add("self-signed", selfSigned(), false, false)
	// An intermediate of the right CA, sent along or not.
	mid := intermediate(p.ca)
	leaf := mid.Pair(cn)
	with := leaf
	with.Certificate = append(append([][]byte{}, leaf.Certificate...), mid.Cert.Raw)
	add("intermediate-sent", with, true, true)
	add("intermediate-missing", leaf, false, false)
	// A leaf of the right CA that poses as an authority.
	fake := notAnAuthority(p.ca)
	fl := fake.Pair(cn)
	fl.Certificate = append(fl.Certificate, fake.Cert.Raw)
	add("issued-by-a-leaf", fl, false, false)
	// ECDSA: fine under TLS 1.3, no allowed suite under TLS 1.2 as a server.
	add("ecdsa", ecdsaPair(p.ca), true, true)
	p.peers[len(p.peers)-1].noRSASuite = true
	p.peers = append(p.peers, peer{name: "no-certificate", none: true})
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func selfSigned() tls.Certificate {
	ca := vk.NewCA(cn)
	// A CA certificate that carries the name itself.
	t := *ca.Cert
	t.DNSNames = []string{cn}
	t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	der, err := x509.CreateCertificate(crand.Reader, &t, &t, &ca.Key.PublicKey, ca.Key)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: ca.Key}
}

func intermediate(ca *vk.CA) *vk.CA {
	m := vk.NewCA("mid")
	t := &x509.Certificate{
		SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "mid"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(crand.Reader, t, ca.Cert, &m.Key.PublicKey, ca.Key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	m.Cert = c
	return m
}

func notAnAuthority(ca *vk.CA) *vk.CA {
	m := vk.NewCA("leaf")
	t := &x509.Certificate{
		SerialNumber: big.NewInt(8), Subject: pkix.Name{CommonName: "leaf"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(crand.Reader, t, ca.Cert, &m.Key.PublicKey, ca.Key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	m.Cert = c
	return m
}

func ecdsaPair(ca *vk.CA) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(9), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: []string{cn},
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	der, err := x509.CreateCertificate(crand.Reader, t, ca.Cert, &k.PublicKey, ca.Key)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

var strong = map[uint16]bool{
	tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256: true,
	tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384: true,
}

// suites12 are the suites a peer may offer up to TLS 1.2.
var suites12 = []uint16{
	tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
	tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
	tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
	tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256,
	tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA,
	tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA,
	tls.TLS_RSA_WITH_AES_128_GCM_SHA256,
	tls.TLS_RSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_RSA_WITH_AES_128_CBC_SHA,
	tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA,
	tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA,
	tls.TLS_ECDHE_RSA_WITH_RC4_128_SHA,
}

// offer is what the peer speaks.
type offer struct {
	Min, Max uint16
	Suites   []uint16
}

func genOffer(rnd *rand.Rand) offer {
	vs := []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}
	i := rnd.Intn(4)
	j := i + rnd.Intn(4-i)
	if rnd.Intn(3) == 0 {
		i, j = 2, 2
	}
	o := offer{Min: vs[i], Max: vs[j]}
	switch rnd.Intn(4) {
	case 0:
		o.Suites = suites12
	case 1:
		o.Suites = []uint16{suites12[rnd.Intn(2)]}
	case 2:
		o.Suites = []uint16{suites12[rnd.Intn(len(suites12))]}
	default:
		for _, k := range rnd.Perm(len(suites12))[:1+rnd.Intn(5)] {
			o.Suites = append(o.Suites, suites12[k])
		}
	}
	return o
}

// fits tells whether the offer can meet the required strength.
func (o offer) fits(noRSA bool) bool {
	if o.Max >= tls.VersionTLS13 {
		return true
	}
	if o.Max < tls.VersionTLS12 || noRSA {
		return false
	}
	for _, s := range o.Suites {
		if strong[s] {
			return true
		}
	}
	return false
}

func (o offer) config() *tls.Config {
	return &tls.Config{MinVersion: o.Min, MaxVersion: o.Max, CipherSuites: o.Suites}
}

func (o offer) String() string {
	var s []string
	for _, x := range o.Suites {
		s = append(s, tls.CipherSuiteName(x))
	}
	return fmt.Sprintf("%s..%s %s", tls.VersionName(o.Min), tls.VersionName(o.Max), strings.Join(s, ","))
}

// shake makes a connection between the two and lets one byte pass each way: only
// then both sides have judged the other.
func shake(server, client *tls.Config) (state *tls.ConnectionState, serr, cerr error) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer lis.Close()
	type res struct {
		st  tls.ConnectionState
		err error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := lis.Accept()
		if err != nil {
			ch <- res{err: err}
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(60 * time.Second))
		t := tls.Server(c, server)
		err = t.Handshake()
		if err == nil {
			var b [1]byte
			if _, err = io.ReadFull(t, b[:]); err == nil {
				_, err = t.Write(b[:])
			}
		}
		ch <- res{t.ConnectionState(), err}
	}()
	c, err := net.Dial("tcp", lis.Addr().String())
	must(err)
	c.SetDeadline(time.Now().Add(60 * time.Second))
	t := tls.Client(c, client)
	cerr = t.Handshake()
	if cerr == nil {
		var b [1]byte
		if _, cerr = t.Write([]byte{1}); cerr == nil {
			_, cerr = io.ReadFull(t, b[:])
		}
	}
	c.Close()
	r := <-ch
	if cerr == nil && r.err == nil {
		s := t.ConnectionState()
		return &s, nil, nil
	}
	return nil, r.err, cerr
}

func checkStrength(r *vk.R, st *tls.ConnectionState, what string) {
	if st.Version < tls.VersionTLS12 {
		r.Violate("weak-version", "%s: connected with %s", what, tls.VersionName(st.Version))
	}
	if st.Version == tls.VersionTLS12 && !strong[st.CipherSuite] {
		r.Violate("weak-suite", "%s: connected with %s", what, tls.CipherSuiteName(st.CipherSuite))
	}
	r.Count("connected", 1)
	r.Count("connected_"+tls.VersionName(st.Version), 1)
}

func mutual(r *vk.R, p *pki, name string) *tls.Config {
	c, err := sharedtls.NewMutualTLSConfig(p.files.CA, p.files.Cert, p.files.Key, name)
	if err != nil || c == nil {
		r.Violate("good-files-refused", "valid files gave %v, %v", c, err)
		r.Finish()
	}
	return c
}

func asClient(r *vk.R) {
	p := newPKI(r)
	for i := 0; i < r.Scale(600, 8000); i++ {
		rnd := r.Rand("c", i)
		q := p.peers[rnd.Intn(len(p.peers)-1)]
		if rnd.Intn(3) == 0 {
			q = p.peers[0]
		}
		o := genOffer(rnd)
		want := q.asServer && o.fits(q.noRSASuite)
		what := fmt.Sprintf("server with certificate %q offering %s", q.name, o)
		r.Case(what)
		sc := o.config()
		sc.Certificates = []tls.Certificate{q.cert}
		// The server asks for our certificate and insists on it.
		sc.ClientAuth, sc.ClientCAs = tls.RequireAndVerifyClientCert, p.ca.Pool()
		st, serr, cerr := shake(sc, mutual(r, p, cn))
		r.Eval(what, true)
		judge(r, want, st, serr, cerr, what)
		if st != nil {
			checkStrength(r, st, what)
		}
	}
	// Without a name nobody can be the expected one.
	for _, q := range p.peers[:len(p.peers)-1] {
		st, serr, cerr := shake(&tls.Config{Certificates: []tls.Certificate{q.cert}}, mutual(r, p, ""))
		what := "expecting no name, server with certificate " + q.name
		r.Eval(what, true)
		judge(r, false, st, serr, cerr, what)
	}
	// The version is a requirement of its own, not a consequence of the suites.
	for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11} {
		for role := 0; role < 4; role++ {
			c := mutual(r, p, cn)
			if role > 1 {
				c = sharedtls.NewBaseTLSConfig()
				c.RootCAs, c.ServerName, c.Certificates = p.ca.Pool(), cn, []tls.Certificate{p.peers[0].cert}
			}
			c.CipherSuites = suites12
			o := offer{v, v, suites12}
			what := fmt.Sprintf("any suite, role %d, peer offering %s", role, tls.VersionName(v))
			r.Eval(what, true)
			var st *tls.ConnectionState
			var serr, cerr error
			if role%2 == 0 {
				sc := o.config()
				sc.Certificates = []tls.Certificate{p.peers[0].cert}
				st, serr, cerr = shake(sc, c)
			} else {
				st, serr, cerr = shake(c, clientConfig(p, p.peers[0], o))
			}
			judge(r, false, st, serr, cerr, what)
		}
	}
	// The name asked for decides, whatever it is.
	for i, name := range []string{"a", "b", cn, "c", "A", "a.b", "localhost"} {
		q := p.peers[1]
		st, serr, cerr := shake(&tls.Config{Certificates: []tls.Certificate{q.cert}}, mutual(r, p, name))
		what := fmt.Sprintf("expecting %q from a server named a, b, log-cache", name)
		r.Eval(what, true)
		judge(r, i < 3 || name == "A", st, serr, cerr, what)
	}
}

func judge(r *vk.R, want bool, st *tls.ConnectionState, serr, cerr error, what string) {
	if want && st == nil {
		r.Violate("good-peer-refused", "%s: server %v, client %v", what, serr, cerr)
	}
	if !want && st != nil {
		r.Violate("bad-peer-accepted", "%s: connected (%s, %s)", what, tls.VersionName(st.Version), tls.CipherSuiteName(st.CipherSuite))
	}
	if !want {
		r.Count("refused", 1)
	}
}

func clientConfig(p *pki, q peer, o offer) *tls.Config {
	cc := o.config()
	cc.RootCAs, cc.ServerName = p.ca.Pool(), cn
	if !q.none {
		c := q.cert
		// Sent whatever issuers the server asks for.
		cc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &c, nil }
	}
	return cc
}

func asServer(r *vk.R) {
	p := newPKI(r)
	for i := 0; i < r.Scale(600, 8000); i++ {
		rnd := r.Rand("s", i)
		q := p.peers[rnd.Intn(len(p.peers))]
		if rnd.Intn(3) == 0 {
			q = p.peers[0]
		}
		o := genOffer(rnd)
		want := q.asClient && o.fits(false)
		what := fmt.Sprintf("client with certificate %q offering %s", q.name, o)
		r.Case(what)
		st, serr, cerr := shake(mutual(r, p, cn), clientConfig(p, q, o))
		r.Eval(what, true)
		judge(r, want, st, serr, cerr, what)
		if st != nil {
			checkStrength(r, st, what)
		}
	}
	// The base settings, as the auth proxy's server uses them: no client certificate needed.
	for i := 0; i < r.Scale(200, 2000); i++ {
		o := genOffer(r.Rand("b", i))
		c := sharedtls.NewBaseTLSConfig()
		c.Certificates = []tls.Certificate{p.peers[0].cert}
		what := "base settings, client offering " + o.String()
		st, serr, cerr := shake(c, clientConfig(p, peer{none: true}, o))
		r.Eval(what, true)
		judge(r, o.fits(false), st, serr, cerr, what)
		if st != nil {
			checkStrength(r, st, what)
		}
	}
	// And as a client: whoever is trusted.
	for i, q := range p.peers[:len(p.peers)-1] {
		c := sharedtls.NewBaseTLSConfig()
		c.RootCAs, c.ServerName = p.ca.Pool(), cn
		st, serr, cerr := shake(&tls.Config{Certificates: []tls.Certificate{q.cert}}, c)
		what := "base settings, server with certificate " + q.name
		r.Eval(fmt.Sprint(i, what), true)
		judge(r, q.asServer, st, serr, cerr, what)
	}
}

// damage is something wrong with a file.
func damaged(rnd *rand.Rand, good, otherKind []byte) ([]byte, string) {
	switch rnd.Intn(7) {
	case 0:
		return nil, "missing"
	case 1:
		return []byte{}, "empty"
	case 2:
		return good[:len(good)/2-rnd.Intn(100)], "cut"
	case 3:
		b := make([]byte, 500)
		rnd.Read(b)
		return b, "garbage"
	case 4:
		return otherKind, "swapped"
	case 5:
		blk, _ := pem.Decode(good)
		for i := 0; i < 8; i++ {
			blk.Bytes[i] ^= 0xff
		}
		return pem.EncodeToMemory(blk), "bad-der"
	}
	blk, _ := pem.Decode(good)
	blk.Type = "TOTALLY SOMETHING"
	return pem.EncodeToMemory(blk), "wrong-block"
}

func brokenFiles(r *vk.R) {
	p := newPKI(r)
	read := func(f string) []byte {
		b, err := os.ReadFile(f)
		must(err)
		return b
	}
	good := [3][]byte{read(p.files.CA), read(p.files.Cert), read(p.files.Key)}
	_, otherKey := p.other.Issue(cn)
	otherCert, _ := p.other.Issue(cn)
	for i := 0; i < r.Scale(400, 4000); i++ {
		rnd := r.Rand("f", i)
		bs := good
		var how []string
		which := 1 + rnd.Intn(7)
		for k := 0; k < 3; k++ {
			if which>>k&1 == 0 {
				continue
			}
			if k == 2 && rnd.Intn(4) == 0 {
				bs[k] = otherKey
				how = append(how, "key of another certificate")
				continue
			}
			if k == 1 && rnd.Intn(4) == 0 {
				bs[k] = otherCert
				how = append(how, "certificate of another key")
				continue
			}
			other := good[2]
			if k == 2 {
				other = good[1]
			}
			var h string
			bs[k], h = damaged(rnd, good[k], other)
			how = append(how, fmt.Sprintf("%s %s", []string{"ca", "cert", "key"}[k], h))
		}
		dir := filepath.Join(r.Scratch, fmt.Sprint("f", i))
		must(os.Mkdir(dir, 0o700))
		var fs [3]string
		for k := range bs {
			fs[k] = filepath.Join(dir, fmt.Sprint(k))
			if bs[k] != nil {
				must(os.WriteFile(fs[k], bs[k], 0o600))
			}
		}
		what := strings.Join(how, ", ")
		r.Case(what)
		r.Eval(what, true)
		r.Safely(what, func() {
			c, err := sharedtls.NewMutualTLSConfig(fs[0], fs[1], fs[2], cn)
			if err == nil || c != nil {
				r.Violate("broken-files-accepted", "%s: got a configuration (%v), error %v", what, c != nil, err)
			}
			cr, err := sharedtls.NewTLSCredentials(fs[0], fs[1], fs[2], cn)
			if err == nil || cr != nil {
				r.Violate("broken-files-accepted", "%s: got credentials (%v), error %v", what, cr != nil, err)
			}
		})
		os.RemoveAll(dir)
	}
	// Valid files of any kind the loader must cope with.
	two := append(append([]byte{}, p.other.PEM...), good[0]...)
	f := filepath.Join(r.Scratch, "two")
	must(os.WriteFile(f, two, 0o600))
	c, err := sharedtls.NewMutualTLSConfig(f, p.files.Cert, p.files.Key, cn)
	r.Eval("two CAs", true)
	if err != nil {
		r.Violate("good-files-refused", "two CAs in the file: %v", err)
		return
	}
	for _, k := range []int{0, 2} {
		if st, serr, cerr := shake(&tls.Config{Certificates: []tls.Certificate{p.peers[k].cert}}, c); st == nil {
			r.Violate("good-peer-refused", "two CAs in the file, server of CA %d: %v %v", k, serr, cerr)
		}
	}
}

// isolation: settings do not leak between connections.
func isolation(r *vk.R) {
	p := newPKI(r)
	good, bad := p.peers[0], p.peers[2]
	probe := func(what string) {
		r.Eval(what, true)
		for _, o := range []offer{{tls.VersionTLS10, tls.VersionTLS11, suites12}, {tls.VersionTLS12, tls.VersionTLS12, suites12[4:]}} {
			sc := o.config()
			sc.Certificates = []tls.Certificate{good.cert}
			st, serr, cerr := shake(sc, mutual(r, p, cn))
			judge(r, false, st, serr, cerr, what+", weak server "+o.String())
			st, serr, cerr = shake(mutual(r, p, cn), clientConfig(p, good, o))
			judge(r, false, st, serr, cerr, what+", weak client "+o.String())
		}
		st, serr, cerr := shake(&tls.Config{Certificates: []tls.Certificate{bad.cert}}, mutual(r, p, cn))
		judge(r, false, st, serr, cerr, what+", untrusted server")
		st, serr, cerr = shake(mutual(r, p, cn), clientConfig(p, bad, offer{tls.VersionTLS12, tls.VersionTLS13, suites12}))
		judge(r, false, st, serr, cerr, what+", untrusted client")
		st, serr, cerr = shake(&tls.Config{Certificates: []tls.Certificate{good.cert}}, mutual(r, p, cn))
		judge(r, true, st, serr, cerr, what+", good server")
	}
	probe("fresh")
	a, b := sharedtls.NewBaseTLSConfig(), mutual(r, p, "x")
	for _, c := range []*tls.Config{a, b} {
		c.InsecureSkipVerify = true
		c.MinVersion = tls.VersionTLS10
		c.CipherSuites = append(c.CipherSuites[:len(c.CipherSuites):len(c.CipherSuites)], suites12...)
		c.ClientAuth = tls.NoClientCert
		if c.RootCAs != nil {
			c.RootCAs.AddCert(p.other.Cert)
		}
	}
	probe("after other configurations were weakened")

	// Clients of the blackbox: skipping verification is for that client alone.
	hits := make(chan string, 1000)
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		hits <- q.URL.Path
		fmt.Fprint(w, `{"access_token":"t","token_type":"bearer","status":"success","data":{"resultType":"vector","result":[]},"version":"2.0.0"}`)
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.TLS = &tls.Config{Certificates: []tls.Certificate{p.other.Pair("localhost")}}
	srv.StartTLS()
	defer srv.Close()
	ctx := context.Background()
	ask := func(c blackbox.QueryableClient) (err error) {
		r.Safely("query", func() { _, err = c.PromQL(ctx, `m{source_id="x"}`) })
		return err
	}
	drain := func() (n int) {
		for {
			select {
			case <-hits:
				n++
			default:
				return n
			}
		}
	}
	check := func(what string, c blackbox.QueryableClient, want bool) {
		drain()
		err := ask(c)
		n := drain()
		r.Eval(what, true)
		if want && (err != nil || n == 0) {
			r.Violate("skip-verify-ignored", "%s: %v", what, err)
		}
		if !want && (err == nil || n > 0) {
			r.Violate("untrusted-http-server", "%s: an untrusted server was asked (%d requests), error %v", what, n, err)
		}
	}
	newC := func(skip bool) blackbox.QueryableClient {
		return blackbox.NewHttpEgressClient(srv.URL, srv.URL, "id", "secret", skip)
	}
	before := newC(false)
	check("verifying client", before, false)
	skipping := newC(true)
	check("skipping client", skipping, true)
	check("verifying client made before a skipping one", before, false)
	check("verifying client made after a skipping one", newC(false), false)
	if resp, err := http.Get(srv.URL); err == nil {
		resp.Body.Close()
		r.Violate("default-client-weakened", "http.DefaultClient accepts an untrusted server after a skipping client was made")
	}
	if t, ok := http.DefaultTransport.(*http.Transport); !ok || (t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify) {
		r.Violate("default-client-weakened", "http.DefaultTransport skips verification")
	}
	probe("after skipping clients were made")
	// Making configurations concurrently.
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				c, err := sharedtls.NewMutualTLSConfig(p.files.CA, p.files.Cert, p.files.Key, fmt.Sprint("n", i))
				if err != nil || c.ServerName != fmt.Sprint("n", i) {
					r.Violate("mixed-up", "concurrent configurations: %v", err)
					return
				}
				c.CipherSuites = append([]uint16(nil), c.CipherSuites...)
				if !reflect.DeepEqual(c.CipherSuites, sharedtls.NewBaseTLSConfig().CipherSuites) {
					r.Violate("mixed-up", "suites differ")
				}
			}
		}(i)
	}
	wg.Wait()
}

type stubEgress struct{}

func (stubEgress) Read(context.Context, *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	return &logcache_v1.ReadResponse{}, nil
}
func (stubEgress) Meta(context.Context, *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	return &logcache_v1.MetaResponse{}, nil
}

// call makes one gRPC call and tells whether it was answered.
func call(addr string, creds grpc.DialOption) error {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, addr, creds)
	if err != nil {
		return err
	}
	defer conn.Close()
	_, err = logcache_v1.NewEgressClient(conn).Meta(ctx, &logcache_v1.MetaRequest{LocalOnly: true})
	return err
}

// overGRPC: the credentials in both roles, with gRPC's own use of them.
func overGRPC(r *vk.R) {
	p := newPKI(r)
	creds, err := sharedtls.NewTLSCredentials(p.files.CA, p.files.Cert, p.files.Key, cn)
	if err != nil {
		r.Violate("good-files-refused", "%v", err)
		return
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := grpc.NewServer(grpc.Creds(creds))
	logcache_v1.RegisterEgressServer(s, stubEgress{})
	go s.Serve(lis)
	defer s.Stop()
	clients(r, p, lis.Addr().String(), "server with the shared credentials")
	r.Eval("shared client", true)
	if err := call(lis.Addr().String(), grpc.WithTransportCredentials(sharedtls.TLS{CAPath: p.files.CA, CertPath: p.files.Cert, KeyPath: p.files.Key}.Credentials(cn))); err != nil {
		r.Violate("good-peer-refused", "client and server with the shared credentials: %v", err)
	}
	if err := call(lis.Addr().String(), grpc.WithTransportCredentials(sharedtls.TLS{CAPath: p.files.CA, CertPath: p.files.Cert, KeyPath: p.files.Key}.Credentials("someone"))); err == nil {
		r.Violate("bad-peer-accepted", "client expecting another name connected")
	}
	// Without a name, gRPC expects the host it dials.
	nameless, err := sharedtls.NewTLSCredentials(p.files.CA, p.files.Cert, p.files.Key, "")
	if err != nil {
		r.Violate("good-files-refused", "without a name: %v", err)
		return
	}
	for _, q := range []peer{{name: "loopback", cert: p.ca.Pair("x"), asServer: true}, {name: "other CA, loopback", cert: p.other.Pair("x")}, {name: "elsewhere", cert: p.ca.Pair("x", noIP)}} {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{q.cert}})))
		logcache_v1.RegisterEgressServer(s, stubEgress{})
		go s.Serve(lis)
		err = call(lis.Addr().String(), grpc.WithTransportCredentials(nameless))
		r.Eval("nameless, server "+q.name, true)
		if q.asServer != (err == nil) {
			r.Violate(map[bool]string{true: "good-peer-refused", false: "bad-peer-accepted"}[q.asServer], "no name given, gRPC server with certificate %q: %v", q.name, err)
		}
		s.Stop()
	}
	// Servers of any kind against the shared client credentials.
	for _, q := range p.peers[:len(p.peers)-1] {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{q.cert}})))
		logcache_v1.RegisterEgressServer(s, stubEgress{})
		go s.Serve(lis)
		err = call(lis.Addr().String(), grpc.WithTransportCredentials(creds))
		r.Eval("server "+q.name, true)
		if q.asServer != (err == nil) {
			r.Violate(map[bool]string{true: "good-peer-refused", false: "bad-peer-accepted"}[q.asServer], "gRPC server with certificate %q: %v", q.name, err)
		}
		s.Stop()
	}
}

func clients(r *vk.R, p *pki, addr, who string) {
	for _, q := range p.peers {
		cc := clientConfig(p, q, offer{tls.VersionTLS12, tls.VersionTLS13, nil})
		err := call(addr, grpc.WithTransportCredentials(credentials.NewTLS(cc)))
		r.Eval(who+" "+q.name, true)
		r.Count("calls", 1)
		if q.asClient != (err == nil) {
			r.Violate(map[bool]string{true: "good-peer-refused", false: "client-without-certificate"}[q.asClient], "%s, gRPC client with certificate %q: %v", who, q.name, err)
		}
	}
	if err := call(addr, grpc.WithInsecure()); err == nil {
		r.Violate("client-without-certificate", "%s: a client without TLS was answered", who)
	}
}

// authProxy: the proxy's listener and its connection to the gateway.
func authProxy(r *vk.R) {
	p := newPKI(r)
	loc := p.ca.Write(r.Scratch, "localhost")
	gw := func(c tls.Certificate) *httptest.Server {
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { fmt.Fprint(w, "secret") }))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.TLS = &tls.Config{Certificates: []tls.Certificate{c}}
		s.StartTLS()
		return s
	}
	for i, c := range []struct {
		name string
		cert tls.Certificate
		ok   bool
	}{
		{"good", p.ca.Pair("localhost"), true},
		{"other CA", p.other.Pair("localhost"), false},
		{"CA the system trusts", p.system.Pair("localhost"), false},
		{"other name", p.ca.Pair("elsewhere", names("elsewhere")), false},
		{"expired", p.ca.Pair("localhost", func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Minute) }), false},
	} {
		s := gw(c.cert)
		proxy := cfauthproxy.NewCFAuthProxy(strings.Replace(s.URL, "127.0.0.1", "localhost", 1), "127.0.0.1:0", loc.Cert, loc.Key, p.ca.Pool())
		proxy.Start()
		cl := &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: p.ca.Pool(), ServerName: "localhost"}}, Timeout: time.Minute}
		resp, err := cl.Get("https://" + proxy.Addr() + "/x")
		r.Eval("gateway "+c.name, true)
		if err != nil {
			r.Violate("proxy-unreachable", "gateway certificate %q: %v", c.name, err)
		} else {
			b, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			got := resp.StatusCode == 200 && string(b) == "secret"
			if got != c.ok {
				r.Violate(map[bool]string{true: "good-peer-refused", false: "bad-peer-accepted"}[c.ok], "proxy with a gateway whose certificate is %q: status %d %q", c.name, resp.StatusCode, b)
			}
		}
		if i == 0 {
			for k := 0; k < r.Scale(150, 1500); k++ {
				o := genOffer(r.Rand("p", k))
				cc := o.config()
				cc.RootCAs, cc.ServerName = p.ca.Pool(), "localhost"
				conn, err := tls.Dial("tcp", proxy.Addr(), cc)
				what := "auth proxy, client offering " + o.String()
				r.Eval(what, true)
				if err == nil {
					st := conn.ConnectionState()
					judge(r, o.fits(false), &st, nil, nil, what)
					checkStrength(r, &st, what)
					conn.Close()
				} else {
					judge(r, o.fits(false), nil, nil, err, what)
				}
			}
		}
		s.Close()
	}
}

// node: the real command refuses whoever cannot show a certificate, and does not
// start with broken files.
func node(r *vk.R) {
	p := newPKI(r)
	bin := filepath.Join(os.Getenv("VK_BIN"), "log-cache")
	run := func(ca, cert, key string, out io.Writer) (*exec.Cmd, string) {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := lis.Addr().String()
		lis.Close()
		c := exec.Command(bin)
		c.Env = []string{"PATH=" + os.Getenv("PATH"), "ADDR=" + addr, "HEALTH_PORT=0", "NODE_ADDRS=" + addr, "NODE_INDEX=0", "CA_PATH=" + ca, "CERT_PATH=" + cert, "KEY_PATH=" + key, "SSL_CERT_FILE=" + p.systemFile, "SSL_CERT_DIR=" + r.Scratch + "/none", "GORACE=halt_on_error=0"}
		c.Stdout, c.Stderr = out, out
		must(c.Start())
		return c, addr
	}
	c, addr := run(p.files.CA, p.files.Cert, p.files.Key, io.Discard)
	ok := false
	for i := 0; i < 300 && !ok; i++ {
		cc := clientConfig(p, p.peers[0], offer{tls.VersionTLS12, tls.VersionTLS13, nil})
		ok = call(addr, grpc.WithTransportCredentials(credentials.NewTLS(cc))) == nil
		if !ok {
			time.Sleep(100 * time.Millisecond)
		}
	}
	if !ok {
		r.Violate("node-unreachable", "the node does not answer a client with a certificate of its CA")
	} else {
		clients(r, p, addr, "cmd/log-cache")
		for k := 0; k < r.Scale(60, 600); k++ {
			o := genOffer(r.Rand("n", k))
			cc := clientConfig(p, p.peers[0], o)
			cc.NextProtos = []string{"h2"}
			what := "cmd/log-cache, client offering " + o.String()
			r.Eval(what, true)
			conn, err := tls.Dial("tcp", addr, cc)
			if err == nil {
				st := conn.ConnectionState()
				judge(r, o.fits(false), &st, nil, nil, what)
				checkStrength(r, &st, what)
				conn.Close()
			} else {
				judge(r, o.fits(false), nil, nil, err, what)
			}
		}
	}
	c.Process.Kill()
	c.Wait()
	junk := filepath.Join(r.Scratch, "junk")
	must(os.WriteFile(junk, []byte("junk"), 0o600))
	for i, f := range [][3]string{{junk, p.files.Cert, p.files.Key}, {p.files.CA, junk, p.files.Key}, {p.files.CA, p.files.Cert, junk}, {junk + "x", p.files.Cert, p.files.Key}} {
		var out strings.Builder
		c, addr := run(f[0], f[1], f[2], &out)
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		r.Eval(fmt.Sprint("broken ", i), true)
		select {
		case err := <-done:
			if err == nil {
				r.Violate("broken-files-accepted", "cmd/log-cache ended without an error with broken files %v: %s", f, out.String())
			}
		case <-time.After(30 * time.Second):
			r.Violate("broken-files-accepted", "cmd/log-cache keeps running at %s with broken files %v", addr, f)
			c.Process.Kill()
			<-done
		}
	}
}
