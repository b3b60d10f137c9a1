package vk

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"
)

// CA makes certificates for loopback servers.
type CA struct {
	Cert *x509.Certificate
	Key  *rsa.PrivateKey
	PEM  []byte
	n    int64
}

// CertOpt changes a certificate template.
type CertOpt func(*x509.Certificate)

// NewCA returns a self-signed authority.
func NewCA(name string) *CA {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &CA{Cert: c, Key: k, PEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

// Issue returns certificate and key in PEM for a name, valid for server and client use.
func (c *CA) Issue(cn string, opts ...CertOpt) (cert, key []byte) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	n := atomic.AddInt64(&c.n, 1)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano() + n), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames:    []string{cn, "localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
	}
	for _, o := range opts {
		o(t)
	}
	der, err := x509.CreateCertificate(rand.Reader, t, c.Cert, &k.PublicKey, c.Key)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
		pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
}

// Files is a set of certificate files.
type Files struct{ CA, Cert, Key string }

// Write issues a certificate and stores it with the CA's under dir.
func (c *CA) Write(dir, cn string, opts ...CertOpt) Files {
	cert, key := c.Issue(cn, opts...)
	f := Files{filepath.Join(dir, cn+".ca.pem"), filepath.Join(dir, cn+".crt.pem"), filepath.Join(dir, cn+".key.pem")}
	for p, b := range map[string][]byte{f.CA: c.PEM, f.Cert: cert, f.Key: key} {
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
	}
	return f
}

// Pool is a pool with just this CA.
func (c *CA) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(c.Cert)
	return p
}

// Pair is a tls.Certificate for a name.
func (c *CA) Pair(cn string, opts ...CertOpt) tls.Certificate {
	cert, key := c.Issue(cn, opts...)
	p, err := tls.X509KeyPair(cert, key)
	if err != nil {
		panic(err)
	}
	return p
}
