//go:build go1.21

package j8a

// Certificates for the harness, made with the standard library alone.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"time"
)

type certSpec struct {
	cn         string
	dns        []string
	ips        []net.IP
	notBefore  time.Time
	notAfter   time.Time
	ca         bool
	serial     *big.Int
	parent     *cert
	key        crypto.Signer
	usage      []x509.ExtKeyUsage
	noKeyUsage bool
}

type cert struct {
	x   *x509.Certificate
	der []byte
	key crypto.Signer
}

var serialCounter int64 = 1000

func rsaKey(bits int) *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, bits)
	if err != nil {
		panic(err)
	}
	return k
}

func ecKey(c elliptic.Curve) *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(c, rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

func makeCert(s certSpec) *cert {
	if s.key == nil {
		s.key = rsaKey(2048)
	}
	if s.notBefore.IsZero() {
		s.notBefore = time.Now().Add(-time.Hour)
	}
	if s.notAfter.IsZero() {
		s.notAfter = time.Now().Add(100 * 24 * time.Hour)
	}
	if s.serial == nil {
		serialCounter++
		s.serial = big.NewInt(serialCounter)
	}
	t := &x509.Certificate{
		SerialNumber:          s.serial,
		Subject:               pkix.Name{CommonName: s.cn},
		NotBefore:             s.notBefore,
		NotAfter:              s.notAfter,
		DNSNames:              s.dns,
		IPAddresses:           s.ips,
		BasicConstraintsValid: true,
		IsCA:                  s.ca,
		ExtKeyUsage:           s.usage,
	}
	if s.ca {
		t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature
	} else {
		t.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment
		if s.usage == nil {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
	}
	parent, pk := t, s.key
	if s.parent != nil {
		parent, pk = s.parent.x, s.parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, s.key.Public(), pk)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &cert{x: x, der: der, key: s.key}
}

func pemCerts(cs ...*cert) string {
	o := ""
	for _, c := range cs {
		o += string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.der}))
	}
	return o
}

func pemKey(k crypto.Signer) string {
	b, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b}))
}

func pemPub(k crypto.PublicKey) string {
	b, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

// yamlBlock indents a PEM text for use as a block scalar
func yamlBlock(s string, indent int) string {
	pad := ""
	for i := 0; i < indent; i++ {
		pad += " "
	}
	o := "|\n"
	line := ""
	for _, c := range s {
		if c == '\n' {
			o += pad + line + "\n"
			line = ""
			continue
		}
		line += string(c)
	}
	if line != "" {
		o += pad + line + "\n"
	}
	return o
}
