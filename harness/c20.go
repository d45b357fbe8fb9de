//go:build go1.21

package j8a

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C20"] = checkC20
	checks["C20w"] = checkC20w
}

// c20Mat is one piece of key material
type c20Mat struct {
	name string
	text string
	priv interface{} // signs tokens that have to pass once text is accepted
}

func c20Pem(typ string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
}

type c20Keys struct {
	rsa, rsa1, rsa4, other *rsa.PrivateKey
	p224, p256, p384, p521 *ecdsa.PrivateKey
	q256, q384, q521       *ecdsa.PrivateKey
	ed                     ed25519.PrivateKey
}

func newC20Keys() *c20Keys {
	_, ed, _ := ed25519.GenerateKey(rand.Reader)
	return &c20Keys{rsa: rsaKey(2048), rsa1: rsaKey(1024), rsa4: rsaKey(3072), other: rsaKey(2048),
		p224: ecKey(elliptic.P224()), p256: ecKey(elliptic.P256()), p384: ecKey(elliptic.P384()), p521: ecKey(elliptic.P521()),
		q256: ecKey(elliptic.P256()), q384: ecKey(elliptic.P384()), q521: ecKey(elliptic.P521()), ed: ed}
}

func (k *c20Keys) stranger(alg string) interface{} {
	switch alg {
	case "ES256":
		return k.q256
	case "ES384":
		return k.q384
	case "ES512":
		return k.q521
	}
	if strings.HasPrefix(alg, "HS") {
		return []byte("some other secret")
	}
	return k.other
}

func (k *c20Keys) signers() map[string]crypto.Signer {
	return map[string]crypto.Signer{"rsa2048": k.rsa, "rsa1024": k.rsa1, "rsa3072": k.rsa4, "p224": k.p224, "p256": k.p256, "p384": k.p384, "p521": k.p521, "ed25519": k.ed}
}

var c20Order = []string{"rsa2048", "rsa1024", "rsa3072", "p224", "p256", "p384", "p521", "ed25519"}

// materials is the alphabet of key material
func (k *c20Keys) materials() []c20Mat {
	out := []c20Mat{{"absent", "", nil}}
	sg := k.signers()
	var pubs []string
	for _, n := range c20Order {
		s := sg[n]
		pkix, _ := x509.MarshalPKIXPublicKey(s.Public())
		pkcs8, _ := x509.MarshalPKCS8PrivateKey(s)
		c := makeCert(certSpec{cn: "k", key: s})
		pubs = append(pubs, c20Pem("PUBLIC KEY", pkix))
		out = append(out,
			c20Mat{n + " public", c20Pem("PUBLIC KEY", pkix), s},
			c20Mat{n + " certificate", c20Pem("CERTIFICATE", c.der), s},
			c20Mat{n + " expired certificate", pemCerts(makeCert(certSpec{cn: "k", key: s, notBefore: time.Unix(1000000000, 0), notAfter: time.Unix(1100000000, 0)})), s},
			c20Mat{n + " private", c20Pem("PRIVATE KEY", pkcs8), nil},
			c20Mat{n + " pkix as RSA PUBLIC KEY", c20Pem("RSA PUBLIC KEY", pkix), nil},
			c20Mat{n + " pkix as EC PUBLIC KEY", c20Pem("EC PUBLIC KEY", pkix), nil},
			c20Mat{n + " pkix as CERTIFICATE", c20Pem("CERTIFICATE", pkix), nil},
			c20Mat{n + " certificate as PUBLIC KEY", c20Pem("PUBLIC KEY", c.der), nil},
			c20Mat{n + " private as PUBLIC KEY", c20Pem("PUBLIC KEY", pkcs8), nil},
			c20Mat{n + " public, text after", c20Pem("PUBLIC KEY", pkix) + "more\n", nil},
			c20Mat{n + " public, newline after", c20Pem("PUBLIC KEY", pkix) + "\n", nil},
			c20Mat{n + " public, no newline at the end", strings.TrimSpace(c20Pem("PUBLIC KEY", pkix)), s},
			c20Mat{n + " public, CRLF", strings.ReplaceAll(c20Pem("PUBLIC KEY", pkix), "\n", "\r\n"), s},
			c20Mat{n + " public, text before", "text\n" + c20Pem("PUBLIC KEY", pkix), nil},
			c20Mat{n + " public then certificate", c20Pem("PUBLIC KEY", pkix) + c20Pem("CERTIFICATE", c.der), nil},
			c20Mat{n + " public twice", c20Pem("PUBLIC KEY", pkix) + c20Pem("PUBLIC KEY", pkix), nil},
			c20Mat{n + " public in lines without preamble", b64(pkix), nil},
			c20Mat{n + " public, bytes after in the block", c20Pem("PUBLIC KEY", append(append([]byte(nil), pkix...), 0)), nil},
			c20Mat{n + " empty block", c20Pem("PUBLIC KEY", nil), nil},
			c20Mat{n + " empty certificate block", c20Pem("CERTIFICATE", nil), nil})
	}
	out = append(out, c20Mat{"rsa public then p256 public", pubs[0] + pubs[4], nil}, c20Mat{"p256 public then rsa public", pubs[4] + pubs[0], nil},
		c20Mat{"pkcs1 public", c20Pem("RSA PUBLIC KEY", x509.MarshalPKCS1PublicKey(&k.rsa.PublicKey)), nil},
		c20Mat{"pkcs1 private", c20Pem("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k.rsa)), nil})
	ecp, _ := x509.MarshalECPrivateKey(k.p256)
	out = append(out, c20Mat{"sec1 private", c20Pem("EC PRIVATE KEY", ecp), nil},
		c20Mat{"preamble only", "-----BEGIN PUBLIC KEY-----\n", nil},
		c20Mat{"preamble and end", "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n", nil},
		c20Mat{"preamble without newline", "-----BEGIN PUBLIC KEY-----", nil},
		c20Mat{"end only", "-----END PUBLIC KEY-----\n", nil},
		c20Mat{"dashes", "-----BEGIN", nil},
		c20Mat{"dashes and newline", "\n-----BEGIN", nil},
		c20Mat{"bad base64", "-----BEGIN PUBLIC KEY-----\n!!!!\n-----END PUBLIC KEY-----\n", nil},
		c20Mat{"mismatched end", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END CERTIFICATE-----\n", nil},
		c20Mat{"secret", "a secret of some length", nil},
		c20Mat{"letter", "x", nil},
		c20Mat{"unicode", "gehe\u00efm\u4e16", nil},
		c20Mat{"long", strings.Repeat("0123456789", 100), nil},
		c20Mat{"blank", " ", nil},
		c20Mat{"json", `{"kty":"oct","k":"AAAA"}`, nil},
		c20Mat{"number", "12345", nil})
	return out
}

// c20Key tells whether the text is key material for alg: 1 yes, 0 no, -1 open
func c20Key(alg, text string) int {
	switch {
	case text == "":
		return 0
	case strings.HasPrefix(alg, "HS"):
		if strings.TrimSpace(text) == "" {
			return -1
		}
		return 1
	case alg == "none":
		return 0
	}
	p, rest := pem.Decode([]byte(text))
	if p == nil || strings.TrimSpace(string(rest)) != "" {
		return 0
	}
	yes := 1
	if len(rest) > 0 || !strings.HasPrefix(text, "-----BEGIN") || len(p.Headers) > 0 {
		yes = -1
	}
	var pk interface{}
	switch p.Type {
	case "PUBLIC KEY":
		pk, _ = x509.ParsePKIXPublicKey(p.Bytes)
	case "CERTIFICATE":
		if c, err := x509.ParseCertificate(p.Bytes); err == nil {
			pk = c.PublicKey
		}
	case "RSA PUBLIC KEY":
		yes = -1
		var err error
		if pk, err = x509.ParsePKIXPublicKey(p.Bytes); err != nil {
			pk, _ = x509.ParsePKCS1PublicKey(p.Bytes)
		}
	default:
		if strings.Contains(p.Type, "PRIVATE") {
			return 0
		}
		yes = -1
		pk, _ = x509.ParsePKIXPublicKey(p.Bytes)
	}
	switch x := pk.(type) {
	case *rsa.PublicKey:
		if x != nil && (strings.HasPrefix(alg, "RS") || strings.HasPrefix(alg, "PS")) {
			if x.N.BitLen() < 1024 {
				return -1
			}
			return yes
		}
	case *ecdsa.PublicKey:
		if x != nil && strings.HasPrefix(alg, "ES") && x.Curve == algCurve(alg) {
			return yes
		}
	}
	return 0
}

// c20Skew: 1 legal, 0 not, -1 open
func c20Skew(s string) int {
	if s == "" {
		return 1
	}
	digits := strings.Trim(s, "0123456789") == ""
	if n, err := strconv.ParseInt(s, 10, 64); digits && err == nil && n <= 1000000000 {
		return 1
	} else if digits || (err == nil && n >= 0) || (len(s) > 1 && s[0] == '+' && strings.Trim(s[1:], "0123456789") == "") {
		return -1
	}
	return 0
}

// c20Doc is what a jwks url serves
type c20Doc struct {
	name string
	url  string
	alg  string // the algorithm its only key is good for
	key  interface{}
	open bool
}

func c20Jwks(k *c20Keys) (*httptest.Server, []c20Doc) {
	bodies := map[string]string{}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, ok := bodies[r.URL.Path]
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(b))
	}))
	docs := []c20Doc{{name: "no jwks"}}
	for _, a := range algs12 {
		var key interface{} = k.rsa
		switch {
		case a[0] == 'H':
			key = []byte("a shared secret, thirty two bytes")
		case a[0] == 'E':
			key = map[string]interface{}{"ES256": k.p256, "ES384": k.p384, "ES512": k.p521}[a]
		}
		bodies["/"+a] = jwksOf(jwkOf(key, "kid-"+a, a))
		d := c20Doc{name: "jwks of " + a, url: s.URL + "/" + a, alg: a, key: key}
		if a[0] == 'H' {
			d.alg = "" // shared secrets are not accepted from a jwks
		}
		docs = append(docs, d)
	}
	bodies["/none"] = jwksOf(jwkOf(k.rsa, "kid-none", "none"))
	bodies["/empty"] = `{"keys":[]}`
	bodies["/object"] = `{}`
	bodies["/text"] = `no json`
	bodies["/cross"] = jwksOf(jwkOf(k.rsa, "k1", "ES256"))
	bodies["/curve"] = jwksOf(jwkOf(k.p384, "k1", "ES256"))
	for _, n := range []string{"none", "empty", "object", "text", "cross", "curve", "missing"} {
		docs = append(docs, c20Doc{name: "jwks " + n, url: s.URL + "/" + n})
	}
	docs = append(docs, c20Doc{name: "jwks unreachable", url: fmt.Sprintf("http://127.0.0.1:%d/x", deadPort())},
		c20Doc{name: "jwks no url", url: "::no url"}, c20Doc{name: "jwks scheme", url: "ftp://127.0.0.1/x"}, c20Doc{name: "jwks relative", url: "/" + algs12[0]})
	return s, docs
}

// c20Want is the verdict on a whole jwt configuration
func c20Want(name, alg, key string, d c20Doc, skew string) int {
	known := alg == "none"
	for _, a := range algs12 {
		known = known || a == alg
	}
	sk := c20Skew(skew)
	if !known || name == "" || sk == 0 {
		return 0
	}
	m := 0
	switch {
	case alg == "none":
		if key == "" && d.url == "" {
			m = 1
		}
	case key != "" && d.url != "":
		if c20Key(alg, key) != 0 {
			// either of the two may serve, and a useless second one may be refused or not
			m = -1
			if d.alg == alg {
				m = c20Key(alg, key)
			}
		}
	case key != "":
		m = c20Key(alg, key)
	case d.alg == alg:
		m = 1
	}
	if m == 1 {
		m = sk
	}
	return m
}

var c20Algs = append(append([]string{}, algs12...), "none", "", "HS128", "rs256", "RS256 ", " RS256", "ES256K", "EdDSA", "None", "NONE", "null", "RSA", "RS", "RS2566", "HS256,RS256", "[HS256]")
var c20Skews = []string{"", "0", "1", "120", "0120", "86400", "999999999", "-0", "+5", "-1", "-120", "abc", "1.5", "1.0", "1e3", " 1", "1 ", "0x10", "1_000", "9999999999", "99999999999999999999", "true", "\u0661", "-99999999999999999999", "NaN", "5s", "null"}

func checkC20() {
	R.Rule = "the product of algorithm names (the 13, none, and unknown ones) x key material (8 keys in every PEM form, order and mislabelling, and shared secrets) x jwks documents and failures x skews x names, plus every truncation and character replacement of PEM texts, through the real validation against a reference classification, and the verdict of the real handler on tokens for each accepted configuration"
	k := newC20Keys()
	mats := k.materials()
	jw, docs := c20Jwks(k)
	defer jw.Close()
	cfg := bootChain("jwt: {j: {alg: none}}\nroutes: [{path: /p, resource: api, jwt: j}]\nresources: {api: [{url: {scheme: http, host: api.test, port: 8001}}]}\n")
	cl := &recClient{}
	httpClient = cl
	Runner = &Runtime{Config: *cfg, Start: time.Now()}
	ask := func(token string) (int, int) {
		cl.seen, cl.last = nil, nil
		rec := newRec()
		q := httptest.NewRequest("GET", "/p/x", nil)
		if token != "" {
			q.Header.Set("Authorization", "Bearer "+token)
		}
		proxyHandler(rec, q)
		R.Steps++
		if len(rec.Codes) != 1 {
			return -1, len(cl.seen)
		}
		return rec.Codes[0], len(cl.seen)
	}
	run := func(key, name, alg string, m c20Mat, d c20Doc, skew string) {
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		want := c20Want(name, alg, m.text, d, skew)
		var j *Jwt
		var err error
		var pan interface{}
		func() {
			defer func() { pan = recover() }()
			j = NewJwt(name, alg, m.text, d.url, skew)
			err = j.Validate()
		}()
		what := fmt.Sprintf("jwt %q with alg %q, key %s, %s, skew %q", name, alg, m.name, d.name, skew)
		problem, out := "", "refused"
		switch {
		case pan != nil:
			problem = fmt.Sprintf("%s crashed the validation: %v", what, pan)
		case err != nil && want == 1:
			problem = fmt.Sprintf("%s was refused: %v", what, err)
		case err == nil && want == 0:
			problem = what + " was accepted"
		case err == nil:
			out = "accepted"
			Runner.Jwt["j"] = j
			type tk struct {
				token string
				want  int
				n     string
			}
			hdr := `{"alg":"` + alg + `"}`
			ts := []tk{{"", 401, "no token"}}
			if alg == "none" {
				ts = append(ts, tk{forge(`{"alg":"none"}`, "{}", "none", nil), 200, "an unsigned token"})
			} else {
				ts = append(ts, tk{forge(hdr, "{}", alg, k.stranger(alg)), 401, "a token of another key"},
					tk{forge(`{"alg":"none"}`, "{}", "none", nil), 401, "an unsigned token"},
					tk{forge(`{"alg":"HS256"}`, "{}", "HS256", []byte(m.text)), 401, "a token with HS256 by the public key"})
				if alg == "HS256" {
					ts = ts[:len(ts)-1]
				}
				if m.text == "" {
					ts = append(ts, tk{forge(`{"alg":"`+alg+`","kid":"kid-`+alg+`"}`, "{}", alg, d.key), 200, "a token of its jwks"})
				} else if strings.HasPrefix(alg, "HS") {
					ts = append(ts, tk{forge(hdr, "{}", alg, []byte(m.text)), 200, "a token of its secret"})
				} else if m.priv != nil {
					ts = append(ts, tk{forge(hdr, "{}", alg, m.priv), 200, "a token of its key"})
				}
			}
			if want == -1 && len(ts) > 3 {
				ts = ts[:3]
			}
			for _, t := range ts {
				if code, n := ask(t.token); problem == "" && (code != t.want || (n > 0) != (t.want == 200)) {
					problem = fmt.Sprintf("%s was accepted, but %s is answered %d with %d requests forwarded", what, t.n, code, n)
				}
			}
			// a jwks refresh triggered by these tokens sleeps on, it belongs to this jwt alone
		}
		if problem != "" {
			R.Violate(key, "%s", problem)
		}
		R.Validated++
		R.Ran(key, out+fmt.Sprint(want), true)
	}
	nodoc := docs[0]
	names := []string{"j", "", "a name", "j.1", "\u00e9"}
	for _, a := range c20Algs {
		for _, m := range mats {
			run(fmt.Sprintf("m/%s/%s", a, m.name), "j", a, m, nodoc, "")
			for _, s := range c20Skews[1:] {
				if thorough() || m.name == "absent" || m.name == "secret" || strings.HasSuffix(m.name, " public") {
					run(fmt.Sprintf("s/%s/%s/%s", a, m.name, s), "j", a, m, nodoc, s)
				}
			}
			for i, n := range names[1:] {
				if m.name == "absent" || m.name == "secret" || strings.HasSuffix(m.name, " public") {
					run(fmt.Sprintf("n/%s/%s/%d", a, m.name, i), n, a, m, nodoc, "")
				}
			}
		}
		for _, d := range docs[1:] {
			for _, s := range c20Skews {
				run(fmt.Sprintf("d/%s/%s/%s", a, d.name, s), "j", a, mats[0], d, s)
			}
			for _, m := range mats[1:] {
				run(fmt.Sprintf("dm/%s/%s/%s", a, d.name, m.name), "j", a, m, d, "0")
			}
		}
	}
	// damaged texts
	type dmg struct {
		alg, of string
	}
	for _, x := range []dmg{{"RS256", "rsa1024 public"}, {"PS512", "rsa1024 certificate"}, {"ES256", "p256 public"}, {"ES384", "p384 public"}, {"ES512", "p521 public"}, {"ES256", "p256 certificate"}} {
		var m c20Mat
		for _, y := range mats {
			if y.name == x.of {
				m = y
			}
		}
		b, _ := pem.Decode([]byte(m.text))
		for i := 0; i < len(m.text); i++ {
			run(fmt.Sprintf("cut/%s/%s/%d", x.alg, x.of, i), "j", x.alg, c20Mat{m.name + " cut at " + strconv.Itoa(i), m.text[:i], nil}, nodoc, "")
			run(fmt.Sprintf("tail/%s/%s/%d", x.alg, x.of, i), "j", x.alg, c20Mat{m.name + " from " + strconv.Itoa(i), m.text[i:], nil}, nodoc, "")
			reps := "A-\n"
			if thorough() {
				reps = "A-\n+/=\x00 zB4:"
			}
			for _, c := range reps {
				if byte(c) != m.text[i] {
					run(fmt.Sprintf("rep/%s/%s/%d/%q", x.alg, x.of, i, c), "j", x.alg, c20Mat{fmt.Sprintf("%s with %q at %d", m.name, c, i), m.text[:i] + string(c) + m.text[i+1:], nil}, nodoc, "")
				}
			}
		}
		for i := 0; i <= len(b.Bytes); i++ {
			run(fmt.Sprintf("dercut/%s/%s/%d", x.alg, x.of, i), "j", x.alg, c20Mat{m.name + " DER cut", c20Pem(b.Type, b.Bytes[:i]), nil}, nodoc, "")
			if i < len(b.Bytes) {
				for _, f := range []byte{1, 0x80, 0xff} {
					d := append([]byte(nil), b.Bytes...)
					d[i] ^= f
					run(fmt.Sprintf("derflip/%s/%s/%d/%d", x.alg, x.of, i, f), "j", x.alg, c20Mat{m.name + " DER flip", c20Pem(b.Type, d), nil}, nodoc, "")
				}
			}
		}
	}
}

// checkC20w boots the server with each configuration
func checkC20w() {
	R.Rule = "boots of the real server with each algorithm x key material class x skew, with one illegal jwt among legal ones under every name order, with missing, empty and mistyped jwt entries, and tokens sent to those that come up"
	k := newC20Keys()
	up := newRawUp("up", nil)
	jw, docs := c20Jwks(k)
	defer jw.Close()
	all := k.materials()
	pickM := map[string]bool{"absent": true, "secret": true, "number": true, "rsa2048 public": true, "rsa2048 certificate": true, "rsa2048 private": true, "p256 public": true, "p384 public": true, "p521 public": true, "p256 certificate": true, "p256 private": true, "p224 public": true, "ed25519 public": true, "bad base64": true, "preamble only": true, "rsa public then p256 public": true}
	var mats []c20Mat
	for _, m := range all {
		if pickM[m.name] {
			mats = append(mats, m)
		}
	}
	entry := func(alg, key, url, skew string) string {
		y := ""
		if alg != "" {
			y += fmt.Sprintf("    alg: %q\n", alg)
		}
		if key != "" {
			y += fmt.Sprintf("    key: %q\n", key)
		}
		if url != "" {
			y += fmt.Sprintf("    jwksUrl: %q\n", url)
		}
		if skew != "" {
			y += fmt.Sprintf("    acceptableSkewSeconds: %s\n", skew)
		}
		if y == "" {
			y = "    alg: \"\"\n"
		}
		return y
	}
	yml := func(jwts, route string) string {
		return "connection: {downstream: {port: {{PORT}}}}\njwt:\n" + jwts + "routes:\n  - {path: /p, resource: api, jwt: " + route + "}\n" +
			fmt.Sprintf("resources:\n  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]\n", up.port)
	}
	try := func(s *srv, n int, token string, want int) string {
		id := fmt.Sprintf("c%d-%d", n, want)
		cli := &wclient{addr: s.addr()}
		defer cli.drop()
		l := ""
		if token != "" {
			l = "Authorization: Bearer " + token + "\r\n"
		}
		w := cli.do("GET", "GET /p/x HTTP/1.1\r\nHost: h\r\nX-Case: "+id+"\r\n"+l+"\r\n")
		if w.Err != nil || w.Status != want || len(up.take(id)) != map[int]int{200: 1}[want] {
			return fmt.Sprintf("a token that is to be answered %d: %s", want, w)
		}
		return ""
	}
	n := 0
	judge := func(key, y string, want int, toks map[string]int) {
		wireCase(key, func() (string, string) {
			s, problem := bootOrRefuse(y)
			if problem != "" {
				return problem, "crash"
			}
			if s == nil {
				if want == 1 {
					return "a legal configuration was refused: " + y, "refused"
				}
				return "", "refused"
			}
			defer s.stop()
			if want == 0 {
				return "an illegal configuration was accepted: " + y, "accepted"
			}
			for t, c := range toks {
				n++
				if p := try(s, n, t, c); p != "" {
					return "after boot with " + y + ": " + p, "accepted"
				}
			}
			return "", "accepted"
		})
	}
	tokens := func(alg string, m c20Mat, d c20Doc) map[string]int {
		if alg == "none" {
			return map[string]int{"": 401, forge(`{"alg":"none"}`, "{}", "none", nil): 200}
		}
		t := map[string]int{"": 401, forge(`{"alg":"`+alg+`"}`, "{}", alg, k.stranger(alg)): 401}
		switch {
		case m.text == "":
			t[forge(`{"alg":"`+alg+`","kid":"kid-`+alg+`"}`, "{}", alg, d.key)] = 200
		case alg[0] == 'H':
			t[forge(`{"alg":"`+alg+`"}`, "{}", alg, []byte(m.text))] = 200
		case m.priv != nil:
			t[forge(`{"alg":"`+alg+`"}`, "{}", alg, m.priv)] = 200
		}
		return t
	}
	algs := append(append([]string{}, algs12...), "none", "", "HS128", "rs256", "None")
	for _, a := range algs {
		for _, m := range mats {
			w := c20Want("j", a, m.text, docs[0], "")
			var t map[string]int
			if w == 1 {
				t = tokens(a, m, docs[0])
			}
			judge(fmt.Sprintf("k/%s/%s", a, m.name), yml("  j:\n"+entry(a, m.text, "", ""), "j"), w, t)
		}
		for _, d := range docs[1:] {
			w := c20Want("j", a, "", d, "")
			var t map[string]int
			if w == 1 {
				t = tokens(a, all[0], d)
			}
			judge(fmt.Sprintf("j/%s/%s", a, d.name), yml("  j:\n"+entry(a, "", d.url, ""), "j"), w, t)
		}
	}
	for _, s := range []struct {
		yml  string
		want int
	}{{"0", 1}, {`"0"`, 1}, {"17", 1}, {`"17"`, 1}, {"-1", 0}, {`"-1"`, 0}, {"abc", 0}, {"1.5", 0}, {`"1.5"`, 0}, {"true", 0}, {"[]", 0}, {"[1]", 0}, {"{a: 1}", 0}, {`"1 2"`, 0}, {"null", 1}, {`""`, 1}, {"~", 1}} {
		for _, a := range []string{"HS256", "none"} {
			key := ""
			if a == "HS256" {
				key = "a secret of some length"
			}
			judge(fmt.Sprintf("skew/%s/%s", a, s.yml), yml("  j:\n"+entry(a, key, "", s.yml), "j"), s.want, nil)
		}
	}
	// one illegal entry among legal ones, whatever its name
	good := map[string]string{"HS256": entry("HS256", "a secret of some length", "", ""), "none": entry("none", "", "", ""), "RS256": entry("RS256", pemPub(&k.rsa.PublicKey), "", "5")}
	bads := map[string]string{"key": entry("RS256", "no key", "", ""), "curve": entry("ES384", pemPub(&k.p256.PublicKey), "", ""), "alg": entry("HS1", "secret", "", ""), "skew": entry("HS256", "secret", "", `"-3"`), "none": entry("none", "secret", "", ""), "missing": entry("HS512", "", "", ""), "jwks": entry("RS256", "", docs[len(docs)-4].url, "")}
	for _, b := range sortedKeys(bads) {
		for _, g := range sortedKeys(good) {
			for pos := 0; pos < 3; pos++ {
				for rep := 0; rep < 2; rep++ {
					j := ""
					for i := 0; i < 3; i++ {
						if i == pos {
							j += fmt.Sprintf("  j%d:\n%s", i, bads[b])
						} else {
							j += fmt.Sprintf("  j%d:\n%s", i, good[g])
						}
					}
					judge(fmt.Sprintf("among/%s/%s/%d/%d", b, g, pos, rep), yml(j, fmt.Sprintf("j%d", (pos+1+rep)%3)), 0, nil)
				}
			}
		}
	}
	for i, g := range sortedKeys(good) {
		judge(fmt.Sprintf("three/%d", i), yml("  a:\n"+good[g]+"  b:\n"+good["none"]+"  c:\n"+good["HS256"], "a"), 1, map[string]int{"": 401})
	}
	for i, y := range []string{"  j:\n", "  j: {}\n", "  j: null\n", "  j: []\n", "  j: text\n", "  j: 5\n", "  j: [{alg: none}]\n", "  j: {alg: [none]}\n", "  j: {alg: {a: b}}\n", "  j: {alg: HS256, key: [a]}\n", "  j: {alg: HS256, key: {a: b}}\n", "  j: {alg: HS256, key: ~}\n", "  j: {alg: none, key: a}\n",
		"  \"\": {alg: none}\n  j: {alg: none}\n", "  j: {alg: none}\n  k:\n", "  j: {alg: none}\n  k: {}\n"} {
		judge(fmt.Sprintf("shape/%d", i), yml(y, "j"), 0, nil)
	}
	judge("undefined", yml("  j: {alg: none}\n", "k"), 0, nil)
	judge("undefined/none", strings.Replace(yml("", "k"), "jwt:\n", "", 1), 0, nil)
	judge("defined", yml("  j: {alg: none}\n", "j"), 1, map[string]int{"": 401})

}
