//go:build go1.21

package j8a

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C24"] = checkC24
}

// kEntry is one entry of a key set
type kEntry struct {
	name  string
	json  string
	blind bool   // nobody knows what it could verify
	valid int    // 1 a key of the configured algorithm, 0 not, -1 either reading is fine
	kid   string // of a token that fits
	key   interface{}
	algs  []string // algorithms to sign tokens by key with
}

// kDoc is one answer of the jwks endpoint
type kDoc struct {
	name    string
	raw     string // full response bytes, or
	hang    bool
	reset   bool
	path    string // redirect target
	slow    time.Duration
	entries []*kEntry
}

type jwksSrv struct {
	*httptest.Server
	mu   sync.Mutex
	docs map[string]*kDoc
	hits map[string]int
	ends map[string]int
	quit chan struct{}
}

func newJwksSrv() *jwksSrv {
	o := &jwksSrv{docs: map[string]*kDoc{}, hits: map[string]int{}, ends: map[string]int{}, quit: make(chan struct{})}
	o.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		o.mu.Lock()
		d := o.docs[q.URL.Path]
		o.hits[q.URL.Path]++
		o.mu.Unlock()
		defer func() {
			o.mu.Lock()
			o.ends[q.URL.Path]++
			o.mu.Unlock()
		}()
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil || d == nil {
			return
		}
		defer c.Close()
		if d.slow > 0 {
			time.Sleep(d.slow)
		}
		if d.hang {
			io.WriteString(c, d.raw)
			select {
			case <-o.quit:
			case <-time.After(30 * time.Second):
			}
			return
		}
		io.WriteString(c, d.raw)
		if d.reset {
			c.(*net.TCPConn).SetLinger(0)
		}
	}))
	return o
}

func (o *jwksSrv) set(path string, d *kDoc) {
	o.mu.Lock()
	o.docs[path] = d
	o.mu.Unlock()
}

func (o *jwksSrv) ended(path string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.ends[path]
}

func http200(body string) string {
	return fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
}

func jwkMap(k interface{}, kid, alg string) map[string]interface{} {
	var m map[string]interface{}
	json.Unmarshal([]byte(jwkOf(k, kid, alg)), &m)
	return m
}

// entries returns the alphabet for a configured algorithm; valid0 is always the first
func c24Entries(alg string) []*kEntry {
	var o []*kEntry
	add := func(e *kEntry) { o = append(o, e) }
	n := 0
	fresh := func(a string) interface{} {
		switch a[0] {
		case 'E':
			return ecKey(algCurve(a))
		case 'H':
			n++
			return []byte(fmt.Sprintf("secret-%d-0123456789abcdef0123456789", n))
		}
		return rsaKey(1280)
	}
	js := func(m map[string]interface{}) string { b, _ := json.Marshal(m); return string(b) }
	mk := func(name string, valid int, key interface{}, labelled string, f func(m map[string]interface{})) {
		kid := "kid-" + name
		m := jwkMap(key, kid, labelled)
		if f != nil {
			f(m)
		}
		if v, ok := m["kid"].(string); ok {
			kid = v
		} else {
			kid = "-"
		}
		e := &kEntry{name: name, json: js(m), valid: valid, key: key, kid: kid}
		for _, a := range algs12 {
			_, isEc := key.(*ecdsa.PrivateKey)
			_, isRsa := key.(*rsa.PrivateKey)
			_, isSec := key.([]byte)
			switch {
			case isEc && a[0] == 'E' && (algCurve(a) == key.(*ecdsa.PrivateKey).Curve || a == alg), isRsa && (a[0] == 'R' || a[0] == 'P') && (a == alg || a == labelled), isSec && a[0] == 'H' && (a == "HS256" || a == labelled):
				e.algs = append(e.algs, a)
			}
		}
		add(e)
	}
	mk("valid", 1, fresh(alg), alg, nil)
	mk("valid2", 1, fresh(alg), alg, func(m map[string]interface{}) {
		m["extra"] = map[string]interface{}{"a": []int{1}}
		m["key_ops"] = []string{"verify"}
	})
	mk("oddkid", 1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = "k\u00e9 \"'<>/+=%00" })
	for _, a := range []string{"RS256", "RS384", "RS512", "PS256", "ES256", "ES384", "ES512", "HS256"} {
		if a != alg {
			mk("other-"+a, 0, fresh(a), a, nil)
		}
		if a[0] != alg[0] && !(a[0] == 'R' && alg[0] == 'P') && !(a[0] == 'P' && alg[0] == 'R') {
			mk("mislabelled-"+a, 0, fresh(a), alg, nil)
		}
		if a[0] == 'E' && alg[0] == 'E' && a != alg {
			mk("curve-"+a, 0, fresh(a), alg, nil)
		}
	}
	if alg[0] == 'E' {
		mk("curve-P224", 0, ecKey(elliptic.P224()), alg, nil)
		mk("crvname", 0, fresh(alg), alg, func(m map[string]interface{}) { m["crv"] = "P-999" })
		mk("crvnum", 0, fresh(alg), alg, func(m map[string]interface{}) { m["crv"] = 5 })
		mk("crvmissing", 0, fresh(alg), alg, func(m map[string]interface{}) { delete(m, "crv") })
		for _, c := range []string{"x", "y"} {
			c := c
			mk(c+"missing", 0, fresh(alg), alg, func(m map[string]interface{}) { delete(m, c) })
			mk(c+"empty", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = "" })
			mk(c+"null", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = nil })
			mk(c+"garbage", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = "!!not base64!!" })
			mk(c+"num", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = 17 })
			mk(c+"offcurve", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64([]byte{1, 2, 3}) })
			mk(c+"zero", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64(make([]byte, 32)) })
			mk(c+"long", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64(make([]byte, 5000)) + "AQ" })
		}
		mk("infinity", 0, fresh(alg), alg, func(m map[string]interface{}) { m["x"], m["y"] = b64([]byte{0}), b64([]byte{0}) })
		mk("private", -1, fresh(alg), alg, func(m map[string]interface{}) { m["d"] = b64([]byte{9, 9, 9}) })
		mk("swappedcrv", 0, fresh(alg), alg, func(m map[string]interface{}) {
			if m["crv"] == "P-256" {
				m["crv"] = "P-384"
			} else {
				m["crv"] = "P-256"
			}
		})
	} else {
		for _, c := range []string{"n", "e"} {
			c := c
			mk(c+"missing", 0, fresh(alg), alg, func(m map[string]interface{}) { delete(m, c) })
			mk(c+"empty", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = "" })
			mk(c+"null", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = nil })
			mk(c+"garbage", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = "!!not base64!!" })
			mk(c+"num", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = 17 })
			mk(c+"zero", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64([]byte{0}) })
			mk(c+"small", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64([]byte{2}) })
			mk(c+"long", 0, fresh(alg), alg, func(m map[string]interface{}) { m[c] = b64([]byte(strings.Repeat("\xff", 3000))) })
			o[len(o)-1].blind = c == "n"
		}
		mk("bits512", -1, rsaSmall(), alg, nil)
		mk("private", -1, fresh(alg), alg, func(m map[string]interface{}) {
			m["d"], m["p"], m["q"] = b64([]byte{9, 9, 9}), b64([]byte{7}), b64([]byte{7})
		})
	}
	mk("noalg", -1, fresh(alg), "", nil)
	mk("nullalg", -1, fresh(alg), alg, func(m map[string]interface{}) { m["alg"] = nil })
	mk("numalg", -1, fresh(alg), alg, func(m map[string]interface{}) { m["alg"] = 256 })
	mk("emptyalg", -1, fresh(alg), alg, func(m map[string]interface{}) { m["alg"] = "" })
	mk("weirdalg", 0, fresh(alg), "XS256", nil)
	mk("nonealg", 0, fresh(alg), "none", nil)
	mk("lowalg", 0, fresh(alg), strings.ToLower(alg), nil)
	mk("nokty", 0, fresh(alg), alg, func(m map[string]interface{}) { delete(m, "kty") })
	mk("nullkty", 0, fresh(alg), alg, func(m map[string]interface{}) { m["kty"] = nil })
	mk("numkty", 0, fresh(alg), alg, func(m map[string]interface{}) { m["kty"] = 1 })
	mk("weirdkty", 0, fresh(alg), alg, func(m map[string]interface{}) { m["kty"] = "XX" })
	mk("wrongkty", 0, fresh(alg), alg, func(m map[string]interface{}) {
		if m["kty"] == "EC" {
			m["kty"] = "RSA"
		} else {
			m["kty"] = "EC"
		}
	})
	mk("octkty", 0, fresh(alg), alg, func(m map[string]interface{}) { m["kty"] = "oct" })
	mk("okp", 0, fresh(alg), alg, func(m map[string]interface{}) { m["kty"], m["crv"], m["x"] = "OKP", "Ed25519", b64(make([]byte, 32)) })
	mk("nokid", -1, fresh(alg), alg, func(m map[string]interface{}) { delete(m, "kid") })
	mk("nullkid", -1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = nil })
	mk("numkid", -1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = 7 })
	mk("objkid", -1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = map[string]int{"a": 1} })
	mk("emptykid", -1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = "" })
	mk("enc", -1, fresh(alg), alg, func(m map[string]interface{}) { m["use"] = "enc" })
	mk("numuse", -1, fresh(alg), alg, func(m map[string]interface{}) { m["use"] = 5 })
	mk("badops", -1, fresh(alg), alg, func(m map[string]interface{}) { m["key_ops"] = "verify" })
	mk("badx5c", -1, fresh(alg), alg, func(m map[string]interface{}) { m["x5c"] = []string{"AAAA"} })
	mk("strx5c", -1, fresh(alg), alg, func(m map[string]interface{}) { m["x5c"] = "AAAA" })
	mk("badx5u", -1, fresh(alg), alg, func(m map[string]interface{}) { m["x5u"] = "::not a url" })
	mk("samekid", -1, fresh(alg), alg, func(m map[string]interface{}) { m["kid"] = "kid-valid" })
	for _, l := range []string{"null", "{}", "[]", "1", `"x"`, "true", `{"kty":null}`, `{"kty":"RSA"}`, `{"kty":"EC"}`, `{"kty":"oct"}`, `{"kty":"OKP"}`, `{"kty":"oct","alg":"` + alg + `"}`, `{"kty":"oct","alg":"` + alg + `","k":""}`,
		`{"kty":"EC","crv":"P-256","alg":"` + alg + `"}`, `{"kty":"RSA","alg":"` + alg + `"}`, `{"alg":"` + alg + `","kid":"x"}`} {
		add(&kEntry{name: "lit:" + l, json: l, kid: "-"})
	}
	return o
}

// rsaSmall is a key of 512 bits, which newer toolchains refuse to generate
func rsaSmall() interface{} {
	for {
		p, _ := rand.Prime(rand.Reader, 256)
		q, _ := rand.Prime(rand.Reader, 256)
		n := new(big.Int).Mul(p, q)
		one := big.NewInt(1)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(big.NewInt(65537), phi)
		if d == nil || n.BitLen() != 512 {
			continue
		}
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: 65537}, D: d, Primes: []*big.Int{p, q}}
	}
}

// c24Answers are whole answers that are not key sets of entries
func c24Answers(good string, base string, hangs bool) []*kDoc {
	var o []*kDoc
	raw := func(name, r string) { o = append(o, &kDoc{name: name, raw: r}) }
	for _, b := range []string{"", " ", "null", "{}", "[]", "1", "true", `"x"`, `{"keys":null}`, `{"keys":{}}`, `{"keys":[]}`, `{"keys":"x"}`, `{"keys":1}`, `{"keys":[[]]}`, `{"keys":[null,null]}`, `{"keys":[{}]}`, `{"keys":[` + strings.Repeat("[", 2000) + strings.Repeat("]", 2000) + "]}", strings.Repeat("[", 12000), `{"keys":[{"kty":`, "<html></html>", "\x00\xff\xfe", "\xef\xbb\xbf" + good, good + good, good + "x", `{"kty":"EC"}`} {
		raw(fmt.Sprintf("body %.40q", b), http200(b))
	}
	for i := 0; i < len(good); i += 1 + len(good)/24 {
		raw(fmt.Sprintf("cut json %d", i), http200(good[:i]))
		full := http200(good)
		raw(fmt.Sprintf("cut answer %d", i), full[:len(full)-len(good)+i])
	}
	full := http200(good)
	for i := 0; i < len(full)-len(good); i += 9 {
		raw(fmt.Sprintf("cut head %d", i), full[:i])
	}
	for _, st := range []string{"204 No Content", "301 Moved", "302 Found", "304 Not Modified", "400 Bad", "401 No", "403 No", "404 Not Found", "429 Slow", "500 Oops", "502 Bad", "503 Gone", "999 X", "abc", "20 x"} {
		b := good
		if st[:3] == "204" || st[:3] == "304" {
			b = ""
		}
		raw("status "+st, fmt.Sprintf("HTTP/1.1 %s\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", st, len(b), b))
	}
	raw("loop", "HTTP/1.1 302 Found\r\nLocation: {{SELF}}\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
	raw("badloc", "HTTP/1.1 302 Found\r\nLocation: http://[::1\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
	raw("schemeloc", "HTTP/1.1 302 Found\r\nLocation: ftp://x/y\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
	raw("portloc", "HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:1/\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
	raw("garbage", "\x16\x03\x01garbage\r\n\r\n")
	raw("nothing", "")
	raw("badchunk", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\nzz\r\n"+good)
	raw("cutchunk", fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s\r\n", len(good), good))
	raw("badgzip", fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(good), good))
	raw("twolengths", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 5\r\nConnection: close\r\n\r\n{}   ")
	raw("bighead", "HTTP/1.1 200 OK\r\nX: "+strings.Repeat("x", 2<<20)+"\r\n\r\n{}")
	o = append(o, &kDoc{name: "reset", reset: true}, &kDoc{name: "reset mid", reset: true, raw: full[:len(full)-len(good)/2]})
	if hangs {
		o = append(o, &kDoc{name: "hang", hang: true}, &kDoc{name: "hang head", hang: true, raw: full[:20]}, &kDoc{name: "hang body", hang: true, raw: full[:len(full)-3]})
	}
	return o
}

func (e *kEntry) tokens() []string {
	if e.key == nil {
		return nil
	}
	var o []string
	for _, a := range e.algs {
		if k, ok := e.key.(*rsa.PrivateKey); ok && k.N.BitLen() < 1200 && a != "RS256" {
			continue // too small for the hash
		}
		o = append(o, forge(fmt.Sprintf(`{"alg":"%s"%s}`, a, kidJSON(e.kid)), `{"sub":"x"}`, a, e.key))
	}
	if k, ok := pub(e.key).(*rsa.PublicKey); ok { // public key as secret
		o = append(o, forge(fmt.Sprintf(`{"alg":"HS256"%s}`, kidJSON(e.kid)), `{"sub":"x"}`, "HS256", []byte(pemPub(k))))
	}
	o = append(o, forge(fmt.Sprintf(`{"alg":"none"%s}`, kidJSON(e.kid)), `{"sub":"x"}`, "none", nil))
	return o
}

func kidJSON(kid string) string {
	if kid == "-" {
		return ""
	}
	b, _ := json.Marshal(kid)
	return `,"kid":` + string(b)
}

type c24World struct {
	js  *jwksSrv
	up  *rawUp
	cli map[string]*wclient
}

// probe sends a token to a route, 0 if there was no answer
func (w *c24World) probe(s *srv, path, token string) (int, time.Duration, string) {
	cl := w.cli[s.addr()]
	if cl == nil {
		cl = &wclient{addr: s.addr()}
		w.cli[s.addr()] = cl
	}
	t := time.Now()
	r := cl.do("GET", fmt.Sprintf("GET %s HTTP/1.1\r\nHost: x\r\nX-Case: p\r\nAuthorization: Bearer %s\r\n\r\n", path, token))
	w.up.take("p")
	if r.Err != nil {
		return 0, time.Since(t), r.Err.Error()
	}
	return r.Status, time.Since(t), r.String()
}

// must for the tokens of a document: 1, 0 or -1 by token
func c24Verdicts(alg string, es []*kEntry) (must, mustnot []string) {
	allValid := len(es) > 0
	kids := map[string]int{}
	for _, e := range es {
		allValid = allValid && e.valid == 1
		kids[e.kid]++
	}
	for _, e := range es {
		for _, t := range e.tokens() {
			h := strings.SplitN(t, ".", 2)[0]
			fits := strings.Contains(unb64(h), `"alg":"`+alg+`"`)
			switch {
			case !fits || e.valid == 0:
				mustnot = append(mustnot, t)
			case allValid && kids[e.kid] == 1:
				must = append(must, t)
			}
		}
	}
	return
}

func unb64(s string) string { b, _ := base64.RawURLEncoding.DecodeString(s); return string(b) }

func (w *c24World) boot1(alg string, d *kDoc) (string, string) {
	yml := c24Yml([]string{alg}, []string{w.js.URL + "/boot"}, w.up.port)
	w.js.set("/boot", w.fill(d, w.js.URL+"/boot"))
	s, refused := bootOrRefuse(yml)
	if s == nil {
		return refused, "refused"
	}
	defer s.stop()
	defer delete(w.cli, s.addr())
	defer func() {
		if c := w.cli[s.addr()]; c != nil {
			c.drop()
		}
	}()
	must, mustnot := c24Verdicts(alg, d.entries)
	usable := false
	for _, e := range d.entries {
		if e.valid != 0 {
			for _, t := range e.tokens() {
				if c, _, _ := w.probe(s, "/r0", t); c == 200 {
					usable = true
				}
			}
		}
	}
	for _, e := range d.entries {
		usable = usable || e.blind
	}
	if !usable && len(d.entries) > 0 {
		return "the boot succeeded but no key of the document is accepted", ""
	}
	for _, t := range must {
		if c, _, x := w.probe(s, "/r0", t); c != 200 {
			return fmt.Sprintf("a token of a published valid key is refused: %s", x), ""
		}
	}
	for _, t := range mustnot {
		if c, _, x := w.probe(s, "/r0", t); c != 401 {
			return fmt.Sprintf("token %s that no published key of the algorithm has signed: %s", t, x), ""
		}
	}
	if s.exited() {
		return "the server died: " + s.out.String(), ""
	}
	return "", fmt.Sprint("booted", len(must))
}

func (w *c24World) fill(d *kDoc, self string) *kDoc {
	c := *d
	c.raw = strings.ReplaceAll(c.raw, "{{SELF}}", self)
	return &c
}

// bootOrRefuse starts a server; nil with "" if it refused the configuration orderly, or with a problem
func bootOrRefuse(yml string, env ...string) (*srv, string) {
	for try := 0; try < 5; try++ {
		s := &srv{port: freePort(), yml: yml}
		y := strings.ReplaceAll(yml, "{{PORT}}", fmt.Sprint(s.port))
		s.proc = launch(".", nil, append([]string{"J8ACFG_YML=" + y}, env...)...)
		for end := time.Now().Add(25 * time.Second); time.Now().Before(end) && !s.exited(); {
			c, err := net.Dial("tcp", s.addr())
			if err == nil {
				c.Close()
				if !s.exited() {
					return s, ""
				}
			}
			s.wait(time.Millisecond)
		}
		out := s.out.String()
		if strings.Contains(out, "address already in use") {
			s.stop()
			continue
		}
		if !s.exited() {
			s.stop()
			return nil, "the boot neither succeeded nor ended: " + out
		}
		if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "goroutine ") {
			return nil, "the boot crashed: " + out
		}
		if s.code == 0 {
			return nil, "the boot ended without an error: " + out
		}
		return nil, ""
	}
	return nil, "no free port"
}

func c24Yml(algs, urls []string, port int) string {
	y := "connection: {downstream: {port: {{PORT}}}}\njwt:\n"
	rt := "routes:\n"
	for i := range algs {
		y += fmt.Sprintf("  j%d: {alg: %s, jwksUrl: %q}\n", i, algs[i], urls[i])
		rt += fmt.Sprintf("  - {path: /r%d, resource: api, jwt: j%d}\n", i, i)
	}
	return y + rt + fmt.Sprintf("resources:\n  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]\n", port)
}

type c24Case struct {
	key string
	alg string
	k0  *kEntry
	d   *kDoc
}

// batch boots one server with a jwt for each case and lets each refresh to its document
func (w *c24World) batch(cs []c24Case) {
	if len(cs) == 0 {
		return
	}
	var algs, urls []string
	for i, c := range cs {
		p := fmt.Sprintf("/b%d", i)
		algs, urls = append(algs, c.alg), append(urls, w.js.URL+p)
		w.js.set(p, &kDoc{raw: http200(jwksOf(c.k0.json))})
	}
	R.Before(cs[0].key)
	s, x := bootOrRefuse(c24Yml(algs, urls, w.up.port))
	if s == nil {
		R.Violate(cs[0].key, "the server did not start with good keys: %s", x)
		R.Exit()
	}
	defer s.stop()
	defer delete(w.cli, s.addr())
	for i, c := range cs {
		R.Before(c.key)
		curCase = c.key
		p := fmt.Sprintf("/b%d", i)
		before := w.js.ended(p)
		w.js.set(p, w.fill(c.d, w.js.URL+p))
		R.Steps += 2
		problem := func() string {
			route := fmt.Sprintf("/r%d", i)
			k0tok := c.k0.tok(c.alg)
			slow := func(what string, t time.Duration) string {
				if t > 4*time.Second {
					return fmt.Sprintf("%s took %v", what, t)
				}
				return ""
			}
			code, t, x := w.probe(s, route, forge(fmt.Sprintf(`{"alg":%q,"kid":"unknown"}`, c.alg), `{}`, c.alg, strangerKey(c.alg)))
			if code != 401 {
				return "a token of an unknown key: " + x
			}
			if p := slow("the answer to a token of unknown kid", t); p != "" {
				return p
			}
			must, mustnot := c24Verdicts(c.alg, c.d.entries)
			wait := 4 * time.Second
			for end := time.Now().Add(wait); time.Now().Before(end) && !c.d.hang; {
				if w.js.ended(p) > before || s.exited() {
					break
				}
				time.Sleep(200 * time.Microsecond)
			}
			code, t, x = w.probe(s, route, k0tok)
			if code != 200 && !(code == 401 && c.d.replaces(c.k0)) {
				return "a token of the key that was loaded at boot: " + x
			}
			if p := slow("the answer to a token of a loaded key", t); p != "" {
				return p
			}
			for _, tk := range must {
				ok := false
				for end := time.Now().Add(4 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
					if code, _, x = w.probe(s, route, tk); code == 200 || code == 0 {
						ok = code == 200
						break
					}
				}
				if !ok {
					return "a token of a newly published valid key: " + x
				}
			}
			if len(must) == 0 {
				time.Sleep(3 * time.Millisecond)
			}
			for _, tk := range mustnot {
				if code, _, x := w.probe(s, route, tk); code != 401 {
					return fmt.Sprintf("token %s that no published key of the algorithm has signed: %s", tk, x)
				}
			}
			if code, _, x = w.probe(s, route, k0tok); code != 200 && !(code == 401 && c.d.replaces(c.k0)) {
				return "a token of the key that was loaded at boot: " + x
			}
			return ""
		}()
		if s.exited() {
			// a late crash belongs to one of the cases that ran, single runs find out which
			for _, o := range cs[:i+1] {
				R.Violate(o.key, "the server died during or after this refresh: %s", s.out.String())
			}
			return
		}
		if problem != "" {
			R.Violate(c.key, "%s", problem)
		}
		R.Validated++
		R.Ran(c.key, fmt.Sprint(len(c.d.entries)), true)
	}
	w.js.mu.Lock()
	close(w.js.quit)
	w.js.quit = make(chan struct{})
	w.js.mu.Unlock()
	time.Sleep(20 * time.Millisecond)
	if s.exited() {
		for _, o := range cs {
			R.Violate(o.key, "the server died after this refresh: %s", s.out.String())
		}
	}
}

var strangers = map[string]interface{}{}

func strangerKey(alg string) interface{} {
	if strangers[alg] == nil {
		if alg[0] == 'E' {
			strangers[alg] = ecKey(algCurve(alg))
		} else {
			strangers[alg] = rsaKey(1280)
		}
	}
	return strangers[alg]
}

func (e *kEntry) tok(alg string) string {
	return forge(fmt.Sprintf(`{"alg":%q%s}`, alg, kidJSON(e.kid)), `{"sub":"x"}`, alg, e.key)
}

func (d *kDoc) replaces(k *kEntry) bool {
	for _, e := range d.entries {
		if e.kid == k.kid && e != k {
			return true
		}
	}
	return false
}

func checkC24() {
	R.Rule = "every key set of up to two (thorough: three with one good key) entries of an alphabet of valid keys and every malformation of each field, and every malformed, failing, truncated or hanging answer, is served for each configured algorithm to the real server both at boot and at a run time refresh; the boot must be refused orderly or leave a usable key, the refresh must leave the server alive and the loaded key accepted without delay, and no token outside the published keys of the algorithm passes"
	w := &c24World{js: newJwksSrv(), up: newRawUp("up", nil), cli: map[string]*wclient{}}
	var pending []c24Case
	flush := func(n int) {
		if len(pending) >= n {
			w.batch(pending)
			pending = nil
		}
	}
	boots := func(alg string, d *kDoc) {
		wireCase(fmt.Sprintf("boot %s %s", alg, d.name), func() (string, string) { return w.boot1(alg, d) })
	}
	refresh := func(alg string, k0 *kEntry, d *kDoc) {
		key := fmt.Sprintf("refresh %s %s", alg, d.name)
		if R.Mine(key) {
			pending = append(pending, c24Case{key: key, alg: alg, k0: k0, d: d})
			flush(60)
		}
	}
	for _, alg := range []string{"ES256", "RS256", "PS512", "ES512"} {
		es := c24Entries(alg)
		k0 := &kEntry{name: "k0", kid: "kid-k0", key: strangerKey(alg), valid: 1}
		k0.key = ecOrRsa(alg)
		k0.json = jwkOf(k0.key, k0.kid, alg)
		doc := func(l ...*kEntry) *kDoc {
			var j, n []string
			for _, e := range l {
				j, n = append(j, e.json), append(n, e.name)
			}
			return &kDoc{name: strings.Join(n, " + "), raw: http200(jwksOf(j...)), entries: l}
		}
		for i, e := range es {
			boots(alg, doc(e))
			refresh(alg, k0, doc(e))
			for j, f := range es {
				main := alg == "ES256" || alg == "RS256"
				if i == j || !(thorough() || i < 3 || j < 3 || main && (i+j)%2 == 0) {
					continue
				}
				if thorough() || main || i == 0 || j == 0 {
					refresh(alg, k0, doc(e, f))
				}
				if thorough() || main && (i == 0 || j == 0) {
					boots(alg, doc(e, f))
				}
				if thorough() && main && i != 0 && j != 0 {
					refresh(alg, k0, doc(e, es[0], f))
				}
			}
		}
		flush(1)
		for _, d := range c24Answers(jwksOf(es[0].json), "", alg == "ES256") {
			if !d.hang {
				boots(alg, d)
			}
			refresh(alg, k0, d)
		}
		flush(1)
	}
	// a hanging endpoint at boot
	for _, d := range c24Answers(jwksOf(c24Entries("ES256")[0].json), "", true) {
		if d.hang {
			boots("ES256", d)
		}
	}
}

func ecOrRsa(alg string) interface{} {
	if alg[0] == 'E' {
		return ecKey(algCurve(alg))
	}
	return rsaKey(1280)
}
