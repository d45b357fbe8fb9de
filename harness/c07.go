//go:build go1.21

package j8a

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
)

func init() {
	checks["C07"] = checkC07
}

// c07Route is a protected route with the private keys of what is configured for it
type c07Route struct {
	name  string
	alg   string
	keys  []interface{}
	kids  []string
	other interface{} // a key of the same kind that is not configured
	about bool
	yml   string
}

func (r *c07Route) pubs() []interface{} {
	var o []interface{}
	for _, k := range r.keys {
		o = append(o, pub(k))
	}
	return o
}

type c07World struct {
	routes []*c07Route
	s      *srv
	up     *rawUp
	cl     *wclient
	jwks   *httptest.Server
	rsa    []crypto.Signer
}

func c07Boot() *c07World {
	w := &c07World{}
	r1, r2, r3 := rsaKey(2048), rsaKey(2048), rsaKey(2048)
	docs := map[string]string{}
	w.jwks = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { rw.Write([]byte(docs[q.URL.Path])) }))
	for _, a := range algs12 {
		r := &c07Route{name: a, alg: a, kids: []string{""}}
		switch a[:2] {
		case "HS":
			r.keys, r.other = []interface{}{[]byte("secret-of-" + a + "-0123456789abcdef")}, []byte("secret-of-XX256-0123456789abcdef")
			r.yml = fmt.Sprintf("key: %q", r.keys[0])
		case "RS", "PS":
			r.keys, r.other = []interface{}{r1}, r2
			if a[2:] == "384" {
				r.yml = "key: " + yamlBlock(pemCerts(makeCert(certSpec{cn: "k", key: r1})), 6)
			} else {
				r.yml = "key: " + yamlBlock(pemPub(&r1.PublicKey), 6)
			}
		case "ES":
			k := ecKey(algCurve(a))
			r.keys, r.other = []interface{}{k}, ecKey(algCurve(a))
			if a[2:] == "512" {
				r.yml = "key: " + yamlBlock(pemCerts(makeCert(certSpec{cn: "k", key: k})), 6)
			} else {
				r.yml = "key: " + yamlBlock(pemPub(&k.PublicKey), 6)
			}
		}
		w.routes = append(w.routes, r)
	}
	for _, a := range []string{"RS256", "PS384", "ES256", "ES512"} {
		r := &c07Route{name: "jwks-" + a, alg: a, kids: []string{"k1", "k2"}}
		if a[0] == 'E' {
			r.keys, r.other = []interface{}{ecKey(algCurve(a)), ecKey(algCurve(a))}, ecKey(algCurve(a))
		} else {
			r.keys, r.other = []interface{}{r2, r3}, r1
		}
		docs["/"+r.name] = jwksOf(jwkOf(r.keys[0], "k1", a), jwkOf(r.keys[1], "k2", a))
		r.yml = fmt.Sprintf("jwksUrl: %q", w.jwks.URL+"/"+r.name)
		w.routes = append(w.routes, r)
	}
	for _, a := range []string{"HS256", "RS256"} {
		src := w.routes[0]
		if a == "RS256" {
			src = w.routes[3]
		}
		w.routes = append(w.routes, &c07Route{name: "about-" + a, alg: a, keys: src.keys, kids: []string{""}, other: src.other, about: true, yml: src.yml})
	}
	w.routes = append(w.routes, &c07Route{name: "none", alg: "none", kids: []string{""}})
	w.up = newRawUp("up", nil)
	y := "connection: {downstream: {port: {{PORT}}}}\njwt:\n"
	rt := "routes:\n  - {path: /open, resource: api}\n  - {path: /about, resource: about}\n"
	for _, r := range w.routes {
		y += fmt.Sprintf("  j-%s:\n    alg: %s\n", r.name, r.alg)
		if r.yml != "" {
			y += "    " + strings.TrimRight(r.yml, "\n") + "\n"
		}
		res := "api"
		if r.about {
			res = "about"
		}
		rt += fmt.Sprintf("  - {path: /%s/x, resource: %s, jwt: j-%s}\n", r.name, res, r.name)
	}
	w.s = mustBoot(y + rt + fmt.Sprintf("resources:\n  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]\n", w.up.port))
	w.cl = &wclient{addr: w.s.addr()}
	return w
}

func (w *c07World) close() {
	w.cl.drop()
	w.s.stop()
	w.jwks.Close()
}

// try sends a request with these raw authorization lines; want is 1 to pass, 0 to be refused, -1 either
func (w *c07World) try(r *c07Route, method, lines string, want int) (string, string) {
	return w.tryAt(r, method, "/"+r.name+"/x", lines, want)
}

func (w *c07World) tryAt(r *c07Route, method, target, lines string, want int) (string, string) {
	body := ""
	if method == "POST" || method == "PUT" {
		body = "hello"
	}
	raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nX-Case: j\r\nContent-Length: %d\r\n%s\r\n%s", method, target, len(body), lines, body)
	res := w.cl.do(method, raw)
	q := w.up.take("j")
	if res.Err != nil {
		p := fmt.Sprintf("no response: %v to %q", res.Err, raw)
		if w.s.exited() {
			p += "; the server died: " + w.s.out.String()
		}
		return p, ""
	}
	switch res.Status {
	case 401:
		if want == 1 {
			return fmt.Sprintf("a valid token was refused: %s", raw), ""
		}
		if len(q) > 0 {
			return fmt.Sprintf("the request was refused but reached the upstream: %s", q[0]), ""
		}
		if p := generatedOK(res, method); p != "" {
			return p, ""
		}
	case 200:
		if want == 0 {
			return fmt.Sprintf("a request without a valid token passed: %s", raw), ""
		}
		if r.about {
			if len(q) > 0 {
				return "the about request reached the upstream", ""
			}
		} else if len(q) != 1 || string(q[0].Body) != body {
			return fmt.Sprintf("%d requests reached the upstream", len(q)), ""
		}
	default:
		if res.Status == 301 && len(q) == 0 && (strings.Contains(target, "..") || strings.Contains(target, "%2e")) {
			break // net/http itself sends clients to the clean path
		}
		return fmt.Sprintf("status %d for %s", res.Status, raw), ""
	}
	return "", fmt.Sprint(res.Status)
}

func (w *c07World) token(r *c07Route, method, token string) (string, string) {
	must, may := tokenVerdict(token, r.alg, r.pubs())
	want := -1
	if must {
		want = 1
	} else if !may {
		want = 0
	}
	return w.try(r, method, "Authorization: Bearer "+token+"\r\n", want)
}

// c07Company is what gateways elsewhere let requests pass for
var c07Company = []string{
	"Access-Control-Request-Method: POST\r\nOrigin: https://a.test\r\n",
	"Access-Control-Request-Method: GET\r\nAccess-Control-Request-Headers: authorization\r\nOrigin: null\r\n",
	"Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n",
	"Upgrade: h2c\r\n", "Connection: Upgrade\r\n",
	"X-Forwarded-For: 127.0.0.1\r\n", "X-Forwarded-For: ::1, 10.0.0.1\r\n", "X-Real-Ip: 127.0.0.1\r\n", "Forwarded: for=127.0.0.1;proto=https\r\n",
	"X-Forwarded-Proto: https\r\nX-Forwarded-Host: localhost\r\n", "X-Forwarded-User: admin\r\n", "X-Remote-User: admin\r\n",
	"X-Original-Url: /open\r\n", "X-Rewrite-Url: /open\r\n", "X-Original-Method: OPTIONS\r\n", "X-Http-Method-Override: OPTIONS\r\n", "X-Forwarded-Uri: /about\r\n",
	"User-Agent: kube-probe/1.29\r\n", "User-Agent: ELB-HealthChecker/2.0\r\n", "User-Agent: j8a/v1\r\n", "User-Agent:\r\n",
	"Referer: http://x/open\r\n", "Origin: http://x\r\n", "Cookie: session=1; jwt=x\r\n", "X-Request-Debug: true\r\n", "X-Request-Id: 1\r\n", "X-Internal: 1\r\n", "X-Api-Key: x\r\n", "X-Debug: 1\r\n",
	"Via: 1.1 j8a\r\n", "Server: j8a\r\n", "Max-Forwards: 0\r\n", "Cache-Control: only-if-cached\r\n", "If-None-Match: *\r\n", "If-Modified-Since: Mon, 01 Jan 2001 00:00:00 GMT\r\n", "Range: bytes=0-0\r\n",
	"Accept: text/html\r\n", "Accept-Encoding: gzip\r\n", "Te: trailers\r\n", "Content-Type: application/grpc\r\n", "Content-Type: application/csp-report\r\n", "Content-Encoding: gzip\r\n", "Proxy-Connection: keep-alive\r\n", "Sec-Fetch-Mode: no-cors\r\n", "Purpose: prefetch\r\n", "Www-Authenticate: none\r\n", "Host-X: localhost\r\n",
}

func checkC07() {
	R.Rule = "the product of 19 protected routes (12 algorithms with local keys, JWKS with two keys, none, about), token header algorithms, actual signing algorithms, keys (configured, foreign, public key as secret, empty) and kids; every substitution, insertion, deletion and truncation at every position of a token of each algorithm; token lengths across buffer sizes, JSON serialisations, claim types, authorization header shapes, methods and targets are sent to the real server and compared with an independent verdict on the signature"
	w := c07Boot()
	defer w.close()
	hdr := func(alg string, kid string, cty bool) string {
		h := `{"typ":"JWT"`
		if alg != "-" {
			h += `,"alg":"` + alg + `"`
		}
		if kid != "-" {
			h += `,"kid":` + kid
		}
		return h + "}"
	}
	claims := `{"sub":"x","exp":4102444800}`
	headAlgs := append(append([]string{}, algs12...), "none", "None", "NONE", "nOnE", "", "-", "hs256", "HS1024", "EdDSA")
	kids := []string{"-", `"k1"`, `"k2"`, `"zz"`, `""`, `5`, `null`, `"k1 "`}
	cache := map[string]string{}
	for _, r := range w.routes {
		family := "none"
		if r.alg != "none" {
			family = r.alg[:2]
		}
		for _, signAlg := range append(append([]string{}, algs12...), "none") {
			type sk struct {
				name string
				key  interface{}
			}
			var ks []sk
			switch {
			case signAlg == "none":
				ks = append(ks, sk{"nosig", nil})
			case signAlg[:2] == "HS":
				if family == "HS" {
					ks = append(ks, sk{"own", r.keys[0]}, sk{"foreign", r.other})
				}
				ks = append(ks, sk{"empty", []byte{}})
				if family != "HS" && family != "none" {
					p := pemPub(pub(r.keys[0]))
					blk, _ := pem.Decode([]byte(p))
					ks = append(ks, sk{"pub as secret", []byte(p)}, sk{"pub trimmed as secret", []byte(strings.TrimSpace(p))}, sk{"der as secret", blk.Bytes}, sk{"kid as secret", []byte("k1")})
				}
			case signAlg[:2] == "ES":
				if family == "ES" && algCurve(signAlg) == algCurve(r.alg) {
					for i, k := range r.keys {
						ks = append(ks, sk{fmt.Sprint("own", i), k})
					}
					ks = append(ks, sk{"foreign", r.other})
				} else {
					ks = append(ks, sk{"foreign", w.routes[9+strings.Index("234", signAlg[2:3])%3].keys[0]})
					if signAlg == "ES512" {
						ks[len(ks)-1] = sk{"foreign", w.routes[11].keys[0]}
					} else if signAlg == "ES384" {
						ks[len(ks)-1] = sk{"foreign", w.routes[10].keys[0]}
					} else {
						ks[len(ks)-1] = sk{"foreign", w.routes[9].keys[0]}
					}
				}
			default:
				if family == "RS" || family == "PS" {
					for i, k := range r.keys {
						ks = append(ks, sk{fmt.Sprint("own", i), k})
					}
					ks = append(ks, sk{"foreign", r.other})
				} else {
					ks = append(ks, sk{"foreign", w.routes[3].keys[0]})
				}
			}
			for _, k := range ks {
				for _, ha := range headAlgs {
					for _, kid := range kids {
						if !thorough() && ha != r.alg && ha != signAlg && kid != "-" && kid != `"k1"` {
							continue
						}
						wireCase(fmt.Sprintf("alg %s header %s signed %s %s kid %s", r.name, ha, signAlg, k.name, kid), func() (string, string) {
							ck := fmt.Sprintf("%s|%s|%s|%p", ha, kid, signAlg, k.key)
							if b, ok := k.key.([]byte); ok {
								ck = ha + kid + signAlg + string(b)
							}
							t, ok := cache[ck]
							if !ok {
								t = forge(hdr(ha, kid, false), claims, signAlg, k.key)
								cache[ck] = t
							}
							return w.token(r, "GET", t)
						})
					}
				}
			}
		}
	}
	// tampering at every position
	for _, r := range w.routes {
		if r.alg == "none" || (r.about && r.alg != "HS256") {
			continue
		}
		h := hdr(r.alg, "-", false)
		if len(r.keys) > 1 {
			h = hdr(r.alg, `"k2"`, false)
		}
		t := forge(h, claims, r.alg, r.keys[len(r.keys)-1])
		sigAt := strings.LastIndex(t, ".")
		muts := []string{"next", "flip", "dot", "bang", "del", "ins", "cut", "tail", "dup", "swap", "pad", "plus"}
		for i := 0; i <= len(t); i++ {
			for mi, m := range muts {
				if !thorough() && i > sigAt+8 && i < len(t)-8 && (i*7+mi)%5 != 0 {
					continue
				}
				wireCase(fmt.Sprintf("tamper %s %s %d", r.name, m, i), func() (string, string) {
					c := func(i int) byte {
						if i < len(t) {
							return t[i]
						}
						return 'A'
					}
					const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
					end := i + 1
					if end > len(t) {
						end = len(t)
					}
					x := strings.IndexByte(abc, c(i))
					var n string
					switch m {
					case "next":
						n = t[:i] + string(abc[(x+1)%64]) + t[end:]
					case "flip":
						n = t[:i] + string(abc[(x+64)%64^32]) + t[end:]
					case "dot":
						n = t[:i] + "." + t[end:]
					case "bang":
						n = t[:i] + "!" + t[end:]
					case "del":
						n = t[:i] + t[end:]
					case "ins":
						n = t[:i] + "A" + t[i:]
					case "cut":
						n = t[:i]
					case "tail":
						n = t[i:]
					case "dup":
						n = t[:end] + t[i:]
					case "swap":
						if end < len(t) {
							n = t[:i] + t[end:end+1] + t[i:end] + t[end+1:]
						} else {
							n = t + t
						}
					case "pad":
						n = t[:i] + "=" + t[i:]
					case "plus":
						n = t[:i] + "+" + t[end:]
					}
					return w.token(r, "GET", n)
				})
			}
		}
	}
	// parts of two tokens combined
	for _, r := range w.routes {
		if r.alg == "none" {
			continue
		}
		var parts [][]string
		var src []string
		add := func(name, t string) { parts = append(parts, strings.Split(t, ".")); src = append(src, name) }
		add("valid", forge(hdr(r.alg, "-", false), claims, r.alg, r.keys[0]))
		add("admin", forge(hdr(r.alg, "-", false), `{"sub":"admin"}`, r.alg, r.other))
		add("none", forge(hdr("none", "-", false), claims, "none", nil))
		add("expired", forge(hdr(r.alg, "-", false), `{"exp":946684800}`, r.alg, r.keys[0]))
		add("empty", "..")
		for a := range parts {
			for b := range parts {
				for c := range parts {
					wireCase(fmt.Sprintf("combine %s %s.%s.%s", r.name, src[a], src[b], src[c]), func() (string, string) {
						t := parts[a][0] + "." + parts[b][1] + "." + parts[c][2]
						if src[b] == "expired" {
							return w.try(r, "GET", "Authorization: Bearer "+t+"\r\n", 0)
						}
						return w.token(r, "GET", t)
					})
				}
			}
		}
	}
	// lengths across the buffers of parsers
	for _, ri := range []int{0, 3, 9, 12, 18} {
		r := w.routes[ri]
		var ns []int
		for n := 0; n < 12000; n++ {
			if n < 64 || n > 3960-300 && n < 4100+16 || n > 8150-300 && n < 8210 {
				ns = append(ns, n)
			} else if n%61 == 0 {
				ns = append(ns, n)
			}
		}
		for _, n := range ns {
			if !thorough() && n%3 != 0 {
				continue
			}
			n = n * 3 / 4 // the length of the encoded payload is n
			wireCase(fmt.Sprintf("length %s %d", r.name, n), func() (string, string) {
				a := r.alg
				var k interface{}
				if a != "none" {
					k = r.keys[0]
				}
				good := forge(hdr(a, "-", false), `{"sub":"`+strings.Repeat("x", n)+`"}`, a, k)
				if p, _ := w.token(r, "GET", good); p != "" {
					return p, ""
				}
				if a == "none" {
					return "", "ok"
				}
				bad := forge(hdr(a, "-", false), `{"sub":"`+strings.Repeat("x", n)+`"}`, a, r.other)
				return w.token(r, "GET", bad)
			})
		}
	}
	// JSON serialisations, garbage and odd claims
	for _, r := range w.routes {
		a := r.alg
		var own, foreign interface{}
		if a != "none" {
			own, foreign = r.keys[0], r.other
		}
		good := strings.Split(forge(hdr(a, "-", false), claims, a, own), ".")
		bad := strings.Split(forge(hdr(a, "-", false), claims, a, foreign), ".")
		js := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
		type M = map[string]interface{}
		sig := func(p []string) M { return M{"protected": p[0], "signature": p[2]} }
		flat := func(p []string) M { return M{"payload": p[1], "protected": p[0], "signature": p[2]} }
		withHeader := func(m M) M { m["header"] = M{}; return m }
		null := interface{}(nil)
		toks := []struct {
			n string
			t string
			w int
		}{
			{"flat good", js(flat(good)), -1}, {"flat good header", js(withHeader(flat(good))), -1},
			{"flat bad", js(flat(bad)), 0}, {"flat bad header", js(withHeader(flat(bad))), 0},
			{"flat no signature", js(M{"payload": good[1], "protected": good[0]}), 0},
			{"flat null signature", js(M{"payload": good[1], "protected": good[0], "signature": null}), 0},
			{"flat null header", js(M{"payload": good[1], "protected": good[0], "signature": bad[2], "header": null}), 0},
			{"flat null protected", js(M{"payload": good[1], "protected": null, "signature": bad[2], "header": M{}}), 0},
			{"flat number signature", js(M{"payload": good[1], "protected": good[0], "signature": 1, "header": M{}}), 0},
			{"general good", js(M{"payload": good[1], "signatures": []M{sig(good)}}), -1},
			{"general bad", js(M{"payload": good[1], "signatures": []M{sig(bad)}}), 0},
			{"general bad bad", js(M{"payload": good[1], "signatures": []M{sig(bad), sig(bad)}}), 0},
			{"general empty", js(M{"payload": good[1], "signatures": []M{}}), 0},
			{"general null", js(M{"payload": good[1], "signatures": []interface{}{null}}), 0},
			{"general good null", js(M{"payload": good[1], "signatures": []interface{}{sig(good), null}}), -1},
			{"general {}", js(M{"payload": good[1], "signatures": []M{{}}}), 0},
			{"general none", js(M{"payload": good[1], "signatures": []M{{"protected": b64([]byte(`{"alg":"none"}`)), "signature": ""}}}), 0},
			{"general header null", js(M{"payload": good[1], "signatures": []M{{"protected": bad[0], "signature": bad[2], "header": null}}}), 0},
			{"general protected null json", js(M{"payload": good[1], "signatures": []M{{"protected": b64([]byte("null")), "signature": bad[2]}}}), 0},
			{"general bad payload", js(M{"payload": b64([]byte(`{"sub":"admin"}`)), "signatures": []M{sig(good)}}), 0},
			{"general no payload", js(M{"signatures": []M{sig(good)}}), 0},
			{"both", js(M{"payload": good[1], "protected": good[0], "signature": good[2], "signatures": []M{sig(bad)}, "header": M{}}), -1},
			{"both bad", js(M{"payload": good[1], "protected": bad[0], "signature": bad[2], "signatures": []M{sig(bad)}, "header": M{}}), 0},
			{"raw claims", claims, 0}, {"raw empty", "{}", 0}, {"brace", "{", 0}, {"array", "[]", 0}, {"null", "null", 0}, {"number", "1", 0}, {"quote", `"`, 0}, {"{null}", `{"payload":null}`, 0},
			{"dots", "..", 0}, {"dots3", "...", 0}, {"dot", ".", 0}, {"a.b.c", "a.b.c", 0}, {"eyJ9", "e30.e30.e30", 0}, {"e30..", "e30.e30.", 0}, {"null head", "bnVsbA.e30.AAAA", 0}, {"null claims", good[0] + ".bnVsbA." + good[2], 0}, {"high bytes", "\xff\xfe.\x80.\x80", 0}, {"tab", "\t", 0}, {"pct", "%41.%42.%43", 0}, {"long dots", strings.Repeat(".", 5000), 0}, {"long", strings.Repeat("e30", 3000), 0},
		}
		for _, x := range toks {
			for _, m := range []string{"GET", "POST"} {
				wireCase(fmt.Sprintf("json %s %s %s", r.name, x.n, m), func() (string, string) {
					want := x.w
					if a == "none" {
						want = -1 // any parseable token
					}
					return w.try(r, m, "Authorization: Bearer "+x.t+"\r\n", want)
				})
			}
		}
		for _, h := range []string{`{}`, `{"alg":null}`, `{"alg":1}`, `{"alg":["` + a + `"]}`, `{"alg":"` + a + `","kid":{}}`, `{"alg":"` + a + `","x5c":5}`, `{"alg":"` + a + `","jwk":{}}`, `{"alg":"` + a + `","jwk":null}`, `{"alg":"` + a + `","jwk":{"kty":"oct","k":"AA"}}`, `{"alg":"` + a + `","jku":"http://127.0.0.1:1/"}`, `{"alg":"` + a + `","crit":["x"]}`, `{"alg":"` + a + `","crit":null}`, `[]`, `null`, `"x"`, ``, `{`, `{"alg":"` + a + `"}{}`, `{"alg":"` + a + `","alg":"none"}`, `{"alg":"none","alg":"` + a + `"}`} {
			for _, k := range []interface{}{own, foreign} {
				if k == nil && a != "none" {
					continue
				}
				wireCase(fmt.Sprintf("header %s %s %v", r.name, h, k == nil || fmt.Sprint(k) == fmt.Sprint(own)), func() (string, string) {
					t := forge(h, claims, a, k)
					_, may := tokenVerdict(t, a, r.pubs())
					want := -1
					if !may && a != "none" {
						want = 0
					}
					return w.try(r, "GET", "Authorization: Bearer "+t+"\r\n", want)
				})
			}
		}
		for _, c := range []string{`{}`, `{"aud":"x"}`, `{"aud":["x","y"]}`, `{"iss":"i","jti":"j","private":{"a":[1,null]}}`, `{"aud":5}`, `{"iss":1}`, `{"exp":null}`, `{"exp":"x"}`, `{"exp":{}}`, `{"nbf":[]}`, `{"iat":true}`, `[]`, `null`, `""`, ``, `1`, `{`, `{"exp":1e400}`, `{"sub":"` + "\xff" + `"}`} {
			wireCase(fmt.Sprintf("claims %s %s", r.name, c), func() (string, string) {
				t := forge(hdr(a, "-", false), c, a, own)
				want := -1
				if strings.HasPrefix(c, `{}`) || strings.HasPrefix(c, `{"aud":"`) || strings.HasPrefix(c, `{"aud":[`) || strings.HasPrefix(c, `{"iss":"`) {
					want = 1
				}
				return w.try(r, "GET", "Authorization: Bearer "+t+"\r\n", want)
			})
		}
	}
	// shapes of the authorization header, methods and targets
	for _, r := range w.routes {
		a := r.alg
		var own, foreign interface{}
		if a != "none" {
			own, foreign = r.keys[0], r.other
		} else {
			continue
		}
		good, bad := forge(hdr(a, "-", false), claims, a, own), forge(hdr(a, "-", false), claims, a, foreign)
		basic := base64.StdEncoding.EncodeToString([]byte("user:pass"))
		shapes := []struct {
			l string
			w int
		}{
			{"", 0}, {"Authorization:\r\n", 0}, {"Authorization: \r\n", 0}, {"Authorization: Bearer\r\n", 0}, {"Authorization: Bearer \r\n", 0}, {"Authorization: Bearer  \r\n", 0},
			{"Authorization: GOOD\r\n", -1}, {"Authorization: BAD\r\n", 0}, {"Authorization: Bearer GOOD\r\n", 1}, {"authorization: Bearer GOOD\r\n", 1}, {"AUTHORIZATION: Bearer GOOD\r\n", 1}, {"Authorization: bearer GOOD\r\n", 1}, {"Authorization: BEARER GOOD\r\n", 1}, {"Authorization:Bearer GOOD\r\n", 1}, {"Authorization:    Bearer GOOD   \r\n", 1},
			{"Authorization: Bearer BAD\r\n", 0}, {"Authorization: bearer BAD\r\n", 0}, {"Authorization: Basic " + basic + "\r\n", 0}, {"Authorization: Basic BAD\r\n", 0}, {"Authorization: Basic GOOD\r\n", -1},
			{"Authorization: Bearer  GOOD\r\n", -1}, {"Authorization: Bearer\tGOOD\r\n", -1}, {"Authorization: Bearer GOOD GOOD\r\n", -1}, {"Authorization: Bearer BAD GOOD\r\n", -1}, {"Authorization: Bearer GOOD,BAD\r\n", -1}, {"Authorization: Bearer BAD,BAD\r\n", 0}, {"Authorization: Bearer BAD BAD\r\n", 0},
			{"Authorization: Bearer token=\"BAD\"\r\n", 0}, {"Authorization: Bearer BAD\r\nAuthorization: Bearer BAD\r\n", 0}, {"Authorization: Bearer GOOD\r\nAuthorization: Bearer BAD\r\n", -1}, {"Authorization: Bearer BAD\r\nAuthorization: Bearer GOOD\r\n", -1},
			{"Proxy-Authorization: Bearer GOOD\r\n", 0}, {"Cookie: Authorization=Bearer GOOD; token=GOOD\r\n", 0}, {"X-Authorization: Bearer GOOD\r\n", 0}, {"X-Access-Token: GOOD\r\n", 0}, {"Authorization: Bearer null\r\n", 0}, {"Authorization: Bearer undefined\r\n", 0},
		}
		for _, s := range shapes {
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE"} {
				if !thorough() && m != "GET" && r.name != "HS256" && r.name != "jwks-RS256" && !r.about {
					continue
				}
				wireCase(fmt.Sprintf("shape %s %s %q", r.name, m, s.l), func() (string, string) {
					return w.try(r, m, strings.ReplaceAll(strings.ReplaceAll(s.l, "GOOD", good), "BAD", bad), s.w)
				})
			}
		}
		if !r.about {
			for _, tail := range []string{"", "/", "y", "/y/z", "?a=b", "?access_token=GOOD", "/..%2f", "/%2e%2e/open", ";a=b", "/open", "#f"} {
				for _, tn := range []string{"good", "bad"} {
					t := map[string]string{"good": good, "bad": bad}[tn]
					wireCase(fmt.Sprintf("target %s %q %s", r.name, tail, tn), func() (string, string) {
						want := 0
						if tn == "good" {
							want = 1
						}
						return w.tryAt(r, "GET", "/"+r.name+"/x"+strings.ReplaceAll(tail, "GOOD", good), "Authorization: Bearer "+t+"\r\n", want)
					})
				}
			}
		} else {
			for _, tail := range []string{"?a=b", "?"} {
				wireCase(fmt.Sprintf("target %s %q", r.name, tail), func() (string, string) {
					if p, _ := w.tryAt(r, "GET", "/"+r.name+"/x"+tail, "", 0); p != "" {
						return p, ""
					}
					return w.tryAt(r, "GET", "/"+r.name+"/x"+tail, "Authorization: Bearer "+good+"\r\n", 1)
				})
			}
			wireCase(fmt.Sprintf("target %s encoded", r.name), func() (string, string) {
				return w.tryAt(r, "GET", "/%61"+r.name[1:]+"/x", "", 0)
			})
		}
		// whatever else the request carries, it is the token that counts
		expired := forge(hdr(a, "-", false), `{"exp":946684800}`, a, own)
		for ci, c := range c07Company {
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE"} {
				if !thorough() && m != "GET" && m != "OPTIONS" && r.name != "HS256" && r.name != "jwks-RS256" && !r.about {
					continue
				}
				wireCase(fmt.Sprintf("company %s %s %d %q", r.name, m, ci, c), func() (string, string) {
					for _, l := range []string{"", "Authorization: Bearer " + bad + "\r\n", "Authorization: Bearer " + expired + "\r\n", "Authorization: Basic YTpi\r\n"} {
						if p, _ := w.try(r, m, c+l, 0); p != "" {
							return p, ""
						}
					}
					return w.try(r, m, c+"Authorization: Bearer "+good+"\r\n", 1)
				})
			}
		}
		// tokens of this route on all others
		for _, o := range w.routes {
			wireCase(fmt.Sprintf("foreign route %s on %s", r.name, o.name), func() (string, string) { return w.token(o, "GET", good) })
		}
		for _, l := range []string{"", "Authorization: Bearer GOOD\r\n", "Authorization: Bearer BAD\r\n", "Authorization: x\r\n"} {
			wireCase(fmt.Sprintf("open %s %q", r.name, l), func() (string, string) {
				l := strings.ReplaceAll(strings.ReplaceAll(l, "GOOD", good), "BAD", bad)
				if p, _ := w.tryAt(&c07Route{about: true}, "GET", "/about", l, 1); p != "" {
					return p, ""
				}
				return w.tryAt(&c07Route{}, "GET", "/open", l, 1)
			})
		}
	}
	if w.s.exited() {
		R.Violate(curCase, "the server died: %s", w.s.out.String())
	}
}
