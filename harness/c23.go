//go:build go1.21

package j8a

import (
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C23"] = checkC23
	checks["C23u"] = checkC23u
}

const c23Probe = "GET /about HTTP/1.1\r\nHost: gw\r\nX-Probe: 1\r\n\r\n"

func c23Legal(m string) bool {
	switch m {
	case "GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT":
		return true
	case "get", "Get": // in any letter case
		return true
	}
	return false
}

// c23Ask sends raw and right behind it a probe on a connection of its own. The response to raw must be one well formed
// response, then either the connection ends or the probe is answered.
func c23Ask(addr string, tlsc *tls.Config, method, raw string) (*wresp, string) {
	var c *wconn
	for i := 0; i < 3 && c == nil; i++ {
		c = (&wclient{addr: addr, tls: tlsc}).conn()
	}
	if c == nil {
		return nil, "the server does not accept connections"
	}
	defer c.Close()
	c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	werr := make(chan error, 1)
	go func() { // what comes back may fill the way before all is sent
		_, err := io.WriteString(c, raw+c23Probe)
		werr <- err
	}()
	r := c.readResp(method, 20*time.Second)
	if r.Err != nil {
		return r, fmt.Sprintf("no well formed response: %v", r)
	}
	if method == "CONNECT" && r.Status < 300 || r.Status == 101 {
		return r, "" // the connection is no longer HTTP
	}
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	if r.Close {
		rest, _ := io.ReadAll(c.r)
		if len(rest) > 0 && !(method == "HEAD" && r.Status >= 400) {
			return r, fmt.Sprintf("%q follows the response %v", rest, r)
		}
		return r, ""
	}
	p := c.readResp("GET", 20*time.Second)
	if p.Err == errNoResp {
		return r, ""
	}
	if p.Err != nil || p.Status != 200 || jsonOK(p.Body, 0) != "" {
		return r, fmt.Sprintf("after the response %v the connection carries %v", r, p)
	}
	return r, ""
}

type c23Tgt struct {
	n, t    string
	proxied bool // names a route to an upstream without token
}

func c23Targets() []c23Tgt {
	return []c23Tgt{
		{"api", "/api", true}, {"about", "/about", false}, {"sec", "/sec", false}, {"pabout", "/pabout", false},
		{"dead", "/dead", true}, {"none", "/none", true}, {"nolabel", "/nolabel", true}, {"xform", "/xform/a/b", true}, {"root", "/", false}, {"no route", "/nothing", false},
		{"bare query", "/api?", true}, {"bad escape in query", "/api?a=%zz&%=%", true}, {"query of marks", "/api???&&==;;", true}, {"escaped nul", "/api/%00", true}, {"escaped dots", "/api/%2e%2e/%2e%2e/x", true},
		{"escaped slash", "/api%2fx", false}, {"double slash", "//api", false}, {"inner double slash", "/api//x", true}, {"dots", "/api/../about", false}, {"dot", "/api/./x", true}, {"above root", "/../../api", false},
		{"star", "*", false}, {"absolute", "http://other/api", false}, {"absolute https", "https://other:99/api?x", false}, {"absolute odd scheme", "gopher://other/api", false}, {"authority", "other:80", false}, {"authority no port", "other", false},
		{"fragment", "/api#f", true}, {"high bytes", "/api/\xff\xfe", true}, {"utf8", "/api/\xe4\xb8\x96", true}, {"params", "/api;a=b;c", false}, {"quotes", "/api/\"<>\\^`{|}", true},
		{"bad escape", "/api/%", true}, {"bad escape 2", "/api/%4", true}, {"bad escape 3", "/api/%gg", true}, {"empty", "?", false}, {"query only", "?a=b", false}, {"slashes", "////", false},
		{"colon", "/api/a:b@c", true}, {"user", "/api@host/", false}, {"long path", "/api/" + strings.Repeat("x", 9000), true}, {"long query", "/api?" + strings.Repeat("y=1&", 9000), true}, {"deep", "/api" + strings.Repeat("/a", 3000), true},
		{"newline escaped", "/api/%0d%0aX-Evil:%201", true}, {"plus", "/api/+%20+", true}, {"tab escaped", "/api/%09", true}, {"backslash", "/api\\x", false}, {"pct pct", "/api/%25%32%35", true}, {"dup host", "//user@host:80/api", false},
	}
}

// c23Malformed: net/http does not take it for a request, whether it answers is its own business
func c23Malformed(m string, tg c23Tgt, h string, b c23Body) bool {
	switch tg.n {
	case "bad escape", "bad escape 2", "bad escape 3", "authority", "authority no port", "empty", "query only", "no scheme":
		return true
	}
	if strings.Contains(h, "Trailer: Content-Length") && strings.Contains(b.h, "chunked") {
		return true
	}
	return strings.Contains(b.n, "bad") || strings.Contains(b.n, "too long") || b.n == "coding other" || b.n == "chunked with framing trailer"
}

func c23Headers() []struct{ n, h string } {
	b := func(s string) string { return base64.RawURLEncoding.EncodeToString([]byte(s)) }
	null := `{"payload":"e30","signatures":[null]}`
	_ = b
	hs := []struct{ n, h string }{
		{"none", ""},
		{"empty values", "X-A:\r\nX-B: \r\n"},
		{"many", strings.Repeat("X-Many: v\r\n", 300)},
		{"long", "X-Long: " + strings.Repeat("z", 30000) + "\r\n"},
		{"high bytes", "X-A: \xff\xfe\x80\r\n"},
		{"tab", "X-A: a\tb\r\n"},
		{"odd names", "!#$%&'*+-.^_`|~: v\r\n"},
		{"request id empty", "X-Request-Id:\r\n"},
		{"request id twice", "X-Request-Id: a\r\nX-Request-Id: b\r\n"},
		{"request id long", "X-Request-Id: " + strings.Repeat("i", 5000) + "\r\n"},
		{"request id odd", "X-Request-Id: \"\\<>{}\xff\r\n"},
		{"debug", "X-REQUEST-DEBUG: true\r\n"},
		{"debug odd", "X-Request-Debug: maybe\r\nX-Request-Debug: true\r\n"},
		{"accept-encoding gzip", "Accept-Encoding: gzip\r\n"},
		{"accept-encoding odd", "Accept-Encoding: ;q=,,gzip;q=x, *;q=9999999999999999, identity;q=0\r\n"},
		{"accept-encoding empty", "Accept-Encoding:\r\nAccept-Encoding: ,\r\n"},
		{"accept-encoding long", "Accept-Encoding: " + strings.Repeat("gzip;q=0.001, ", 1000) + "\r\n"},
		{"connection upgrade", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"},
		{"upgrade h2c", "Connection: Upgrade, HTTP2-Settings\r\nUpgrade: h2c\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\n"},
		{"upgrade empty", "Connection: Upgrade\r\nUpgrade:\r\n"},
		{"connection close", "Connection: close\r\n"},
		{"connection odd", "Connection: X-A, close, ,keep-alive\r\nX-A: 1\r\n"},
		{"keep-alive", "Connection: keep-alive\r\nKeep-Alive: timeout=0\r\n"},
		{"te", "TE: trailers, deflate;q=0.5\r\n"},
		{"trailer", "Trailer: X-T\r\n"},
		{"trailer of framing", "Trailer: Content-Length, Transfer-Encoding, Host\r\n"},
		{"range", "Range: bytes=0-0,-1,5-\r\n"},
		{"expect", "Expect: 100-continue\r\n"},
		{"expect other", "Expect: a-miracle\r\n"},
		{"content type", "Content-Type: \"\r\n"},
		{"content encoding", "Content-Encoding: gzip\r\n"},
		{"conditional", "If-Match: *\r\nIf-None-Match: \"\r\nIf-Modified-Since: never\r\n"},
		{"cookies", "Cookie: =;;=\r\nCookie: a=b\r\n"},
		{"forwarded", "X-Forwarded-For: ,,\r\nForwarded: for=\"[::1\r\nX-Forwarded-Host: a\r\nX-Forwarded-Proto: b\r\n"},
		{"user agent odd", "User-Agent: \xff\"\\\r\nUser-Agent: b\r\n"},
		{"user agent empty", "User-Agent:\r\n"},
		{"max forwards", "Max-Forwards: -1\r\n"},
		{"proxy", "Proxy-Connection: x\r\nProxy-Authorization: Basic =\r\n"},
		{"method override", "X-HTTP-Method-Override: PATCH\r\n"},
		{"set-cookie", "Set-Cookie: a=b\r\nServer: x\r\nDate: never\r\n"},
	}
	for _, v := range []string{"", "Bearer", "Bearer ", "bearer x", "Bearer  ", "Bearer .", "Bearer ..", "Bearer ...", "Bearer a.b", "Bearer a.b.c", "Bearer a.b.c.d.e", "Bearer =.=.=", "Bearer " + b("{}") + "..", "Bearer " + b("{}") + "." + b("{}") + ".",
		"Bearer " + b("null") + "." + b("null") + "." + b("null"), "Bearer " + b("[]") + "." + b("[]") + ".x", "Bearer " + b(`{"alg":"HS256"}`) + "." + b("null") + ".", "Bearer " + b(`{"alg":null}`) + "." + b("{}") + ".AA", "Bearer " + b(`{"alg":"HS256","kid":1}`) + "." + b("{}") + ".AA",
		"Bearer " + b(`{"alg":"HS256","crit":["x"]}`) + "." + b("{}") + ".AA", "Bearer " + b(`{"alg":"HS256","b64":false}`) + "." + b("{}") + ".AA", "Bearer " + b(`{"alg":"HS256","jwk":{"kty":"RSA"}}`) + "." + b("{}") + ".AA", "Bearer " + b(`{"alg":"HS256","jku":"http://127.0.0.1:1/"}`) + "." + b("{}") + ".AA",
		"Bearer " + b(`{"alg":"dir","enc":"A128GCM"}`) + "....", "Bearer " + b(`{"alg":"RSA1_5"}`) + ".a.b.c.d",
		"Bearer " + null, "Bearer " + `{"payload":"e30","signatures":[]}`, "Bearer " + `{"payload":"e30","signatures":[{}]}`, "Bearer " + `{"payload":null,"protected":null,"signature":null}`, "Bearer {", "Bearer {}", "Bearer []", "Bearer null", "Bearer 1", `Bearer "`, "Bearer " + `{"payload":"e30","protected":"e30","header":null,"signature":"AA"}`,
		"Bearer " + `{"payload":"e30","signatures":[{"protected":"e30","signature":"AA"},null]}`, "Bearer " + `{"payload":"e30","signatures":[null,null]}`, "Bearer " + `{"payload":1,"signatures":1}`, "Bearer " + `{"signatures":[{"header":{"alg":"HS256"},"signature":"AA"}]}`,
		"Bearer <html>", "Bearer \xff\xfe", "Bearer " + strings.Repeat("a", 20000), "Bearer " + strings.Repeat("a.", 5000), "Bearer " + strings.Repeat(`{"a":`, 3000), "Bearer " + strings.Repeat("[", 10000), "Basic Og==", "Basic", "Negotiate x", "Digest a=\"", "Bearer,Bearer x", "Bearerx", "Bearer\tx"} {
		n := v
		if len(n) > 80 {
			n = n[:80]
		}
		hs = append(hs, struct{ n, h string }{fmt.Sprintf("auth %q", n), "Authorization: " + v + "\r\n"})
	}
	hs = append(hs, struct{ n, h string }{"auth twice", "Authorization: Bearer a\r\nAuthorization: Bearer b.c.d\r\n"})
	return hs
}

type c23Body struct {
	n, h, b string
	ver     string // only with this version
}

func c23Bodies() []c23Body {
	big := strings.Repeat("B", 5000)
	return []c23Body{
		{n: "none"},
		{n: "length 0", h: "Content-Length: 0\r\n"},
		{n: "length 3", h: "Content-Length: 3\r\n", b: "abc"},
		{n: "length 3 twice", h: "Content-Length: 3\r\nContent-Length: 3\r\n", b: "abc"},
		{n: "at limit", h: "Content-Length: 4096\r\n", b: big[:4096]},
		{n: "over limit", h: "Content-Length: 4097\r\n", b: big[:4097]},
		{n: "far over limit", h: "Content-Length: 300000\r\n", b: strings.Repeat("C", 300000)},
		{n: "chunked empty", h: "Transfer-Encoding: chunked\r\n", b: "0\r\n\r\n", ver: "1.1"},
		{n: "chunked", h: "Transfer-Encoding: chunked\r\n", b: "1\r\na\r\n2\r\nbc\r\n0\r\n\r\n", ver: "1.1"},
		{n: "chunked with extension", h: "Transfer-Encoding: chunked\r\n", b: "1;x=\"y\"\r\na\r\n0;z\r\n\r\n", ver: "1.1"},
		{n: "chunked with trailer", h: "Transfer-Encoding: chunked\r\nTrailer: X-T\r\n", b: "1\r\na\r\n0\r\nX-T: 1\r\n\r\n", ver: "1.1"},
		{n: "chunked with framing trailer", h: "Transfer-Encoding: chunked\r\nTrailer: X-T\r\n", b: "1\r\na\r\n0\r\nContent-Length: 5\r\n\r\n", ver: "1.1"},
		{n: "chunked and length", h: "Transfer-Encoding: chunked\r\nContent-Length: 3\r\n", b: "1\r\na\r\n0\r\n\r\n", ver: "1.1"},
		{n: "chunked over limit", h: "Transfer-Encoding: chunked\r\n", b: fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(big), big), ver: "1.1"},
		{n: "chunked in bytes over limit", h: "Transfer-Encoding: chunked\r\n", b: strings.Repeat("1\r\nd\r\n", 4097) + "0\r\n\r\n", ver: "1.1"},
		{n: "chunk size odd", h: "Transfer-Encoding: chunked\r\n", b: "0003\r\nabc\r\n000\r\n\r\n", ver: "1.1"},
		{n: "chunk size bad", h: "Transfer-Encoding: chunked\r\n", b: "zz\r\nabc\r\n0\r\n\r\n", ver: "1.1"},
		{n: "chunk too long", h: "Transfer-Encoding: chunked\r\n", b: "1\r\nabc\r\n0\r\n\r\n", ver: "1.1"},
		{n: "coding other", h: "Transfer-Encoding: gzip, chunked\r\n", b: "0\r\n\r\n", ver: "1.1"},
	}
}

var c23Methods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT", "PATCH", "get", "Get", "PROPFIND", "M-SEARCH", "G", "GETS", "!#$%&'*+-.^_`|~09az", "LINK", "PRI", "BREW", strings.Repeat("M", 2000)}

func c23Yml(up, dead int, attempts int, tlsmode bool, ca *cert) string {
	y := c17Yml(up, dead, attempts, 30, 60, tlsmode)
	return strings.Replace(y, "  - {path: /none,", "  - {path: /xform, resource: api, transform: /t}\n  - {path: /none,", 1)
}

func checkC23() {
	R.Rule = "requests over alphabets of methods, targets (each kind of route and malformations), versions, headers (framing, tokens, upgrades ...) and body framings, with up to two of them off their default (thorough: three) in every combination, sent raw to the real server with a probe pipelined behind, over plain HTTP, TLS and HTTP/2; clients that stop midway or hang next to others; each must be answered by one well formed response, the log must show no panic and a later request of another client is answered"
	up := newRawUp("up", nil)
	var fwd sync.Map
	up.set(func(q *upReq) upAct {
		if !c23Legal(q.Method) {
			fwd.Store(q.Method, true)
		}
		up.mu.Lock()
		up.seen = nil
		up.mu.Unlock()
		if strings.HasPrefix(q.Line, "HEAD") {
			return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"}
		}
		return ok200("ok")
	})
	dead := deadPort()
	type server struct {
		n   string
		s   *srv
		tls *tls.Config
		h2  *h2client
		off int
	}
	plain := &server{n: "http", s: mustBoot(c23Yml(up.port, dead, 2, false, nil))}
	trace := &server{n: "trace", s: mustBoot(c23Yml(up.port, dead, 1, false, nil), "LOGLEVEL=TRACE")}
	sec := &server{n: "tls", s: mustBoot(c23Yml(up.port, dead, 2, true, nil)), tls: &tls.Config{InsecureSkipVerify: true}}
	h2 := &server{n: "h2", s: sec.s, h2: newH2(sec.s.addr())}
	defer plain.s.stop()
	defer trace.s.stop()
	defer sec.s.stop()
	outcome := func(r *wresp) string {
		if r == nil || r.Err != nil {
			return "none"
		}
		return fmt.Sprint(r.Status)
	}
	after := func(t *server) string {
		if t.s.exited() {
			return "the server ended: " + t.s.out.String()
		}
		o := t.s.out.since(t.off)
		t.off += len(o)
		if i := strings.Index(o, "panic"); i >= 0 {
			return "a handler panicked: " + o[i:min(len(o), i+600)]
		}
		return ""
	}
	alive := func(t *server) string {
		cl := &wclient{addr: t.s.addr(), tls: t.tls}
		defer cl.drop()
		if r := cl.do("GET", "GET /api HTTP/1.1\r\nHost: gw\r\nConnection: close\r\n\r\n"); r.Status != 200 || string(r.Body) != "ok" {
			return fmt.Sprintf("another client was not served afterwards: %v", r)
		}
		return ""
	}
	tgts, hdrs, bodies := c23Targets(), c23Headers(), c23Bodies()
	one := func(t *server, m string, tg c23Tgt, ver string, h string, b c23Body) (string, string) {
		raw := m + " " + tg.t + " HTTP/" + ver + "\r\nHost: gw\r\n" + h + b.h + "\r\n" + b.b
		r, p := c23Ask(t.s.addr(), t.tls, m, raw)
		if r != nil && r.Err != nil && c23Malformed(m, tg, h, b) {
			p = ""
		}
		if q := after(t); q != "" {
			p = q + " " + p
		}
		out := outcome(r)
		if p == "" && !c23Legal(m) && r.Err == nil {
			if _, ok := fwd.Load(m); ok {
				fwd.Delete(m)
				p = "a request with this method reached the upstream"
			} else if tg.proxied && r.Status != 400 && !(r.Status >= 301 && r.Status <= 308) && r.Status != 404 && r.Status != 417 && r.Status != 413 && r.Status != 501 && r.Status != 505 {
				p = fmt.Sprintf("illegal method was answered %v", r)
			}
			if p == "" && tg.n == "api" && h == "" && (b.n == "none" || b.n == "length 3") && r.Status != 400 {
				p = fmt.Sprintf("illegal method was answered %v", r)
			}
		}
		if p == "" {
			p = alive(t)
		}
		if p != "" {
			p = fmt.Sprintf("%.300q: %s", raw, p)
		}
		return p, out
	}
	vers := []string{"1.1", "1.0"}
	for _, t := range []*server{plain, trace, sec} {
		for mi, m := range c23Methods {
			for ti, tg := range tgts {
				for vi, v := range vers {
					for hi, h := range hdrs {
						for bi, b := range bodies {
							off := 0
							for _, i := range []int{mi, ti, vi, hi, bi} {
								if i > 0 {
									off++
								}
							}
							// around GET, the first letter of each alphabet
							max := 2
							if t != plain {
								max = 1
							}
							if thorough() {
								max++
							}
							if off > max || (b.ver != "" && b.ver != v) {
								continue
							}
							key := fmt.Sprintf("%s/%.20s/%s/%s/%s/%s", t.n, m, tg.n, v, h.n, b.n)
							wireCase(key, func() (string, string) { return one(t, m, tg, v, h.h, b) })
						}
					}
				}
			}
		}
	}
	// tokens on the protected routes
	for _, tg := range []c23Tgt{{"sec", "/sec", false}, {"pabout", "/pabout", false}, {"sec below", "/sec/x?y", false}} {
		for _, h := range hdrs {
			for _, m := range c23Methods {
				if !thorough() && m != "GET" && m != "POST" && m != "PATCH" && m != "HEAD" {
					continue
				}
				for _, v := range vers {
					wireCase(fmt.Sprintf("token/%.20s/%s/%s/%s", m, tg.n, v, h.n), func() (string, string) { return one(plain, m, tg, v, h.h, bodies[0]) })
				}
			}
		}
	}
	// HTTP/2
	for _, m := range c23Methods {
		for ti, tg := range tgts {
			if strings.ContainsAny(tg.t, "\"<>\\^`{|}\xff\xfe#") || m == "CONNECT" || tg.t[0] != '/' || strings.HasPrefix(tg.t, "//") {
				continue
			}
			for hi, h := range hdrs {
				if hi > 0 && ti > 0 && !thorough() {
					continue
				}
				if strings.Contains(h.h, "onnection") || strings.Contains(h.h, "TE:") || strings.Contains(h.h, "pgrade") || strings.Contains(h.h, "Trailer") || strings.Contains(h.h, "Keep-Alive") || strings.Contains(h.h, "\xff") {
					continue
				}
				if hi > 0 && len(m) > 100 {
					continue
				}
				for _, body := range []string{"", "abc", strings.Repeat("B", 5000)} {
					if body != "" && hi > 0 {
						continue
					}
					wireCase(fmt.Sprintf("h2/%.20s/%s/%s/%d", m, tg.n, h.n, len(body)), func() (string, string) {
						var hh [][2]string
						for _, l := range strings.Split(strings.TrimSuffix(h.h, "\r\n"), "\r\n") {
							if i := strings.IndexByte(l, ':'); i > 0 {
								hh = append(hh, [2]string{l[:i], strings.TrimSpace(l[i+1:])})
							}
						}
						var bb []byte
						if body != "" {
							bb = []byte(body)
						}
						r := h2.h2.do(m, tg.t, hh, bb)
						p := after(sec)
						refused := r.Err != nil && strings.Contains(r.Err.Error(), "PROTOCOL_ERROR") && c23Malformed(m, tg, h.h, c23Body{})
						if p == "" && r.Err != nil && !refused && !strings.Contains(r.Err.Error(), "malformed") && !strings.Contains(r.Err.Error(), "invalid") {
							p = fmt.Sprintf("no response: %v", r)
						}
						if _, ok := fwd.Load(m); ok && p == "" && !c23Legal(m) {
							fwd.Delete(m)
							p = "a request with this method reached the upstream"
						}
						if p == "" && r.Err == nil && !c23Legal(m) && tg.n == "api" && body == "" && h.h == "" && r.Status != 400 {
							p = fmt.Sprintf("illegal method was answered %v", r)
						}
						if p == "" {
							p = alive(sec)
						}
						return p, fmt.Sprint(r.Status)
					})
				}
			}
		}
	}
	// clients that stop at every byte, by closing either way, with others in between
	full := []string{
		"GET /api HTTP/1.1\r\nHost: gw\r\nX-A: b\r\n\r\n",
		"POST /api HTTP/1.1\r\nHost: gw\r\nContent-Length: 5\r\n\r\nabcde",
		"PUT /sec HTTP/1.1\r\nHost: gw\r\nAuthorization: Bearer a.b.c\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n",
		"POST /xform HTTP/1.1\r\nHost: gw\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\nabcde",
		"DELETE /dead HTTP/1.0\r\nContent-Length: 2\r\n\r\nab",
		"GET /about HTTP/1.1\r\nHost: gw\r\n\r\n",
	}
	for fi, f := range full {
		for i := 0; i <= len(f); i++ {
			for _, how := range []string{"close", "reset", "half"} {
				wireCase(fmt.Sprintf("stop/%d/%d/%s", fi, i, how), func() (string, string) {
					c, err := net.Dial("tcp", plain.s.addr())
					if err != nil {
						return "the server does not accept connections", ""
					}
					defer c.Close()
					io.WriteString(c, f[:i])
					tc := c.(*net.TCPConn)
					out := how
					switch how {
					case "half":
						tc.CloseWrite()
						c.SetReadDeadline(time.Now().Add(20 * time.Second))
						b, err := io.ReadAll(c)
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							return fmt.Sprintf("connection is held open after %q and an end, got %q", f[:i], b), ""
						}
						b = []byte(strings.ReplaceAll(string(b), "HTTP/1.1 100 Continue\r\n\r\n", ""))
						if n := strings.Count(string(b), "HTTP/1."); n > 1 {
							return fmt.Sprintf("%d responses to %q: %q", n, f[:i], b), ""
						} else if n == 0 && i == len(f) {
							return fmt.Sprintf("no response to a complete request whose sender has nothing more to say: %q", b), ""
						} else {
							out += fmt.Sprint(n)
						}
					case "reset":
						tc.SetLinger(0)
						c.Close()
					default:
						c.Close()
					}
					if p := alive(plain); p != "" {
						return p, ""
					}
					return after(plain), out
				})
			}
		}
	}
	// many clients stuck at once, everyone else is served
	for fi, f := range full {
		for _, n := range []int{1, 50, 300} {
			wireCase(fmt.Sprintf("stuck/%d/%d", fi, n), func() (string, string) {
				var cs []net.Conn
				defer func() {
					for _, c := range cs {
						c.Close()
					}
				}()
				for i := 0; i < n; i++ {
					c, err := net.Dial("tcp", plain.s.addr())
					if err != nil {
						return "the server does not accept connections", ""
					}
					c.(*net.TCPConn).SetLinger(0)
					cs = append(cs, c)
					io.WriteString(c, f[:1+(i*7)%(len(f)-1)])
				}
				for i := 0; i < 5; i++ {
					if p := alive(plain); p != "" {
						return p, ""
					}
				}
				return after(plain), "served"
			})
		}
	}
	var hung int64
	up.set(func(q *upReq) upAct {
		if strings.Contains(q.Target, "hang") {
			atomic.AddInt64(&hung, 1)
			return upAct{Hang: true}
		}
		return ok200("ok")
	})
	for _, n := range []int{1, 100, 400} {
		wireCase(fmt.Sprintf("hanging upstream/%d", n), func() (string, string) {
			var cs []net.Conn
			defer func() {
				for _, c := range cs {
					c.Close()
				}
			}()
			atomic.StoreInt64(&hung, 0)
			for i := 0; i < n; i++ {
				c, err := net.Dial("tcp", plain.s.addr())
				if err != nil {
					return "the server does not accept connections", ""
				}
				cs = append(cs, c)
				io.WriteString(c, "GET /api/hang HTTP/1.1\r\nHost: gw\r\n\r\n")
			}
			for i := 0; i < 1000 && atomic.LoadInt64(&hung) < int64(n); i++ {
				time.Sleep(5 * time.Millisecond)
			}
			for i := 0; i < 5; i++ {
				if p := alive(plain); p != "" {
					return p, ""
				}
			}
			return after(plain), "served"
		})
	}
}

func checkC23u() {
	R.Rule = "every answer of an alphabet an upstream can give to a request (nothing, one byte, garbage, malformed or truncated heads, statuses, framings and codings, resets) x methods x accepted codings x attempts, singly and (for retries) in pairs, against the real server with a probe pipelined behind the request: one well formed response each, no panic, others are served"
	gz := string(refGzip([]byte(strings.Repeat("hello ", 50))))
	h := func(head, body string) string { return "HTTP/1.1 " + head + "\r\n\r\n" + body }
	type ans struct {
		n string
		a upAct
	}
	cl := func(head, body string) string {
		return h(fmt.Sprintf("%s\r\nContent-Length: %d", head, len(body)), body)
	}
	var as []ans
	add := func(n, raw string) { as = append(as, ans{n, upAct{Raw: raw, Close: true}}) }
	as = append(as, ans{"reset", upAct{Reset: true}}, ans{"reset after head", upAct{Raw: h("200 OK\r\nContent-Length: 5", ""), Reset: true}}, ans{"reset in body", upAct{Raw: h("200 OK\r\nContent-Length: 5", "ab"), Reset: true}},
		ans{"kept open", ok200("ok")}, ans{"kept open, more than asked", upAct{Raw: ok200("ok").Raw + "surplus"}}, ans{"two responses", upAct{Raw: ok200("ok").Raw + ok200("two").Raw}})
	add("nothing", "")
	add("a byte", "H")
	add("newlines", "\r\n\r\n\r\n")
	add("garbage", "\x00\x01\x02garbage\xff\r\n\r\n")
	add("html", "<html>hello</html>")
	add("version 0.9", "HTTP/0.9 200 OK\r\n\r\nhi")
	add("version 1.0", "HTTP/1.0 200 OK\r\nContent-Length: 2\r\n\r\nhi")
	add("version 1.0 no length", "HTTP/1.0 200 OK\r\n\r\nhi")
	add("version 1.2", "HTTP/1.2 200 OK\r\nContent-Length: 2\r\n\r\nhi")
	add("version 2", "HTTP/2.0 200 OK\r\nContent-Length: 2\r\n\r\nhi")
	add("h2 preface", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
	add("no reason", "HTTP/1.1 200\r\nContent-Length: 2\r\n\r\nhi")
	add("no status", "HTTP/1.1\r\n\r\n")
	add("bare newlines", "HTTP/1.1 200 OK\nContent-Length: 2\n\nhi")
	add("icy", "ICY 200 OK\r\n\r\nhi")
	for _, n := range []string{"000", "001", "099", "100", "101", "102", "103", "199", "200", "201", "202", "203", "204", "205", "206", "207", "226", "299", "300", "301", "302", "304", "307", "308", "399", "400", "401", "404", "407", "408", "413", "416", "417", "418", "421", "425", "426", "429", "431", "451", "499", "500", "501", "502", "503", "504", "511", "599", "600", "777", "999", "-01", "+20", "1000", "20", "2", "0x1", "abc", "２００"} {
		add("status "+n, cl(n+" X", "body"))
		add("status "+n+" empty", cl(n+" X", ""))
		add("status "+n+" no length", h(n+" X", "body"))
		if thorough() {
			add("status "+n+" chunked gzip", h(n+" X\r\nContent-Encoding: gzip\r\nTransfer-Encoding: chunked", fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(gz), gz)))
			add("status "+n+" location", cl(n+" X\r\nLocation: \r\nLocation: ::", "body"))
		}
	}
	add("informational first", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n"+cl("200 OK", "ok"))
	add("many informational", strings.Repeat("HTTP/1.1 102 Processing\r\n\r\n", 20)+cl("200 OK", "ok"))
	add("upgrade", h("101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade", "\x81\x02hi"))
	add("upgrade without headers", h("101 Switching Protocols", ""))
	for _, n := range []int{0, 1, 2, 3, 511, 512, 513, 4096, 70000, 1 << 20} {
		add(fmt.Sprintf("body %d", n), cl("200 OK", strings.Repeat("x", n)))
		add(fmt.Sprintf("body %d to the end", n), h("200 OK", strings.Repeat("x", n)))
		add(fmt.Sprintf("body %d gzip label", n), cl("200 OK\r\nContent-Encoding: gzip", strings.Repeat("x", n)))
		add(fmt.Sprintf("body %d gzip magic", n), cl("200 OK\r\nContent-Encoding: gzip", ("\x1f\x8b" + strings.Repeat("x", n))[:n]))
		add(fmt.Sprintf("body %d gzip prefix", n), cl("200 OK\r\nContent-Encoding: gzip", (gz + gz)[:min(n, len(gz)-1)]))
	}
	for i := 0; i <= len(gz); i++ {
		if i < 25 || i > len(gz)-12 || thorough() {
			add(fmt.Sprintf("gzip cut at %d", i), cl("200 OK\r\nContent-Encoding: gzip", gz[:i]))
			add(fmt.Sprintf("gzip cut at %d, redirect", i), cl("302 Found\r\nLocation: /x\r\nContent-Encoding: GZIP", gz[:i]))
		}
	}
	add("gzip twice in one", cl("200 OK\r\nContent-Encoding: gzip", gz+gz))
	add("gzip and more", cl("200 OK\r\nContent-Encoding: gzip", gz+"more"))
	add("coding gzip,gzip", cl("200 OK\r\nContent-Encoding: gzip, gzip", gz))
	add("coding twice", cl("200 OK\r\nContent-Encoding: gzip\r\nContent-Encoding: br", gz))
	add("coding empty", cl("200 OK\r\nContent-Encoding:", "ok"))
	add("coding odd", cl("200 OK\r\nContent-Encoding: \xff,;gzip", gz))
	add("length too long", h("200 OK\r\nContent-Length: 10", "abc"))
	add("length too short", h("200 OK\r\nContent-Length: 2", "abcdef"))
	add("length huge", h("200 OK\r\nContent-Length: 9223372036854775807", "abc"))
	add("length above int64", h("200 OK\r\nContent-Length: 9223372036854775808", "abc"))
	add("length negative", h("200 OK\r\nContent-Length: -1", "abc"))
	add("length odd", h("200 OK\r\nContent-Length: 3x", "abc"))
	add("length empty", h("200 OK\r\nContent-Length:", "abc"))
	add("length plus", h("200 OK\r\nContent-Length: +3", "abc"))
	add("length twice same", h("200 OK\r\nContent-Length: 3\r\nContent-Length: 3", "abc"))
	add("length twice", h("200 OK\r\nContent-Length: 3\r\nContent-Length: 2", "abc"))
	add("chunked", h("200 OK\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n0\r\n\r\n"))
	add("chunked and length", h("200 OK\r\nTransfer-Encoding: chunked\r\nContent-Length: 77", "3\r\nabc\r\n0\r\n\r\n"))
	add("chunked trailer", h("200 OK\r\nTrailer: X-T\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n0\r\nX-T: 1\r\n\r\n"))
	add("chunked trailer of framing", h("200 OK\r\nTrailer: Content-Length\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n0\r\nContent-Length: 99\r\n\r\n"))
	add("chunked no end", h("200 OK\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n"))
	add("chunked cut", h("200 OK\r\nTransfer-Encoding: chunked", "9\r\nabc"))
	add("chunked bad size", h("200 OK\r\nTransfer-Encoding: chunked", "xyz\r\nabc\r\n0\r\n\r\n"))
	add("chunked negative", h("200 OK\r\nTransfer-Encoding: chunked", "-3\r\nabc\r\n0\r\n\r\n"))
	add("chunked empty", h("200 OK\r\nTransfer-Encoding: chunked", ""))
	add("transfer coding unknown", h("200 OK\r\nTransfer-Encoding: gzip", "abc"))
	add("transfer coding twice", h("200 OK\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n0\r\n\r\n"))
	add("header without colon", h("200 OK\r\nnonsense\r\nContent-Length: 2", "ok"))
	add("header folded", h("200 OK\r\nX-A: a\r\n b\r\nContent-Length: 2", "ok"))
	add("header with space in name", h("200 OK\r\nX A: a\r\nContent-Length: 2", "ok"))
	add("header empty name", h("200 OK\r\n: a\r\nContent-Length: 2", "ok"))
	add("header first folded", h("200 OK\r\n X-A: a\r\nContent-Length: 2", "ok"))
	add("header nul", h("200 OK\r\nX-A: a\x00b\r\nContent-Length: 2", "ok"))
	add("header cr", h("200 OK\r\nX-A: a\rX-B: b\r\nContent-Length: 2", "ok"))
	add("header controls", h("200 OK\r\nX-A: \x01\x02\x7f\r\nContent-Length: 2", "ok"))
	add("header high bytes", h("200 OK\r\nX-A: \xff\xfe\xe4\xb8\x96\r\nContent-Length: 2", "ok"))
	add("header high name", h("200 OK\r\nX-\xff: a\r\nContent-Length: 2", "ok"))
	add("header long", h("200 OK\r\nX-A: "+strings.Repeat("v", 100000)+"\r\nContent-Length: 2", "ok"))
	add("headers many", h("200 OK\r\n"+strings.Repeat("X-A: v\r\n", 3000)+"Content-Length: 2", "ok"))
	add("headers of ours", h("200 OK\r\nServer: a\r\nServer: b\r\nDate: never\r\nX-Request-Id: up\r\nX-Request-Id: up2\r\nCache-Control: x\r\nContent-Length: 2", "ok"))
	add("headers of the hop", h("200 OK\r\nConnection: X-A, close\r\nX-A: 1\r\nKeep-Alive: timeout=1\r\nProxy-Authenticate: x\r\nTE: x\r\nUpgrade: y\r\nContent-Length: 2", "ok"))
	add("location odd", h("302 Found\r\nLocation: http://[::1\r\nContent-Length: 2", "ok"))
	add("content type odd", h("200 OK\r\nContent-Type: \"\r\nContent-Type: ;;\r\nContent-Length: 2", "ok"))
	add("range", h("206 Partial\r\nContent-Range: bytes 5-1/0\r\nContent-Length: 2", "ok"))
	head := cl("200 OK\r\nX-A: b\r\nContent-Type: text/plain", "abcdef")
	for i := 1; i < len(head); i++ {
		add(fmt.Sprintf("cut at %d", i), head[:i])
	}
	byName := map[string]upAct{}
	for _, a := range as {
		byName[a.n] = a.a
	}
	up := newRawUp("up", nil)
	var mu sync.Mutex
	var seq []string
	var got int
	up.set(func(q *upReq) upAct {
		up.mu.Lock()
		up.seen = nil
		up.mu.Unlock()
		if strings.HasSuffix(q.Target, "/fine") {
			return upAct{Raw: ok200("fine").Raw, Close: true}
		}
		mu.Lock()
		defer mu.Unlock()
		i := got
		got++
		if i >= len(seq) {
			i = len(seq) - 1
		}
		return byName[seq[i]]
	})
	dead := deadPort()
	var srvs []*srv
	var offs [2]int
	for i := 0; i < 2; i++ {
		srvs = append(srvs, mustBoot(strings.Replace(c23Yml(up.port, dead, 2*i+1, false, nil), "readTimeoutSeconds: 30", "readTimeoutSeconds: 4", 1)))
		defer srvs[i].stop()
	}
	run := func(key string, i int, m, ae string, ss ...string) {
		wireCase(key, func() (string, string) {
			mu.Lock()
			seq, got = ss, 0
			mu.Unlock()
			raw := m + " /api/x HTTP/1.1\r\nHost: gw\r\n"
			if ae != "" {
				raw += "Accept-Encoding: " + ae + "\r\n"
			}
			if m == "POST" || m == "PUT" {
				raw += "Content-Length: 3\r\n\r\nabc"
			} else {
				raw += "\r\n"
			}
			r, p := c23Ask(srvs[i].addr(), nil, m, raw)
			o := srvs[i].out.since(offs[i])
			offs[i] += len(o)
			if k := strings.Index(o, "panic"); k >= 0 {
				p = "a handler panicked: " + o[k:min(len(o), k+600)]
			}
			if srvs[i].exited() {
				p = "the server ended: " + o
			}
			if p == "" {
				c := &wclient{addr: srvs[i].addr()}
				if f := c.do("GET", "GET /api/fine HTTP/1.1\r\nHost: gw\r\nConnection: close\r\n\r\n"); f.Status != 200 || string(f.Body) != "fine" {
					p = fmt.Sprintf("another client was not served afterwards: %v", f)
				}
				c.drop()
			}
			out := ""
			if r != nil {
				out = fmt.Sprint(r.Status)
			}
			return p, out
		})
	}
	for i := range srvs {
		for _, a := range as {
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT"} {
				if !thorough() && i == 1 && m != "GET" && m != "PUT" {
					continue
				}
				for _, ae := range []string{"", "gzip", "identity, gzip;q=0", "br"} {
					if !thorough() && ((m != "GET" && m != "HEAD") && ae != "gzip" || ae == "br") {
						continue
					}
					run(fmt.Sprintf("up/%d/%s/%s/%s", i, a.n, m, ae), i, m, ae, a.n)
				}
			}
		}
	}
	// what a retry meets
	for x, a := range as {
		for y, b := range as {
			if strings.HasPrefix(a.n, "cut") || strings.HasPrefix(b.n, "cut") || strings.HasPrefix(a.n, "gzip cut") || strings.HasPrefix(b.n, "gzip cut") {
				continue
			}
			if !thorough() && (x+y)%7 != 0 {
				continue
			}
			run(fmt.Sprintf("pair/%s/%s", a.n, b.n), 1, "GET", "gzip", a.n, b.n)
		}
	}
}
