//go:build go1.21

package j8a

import (
	"crypto/tls"
	"fmt"
	"strings"
)

func init() {
	checks["C06"] = checkC06
}

func wireYml(up int, more string) string {
	return fmt.Sprintf(`
connection:
  downstream: {port: {{PORT}}, maxBodyBytes: 4096%s}
  upstream: {readTimeoutSeconds: 30, maxAttempts: 1}
jwt:
  hs: {alg: HS256, key: "%s"}
routes:
  - {path: /about, resource: about}
  - {path: /api, resource: api}
  - {path: /sec, resource: api, jwt: hs}
  - {path: /none, resource: none}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, more, pxSecret, up)
}

// tlsYml is wireYml in TLS mode with a fresh certificate
func tlsYml(up int) string {
	c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
	return strings.Replace(wireYml(up, ""), "downstream: {port: {{PORT}}, maxBodyBytes: 4096}",
		"downstream:\n    port: {{PORT}}\n    maxBodyBytes: 4096\n    mode: TLS\n    cert: "+yamlBlock(pemCerts(c), 6)+"    key: "+yamlBlock(pemKey(c.key), 6), 1)
}

type hdrCase [][2]string

func (h hdrCase) raw() string {
	o := ""
	for _, x := range h {
		o += x[0] + ": " + x[1] + "\r\n"
	}
	return o
}

// values groups the values by lower case name
func hdrValues(h [][2]string) map[string][]string {
	m := map[string][]string{}
	for _, x := range h {
		k := strings.ToLower(x[0])
		m[k] = append(m[k], strings.Trim(x[1], " \t"))
	}
	return m
}

// missing compares the values of every header in want, except those exempt, with have
func hdrMissing(want, have [][2]string, exempt ...string) string {
	w, h := hdrValues(want), hdrValues(have)
next:
	for k, v := range w {
		for _, e := range exempt {
			if strings.EqualFold(e, k) {
				continue next
			}
		}
		if strings.Join(h[k], "\x00") != strings.Join(v, "\x00") || len(h[k]) != len(v) {
			return fmt.Sprintf("header %s was %q, arrived as %q", k, v, h[k])
		}
	}
	return ""
}

// hdrExtra names a header that nobody sent
func hdrExtra(have [][2]string, known ...string) string {
	for _, h := range have {
		ok := false
		for _, k := range known {
			ok = ok || strings.EqualFold(k, h[0])
		}
		if !ok {
			return h[0] + ": " + h[1]
		}
	}
	return ""
}

func hdrCases(names []string, vals []string) []hdrCase {
	var out []hdrCase
	for _, n := range names {
		for _, v := range vals {
			if (strings.EqualFold(n, "user-agent") || strings.EqualFold(n, "accept-encoding")) && v == "" {
				continue // the http client leaves out an empty user agent, and takes empty codings for none
			}
			out = append(out, hdrCase{{n, v}})
			for _, w := range vals {
				if strings.EqualFold(n, "user-agent") || strings.EqualFold(n, "content-type") || strings.EqualFold(n, "authorization") {
					continue
				}
				out = append(out, hdrCase{{n, v}, {n, w}})
			}
		}
		if strings.EqualFold(n, "user-agent") {
			continue // not a list: a repeated one is malformed, the http client sends the first
		}
		out = append(out, hdrCase{{n, "1"}, {"X-Between", "b"}, {strings.ToLower(n), "2"}, {"X-Between", ""}, {strings.ToUpper(n), "3"}})
	}
	for i := range names {
		for j := range names {
			if i != j {
				out = append(out, hdrCase{{names[i], "va"}, {names[j], "vb"}})
			}
		}
	}
	return out
}

func checkC06() {
	R.Rule = "all header names and values of an alphabet, single, repeated and in pairs, in both directions, all methods with all upstream statuses from 200 to 399, and all ways to name a request id with all kinds of responses are exchanged as raw bytes with the real server (plain and TLS) and compared field by field on the other side"
	up := newRawUp("up", nil)
	s := mustBoot(wireYml(up.port, ""))
	defer s.stop()
	st := mustBoot(tlsYml(up.port))
	defer st.stop()
	cl := &wclient{addr: s.addr()}
	clt := &wclient{addr: st.addr(), tls: &tls.Config{InsecureSkipVerify: true}}
	clt12 := &wclient{addr: st.addr(), tls: &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12}}
	ids := map[string]bool{}
	rid := func(r *wresp, q []*upReq, own string) string {
		v := r.get(XRequestID)
		if len(v) != 1 || v[0] == "" {
			return fmt.Sprintf("response has request id %q", v)
		}
		if own != "" && v[0] != own {
			return fmt.Sprintf("response has request id %q instead of the client's %q", v, own)
		}
		if own == "" {
			if ids[v[0]] {
				return fmt.Sprintf("generated request id %q is not unique", v)
			}
			ids[v[0]] = true
		}
		for _, x := range q {
			if u := x.get(XRequestID); len(u) != 1 || u[0] != v[0] {
				return fmt.Sprintf("upstream saw request id %q, the client %q", u, v)
			}
		}
		if sv := r.get("Server"); len(sv) != 1 || !strings.HasPrefix(strings.ToLower(sv[0]), "j8a") {
			return fmt.Sprintf("Server is %q", sv)
		}
		return ""
	}
	vals := []string{"v", "", "a, b;q=0.5", "  padded\t", "caf\xc3\xa9 \xff\x80", `"quoted\"; x=\y"`, strings.Repeat("long ", 800), "a\tb", "%41+~`|^{}<>[]@#$&*()=!?/\\:"}
	names := []string{"X-A", "x-lower", "X-UPPER", "X_Under", "X.dot", "X-!#$%&'*+^`|~1", "Accept", "Accept-Language", "Accept-Charset", "Authorization", "Cookie", "Referer", "Origin", "If-None-Match", "If-Modified-Since", "If-Match", "Range", "Content-Type", "Content-Language", "Content-Encoding", "Content-MD5", "X-Forwarded-For", "X-Forwarded-Proto", "X-Real-Ip", "Via", "Forwarded", "Cache-Control", "From", "Max-Forwards", "Proxy-Authorization", "DNT", "X-Request-Debug", "X-Tag", "Location", "Set-Cookie", "Date-X", "Server-Timing", "X-Content-Length", "User-Agent", "Accept-Encoding"}
	some := []string{"X-A", "x-lower", "Accept", "Cookie", "Authorization", "Referer", "X-Forwarded-For", "Content-Type", "User-Agent", "Range", "If-None-Match", "Via"}
	if !thorough() {
		vals = vals[:8]
	}
	reqs := hdrCases(names[:len(names)], vals)
	_ = some
	for i, h := range reqs {
		m := []string{"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "TRACE"}[i%7]
		key := fmt.Sprintf("request header %s %q", m, h)
		if len(key) > 300 {
			key = fmt.Sprintf("%s...%d", key[:300], i)
		}
		wireCase(key, func() (string, string) {
			up.set(func(*upReq) upAct { return upAct{Raw: "HTTP/1.1 204 No Content\r\nX-R: 1\r\n\r\n"} })
			body, cls := "", ""
			if m == "PUT" || m == "POST" {
				body, cls = "bodybody", "Content-Length: 8\r\n"
			}
			r := cl.do(m, fmt.Sprintf("%s /api/x?y=z HTTP/1.1\r\nHost: front.test\r\nX-Case: h\r\n%s%s\r\n%s", m, h.raw(), cls, body))
			q := up.take("h")
			if r.Err != nil || r.Status != 204 || len(q) != 1 {
				return fmt.Sprintf("response %s, %d forwarded", r, len(q)), ""
			}
			if q[0].Method != m || !strings.HasSuffix(q[0].Line, " HTTP/1.1") {
				return "request line arrived as " + q[0].Line, ""
			}
			if p := hdrMissing(h, q[0].Hdr, "Date", "Server"); p != "" {
				return p, ""
			}
			if string(q[0].Body) != body {
				return fmt.Sprintf("body arrived as %q", q[0].Body), ""
			}
			return rid(r, q, ""), "204"
		})
	}
	rnames := []string{"X-A", "x-lower", "X_Under", "Set-Cookie", "Location", "ETag", "Vary", "Cache-Control", "Expires", "Last-Modified", "WWW-Authenticate", "Content-Type", "Content-Disposition", "Content-Language", "Content-Range", "Accept-Ranges", "Link", "Retry-After", "Access-Control-Allow-Origin", "Allow", "Via", "Age", "P3P", "X-Powered-By", "Warning", "Content-Security-Policy", "Refresh", "Date-X", "Server-Timing", "X-Content-Length"}
	for i, h := range hdrCases(rnames, vals) {
		status := []int{200, 201, 301, 302, 304, 206, 204, 303}[i%8]
		key := fmt.Sprintf("response header %d %q", status, h)
		if len(key) > 300 {
			key = fmt.Sprintf("%s...%d", key[:300], i)
		}
		wireCase(key, func() (string, string) {
			body := "0123456789"
			clen := "Content-Length: 10\r\n"
			if status == 204 || status == 304 {
				body, clen = "", ""
			}
			up.set(func(*upReq) upAct {
				return upAct{Raw: fmt.Sprintf("HTTP/1.1 %d Some Reason\r\n%s%sDate: Mon, 01 Jan 2001 00:00:00 GMT\r\nServer: upstream/1\r\n\r\n%s", status, clen, h.raw(), body)}
			})
			r := cl.do("GET", "GET /api/x HTTP/1.1\r\nHost: front.test\r\nX-Case: h\r\nAccept-Encoding: identity\r\n\r\n")
			q := up.take("h")
			if r.Err != nil || r.Status != status {
				return fmt.Sprintf("response %s instead of %d %q", r, status, h), ""
			}
			exempt := "Date"
			if status == 304 {
				exempt = "Content-Type" // net/http leaves it out of a 304, see RFC 7232 4.1
			}
			if p := hdrMissing(h, r.Hdr, exempt); p != "" {
				return p, ""
			}
			if string(r.Body) != body {
				return fmt.Sprintf("body arrived as %q", r.Body), ""
			}
			return rid(r, q, ""), fmt.Sprint(status)
		})
	}
	// values that name one of the parties
	for _, n := range []string{"Location", "Content-Location", "Refresh", "Link", "Set-Cookie", "Access-Control-Allow-Origin", "Via", "X-A", "Alt-Svc", "Www-Authenticate", "Strict-Transport-Security-X", "X-Accel-Redirect", "X-Sendfile", "X-Powered-By", "X-Frame-Options", "X-Content-Type-Options", "Pragma", "Trailer-X", "Keep-Alive-X", "Sec-Websocket-Accept", "Public-Key-Pins", "Expect-Ct"} {
		for _, v := range []string{"http://127.0.0.1:%d/api/y?z=1#f", "http://127.0.0.1:%d", "//127.0.0.1:%d/", "/api/y", "/", "y", "https://front.test/api/y", "http://front.test:80/../x", "0; url=http://127.0.0.1:%d/", "<http://127.0.0.1:%d/a>; rel=next", "sid=1; Domain=127.0.0.1; Path=/api; HttpOnly", "sid=1; SameSite=None", "127.0.0.1:%d", "sid=\"a b\"; Secure; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "1.1 127.0.0.1:%d, 1.0 j8a", "j8a", "Basic realm=\"127.0.0.1:%d\""} {
			if strings.Contains(v, "%d") {
				v = fmt.Sprintf(v, up.port)
			}
			for si, status := range []int{200, 201, 301, 302, 303, 307, 308} {
				for _, tlsmode := range []bool{false, true} {
					if !thorough() && tlsmode && si%3 != 0 {
						continue
					}
					n, v, status, c := n, v, status, cl
					if tlsmode {
						c = clt
					}
					wireCase(fmt.Sprintf("party %s %q %d tls=%v", n, strings.ReplaceAll(v, fmt.Sprint(up.port), "PORT"), status, tlsmode), func() (string, string) {
						h := hdrCase{{n, v}}
						up.set(func(*upReq) upAct {
							return upAct{Raw: fmt.Sprintf("HTTP/1.1 %d R\r\n%sContent-Length: 2\r\n\r\nok", status, h.raw())}
						})
						r := c.do("GET", "GET /api/x HTTP/1.1\r\nHost: front.test\r\nX-Case: pa\r\nAccept-Encoding: identity\r\n"+h.raw()+"\r\n")
						q := up.take("pa")
						if r.Err != nil || r.Status != status || len(q) != 1 {
							return fmt.Sprintf("response %s, %d forwarded", r, len(q)), ""
						}
						if p := hdrMissing(h, r.Hdr); p != "" {
							return "response: " + p, ""
						}
						if p := hdrMissing(h, q[0].Hdr); p != "" {
							return "request: " + p, ""
						}
						if extra := hdrExtra(r.Hdr, n, "X-Request-Id", "Server", "Date", "Content-Length", "Content-Encoding", "Strict-Transport-Security", "Content-Type"); extra != "" {
							return "the response has " + extra, ""
						}
						if extra := hdrExtra(q[0].Hdr, n, "Host", "X-Case", "X-Request-Id", "Accept-Encoding", "User-Agent"); extra != "" {
							return "the upstream got " + extra, ""
						}
						return rid(r, q, ""), fmt.Sprint(status)
					})
				}
			}
		}
	}
	// headers that depend on a coding, with every coding on either side: they arrive as they are even where the body is recoded
	plainb := []byte("the body of this response, as it is: 0123456789")
	for _, h := range []hdrCase{{{"ETag", `"a"`}}, {{"ETag", `W/"a"`}}, {{"ETag", `"a-gzip"`}}, {{"ETag", `""`}}, {{"Vary", "Accept-Encoding"}}, {{"Vary", "Origin"}, {"Vary", "Accept-Encoding"}}, {{"Vary", "*"}}, {{"Cache-Control", "no-transform"}}, {{"Cache-Control", "max-age=1"}, {"Cache-Control", "public"}}, {{"Accept-Ranges", "bytes"}}, {{"Content-MD5", "Q2hlY2sgSW50ZWdyaXR5IQ=="}}, {{"Digest", "sha-256=x"}}, {{"Repr-Digest", "sha-256=:x:"}}, {{"Last-Modified", "Mon, 01 Jan 2001 00:00:00 GMT"}}, {{"Content-Location", "/a.gz"}}, {{"Content-Type", "application/gzip"}}, {{"Content-Type", "image/png"}}, {{"Content-Type", ""}}, {{"Set-Cookie", "a=1"}, {"Set-Cookie", "a=1"}}, {{"X-Same", "v"}, {"X-Same", "v"}}, {{"Link", "</a>"}, {"ETag", `"b"`}, {"Link", "</a>"}}, {{"Content-Disposition", "attachment"}}, {{"Warning", "214 - x"}}, {{"Age", "0"}}, {{"Server-Timing", "a;dur=1"}}} {
		for _, ae := range []string{"", "Accept-Encoding: identity\r\n", "Accept-Encoding: gzip\r\n", "Accept-Encoding: gzip, deflate, br\r\n", "Accept-Encoding: gzip;q=0\r\n", "Accept-Encoding: *\r\n"} {
			for _, ce := range []string{"", "gzip", "br", "identity"} {
				for _, status := range []int{200, 206, 302, 304} {
					for _, m := range []string{"GET", "HEAD", "POST"} {
						wireCase(fmt.Sprintf("coded %q %q %s %d %s", h, ae, ce, status, m), func() (string, string) {
							b := plainb
							if ce == "gzip" {
								b = refGzip(plainb)
							}
							raw := fmt.Sprintf("HTTP/1.1 %d R\r\n%s", status, h.raw())
							if ce != "" {
								raw += "Content-Encoding: " + ce + "\r\n"
							}
							switch {
							case status == 304:
								raw += "\r\n"
							case m == "HEAD":
								raw += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(b))
							default:
								raw += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b)
							}
							up.set(func(*upReq) upAct { return upAct{Raw: raw} })
							r := cl.do(m, m+" /api/x HTTP/1.1\r\nHost: x\r\nX-Case: c\r\nContent-Length: 0\r\n"+ae+"\r\n")
							q := up.take("c")
							if r.Err != nil || r.Status != status || len(q) != 1 {
								return fmt.Sprintf("response %s, %d forwarded", r, len(q)), ""
							}
							exempt := "Date"
							if status == 304 {
								exempt = "Content-Type"
							}
							if p := hdrMissing(h, r.Hdr, exempt); p != "" {
								return p, ""
							}
							return rid(r, q, ""), fmt.Sprint(status)
						})
					}
				}
			}
		}
	}
	// heads of every size, as one value or as many, in both directions
	for _, total := range []int{1 << 10, 4 << 10, 8 << 10, 16 << 10, 32 << 10, 60 << 10, 100 << 10, 250 << 10, 500 << 10, 900 << 10} {
		for _, each := range []int{10, 100, 1000, 8000, 64 << 10, 1 << 20} {
			if each > total || total/each > 450 { // net/http takes 500 lines
				continue
			}
			for _, back := range []bool{false, true} {
				for _, tlsmode := range []bool{false, true} {
					for _, same := range []bool{false, true} {
						wireCase(fmt.Sprintf("head of %d in %d back=%v tls=%v same=%v", total, each, back, tlsmode, same), func() (string, string) {
							var h hdrCase
							for i := 0; i*each < total; i++ {
								n := fmt.Sprintf("X-Big-%d", i)
								if same {
									n = "X-Big"
								}
								h = append(h, [2]string{n, fmt.Sprintf("%d-%s", i, strings.Repeat("v", each))})
							}
							hq, hr := h, hdrCase{{"X-Small", "1"}}
							if back {
								hq, hr = hr, h
							}
							up.set(func(*upReq) upAct { return upAct{Raw: "HTTP/1.1 200 R\r\n" + hr.raw() + "Content-Length: 2\r\n\r\nok"} })
							c := cl
							if tlsmode {
								c = clt
							}
							r := c.do("GET", "GET /api/x HTTP/1.1\r\nHost: x\r\nX-Case: b\r\n"+hq.raw()+"\r\n")
							q := up.take("b")
							if r.Err != nil || r.Status != 200 || len(q) != 1 || string(r.Body) != "ok" && len(r.get("Content-Encoding")) == 0 {
								return fmt.Sprintf("response %.300s, %d forwarded", r, len(q)), ""
							}
							if p := hdrMissing(hr, r.Hdr); p != "" {
								return fmt.Sprintf("response: %.300s", p), ""
							}
							if p := hdrMissing(hq, q[0].Hdr); p != "" {
								return fmt.Sprintf("request: %.300s", p), ""
							}
							return rid(r, q, ""), "big"
						})
					}
				}
			}
		}
	}
	// the length a HEAD response declares
	for _, status := range []int{200, 201, 203, 206, 301, 302, 307} {
		for _, n := range []string{"0", "1", "9", "10", "99", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807"} {
			for _, ae := range []string{"", "Accept-Encoding: identity\r\n", "Accept-Encoding: gzip\r\n"} {
				for _, more := range []string{"", "Content-Encoding: gzip\r\n", "Content-Type: text/plain\r\nETag: \"a\"\r\n"} {
					wireCase(fmt.Sprintf("head %d %s %q %q", status, n, ae, more), func() (string, string) {
						up.set(func(*upReq) upAct {
							return upAct{Raw: fmt.Sprintf("HTTP/1.1 %d R\r\n%sContent-Length: %s\r\n\r\n", status, more, n)}
						})
						r := cl.do("HEAD", "HEAD /api/x HTTP/1.1\r\nHost: x\r\nX-Case: hd\r\n"+ae+"\r\n")
						q := up.take("hd")
						if r.Err != nil || r.Status != status || len(q) != 1 || q[0].Method != "HEAD" {
							return fmt.Sprintf("response %s, %d forwarded", r, len(q)), ""
						}
						if got := r.get("Content-Length"); len(got) != 1 || got[0] != n {
							return fmt.Sprintf("the resource has %s bytes, the HEAD response says %q", n, got), ""
						}
						return rid(r, q, ""), fmt.Sprint(status)
					})
				}
			}
		}
	}
	// methods and statuses
	for status := 200; status < 400; status++ {
		for _, m := range []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"} {
			for _, pre := range []string{"", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n"} {
				if pre != "" && status%10 != 0 {
					continue
				}
				wireCase(fmt.Sprintf("status %d %s %q", status, m, pre), func() (string, string) {
					up.set(func(*upReq) upAct {
						raw := fmt.Sprintf("%sHTTP/1.1 %d Some Reason\r\nX-S: %d\r\nSet-Cookie: a=1\r\nSet-Cookie: b=2\r\n", pre, status, status)
						if status == 204 || status == 304 {
							return upAct{Raw: raw + "\r\n"}
						}
						raw += "Content-Length: 4\r\n\r\n"
						if m != "HEAD" {
							raw += "data"
						}
						return upAct{Raw: raw}
					})
					body := ""
					if m == "PUT" || m == "POST" {
						body = "Content-Length: 2\r\n\r\nhi"
					} else {
						body = "\r\n"
					}
					r := cl.do(m, m+" /api/x HTTP/1.1\r\nHost: x\r\nX-Case: s\r\n"+body)
					q := up.take("s")
					if r.Err != nil || r.Status != status {
						return fmt.Sprintf("upstream status %d became %s", status, r), ""
					}
					if len(q) != 1 || q[0].Method != m {
						return fmt.Sprintf("%d requests arrived", len(q)), ""
					}
					if strings.Join(r.get("Set-Cookie"), "|") != "a=1|b=2" || r.one("X-S") != fmt.Sprint(status) {
						return "headers are lost: " + r.String(), ""
					}
					return rid(r, q, ""), fmt.Sprint(status)
				})
			}
		}
	}
	// request ids and standing headers of every kind of response, also in TLS mode
	kinds := map[string]string{
		"ok": "GET /api/x HTTP/1.1\r\nHost: x\r\nX-St: 200\r\n", "redirect": "GET /api/x HTTP/1.1\r\nHost: x\r\nX-St: 301\r\n", "client error": "GET /api/x HTTP/1.1\r\nHost: x\r\nX-St: 404\r\n", "server error": "GET /api/x HTTP/1.1\r\nHost: x\r\nX-St: 500\r\n",
		"no route": "GET /nowhere HTTP/1.1\r\nHost: x\r\n", "no token": "GET /sec HTTP/1.1\r\nHost: x\r\n", "method": "PATCH /api HTTP/1.1\r\nHost: x\r\n", "none": "GET /none HTTP/1.1\r\nHost: x\r\n", "about": "GET /about HTTP/1.1\r\nHost: x\r\n",
		"large": "GET /api HTTP/1.1\r\nHost: x\r\nContent-Length: 5000\r\n", "post": "POST /api/x HTTP/1.1\r\nHost: x\r\nX-St: 201\r\nContent-Length: 0\r\n", "old": "GET /api/x HTTP/1.0\r\nX-St: 200\r\nConnection: keep-alive\r\n", "head": "HEAD /api/x HTTP/1.1\r\nHost: x\r\nX-St: 200\r\n",
	}
	codes := map[string]int{"ok": 200, "redirect": 301, "client error": 404, "server error": 502, "no route": 404, "no token": 401, "method": 400, "none": 503, "about": 200, "large": 413, "post": 201, "old": 200, "head": 200}
	var kn []string
	for k := range kinds {
		kn = append(kn, k)
	}
	for _, k := range sorted(toSet(kn)) {
		for _, id := range []string{"", "abc", "XR-1-2-3", "550e8400-e29b-41d4-a716-446655440000", "with space and ;=,", strings.Repeat("x", 2000), "caf\xc3\xa9", "0", "-"} {
			for _, name := range []string{"X-Request-Id", "x-request-id", "X-REQUEST-ID"} {
				for rep := 0; rep < 2; rep++ {
					for _, mode := range []string{"HTTP", "TLS", "TLS 1.2"} {
						if id == "" && name != "X-Request-Id" && name != "x-request-id" {
							continue
						}
						wireCase(fmt.Sprintf("id %s %.20q %s %d %s", k, id, name, rep, mode), func() (string, string) {
							up.set(func(q *upReq) upAct {
								st := "200"
								if v := q.get("X-St"); len(v) > 0 {
									st = v[0]
								}
								return upAct{Raw: "HTTP/1.1 " + st + " X\r\nContent-Length: 0\r\n\r\n"}
							})
							raw := kinds[k] + "X-Case: i\r\n"
							if id != "" || name == "x-request-id" {
								raw += name + ": " + id + "\r\n"
							}
							raw += "\r\n"
							if k == "large" {
								raw += strings.Repeat("x", 5000)
							}
							c := cl
							switch mode {
							case "TLS":
								c = clt
							case "TLS 1.2":
								c = clt12
							}
							m := strings.SplitN(raw, " ", 2)[0]
							if k == "large" {
								c.drop()
							}
							r := c.do(m, raw)
							q := up.take("i")
							if r.Err != nil || r.Status != codes[k] {
								return fmt.Sprintf("%s got %s", k, r), ""
							}
							if v := r.get("Strict-Transport-Security"); mode != "HTTP" && (len(v) != 1 || !strings.Contains(v[0], "max-age=")) {
								return fmt.Sprintf("no Strict-Transport-Security in mode %s: %s", mode, r), ""
							}
							return rid(r, q, id), fmt.Sprint(r.Status)
						})
					}
				}
			}
		}
	}
	// every byte an id may hold, in every place
	var own []string
	for b := 0x21; b < 0x100; b++ {
		if b == 0x7f {
			continue
		}
		x := string([]byte{byte(b)})
		own = append(own, x, x+"id", "id"+x, "i"+x+"d", x+"id"+x)
	}
	for _, n := range []int{2, 16, 31, 32, 33, 36, 37, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 4096} {
		own = append(own, strings.Repeat("0123456789abcdef", n/16+1)[:n])
	}
	own = append(own, "a  b", "a\tb", "a, b", "XR-", "unknown", "null", "undefined", "{}", "\"\"", "%00", "00000000-0000-0000-0000-000000000000")
	for _, id := range own {
		wireCase(fmt.Sprintf("own id %.60q %d", id, len(id)), func() (string, string) {
			up.set(func(q *upReq) upAct { return upAct{Raw: "HTTP/1.1 200 X\r\nContent-Length: 0\r\n\r\n"} })
			for _, path := range []string{"/api/x", "/nowhere"} {
				r := cl.do("GET", "GET "+path+" HTTP/1.1\r\nHost: x\r\nX-Case: o\r\nX-Request-Id: "+id+"\r\n\r\n")
				q := up.take("o")
				if r.Err != nil || (path == "/api/x") != (len(q) == 1) {
					return fmt.Sprintf("got %s, %d forwarded", r, len(q)), ""
				}
				if p := rid(r, q, id); p != "" {
					return p, ""
				}
			}
			return "", "own"
		})
	}
	if s.exited() || st.exited() {
		R.Violate(curCase, "the server died: %s%s", s.out.String(), st.out.String())
	}
}

func toSet(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}
