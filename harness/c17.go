//go:build go1.21

package j8a

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"sync"
)

func init() {
	checks["C17"] = checkC17
}

var c17n int

// c17Yml: a gateway with a route for every way to generate a response. conn replaces the timeouts.
func c17Yml(up, dead int, attempts int, readT, rtT int, tlsmode bool) string {
	down := fmt.Sprintf("{port: {{PORT}}, maxBodyBytes: 4096, roundTripTimeoutSeconds: %d}", rtT)
	if tlsmode {
		c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
		down = fmt.Sprintf("\n    port: {{PORT}}\n    maxBodyBytes: 4096\n    roundTripTimeoutSeconds: %d\n    mode: TLS\n    cert: ", rtT) + yamlBlock(pemCerts(c), 6) + "    key: " + yamlBlock(pemKey(c.key), 6)
	}
	return fmt.Sprintf(`
connection:
  downstream: %s
  upstream: {readTimeoutSeconds: %d, maxAttempts: %d, tlsInsecureSkipVerify: true}
jwt:
  hs: {alg: HS256, key: "%s"}
policies:
  p: [{label: absent, weight: 1.0}]
routes:
  - {path: /about, resource: about}
  - {path: /pabout, resource: about, jwt: hs}
  - {path: /api, resource: api}
  - {path: /sec, resource: api, jwt: hs}
  - {path: /dead, resource: dead}
  - {path: /none, resource: none}
  - {path: /nolabel, resource: api, policy: p}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
  dead: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, down, readT, attempts, pxSecret, up, dead)
}

func deadPort() int {
	u := newRawUp("dead", nil)
	u.ln.Close()
	return u.port
}

// c17Check looks at one generated response
func c17Check(r *wresp, method string, status int) string {
	if r.Err != nil {
		return fmt.Sprintf("no well formed response: %v", r)
	}
	if r.Status != status {
		return fmt.Sprintf("status %d instead of %d: %v", r.Status, status, r)
	}
	if p := generatedOK(r, method); p != "" {
		return fmt.Sprintf("%s (%v)", p, r)
	}
	if method != "HEAD" {
		dec, _, _ := refDecode(strings.Join(r.get("Content-Encoding"), ","), r.Body)
		var m map[string]interface{}
		json.Unmarshal(dec, &m)
		for k := range m {
			switch k {
			case "j8a", "ServerID", "Version", "Code", "Message":
			default:
				return fmt.Sprintf("undocumented field %s in %s", k, dec)
			}
		}
		for _, k := range []string{"j8a", "ServerID", "Version", "Code", "Message"} {
			if _, ok := m[k]; !ok {
				return fmt.Sprintf("field %s is missing in %s", k, dec)
			}
		}
		// the identity in the body and in the Server header are the same
		if want := fmt.Sprintf("j8a %s %s", m["Version"], m["ServerID"]); r.one("Server") != want {
			return fmt.Sprintf("Server is %q, the body says %q", r.get("Server"), want)
		}
	}
	return ""
}

func c17About(r *wresp, method string) string {
	if r.Err != nil || r.Status != 200 {
		return fmt.Sprintf("about answered %v", r)
	}
	if ct := r.get("Content-Type"); len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return fmt.Sprintf("about has content type %q", ct)
	}
	if method == "HEAD" {
		return ""
	}
	dec, rest, err := refDecode(strings.Join(r.get("Content-Encoding"), ","), r.Body)
	if err != nil || len(rest) > 0 {
		return fmt.Sprintf("about does not decode: %v %v", rest, err)
	}
	if p := jsonOK(dec, 0); p != "" {
		return p
	}
	var m map[string]interface{}
	json.Unmarshal(dec, &m)
	if len(m) != 3 {
		return fmt.Sprintf("about is %s", dec)
	}
	if want := fmt.Sprintf("j8a %s %s", m["Version"], m["ServerID"]); r.one("Server") != want {
		return fmt.Sprintf("Server is %q, the body says %q", r.get("Server"), want)
	}
	return ""
}

func checkC17() {
	R.Rule = "every way to make the gateway generate a response (each status it generates by every cause, each upstream status 400..499, about) x accepted codings x methods x HTTP versions x plain, TLS and HTTP/2 x log levels x debug header, and every history of up to three upstream answers of an alphabet that ends in a generated response, is run against the real server; each response is decoded independently and compared with the documented shape and the status line"
	up := newRawUp("up", nil)
	dead := deadPort()
	type target struct {
		name string
		s    *srv
		cl   *wclient
		h2   *h2client
	}
	mk := func(name string, attempts, readT, rtT int, tlsmode bool, env ...string) *target {
		s := mustBoot(c17Yml(up.port, dead, attempts, readT, rtT, tlsmode), env...)
		t := &target{name: name, s: s, cl: &wclient{addr: s.addr()}}
		if tlsmode {
			t.cl.tls = &tls.Config{InsecureSkipVerify: true}
		}
		return t
	}
	plain := mk("http", 1, 30, 60, false)
	trace := mk("trace", 1, 30, 60, false, "LOGLEVEL=TRACE")
	tlst := mk("tls", 1, 30, 60, true, "LOGLEVEL=DEBUG")
	h2t := &target{name: "h2", s: tlst.s, h2: newH2(tlst.s.addr())}
	defer plain.s.stop()
	defer trace.s.stop()
	defer tlst.s.stop()

	var mu sync.Mutex
	scripts := map[string]func(q *upReq) upAct{}
	up.set(func(q *upReq) upAct {
		mu.Lock()
		f := scripts[q.Case]
		mu.Unlock()
		if f == nil {
			return ok200("ok")
		}
		return f(q)
	})
	script := func(f func(q *upReq) upAct) string {
		mu.Lock()
		c17n++
		id := fmt.Sprintf("k%d", c17n)
		scripts[id] = f
		mu.Unlock()
		return id
	}
	done := func(id string) {
		mu.Lock()
		delete(scripts, id)
		mu.Unlock()
		up.take(id)
	}
	// send one request on t and return the response
	send := func(t *target, fresh bool, method, tgt, ver string, hdr [][2]string, body string, chunked bool) *wresp {
		if t.h2 != nil {
			var b []byte
			if body != "" {
				b = []byte(body)
			}
			return t.h2.do(method, tgt, hdr, b)
		}
		raw := method + " " + tgt + " HTTP/" + ver + "\r\nHost: gw\r\n"
		for _, h := range hdr {
			raw += h[0] + ": " + h[1] + "\r\n"
		}
		switch {
		case chunked:
			raw += "Transfer-Encoding: chunked\r\n\r\n"
			if body != "" {
				raw += fmt.Sprintf("%x\r\n%s\r\n", len(body), body)
			}
			raw += "0\r\n\r\n"
		case body != "":
			raw += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
		default:
			raw += "\r\n"
		}
		cl := t.cl
		if fresh {
			cl = &wclient{addr: t.s.addr(), tls: t.cl.tls}
			defer cl.drop()
		}
		return cl.do(method, raw)
	}
	accepts := [][]string{nil, {"gzip"}, {"gzip;q=0"}, {"x-gzip"}, {"br"}, {"*"}, {"identity"}, {"br, gzip;q=0.5"}, {"deflate", "gzip"}}
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT"}
	hdrs := func(ae []string, id string, more ...[2]string) [][2]string {
		h := [][2]string{{"X-Case", id}}
		for _, a := range ae {
			h = append(h, [2]string{"Accept-Encoding", a})
		}
		return append(h, more...)
	}
	targets := []*target{plain, trace, tlst, h2t}
	usable := func(t *target, m, ver string) bool {
		return !(t.h2 != nil && (m == "CONNECT" || ver != "1.1"))
	}
	debugs := [][][2]string{nil, {{"X-Request-Debug", "true"}}}

	// ---- by route and request ----
	type cause struct {
		name    string
		status  int
		methods []string // nil: all
		tgt     string
		hdr     [][2]string
		body    string
		chunked bool
		script  func(q *upReq) upAct
	}
	raw := func(s string, cls bool) func(q *upReq) upAct {
		return func(q *upReq) upAct { return upAct{Raw: s, Close: cls} }
	}
	bodyless := []string{"GET", "POST", "PUT", "DELETE", "OPTIONS"}
	causes := []cause{
		{name: "illegal method", status: 400, methods: []string{"PATCH", "FOO", "get2", "PROPFIND", "LINK", "GETT", "X-M!#$%&'*+.^_`|~9"}, tgt: "/api"},
		{name: "illegal method on secured", status: 400, methods: []string{"PATCH", "FOO"}, tgt: "/sec"},
		{name: "illegal method nowhere", status: 400, methods: []string{"PATCH", "FOO"}, tgt: "/nowhere"},
		{name: "no token", status: 401, tgt: "/sec"},
		{name: "no token about", status: 401, tgt: "/pabout"},
		{name: "empty token", status: 401, tgt: "/sec", hdr: [][2]string{{"Authorization", "Bearer "}}},
		{name: "garbage token", status: 401, tgt: "/sec/x?y", hdr: [][2]string{{"Authorization", "Bearer a.b.c"}}},
		{name: "null signatures token", status: 401, tgt: "/sec", hdr: [][2]string{{"Authorization", `Bearer {"payload":"e30","signatures":[null]}`}}},
		{name: "null signatures token about", status: 401, tgt: "/pabout", hdr: [][2]string{{"Authorization", `Bearer {"payload":"e30","signatures":[null]}`}}},
		{name: "unsigned token", status: 401, tgt: "/sec", hdr: [][2]string{{"Authorization", "Bearer " + forge(`{"alg":"none"}`, `{"sub":"a"}`, "none", nil)}}},
		{name: "no route", status: 404, tgt: "/nowhere"},
		{name: "root", status: 404, tgt: "/"},
		{name: "odd target", status: 404, tgt: "/%00%ff?%zz&\"'<>"},
		{name: "too large", status: 413, methods: bodyless, tgt: "/api", body: strings.Repeat("x", 5000)},
		{name: "just too large", status: 413, methods: bodyless, tgt: "/api", body: strings.Repeat("x", 4097)},
		{name: "too large chunked", status: 413, methods: bodyless, tgt: "/api", body: strings.Repeat("x", 5000), chunked: true},
		{name: "too large nowhere", status: 413, methods: bodyless, tgt: "/nowhere", body: strings.Repeat("x", 5000)},
		{name: "refused", status: 502, tgt: "/dead"},
		{name: "no resource", status: 503, tgt: "/none"},
		{name: "no label", status: 503, tgt: "/nolabel"},
		{name: "upstream closes", status: 502, tgt: "/api", script: raw("", true)},
		{name: "upstream garbage", status: 502, tgt: "/api", script: raw("garbage\r\n\r\n", true)},
		{name: "upstream cut header", status: 502, tgt: "/api", script: raw("HTTP/1.1 200 OK\r\nX: y", true)},
		{name: "upstream cut body", status: 502, methods: bodyless, tgt: "/api", script: raw("HTTP/1.1 200 OK\r\nContent-Length: 100\r\nContent-Encoding: gzip\r\nContent-Type: text/x\r\n\r\nabc", true)},
		{name: "upstream cut chunk", status: 502, methods: bodyless, tgt: "/api", script: raw("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Type: text/x\r\n\r\n5\r\nab", true)},
		{name: "upstream bad chunk", status: 502, methods: bodyless, tgt: "/api", script: raw("HTTP/1.1 404 Not Found\r\nTransfer-Encoding: chunked\r\nContent-Type: text/x\r\n\r\nzz\r\nab\r\n", true)},
		{name: "upstream cut 404", status: 502, methods: bodyless, tgt: "/api", script: raw("HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\nContent-Type: text/x\r\n\r\nabc", true)},
	}
	for _, st := range []int{500, 501, 502, 503, 504, 505, 511, 599, 600, 999} {
		for _, ce := range []string{"", "gzip", "br"} {
			b := "upstream's own words"
			if ce == "gzip" {
				b = string(refGzip([]byte(b)))
			}
			h := ""
			if ce != "" {
				h = "Content-Encoding: " + ce + "\r\n"
			}
			causes = append(causes, cause{name: fmt.Sprintf("upstream %d %s", st, ce), status: 502, tgt: "/api",
				script: func(q *upReq) upAct {
					o := fmt.Sprintf("HTTP/1.1 %d whatever\r\nContent-Type: text/html\r\n%sContent-Length: %d\r\n\r\n", st, h, len(b))
					if q.Method != "HEAD" {
						o += b
					}
					return upAct{Raw: o}
				}})
		}
	}
	for _, c := range causes {
		ms := c.methods
		if ms == nil {
			ms = methods
		}
		for _, t := range targets {
			for _, m := range ms {
				for _, ver := range []string{"1.1", "1.0"} {
					for ai, ae := range accepts {
						for di, dbg := range debugs {
							if !usable(t, m, ver) || (ver == "1.0" && c.chunked) || (m == "CONNECT" && strings.Contains(c.tgt, "%00")) {
								continue
							}
							if t.h2 != nil && (strings.Contains(c.tgt, "%") || strings.Contains(c.name, "null")) {
								continue // the client library would not send it as it is
							}
							if !thorough() && di == 1 && ai > 1 {
								continue
							}
							if t.h2 != nil && m == "TRACE" && c.body != "" {
								continue
							}
							c := c
							wireCase(fmt.Sprintf("%s / %s %s %s HTTP/%s %q debug %d", t.name, c.name, m, c.tgt, ver, ae, di), func() (string, string) {
								f := c.script
								id := script(f)
								defer done(id)
								r := send(t, false, m, c.tgt, ver, append(hdrs(ae, id, c.hdr...), dbg...), c.body, c.chunked)
								return c17Check(r, m, c.status), fmt.Sprint(c.name, r.Status)
							})
						}
					}
				}
			}
		}
	}

	// ---- every upstream 4xx ----
	type upBody struct {
		name string
		hdr  string
		body string
	}
	html := "<html><body>not this</body></html>"
	ubs := []upBody{
		{"text", "Content-Type: text/html\r\n", html},
		{"none", "", ""},
		{"gz", "Content-Type: text/html\r\nContent-Encoding: gzip\r\n", string(refGzip([]byte(html)))},
		{"br", "Content-Type: text/html\r\nContent-Encoding: br\r\n", "\x0bopaque"},
		{"types", "Content-Type: text/html\r\nContent-Type: text/plain\r\nContent-Language: de\r\n", html},
		{"json", "Content-Type: application/problem+json\r\n", `{"Code":1,"Message":"","j8a":"no"}`},
		{"one", "Content-Type: application/octet-stream\r\n", "x"},
		{"notgz", "Content-Encoding: gzip\r\n", "plain text under a wrong label"},
		{"loc", "Location: /elsewhere\r\nWWW-Authenticate: Basic\r\nServer: upstream\r\nContent-Type: text/html\r\n", html},
	}
	frames := []string{"cl", "chunked", "close"}
	for st := 400; st <= 499; st++ {
		for _, t := range targets {
			for mi, m := range methods {
				for bi, ub := range ubs {
					for fi, fr := range frames {
						for ai, ae := range accepts {
							if !usable(t, m, "1.1") {
								continue
							}
							// the usual ones in full, the others with a coding, body and framing that depend on all of them
							usual := st == 404 || st == 401 || st == 413
							if !thorough() && !(usual && t == plain) && (bi+fi*2+ai+mi+st)%27 != 0 {
								continue
							}
							wireCase(fmt.Sprintf("%s / upstream %d %s %s %s %q", t.name, st, m, ub.name, fr, ae), func() (string, string) {
								id := script(func(q *upReq) upAct {
									o := fmt.Sprintf("HTTP/1.1 %d something\r\n%s", st, ub.hdr)
									b := ub.body
									cls := false
									switch fr {
									case "cl":
										o += fmt.Sprintf("Content-Length: %d\r\n", len(b))
									case "chunked":
										o += "Transfer-Encoding: chunked\r\n"
										if b != "" {
											b = fmt.Sprintf("%x\r\n%s\r\n", len(b), b)
										}
										b += "0\r\n\r\n"
									case "close":
										o += "Connection: close\r\n"
										cls = true
									}
									if q.Method == "HEAD" {
										b = ""
									}
									return upAct{Raw: o + "\r\n" + b, Close: cls}
								})
								defer done(id)
								r := send(t, false, m, "/api/x", "1.1", hdrs(ae, id), "", false)
								want := st
								if ub.name == "notgz" && r.Status == 502 {
									want = 502 // that body cannot be read
								}
								return c17Check(r, m, want), fmt.Sprint(r.Status, r.get("Content-Encoding"))
							})
						}
					}
				}
			}
		}
	}

	// ---- about ----
	for _, t := range targets {
		for _, m := range methods {
			for _, ver := range []string{"1.1", "1.0"} {
				for _, ae := range accepts {
					for _, tgt := range []string{"/about", "/about?x=y", "/pabout"} {
						for bi, body := range []string{"", "body", strings.Repeat("b", 9000)} {
							if !usable(t, m, ver) || (m == "TRACE" && t.h2 != nil && bi > 0) || m == "CONNECT" { // a tunnel has no body

								continue
							}
							wireCase(fmt.Sprintf("%s / about %s %s HTTP/%s %q body %d", t.name, m, tgt, ver, ae, bi), func() (string, string) {
								var more [][2]string
								if tgt == "/pabout" {
									more = [][2]string{{"Authorization", "Bearer " + forge(`{"alg":"HS256"}`, `{"sub":"a"}`, "HS256", []byte(pxSecret))}}
								}
								r := send(t, false, m, tgt, ver, hdrs(ae, "about", more...), body, false)
								return c17About(r, m), fmt.Sprint("about", r.Status)
							})
						}
					}
				}
			}
		}
	}

	// ---- histories of upstream answers ----
	retry := mk("retry", 3, 1, 60, false)
	short := mk("short", 4, 30, 2, false)
	defer retry.s.stop()
	defer short.s.stop()
	full := func(st int, body, hdr string) func(q *upReq) upAct {
		return func(q *upReq) upAct {
			o := fmt.Sprintf("HTTP/1.1 %d x\r\nContent-Type: text/html\r\n%sContent-Length: %d\r\n\r\n", st, hdr, len(body))
			if q.Method != "HEAD" {
				o += body
			}
			return upAct{Raw: o}
		}
	}
	type ans struct {
		name string
		f    func(q *upReq) upAct
		// status the sequence ends with, 0: fails; timeout: fails by time
		status  int
		timeout bool
	}
	gz := string(refGzip([]byte(html)))
	alphabet := []ans{
		{"500", full(500, html, ""), 0, false},
		{"503gz", full(503, gz, "Content-Encoding: gzip\r\n"), 0, false},
		{"close", raw("HTTP/1.1 2", true), 0, false}, // a connection that breaks without an answer is net/http's to repeat
		{"cut", raw("HTTP/1.1 200 OK\r\nContent-Length: 90\r\nContent-Encoding: gzip\r\n\r\n\x1f\x8b", true), 0, false},
		{"404", full(404, html, ""), 404, false},
		{"403gz", full(403, gz, "Content-Encoding: gzip\r\n"), 403, false},
		{"410br", full(410, "\x0bopaque", "Content-Encoding: br\r\n"), 410, false},
		{"hang", func(*upReq) upAct { return upAct{Hang: true} }, 0, true},
		{"hangbody", func(*upReq) upAct {
			return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Encoding: gzip\r\nContent-Length: 90\r\n\r\nab", Delay: 0}
		}, 0, true},
		{"hang404", func(*upReq) upAct {
			return upAct{Raw: "HTTP/1.1 404 No\r\nContent-Type: text/html\r\nContent-Length: 90\r\n\r\nab"}
		}, 0, true},
	}
	g := newGroup(48)
	var seqs [][]ans
	var rec func(p []ans)
	rec = func(p []ans) {
		if len(p) == 3 || (len(p) > 0 && p[len(p)-1].status != 0) {
			seqs = append(seqs, append([]ans{}, p...))
			return
		}
		for _, a := range alphabet {
			rec(append(p, a))
		}
	}
	rec(nil)
	haccepts := [][]string{nil, {"gzip"}}
	for _, m := range []string{"GET", "HEAD", "PUT", "POST"} {
		for si, seq := range seqs {
			if m == "POST" && len(seq) > 1 {
				continue
			}
			if m == "HEAD" {
				bad := false
				for _, a := range seq {
					bad = bad || a.name == "hangbody" || a.name == "hang404" || a.name == "cut"
				}
				if bad {
					continue // no body, no waiting for it
				}
			}
			for ai, ae := range haccepts {
				if !thorough() && m != "GET" && (si+ai)%4 != 0 {
					continue
				}
				n, want := "", 0
				for _, a := range seq {
					n += " " + a.name
				}
				last := seq[len(seq)-1]
				switch {
				case last.status != 0:
					want = last.status
				case last.timeout:
					want = 504
				default:
					want = 502
				}
				if m == "POST" && last.status == 0 && len(seq) == 1 {
					continue
				}
				seq := seq
				m, ae := m, ae
				g.do(fmt.Sprintf("history %s%s %q", m, n, ae), func() (string, string) {
					id := script(func(q *upReq) upAct {
						if q.N > len(seq) {
							return ok200("more attempts than there may be")
						}
						return hold(seq[q.N-1].f(q), seq[q.N-1].timeout)
					})
					defer done(id)
					r := send(retry, true, m, "/api", "1.1", hdrs(ae, id), "", false)
					return c17Check(r, m, want), fmt.Sprint(n, r.Status)
				})
			}
		}
	}
	// POST fails at once, round trip timeouts at every attempt
	for _, m := range []string{"GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS"} {
		for ai, ae := range accepts {
			for _, a := range alphabet {
				if a.status != 0 || (m == "HEAD" && a.name != "500" && a.name != "close" && a.name != "hang" && a.name != "503gz") {
					continue
				}
				a, m, ae := a, m, ae
				if m == "POST" {
					want := 502
					if a.timeout {
						want = 504
					}
					g.do(fmt.Sprintf("post %s %q", a.name, ae), func() (string, string) {
						id := script(func(q *upReq) upAct { return hold(a.f(q), a.timeout) })
						defer done(id)
						r := send(retry, true, m, "/api", "1.1", hdrs(ae, id), "", false)
						return c17Check(r, m, want), fmt.Sprint(a.name, r.Status)
					})
				}
				if !a.timeout {
					continue
				}
				for fails := 0; fails < 4; fails++ {
					if (m == "POST" && fails > 0) || (!thorough() && ai > 1 && fails > 0) {
						continue
					}
					fails := fails
					g.do(fmt.Sprintf("round trip %s %d failures then %s %q", m, fails, a.name, ae), func() (string, string) {
						id := script(func(q *upReq) upAct {
							if q.N <= fails {
								return full(500, gz, "Content-Encoding: gzip\r\n")(q)
							}
							return hold(a.f(q), true)
						})
						defer done(id)
						r := send(short, true, m, "/api", "1.1", hdrs(ae, id), "", false)
						return c17Check(r, m, 504), fmt.Sprint(fails, a.name, r.Status)
					})
				}
			}
		}
	}
	g.wait()
	_ = url.URL{}
}

// hold keeps the connection open after the answer if nothing is to follow
func hold(a upAct, timeout bool) upAct { return a }
