//go:build go1.21

package j8a

// One request over every protocol: nothing but the protocol may differ.

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var c26Greeting = regexp.MustCompile(`"j8a":\s*"[^"]*"`)

func init() {
	checks["C26"] = checkC26
}

type c26Chan struct {
	n      string
	cl     *wclient
	h2     *h2client
	ver    string
	tls    bool
	framed string // cl, chunked
}

type c26Req struct {
	m, target string
	hdr       [][2]string
	body      string
	has       bool
}

func (q c26Req) send(c *c26Chan, id string) *wresp {
	hdr := append([][2]string{{"Host", "gw.test"}, {"X-Case", id}}, q.hdr...)
	if c.h2 != nil {
		var b []byte
		if q.has {
			b = []byte(q.body)
		}
		return c.h2.do(q.m, q.target, hdr, b)
	}
	raw := q.m + " " + q.target + " HTTP/" + c.ver + "\r\n"
	for _, h := range hdr {
		raw += h[0] + ": " + h[1] + "\r\n"
	}
	if q.has && c.framed == "chunked" {
		raw += "Transfer-Encoding: chunked\r\n\r\n"
		for b := q.body; len(b) > 0; {
			n := min(len(b), 1000)
			raw += fmt.Sprintf("%x\r\n%s\r\n", n, b[:n])
			b = b[n:]
		}
		raw += "0\r\n\r\n"
	} else if q.has {
		raw += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(q.body), q.body)
	} else {
		raw += "\r\n"
	}
	return c.cl.do(q.m, raw)
}

// c26View renders what a client gets, without what belongs to the protocol and the individual exchange
func c26View(r *wresp, m string) string {
	if r.Err != nil {
		return "error " + r.Err.Error()
	}
	var o []string
	for _, h := range r.Hdr {
		k := strings.ToLower(h[0])
		switch k {
		case "date", "connection", "transfer-encoding", "content-length", "strict-transport-security", "trailer":
			continue
		}
		o = append(o, k+": "+h[1])
	}
	sort.Strings(o)
	cl := ""
	if v := r.get("Content-Length"); len(v) > 0 && m != "HEAD" && r.Status != 304 && v[0] != fmt.Sprint(len(r.Body)) {
		cl = " wrong length " + v[0]
	}
	body := r.Body
	if g := r.get("Content-Encoding"); len(g) == 1 && g[0] == "gzip" {
		if d, err := refGunzip(body); err == nil {
			body = append([]byte("gzip of "), d...)
		}
	}
	// the gateway's own answers carry a greeting of the day's mood
	return fmt.Sprintf("%d %q body %q%s", r.Status, o, c26Greeting.ReplaceAll(body, []byte(`"j8a":"*"`)), cl)
}

func c26UpView(qs []*upReq) string {
	var o []string
	for _, q := range qs {
		var h []string
		for _, x := range q.Hdr {
			switch strings.ToLower(x[0]) {
			case "x-case", "content-length", "transfer-encoding":
				continue
			}
			h = append(h, strings.ToLower(x[0])+": "+x[1])
		}
		// header lines of different names may come in any order
		sort.SliceStable(h, func(i, j int) bool {
			return h[i][:strings.IndexByte(h[i], ':')] < h[j][:strings.IndexByte(h[j], ':')]
		})
		o = append(o, fmt.Sprintf("%s %q body %q %v", q.Line, h, q.Body, q.BodyErr))
	}
	return strings.Join(o, " / ")
}

func checkC26() {
	R.Rule = "requests with up to three (thorough: four) of method, target, headers, body and upstream answer off their default, in every combination of their alphabets, are each sent over HTTP/1.0, HTTP/1.1 with both framings, HTTP/1.1 over TLS and HTTP/2 to the real server; what the upstream receives and what the client gets must be the same but for what belongs to the protocol, whatever order the protocols are used in"
	up := newRawUp("up", nil)
	dead := deadPort()
	var mu sync.Mutex
	acts := map[string]string{}
	up.set(func(q *upReq) upAct {
		mu.Lock()
		a := acts[strings.SplitN(q.Case, "-", 2)[0]]
		mu.Unlock()
		if q.Method == "HEAD" {
			if i := strings.Index(a, "\r\n\r\n"); i >= 0 {
				a = a[:i+4]
			}
		}
		return upAct{Raw: a, Close: true}
	})
	ps := mustBoot(c17Yml(up.port, dead, 1, 30, 60, false))
	ts := mustBoot(c17Yml(up.port, dead, 1, 30, 60, true))
	defer ps.stop()
	defer ts.stop()
	insec := &tls.Config{InsecureSkipVerify: true}
	nolen := newH2(ts.addr())
	nolen.nolen = true
	chans := []*c26Chan{
		{n: "1.1", cl: &wclient{addr: ps.addr()}, ver: "1.1", framed: "cl"},
		{n: "1.1 chunked", cl: &wclient{addr: ps.addr()}, ver: "1.1", framed: "chunked"},
		{n: "1.0", cl: &wclient{addr: ps.addr()}, ver: "1.0", framed: "cl"},
		{n: "tls 1.1", cl: &wclient{addr: ts.addr(), tls: insec}, ver: "1.1", framed: "cl", tls: true},
		{n: "2", h2: newH2(ts.addr()), tls: true},
		{n: "tls 1.1 chunked", cl: &wclient{addr: ts.addr(), tls: insec}, ver: "1.1", framed: "chunked", tls: true},
		{n: "2 no length", h2: nolen, tls: true, framed: "chunked"},
		{n: "tls 1.0", cl: &wclient{addr: ts.addr(), tls: insec}, ver: "1.0", framed: "cl", tls: true},
	}
	gz := string(refGzip([]byte(strings.Repeat("hello ", 40))))
	cl := func(head, body string) string {
		return fmt.Sprintf("HTTP/1.1 %s\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", head, len(body), body)
	}
	ch := func(head, body string) string {
		return fmt.Sprintf("HTTP/1.1 %s\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", head, len(body), body)
	}
	answers := []struct{ n, raw string }{
		{"ok", cl("200 OK\r\nContent-Type: text/plain\r\nX-Up: 1", "answer")},
		{"chunked", ch("200 OK\r\nContent-Type: application/json", `{"a":1}`)},
		{"to the end", "HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nConnection: close\r\n\r\nbody to the end"},
		{"1.0", "HTTP/1.0 200 OK\r\nContent-Type: a/b\r\n\r\nbody to the end"},
		{"empty", cl("200 OK\r\nContent-Type: a/b", "")},
		{"no type", cl("200 OK", "<html>hm</html>")},
		{"201", cl("201 Created\r\nLocation: /new/1", "x")}, {"204", "HTTP/1.1 204 No Content\r\nConnection: close\r\nX-Up: 1\r\n\r\n"}, {"205", cl("205 Reset", "")}, {"206", cl("206 Partial\r\nContent-Range: bytes 0-3/9\r\nContent-Type: a/b", "abcd")},
		{"301", cl("301 Moved\r\nLocation: https://else.test/x", "moved")}, {"302 empty", cl("302 Found\r\nLocation: /y", "")}, {"304", "HTTP/1.1 304 Not Modified\r\nConnection: close\r\nETag: \"e\"\r\n\r\n"}, {"307", ch("307 T\r\nLocation: //x", "t")},
		{"400", cl("400 B", "bad")}, {"404", ch("404 N\r\nX-Up: 1", "gone")}, {"418", cl("418 T", "")}, {"429", cl("429 T\r\nRetry-After: 3", "x")}, {"500", cl("500 E", "e")}, {"503", cl("503 E\r\nRetry-After: 1", "")},
		{"gzip", cl("200 OK\r\nContent-Type: text/plain\r\nContent-Encoding: gzip", gz)}, {"gzip chunked", ch("200 OK\r\nContent-Type: text/plain\r\nContent-Encoding: gzip\r\nVary: Accept-Encoding", gz)}, {"br", cl("200 OK\r\nContent-Type: a/b\r\nContent-Encoding: br", "\x0b\x02\x80opaque")},
		{"multi", cl("200 OK\r\nContent-Type: a/b\r\nSet-Cookie: a=1\r\nSet-Cookie: b=2; Path=/\r\nX-M: 1\r\nX-M: 2, 3\r\nX-Empty:", "m")},
		{"odd names", cl("200 OK\r\nContent-Type: a/b\r\nx_under: 1\r\nX.Dot: 2\r\nX-UPPER-CASE: 3\r\nx-lower: 4", "m")},
		{"ours", cl("200 OK\r\nContent-Type: a/b\r\nServer: other\r\nX-Server: keep\r\nCache-Control: max-age=5\r\nDate: Thu, 01 Jan 1970 00:00:00 GMT", "m")},
		{"latin", cl("200 OK\r\nContent-Type: a/b\r\nX-L: caf\xe9", "m\x00\xff")},
		{"long header", cl("200 OK\r\nContent-Type: a/b\r\nX-Long: "+strings.Repeat("v", 9000), "m")},
		{"large", cl("200 OK\r\nContent-Type: a/b", strings.Repeat("0123456789abcdef", 20000))},
		{"large chunked", ch("200 OK\r\nContent-Type: a/b", strings.Repeat("0123456789abcdef", 5000))},
		{"cut", "HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nContent-Length: 50\r\n\r\nabc"},
		{"nothing", ""}, {"garbage", "\x00\x01nonsense\r\n\r\n"},
		{"early hints", "HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n" + cl("200 OK\r\nContent-Type: a/b", "after")},
		{"trailer", "HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nX-T: 1\r\n\r\n"},
	}
	tok := hsToken(`{"alg":"HS256"}`, `{"sub":"x"}`, pxSecret)
	methods := []string{"GET", "HEAD", "OPTIONS", "PUT", "DELETE", "POST", "PATCH", "FOO"}
	targets := []string{"/api/x", "/api", "/api/", "/api?q=1", "/api/x?a=b&a=c%20d&e", "/api/%41%2fb%20c", "/api/%ff%00", "/api/a;b=c,d", "/api/caf%C3%A9", "/api/x?u=http://a/b?c", "/api/" + strings.Repeat("p", 3000), "/about", "/pabout", "/sec/x", "/dead/x", "/none/x", "/nolabel/x", "/nowhere", "/apix"}
	headers := []struct {
		n string
		h [][2]string
	}{
		{"none", nil},
		{"agent", [][2]string{{"User-Agent", "agent/1"}}},
		{"gzip", [][2]string{{"Accept-Encoding", "gzip"}}},
		{"no gzip", [][2]string{{"Accept-Encoding", "gzip;q=0, identity"}}},
		{"br", [][2]string{{"Accept-Encoding", "br, deflate"}}},
		{"any coding", [][2]string{{"Accept-Encoding", "*"}}},
		{"token", [][2]string{{"Authorization", "Bearer " + tok}}},
		{"bad token", [][2]string{{"Authorization", "Bearer a.b.c"}}},
		{"basic", [][2]string{{"Authorization", "Basic YTpi"}}},
		{"id", [][2]string{{"X-Request-Id", "my-id"}}},
		{"ids", [][2]string{{"X-Request-Id", "my-id"}, {"X-Request-Id", "other"}}},
		{"cookie", [][2]string{{"Cookie", "a=b; c=d"}}},
		{"multi", [][2]string{{"X-M", "1"}, {"X-M", "2, 3"}, {"X-M", ""}}},
		{"forwarded", [][2]string{{"X-Forwarded-For", "1.2.3.4"}, {"Forwarded", "for=1.2.3.4"}, {"Via", "1.1 a"}, {"Referer", "http://r/"}}},
		{"conditional", [][2]string{{"If-None-Match", "\"e\""}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Range", "bytes=0-1"}}},
		{"odd names", [][2]string{{"x_under", "1"}, {"X.Dot", "2"}}},
		{"long", [][2]string{{"X-Long", strings.Repeat("w", 9000)}}},
		{"latin", [][2]string{{"X-L", "caf\xe9"}}},
		{"ours", [][2]string{{"Server", "mine"}, {"Date", "now"}, {"X-Servers", "keep"}}},
		{"debug", [][2]string{{"X-Debug", "true"}}},
		{"content", [][2]string{{"Content-Type", "application/json"}, {"Content-Language", "de"}}},
		{"expect other", [][2]string{{"X-Expect", "1"}}},
	}
	bodies := []struct {
		n   string
		b   string
		has bool
	}{{"none", "", false}, {"small", "a small body", true}, {"binary", "\x00\x01\xff\r\n\r\n0\r\n\r\n", true}, {"almost", strings.Repeat("b", 4095), true}, {"over", strings.Repeat("b", 4097), true}, {"far over", strings.Repeat("b", 9000), true}, {"gzip", gz, true}}
	n := 0
	run := func(im, it, ih, ib, ia int) {
		off := 0
		for _, v := range []int{im, it, ih, ib, ia} {
			if v > 0 {
				off++
			}
		}
		if off > pick(3, 4) {
			return
		}
		m, tg, h, b, a := methods[im], targets[it], headers[ih], bodies[ib], answers[ia]
		if b.has && m != "PUT" && m != "POST" && m != "DELETE" && m != "PATCH" {
			if !(m == "GET" && off == 1) {
				return
			}
		}
		if off >= 3 && len(tg) > 1000 {
			return
		}
		wireCase(fmt.Sprintf("%s %d %s/%s/%s", m, it, h.n, b.n, a.n), func() (string, string) {
			n++
			mu.Lock()
			acts[fmt.Sprintf("c%d", n)] = a.raw
			mu.Unlock()
			defer func() {
				mu.Lock()
				delete(acts, fmt.Sprintf("c%d", n))
				mu.Unlock()
			}()
			q := c26Req{m, tg, h.h, b.b, b.has}
			rid := false
			for _, x := range h.h {
				rid = rid || x[0] == "X-Request-Id"
			}
			if !rid {
				q.hdr = append([][2]string{{"X-Request-Id", "fixed"}}, q.hdr...)
			}
			agent := false
			for _, x := range h.h {
				agent = agent || x[0] == "User-Agent"
			}
			if !agent {
				q.hdr = append([][2]string{{"User-Agent", "verif"}}, q.hdr...)
			}
			var cv, uv string
			var first *c26Chan
			// the order changes from case to case, so that every protocol follows every other
			for k := range chans {
				c := chans[(k+n)%len(chans)]
				if c.framed == "chunked" && !b.has {
					continue
				}
				id := fmt.Sprintf("c%d-%s", n, strings.ReplaceAll(c.n, " ", ""))
				r := q.send(c, id)
				var qs []*upReq
				for _, x := range up.take(id) {
					qs = append(qs, x)
				}
				got := c26View(r, m)
				gotUp := c26UpView(qs)
				if c.tls != (len(r.get("Strict-Transport-Security")) > 0) && r.Err == nil {
					return fmt.Sprintf("Strict-Transport-Security over %s: %v", c.n, r.get("Strict-Transport-Security")), "hsts"
				}
				if r.Err != nil && strings.Contains(b.n, "over") && !strings.HasPrefix(tg, "/about") {
					// a client that is still sending may lose the answer
					got = cv
					if first == nil {
						continue
					}
				}
				if first == nil {
					first, cv, uv = c, got, gotUp
					continue
				}
				if got != cv {
					return fmt.Sprintf("over %s the client gets %s, over %s %s", first.n, clip(cv), c.n, clip(got)), "client"
				}
				if gotUp != uv {
					return fmt.Sprintf("over %s the upstream gets %s, over %s %s", first.n, clip(uv), c.n, clip(gotUp)), "upstream"
				}
				if len(qs) > 0 && b.has && m != "HEAD" && !bytes.Equal(qs[0].Body, []byte(b.b)) {
					return fmt.Sprintf("over %s the body arrives as %q", c.n, qs[0].Body), "body"
				}
			}
			return "", fmt.Sprint(h64(cv+uv) % 100000)
		})
	}
	for im := range methods {
		for it := range targets {
			for ih := range headers {
				for ib := range bodies {
					for ia := range answers {
						run(im, it, ih, ib, ia)
					}
				}
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 900 {
		return s[:900] + "..."
	}
	return s
}
