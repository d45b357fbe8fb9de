//go:build go1.21

package j8a

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C21"] = checkC21
	checks["C21x"] = checkC21x
}

// logTap reads the access log of a server as it grows
type logTap struct {
	s   *srv
	off int
	buf string
}

// since returns what was written after off
func (l *lockedBuf) since(off int) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if off > l.b.Len() {
		return ""
	}
	return string(l.b.Bytes()[off:])
}

// more returns the complete lines that came in: access entries, and lines that are not JSON
func (t *logTap) more() (entries []map[string]interface{}, bad []string) {
	n := t.s.out.since(t.off)
	t.off += len(n)
	t.buf += n
	i := strings.LastIndexByte(t.buf, '\n')
	if i < 0 {
		return
	}
	all, bad := logEntries(t.buf[:i])
	t.buf = t.buf[i+1:]
	for _, e := range all {
		if _, ok := e["dwnResCode"]; ok {
			entries = append(entries, e)
		}
	}
	return entries, bad
}

// until collects entries until the one of this request id
func (t *logTap) until(id string) (before []map[string]interface{}, bad []string, found bool) {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
		e, b := t.more()
		bad = append(bad, b...)
		for i, x := range e {
			if x[XRequestID] == id {
				return append(before, e[:i]...), bad, true
			}
		}
		before = append(before, e...)
	}
	return before, bad, false
}

// want21 is what an access entry has to say
type want21 struct {
	method, path, id, addr string
	code                   int
	upURI                  string // of the deciding attempt, empty: no upstream answer decided
	upCode, att, max       int
	noUp                   bool // no attempt was made at all
}

// loose undoes percent-encoding as far as that leaves the meaning alone: an encoded delimiter is none
func loose(s string) string {
	p := strings.Split(s, "%")
	o := p[0]
	for _, x := range p[1:] {
		if len(x) >= 2 {
			switch h := strings.ToUpper(x[:2]); h {
			case "2F", "3F", "23", "25":
				o += "%" + h + x[2:]
				continue
			}
			if d, err := url.PathUnescape("%" + x[:2]); err == nil {
				o += d + x[2:]
				continue
			}
		}
		o += "%" + x
	}
	return o
}

func runes(s string) string { return string([]rune(s)) } // invalid bytes become U+FFFD, as in JSON

func (w want21) check(e map[string]interface{}) string {
	ps := str(e["dwnReqPath"])
	switch {
	case str(e["dwnReqMethod"]) != w.method:
		return fmt.Sprintf("method is %q", str(e["dwnReqMethod"]))
	case ps != w.path && runes(loose(ps)) != runes(loose(w.path)):
		return fmt.Sprintf("path is %q instead of %q", ps, w.path)
	case str(e["dwnResCode"]) != fmt.Sprint(w.code):
		return fmt.Sprintf("code is %s, the client saw %d", str(e["dwnResCode"]), w.code)
	case str(e[XRequestID]) != runes(w.id):
		return fmt.Sprintf("request id is %q instead of %q", str(e[XRequestID]), w.id)
	case w.addr != "" && str(e["dwnReqRemoteAddr"]) != w.addr:
		return fmt.Sprintf("remote address is %q instead of %q", str(e["dwnReqRemoteAddr"]), w.addr)
	case (w.code >= 400) != (str(e["level"]) == "warn") || (w.code < 400) != (str(e["level"]) == "info"):
		return fmt.Sprintf("level is %q for code %d", str(e["level"]), w.code)
	}
	if w.upURI != "" {
		u := str(e["upReqURI"])
		switch {
		case u != w.upURI && runes(loose(u)) != runes(loose(w.upURI)):
			return fmt.Sprintf("upstream URI is %q instead of %q", u, w.upURI)
		case str(e["upAtmptResCode"]) != fmt.Sprint(w.upCode):
			return fmt.Sprintf("upstream status is %q instead of %d", str(e["upAtmptResCode"]), w.upCode)
		case str(e["upAtmpt"]) != fmt.Sprintf("%d/%d", w.att, w.max):
			return fmt.Sprintf("attempt is %q instead of %d/%d", str(e["upAtmpt"]), w.att, w.max)
		}
	} else if w.noUp {
		for _, k := range []string{"upReqURI", "upAtmptResCode", "upAtmpt"} {
			if _, ok := e[k]; ok {
				return fmt.Sprintf("the entry names an upstream (%s %v) though none was asked", k, e[k])
			}
		}
	}
	return ""
}

var c21n int

func checkC21() {
	R.Rule = "every kind of response (proxied with each status, generated by each cause, about, retried, timed out) x methods x protocols x log levels, and every byte and a set of hostile strings in path, query, request id, user agent, method and other headers, are sent to the real server; its output is parsed line by line, and each answered request must have exactly one access entry that agrees with what client and upstream saw"
	up := newRawUp("up", nil)
	dead := deadPort()
	type target struct {
		name string
		s    *srv
		tap  *logTap
		cl   *wclient
		h2   *h2client
		warn bool
	}
	mk := func(name string, attempts, readT, rtT int, tlsmode bool, env ...string) *target {
		s := mustBoot(strings.Replace(c17Yml(up.port, dead, attempts, readT, rtT, tlsmode), "routes:\n", "routes:\n  - {path: /tr, resource: api, transform: /v2}\n  - {path: /trr, resource: api, transform: /}\n", 1), env...)
		t := &target{name: name, s: s, tap: &logTap{s: s}, cl: &wclient{addr: s.addr()}, warn: strings.Contains(strings.Join(env, " "), "WARN")}
		if tlsmode {
			t.cl.tls = &tls.Config{InsecureSkipVerify: true}
		}
		return t
	}
	plain := mk("http", 1, 30, 60, false)
	trace := mk("trace", 2, 30, 60, false, "LOGLEVEL=TRACE")
	warn := mk("warn", 3, 30, 60, false, "LOGLEVEL=WARN")
	tlst := mk("tls", 3, 30, 60, true, "LOGLEVEL=DEBUG")
	maxOf := map[string]int{"http": 1, "trace": 2, "warn": 3, "tls": 3, "h2": 3, "retry": 3}
	h2t := &target{name: "h2", s: tlst.s, tap: tlst.tap, h2: newH2(tlst.s.addr())}
	for _, t := range []*target{plain, trace, warn, tlst} {
		defer t.s.stop()
	}
	var mu sync.Mutex
	scripts := map[string]func(q *upReq) upAct{}
	up.set(func(q *upReq) upAct {
		mu.Lock()
		f := scripts[q.Case]
		mu.Unlock()
		if f == nil {
			if q.Method == "HEAD" {
				return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"}
			}
			return ok200("ok")
		}
		return f(q)
	})
	newCase := func(f func(q *upReq) upAct) string {
		mu.Lock()
		defer mu.Unlock()
		c21n++
		id := fmt.Sprintf("k%d", c21n)
		if f != nil {
			scripts[id] = f
		}
		return id
	}
	type req struct {
		method, tgt, ver string
		hdr              [][2]string
		body             string
		rid              *string // the client's own request id
	}
	// expect turns what client and upstream saw into the expected entry
	expect := func(t *target, q req, r *wresp, seen []*upReq) (want21, string) {
		w := want21{method: q.method, code: r.Status, max: maxOf[t.name]}
		w.path = q.tgt
		if i := strings.IndexByte(w.path, '?'); i >= 0 {
			w.path = w.path[:i]
		}
		ids := r.get(XRequestID)
		if len(ids) == 0 || ids[0] == "" {
			return w, "the response bears no request id: " + r.String()
		}
		w.id = ids[0]
		if q.rid != nil && strings.Trim(*q.rid, " \t") != "" && w.id != strings.Trim(*q.rid, " \t") {
			return w, fmt.Sprintf("request id %q became %q", *q.rid, w.id)
		}
		w.addr = "127.0.0.1"
		w.noUp = len(seen) == 0
		return w, ""
	}
	// judge sends a request and a second one behind it, and reads the log up to the second
	judge := func(t *target, q req, f func(*upReq) upAct, decided func(want *want21, seen []*upReq)) (string, string) {
		id := newCase(f)
		hdr := append([][2]string{{"X-Case", id}}, q.hdr...)
		if q.rid != nil {
			hdr = append(hdr, [2]string{XRequestID, *q.rid})
		}
		cl := t.cl
		var r *wresp
		if t.h2 != nil {
			var b []byte
			if q.body != "" {
				b = []byte(q.body)
			}
			r = t.h2.do(q.method, q.tgt, hdr, b)
		} else {
			raw := q.method + " " + q.tgt + " HTTP/" + q.ver + "\r\nHost: gw\r\n"
			for _, h := range hdr {
				raw += h[0] + ": " + h[1] + "\r\n"
			}
			if q.body != "" {
				raw += fmt.Sprintf("Content-Length: %d\r\n", len(q.body))
			}
			r = cl.do(q.method, raw+"\r\n"+q.body)
		}
		seen := up.take(id)
		mu.Lock()
		delete(scripts, id)
		mu.Unlock()
		if r.Err != nil {
			return "no response: " + r.String(), "none"
		}
		w, p := expect(t, q, r, seen)
		if p != "" {
			return p, ""
		}
		if decided != nil {
			decided(&w, seen)
		}
		sid := "sentinel-" + id
		var sr *wresp
		if t.h2 != nil {
			sr = t.h2.do("GET", "/sentinel", [][2]string{{XRequestID, sid}}, nil)
		} else {
			if cl.c == nil {
				time.Sleep(5 * time.Millisecond) // the connection ended with the response, nothing orders the two
			}
			sr = cl.do("GET", "GET /sentinel HTTP/1.1\r\nHost: gw\r\n"+XRequestID+": "+sid+"\r\n\r\n")
		}
		if sr.Err != nil || sr.Status != 404 {
			return "the next request is answered " + sr.String(), ""
		}
		before, bad, found := t.tap.until(sid)
		if len(bad) > 0 {
			return fmt.Sprintf("the log holds lines that are not JSON: %q", bad), ""
		}
		if !found {
			return "no access entry for a request that was answered 404", ""
		}
		n := 1
		if t.warn && r.Status < 400 {
			n = 0
		}
		if len(before) != n {
			b, _ := json.Marshal(before)
			return fmt.Sprintf("%d access entries instead of %d for %s %s answered %s: %s", len(before), n, q.method, q.tgt, r.Line, b), ""
		}
		if n == 1 {
			if p := w.check(before[0]); p != "" {
				b, _ := json.Marshal(before[0])
				return fmt.Sprintf("%s (entry %s, response %s)", p, b, r), ""
			}
		}
		return "", fmt.Sprint(r.Status, w.att, w.max)
	}
	targets := []*target{plain, trace, warn, tlst, h2t}
	usable := func(t *target, m, ver string) bool { return !(t.h2 != nil && (m == "CONNECT" || ver != "1.1")) }
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT"}
	upOf := func(prefix string) func(*want21, []*upReq) {
		return func(w *want21, seen []*upReq) {
			if len(seen) > 0 {
				last := seen[len(seen)-1]
				w.upURI = fmt.Sprintf("http://127.0.0.1:%d%s", up.port, last.Target)
				w.upCode, w.att = w.code, len(seen)
			}
		}
	}
	answer := func(st int, ce string) func(*upReq) upAct {
		return func(q *upReq) upAct {
			b, h := "upstream body", ""
			if ce == "gzip" {
				b, h = string(refGzip([]byte(b))), "Content-Encoding: gzip\r\n"
			}
			o := fmt.Sprintf("HTTP/1.1 %d x\r\n%s", st, h)
			if st == 204 || st == 304 {
				return upAct{Raw: o + "\r\n"}
			}
			o += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(b))
			if q.Method != "HEAD" {
				o += b
			}
			return upAct{Raw: o}
		}
	}
	rid := func(s string) *string { return &s }

	// ---- by cause ----
	type cause struct {
		name    string
		methods []string
		tgt     string
		hdr     [][2]string
		body    string
		up      func(*upReq) upAct
		dec     func(*want21, []*upReq)
	}
	tok := "Bearer " + forge(`{"alg":"HS256"}`, `{"sub":"a"}`, "HS256", []byte(pxSecret))
	causes := []cause{
		{name: "illegal method", methods: []string{"PATCH", "FOO", "X-M!#$%&'*+.^_`|~9", "PROPFIND"}, tgt: "/api"},
		{name: "no token", tgt: "/sec/x"},
		{name: "no token about", tgt: "/pabout"},
		{name: "bad token", tgt: "/sec", hdr: [][2]string{{"Authorization", "Bearer a.b.c"}}},
		{name: "null token", tgt: "/sec", hdr: [][2]string{{"Authorization", `Bearer {"payload":"e30","signatures":[null]}`}}},
		{name: "token", tgt: "/sec/y?z=1", hdr: [][2]string{{"Authorization", tok}}, dec: upOf("")},
		{name: "token about", tgt: "/pabout", hdr: [][2]string{{"Authorization", tok}}},
		{name: "about", tgt: "/about?x"},
		{name: "no route", tgt: "/nowhere/a?b=c"},
		{name: "root", tgt: "/"},
		{name: "too large", methods: []string{"GET", "POST", "PUT", "DELETE"}, tgt: "/api", body: strings.Repeat("x", 5000)},
		{name: "body", methods: []string{"GET", "POST", "PUT", "DELETE"}, tgt: "/api", body: strings.Repeat("x", 50), dec: upOf("")},
		{name: "refused", tgt: "/dead"},
		{name: "no resource", tgt: "/none"},
		{name: "no label", tgt: "/nolabel"},
		{name: "upstream closes", tgt: "/api", up: func(*upReq) upAct { return upAct{Raw: "HTTP/1.1 2", Close: true} }},
		{name: "upstream garbage", tgt: "/api", up: func(*upReq) upAct { return upAct{Raw: "\"}{\x00\xff\r\n\r\n", Close: true} }},
		{name: "upstream cut body", methods: []string{"GET", "POST", "PUT"}, tgt: "/api", up: func(*upReq) upAct {
			return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc", Close: true}
		}},
		{name: "transform", tgt: "/tr/a?b=c", dec: upOf("")},
		{name: "transform root", tgt: "/trr/a/trr?b=/trr", dec: upOf("")},
		{name: "redirect", tgt: "/api/r", up: func(*upReq) upAct {
			return upAct{Raw: "HTTP/1.1 302 F\r\nLocation: http://127.0.0.1:1/\r\nContent-Length: 0\r\n\r\n"}
		}, dec: upOf("")},
	}
	for _, st := range []int{500, 503, 599, 600, 999} {
		causes = append(causes, cause{name: fmt.Sprintf("upstream %d", st), tgt: "/api/e", up: answer(st, "")})
	}
	for st := 200; st < 500; st++ {
		causes = append(causes, cause{name: fmt.Sprintf("upstream %d", st), tgt: "/api/s?t", up: answer(st, ""), dec: upOf("")})
		if st%10 == 4 {
			causes = append(causes, cause{name: fmt.Sprintf("upstream %d gzip", st), tgt: "/api/s?t", up: answer(st, "gzip"), dec: upOf("")})
		}
	}
	usualSt := map[string]bool{}
	for _, st := range []int{200, 201, 204, 206, 299, 300, 301, 304, 399, 400, 401, 404, 413, 429, 499} {
		usualSt[fmt.Sprintf("upstream %d", st)] = true
	}
	for _, c := range causes {
		ms := c.methods
		if ms == nil {
			ms = methods
		}
		for _, t := range targets {
			for mi, m := range ms {
				for _, ver := range []string{"1.1", "1.0"} {
					for hi, h := range [][][2]string{nil, {{"Accept-Encoding", "gzip"}}, {{"X-Request-Debug", "true"}, {"User-Agent", "agent/1.0 (\"quoted\")"}}, {{"X-Forwarded-For", "10.9.8.7:99 , 1.2.3.4"}, {"X-Real-Ip", "10.9.8.6"}, {"Forwarded", "for=10.9.8.5;proto=https"}, {"X-Http-Method-Override", "DELETE"}, {"X-Original-Url", "/other"}, {"X-Forwarded-Uri", "/other"}, {"X-Correlation-Id", "corr"}, {"Traceparent", "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"}, {"Referer", "/other"}, {"X-Forwarded-Method", "PUT"}}} {
						if !usable(t, m, ver) || (t.h2 != nil && (c.name == "null token" || (m == "TRACE" && c.body != ""))) {
							continue
						}
						if m == "CONNECT" && strings.Contains(c.name, "about") {
							continue // the body of a tunnel is nobody's
						}
						if !thorough() && strings.HasPrefix(c.name, "upstream") && (c.dec != nil && !usualSt[c.name]) && (mi+hi+len(t.name)+len(c.name)*3+int(h64(c.name))%5)%7 != 0 {
							continue
						}
						c := c
						for ri, id := range []*string{nil, rid("mine-" + c.name)} {
							if !thorough() && (ri+hi+mi)%2 == 1 {
								continue
							}
							wireCase(fmt.Sprintf("cause %s / %s %s HTTP/%s hdr %d id %d", t.name, c.name, m, ver, hi, ri), func() (string, string) {
								return judge(t, req{method: m, tgt: c.tgt, ver: ver, hdr: append(append([][2]string{}, h...), c.hdr...), body: c.body, rid: id}, c.up, c.dec)
							})
						}
					}
				}
			}
		}
	}

	// ---- hostile bytes ----
	var vals []string
	for b := 0; b < 256; b++ {
		if b == 0 || b == '\r' || b == '\n' || b == 0x7f || (b < ' ' && b != '\t') {
			continue
		}
		vals = append(vals, "a"+string([]byte{byte(b)})+"z")
	}
	vals = append(vals, `"`, `\`, `"},{"`, `","dwnResCode":999,"x":"`, `\u0000`, `\\"`, `\n`, `%0a`, `%00`, `%22%7d`, `\x00`, "\u2028", "\u00e9", "\U0001F600", "\xff\xfe", "\xc3", "\xe2\x80", "\xed\xa0\x80", "a\tb", "'", "<script>", strings.Repeat("\"", 300), strings.Repeat("\xff", 300), strings.Repeat("x", 4000), "{}", "[", "null", "%", "%zz", "%2f", "%2F..%2F", "%3Fa=b", "%23x", "%252F", "${jndi}", "\"\\\"", "a\\", "dwnReqPath\":\"")
	if thorough() {
		sp := []byte{'"', '\\', '{', '}', ',', ':', 0x80, 0xc3, 0xe2, 0xff, 'u', 'n', '%', '\t'}
		for _, a := range sp {
			for _, b := range sp {
				for _, c := range sp {
					vals = append(vals, "x"+string([]byte{a, b, c})+"x")
				}
			}
		}
	}
	okPath := func(v string) bool { // what net/http takes as a request target
		for i := 0; i < len(v); i++ {
			if v[i] <= ' ' || v[i] == 0x7f || v[i] == '?' || v[i] == '#' {
				return false
			}
			if v[i] == '%' {
				if _, err := url.PathUnescape(v[i:]); err != nil {
					return false
				}
			}
		}
		u, err := url.ParseRequestURI("/api/" + v)
		return err == nil && u.Host == "" && !strings.Contains(u.Path, "//") && !strings.Contains(u.Path, "/.")
	}
	okVal := func(v string) bool {
		for i := 0; i < len(v); i++ {
			if v[i] < ' ' && v[i] != '\t' || v[i] == 0x7f {
				return false
			}
		}
		return strings.Trim(v, " \t") != ""
	}
	places := []string{"path", "query", "nowhere", "id", "id on error", "agent", "agent on error", "about id", "about agent", "secret id", "token", "encoding"}
	for vi, v := range vals {
		for _, pl := range places {
			for ti, t := range []*target{plain, trace, tlst} {
				if !thorough() && ti != vi%3 {
					continue
				}
				q := req{method: "GET", tgt: "/api/p", ver: "1.1"}
				var f func(*upReq) upAct
				dec := upOf("")
				switch pl {
				case "path":
					if !okPath(v) {
						continue
					}
					q.tgt = "/api/" + v + "/e"
				case "query":
					if strings.ContainsAny(v, " \t") {
						continue
					}
					q.tgt = "/api/q?" + v
				case "nowhere":
					if !okPath(v) {
						continue
					}
					q.tgt, dec = "/no/"+v, nil
				case "id":
					q.rid = rid(v)
				case "id on error":
					q.rid, q.tgt, dec = rid(v), "/nowhere", nil
				case "agent":
					q.hdr = [][2]string{{"User-Agent", v}}
				case "agent on error":
					q.hdr, q.tgt, dec = [][2]string{{"User-Agent", v}}, "/none", nil
				case "about id":
					q.rid, q.tgt, dec = rid(v), "/about", nil
				case "about agent":
					q.hdr, q.tgt, dec = [][2]string{{"User-Agent", v}}, "/about", nil
				case "secret id":
					q.rid, q.tgt, dec = rid(v), "/sec", nil
				case "token":
					q.hdr, q.tgt, dec = [][2]string{{"Authorization", "Bearer " + v + "." + v + "." + v}}, "/sec", nil
				case "encoding":
					// the upstream's label goes into the entry
					q.tgt = "/api/enc"
					f = func(*upReq) upAct {
						return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Encoding: x" + v + "\r\nContent-Length: 2\r\n\r\nok"}
					}
				}
				if strings.Contains(pl, "id") || strings.Contains(pl, "agent") || pl == "token" || pl == "encoding" {
					if !okVal(v) {
						continue
					}
				}
				wireCase(fmt.Sprintf("bytes %s %s %q", t.name, pl, v), func() (string, string) {
					if t == tlst && t.cl.c == nil {
						t.cl.drop()
					}
					return judge(t, q, f, dec)
				})
			}
		}
	}

	// ---- remote addresses ----
	for _, src := range []string{"127.0.0.1", "127.0.0.2", "127.255.255.254", "127.10.200.3", "::1"} {
		for _, t := range []*target{plain, tlst} {
			for _, tgt := range []string{"/api", "/about", "/nowhere", "/sec", "/none", "/dead"} {
				wireCase(fmt.Sprintf("from %s %s %s", src, t.name, tgt), func() (string, string) {
					c, err := dialFrom(src, t.s.port)
					if err != nil {
						return "", "no such address here"
					}
					defer c.Close()
					if t.cl.tls != nil {
						tc := tls.Client(c, t.cl.tls)
						if tc.Handshake() != nil {
							return "handshake failed", ""
						}
						c = tc
					}
					id := newCase(nil)
					fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: g\r\nX-Case: %s\r\nX-Forwarded-For: 9.9.9.9\r\nForwarded: for=8.8.8.8\r\nX-Real-Ip: 7.7.7.7\r\n%s: %s\r\nConnection: close\r\n\r\n", tgt, id, XRequestID, id)
					c.SetReadDeadline(time.Now().Add(10 * time.Second))
					b := make([]byte, 4096)
					for {
						if _, err := c.Read(b); err != nil {
							break
						}
					}
					up.take(id)
					for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
						es, _ := t.tap.more()
						for _, e := range es {
							if e[XRequestID] == id {
								if e["dwnReqRemoteAddr"] != src {
									return fmt.Sprintf("request from %s is logged as %v", src, e), ""
								}
								return "", "ok"
							}
						}
					}
					return "no access entry", ""
				})
			}
		}
	}

	// ---- histories, many at the same time ----
	retry := mk("retry", 3, 1, 60, false)
	short := mk("short", 4, 30, 2, false)
	maxOf["short"] = 4
	defer retry.s.stop()
	defer short.s.stop()
	type exp struct {
		key string
		w   want21
	}
	var emu sync.Mutex
	exps := map[*target]map[string]exp{retry: {}, short: {}}
	g := newGroup(48)
	hist := func(t *target, key, m string, seq []string, h [][2]string) {
		g.do(key, func() (string, string) {
			id := newCase(func(q *upReq) upAct {
				k := seq[len(seq)-1]
				if q.N <= len(seq) {
					k = seq[q.N-1]
				}
				switch k {
				case "500":
					return answer(500, "gzip")(q)
				case "cut":
					return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Length: 90\r\n\r\nab", Close: true}
				case "close":
					return upAct{Raw: "HTTP/1.1 2", Close: true}
				case "hang":
					return upAct{Hang: true}
				case "hangbody":
					return upAct{Raw: "HTTP/1.1 203 OK\r\nContent-Length: 90\r\n\r\nab"}
				case "404":
					return answer(404, "")(q)
				case "301":
					return answer(301, "")(q)
				}
				return answer(200, "gzip")(q)
			})
			cl := &wclient{addr: t.s.addr()}
			defer cl.drop()
			raw := m + " /api/h?c=" + id + " HTTP/1.1\r\nHost: g\r\nX-Case: " + id + "\r\n" + XRequestID + ": " + id + "\r\n"
			for _, x := range h {
				raw += x[0] + ": " + x[1] + "\r\n"
			}
			r := cl.do(m, raw+"\r\n")
			seen := up.take(id)
			mu.Lock()
			delete(scripts, id)
			mu.Unlock()
			if r.Err != nil {
				return "no response: " + r.String(), ""
			}
			w := want21{method: m, path: "/api/h", id: id, addr: "127.0.0.1", code: r.Status, max: maxOf[t.name]}
			if r.Status < 500 && len(seen) > 0 {
				upOf("")(&w, seen)
			}
			emu.Lock()
			exps[t][id] = exp{key, w}
			emu.Unlock()
			return "", fmt.Sprint(r.Status, len(seen))
		})
	}
	alpha := []string{"500", "cut", "close", "hang", "hangbody", "404", "301", "200"}
	final := map[string]bool{"404": true, "301": true, "200": true}
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 && (len(p) == 3 || final[p[len(p)-1]]) {
			for mi, m := range []string{"GET", "PUT", "DELETE", "HEAD", "POST"} {
				if m == "HEAD" && strings.Contains(strings.Join(p, " "), "cut") {
					continue
				}
				if m == "HEAD" && strings.Contains(strings.Join(p, " "), "hangbody") {
					continue
				}
				if !thorough() && mi > 0 && (len(p)+mi+int(h64(strings.Join(p, " "))%11))%4 != 0 {
					continue
				}
				hist(retry, fmt.Sprintf("history %s %v", m, p), m, append([]string{}, p...), [][2]string{{"Accept-Encoding", []string{"gzip", "identity"}[len(p)%2]}})
			}
			return
		}
		for _, a := range alpha {
			rec(append(p, a))
		}
	}
	rec(nil)
	for _, p := range [][]string{{"hang"}, {"hangbody"}, {"500", "hang"}, {"500", "500", "hangbody"}, {"500", "500", "500", "hang"}, {"500", "close", "200"}} {
		for _, m := range []string{"GET", "PUT", "POST", "OPTIONS"} {
			hist(short, fmt.Sprintf("short %s %v", m, p), m, p, nil)
		}
	}
	g.wait()
	for _, t := range []*target{retry, short} {
		if len(exps[t]) == 0 {
			continue
		}
		t.cl.do("GET", "GET /sentinel HTTP/1.1\r\nHost: g\r\n"+XRequestID+": end-of-histories\r\n\r\n")
		time.Sleep(50 * time.Millisecond)
		es, bad, _ := t.tap.until("end-of-histories")
		if len(bad) > 0 {
			R.Violate("history", "the log holds lines that are not JSON: %q", bad)
		}
		byID := map[string][]map[string]interface{}{}
		for _, e := range es {
			byID[str(e[XRequestID])] = append(byID[str(e[XRequestID])], e)
		}
		var ids []string
		for id := range exps[t] {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			x := exps[t][id]
			if n := len(byID[id]); n != 1 {
				R.Violate(x.key, "%d access entries: %v", n, byID[id])
			} else if p := x.w.check(byID[id][0]); p != "" {
				b, _ := json.Marshal(byID[id][0])
				R.Violate(x.key, "%s (entry %s)", p, b)
			}
		}
		if len(byID) != len(exps[t]) {
			R.Violate("history", "%d requests were answered, the log holds entries for %d request ids", len(exps[t]), len(byID))
		}
	}

}

// checkC21x reads the access log of exchanges under all schedules
func checkC21x() {
	R.Rule = "an execution is one complete schedule of one exchange or of two at the same time on the instrumented handler; after each the access log must hold exactly one entry per exchange that agrees with it; distinct by scenario and schedule"
	warmIpr = &iprex{}
	warmIpr.extractAddr("192.0.2.1:1234")
	logCheck := func(scens []Scen, obs []*Obs) string {
		byID := map[string][]map[string]interface{}{}
		n := 0
		for _, e := range logLines() {
			if x, bad := e["__invalid"]; bad {
				return fmt.Sprintf("log line %q is not JSON", x)
			}
			if _, ok := e["dwnResCode"]; ok {
				byID[str(e[XRequestID])] = append(byID[str(e[XRequestID])], e)
				n++
			}
		}
		if n != len(scens) {
			return fmt.Sprintf("%d access entries for %d requests: %v", n, len(scens), byID)
		}
		for i, s := range scens {
			o := obs[i]
			if o.Pan != "" || o.Rec == nil || len(o.Rec.Codes) != 1 {
				return "request not answered once: " + o.Pan
			}
			id := o.Rec.Sent.Get(XRequestID)
			es := byID[id]
			if len(es) != 1 {
				return fmt.Sprintf("%d access entries for request %s", len(es), id)
			}
			tgt := s.request().URL
			w := want21{method: s.Method, path: tgt.Path, id: id, addr: "192.0.2.1", code: o.Rec.Codes[0], max: s.Max, noUp: len(o.Seen) == 0}
			if len(o.Seen) > 0 && w.code < 500 {
				w.att = len(o.Seen)
				w.upURI, w.upCode = o.Seen[w.att-1].URL, s.att(w.att).Status
			}
			if p := w.check(es[0]); p != "" {
				return fmt.Sprintf("request %s: %s (entry %v)", s.Tag, p, es[0])
			}
		}
		return ""
	}
	run := func(name string, scens []Scen, bound int, horizon time.Duration) {
		cfg := bootChain(pxYml(scens[0]))
		explore(fmt.Sprintf("b%d %s", bound, name), bound, func(c *vsCtl) (string, string) {
			c.dice = func(kind string, n int64) float64 {
				if id := c.cur().id; len(id) > 1 && id[0] == 't' {
					return scens[int(id[1]-'0')].Dice
				}
				return 0.5
			}
			logReset(true)
			defer logReset(false)
			obs, left := pxRun(R.t, c, &Runtime{Config: *cfg, Start: time.Now()}, scens, horizon)
			if len(left) > 0 {
				return "goroutines left: " + fmt.Sprint(left), "left"
			}
			out := ""
			for _, o := range obs {
				if o.Rec != nil {
					out += fmt.Sprint(o.Rec.Codes, len(o.Seen), " ")
				}
			}
			return logCheck(scens, obs), out
		})
	}
	pairs := c13Pairs()
	keys := map[string]bool{}
	for k := range pairs {
		keys[k] = true
	}
	for bound := 0; bound <= pick(1, 2); bound++ {
		for _, s := range c01Scens() {
			run(s.Key(), []Scen{s}, bound, horizonOf(s))
		}
		for _, k := range sorted(keys) {
			run(k, pairs[k], bound, 20*sec)
		}
		if !R.stopped {
			R.Note("deviation_bound_completed", bound)
		}
	}
}
