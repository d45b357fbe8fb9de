//go:build go1.21

package j8a

// Histories of requests on one client connection, in real time.

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	checks["C27"] = checkC27
}

const (
	c27Read = 2 * time.Second // downstream read timeout
	c27Idle = 3 * time.Second // downstream idle timeout
	c27RT   = 6 * time.Second
	c27Slow = 3300 * time.Millisecond // upstream: longer than read and idle timeout, two of them longer than the round trip
	c27Gap  = 2400 * time.Millisecond // below the idle timeout and above the read timeout
	c27Long = 5 * time.Second
)

// c27Lim is a pair of servers, plain and TLS, with limits of their own
type c27Lim struct {
	read, idle, rt time.Duration
	ps, ts         *srv
}

func c27Yml(up *rawUp, tlsmode bool, l c27Lim) string {
	down := fmt.Sprintf("port: {{PORT}}\n    maxBodyBytes: 64\n    readTimeoutSeconds: %d\n    idleTimeoutSeconds: %d\n    roundTripTimeoutSeconds: %d\n", l.read/time.Second, l.idle/time.Second, l.rt/time.Second)
	if tlsmode {
		c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
		down += "    mode: TLS\n    cert: " + yamlBlock(pemCerts(c), 6) + "    key: " + yamlBlock(pemKey(c.key), 6)
	}
	return fmt.Sprintf(`
connection:
  downstream:
    %s
  upstream: {readTimeoutSeconds: 30, maxAttempts: 1}
jwt:
  hs: {alg: HS256, key: "%s"}
routes:
  - {path: /about, resource: about}
  - {path: /api, resource: api}
  - {path: /sec, resource: api, jwt: hs}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, down, pxSecret, up.port)
}

// c27Step is one thing a client does on its connection
type c27Step struct {
	c      string
	raw    func(id string) []string // written with a pause in between
	m      string
	status int
	fwd    int                    // requests the upstream gets
	body   func(id string) string // "" = any
	up     string                 // what the upstream is told to do
	req    string                 // the body the upstream must see
	mayEnd bool                   // the server may end the connection afterwards
}

var c27Pause = 600 * time.Millisecond

func c27Steps() []c27Step {
	h := func(m, path, id, more string) string {
		return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: gw\r\nX-Case: %s\r\n%s", m, path, id, more)
	}
	one := func(m, path, more string) func(string) []string {
		return func(id string) []string { return []string{h(m, path, id, more)} }
	}
	own := func(id string) string { return "answer " + id }
	post := "X-B: 1\r\nContent-Length: 12\r\n\r\nrequest body"
	chunk := "Transfer-Encoding: chunked\r\n\r\n3\r\nreq\r\n9\r\nuest body\r\n0\r\n\r\n"
	return []c27Step{
		{c: "get", m: "GET", raw: one("GET", "/api", "\r\n"), status: 200, fwd: 1, body: own},
		{c: "post", m: "POST", raw: one("POST", "/api", post), status: 200, fwd: 1, body: own, req: "request body"},
		{c: "chunked", m: "PUT", raw: one("PUT", "/api", chunk), status: 200, fwd: 1, body: own, req: "request body"},
		{c: "head", m: "HEAD", raw: one("HEAD", "/api", "\r\n"), status: 200, fwd: 1},
		{c: "slow", m: "GET", raw: one("GET", "/api", "\r\n"), status: 200, fwd: 1, body: own, up: "slow"},
		{c: "over", m: "POST", raw: one("POST", "/api", "Content-Length: 70\r\n\r\n"+strings.Repeat("x", 70)), status: 413, mayEnd: true},
		{c: "overchunk", m: "POST", raw: one("POST", "/api", "Transfer-Encoding: chunked\r\n\r\n46\r\n"+strings.Repeat("x", 70)+"\r\n0\r\n\r\n"), status: 413, mayEnd: true},
		{c: "noroute", m: "POST", raw: one("POST", "/none", post), status: 404},
		{c: "method", m: "FOO", raw: one("FOO", "/api", "\r\n"), status: 400},
		{c: "notoken", m: "POST", raw: one("POST", "/sec", post), status: 401},
		{c: "about", m: "GET", raw: one("GET", "/about", "\r\n"), status: 200},
		{c: "503", m: "POST", raw: one("POST", "/api", post), status: 502, fwd: 1, up: "503", req: "request body"},
		{c: "dies", m: "POST", raw: one("POST", "/api", post), status: 502, fwd: 1, up: "dies", req: "request body"},
		{c: "204", m: "GET", raw: one("GET", "/api", "\r\n"), status: 204, fwd: 1, up: "204"},
		{c: "304", m: "GET", raw: one("GET", "/api", "If-None-Match: \"e\"\r\n\r\n"), status: 304, fwd: 1, up: "304"},
		{c: "gzip", m: "GET", raw: one("GET", "/api", "Accept-Encoding: gzip\r\n\r\n"), status: 200, fwd: 1, body: own},
		{c: "tothend", m: "GET", raw: one("GET", "/api", "\r\n"), status: 200, fwd: 1, body: own, up: "end"},
		{c: "upchunked", m: "GET", raw: one("GET", "/api", "\r\n"), status: 200, fwd: 1, body: own, up: "chunked"},
		{c: "expect", m: "POST", raw: func(id string) []string {
			return []string{h("POST", "/api", id, "Expect: 100-continue\r\nContent-Length: 12\r\n\r\n"), "request body"}
		}, status: 200, fwd: 1, body: own, req: "request body"},
		{c: "slowhead", m: "GET", raw: func(id string) []string {
			return []string{"GET /api HTTP/1.1\r\nHo", "st: gw\r\nX-Case: " + id, "\r\n\r\n"}
		}, status: 200, fwd: 1, body: own},
		{c: "slowbody", m: "POST", raw: func(id string) []string {
			return []string{h("POST", "/api", id, "Content-Length: 12\r\n\r\nreq"), "uest b", "ody"}
		}, status: 200, fwd: 1, body: own, req: "request body"},
	}
}

func c27Up(q *upReq) upAct {
	b := "answer " + q.Case
	ok := func(head string) string {
		if q.Method == "HEAD" {
			return fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: a/b\r\nContent-Length: %d\r\n\r\n", head, len(b))
		}
		return fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: a/b\r\nContent-Length: %d\r\n\r\n%s", head, len(b), b)
	}
	how := q.Case[strings.LastIndexByte(q.Case, '-')+1:]
	switch how {
	case "slow":
		return upAct{Raw: ok("200 OK"), Delay: c27Slow}
	case "503":
		return upAct{Raw: ok("503 no")}
	case "dies":
		return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nContent-Length: 50\r\n\r\nabc", Close: true}
	case "204":
		return upAct{Raw: "HTTP/1.1 204 No Content\r\n\r\n"}
	case "304":
		return upAct{Raw: "HTTP/1.1 304 Not Modified\r\nETag: \"e\"\r\n\r\n"}
	case "end":
		return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nConnection: close\r\n\r\n" + b, Close: true}
	case "chunked":
		return upAct{Raw: fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: a/b\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(b), b)}
	}
	return upAct{Raw: ok("200 OK")}
}

// c27Answer looks at the answer to one request
func c27Answer(s c27Step, id string, r *wresp) string {
	if r.Err != nil {
		return fmt.Sprintf("%s: %v", s.c, r)
	}
	if r.Status != s.status {
		return fmt.Sprintf("%s: answered %v instead of %d", s.c, r, s.status)
	}
	if s.body != nil {
		b, rest, err := refDecode(strings.Join(r.get("Content-Encoding"), ","), r.Body)
		if err != nil || len(rest) > 0 || string(b) != s.body(id) {
			return fmt.Sprintf("%s: body %q is not %q", s.c, b, s.body(id))
		}
	}
	return ""
}

func c27Forwarded(up *rawUp, s c27Step, id string) string {
	q := up.take(id)
	if len(q) != s.fwd {
		return fmt.Sprintf("%s: %d requests reached the upstream instead of %d", s.c, len(q), s.fwd)
	}
	if len(q) > 0 && (string(q[0].Body) != s.req || q[0].Method != s.m) {
		return fmt.Sprintf("%s: the upstream got %s with body %q", s.c, q[0].Line, q[0].Body)
	}
	return ""
}

// ends waits for the end of the connection
func (c *wconn) ends(d time.Duration) (time.Duration, error) {
	t := time.Now()
	c.SetReadDeadline(t.Add(d))
	defer c.SetReadDeadline(time.Time{})
	b := make([]byte, 1)
	n, err := c.r.Read(b)
	if n > 0 {
		return 0, fmt.Errorf("a byte %q follows the last response", b)
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return d, errStillOpen
	}
	return time.Since(t), nil
}

var errStillOpen = errors.New("still open")

func checkC27() {
	R.Rule = "every history of up to two (thorough: three) client actions out of an alphabet of 23 (requests of every kind and outcome, slow answers, heads and bodies that trickle in, pauses below the idle timeout, pipelined requests), each ended in every way (another request, an idle connection, a stalled head or body, Connection: close, HTTP/1.0), on one client connection to the real server in plain and TLS mode, and histories of sets of concurrent HTTP/2 streams; each request must get its own answer, in order, and the connection must end when due and not before"
	up := newRawUp("up", nil)
	up.set(c27Up)
	boot := func(read, idle, rt time.Duration) c27Lim {
		l := c27Lim{read: read, idle: idle, rt: rt}
		l.ps, l.ts = mustBoot(c27Yml(up, false, l)), mustBoot(c27Yml(up, true, l))
		return l
	}
	base := boot(c27Read, c27Idle, c27RT)
	ps, ts := base.ps, base.ts
	defer ps.stop()
	defer ts.stop()
	steps := c27Steps()
	ix := map[string]int{}
	for i, s := range steps {
		ix[s.c] = i
	}
	var mu sync.Mutex
	n := 0
	// actions: indexes of steps, then gap, pipelined pairs
	names := []string{}
	for _, s := range steps {
		names = append(names, s.c)
	}
	names = append(names, "gap", "pipe2", "pipe3")
	terms := []string{"get", "idle", "stallhead", "stallbody", "stallchunk", "close", "1.0"}
	playOn := func(lim c27Lim, hist []string, term string, tlsmode bool) (string, string) {
		mu.Lock()
		n++
		base := fmt.Sprintf("k%d", n)
		mu.Unlock()
		addr := lim.ps.addr()
		if tlsmode {
			addr = lim.ts.addr()
		}
		c := dialRaw(addr)
		if c == nil {
			return "cannot connect", ""
		}
		if tlsmode {
			t := tls.Client(c.Conn, &tls.Config{InsecureSkipVerify: true})
			if err := t.Handshake(); err != nil {
				c.Close()
				return fmt.Sprintf("handshake: %v", err), ""
			}
			c = &wconn{Conn: t, r: bufio.NewReaderSize(t, 65536)}
		}
		defer c.Close()
		k := 0
		id := func(s c27Step) string {
			k++
			return fmt.Sprintf("%s-%d-%s", base, k, s.up)
		}
		last := time.Now() // when the connection was last known to be in use
		var out []string
		do := func(ss ...c27Step) (string, bool) {
			var ids []string
			var all []string
			for i, s := range ss {
				ids = append(ids, id(s))
				raw := s.raw(ids[i])
				if i > 0 {
					all[len(all)-1] += raw[0]
					raw = raw[1:]
				}
				all = append(all, raw...)
			}
			for i, b := range all {
				if i > 0 {
					time.Sleep(c27Pause)
				}
				if _, err := io.WriteString(c, b); err != nil {
					return fmt.Sprintf("the connection broke while %s was sent, %v after its last use: %v", ss[0].c, time.Since(last), err), false
				}
			}
			over := false
			for i, s := range ss {
				r := c.readResp(s.m, 15*time.Second)
				last = time.Now()
				if p := c27Answer(s, ids[i], r); p != "" {
					return p, false
				}
				if p := c27Forwarded(up, s, ids[i]); p != "" {
					return p, false
				}
				out = append(out, fmt.Sprint(r.Status))
				if r.Close {
					if !s.mayEnd {
						return fmt.Sprintf("%s: the connection is not kept: %v", s.c, r), false
					}
					if _, err := c.ends(5 * time.Second); err != nil {
						return fmt.Sprintf("%s: Connection: close, but %v", s.c, err), false
					}
					over = true
					break
				}
			}
			return "", over
		}
		// due: the connection ends within [lo, hi] from now on
		due := func(what string, from time.Time, lo, hi time.Duration) string {
			_, err := c.ends(time.Until(from.Add(hi)))
			got := time.Since(from)
			if err != nil {
				return fmt.Sprintf("%s: after %v the connection is %v", what, got, err)
			}
			if got < lo {
				return fmt.Sprintf("%s: the connection ended after %v, due %v", what, got, lo)
			}
			return ""
		}
		for _, a := range hist {
			var p string
			var over bool
			switch a {
			case "gap":
				time.Sleep(c27Gap)
			case "pipe2":
				p, over = do(steps[ix["post"]], steps[ix["get"]])
			case "pipe3":
				p, over = do(steps[ix["slow"]], steps[ix["noroute"]], steps[ix["chunked"]])
			default:
				p, over = do(steps[ix[a]])
			}
			if p != "" {
				return p, ""
			}
			if over {
				return "", strings.Join(out, " ") + " closed"
			}
		}
		partial := func(what, raw string) string {
			st := c27Step{c: what}
			i := id(st)
			from := time.Now()
			io.WriteString(c, strings.ReplaceAll(raw, "ID", i))
			r := c.readResp("GET", lim.read+4*time.Second)
			got := time.Since(from)
			if r.Err == nil && r.Status < 400 {
				return fmt.Sprintf("%s: answered %v", what, r)
			}
			if r.Err != nil && r.Err != errNoResp {
				return fmt.Sprintf("%s: %v", what, r)
			}
			if got < lim.read-200*time.Millisecond {
				return fmt.Sprintf("%s: cut off after %v, due %v", what, got, lim.read)
			}
			if got > lim.read+3*time.Second {
				return fmt.Sprintf("%s: cut off after %v, due %v", what, got, lim.read)
			}
			if r.Err == nil {
				if _, err := c.ends(4 * time.Second); err != nil {
					return fmt.Sprintf("%s: then the connection is %v", what, err)
				}
			}
			if q := up.take(i); len(q) > 0 {
				return fmt.Sprintf("%s: was forwarded: %s", what, q[0].Line)
			}
			return ""
		}
		var p string
		switch term {
		case "get":
			p, _ = do(steps[ix["get"]])
		case "idle":
			d := lim.idle
			if len(hist) == 0 {
				// an unused connection falls under the read timeout
				d = lim.read
			}
			p = due("idle", last, d-200*time.Millisecond, d+2500*time.Millisecond)
		case "stallhead":
			p = partial("stalled head", "GET /api HTTP/1.1\r\nHost: gw\r\nX-Case: ID\r\nX-A: ")
		case "stallbody":
			p = partial("stalled body", "POST /api HTTP/1.1\r\nHost: gw\r\nX-Case: ID\r\nContent-Length: 12\r\n\r\nrequest")
		case "stallchunk":
			p = partial("stalled chunk", "PUT /api HTTP/1.1\r\nHost: gw\r\nX-Case: ID\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nreq\r\n")
		case "close", "1.0":
			st := steps[ix["get"]]
			i := id(st)
			raw := st.raw(i)[0]
			if term == "close" {
				raw = strings.Replace(raw, "\r\n\r\n", "\r\nConnection: close\r\n\r\n", 1)
			} else {
				raw = strings.Replace(raw, "HTTP/1.1", "HTTP/1.0", 1)
			}
			io.WriteString(c, raw)
			r := c.readResp("GET", 15*time.Second)
			if p = c27Answer(st, i, r); p == "" {
				p = c27Forwarded(up, st, i)
			}
			if p == "" {
				if _, err := c.ends(1500 * time.Millisecond); err != nil {
					p = fmt.Sprintf("%s: afterwards the connection is %v", term, err)
				}
			}
		}
		return p, strings.Join(out, " ") + " " + term
	}
	play := func(hist []string, term string, tlsmode bool) (string, string) {
		return playOn(base, hist, term, tlsmode)
	}
	g := newGroup(220)
	run := func(hist []string, term string, tlsmode bool) {
		// two pauses in a row exceed the idle timeout, one before the first request eats into its read timeout
		for i, a := range hist {
			if a == "gap" && (i == 0 || hist[i-1] == "gap") {
				return
			}
		}
		if R.Expired() {
			return
		}
		g.do(fmt.Sprintf("tls=%v %s; %s", tlsmode, strings.Join(hist, " "), term), func() (string, string) { return play(hist, term, tlsmode) })
	}
	for _, tlsmode := range []bool{false, true} {
		for _, t := range terms {
			run(nil, t, tlsmode)
			for _, a := range names {
				run([]string{a}, t, tlsmode)
				for _, b := range names {
					run([]string{a, b}, t, tlsmode)
				}
			}
		}
	}
	// each limit is what its own parameter says, however they relate
	for _, d := range [][2]time.Duration{{2 * time.Second, 8 * time.Second}, {8 * time.Second, 2 * time.Second}, {time.Second, 5 * time.Second}, {5 * time.Second, time.Second}} {
		lim := boot(d[0], d[1], 15*time.Second)
		defer lim.ps.stop()
		defer lim.ts.stop()
		for _, tlsmode := range []bool{false, true} {
			for _, h := range [][]string{nil, {"get"}, {"slow"}, {"chunked"}, {"notoken"}, {"get", "post"}, {"pipe2"}} {
				for _, t := range []string{"get", "idle", "stallhead", "stallbody", "stallchunk"} {
					lim, tlsmode, h, t := lim, tlsmode, h, t
					g.do(fmt.Sprintf("limits read=%v idle=%v tls=%v %s; %s", lim.read, lim.idle, tlsmode, strings.Join(h, " "), t), func() (string, string) { return playOn(lim, h, t, tlsmode) })
				}
			}
		}
	}
	// long histories: a connection does not wear out
	long := 1100
	if thorough() {
		long = 12000
	}
	for _, tlsmode := range []bool{false, true} {
		for _, a := range []string{"get", "post", "chunked", "head", "noroute", "method", "notoken", "about", "503", "dies", "204", "304", "gzip", "tothend", "upchunked", "mixed"} {
			mix := []string{"get", "noroute", "post", "304", "notoken", "chunked", "about", "gzip", "503"}
			for _, term := range []string{"idle", "stallbody"} {
				a, term, tlsmode := a, term, tlsmode
				g.do(fmt.Sprintf("long tls=%v %s; %s", tlsmode, a, term), func() (string, string) {
					hist := make([]string, long)
					for i := range hist {
						hist[i] = a
						if a == "mixed" {
							hist[i] = mix[i*i%len(mix)]
						}
					}
					p, o := play(hist, term, tlsmode)
					if len(o) > 40 {
						o = o[len(o)-40:]
					}
					return p, o
				})
			}
		}
	}
	if thorough() {
		for _, a := range names {
			for _, b := range names {
				for _, c := range names {
					for _, t := range []string{"get", "idle", "stallbody"} {
						run([]string{a, b, c}, t, false)
					}
				}
			}
		}
	}
	// HTTP/2: sets of streams that run side by side, one set after another
	kinds := []string{"get", "post", "slow", "over", "503", "notoken", "head", "204", "about"}
	h2step := func(h *h2client, s c27Step, id string) string {
		hdr := [][2]string{{"X-Case", id}}
		var body []byte
		path := "/api"
		switch s.c {
		case "post", "503", "notoken":
			body = []byte("request body")
		case "over":
			body = []byte(strings.Repeat("x", 70))
		}
		switch s.c {
		case "notoken":
			path = "/sec"
		case "about":
			path = "/about"
		}
		r := h.do(s.m, path, hdr, body)
		if p := c27Answer(s, id, r); p != "" {
			return p
		}
		return c27Forwarded(up, s, id)
	}
	for _, a := range []string{"get", "post", "over", "503", "notoken", "head", "204", "about", "mixed"} {
		a := a
		g.do("h2 long "+a, func() (string, string) {
			mu.Lock()
			n++
			base := fmt.Sprintf("k%d", n)
			mu.Unlock()
			h := newH2(ts.addr())
			conns := int32(0)
			h.t.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
				atomic.AddInt32(&conns, 1)
				return (&net.Dialer{}).DialContext(ctx, network, addr)
			}
			defer h.t.CloseIdleConnections()
			for k := 0; k < long; k++ {
				c := a
				if a == "mixed" {
					c = []string{"get", "post", "over", "503", "notoken", "head", "204", "about"}[k*k%8]
				}
				st := steps[ix[c]]
				if p := h2step(h, st, fmt.Sprintf("%s-%d-%s", base, k, st.up)); p != "" {
					return fmt.Sprintf("request %d: %s", k+1, p), ""
				}
			}
			if conns != 1 {
				return fmt.Sprintf("%d requests needed %d connections", long, conns), ""
			}
			return "", "h2 long"
		})
	}
	for i, a := range kinds {
		for j, b := range kinds {
			for _, wait := range []time.Duration{0, c27Gap, c27Long} {
				wait := wait
				set1, set2 := []string{a, b, "get"}, []string{b, a, kinds[(i+j)%len(kinds)], "slow"}
				g.do(fmt.Sprintf("h2 %s %s %v", a, b, wait), func() (string, string) {
					mu.Lock()
					n++
					base := fmt.Sprintf("k%d", n)
					mu.Unlock()
					h := newH2(ts.addr())
					var cmu sync.Mutex
					var conns []*c27Conn
					h.t.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
						x, err := (&net.Dialer{}).DialContext(ctx, network, addr)
						if err != nil {
							return nil, err
						}
						w := &c27Conn{Conn: x}
						cmu.Lock()
						conns = append(conns, w)
						cmu.Unlock()
						return w, nil
					}
					defer h.t.CloseIdleConnections()
					// the connection is made first
					if p := h2step(h, steps[ix["get"]], base+"-0-"); p != "" {
						return p, ""
					}
					k := 0
					for round, set := range [][]string{set1, set2} {
						if round == 1 {
							if p := h2step(h, steps[ix["get"]], base+"-00-"); p != "" {
								return p, ""
							}
						}
						var wg sync.WaitGroup
						res := make([]string, len(set))
						for x, c := range set {
							k++
							id := fmt.Sprintf("%s-%d-%s", base, k, steps[ix[c]].up)
							wg.Add(1)
							go func(x int, s c27Step) {
								defer wg.Done()
								res[x] = h2step(h, s, id)
							}(x, steps[ix[c]])
						}
						wg.Wait()
						for _, p := range res {
							if p != "" {
								return fmt.Sprintf("round %d: %s", round, p), ""
							}
						}
						if round == 0 {
							time.Sleep(wait)
						}
					}
					cmu.Lock()
					defer cmu.Unlock()
					want := 1
					if wait > c27Idle {
						want = 2
					}
					if len(conns) != want {
						return fmt.Sprintf("%d connections were needed instead of %d, with a pause of %v", len(conns), want, wait), ""
					}
					return "", fmt.Sprint(len(conns))
				})
			}
		}
	}
	g.wait()
}

type c27Conn struct{ net.Conn }
