//go:build go1.21

package j8a

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C30"] = checkC30
}

const (
	c30Read = 2 * time.Second // upstream read timeout
	c30Late = 2300 * time.Millisecond
	c30Slow = 500 * time.Millisecond
)

// c30Act is one exchange with the upstream
type c30Act struct {
	c      string
	m      string
	status int
	own    bool   // the client gets the upstream's own body
	reuse  string // of the upstream connection afterwards: yes, no, any
	slow   bool   // takes until the upstream read timeout
	again  bool   // net/http may repeat it by itself on a connection used before
	settle bool   // the upstream does something after it has answered
	ways   int    // 0: an exchange; 1: nothing listens; 2: connections hang; 3: two at once; 4: the client leaves; 5: not forwarded
}

var c30Acts = []c30Act{
	{c: "get", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "post", m: "POST", status: 200, own: true, reuse: "yes"},
	{c: "put", m: "PUT", status: 201, own: true, reuse: "yes"},
	{c: "head", m: "HEAD", status: 200, reuse: "yes"},
	{c: "chunked", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "trailer", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "204", m: "DELETE", status: 204, reuse: "yes"},
	{c: "304", m: "GET", status: 304, reuse: "yes"},
	{c: "hints", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "continue", m: "POST", status: 200, own: true, reuse: "yes"},
	{c: "redirect", m: "GET", status: 302, own: true, reuse: "yes"},
	{c: "gzip", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "big", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "slow", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "drip", m: "GET", status: 200, own: true, reuse: "yes"},
	{c: "404", m: "GET", status: 404, reuse: "yes"},
	{c: "500", m: "GET", status: 502, reuse: "yes"},
	{c: "500post", m: "POST", status: 502, reuse: "yes"},
	{c: "503chunked", m: "GET", status: 502, reuse: "yes"},
	{c: "500big", m: "GET", status: 502, reuse: "yes"},
	{c: "http10keep", m: "GET", status: 200, own: true, reuse: "any"},
	{c: "http10", m: "GET", status: 200, own: true, reuse: "no"},
	{c: "close", m: "GET", status: 200, own: true, reuse: "no"},
	{c: "liar", m: "GET", status: 200, own: true, reuse: "no"},
	{c: "toend", m: "GET", status: 200, own: true, reuse: "no"},
	{c: "stale", m: "GET", status: 200, own: true, reuse: "no", settle: true},
	{c: "surplus", m: "GET", status: 200, own: true, reuse: "no", settle: true},
	{c: "early", m: "POST", status: 200, own: true, reuse: "any"},
	{c: "half", m: "GET", status: 502, reuse: "no"},
	{c: "halfchunk", m: "GET", status: 502, reuse: "no"},
	{c: "halfopen", m: "POST", status: 504, reuse: "no", slow: true},
	{c: "badchunk", m: "GET", status: 502, reuse: "no"},
	{c: "resetbody", m: "GET", status: 502, reuse: "no"},
	{c: "garbage", m: "GET", status: 502, reuse: "no"},
	{c: "dies", m: "GET", status: 502, reuse: "no", again: true},
	{c: "diespost", m: "POST", status: 502, reuse: "no", again: true},
	{c: "reset", m: "PUT", status: 502, reuse: "no", again: true},
	{c: "hang", m: "GET", status: 504, reuse: "no", slow: true},
	{c: "hangbody", m: "GET", status: 504, reuse: "no", slow: true},
	{c: "down", m: "GET", status: 502, ways: 1},
	{c: "hole", m: "GET", status: 502, ways: 2},
	{c: "pair", m: "GET", status: 200, own: true, reuse: "any", ways: 3},
	{c: "leaves", m: "GET", status: 200, own: true, reuse: "any", ways: 4},
	{c: "noroute", m: "POST", status: 404, ways: 5},
}

// c30Conn is a connection as the upstream knows it
type c30Conn struct {
	n       int
	c       net.Conn
	cases   []string
	spoiled string // no request may follow
}

type c30Up struct {
	mu    sync.Mutex
	ln    net.Listener
	hole  int
	stuck []int
	port  int
	tlsc  *tls.Config
	conns []*c30Conn
	open  map[net.Conn]bool
	seen  map[string][]*upReq
	bad   string
	plan  map[string]string // case -> act, or act of the first attempt,act of the others
	wg    sync.WaitGroup
}

func newC30Up(tlsc *tls.Config) *c30Up {
	u := &c30Up{tlsc: tlsc, open: map[net.Conn]bool{}, seen: map[string][]*upReq{}, plan: map[string]string{}}
	u.listen()
	return u
}

// listen opens the port, the one it had before if there is one
func (u *c30Up) listen() {
	for i := 0; ; i++ {
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", u.port))
		if err == nil {
			u.ln, u.port = ln, ln.Addr().(*net.TCPAddr).Port
			break
		}
		if i > 400 {
			panic(err)
		}
		time.Sleep(5 * time.Millisecond)
	}
	ln := u.ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			u.mu.Lock()
			cc := &c30Conn{n: len(u.conns), c: c}
			u.conns = append(u.conns, cc)
			u.open[c] = true
			u.wg.Add(1)
			u.mu.Unlock()
			go u.serve(c, cc)
		}
	}()
}

// drop ends all connections and waits until the gateway must have noticed
func (u *c30Up) drop() {
	u.mu.Lock()
	n := len(u.open)
	for c := range u.open {
		c.Close()
	}
	u.mu.Unlock()
	u.wg.Wait()
	if n > 0 {
		time.Sleep(40 * time.Millisecond)
	}
}

func (u *c30Up) down() {
	u.ln.Close()
	u.drop()
}

// dig makes new connections hang: the port listens, but its queue is full
func (u *c30Up) dig() bool {
	u.down()
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return false
	}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	sa := &syscall.SockaddrInet4{Port: u.port, Addr: [4]byte{127, 0, 0, 1}}
	if syscall.Bind(fd, sa) != nil || syscall.Listen(fd, 0) != nil {
		syscall.Close(fd)
		return false
	}
	u.hole = fd
	for i := 0; i < 4; i++ {
		s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			break
		}
		syscall.Connect(s, sa)
		u.stuck = append(u.stuck, s)
	}
	time.Sleep(20 * time.Millisecond)
	// does it hang?
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", u.port), 100*time.Millisecond)
	if err == nil {
		c.Close()
		u.fill()
		return false
	}
	return true
}

func (u *c30Up) fill() {
	for _, s := range u.stuck {
		syscall.Close(s)
	}
	u.stuck = nil
	if u.hole > 0 {
		syscall.Close(u.hole)
		u.hole = 0
	}
}

func (u *c30Up) serve(raw net.Conn, cc *c30Conn) {
	c := raw
	defer func() {
		c.Close()
		u.mu.Lock()
		delete(u.open, raw)
		u.mu.Unlock()
		u.wg.Done()
	}()
	if u.tlsc != nil {
		t := tls.Server(c, u.tlsc)
		t.SetDeadline(time.Now().Add(20 * time.Second))
		if t.Handshake() != nil {
			return
		}
		t.SetDeadline(time.Time{})
		c = t
	}
	r := bufio.NewReaderSize(c, 65536)
	for {
		if _, err := r.Peek(1); err != nil {
			return
		}
		q := &upReq{Conn: cc.n}
		line, hdr, err := readHead(r)
		if err != nil {
			return
		}
		q.Line, q.Hdr = line, hdr
		if f := strings.SplitN(line, " ", 3); len(f) == 3 {
			q.Method, q.Target = f[0], f[1]
		}
		if v := q.get("X-Case"); len(v) > 0 {
			q.Case = v[0]
		}
		u.mu.Lock()
		if cc.spoiled != "" && u.bad == "" {
			u.bad = fmt.Sprintf("connection %d was used for %s after %s", cc.n, q.Case, cc.spoiled)
		}
		cc.cases = append(cc.cases, q.Case)
		acts := strings.Split(u.plan[q.Case], ",")
		q.N = len(u.seen[q.Case])
		u.seen[q.Case] = append(u.seen[q.Case], q)
		act := acts[len(acts)-1]
		if q.N < len(acts) {
			act = acts[q.N]
		}
		u.mu.Unlock()
		body := func() bool {
			var b []byte
			var err error
			if len(q.get("Transfer-Encoding")) > 0 {
				b, err = readChunked(r)
			} else if v := q.get("Content-Length"); len(v) > 0 {
				n, _ := strconv.Atoi(v[0])
				b = make([]byte, n)
				_, err = io.ReadFull(r, b)
			}
			u.mu.Lock()
			q.Body, q.Done = b, err == nil
			u.mu.Unlock()
			return err == nil
		}
		if act != "early" && !body() {
			return
		}
		spoil := func() {
			u.mu.Lock()
			cc.spoiled = q.Case + " " + act
			u.mu.Unlock()
		}
		own := "answer " + q.Case
		full := func(status, more, b string) string {
			h := fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: text/plain\r\nX-Own: %s\r\n%sContent-Length: %d\r\n\r\n", status, q.Case, more, len(b))
			if q.Method == "HEAD" {
				return h
			}
			return h + b
		}
		late := func(already, rest string) {
			spoil()
			io.WriteString(c, already)
			time.Sleep(c30Late)
			io.WriteString(c, rest)
			r.Peek(1) // until the gateway hangs up
		}
		out := ""
		switch act {
		case "get", "post", "head":
			out = full("200 OK", "", own)
		case "put":
			out = full("201 Created", "Location: /x\r\n", own)
		case "chunked", "trailer":
			out = fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n3\r\n%s\r\n%x\r\n%s\r\n0\r\n", own[:3], len(own)-3, own[3:])
			if act == "trailer" {
				out += "X-Trailer: 1\r\n"
			}
			out += "\r\n"
		case "204":
			out = "HTTP/1.1 204 No Content\r\n\r\n"
		case "304":
			out = "HTTP/1.1 304 Not Modified\r\nETag: \"e\"\r\n\r\n"
		case "hints":
			out = "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n" + full("200 OK", "", own)
		case "continue":
			out = "HTTP/1.1 100 Continue\r\n\r\n" + full("200 OK", "", own)
		case "redirect":
			out = full("302 Found", "Location: http://127.0.0.1:1/\r\n", own)
		case "gzip":
			out = full("200 OK", "Content-Encoding: gzip\r\n", string(refGzip([]byte(own))))
		case "big":
			out = full("200 OK", "", strings.Repeat(own, 30000))
		case "500big":
			out = full("500 no", "", strings.Repeat(own, 30000))
		case "slow":
			time.Sleep(c30Slow)
			out = full("200 OK", "", own)
		case "drip":
			s := full("200 OK", "", own)
			for _, p := range []string{s[:20], s[20 : len(s)-5], s[len(s)-5 : len(s)-1]} {
				io.WriteString(c, p)
				time.Sleep(120 * time.Millisecond)
			}
			out = s[len(s)-1:]
		case "404":
			out = full("404 no", "", own)
		case "500", "500post":
			out = full("500 no", "", own)
		case "503chunked":
			out = fmt.Sprintf("HTTP/1.1 503 no\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(own), own)
		case "http10keep":
			out = strings.Replace(full("200 OK", "Connection: keep-alive\r\n", own), "HTTP/1.1", "HTTP/1.0", 1)
		case "http10":
			spoil()
			out = strings.Replace(full("200 OK", "", own), "HTTP/1.1", "HTTP/1.0", 1)
		case "close", "liar":
			spoil()
			out = full("200 OK", "Connection: close\r\n", own)
		case "toend":
			spoil()
			out = "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n\r\n" + own
		case "stale":
			io.WriteString(c, full("200 OK", "", own))
			time.Sleep(20 * time.Millisecond)
			return
		case "surplus":
			spoil()
			out = full("200 OK", "", own) + "surplus bytes\r\n\r\n"
		case "early":
			io.WriteString(c, full("200 OK", "", own))
			if !body() {
				return
			}
		case "half":
			spoil()
			io.WriteString(c, strings.Replace(full("200 OK", "", own), "Content-Length: ", "Content-Length: 9", 1))
			return
		case "halfchunk":
			spoil()
			io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nff\r\n"+own)
			return
		case "halfopen":
			late(strings.Replace(full("200 OK", "", own), "Content-Length: ", "Content-Length: 9", 1), "")
			return
		case "badchunk":
			spoil()
			out = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + own + "\r\n0\r\n\r\n"
		case "resetbody", "reset":
			spoil()
			if act == "resetbody" {
				s := full("200 OK", "", own)
				io.WriteString(c, s[:len(s)-5])
				time.Sleep(20 * time.Millisecond)
			}
			if tc, ok := raw.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
			raw.Close()
			return
		case "garbage":
			spoil()
			out = "this is no HTTP\r\n\r\n" + full("200 OK", "", own)
		case "dies", "diespost":
			spoil()
			return
		case "hang":
			late("", full("200 OK", "", own))
			return
		case "hangbody":
			s := full("200 OK", "", own)
			late(s[:len(s)-5], s[len(s)-5:])
			return
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
		if act == "close" || act == "toend" {
			return
		}
	}
}

// c30Lane is a server with two upstreams that plays one history after the other
type c30Lane struct {
	a, b *c30Up
	s    *srv
	max  int
}

func newC30Lane(max int, tlsc *tls.Config) *c30Lane {
	l := &c30Lane{a: newC30Up(tlsc), b: newC30Up(nil), max: max}
	scheme := "http"
	if tlsc != nil {
		scheme = "https"
	}
	l.s = mustBoot(fmt.Sprintf(`
connection:
  downstream: {port: {{PORT}}, roundTripTimeoutSeconds: 15, readTimeoutSeconds: 15}
  upstream: {socketTimeoutSeconds: 1, readTimeoutSeconds: %d, idleTimeoutSeconds: 60, poolSize: 4, maxAttempts: %d, tlsInsecureSkipVerify: true}
routes:
  - {path: /a, resource: a}
  - {path: /b, resource: b}
resources:
  a: [{url: {scheme: %s, host: 127.0.0.1, port: %d}}]
  b: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, c30Read/time.Second, max, scheme, l.a.port, l.b.port))
	return l
}

func c30Raw(m, path, id string, body []byte) string {
	h := fmt.Sprintf("%s %s/%s HTTP/1.1\r\nHost: gw\r\nX-Case: %s\r\nConnection: close\r\n", m, path, id, id)
	if m == "POST" || m == "PUT" {
		h += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	} else {
		h += "\r\n"
	}
	return h
}

// play runs a history of acts and tells what is wrong with it
func (l *c30Lane) play(key string, acts []c30Act, retried []bool) (problem, outcome string) {
	u := l.a
	u.drop()
	u.mu.Lock()
	u.conns, u.seen, u.bad, u.plan = nil, map[string][]*upReq{}, "", map[string]string{}
	u.mu.Unlock()
	idle, maybe := map[int]bool{}, map[int]bool{}
	loose := false
	var trail []string
	ask := func(m, path, id string, body []byte) *wresp {
		c := dialRaw(l.s.addr())
		if c == nil {
			return &wresp{Err: fmt.Errorf("the server does not accept connections")}
		}
		defer c.Close()
		go io.WriteString(c, c30Raw(m, path, id, body))
		return c.readResp(m, 18*time.Second)
	}
	judge := func(a c30Act, id string, r *wresp, body []byte) string {
		if r.Err != nil || r.Status != a.status {
			return fmt.Sprintf("answered %s instead of %d", r, a.status)
		}
		dec, rest, err := refDecode(strings.Join(r.get("Content-Encoding"), ","), r.Body)
		if err != nil || len(rest) > 0 {
			return fmt.Sprintf("label and body do not agree: %v", err)
		}
		want := "answer " + id
		if a.c == "big" {
			want = strings.Repeat(want, 30000)
		}
		if a.own && string(dec) != want {
			return fmt.Sprintf("the client got the body %.80q instead of %.80q", dec, want)
		}
		if !a.own && len(dec) > 0 {
			if p := jsonOK(dec, a.status); p != "" {
				return p
			}
		}
		return ""
	}
	for i, a := range append(append([]c30Act(nil), acts...), c30Acts[0], c30Acts[1]) {
		id := fmt.Sprintf("c%d", i)
		body := []byte("request " + id)
		if a.c == "early" {
			body = bytes.Repeat(body, 500)
		}
		plan := a.c
		want := a
		if i < len(retried) && retried[i] {
			plan = a.c + ",slow"
			want.status, want.own = 200, true
		}
		switch a.ways {
		case 3, 4:
			plan = "slow"
		}
		u.mu.Lock()
		u.plan[id] = plan
		u.plan[id+"x"] = plan
		u.mu.Unlock()
		switch a.ways {
		case 1:
			u.down()
			idle, maybe = map[int]bool{}, map[int]bool{}
		case 2:
			if !u.dig() {
				u.listen()
				return "", "no hole"
			}
			idle, maybe = map[int]bool{}, map[int]bool{}
		}
		// requests for the other upstream go on meanwhile
		aside := make(chan string, 1)
		go func() {
			bid := fmt.Sprintf("%s-b%d", key, i)
			l.b.mu.Lock()
			l.b.plan[bid] = "get"
			l.b.mu.Unlock()
			t := time.Now()
			r := ask("GET", "/b", bid, nil)
			p := judge(c30Act{c: "get", status: 200, own: true}, bid, r, nil)
			if p == "" && time.Since(t) > 1500*time.Millisecond && (a.slow || a.ways == 2) {
				p = fmt.Sprintf("took %v", time.Since(t))
			}
			l.b.mu.Lock()
			delete(l.b.plan, bid)
			delete(l.b.seen, bid)
			l.b.mu.Unlock()
			aside <- p
		}()
		t := time.Now()
		p := ""
		path := "/a"
		switch a.ways {
		case 5:
			p = judge(want, id, ask(a.m, "/none", id, body), body)
		case 3:
			other := make(chan string, 1)
			go func() { other <- judge(want, id+"x", ask(a.m, path, id+"x", body), body) }()
			p = judge(want, id, ask(a.m, path, id, body), body)
			if o := <-other; p == "" {
				p = o
			}
		case 4:
			if c := dialRaw(l.s.addr()); c != nil {
				io.WriteString(c, c30Raw(a.m, path, id, body))
				time.Sleep(c30Slow / 3)
				c.Close()
			}
			time.Sleep(c30Slow + 100*time.Millisecond)
		default:
			p = judge(want, id, ask(a.m, path, id, body), body)
		}
		took := time.Since(t)
		switch a.ways {
		case 1:
			u.listen()
		case 2:
			u.fill()
			u.listen()
		}
		if a.settle {
			time.Sleep(80 * time.Millisecond)
		}
		if b := <-aside; p == "" && b != "" {
			p = "a request for the other upstream meanwhile: " + b
		}
		u.mu.Lock()
		seen := append([]*upReq(nil), u.seen[id]...)
		seen = append(seen, u.seen[id+"x"]...)
		if p == "" {
			p = u.bad
		}
		fresh := map[int]bool{}
		for _, q := range seen {
			first := len(u.conns[q.Conn].cases) > 0 && u.conns[q.Conn].cases[0] == q.Case
			fresh[q.Conn] = first
			if p == "" && q.Done && (q.Method == "POST" || q.Method == "PUT") && !bytes.Equal(q.Body, body) {
				p = fmt.Sprintf("the upstream got the body %.60q instead of %.60q", q.Body, body)
			}
			if p == "" && (q.Method != a.m || q.Target != "/a/"+q.Case) {
				p = "the upstream got " + q.Line
			}
		}
		u.mu.Unlock()
		n := 1
		if a.ways == 3 {
			n = 2
		} else if a.ways != 0 && a.ways != 4 {
			n = 0
		}
		if plan != a.c && a.ways == 0 {
			n = 2
		}
		most := n
		if a.again {
			most = n + 2
		}
		if p == "" && (len(seen) < n || len(seen) > most) {
			p = fmt.Sprintf("%d requests reached the upstream instead of %d", len(seen), n)
		}
		if p == "" && a.ways == 0 && len(seen) > 0 && !loose {
			c := seen[0].Conn
			if fresh[c] && len(idle) > 0 {
				p = fmt.Sprintf("a new connection was opened although %d were idle", len(idle))
			} else if !fresh[c] && !idle[c] && !maybe[c] {
				p = fmt.Sprintf("connection %d was used again", c)
			}
		}
		for j, q := range seen {
			delete(idle, q.Conn)
			delete(maybe, q.Conn)
			re := a.reuse
			if plan != a.c && a.ways == 0 && j > 0 {
				re = "yes"
			}
			switch re {
			case "yes":
				idle[q.Conn] = true
			case "any":
				maybe[q.Conn] = true
			}
		}
		if a.ways > 1 && a.ways < 5 {
			loose = true // connections may have been opened that no request has used
		}
		trail = append(trail, fmt.Sprintf("%s:%d", a.c, len(seen)))
		if p != "" {
			return fmt.Sprintf("after %v, %s (%v): %s", trail[:i], plan, took.Round(10*time.Millisecond), p), ""
		}
	}
	if l.s.exited() {
		return "the server died: " + l.s.out.String(), ""
	}
	return "", strings.Join(trail, " ")
}

func checkC30() {
	R.Rule = fmt.Sprintf("every history of up to %d out of %d exchanges with an upstream (complete, cut off, garbled, late, refused, hanging ...), every failing one many times in a row, over http and https and with retries, is played on the real server over real sockets, each followed by two plain requests and accompanied by requests for another upstream; what the client gets and which upstream connection carries each request is compared with a model of the connection pool", pick(2, 3), len(c30Acts))
	lanes := pick(8, 8)
	leaf := makeCert(certSpec{cn: "up"})
	tlsc := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{leaf.der}, PrivateKey: leaf.key}}}
	g := newGroup(lanes * 3)
	pool := map[string]chan *c30Lane{}
	for _, k := range []string{"http", "https", "retry"} {
		pool[k] = make(chan *c30Lane, lanes)
		for i := 0; i < lanes; i++ {
			pool[k] <- nil
		}
	}
	play := func(kind string, acts []c30Act, retried []bool) {
		key := kind
		for i, a := range acts {
			key += " " + a.c
			if i > 5 {
				key += fmt.Sprintf("...%d", len(acts))
				break
			}
		}
		g.do(key, func() (string, string) {
			l := <-pool[kind]
			if l == nil {
				switch kind {
				case "http":
					l = newC30Lane(1, nil)
				case "https":
					l = newC30Lane(1, tlsc)
				default:
					l = newC30Lane(2, nil)
				}
			}
			defer func() { pool[kind] <- l }()
			return l.play(strings.ReplaceAll(key, " ", "."), acts, retried)
		})
	}
	for _, a := range c30Acts {
		play("http", []c30Act{a}, nil)
		play("https", []c30Act{a}, nil)
	}
	// many in a row
	for _, a := range c30Acts {
		n := pick(12, 24)
		if a.slow || a.ways == 2 {
			n = pick(6, 12)
		}
		var acts []c30Act
		for i := 0; i < n; i++ {
			acts = append(acts, a)
		}
		play("http", acts, nil)
	}
	// attempts that fail and are repeated
	var fails []c30Act
	for _, a := range c30Acts {
		if a.status > 499 && a.m != "POST" && a.ways == 0 && a.c != "dies" && a.c != "reset" {
			fails = append(fails, a)
		}
	}
	for _, a := range fails {
		play("retry", []c30Act{a}, []bool{true})
		for _, b := range fails {
			play("retry", []c30Act{a, b}, []bool{true, true})
		}
	}
	for _, a := range c30Acts {
		for _, b := range c30Acts {
			play("http", []c30Act{a, b}, nil)
		}
	}
	some := map[string]bool{"get": true, "post": true, "head": true, "500": true, "toend": true, "half": true, "garbage": true, "dies": true, "hangbody": true, "surplus": true, "down": true, "reset": true}
	for _, a := range c30Acts {
		for _, b := range c30Acts {
			if some[a.c] && some[b.c] || thorough() {
				play("https", []c30Act{a, b}, nil)
			}
		}
	}
	if thorough() {
		for _, a := range c30Acts {
			for _, b := range c30Acts {
				for _, c := range c30Acts {
					play("http", []c30Act{a, b, c}, nil)
				}
			}
		}
	}
	g.wait()
}
