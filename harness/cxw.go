//go:build go1.21

package j8a

// Exchanges over the wire: the outcome histories of px.go played by a raw upstream to the real server in
// real time. Events are at least wTol apart, so that the reference model has exactly one answer.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C02w"] = checkC02w
	checks["C03w"] = checkC03w
	checks["C03l"] = checkC03l
	checks["C25w"] = checkC25w
}

const wTol = 250 * time.Millisecond
const wLate = 900 * time.Millisecond // what a busy machine may add

// wAtt is a scripted attempt with the way it goes wrong
type wAtt struct {
	Att
	Way string // close, reset, garbage, half | short, chunk, reset
}

func (a wAtt) String() string { return a.Att.String() + a.Way }

type wScen struct {
	Scen
	Ws    []wAtt
	Proto string // "", 1.0, h2
	Frame string // of the request body: "", cl, chunked
	Keep  bool   // the upstream keeps its connections
}

func (s wScen) Key() string {
	k := fmt.Sprintf("%s max%d T%v RT%v gz%v %s%s", s.Method, s.Max, s.T, s.RT, s.ClientGz, s.Proto, s.Frame)
	for _, a := range s.Ws {
		k += " " + a.String()
	}
	return k
}

func mkW(m string, max int, t, rt time.Duration, ws ...wAtt) wScen {
	s := wScen{Scen: Scen{Method: m, Max: max, T: t, RT: rt}, Ws: ws}
	for _, w := range ws {
		s.Atts = append(s.Atts, w.Att)
	}
	return s
}

// sure gives the one outcome that the model allows however much each event is late, if there is one
func (s wScen) sure() (Allowed, bool) {
	var got Allowed
	n := 0
	for mask := 0; mask < 1<<uint(2*len(s.Atts)); mask++ {
		p := s.Scen
		p.Atts = append([]Att(nil), s.Atts...)
		skip := false
		for i := range p.Atts {
			a := &p.Atts[i]
			if mask>>uint(2*i)&1 == 1 && a.H != never {
				a.H += wTol
			} else if mask>>uint(2*i)&1 == 1 {
				skip = true
			}
			if mask>>uint(2*i+1)&1 == 1 && a.B != never {
				a.B += wTol
			} else if mask>>uint(2*i+1)&1 == 1 {
				skip = true
			}
		}
		if skip {
			continue
		}
		out, _ := p.model()
		if len(out) != 1 {
			return got, false
		}
		for a := range out {
			if n > 0 && (a.Code != got.Code || a.From != got.From || a.Attempts != got.Attempts) {
				return got, false
			}
			if n == 0 {
				got = a
			}
		}
		n++
	}
	// an attempt that times out close to the round trip's end may or may not have a successor
	for d := -wTol; d <= wTol; d += wTol {
		p := s.Scen
		p.RT += d
		out, _ := p.model()
		for a := range out {
			if a.Code != got.Code || a.From != got.From || a.Attempts != got.Attempts {
				return got, false
			}
		}
	}
	return got, true
}

// xSeen is an attempt as the upstream saw it
type xSeen struct {
	head   string
	body   []byte
	berr   error
	at     time.Time
	gone   time.Time // the gateway closed the connection
	answer time.Time // the upstream had sent what it had to
	conn   int
}

// xUp plays the scripts of many cases at the same time
type xUp struct {
	ln    net.Listener
	port  int
	mu    sync.Mutex
	scens map[string]*wScen
	seen  map[string][]*xSeen
	conns int
	open  map[net.Conn]bool
}

func newXUp() *xUp {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	u := &xUp{ln: ln, port: ln.Addr().(*net.TCPAddr).Port, scens: map[string]*wScen{}, seen: map[string][]*xSeen{}, open: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			u.mu.Lock()
			u.conns++
			id := u.conns
			u.open[c] = true
			u.mu.Unlock()
			go func() {
				u.serve(c, id)
				c.Close()
				u.mu.Lock()
				delete(u.open, c)
				u.mu.Unlock()
			}()
		}
	}()
	return u
}

// closeIdle ends all connections
func (u *xUp) closeAll() {
	u.mu.Lock()
	for c := range u.open {
		c.Close()
	}
	u.mu.Unlock()
}

func (u *xUp) serve(c net.Conn, id int) {
	var tee bytes.Buffer
	r := bufio.NewReaderSize(io.TeeReader(c, &tee), 65536)
	for {
		if _, err := r.Peek(1); err != nil {
			return
		}
		x := &xSeen{at: time.Now(), conn: id}
		line, hdr, err := readHead(r)
		if err != nil {
			return
		}
		q := &upReq{Hdr: hdr}
		x.head = line + "\n"
		for _, h := range hdr {
			x.head += h[0] + ": " + h[1] + "\n"
		}
		if cl := q.get("Content-Length"); len(cl) > 0 {
			n, _ := strconv.Atoi(cl[0])
			x.body = make([]byte, n)
			n, x.berr = io.ReadFull(r, x.body)
			x.body = x.body[:n]
		} else if len(q.get("Transfer-Encoding")) > 0 {
			x.body, x.berr = readChunked(r)
		}
		k := ""
		if v := q.get("X-Case"); len(v) == 1 {
			k = v[0]
		}
		u.mu.Lock()
		s := u.scens[k]
		u.seen[k] = append(u.seen[k], x)
		n := len(u.seen[k])
		u.mu.Unlock()
		if s == nil {
			io.WriteString(c, ok200("?").Raw)
			continue
		}
		gone := make(chan bool)
		more := make(chan bool)
		go func() {
			// the end of the connection, or the next request
			if _, err := r.Peek(1); err != nil {
				u.mu.Lock()
				x.gone = time.Now()
				u.mu.Unlock()
				close(gone)
			}
			close(more)
		}()
		if !u.play(c, s, n, gone) {
			if tc, ok := c.(*net.TCPConn); ok {
				tc.CloseWrite()
			}
			<-more
			return
		}
		u.mu.Lock()
		x.answer = time.Now()
		u.mu.Unlock()
		<-more
		select {
		case <-gone:
			return
		default:
		}
	}
}

// play answers attempt n; false when the connection has to end
func (u *xUp) play(c net.Conn, s *wScen, n int, gone chan bool) bool {
	i := n - 1
	if i >= len(s.Ws) {
		i = len(s.Ws) - 1
	}
	a := s.Ws[i]
	wait := func(d time.Duration) bool {
		if d == never {
			<-gone
			return false
		}
		if d == 0 {
			return true
		}
		select {
		case <-gone:
			return false
		case <-time.After(d):
			return true
		}
	}
	reset := func() bool {
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
		return false
	}
	if !wait(a.H) {
		return false
	}
	if a.Err {
		switch a.Way {
		case "reset":
			return reset()
		case "garbage":
			io.WriteString(c, "nonsense\r\n\r\n")
		case "half":
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Le")
		}
		return false
	}
	b := []byte(s.plain(n))
	h := fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Type: application/json\r\nX-Att: %d\r\n", a.Status, n)
	if !s.Keep {
		h += "Connection: close\r\n"
	}
	if a.Status >= 300 && a.Status < 400 {
		h += "Location: /elsewhere\r\n"
	}
	if a.Gz && !a.Empty {
		b = refGzip(b)
		h += "Content-Encoding: gzip\r\n"
	}
	bodyless := s.Method == "HEAD" || a.Status == 204 || a.Status == 304
	chunk := a.Way == "chunk"
	if chunk {
		h += "Transfer-Encoding: chunked\r\n\r\n"
	} else if a.Status == 204 {
		h += "\r\n"
	} else {
		h += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(b))
	}
	if bodyless {
		io.WriteString(c, h)
		return s.Keep
	}
	out := func(p []byte) string {
		if chunk {
			return fmt.Sprintf("%x\r\n%s\r\n", len(p), p)
		}
		return string(p)
	}
	if a.B == 0 && !a.BErr {
		if len(b) > 0 {
			h += out(b)
		}
		if chunk {
			h += "0\r\n\r\n"
		}
		io.WriteString(c, h)
		return s.Keep
	}
	half := len(b) / 2
	io.WriteString(c, h+out(b[:half]))
	if !wait(a.B) {
		return false
	}
	if a.BErr {
		if a.Way == "reset" {
			return reset()
		}
		return false
	}
	rest := out(b[half:])
	if chunk {
		rest += "0\r\n\r\n"
	}
	io.WriteString(c, rest)
	return s.Keep
}

// wHouse keeps a server per configuration
type wHouse struct {
	up   *xUp
	mu   sync.Mutex
	srvs map[string]*srv
	h2   map[string]*h2client
	n    int
}

func wYml(up int, max int, t, rt time.Duration, tls bool) string {
	conn := "port: {{PORT}}"
	if tls {
		conn = "port: {{PORT}}\n    mode: TLS\n    cert: " + strconv.Quote(wCert) + "\n    key: " + strconv.Quote(wKey)
	}
	return fmt.Sprintf(`
connection:
  downstream:
    %s
    roundTripTimeoutSeconds: %d
    readTimeoutSeconds: 60
    maxBodyBytes: 65536
  upstream: {readTimeoutSeconds: %d, maxAttempts: %d, socketTimeoutSeconds: 2}
routes:
  - {path: /api, resource: api}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, conn, int(rt/time.Second), int(t/time.Second), max, up)
}

var wCert, wKey string

func (w *wHouse) get(s wScen) *srv {
	w.mu.Lock()
	defer w.mu.Unlock()
	tls := s.Proto == "h2"
	k := fmt.Sprint(s.Max, s.T, s.RT, tls)
	if w.srvs[k] == nil {
		if tls && wCert == "" {
			c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
			wCert, wKey = pemCerts(c), pemKey(c.key)
		}
		w.srvs[k] = mustBoot(wYml(w.up.port, s.Max, s.T, s.RT, tls))
		if tls {
			w.h2[k] = newH2(w.srvs[k].addr())
			if s.RT > 40*sec || s.T > 40*sec {
				w.h2[k].patience = 150 * sec
			}
		}
	}
	return w.srvs[k]
}

func (w *wHouse) stop() {
	for _, s := range w.srvs {
		s.stop()
	}
}

func newHouse() *wHouse {
	return &wHouse{up: newXUp(), srvs: map[string]*srv{}, h2: map[string]*h2client{}}
}

// wMore are request headers a gateway might be tempted to drop or rewrite for a later attempt
var wMore = [][2]string{
	{"Range", "bytes=0-99"}, {"If-Range", "\"e\""}, {"If-None-Match", "\"e\""}, {"If-Match", "*"},
	{"If-Modified-Since", "Sat, 29 Oct 1994 19:43:31 GMT"}, {"If-Unmodified-Since", "Sat, 29 Oct 1994 19:43:31 GMT"},
	{"Authorization", "Basic YTpi"}, {"Referer", "http://r/"}, {"Origin", "http://o"}, {"Accept", "text/plain;q=0.5, */*"},
	{"Accept-Language", "de"}, {"Cache-Control", "no-cache"}, {"Pragma", "no-cache"}, {"From", "a@b"},
	{"Via", "1.1 v"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-Host", "h"}, {"Forwarded", "for=1.2.3.4"}, {"Content-Type", "text/x; charset=b"},
	{"Content-Language", "fr"}, {"Idempotency-Key", "k"}, {"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"},
	{"X-Retry", "0"}, {"Dnt", "1"}, {"X-Lower", "\"quoted\""},
}

// run plays one exchange and compares it with the model
func (w *wHouse) run(s wScen) (problem, outcome string) {
	want, ok := s.sure()
	if !ok {
		return "", "not decided"
	}
	sv := w.get(s)
	w.mu.Lock()
	w.n++
	id := fmt.Sprintf("w%d", w.n)
	w.mu.Unlock()
	s.Tag = id
	w.up.mu.Lock()
	w.up.scens[id] = &s
	w.up.mu.Unlock()
	hdr := [][2]string{{"Host", "gw"}, {"X-Case", id}, {"X-Tag", id}, {"User-Agent", "verif/1.0"}, {"Cookie", "a=b"}, {"X-Multi", "one"}, {"X-Multi", "three, four"}}
	hdr = append(hdr, wMore...)
	if s.ClientGz {
		hdr = append(hdr, [2]string{"Accept-Encoding", "gzip"})
	} else {
		hdr = append(hdr, [2]string{"Accept-Encoding", "identity"})
	}
	t0 := time.Now()
	var r *wresp
	if s.Proto == "h2" {
		var body []byte
		if s.Frame != "" {
			body = []byte(s.Body)
		}
		w.mu.Lock()
		h := w.h2[fmt.Sprint(s.Max, s.T, s.RT, true)]
		w.mu.Unlock()
		t0 = time.Now()
		r = h.do(s.Method, "/api/x?q=1", hdr, body)
	} else {
		proto := s.Proto
		if proto == "" {
			proto = "1.1"
		}
		raw := s.Method + " /api/x?q=1 HTTP/" + proto + "\r\n"
		for _, h := range hdr {
			raw += h[0] + ": " + h[1] + "\r\n"
		}
		switch s.Frame {
		case "cl":
			raw += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(s.Body), s.Body)
		case "chunked":
			raw += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(s.Body), s.Body)
		default:
			raw += "\r\n"
		}
		c := dialRaw(sv.addr())
		if c == nil {
			return "cannot connect", "dead"
		}
		defer c.Close()
		t0 = time.Now()
		io.WriteString(c, raw)
		r = c.readResp(s.Method, s.RT+5*time.Second)
	}
	at := time.Since(t0)
	if r.Err != nil {
		return fmt.Sprintf("no good response after %v: %v", at, r.Err), "none"
	}
	// attempts that were cancelled should have gone by now, and no further one may follow
	time.Sleep(wTol)
	if len(s.Ws) > want.Attempts || want.Code == 504 || want.Code == 502 {
		time.Sleep(wTol)
	}
	w.up.mu.Lock()
	var seen []xSeen
	for _, x := range w.up.seen[id] {
		seen = append(seen, *x)
	}
	w.up.mu.Unlock()
	got := Allowed{Code: r.Status, Attempts: len(seen)}
	if v := r.get("X-Att"); len(v) == 1 {
		got.From, _ = strconv.Atoi(v[0])
	}
	outcome = fmt.Sprintf("%d from %d of %d", got.Code, got.From, got.Attempts)
	if got.Code != want.Code || got.From != want.From || got.Attempts != want.Attempts {
		return fmt.Sprintf("observed status %d from attempt %d after %d attempts at %v instead of %d, %d, %d at %v", got.Code, got.From, got.Attempts, at, want.Code, want.From, want.Attempts, want.At), outcome
	}
	if at < want.At-50*time.Millisecond || at > want.At+wLate {
		return fmt.Sprintf("answered after %v instead of %v", at, want.At), outcome
	}
	if got.From > 0 {
		dec, rest, err := refDecode(strings.Join(r.get("Content-Encoding"), ","), r.Body)
		if err != nil || len(rest) > 0 || s.Method != "HEAD" && r.Status != 204 && string(dec) != s.plain(got.From) {
			return fmt.Sprintf("body %q is not that of attempt %d %q", r.Body, got.From, s.plain(got.From)), outcome
		}
	} else if p := generatedOK(r, s.Method); p != "" {
		return p, outcome
	}
	rid := r.one("X-Request-Id")
	for i, x := range seen {
		for _, h := range wMore {
			if !strings.Contains(x.head, "\n"+h[0]+": "+h[1]+"\n") {
				return fmt.Sprintf("attempt %d lacks header %q: %q", i+1, h, x.head), outcome
			}
		}
		if x.head != seen[0].head {
			return fmt.Sprintf("attempt %d sent head %q instead of %q", i+1, x.head, seen[0].head), outcome
		}
		if !strings.HasPrefix(x.head, s.Method+" /api/x?q=1 HTTP/1.1\n") || !strings.Contains(x.head, "X-Multi: one\nX-Multi: three, four\n") || rid == "" || !strings.Contains(x.head, "X-Request-Id: "+rid+"\n") {
			return fmt.Sprintf("attempt %d sent head %q for request id %s", i+1, x.head, rid), outcome
		}
		if x.berr != nil || string(x.body) != s.Body {
			return fmt.Sprintf("attempt %d sent body %q (%v) instead of %q", i+1, x.body, x.berr, s.Body), outcome
		}
		st := x.at.Sub(t0)
		limit := st + s.T
		if s.RT < limit {
			limit = s.RT
		}
		if st > s.RT+wTol {
			return fmt.Sprintf("attempt %d was started %v after the request arrived", i+1, st), outcome
		}
		a := s.att(i + 1)
		fin := a.H
		if fin != never && !a.Err && s.Method != "HEAD" && a.Status != 204 {
			if a.B == never {
				fin = never
			} else {
				fin += a.B
			}
		}
		if fin == never || st+fin > limit {
			if x.gone.IsZero() || x.gone.Sub(t0) > limit+wLate {
				return fmt.Sprintf("attempt %d started at %v was not cancelled by %v (gone %v)", i+1, st, limit, x.gone), outcome
			}
			if x.gone.Sub(t0) < limit-60*time.Millisecond {
				return fmt.Sprintf("attempt %d started at %v was cancelled at %v, before %v", i+1, st, x.gone.Sub(t0), limit), outcome
			}
		}
		if i > 0 {
			p := seen[i-1]
			if p.answer.IsZero() && (p.gone.IsZero() || p.gone.Sub(x.at) > wTol) && !s.att(i).Err && !s.att(i).BErr {
				return fmt.Sprintf("attempt %d started while attempt %d was running", i+1, i), outcome
			}
		}
	}
	return "", outcome
}

func wseqs(fails, oks []wAtt, max int) (out [][]wAtt) {
	var rec func(cur []wAtt)
	rec = func(cur []wAtt) {
		for _, o := range oks {
			out = append(out, append(append([]wAtt(nil), cur...), o))
		}
		for _, f := range fails {
			n := append(append([]wAtt(nil), cur...), f)
			if len(n) < max {
				rec(n)
			} else {
				out = append(out, append(n, wAtt{Att: Att{Status: 200}}))
			}
		}
	}
	rec(nil)
	return
}

func wcase(g *wireGroup, w *wHouse, s wScen) {
	if _, ok := s.sure(); !ok {
		return
	}
	g.do(s.Key(), func() (string, string) { return w.run(s) })
}

func checkC02w() {
	R.Rule = "outcome histories as above in every way they can go wrong on a connection (closed, reset, garbage, half a head, short, broken chunk), played by a raw upstream to the real server in real time over HTTP/1.1, 1.0 and 2, compared with the same model; every attempt's bytes are compared with the first one's"
	w := newHouse()
	defer w.stop()
	g := newGroup(48)
	fails := []wAtt{{Att{Err: true}, "close"}, {Att{Err: true}, "reset"}, {Att{Err: true}, "garbage"}, {Att{Err: true}, "half"}, {Att{Status: 500}, ""}, {Att{Status: 503, Gz: true}, "chunk"}, {Att{Status: 200, BErr: true}, "short"}, {Att{Status: 200, BErr: true}, "chunk"}, {Att{Status: 200, BErr: true, Gz: true}, "reset"}, {Att{H: never}, ""}, {Att{Status: 200, B: never}, ""}}
	oks := []wAtt{{Att{Status: 200}, ""}, {Att{Status: 204, Empty: true}, ""}, {Att{Status: 302}, "chunk"}, {Att{Status: 404}, ""}, {Att{Status: 200, Gz: true, H: 300 * time.Millisecond}, "chunk"}}
	for max := 1; max <= 3; max++ {
		f, o := fails, oks
		if max == 3 {
			o = oks[:pick(1, 3)]
		}
		few := func(ws []wAtt) bool {
			for _, a := range ws {
				if a.Way == "reset" || a.Way == "half" || a.Way == "garbage" || a.Way == "chunk" {
					return false
				}
			}
			return true
		}
		for _, ws := range wseqs(f, o, max) {
			for _, m := range []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"} {
				frames := []string{""}
				if m == "PUT" || m == "POST" || m == "DELETE" {
					frames = []string{"cl", "chunked"}
				}
				for _, fr := range frames {
					for _, p := range []string{"", "1.0", "h2"} {
						if p == "1.0" && fr == "chunked" || p == "h2" && (m == "TRACE" || fr == "chunked") || !thorough() && p != "" && (max == 3 || m != "GET" && m != "PUT") {
							continue
						}
						if !thorough() && max == 3 && (fr == "chunked" || m != "PUT" && !few(ws)) {
							continue
						}
						s := mkW(m, max, sec, 30*sec, ws...)
						s.Proto, s.Frame = p, fr
						if fr != "" {
							s.Body = "body of the request, to be repeated by every attempt"
						}
						s.ClientGz = len(ws)%2 == 0
						if m == "HEAD" {
							bad := false
							for _, a := range ws {
								bad = bad || a.BErr || a.B != 0
							}
							if bad {
								continue
							}
						}
						wcase(g, w, s)
					}
				}
			}
		}
	}
	// every status that makes an attempt fail, and every one that ends the sequence
	for st := 200; st <= 999; st++ {
		if st >= 600 && st%7 != 0 && !thorough() || st < 500 && st%9 != 0 && !thorough() {
			continue
		}
		for _, way := range []string{"", "chunk"} {
			if way != "" && st%5 != 0 {
				continue
			}
			a := wAtt{Att{Status: st}, way}
			if st == 204 || st == 304 {
				a.Empty = true
			}
			wcase(g, w, mkW("GET", 2, sec, 30*sec, a, wAtt{Att: Att{Status: 201}}))
			wcase(g, w, mkW("POST", 2, sec, 30*sec, a, wAtt{Att: Att{Status: 201}}))
			if st >= 500 {
				wcase(g, w, mkW("DELETE", 3, sec, 30*sec, wAtt{Att: Att{Status: 503}}, a, wAtt{Att: Att{Status: 201}}))
				wcase(g, w, mkW("PUT", 2, sec, 30*sec, wAtt{Att{Err: true}, "close"}, a))
			}
		}
	}
	g.wait()
}

func checkC03w() {
	R.Rule = "headers and bodies that come before or after either deadline, or never, in every combination over one and two attempts with both orders of the deadlines, played by a raw upstream to the real server in real time: status, instant of the answer, number of attempts, and the instant the gateway closes each attempt's connection"
	w := newHouse()
	defer w.stop()
	g := newGroup(64)
	ms := time.Millisecond
	var atts []wAtt
	for _, h := range []time.Duration{0, 500 * ms, 1500 * ms, 2500 * ms, never} {
		if h != never {
			atts = append(atts, wAtt{Att{H: h, Err: true}, "close"})
		}
		for _, b := range []time.Duration{0, 500 * ms, 1000 * ms, 1500 * ms, 2500 * ms, never} {
			if h == never && b != 0 {
				continue
			}
			for _, way := range []string{"", "chunk"} {
				if way != "" && (b == 0 || h != 0) {
					continue
				}
				atts = append(atts, wAtt{Att{H: h, B: b, Status: 200}, way})
			}
			if h == 0 || thorough() {
				atts = append(atts, wAtt{Att{H: h, B: b, Status: 500}, ""}, wAtt{Att{H: h, B: b, Status: 404}, ""})
			}
			if b > 0 && h == 0 {
				atts = append(atts, wAtt{Att{H: h, B: b, Status: 200, BErr: true}, "short"})
			}
		}
	}
	for _, rt := range []time.Duration{sec, 2 * sec, 3 * sec, 4 * sec} {
		for _, t := range []time.Duration{sec, 2 * sec, 3 * sec} {
			for _, m := range []string{"GET", "POST"} {
				for _, p := range []string{"", "h2"} {
					if p != "" && t != 2*sec && !thorough() {
						continue
					}
					for _, a := range atts {
						s := mkW(m, 1, t, rt, a)
						s.Proto = p
						wcase(g, w, s)
					}
				}
			}
		}
	}
	for _, rt := range []time.Duration{2 * sec, 3 * sec, 4 * sec} {
		for _, t := range []time.Duration{sec, 2 * sec} {
			for i, a := range atts {
				for j, b := range atts {
					if !thorough() && (i+j+int(rt/sec)+int(t/sec))%2 != 0 {
						continue
					}
					if !a.Err && a.Status < 500 && !a.BErr && a.H != never && a.B != never && a.H+a.B < t {
						continue
					}
					wcase(g, w, mkW("GET", 2, t, rt, a, b))
				}
			}
		}
	}
	g.wait()
}

// checkC03l waits for long: neither limit may be cut short by a constant somewhere on the way
func checkC03l() {
	R.Rule = "answers whose headers or bodies take up to 62 (thorough: 122) seconds against limits above and limits below that, over one and two attempts and over HTTP/1.1 and 2, in real time on the real server, compared with the same model"
	w := newHouse()
	defer w.stop()
	g := newGroup(400)
	ds := []time.Duration{6 * sec, 11 * sec, 16 * sec, 21 * sec, 26 * sec, 31 * sec, 41 * sec, 46 * sec, 61 * sec}
	if thorough() {
		ds = append(ds, 91*sec, 121*sec)
	}
	for _, p := range []string{"", "h2"} {
		add := func(s wScen) {
			s.Proto = p
			if s.Method == "PUT" || s.Method == "POST" {
				s.Frame, s.Body = "cl", "body of the request"
			}
			wcase(g, w, s)
		}
		for _, d := range ds {
			for _, m := range []string{"GET", "POST", "HEAD", "PUT"} {
				add(mkW(m, 1, 200*sec, 250*sec, wAtt{Att{H: d, Status: 200}, ""}))
				if m == "HEAD" {
					continue
				}
				add(mkW(m, 1, 200*sec, 250*sec, wAtt{Att{B: d, Status: 200}, ""}))
				add(mkW(m, 1, 200*sec, 250*sec, wAtt{Att{H: d / 2, B: d / 2, Status: 200}, "chunk"}))
			}
			add(mkW("GET", 2, 200*sec, 250*sec, wAtt{Att{H: d / 2, Err: true}, "close"}, wAtt{Att{H: d / 2, Status: 200}, ""}))
			add(mkW("PUT", 2, 200*sec, 250*sec, wAtt{Att{H: d / 2, Status: 503}, ""}, wAtt{Att{B: d / 2, Status: 201}, ""}))
		}
		for _, l := range [][2]time.Duration{{13 * sec, 250 * sec}, {23 * sec, 250 * sec}, {33 * sec, 250 * sec}, {48 * sec, 250 * sec}, {200 * sec, 18 * sec}, {200 * sec, 28 * sec}, {200 * sec, 43 * sec}, {200 * sec, 58 * sec}, {33 * sec, 43 * sec}} {
			for _, a := range []wAtt{{Att{H: never}, ""}, {Att{Status: 200, B: never}, ""}} {
				add(mkW("GET", 1, l[0], l[1], a))
				add(mkW("POST", 1, l[0], l[1], a))
				if l[0]*2 <= 60*sec || l[1] <= 60*sec {
					add(mkW("GET", 2, l[0], l[1], a, a))
				}
			}
		}
	}
	g.wait()
}

var reGo = regexp.MustCompile(`(?m)^goroutine \d+`)

// stacks ends the server and returns its goroutines
func (s *srv) stacks() []string {
	s.out.Reset()
	s.cmd.Process.Signal(syscall.SIGQUIT)
	s.wait(10 * time.Second)
	var out []string
	for _, g := range strings.Split(s.out.String(), "\n\n") {
		if strings.HasPrefix(g, "goroutine ") && !strings.HasPrefix(g, "goroutine 0 ") {
			out = append(out, g)
		}
	}
	return out
}

func nfds(pid int) int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, e.Name()))
		if strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// checkC25w plays histories of exchanges to a server of their own and looks for what is left of them
func checkC25w() {
	R.Rule = "histories of exchanges (each outcome alone, several times over, and in every pair) including clients that leave midway, played to a real server of its own over keep alive connections; exchanges whose bodies were complete share one upstream connection, and after the timeouts the server process has no socket and no goroutine more than one that only served a plain exchange"
	type ev struct {
		n    string
		s    wScen
		quit time.Duration // the client leaves after
		full bool          // every body was complete: the connection is reused
	}
	ms := time.Millisecond
	one := func(n, m string, full bool, quit time.Duration, ws ...wAtt) ev {
		s := mkW(m, 2, sec, 2*sec, ws...)
		s.Keep = true
		return ev{n, s, quit, full}
	}
	ok := wAtt{Att{Status: 200}, ""}
	evs := []ev{
		one("ok", "GET", true, 0, ok),
		one("chunked", "GET", true, 0, wAtt{Att{Status: 200}, "chunk"}),
		one("slow body", "GET", true, 0, wAtt{Att{Status: 200, B: 300 * ms}, ""}),
		one("gzip", "GET", true, 0, wAtt{Att{Status: 200, Gz: true}, ""}),
		one("204", "GET", true, 0, wAtt{Att{Status: 204, Empty: true}, ""}),
		one("redirect", "GET", true, 0, wAtt{Att{Status: 302}, ""}),
		one("404", "GET", true, 0, wAtt{Att{Status: 404}, ""}),
		one("404 chunked", "POST", true, 0, wAtt{Att{Status: 404}, "chunk"}),
		one("500 then ok", "GET", true, 0, wAtt{Att{Status: 500}, ""}, ok),
		one("500 twice", "GET", true, 0, wAtt{Att{Status: 500}, "chunk"}, wAtt{Att{Status: 503}, ""}),
		one("post 500", "POST", true, 0, wAtt{Att{Status: 500}, ""}),
		one("head", "HEAD", true, 0, ok),
		one("head 500", "HEAD", true, 0, wAtt{Att{Status: 500}, ""}, ok),
		one("head 404", "HEAD", true, 0, wAtt{Att{Status: 404}, ""}),
		one("broken body", "GET", false, 0, wAtt{Att{Status: 200, BErr: true}, "short"}, ok),
		one("broken bodies", "GET", false, 0, wAtt{Att{Status: 200, BErr: true}, "chunk"}, wAtt{Att{Status: 200, BErr: true}, "reset"}),
		one("no headers", "GET", false, 0, wAtt{Att{H: never}, ""}),
		one("no body", "GET", false, 0, wAtt{Att{Status: 200, B: never}, ""}),
		one("no error body", "GET", false, 0, wAtt{Att{Status: 500, B: never}, ""}),
		one("no 404 body", "POST", false, 0, wAtt{Att{Status: 404, B: never}, ""}),
		one("late", "POST", false, 0, wAtt{Att{H: 1500 * ms, Status: 200}, ""}),
		one("no headers then ok", "GET", false, 0, wAtt{Att{H: never}, ""}, ok),
		one("client leaves before headers", "GET", false, 300*ms, wAtt{Att{H: never}, ""}),
		one("client leaves in body", "GET", false, 300*ms, wAtt{Att{Status: 200, B: never}, ""}),
		one("client leaves in retry", "GET", false, 1300*ms, wAtt{Att{H: never}, ""}),
		one("client leaves then ok", "GET", false, 300*ms, wAtt{Att{H: 600 * ms, Status: 200}, ""}),
	}
	play := func(hist []ev) (problem, outcome string) {
		up := newXUp()
		defer up.ln.Close()
		s := boot(wYml(up.port, 2, sec, 2*sec, false), "GOTRACEBACK=all")
		if s == nil {
			return "the server did not start", "dead"
		}
		defer s.stop()
		n := 0
		exch := func(e ev) string {
			n++
			id := fmt.Sprintf("h%d", n)
			sc := e.s
			sc.Tag = id
			up.mu.Lock()
			up.scens[id] = &sc
			up.mu.Unlock()
			c := dialRaw(s.addr())
			if c == nil {
				return "cannot connect"
			}
			defer c.Close()
			io.WriteString(c, sc.Method+" /api/x HTTP/1.1\r\nHost: gw\r\nX-Case: "+id+"\r\nAccept-Encoding: identity\r\nContent-Length: 0\r\n\r\n")
			if e.quit > 0 {
				time.Sleep(e.quit)
				return ""
			}
			r := c.readResp(sc.Method, 6*time.Second)
			if r.Err != nil {
				return fmt.Sprintf("%s was not answered: %v", e.n, r.Err)
			}
			time.Sleep(10 * ms)
			return ""
		}
		if p := exch(evs[0]); p != "" {
			return p, "dead"
		}
		full := true
		for _, e := range hist {
			if p := exch(e); p != "" {
				return p, "dead"
			}
			full = full && e.full
		}
		up.mu.Lock()
		conns := up.conns
		up.mu.Unlock()
		if full && conns != 1 {
			return fmt.Sprintf("complete exchanges one after the other took %d upstream connections", conns), "conns"
		}
		time.Sleep(2200 * ms)
		up.closeAll()
		socks := 0
		for i := 0; i < 20; i++ {
			time.Sleep(100 * ms)
			if socks = nfds(s.cmd.Process.Pid); socks <= baseSocks() {
				break
			}
		}
		if socks > baseSocks() {
			return fmt.Sprintf("%d sockets are left, %d belong to the server", socks, baseSocks()), "sockets"
		}
		st := s.stacks()
		if b := baseGos(); len(st) == 0 || len(st) > b {
			return fmt.Sprintf("%d goroutines are left instead of %d:\n%s", len(st), b, strings.Join(st, "\n\n")), "goroutines"
		}
		return "", fmt.Sprintf("%d conns", conns)
	}
	base := func() {
		// what a server has that served one plain exchange
		up := newXUp()
		defer up.ln.Close()
		s := mustBoot(wYml(up.port, 2, sec, 2*sec, false), "GOTRACEBACK=all")
		c := dialRaw(s.addr())
		io.WriteString(c, "GET /api/x HTTP/1.1\r\nHost: gw\r\n\r\n")
		c.readResp("GET", 5*sec)
		c.Close()
		time.Sleep(2300 * ms)
		up.closeAll()
		time.Sleep(500 * ms)
		wSocks = nfds(s.cmd.Process.Pid)
		wGos = len(s.stacks())
		s.stop()
	}
	base()
	R.Note("baseline_sockets", wSocks)
	R.Note("baseline_goroutines", wGos)
	g := newGroup(24)
	for _, e := range evs {
		e := e
		for _, n := range []int{1, 8} {
			if n > 1 && e.n != "ok" {
				n = 4
			}
			h := make([]ev, n)
			for i := range h {
				h[i] = e
			}
			g.do(fmt.Sprintf("%d times %s", n, e.n), func() (string, string) { return play(h) })
		}
	}
	for _, a := range evs {
		for _, b := range evs {
			if a.n == b.n || a.n == "ok" || !thorough() && !(a.full && b.full) && h64(a.n+b.n)%3 != 0 {
				continue
			}
			h := []ev{a, b}
			g.do(a.n+", "+b.n, func() (string, string) { return play(h) })
			if thorough() && a.full && b.full {
				for _, c := range evs[:14] {
					h := []ev{a, b, c}
					g.do(a.n+", "+b.n+", "+c.n, func() (string, string) { return play(h) })
				}
			}
		}
	}
	g.wait()
}

var wSocks, wGos int

func baseSocks() int { return wSocks }
func baseGos() int   { return wGos }
