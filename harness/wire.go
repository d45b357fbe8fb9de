//go:build go1.21

package j8a

// Wire level engine: runs the real server binary as a process of its own, speaks raw bytes to it as a
// client and plays the upstreams byte for byte.

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- server process ----

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
func (l *lockedBuf) Reset() {
	l.mu.Lock()
	l.b.Reset()
	l.mu.Unlock()
}

type proc struct {
	cmd  *exec.Cmd
	out  *lockedBuf
	done chan struct{}
	code int
}

// launch starts the server binary with these arguments and environment additions in directory dir
func launch(dir string, args []string, env ...string) *proc {
	p := &proc{out: &lockedBuf{}, done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_J8A"), args...)
	for i, e := range env { // a server that may not open more than so many files
		if strings.HasPrefix(e, "@nofile=") {
			p.cmd = exec.Command("/bin/sh", append([]string{"-c", "ulimit -n " + e[8:] + " && exec \"$0\" \"$@\"", os.Getenv("VERIF_J8A")}, args...)...)
			env = append(append([]string(nil), env[:i]...), env[i+1:]...)
			break
		}
	}
	p.cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "J8ACFG") {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=2")
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	if err := p.cmd.Start(); err != nil {
		panic("cannot start server: " + err.Error())
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// wait returns whether the process ended by itself within d
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

var portNext int

// freePort hands out ports of a range of this shard's own, below the ephemeral ones
func freePort() int {
	base := 10000 + atoi(os.Getenv("VERIF_SHARD"), 0)%8*2500
	for {
		p := base + portNext%2500
		portNext++
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

type srv struct {
	*proc
	port int
	yml  string
	env  []string
	tls  bool
}

// boot starts a server; {{PORT}} in yml is replaced by a free port. nil when it did not come up.
func boot(yml string, env ...string) *srv {
	for try := 0; try < 5; try++ {
		s := &srv{port: freePort(), yml: yml, env: env}
		y := strings.ReplaceAll(yml, "{{PORT}}", strconv.Itoa(s.port))
		s.proc = launch(".", nil, append([]string{"J8ACFG_YML=" + y}, env...)...)
		for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
			if s.exited() {
				break
			}
			c, err := net.Dial("tcp", s.addr())
			if err == nil {
				c.Close()
				if s.exited() {
					break
				}
				return s
			}
			time.Sleep(2 * time.Millisecond)
		}
		s.stop()
		if !strings.Contains(s.out.String(), "address already in use") {
			fmt.Println("server did not come up:", s.out.String())
			return nil
		}
	}
	return nil
}

func mustBoot(yml string, env ...string) *srv {
	s := boot(yml, env...)
	if s == nil {
		R.Violate(curCase, "the server did not start with a legal configuration: %s", yml)
		R.Exit()
	}
	return s
}

func (s *srv) addr() string { return fmt.Sprintf("127.0.0.1:%d", s.port) }

// ---- raw client ----

type wconn struct {
	net.Conn
	r     *bufio.Reader
	fresh bool
}

func dialRaw(addr string) *wconn {
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.(*net.TCPConn).SetLinger(0)
			return &wconn{Conn: c, r: bufio.NewReaderSize(c, 65536), fresh: true}
		}
		if i > 50 {
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// wresp is a response as it came over the wire
type wresp struct {
	Line   string
	Status int
	Hdr    [][2]string
	Body   []byte
	CL     int64 // -1 without
	Chunk  bool
	Close  bool // body was delimited by the end of the connection, or Connection: close
	Err    error
}

func (w *wresp) get(name string) []string {
	var out []string
	for _, h := range w.Hdr {
		if strings.EqualFold(h[0], name) {
			out = append(out, h[1])
		}
	}
	return out
}

func (w *wresp) one(name string) string {
	v := w.get(name)
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func (w *wresp) String() string {
	if w == nil {
		return "none"
	}
	if w.Err != nil {
		return "error: " + w.Err.Error()
	}
	b := string(w.Body)
	if len(b) > 200 {
		b = b[:200] + "..."
	}
	return fmt.Sprintf("%s %q body %d %q", w.Line, w.Hdr, len(w.Body), b)
}

var errNoResp = errors.New("connection closed without a response")

func readLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		return s, err
	}
	return strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r"), nil
}

func readHead(r *bufio.Reader) (line string, hdr [][2]string, err error) {
	if line, err = readLine(r); err != nil {
		return
	}
	for {
		l, e := readLine(r)
		if e != nil {
			return line, hdr, fmt.Errorf("broken header section: %v", e)
		}
		if l == "" {
			return
		}
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			return line, hdr, fmt.Errorf("malformed header line %q", l)
		}
		hdr = append(hdr, [2]string{l[:i], strings.Trim(l[i+1:], " \t")})
	}
}

func readChunked(r *bufio.Reader) ([]byte, error) {
	var body []byte
	for {
		l, err := readLine(r)
		if err != nil {
			return body, err
		}
		n, err := strconv.ParseInt(strings.TrimSpace(strings.SplitN(l, ";", 2)[0]), 16, 32)
		if err != nil {
			return body, fmt.Errorf("bad chunk size %q", l)
		}
		if n == 0 {
			for {
				l, err := readLine(r)
				if err != nil {
					return body, err
				}
				if l == "" {
					return body, nil
				}
			}
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(r, buf); err != nil {
			return body, err
		}
		body = append(body, buf...)
		if l, err := readLine(r); err != nil || l != "" {
			return body, fmt.Errorf("chunk not terminated: %q %v", l, err)
		}
	}
}

// readResp reads one response to a request of this method
func (c *wconn) readResp(method string, patience time.Duration) *wresp {
	w := &wresp{CL: -1}
	c.SetReadDeadline(time.Now().Add(patience))
	defer c.SetReadDeadline(time.Time{})
	line, hdr, err := readHead(c.r)
	if err != nil {
		if line == "" && hdr == nil {
			w.Err = errNoResp
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				w.Err = fmt.Errorf("no response within %v", patience)
			}
		} else {
			w.Err = fmt.Errorf("%q: %v", line, err)
		}
		return w
	}
	w.Line, w.Hdr = line, hdr
	f := strings.SplitN(line, " ", 3)
	if len(f) < 2 || !strings.HasPrefix(f[0], "HTTP/1.") || len(f[1]) != 3 {
		w.Err = fmt.Errorf("malformed status line %q", line)
		return w
	}
	if w.Status, err = strconv.Atoi(f[1]); err != nil {
		w.Err = fmt.Errorf("malformed status line %q", line)
		return w
	}
	if w.Status >= 100 && w.Status < 200 && w.Status != 101 {
		return c.readResp(method, patience)
	}
	for _, v := range w.get("Connection") {
		if strings.EqualFold(v, "close") {
			w.Close = true
		}
	}
	if cl := w.get("Content-Length"); len(cl) > 0 {
		for _, v := range cl {
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil || n < 0 || (w.CL >= 0 && n != w.CL) {
				w.Err = fmt.Errorf("malformed Content-Length %q", cl)
				return w
			}
			w.CL = n
		}
	}
	for _, v := range w.get("Transfer-Encoding") {
		if strings.EqualFold(v, "chunked") {
			w.Chunk = true
		}
	}
	switch {
	case method == "HEAD" || w.Status == 204 || w.Status == 304 || w.Status < 200:
	case method == "CONNECT" && w.Status < 300:
	case w.Chunk:
		w.Body, w.Err = readChunked(c.r)
	case w.CL >= 0:
		w.Body = make([]byte, w.CL)
		n, err := io.ReadFull(c.r, w.Body)
		w.Body = w.Body[:n]
		if err != nil {
			w.Err = fmt.Errorf("body ended after %d of %d bytes: %v", n, w.CL, err)
		}
	default:
		w.Body, w.Err = io.ReadAll(c.r)
		w.Close = true
	}
	if len(f[0]) == 8 && f[0][7] == '0' && !strings.EqualFold(w.one("Connection"), "keep-alive") {
		w.Close = true
	}
	return w
}

// wclient keeps one connection to a server for reuse
type wclient struct {
	addr string
	c    *wconn
	tls  *tls.Config
}

func (w *wclient) drop() {
	if w.c != nil {
		w.c.Close()
		w.c = nil
	}
}

func (w *wclient) conn() *wconn {
	if w.c == nil {
		w.c = dialRaw(w.addr)
		if w.c != nil && w.tls != nil {
			tc := tls.Client(w.c.Conn, w.tls)
			if tc.Handshake() != nil {
				w.drop()
				return nil
			}
			w.c = &wconn{Conn: tc, r: bufio.NewReaderSize(tc, 65536), fresh: true}
		}
	}
	return w.c
}

// do sends raw and reads the response
func (w *wclient) do(method string, raw string) *wresp {
	for {
		c := w.conn()
		if c == nil {
			return &wresp{Err: errors.New("cannot connect")}
		}
		fresh := c.fresh
		c.fresh = false
		c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		_, err := io.WriteString(c, raw)
		var r *wresp
		r = c.readResp(method, 10*time.Second)
		if (err != nil || r.Err == errNoResp) && !fresh {
			// the server had closed the idle connection
			w.drop()
			continue
		}
		if r.Err != nil || r.Close || c.r.Buffered() > 0 {
			if r.Err == nil && !r.Close && c.r.Buffered() > 0 {
				b, _ := c.r.Peek(c.r.Buffered())
				r.Err = fmt.Errorf("bytes follow the response: %q", b)
			}
			w.drop()
		}
		return r
	}
}

// ---- raw upstream ----

type upReq struct {
	Conn    int
	N       int // how many-th of its case
	Case    string
	Line    string
	Method  string
	Target  string
	Hdr     [][2]string
	Body    []byte
	BodyErr error
	Done    bool
	Head    string
}

func (u *upReq) get(name string) []string {
	var out []string
	for _, h := range u.Hdr {
		if strings.EqualFold(h[0], name) {
			out = append(out, h[1])
		}
	}
	return out
}

func (u *upReq) String() string {
	b := string(u.Body)
	if len(b) > 200 {
		b = b[:200] + "..."
	}
	return fmt.Sprintf("%s %q body %d %q", u.Line, u.Hdr, len(u.Body), b)
}

// upAct is what the upstream does with a request
type upAct struct {
	Raw   string
	Close bool          // close the connection afterwards
	Reset bool          // hard
	Delay time.Duration // before Raw
	Hang  bool          // never answer, keep the connection until it is closed by the peer
}

type rawUp struct {
	ln     net.Listener
	port   int
	name   string
	mu     sync.Mutex
	script func(q *upReq) upAct
	seen   []*upReq
	conns  int
	badTLS int
	tlsc   *tls.Config
}

func newRawUp(name string, tlsc *tls.Config) *rawUp {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return serveRawUp(name, ln, tlsc)
}

func serveRawUp(name string, ln net.Listener, tlsc *tls.Config) *rawUp {
	u := &rawUp{ln: ln, name: name, port: ln.Addr().(*net.TCPAddr).Port, tlsc: tlsc}
	u.script = func(*upReq) upAct { return ok200("ok") }
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			u.mu.Lock()
			u.conns++
			id := u.conns
			u.mu.Unlock()
			go u.serve(c, id)
		}
	}()
	return u
}

func ok200(body string) upAct {
	return upAct{Raw: fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(body), body)}
}

func (u *rawUp) serve(c net.Conn, id int) {
	defer c.Close()
	raw := c
	if u.tlsc != nil {
		t := tls.Server(c, u.tlsc)
		t.SetDeadline(time.Now().Add(10 * time.Second))
		if err := t.Handshake(); err != nil {
			u.mu.Lock()
			u.badTLS++
			u.mu.Unlock()
			return
		}
		t.SetDeadline(time.Time{})
		c = t
	}
	var tee bytes.Buffer
	r := bufio.NewReaderSize(io.TeeReader(c, &tee), 65536)
	for {
		if _, err := r.Peek(1); err != nil {
			return
		}
		q := &upReq{Conn: id}
		line, hdr, err := readHead(r)
		q.Line, q.Hdr = line, hdr
		f := strings.SplitN(line, " ", 3)
		if len(f) == 3 {
			q.Method, q.Target = f[0], f[1]
		}
		if v := q.get("X-Case"); len(v) > 0 {
			q.Case = v[0]
		}
		if err != nil {
			q.BodyErr = err
		}
		u.mu.Lock()
		for _, o := range u.seen {
			if o.Case == q.Case {
				q.N++
			}
		}
		q.N++
		u.seen = append(u.seen, q)
		script := u.script
		u.mu.Unlock()
		if err == nil {
			cl := q.get("Content-Length")
			var body []byte
			if te := q.get("Transfer-Encoding"); len(te) > 0 {
				body, err = readChunked(r)
			} else if len(cl) > 0 {
				n, _ := strconv.ParseInt(cl[0], 10, 64)
				body = make([]byte, n)
				var m int
				m, err = io.ReadFull(r, body)
				body = body[:m]
			}
			u.mu.Lock()
			q.Body, q.BodyErr, q.Done = body, err, true
			u.mu.Unlock()
		}
		if err != nil {
			return
		}
		a := script(q)
		if a.Hang {
			r.Peek(1)
			return
		}
		if a.Delay > 0 {
			time.Sleep(a.Delay)
		}
		if _, err := io.WriteString(c, a.Raw); err != nil {
			return
		}
		if a.Reset {
			if tc, ok := raw.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
			return
		}
		if a.Close {
			return
		}
	}
}

// take returns and forgets the requests of this case
func (u *rawUp) take(id string) []*upReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	var mine, rest []*upReq
	for _, q := range u.seen {
		if q.Case == id {
			cp := *q
			mine = append(mine, &cp)
		} else {
			rest = append(rest, q)
		}
	}
	u.seen = rest
	return mine
}

func (u *rawUp) set(f func(q *upReq) upAct) {
	u.mu.Lock()
	u.script = f
	u.mu.Unlock()
}

// ---- cases ----

// wireCase runs f if the case is this shard's and reports what it found
func wireCase(key string, f func() (problem, outcome string)) {
	if !R.Mine(key) {
		return
	}
	R.Before(key)
	curCase = key
	p, o := f()
	if p != "" {
		R.Violate(key, "%s", p)
	}
	R.Steps += 2
	R.Validated++
	R.Ran(key, o, true)
}

// jsonBody checks a generated body, already decoded
func generatedOK(w *wresp, method string) string {
	if ct := w.get("Content-Type"); len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return fmt.Sprintf("generated response has content type %q", ct)
	}
	if method == "HEAD" {
		return ""
	}
	dec, rest, err := refDecode(strings.Join(w.get("Content-Encoding"), ","), w.Body)
	if err != nil || len(rest) > 0 {
		return fmt.Sprintf("body does not decode by its label: %v %v", rest, err)
	}
	return jsonOK(dec, w.Status)
}

func tmpFile(name string, data []byte) string {
	d := filepath.Join(os.Getenv("VERIF_TMP"), "f-"+strconv.Itoa(os.Getpid()))
	os.MkdirAll(d, 0755)
	f := filepath.Join(d, name)
	if err := os.WriteFile(f, data, 0644); err != nil {
		panic(err)
	}
	return f
}
