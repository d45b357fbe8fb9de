//go:build go1.21

package j8a

// Exchange engine: runs one downstream request through the real proxyHandler against scripted
// upstream attempts in virtual time, plus the nondeterministic reference model of what may happen.

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

const never = time.Duration(-1)

// Att scripts the behaviour of one upstream attempt
type Att struct {
	H      time.Duration // response headers (or error) arrive this long after the attempt starts
	Err    bool          // transport error instead of headers
	Status int
	B      time.Duration // body completes this long after the headers
	BErr   bool          // body ends with an error
	Gz     bool          // body is gzip encoded
	Empty  bool          // no body
	Deaf   bool          // does not notice cancellation before its own event is due
	Hdr    string        // one more response header, name: value
}

func (a Att) String() string {
	d := func(x time.Duration) string {
		if x == never {
			return "never"
		}
		return x.String()
	}
	s := "h" + d(a.H)
	if a.Err {
		s += ",err"
	} else {
		s += fmt.Sprintf(",%d,b%s", a.Status, d(a.B))
		if a.BErr {
			s += ",bodyerr"
		}
		if a.Gz {
			s += ",gz"
		}
		if a.Empty {
			s += ",empty"
		}
		if a.Hdr != "" {
			s += "," + a.Hdr
		}
	}
	if a.Deaf {
		s += ",deaf"
	}
	return "[" + s + "]"
}

// Scen is one exchange
type Scen struct {
	Method   string
	Body     string
	Hdr      http.Header
	Target   string
	Max      int
	T, RT    time.Duration // attempt and round trip timeout
	Atts     []Att         // attempts beyond the list repeat the last entry
	ClientGz bool
	Tag      string // distinguishes concurrent requests
	Delay    time.Duration
	WantURL  string // upstream target, default that of the api route
	Deny     int    // the gateway refuses with this status without any attempt
	Dice     float64
}

func (s Scen) Key() string {
	k := fmt.Sprintf("%s max%d T%v RT%v gz%v", s.Method, s.Max, s.T, s.RT, s.ClientGz)
	for _, a := range s.Atts {
		k += " " + a.String()
	}
	if s.Tag != "" {
		k += " tag" + s.Tag
	}
	if s.Target != "" {
		k += " " + s.Target
	}
	if s.Body != "" {
		k += fmt.Sprintf(" body%d", len(s.Body))
	}
	if s.Deny != 0 {
		k += fmt.Sprintf(" deny%d", s.Deny)
	}
	return k
}

func (s Scen) att(n int) Att { // n from 1
	if n > len(s.Atts) {
		return s.Atts[len(s.Atts)-1]
	}
	return s.Atts[n-1]
}

// plain is the decoded entity upstream attempt n serves
func (s Scen) plain(n int) string {
	if s.att(n).Empty {
		return ""
	}
	return fmt.Sprintf(`{"attempt":%d,"tag":"%s","pad":"%s"}`, n, s.Tag, strings.Repeat(string(rune('a'+n)), 20+7*n))
}

// Seen records what one upstream attempt received and what became of it
type Seen struct {
	N        int
	At       time.Duration // since request start
	Method   string
	URL      string
	Hdr      http.Header
	Body     string
	CL       int64
	Host     string
	Ctx      context.Context
	Canceled time.Duration // when its context was cancelled, or never
	Returned bool          // headers were handed over
	Closed   int           // Close calls on the body
	EndAt    time.Duration // when Do or the body ended
	Overlap  bool          // another attempt was still being worked on by us
	Released bool          // its context had been released in the end
}

// rwRec records everything written downstream
type rwRec struct {
	mu      sync.Mutex
	hdr     http.Header
	Codes   []int
	Sent    http.Header // headers at the time of WriteHeader
	Buf     bytes.Buffer
	Writes  int
	At      time.Duration
	start   time.Time
	LateHdr bool
}

func newRec() *rwRec                 { return &rwRec{hdr: http.Header{}, start: time.Now()} }
func (r *rwRec) Header() http.Header { return r.hdr }
func (r *rwRec) WriteHeader(code int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Codes = append(r.Codes, code)
	if len(r.Codes) == 1 {
		r.Sent = r.hdr.Clone()
		r.At = time.Since(r.start)
	}
}
func (r *rwRec) Write(p []byte) (int, error) {
	r.mu.Lock()
	none := len(r.Codes) == 0
	r.mu.Unlock()
	if none {
		r.WriteHeader(200)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Writes++
	return r.Buf.Write(p)
}

// upBody is the body of a scripted upstream response
type upBody struct {
	u    *upstream
	seen *Seen
	att  Att
	data []byte
	off  int
	due  time.Time
	ctx  context.Context
}

var errBody = errors.New("unexpected EOF in scripted body")

// wait blocks until due (or forever), or until ctx is done. Returns false if ctx came first.
func vwait(ctx context.Context, due time.Time, forever, deaf bool, loc string) bool {
	var tc <-chan struct{}
	ch := make(chan struct{})
	if !forever {
		if d := time.Until(due); d <= 0 {
			close(ch)
		} else {
			t := time.AfterFunc(d, func() { close(ch) })
			defer t.Stop()
		}
		tc = ch
	}
	if deaf && !forever {
		<-tc
		vsPoint(loc)
		return true
	}
	a, b := vsRecv(tc), vsRecv(ctx.Done())
	i := vsSelect(loc, false, a, b)
	vsPoint(loc)
	return i == 0
}

func (b *upBody) Read(p []byte) (int, error) {
	// half of the body is there at once, the rest when due
	half := len(b.data) / 2
	if b.off < half {
		n := copy(p, b.data[b.off:half])
		b.off += n
		return n, nil
	}
	if b.off == half || b.att.B == never || b.att.BErr {
		if !vwait(b.ctx, b.due, b.att.B == never, b.att.Deaf, "upstream body") {
			b.u.end(b.seen)
			return 0, b.ctx.Err()
		}
		if b.att.BErr {
			b.u.end(b.seen)
			return 0, errBody
		}
	}
	n := copy(p, b.data[b.off:])
	b.off += n
	if b.off >= len(b.data) {
		b.u.end(b.seen)
		return n, io.EOF
	}
	return n, nil
}

func (b *upBody) Close() error {
	b.u.mu.Lock()
	b.seen.Closed++
	b.u.mu.Unlock()
	return nil
}

// upstream plays all scripted upstreams of an execution; requests are told apart by their X-Tag header
type upstream struct {
	mu    sync.Mutex
	scens map[string]Scen
	start map[string]time.Time
	seen  map[string][]*Seen
}

func (u *upstream) end(s *Seen) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if s.EndAt == never {
		s.EndAt = time.Since(u.start[s.Hdr.Get("X-Tag")])
	}
}

func (u *upstream) Get(uri string) (*http.Response, error) { return nil, errors.New("not scripted") }

func (u *upstream) Do(req *http.Request) (*http.Response, error) {
	tag := req.Header.Get("X-Tag")
	u.mu.Lock()
	sc, known := u.scens[tag]
	n := len(u.seen[tag]) + 1
	s := &Seen{N: n, At: time.Since(u.start[tag]), Method: req.Method, URL: req.URL.String(), Hdr: req.Header.Clone(), CL: req.ContentLength, Host: req.Host, Canceled: never, EndAt: never, Ctx: req.Context()}
	for _, o := range u.seen[tag] {
		if o.EndAt == never && o.Ctx.Err() == nil {
			s.Overlap = true
		}
	}
	u.seen[tag] = append(u.seen[tag], s)
	u.mu.Unlock()
	if !known {
		return nil, errors.New("unknown tag " + tag)
	}
	st := u.start[tag]
	context.AfterFunc(req.Context(), func() {
		u.mu.Lock()
		s.Canceled = time.Since(st)
		u.mu.Unlock()
	})
	if req.Body != nil {
		b, _ := ioutil.ReadAll(req.Body)
		s.Body = string(b)
	}
	vsPoint("upstream request")
	a := sc.att(n)
	due := time.Now().Add(a.H)
	if !vwait(req.Context(), due, a.H == never, a.Deaf, "upstream header") {
		u.end(s)
		return nil, req.Context().Err()
	}
	if a.Err {
		u.end(s)
		return nil, errors.New("scripted transport error")
	}
	data := []byte(sc.plain(n))
	h := http.Header{}
	h.Set("Content-Type", "application/json")
	h.Set("X-Att", fmt.Sprint(n))
	h.Add(fmt.Sprintf("X-Only-%d", n), "v")
	h.Set("X-Tag", tag)
	if n, v, ok := strings.Cut(a.Hdr, ": "); ok {
		h.Set(n, v)
	}
	if a.Gz && len(data) > 0 {
		data = refGzip(data)
		h.Set("Content-Encoding", "gzip")
	}
	u.mu.Lock()
	s.Returned = true
	u.mu.Unlock()
	var body io.ReadCloser = &upBody{u: u, seen: s, att: a, data: data, due: time.Now().Add(a.B), ctx: req.Context()}
	res := &http.Response{StatusCode: a.Status, Status: fmt.Sprint(a.Status, " Scripted"), Proto: "HTTP/1.1", Header: h, Body: body, Request: req, ProtoMajor: 1, ProtoMinor: 1}
	if n%2 == 1 {
		// with a declared length, every other attempt is chunked
		res.ContentLength = int64(len(data))
		h.Set("Content-Length", fmt.Sprint(len(data)))
	} else {
		res.ContentLength, res.TransferEncoding = -1, []string{"chunked"}
	}
	return res, nil
}

// Obs is what one exchange looked like from outside
type Obs struct {
	Rec  *rwRec
	Seen []*Seen
	Done time.Duration // handler returned, or never
	Pan  string
	// how often each attempt's body had been closed when the handler returned
	ClosedAtDone []int
}

func (s Scen) request() *http.Request {
	var rd io.Reader
	if s.Body != "" {
		rd = strings.NewReader(s.Body)
	}
	tgt := s.Target
	if tgt == "" {
		tgt = "/api/x?q=1"
	}
	req := httptest.NewRequest(s.Method, tgt, rd)
	for k, v := range s.Hdr {
		req.Header[k] = v
	}
	req.Header.Set("X-Tag", s.Tag)
	req.Header.Set("X-Probe", "p"+s.Tag)
	if s.ClientGz {
		req.Header.Set("Accept-Encoding", "gzip")
	}
	return req
}

// pxYml is the configuration all exchanges run with; every route leads to a host of its own
func pxYml(s Scen) string {
	return fmt.Sprintf(`
connection:
  downstream: {roundTripTimeoutSeconds: %d, maxBodyBytes: 4096}
  upstream: {readTimeoutSeconds: %d, maxAttempts: %d}
policies:
  ab: [{label: a, weight: 0.7}, {label: b, weight: 0.3}]
jwt:
  hs: {alg: HS256, key: "0123456789abcdef0123456789abcdef"}
routes:
  - {path: /api, resource: api}
  - {path: /sec, resource: sec, jwt: hs}
  - {path: /tr, resource: tr, transform: /v2}
  - {path: /pol, resource: pol, policy: ab}
resources:
  api: [{url: {scheme: http, host: api.test, port: 8001}}]
  sec: [{url: {scheme: http, host: sec.test, port: 8002}}]
  tr: [{url: {scheme: http, host: tr.test, port: 8003}}]
  pol:
    - {labels: [a], url: {scheme: http, host: a.test, port: 8004}}
    - {labels: [b], url: {scheme: http, host: b.test, port: 8005}}
`, int(s.RT/time.Second), int(s.T/time.Second), s.Max)
}

const pxSecret = "0123456789abcdef0123456789abcdef"

// hsToken signs claims with HS256, independent of the library under test
func hsToken(hdr, claims, secret string) string {
	e := base64.RawURLEncoding
	in := e.EncodeToString([]byte(hdr)) + "." + e.EncodeToString([]byte(claims))
	m := hmac.New(sha256.New, []byte(secret))
	m.Write([]byte(in))
	return in + "." + e.EncodeToString(m.Sum(nil))
}

// faithful compares what an upstream attempt received with the client's request
func (s Scen) faithful(o *Obs) string {
	rid := ""
	for i, x := range o.Seen {
		want := s.WantURL
		if want == "" {
			want = "http://api.test:8001/api/x?q=1"
		}
		if x.Method != s.Method {
			return fmt.Sprintf("attempt %d has method %s", i+1, x.Method)
		}
		if x.URL != want {
			return fmt.Sprintf("attempt %d went to %s instead of %s", i+1, x.URL, want)
		}
		if x.Body != s.Body {
			return fmt.Sprintf("attempt %d carried body %q instead of %q", i+1, x.Body, s.Body)
		}
		if x.CL > 0 && x.CL != int64(len(s.Body)) {
			return fmt.Sprintf("attempt %d declared %d body bytes", i+1, x.CL)
		}
		if x.Overlap {
			return fmt.Sprintf("attempt %d was started while an earlier one was neither over nor cancelled", i+1)
		}
		r := x.Hdr.Values(XRequestID)
		if len(r) != 1 || r[0] == "" || (rid != "" && r[0] != rid) {
			return fmt.Sprintf("attempt %d has request id %q, before it was %q", i+1, r, rid)
		}
		rid = r[0]
		wantH := s.request().Header
		if v := wantH.Get(XRequestID); v != "" && v != rid {
			return fmt.Sprintf("attempt %d has request id %s instead of the client's %s", i+1, rid, v)
		}
		for k, v := range wantH {
			if k == XRequestID {
				continue
			}
			if strings.Join(x.Hdr[k], "|") != strings.Join(v, "|") {
				return fmt.Sprintf("attempt %d has header %s %q instead of %q", i+1, k, x.Hdr[k], v)
			}
		}
		for k := range x.Hdr {
			if _, ok := wantH[k]; !ok && k != XRequestID {
				return fmt.Sprintf("attempt %d carries header %s the client did not send", i+1, k)
			}
		}
	}
	if o.Rec != nil && o.Rec.Sent != nil {
		r := o.Rec.Sent.Values(XRequestID)
		if len(r) == 0 || (rid != "" && r[0] != rid) {
			return fmt.Sprintf("response carries request id %q, the upstream got %q", r, rid)
		}
		if v := s.Hdr.Get(XRequestID); v != "" && r[0] != v {
			return fmt.Sprintf("response carries request id %q instead of the client's %s", r, v)
		}
	}
	return ""
}

// pxRun runs the exchanges concurrently in one bubble. ctl may be nil for an uncontrolled run.
func pxRun(t *testing.T, ctl *vsCtl, rt *Runtime, scens []Scen, horizon time.Duration) (obs []*Obs, left []string) {
	synctest.Test(t, func(t *testing.T) {
		u := &upstream{scens: map[string]Scen{}, start: map[string]time.Time{}, seen: map[string][]*Seen{}}
		if ctl != nil {
			vsResetGlobals()
			vsResetGlobals()
			if warmIpr != nil {
				ipr = *warmIpr
			}
		}
		Runner = rt
		httpClient = u
		var tasks []func()
		for _, s := range scens {
			s := s
			o := &Obs{Done: never}
			obs = append(obs, o)
			u.scens[s.Tag] = s
			tasks = append(tasks, func() {
				if s.Delay > 0 {
					time.Sleep(s.Delay)
				}
				start := time.Now()
				u.mu.Lock()
				u.start[s.Tag] = start
				u.mu.Unlock()
				o.Rec = newRec()
				defer func() {
					if e := recover(); e != nil {
						o.Pan = fmt.Sprint(e) + "\n" + vsStack()
					}
				}()
				proxyHandler(o.Rec, s.request())
				o.Done = time.Since(start)
				u.mu.Lock()
				for _, x := range u.seen[s.Tag] {
					o.ClosedAtDone = append(o.ClosedAtDone, x.Closed)
				}
				u.mu.Unlock()
			})
		}
		if ctl != nil {
			ctl.run(horizon, tasks...)
			left = ctl.liveIDs()
		} else {
			before := runtime.NumGoroutine()
			var wg sync.WaitGroup
			for _, f := range tasks {
				wg.Add(1)
				go func(f func()) { defer wg.Done(); f() }(f)
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			tm := time.NewTimer(horizon)
			select {
			case <-done:
				// let the configured timeouts pass so that everything can end
				<-tm.C
			case <-tm.C:
				left = append(left, "handler")
			}
			tm.Stop()
			synctest.Wait()
			if n := runtime.NumGoroutine(); n > before && len(left) == 0 {
				left = append(left, fmt.Sprintf("%d goroutines", n-before))
			}
		}
		synctest.Wait()
		for i, s := range scens {
			u.mu.Lock()
			obs[i].Seen = append([]*Seen(nil), u.seen[s.Tag]...)
			for _, x := range obs[i].Seen {
				x.Released = x.Ctx.Err() != nil
			}
			u.mu.Unlock()
		}
		if len(left) > 0 || (ctl != nil && ctl.tooLong) {
			// goroutines that never end would take the process down when the bubble closes
			R.Violate(curCase, "request handling did not end within %v of virtual time, still alive: %v", horizon, left)
			R.Exit()
		}
	})
	return
}

var curCase string

// warmIpr, where set, spares executions the compilation of the address parser's expressions
var warmIpr *iprex

// ---- reference model ----

// Allowed is one outcome the reference model permits
type Allowed struct {
	Code     int           // downstream status
	From     int           // attempt whose answer is proxied, 0 for a gateway generated response
	Attempts int           // attempts made
	At       time.Duration // time of the response
}

func repeatable(m string) bool {
	switch m {
	case "GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE":
		return true
	}
	return false
}

type mstate struct {
	n  int
	at time.Duration
}

// model enumerates all outcomes of the scenario; events at the same instant may be taken in any order.
func (s Scen) model() (out map[Allowed]bool, states int) {
	out = map[Allowed]bool{}
	if s.Deny != 0 {
		out[Allowed{s.Deny, 0, 0, 0}] = true
		return out, 1
	}
	seen := map[mstate]bool{}
	var attempt func(n int, st time.Duration)
	fail := func(n int, at time.Duration, timedOut bool, maybeTimedOut bool) {
		tie := at == s.RT
		if at < s.RT || tie {
			if repeatable(s.Method) && n < s.Max {
				attempt(n+1, at)
			} else {
				if !timedOut || (maybeTimedOut && !timedOut) {
					out[Allowed{502, 0, n, at}] = true
				}
				if timedOut || maybeTimedOut {
					out[Allowed{504, 0, n, at}] = true
				}
			}
		}
		if at >= s.RT {
			out[Allowed{504, 0, n, at}] = true
		}
	}
	attempt = func(n int, st time.Duration) {
		k := mstate{n, st}
		if seen[k] {
			return
		}
		seen[k] = true
		a := s.att(n)
		d1 := st + s.T
		dl := d1
		if s.RT < dl {
			dl = s.RT
		}
		timeout := func(made int) {
			// earliest deadline passes
			if s.RT <= d1 {
				out[Allowed{504, 0, made, s.RT}] = true
			}
			if d1 <= s.RT {
				fail(made, d1, true, true)
			}
		}
		h := st + a.H
		if a.H == never || h >= dl {
			timeout(n)
		}
		if a.H != never && h <= dl {
			tie := h == dl
			if a.Err {
				fail(n, h, false, tie)
				return
			}
			b := h + a.B
			if a.B == never || b >= dl {
				timeout(n)
			}
			if a.B != never && b <= dl {
				tie = b == dl
				switch {
				case a.BErr:
					fail(n, b, false, tie)
				case a.Status >= 500:
					fail(n, b, false, tie)
				case a.Status >= 400:
					out[Allowed{a.Status, 0, n, b}] = true
				default:
					out[Allowed{a.Status, n, n, b}] = true
				}
			}
		}
	}
	attempt(1, 0)
	return out, len(seen)
}

// judge compares an observation with the model and checks coherence of the response
func (s Scen) judge(o *Obs, allowed map[Allowed]bool) (problem, outcome string) {
	if o.Pan != "" {
		return "handler panicked: " + o.Pan, "panic"
	}
	r := o.Rec
	if o.Done == never || r == nil {
		return "handler never returned", "hang"
	}
	if len(r.Codes) != 1 {
		return fmt.Sprintf("status line written %d times: %v", len(r.Codes), r.Codes), "codes"
	}
	got := Allowed{Code: r.Codes[0], Attempts: len(o.Seen), At: r.At}
	att := r.Sent["X-Att"]
	if len(att) > 1 {
		return fmt.Sprintf("headers of several attempts in one response: %v", r.Sent), "mixed"
	}
	if len(att) == 1 {
		fmt.Sscan(att[0], &got.From)
	}
	outcome = fmt.Sprintf("%+v body=%d", got, r.Buf.Len())
	if !allowed[got] {
		var l []string
		for a := range allowed {
			l = append(l, fmt.Sprintf("%+v", a))
		}
		sort.Strings(l)
		return fmt.Sprintf("observed %+v, allowed are only %v", got, l), outcome
	}
	if p := s.coherent(o, got); p != "" {
		return p, outcome
	}
	if p := s.faithful(o); p != "" {
		return p, outcome
	}
	return "", outcome
}

func (s Scen) coherent(o *Obs, got Allowed) string {
	r := o.Rec
	for k := range r.Sent {
		if strings.HasPrefix(k, "X-Only-") && k != fmt.Sprintf("X-Only-%d", got.From) {
			return fmt.Sprintf("response of attempt %d carries header %s of another attempt", got.From, k)
		}
	}
	if v := r.Sent["X-Tag"]; got.From > 0 && (len(v) != 1 || v[0] != s.Tag) {
		return fmt.Sprintf("response carries headers of another request: %v", v)
	}
	label := strings.Join(r.Sent["Content-Encoding"], ", ")
	body := r.Buf.Bytes()
	if s.Method != "HEAD" {
		if cl := r.Sent["Content-Length"]; len(cl) > 0 && s.Method != "CONNECT" && got.Code != 204 {
			if len(cl) != 1 || cl[0] != fmt.Sprint(len(body)) {
				return fmt.Sprintf("Content-Length %v but %d body bytes", cl, len(body))
			}
		}
	}
	dec, rest, err := refDecode(label, body)
	if err != nil || len(rest) > 0 {
		return fmt.Sprintf("body %q does not decode as %q: %v", body, label, err)
	}
	if !s.ClientGz && strings.Contains(label, "gzip") && len(body) > 0 {
		return "gzip sent to a client that does not accept it"
	}
	if got.From > 0 {
		if string(dec) != s.plain(got.From) {
			return fmt.Sprintf("body %q is not that of attempt %d: %q", dec, got.From, s.plain(got.From))
		}
		return ""
	}
	var js struct {
		J8a, ServerID, Version, Message string
		Code                            int
	}
	if err := json.Unmarshal(dec, &js); err != nil {
		return fmt.Sprintf("generated body %q is not JSON: %v", dec, err)
	}
	if js.Code != got.Code || js.Message == "" {
		return fmt.Sprintf("generated body %s does not match status %d", dec, got.Code)
	}
	return ""
}
