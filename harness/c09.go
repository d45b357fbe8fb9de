//go:build go1.21

package j8a

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

func init() {
	checks["C09"] = checkC09
}

// ---- the jwks endpoint, shared by the virtual and the real one ----

// jkDoc is what the endpoint publishes: an ordered list of key names, or a failure
type jkDoc struct {
	name string
	keys []string // names of the keys, all of the configured algorithm
	fail string   // "", 500, malformed, empty, nokeys, hang, neterr, cut, notfound, html
	slow time.Duration
	deco map[string]string // further members of some of the keys
	wrap bool              // further members around the keys, and white space
}

func (d jkDoc) good() bool { return d.fail == "" && len(d.keys) > 0 }

var jkDocs = []jkDoc{
	{name: "A", keys: []string{"a"}}, {name: "AB", keys: []string{"a", "b"}}, {name: "B", keys: []string{"b"}}, {name: "A'", keys: []string{"a'"}}, {name: "BA'", keys: []string{"b", "a'"}}, {name: "A'BC", keys: []string{"a'", "b", "c"}},
	{name: "500", fail: "500"}, {name: "malformed", fail: "malformed"}, {name: "nokeys", fail: "nokeys"}, {name: "hang", fail: "hang"}, {name: "neterr", fail: "neterr"}, {name: "slowB", keys: []string{"b"}, slow: 5 * time.Second}, {name: "slow500", fail: "500", slow: 9 * time.Second},
	{name: "empty", fail: "empty"}, {name: "cut", fail: "cut"}, {name: "html", fail: "html"}, {name: "null", fail: "null"},
	{name: "foreign", keys: []string{"b"}, fail: "foreign"}, {name: "Bforeign", keys: []string{"b"}, fail: "mixed"}, {name: "many", keys: jkMany},
	{name: "enc", keys: []string{"x", "b", "a"}, deco: map[string]string{"x": `"use":"enc"`}}, {name: "encmid", keys: []string{"a", "x", "b"}, deco: map[string]string{"a": `"use":"sig"`, "x": `"key_ops":["encrypt","wrapKey"]`, "b": `"key_ops":["verify"]`}},
	{name: "extra", keys: []string{"b", "a"}, wrap: true, deco: map[string]string{"b": `"use":"sig","x5t":"AQID","x5u":"https://x.test/c","created":1600000000,"issuer":"https://x.test"`, "a": `"exp":1,"nbf":1,"status":"revoked","use":"sig"`}},
}

// jkMany are the keys of a large document, the usual ones first and last
var jkMany = append(append([]string{"a", "b"}, jkExtra...), "c")
var jkExtra = strings.Fields("m01 m02 m03 m04 m05 m06 m07 m08 m09 m10 m11 m12 m13 m14 m15 m16 m17 m18 m19 m20")

func jkDocOf(name string) jkDoc {
	for _, d := range jkDocs {
		if d.name == name {
			return d
		}
	}
	panic(name)
}

// jkKeys are the keys by name; a' has the kid of a
type jkKeys struct {
	alg string
	k   map[string]interface{}
}

func jkMake(alg string) *jkKeys {
	o := &jkKeys{alg: alg, k: map[string]interface{}{}}
	for _, n := range append([]string{"a", "a'", "b", "c", "z", "x"}, jkExtra...) {
		if alg[0] == 'E' {
			o.k[n] = ecKey(algCurve(alg))
		} else if n[0] == 'm' {
			continue // large documents of the other algorithms are not worth the time it takes to make the keys
		} else {
			o.k[n] = rsaKey(1024)
		}
	}
	return o
}

func jkKid(n string) string { return "kid-" + strings.TrimSuffix(n, "'") }

func (o *jkKeys) body(d jkDoc) string {
	switch d.fail {
	case "malformed":
		return `{"keys":[{"kty":"EC","kid":`
	case "nokeys":
		return `{"keys":[]}`
	case "empty":
		return ""
	case "html":
		return "<html>maintenance</html>"
	case "null":
		return "null"
	}
	var e []string
	foreign := map[string]string{"ES256": "ES384", "RS256": "RS512", "PS256": "RS256"}[o.alg]
	for _, n := range d.keys {
		alg := o.alg
		if d.fail == "foreign" {
			alg = foreign
		}
		j := jwkOf(o.k[n], jkKid(n), alg)
		if d.deco[n] != "" {
			j = strings.TrimSuffix(strings.TrimSpace(j), "}") + "," + d.deco[n] + "}"
		}
		e = append(e, j)
	}
	if d.wrap {
		return strings.Replace(jwksOf(e...), "{", "\r\n {\n\t\"version\" : 3, \"next\": null,\n", 1) + "\n\n"
	}
	if d.fail == "mixed" {
		e = append(e, jwkOf(o.k["c"], "kid-c", foreign))
	}
	return jwksOf(e...)
}

// token signed by key n that names kid, "-" for none
func (o *jkKeys) token(n, kid string) string {
	h := `{"alg":"` + o.alg + `"`
	if kid != "-" {
		h += `,"kid":"` + kid + `"`
	}
	ck := n + "|" + kid
	if t, ok := o.k["tok:"+ck]; ok {
		return t.(string)
	}
	t := forge(h+"}", `{"sub":"x"}`, o.alg, o.k[n])
	o.k["tok:"+ck] = t
	return t
}

// jkMon is the reference: which keys must and may be accepted, given the refreshes that were observed
type jkMon struct {
	must, may map[string]bool
	kids      map[string]bool // kids certainly known to the gateway
	maybe     map[string]bool // kids it may know
}

func newJkMon() *jkMon {
	return &jkMon{must: map[string]bool{}, may: map[string]bool{}, kids: map[string]bool{}, maybe: map[string]bool{}}
}

// served is called when a refresh was answered with this document in full
func (m *jkMon) served(d jkDoc) {
	if d.fail == "mixed" { // a refresh that failed half way, what it found before may be used
		for _, n := range d.keys {
			for o := range m.must {
				if jkKid(o) == jkKid(n) && o != n {
					delete(m.must, o)
				}
			}
			m.may[n], m.maybe[jkKid(n)] = true, true
		}
	}
	if !d.good() {
		return
	}
	for _, n := range d.keys {
		for o := range m.must {
			if jkKid(o) == jkKid(n) && o != n {
				delete(m.must, o) // replaced, its tokens may pass or not
			}
		}
		m.must[n], m.may[n], m.kids[jkKid(n)] = true, true, true
	}
}

// verdict: 1 must pass, 0 must be refused, -1 either
func (m *jkMon) verdict(n string) int {
	if m.must[n] {
		return 1
	}
	if m.may[n] {
		return -1
	}
	return 0
}

// ---- virtual time ----

type jkFetch struct {
	start, end time.Time // end zero while running
	doc        jkDoc
}

type jkTransport struct {
	mu      sync.Mutex
	doc     jkDoc
	keys    *jkKeys
	fetches []*jkFetch
	mon     *jkMon
	release chan struct{}
}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func (t *jkTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	t.mu.Lock()
	f := &jkFetch{start: time.Now(), doc: t.doc}
	t.fetches = append(t.fetches, f)
	t.mu.Unlock()
	done := func() {
		t.mu.Lock()
		f.end = time.Now()
		t.mu.Unlock()
	}
	d := f.doc
	if d.slow > 0 {
		select {
		case <-time.After(d.slow):
		case <-q.Context().Done():
			done()
			return nil, q.Context().Err()
		}
	}
	switch d.fail {
	case "hang":
		select {
		case <-q.Context().Done():
		case <-t.release:
		}
		done()
		return nil, errors.New("hung up")
	case "neterr":
		done()
		return nil, errors.New("connection refused")
	}
	code, body := 200, t.keys.body(d)
	if d.fail == "500" {
		code, body = 500, "{}"
	}
	var rd io.Reader = bytes.NewReader([]byte(body))
	if d.fail == "cut" {
		full := t.keys.body(jkDocOf("B"))
		rd = io.MultiReader(bytes.NewReader([]byte(full[:len(full)/2])), errReader{io.ErrUnexpectedEOF})
	}
	done()
	t.mu.Lock()
	t.mon.served(d)
	t.mu.Unlock()
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: ioutil.NopCloser(rd), Request: q, ContentLength: -1}, nil
}

// jkOp is one step: publish a document, send tokens, or let time pass
type jkOp string

func checkC09() {
	R.Rule = "every history up to a depth of publications (added, removed, reordered and replaced keys, slow and failing endpoints of every kind), requests (signed by each key under its kid, without kid, under unknown kids, concurrently) and time steps around the ten second window is run on the real configuration, handler and refresh in virtual time; fetches, answers and their instants are compared with a reference monitor, and every history ends with a probe that refresh still works and each published key is accepted"
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	cl := &recClient{}
	keysets := map[string]*jkKeys{}
	for _, a := range []string{"ES256", "RS256", "PS256"} {
		keysets[a] = jkMake(a)
		for _, n := range []string{"a", "a'", "b", "c", "z"} {
			for _, kid := range []string{jkKid(n), "-", "zz", "kid-b"} {
				keysets[a].token(n, kid)
			}
		}
	}
	var once bool
	run := func(alg, bootDoc string, ops []jkOp) {
		key := fmt.Sprintf("%s boot %s: %v", alg, bootDoc, ops)
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		var problem, outcome string
		bubble(func() {
			ks := keysets[alg]
			tr := &jkTransport{doc: jkDocOf(bootDoc), keys: ks, mon: newJkMon(), release: make(chan struct{})}
			http.DefaultTransport = tr
			defer func() { // lets a hung fetch go
				close(tr.release)
			}()
			httpClient = cl
			cfg := bootChain(fmt.Sprintf("jwt: {j: {alg: %s, jwksUrl: 'http://jwks.test/keys'}}\nroutes: [{path: /x, resource: api, jwt: j}]\nresources: {api: [{url: {scheme: http, host: api.test, port: 8001}}]}\n", alg))
			Runner = &Runtime{Config: *cfg, Start: time.Now()}
			if len(tr.fetches) == 0 {
				problem = "unbound"
				return
			}
			t0 := time.Now()
			boots := len(tr.fetches)
			say := func(f string, a ...interface{}) {
				if problem == "" {
					problem = fmt.Sprintf("at %v: ", time.Since(t0)) + fmt.Sprintf(f, a...)
				}
			}
			ask := func(n, kid string) {
				tr.mu.Lock()
				before := len(tr.fetches)
				busy := false
				var last *jkFetch
				for _, f := range tr.fetches[boots:] {
					busy = busy || f.end.IsZero()
					last = f
				}
				unknown := kid != "-" && !tr.mon.kids[kid] && !tr.mon.maybe[kid]
				must := !busy && (last == nil || time.Since(last.end) > 10*time.Second+time.Millisecond)
				if last != nil && time.Since(last.start) > 100*time.Second {
					must = true
				}
				v := tr.mon.verdict(n)
				tr.mu.Unlock()
				at := time.Now()
				cl.seen, cl.last = nil, nil
				rec := newRec()
				q := httptest.NewRequest("GET", "/x", nil)
				q.Header.Set("Authorization", "Bearer "+ks.token(n, kid))
				proxyHandler(rec, q)
				R.Steps++
				if d := time.Since(at); d > 0 {
					say("the answer to a token of key %s kid %s was delayed by %v", n, kid, d)
				}
				ok := len(rec.Codes) == 1 && rec.Codes[0] == 200
				if !ok && (len(rec.Codes) != 1 || rec.Codes[0] != 401) {
					say("status %v", rec.Codes)
				}
				if ok != (v == 1) && v >= 0 {
					say("token of key %s with kid %s: passed=%v; published and loaded are %v", n, kid, ok, sorted(tr.mon.must))
				}
				outcome += fmt.Sprint(rec.Codes)
				synctest.Wait()
				tr.mu.Lock()
				started := len(tr.fetches) - before
				tr.mu.Unlock()
				if unknown && must && started == 0 {
					say("a token with unknown kid %s triggered no refresh", kid)
				}
			}
			do := func(op jkOp) {
				s := string(op)
				switch s[0] {
				case 'P':
					tr.mu.Lock()
					tr.doc = jkDocOf(s[1:])
					tr.mu.Unlock()
				case 'T':
					f := strings.Split(s[1:], "/")
					kid := jkKid(f[0])
					if len(f) > 1 {
						kid = f[1]
					}
					ask(f[0], kid)
				case 'D': // two at once
					var wg sync.WaitGroup
					for i := 0; i < 2; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							rec := newRec()
							q := httptest.NewRequest("GET", "/x", nil)
							q.Header.Set("Authorization", "Bearer "+ks.token("z", "zz"))
							proxyHandler(rec, q)
							if len(rec.Codes) != 1 || rec.Codes[0] != 401 {
								say("status %v for a token of an unpublished key", rec.Codes)
							}
						}()
					}
					wg.Wait()
					synctest.Wait()
				case 'S':
					d, _ := time.ParseDuration(s[1:])
					time.Sleep(d)
					synctest.Wait()
				}
				tr.mu.Lock()
				var prev *jkFetch
				running := 0
				for _, f := range tr.fetches[boots:] {
					if prev != nil && f.start.Sub(prev.start) < 10*time.Second {
						say("refreshes started %v apart", f.start.Sub(prev.start))
					}
					if prev != nil && (prev.end.IsZero() || prev.end.After(f.start)) {
						say("two refreshes run at the same time")
					}
					if f.end.IsZero() {
						running++
					}
					prev = f
				}
				outcome += fmt.Sprint(len(tr.fetches), running, ";")
				tr.mu.Unlock()
			}
			for _, op := range ops {
				do(op)
			}
			// whatever happened, a while later everything is in order
			do("S110s")
			do("Tz/zz")
			do("S60s")
			for _, n := range []string{"a", "a'", "b", "c", "z"} {
				do(jkOp("T" + n))
			}
			do("Tb/-")
			if tr.mon.must["m01"] {
				for _, n := range jkExtra {
					do(jkOp("T" + n))
				}
			}
			// and the next publication is found as well
			do("S110s")
			do("PA'BC")
			do("Tz/zz")
			do("S60s")
			for _, n := range []string{"a'", "c"} {
				do(jkOp("T" + n))
			}
			time.Sleep(5 * time.Minute)
		})
		if problem == "unbound" {
			once = true
			R.Complete = false
			R.Note("unbound", "the refresh does not use http.DefaultTransport, only the real time part decides")
			return
		}
		if problem != "" {
			R.Violate(key, "%s", problem)
		}
		R.Validated++
		R.Ran(key, outcome, true)
	}
	var rec func(alg, boot string, alpha []jkOp, depth int, cur []jkOp)
	rec = func(alg, boot string, alpha []jkOp, depth int, cur []jkOp) {
		if once {
			return
		}
		if len(cur) > 0 {
			run(alg, boot, cur)
		}
		if depth == 0 {
			return
		}
		for _, o := range alpha {
			if len(cur) > 0 && cur[len(cur)-1][0] == 'P' && o[0] == 'P' {
				continue // only the last of two publications can be seen
			}
			rec(alg, boot, alpha, depth-1, append(append([]jkOp(nil), cur...), o))
		}
	}
	full := []jkOp{"PA", "PAB", "PB", "PA'", "PBA'", "P500", "Pmalformed", "Pnokeys", "Phang", "Pneterr", "PslowB", "Pslow500", "Pempty", "Pcut", "Phtml", "Pnull", "Pforeign", "PBforeign", "Pmany",
		"Ta", "Tb", "Ta'", "Tz/zz", "Ta/-", "Tb/-", "Ta/zz", "Tb/zz", "D", "S1s", "S4s", "S9.9s", "S10.1s", "S25s"}
	small := []jkOp{"PAB", "PA'", "P500", "Pforeign", "Phang", "PslowB", "Tb", "Tz/zz", "Ta/-", "S1s", "S9.9s", "S10.1s"}
	meta := []jkOp{"Penc", "Pencmid", "Pextra", "PA'", "Ta", "Tb", "Tz/zz", "S10.1s"}
	for _, a := range []string{"ES256", "RS256", "PS256"} {
		rec(a, "A", meta, pick(3, 4), nil)
		rec(a, "extra", meta, 2, nil)
	}
	rec("ES256", "A", full, pick(3, 4), nil)
	rec("ES256", "AB", small, pick(5, 6), nil)
	rec("RS256", "A", small, pick(3, 4), nil)
	rec("PS256", "BA'", small, pick(3, 4), nil)
}
