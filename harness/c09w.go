//go:build go1.21

package j8a

// Key rotation on the real server in real time: many histories next to each other, each with a jwt of its own.

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C09w"] = checkC09w
}

type rwFetch struct {
	start, end time.Time
	doc        jkDoc
}

type rwEnd struct {
	mu      sync.Mutex
	doc     jkDoc
	ks      *jkKeys
	fetches []*rwFetch
	mon     *jkMon
}

type rwWorld struct {
	*httptest.Server
	mu   sync.Mutex
	ends map[string]*rwEnd
}

func newRwWorld() *rwWorld {
	o := &rwWorld{ends: map[string]*rwEnd{}}
	o.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		o.mu.Lock()
		e := o.ends[q.URL.Path]
		o.mu.Unlock()
		if e == nil {
			w.WriteHeader(404)
			return
		}
		e.mu.Lock()
		f := &rwFetch{start: time.Now(), doc: e.doc}
		e.fetches = append(e.fetches, f)
		e.mu.Unlock()
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer c.Close()
		body := e.ks.body(f.doc)
		code := "200 OK"
		if f.doc.fail == "500" {
			code, body = "500 X", "{}"
		}
		raw := fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", code, len(body), body)
		if f.doc.slow > 0 {
			time.Sleep(f.doc.slow)
		}
		e.mu.Lock()
		f.end = time.Now()
		if f.doc.fail != "cut" && f.doc.fail != "neterr" {
			e.mon.served(f.doc)
		}
		e.mu.Unlock()
		switch f.doc.fail {
		case "neterr":
			c.(*net.TCPConn).SetLinger(0)
			return
		case "cut":
			raw = strings.Replace(raw, e.ks.body(f.doc), "", 1)
		}
		io.WriteString(c, raw)
	}))
	return o
}

type rwHist struct {
	key  string
	alg  string
	boot string
	docs []string
	how  string
}

func (w *rwWorld) play(h rwHist, s *srv, path, route string) string {
	w.mu.Lock()
	e := w.ends[path]
	w.mu.Unlock()
	cl := &wclient{addr: s.addr()}
	defer cl.drop()
	token := func(n, kid string) string {
		e.mu.Lock()
		defer e.mu.Unlock()
		return e.ks.token(n, kid)
	}
	ask := func(tok string) (int, string) {
		t := time.Now()
		r := cl.do("GET", "GET "+route+" HTTP/1.1\r\nHost: x\r\nX-Case: p\r\nAuthorization: Bearer "+tok+"\r\n\r\n")
		d := time.Since(t)
		if r.Err != nil {
			return 0, fmt.Sprintf("no answer: %v", r.Err)
		}
		if d > 1500*time.Millisecond {
			return 0, fmt.Sprintf("the answer took %v", d)
		}
		if r.Status != 200 && r.Status != 401 {
			return 0, r.String()
		}
		return r.Status, ""
	}
	count := func() int { e.mu.Lock(); defer e.mu.Unlock(); return len(e.fetches) }
	var last time.Time
	round := func(d string) string {
		// a refresh is due
		if !last.IsZero() {
			if w := time.Until(last.Add(10300 * time.Millisecond)); w > 0 {
				time.Sleep(w)
			}
		}
		e.mu.Lock()
		e.doc = jkDocOf(d)
		e.mu.Unlock()
		before := count()
		kick := []string{token("z", "zz")}
		switch h.how {
		case "thrice":
			kick = append(kick, kick[0], kick[0])
		case "own":
			for _, n := range jkDocOf(d).keys {
				e.mu.Lock()
				unknown := !e.mon.kids[jkKid(n)] && !e.mon.maybe[jkKid(n)]
				e.mu.Unlock()
				if unknown {
					kick = []string{token(n, jkKid(n))}
				}
			}
		}
		for _, k := range kick {
			c, p := ask(k)
			if p != "" {
				return "a token of unknown kid: " + p
			}
			if c == 200 && h.how != "own" {
				return "a token of an unpublished key passed"
			}
		}
		for i := 0; i < 900 && (i < 300 || count() > before); i++ {
			e.mu.Lock()
			ok := len(e.fetches) > before && !e.fetches[len(e.fetches)-1].end.IsZero()
			e.mu.Unlock()
			if ok {
				break
			}
			// meanwhile loaded keys keep working
			if i == 50 {
				for n := range e.mustNow() {
					if c, p := ask(token(n, jkKid(n))); c != 200 {
						return fmt.Sprintf("during a refresh the token of loaded key %s got %d %s", n, c, p)
					}
				}
			}
			time.Sleep(10 * time.Millisecond)
		}
		if count() == before {
			return fmt.Sprintf("a token with an unknown kid triggered no refresh to %s within 3 s, %v after the previous one", d, time.Since(last))
		}
		e.mu.Lock()
		last = e.fetches[len(e.fetches)-1].end
		e.mu.Unlock()
		// verdicts; what was just loaded may take a moment
		for _, n := range []string{"a", "a'", "b", "c", "z"} {
			var v int
			var c int
			var p string
			for i := 0; i < 200; i++ {
				e.mu.Lock()
				v = e.mon.verdict(n)
				e.mu.Unlock()
				if c, p = ask(token(n, jkKid(n))); p != "" || v < 0 || (c == 200) == (v == 1) {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			if p != "" {
				return p
			}
			if v >= 0 && (c == 200) != (v == 1) {
				return fmt.Sprintf("token of key %s got %d after the refresh to %s; published and loaded are %v", n, c, d, sorted(e.mustNow()))
			}
		}
		// and it stays at that for ten seconds
		if c, p := ask(token("z", "zz2")); c != 401 {
			return fmt.Sprintf("a token of an unpublished key got %d %s", c, p)
		}
		return ""
	}
	for i, d := range append(append([]string(nil), h.docs...), "A'BC") {
		if p := round(d); p != "" {
			return fmt.Sprintf("round %d: %s", i+1, p)
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := 2; i < len(e.fetches); i++ {
		a, b := e.fetches[i-1], e.fetches[i]
		if d := b.start.Sub(a.start); d < 9900*time.Millisecond {
			return fmt.Sprintf("refreshes started %v apart", d)
		}
	}
	return ""
}

func (e *rwEnd) mustNow() map[string]bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	o := map[string]bool{}
	for k := range e.mon.must {
		o[k] = true
	}
	return o
}

func checkC09w() {
	R.Rule = "all histories of a few publications and failures of the endpoint (added, removed, replaced keys, errors, cut and slow answers) x ways to trigger a refresh, each on a jwt of its own of a real server in real time; after each refresh the verdicts on tokens of every key, the instants of the fetches and the delay of every answer are compared with the same monitor, the last publication has to be found after whatever came before"
	w := newRwWorld()
	up := newRawUp("up", nil)
	keysets := map[string]*jkKeys{}
	var hs []rwHist
	add := func(alg, boot, how string, docs ...string) {
		h := rwHist{fmt.Sprintf("wire %s boot %s %s: %v", alg, boot, how, docs), alg, boot, docs, how}
		if R.Mine(h.key) {
			hs = append(hs, h)
		}
	}
	docs := []string{"A", "AB", "B", "A'", "BA'", "500", "malformed", "nokeys", "neterr", "cut", "slowB", "html"}
	for _, how := range []string{"once", "thrice", "own"} {
		for _, a := range docs {
			add("ES256", "A", how, a)
			for _, b := range docs {
				add("ES256", "A", how, a, b)
				if thorough() {
					add("RS256", "A", how, a, b)
					for _, c := range docs {
						add("ES256", "AB", how, a, b, c)
					}
				} else if how == "once" {
					add("RS256", "A", how, a, b)
				}
			}
		}
	}
	for len(hs) > 0 && !R.Expired() {
		n := len(hs)
		if n > 150 {
			n = 150
		}
		batch := hs[:n]
		hs = hs[n:]
		y := "connection: {downstream: {port: {{PORT}}}}\njwt:\n"
		rt := "routes:\n"
		for i, h := range batch {
			if keysets[h.alg] == nil {
				keysets[h.alg] = jkMake(h.alg)
			}
			p := fmt.Sprintf("/k%d", i)
			// the keys are shared, but the map of tokens is not safe for that
			ks := &jkKeys{alg: h.alg, k: map[string]interface{}{}}
			for n, k := range keysets[h.alg].k {
				ks.k[n] = k
			}
			w.mu.Lock()
			w.ends[p] = &rwEnd{doc: jkDocOf(h.boot), ks: ks, mon: newJkMon()}
			w.mu.Unlock()
			y += fmt.Sprintf("  j%d: {alg: %s, jwksUrl: %q}\n", i, h.alg, w.URL+p)
			rt += fmt.Sprintf("  - {path: /r%03d, resource: api, jwt: j%d}\n", i, i)
		}
		R.Before(batch[0].key)
		curCase = batch[0].key
		s := mustBoot(y + rt + fmt.Sprintf("resources:\n  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]\n", up.port))
		var wg sync.WaitGroup
		for i, h := range batch {
			i, h := i, h
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := w.play(h, s, fmt.Sprintf("/k%d", i), fmt.Sprintf("/r%03d", i))
				if p != "" {
					if s.exited() {
						p = "the server ended: " + s.out.String()
					}
					R.Violate(h.key, "%s", p)
				}
				w.mu.Lock()
				n := len(w.ends[fmt.Sprintf("/k%d", i)].fetches)
				w.mu.Unlock()
				R.mu.Lock()
				R.Steps += int64(n * 8)
				R.Validated++
				R.mu.Unlock()
				R.Ran(h.key, fmt.Sprint(n), true)
			}()
		}
		wg.Wait()
		s.stop()
	}
	if len(hs) > 0 {
		R.Complete = false
	}
}
