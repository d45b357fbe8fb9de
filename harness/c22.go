//go:build go1.21

package j8a

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/elliptic"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C22"] = checkC22
}

// c22Kind is what an upstream shows in its handshake
type c22Kind struct {
	name  string
	chain []*cert
	key   crypto.Signer // instead of the one of the leaf
	ok    bool          // acceptable to a client that verifies
	skip  bool          // acceptable to one that does not
}

func (k *c22Kind) tls() tls.Certificate {
	c := tls.Certificate{PrivateKey: k.chain[0].key}
	if k.key != nil {
		c.PrivateKey = k.key
	}
	for _, x := range k.chain {
		c.Certificate = append(c.Certificate, x.der)
	}
	return c
}

type c22Conn struct {
	kind  *c22Kind
	shook bool
	raw   bytes.Buffer // as it came over the wire
	plain bytes.Buffer // decrypted
	reqs  int
}

type c22Tee struct {
	net.Conn
	u *c22Up
	w *bytes.Buffer
}

func (t *c22Tee) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.u.mu.Lock()
	t.w.Write(b[:n])
	t.u.mu.Unlock()
	return n, err
}

// c22Up is an upstream that shows a certificate of a plan to each connection
type c22Up struct {
	ln    net.Listener
	port  int
	mu    sync.Mutex
	wg    sync.WaitGroup
	plan  []*c22Kind // per connection, the last one for all that follow
	keep  bool
	max   uint16
	conns []*c22Conn
	open  map[net.Conn]bool
}

func newC22Up(addr string) *c22Up {
	ln, err := net.Listen("tcp", net.JoinHostPort(addr, "0"))
	if err != nil {
		return nil
	}
	u := &c22Up{ln: ln, port: ln.Addr().(*net.TCPAddr).Port, open: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			u.mu.Lock()
			i := len(u.conns)
			if i >= len(u.plan) {
				i = len(u.plan) - 1
			}
			if i < 0 {
				u.mu.Unlock()
				c.Close()
				continue
			}
			cc := &c22Conn{kind: u.plan[i]}
			u.conns = append(u.conns, cc)
			u.open[c] = true
			u.wg.Add(1)
			max := u.max
			u.mu.Unlock()
			go u.serve(c, cc, max)
		}
	}()
	return u
}

func (u *c22Up) serve(c net.Conn, cc *c22Conn, max uint16) {
	defer func() {
		c.Close()
		u.mu.Lock()
		delete(u.open, c)
		u.mu.Unlock()
		u.wg.Done()
	}()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	t := tls.Server(&c22Tee{c, u, &cc.raw}, &tls.Config{Certificates: []tls.Certificate{cc.kind.tls()}, MaxVersion: max})
	if t.Handshake() != nil {
		return
	}
	u.mu.Lock()
	cc.shook = true
	u.mu.Unlock()
	r := &wconn{Conn: &c22Tee{t, u, &cc.plain}}
	r.r = bufio.NewReaderSize(r.Conn, 65536)
	for {
		line, hdr, err := readHead(r.r)
		if err != nil {
			return
		}
		q := &upReq{Line: line, Hdr: hdr}
		if len(q.get("Transfer-Encoding")) > 0 {
			if _, err := readChunked(r.r); err != nil {
				return
			}
		} else if v := q.get("Content-Length"); len(v) > 0 {
			if _, err := io.CopyN(io.Discard, r.r, int64(atoi(v[0], 0))); err != nil {
				return
			}
		}
		u.mu.Lock()
		cc.reqs++
		keep := u.keep
		u.mu.Unlock()
		h := "HTTP/1.1 200 OK\r\nX-Up: 1\r\nContent-Length: 2\r\n"
		if strings.HasPrefix(line, "CONNECT ") {
			h = "HTTP/1.1 200 OK\r\nX-Up: 1\r\n"
		}
		body := "ok"
		if strings.HasPrefix(line, "HEAD ") || strings.HasPrefix(line, "CONNECT ") {
			body = ""
		}
		if !keep {
			h += "Connection: close\r\n"
		}
		if _, err := io.WriteString(t, h+"\r\n"+body); err != nil || !keep {
			t.Close()
			return
		}
	}
}

// begin sets what is shown from now on
func (u *c22Up) begin(max uint16, keep bool, plan ...*c22Kind) {
	u.reset()
	u.mu.Lock()
	u.plan, u.keep, u.max, u.conns = plan, keep, max, nil
	u.mu.Unlock()
}

func (u *c22Up) reset() {
	u.mu.Lock()
	open := len(u.open) > 0
	for c := range u.open {
		c.Close()
	}
	u.mu.Unlock()
	u.wg.Wait()
	if open {
		time.Sleep(5 * time.Millisecond) // let the client see it
	}
}

// end waits until all connections are over and checks what came over them
func (u *c22Up) end(skip bool, secret string) (served int, problem string) {
	for i := 0; i < 400; i++ {
		u.mu.Lock()
		busy := len(u.open) > 0 && !u.keep
		u.mu.Unlock()
		if !busy {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	for i, c := range u.conns {
		served += c.reqs
		ok := c.kind.ok || (skip && c.kind.skip)
		if !ok && c.plain.Len() > 0 {
			problem = fmt.Sprintf("connection %d with certificate %q carried %q", i, c.kind.name, c.plain.String())
		}
		if bytes.Contains(c.raw.Bytes(), []byte(secret)) {
			problem = fmt.Sprintf("connection %d with certificate %q carried the request in clear", i, c.kind.name)
		}
	}
	return
}

func c22Kinds(host string) []*c22Kind {
	now := time.Now()
	far, past := now.Add(1000*time.Hour), now.Add(-1000*time.Hour)
	w := c22Roots
	ip := net.ParseIP(host)
	san := func(names ...string) (s certSpec) {
		s = certSpec{cn: "upstream", notBefore: now.Add(-time.Hour), notAfter: far, key: w.lk}
		for _, n := range names {
			if p := net.ParseIP(n); p != nil {
				s.ips = append(s.ips, p)
			} else {
				s.dns = append(s.dns, n)
			}
		}
		return
	}
	by := func(s certSpec, ca *cert) *cert { s.parent = ca; return makeCert(s) }
	good := by(san(host), w.root)
	with := func(f func(*certSpec)) *cert { s := san(host); s.parent = w.root; f(&s); return makeCert(s) }
	ks := []*c22Kind{
		{name: "good", chain: []*cert{good}, ok: true},
		{name: "good with root", chain: []*cert{good, w.root}, ok: true},
		{name: "good by intermediate", chain: []*cert{by(san(host), w.inter), w.inter}, ok: true},
		{name: "good by intermediate with root", chain: []*cert{by(san(host), w.inter), w.inter, w.root}, ok: true},
		{name: "good among other names", chain: []*cert{by(san("a.example", "10.0.0.1", host, "b.example"), w.root)}, ok: true},
		{name: "good ecdsa", chain: []*cert{with(func(s *certSpec) { s.key = w.ek })}, ok: true},
		{name: "good next to a foreign certificate", chain: []*cert{good, w.alien}, ok: true},
		{name: "intermediate missing", chain: []*cert{by(san(host), w.inter)}},
		{name: "root instead of intermediate", chain: []*cert{by(san(host), w.inter), w.root}},
		{name: "self signed", chain: []*cert{makeCert(san(host))}},
		{name: "self signed with root", chain: []*cert{makeCert(san(host)), w.root}},
		{name: "self signed ca", chain: []*cert{func() *cert { s := san(host); s.ca = true; return makeCert(s) }()}},
		{name: "unknown ca", chain: []*cert{by(san(host), w.alien)}},
		{name: "unknown ca sent along", chain: []*cert{by(san(host), w.alien), w.alien}},
		{name: "unknown ca with the name of the trusted one", chain: []*cert{by(san(host), w.twin)}},
		{name: "unknown ca with the name of the trusted one sent along", chain: []*cert{by(san(host), w.twin), w.twin, w.root}},
		{name: "unknown intermediate", chain: []*cert{by(san(host), w.alienInter), w.alienInter}},
		{name: "expired an hour ago", chain: []*cert{with(func(s *certSpec) { s.notBefore, s.notAfter = past, now.Add(-time.Hour) })}},
		{name: "expired a minute ago", chain: []*cert{with(func(s *certSpec) { s.notBefore, s.notAfter = past, now.Add(-time.Minute) })}},
		{name: "expired in 1971", chain: []*cert{with(func(s *certSpec) { s.notBefore, s.notAfter = time.Unix(1, 0), time.Unix(40000000, 0) })}},
		{name: "valid in an hour", chain: []*cert{with(func(s *certSpec) { s.notBefore = now.Add(time.Hour) })}},
		{name: "valid in five minutes", chain: []*cert{with(func(s *certSpec) { s.notBefore = now.Add(5 * time.Minute) })}},
		{name: "expired intermediate", chain: []*cert{by(san(host), w.oldInter), w.oldInter}},
		{name: "intermediate not yet valid", chain: []*cert{by(san(host), w.newInter), w.newInter}},
		{name: "expired intermediate that is not used", chain: []*cert{by(san(host), w.root), w.oldInter}, ok: true},
		{name: "expired self signed", chain: []*cert{func() *cert { s := san(host); s.notBefore, s.notAfter = past, now.Add(-time.Hour); return makeCert(s) }()}},
		{name: "issued by a certificate that is no ca", chain: []*cert{by(san(host), w.leafCa), w.leafCa}},
		{name: "for clients only", chain: []*cert{with(func(s *certSpec) { s.usage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })}},
		{name: "no names", chain: []*cert{by(san(), w.root)}},
		{name: "common name only", chain: []*cert{with(func(s *certSpec) { s.dns, s.ips, s.cn = nil, nil, host })}},
		{name: "key of another", chain: []*cert{good}, key: w.sk},
	}
	bad := by(san(host), w.root)
	bad = &cert{x: bad.x, der: append([]byte(nil), bad.der...), key: bad.key}
	bad.der[len(bad.der)-1] ^= 1
	ks = append(ks, &c22Kind{name: "signature of the certificate damaged", chain: []*cert{bad}})
	mid := by(san(host), w.root)
	if i := bytes.Index(mid.der, []byte("upstream")); i > 0 {
		mid = &cert{x: mid.x, der: append([]byte(nil), mid.der...), key: mid.key}
		mid.der[i] ^= 1
		ks = append(ks, &c22Kind{name: "subject changed after signing", chain: []*cert{mid}})
	}
	var others []string
	if ip == nil {
		ks = append(ks, &c22Kind{name: "name in capitals", chain: []*cert{by(san(strings.ToUpper(host)), w.root)}, ok: true})
		others = []string{"localhos", "xlocalhost", "localhost.example", "example.localhost", "*.localhost", "*", "l*", "127.0.0.1", "::1", "local", "example.com"}
	} else {
		others = []string{"127.0.0.2", "::2", "localhost", "0.0.0.0", "::", "126.0.0.1"}
		if host == "127.0.0.1" {
			others = append(others, "::1", "::7f00:1")
		} else {
			others = append(others, "127.0.0.1")
		}
		s := san()
		s.dns, s.parent = []string{host}, w.root
		if host == "127.0.0.1" {
			ks = append(ks, &c22Kind{name: "address as a name", chain: []*cert{makeCert(s)}})
			s.dns = []string{"*.0.0.1"}
			ks = append(ks, &c22Kind{name: "address as a wildcard", chain: []*cert{makeCert(s)}})
		}
	}
	for _, o := range others {
		ks = append(ks, &c22Kind{name: "for " + o, chain: []*cert{by(san(o), w.root)}})
		if thorough() {
			ks = append(ks, &c22Kind{name: "for " + o + " by intermediate", chain: []*cert{by(san(o), w.inter), w.inter}})
		}
	}
	for _, k := range ks {
		k.skip = k.name != "key of another"
	}
	return ks
}

// c22World holds the authorities
type c22World struct {
	root, inter, alien, alienInter, twin, oldInter, newInter, leafCa *cert
	lk, ek, sk                                                       crypto.Signer
	file                                                             string
}

var c22Roots *c22World

func newC22World() *c22World {
	now := time.Now()
	far, past := now.Add(2000*time.Hour), now.Add(-2000*time.Hour)
	w := &c22World{lk: rsaKey(2048), ek: ecKey(elliptic.P256()), sk: rsaKey(2048)}
	ca := func(cn string, parent *cert, nb, na time.Time) *cert {
		return makeCert(certSpec{cn: cn, ca: true, parent: parent, notBefore: nb, notAfter: na})
	}
	w.root = ca("the root", nil, past, far)
	w.inter = ca("an intermediate", w.root, past, far)
	w.alien = ca("another root", nil, past, far)
	w.alienInter = ca("an intermediate", w.alien, past, far)
	w.twin = ca("the root", nil, past, far)
	w.oldInter = ca("old intermediate", w.root, past, now.Add(-time.Hour))
	w.newInter = ca("new intermediate", w.root, now.Add(time.Hour), far)
	w.leafCa = makeCert(certSpec{cn: "a leaf", dns: []string{"localhost"}, parent: w.root, notBefore: past, notAfter: far})
	w.file = tmpFile("ca.pem", []byte(pemCerts(w.root)))
	return w
}

func checkC22() {
	R.Rule = "the product of certificate chains an upstream can show (issuers, orders, validity, names, usages, damage, missing proof of possession) x host forms x TLS versions x tlsInsecureSkipVerify values x trust stores x methods x attempts, all histories of certificates over connections and requests up to a length, with and without connection reuse; a recording upstream tells what it decrypted"
	c22Roots = newC22World()
	empty := filepath.Join(os.Getenv("VERIF_TMP"), "nothing")
	trust := []string{"SSL_CERT_FILE=" + c22Roots.file, "SSL_CERT_DIR=" + empty}
	type hostT struct {
		name, conf, path string
		up               *c22Up
		kinds            []*c22Kind
	}
	var hosts []*hostT
	for _, h := range []hostT{{name: "localhost", conf: "localhost", path: "/name"}, {name: "127.0.0.1", conf: "127.0.0.1", path: "/v4"}, {name: "::1", conf: `"[::1]"`, path: "/v6"}} {
		listen := "127.0.0.1"
		if h.name == "::1" {
			listen = "::1"
		}
		h.up = newC22Up(listen)
		if h.up == nil {
			R.Note("skipped", "no loopback address "+listen)
			continue
		}
		h.kinds = c22Kinds(h.name)
		hc := h
		hosts = append(hosts, &hc)
	}
	type server struct {
		name string
		skip bool
		none bool // trusts nothing
		cl   *wclient
		h2   *h2client
		s    *srv
	}
	mk := func(name, skip string, attempts int, tlsmode bool, env ...string) *server {
		down := "{port: {{PORT}}}"
		if tlsmode {
			c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
			down = "\n    port: {{PORT}}\n    mode: TLS\n    cert: " + yamlBlock(pemCerts(c), 6) + "    key: " + yamlBlock(pemKey(c.key), 6)
		}
		y := "connection:\n  downstream: " + down + fmt.Sprintf("\n  upstream: {maxAttempts: %d", attempts)
		if skip != "" {
			y += ", tlsInsecureSkipVerify: " + skip
		}
		y += "}\nroutes:\n"
		for _, h := range hosts {
			y += fmt.Sprintf("  - {path: %s, resource: r%s}\n", h.path, h.path[1:])
		}
		y += "resources:\n"
		for _, h := range hosts {
			y += fmt.Sprintf("  r%s: [{url: {scheme: https, host: %s, port: %d}}]\n", h.path[1:], h.conf, h.up.port)
		}
		s := &server{name: name, skip: strings.HasPrefix(skip, "true"), s: mustBoot(y, env...)}
		if tlsmode {
			s.h2 = newH2(s.s.addr())
		} else {
			s.cl = &wclient{addr: s.s.addr()}
		}
		return s
	}
	servers := []*server{
		mk("absent 1", "", 1, false, trust...),
		mk("absent 3", "", 3, false, trust...),
		mk("false 2", "false", 2, false, trust...),
		mk("null 1", "null", 1, false, trust...),
		mk("true 1", "true", 1, false, trust...),
		mk("true 2", "true", 2, false, trust...),
		mk("h2", "", 2, true, trust...),
		mk("small 1", "false, poolSize: 1, socketTimeoutSeconds: 1, readTimeoutSeconds: 30, idleTimeoutSeconds: 1", 1, false, trust...),
		mk("small true 2", "true, poolSize: 1, socketTimeoutSeconds: 1, readTimeoutSeconds: 30, idleTimeoutSeconds: 1", 2, false, trust...),
	}
	nt := mk("no trust", "", 2, false, "SSL_CERT_FILE="+empty, "SSL_CERT_DIR="+empty)
	nt.none = true
	servers = append(servers, nt)
	defer func() {
		for _, s := range servers {
			s.s.stop()
		}
	}()
	const secret = "s3cr3tvalue"
	send := func(s *server, h *hostT, method string) *wresp {
		body := ""
		switch method {
		case "POST", "PUT", "DELETE":
			body = secret + strings.Repeat("x", 100)
		}
		hdr := [][2]string{{"X-Secret", secret}}
		tgt := h.path + "/" + secret
		if s.h2 != nil {
			var b []byte
			if body != "" {
				b = []byte(body)
			}
			return s.h2.do(method, tgt, hdr, b)
		}
		raw := method + " " + tgt + " HTTP/1.1\r\nHost: gw\r\nX-Secret: " + secret + "\r\n"
		if body != "" {
			raw += fmt.Sprintf("Content-Length: %d\r\n", len(body))
		}
		return s.cl.do(method, raw+"\r\n"+body)
	}
	verdict := func(r *wresp, want bool) string {
		switch {
		case r.Err != nil:
			return fmt.Sprintf("no response: %v", r)
		case want && (r.Status != 200 || r.one("X-Up") != "1"):
			return fmt.Sprintf("not answered by the upstream: %v", r)
		case !want && (r.Status != 502 || r.one("X-Up") != ""):
			return fmt.Sprintf("answered %v", r)
		}
		return ""
	}
	methods := []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT"}
	vers := map[string]uint16{"1.2": tls.VersionTLS12, "1.3": tls.VersionTLS13}
	for si, s := range servers {
		for _, h := range hosts {
			for ki, k := range h.kinds {
				for _, v := range []string{"1.2", "1.3"} {
					for mi, m := range methods {
						if s.h2 != nil && (m == "CONNECT" || m == "TRACE") {
							continue
						}
						if !thorough() && (si+ki+mi)%3 != 0 && !(si == 0 && mi == 0) {
							continue
						}
						wireCase(fmt.Sprintf("%s/%s/%s/%s/%s", s.name, h.name, k.name, v, m), func() (string, string) {
							kk := k
							if s.none {
								c := *k
								c.ok = false
								kk = &c
							}
							h.up.begin(vers[v], false, kk)
							r := send(s, h, m)
							n, p := h.up.end(s.skip, secret)
							want := kk.ok || (s.skip && kk.skip)
							if p == "" {
								p = verdict(r, want)
							}
							if p == "" && want && n != 1 {
								p = fmt.Sprintf("the upstream got the request %d times", n)
							}
							if p == "" && !want && len(h.up.conns) == 0 {
								p = "no connection came to the upstream"
							}
							return p, fmt.Sprint(r.Status, want)
						})
					}
				}
			}
		}
	}
	// histories: every connection may show another certificate
	find := func(h *hostT, n string) *c22Kind {
		for _, k := range h.kinds {
			if k.name == n {
				return k
			}
		}
		panic(n)
	}
	names := []string{"good", "unknown ca", "expired an hour ago", "common name only", "key of another"}
	depth := pick(3, 4)
	var hist func(prefix []string, f func([]string))
	hist = func(prefix []string, f func([]string)) {
		if len(prefix) > 0 {
			f(prefix)
		}
		if len(prefix) == depth {
			return
		}
		for _, n := range names {
			hist(append(append([]string(nil), prefix...), n), f)
		}
	}
	for si, s := range servers {
		if s.none || s.name == "null 1" {
			continue
		}
		for hi, h := range hosts {
			if !thorough() && (si+hi)%2 != 0 {
				continue
			}
			for _, keep := range []bool{false, true} {
				for _, m := range []string{"GET", "POST"} {
					hist(nil, func(seq []string) {
						wireCase(fmt.Sprintf("seq/%s/%s/keep %v/%s/%s", s.name, h.name, keep, m, strings.Join(seq, ",")), func() (string, string) {
							var plan []*c22Kind
							for _, n := range seq {
								plan = append(plan, find(h, n))
							}
							h.up.begin(tls.VersionTLS13, keep, plan...)
							out := ""
							was := 0
							for i := 0; i < len(seq)+1; i++ {
								h.up.mu.Lock()
								first := len(h.up.conns)
								h.up.mu.Unlock()
								r := send(s, h, m)
								n, p := h.up.end(s.skip, secret)
								if p == "" {
									p = verdict(r, n > was)
								}
								h.up.mu.Lock()
								opened := h.up.conns[first:]
								h.up.mu.Unlock()
								if p == "" && n == was && len(opened) > 0 {
									// refused although a certificate was fine
									for _, c := range opened {
										if c.kind.ok || (s.skip && c.kind.skip) {
											p = fmt.Sprintf("refused although certificate %q was shown", c.kind.name)
										}
									}
								}
								if p != "" {
									h.up.reset()
									return fmt.Sprintf("request %d: %s", i, p), ""
								}
								was = n
								out += fmt.Sprint(r.Status, " ")
								if keep && i%2 == 1 {
									h.up.reset() // the connection goes away, the next one has to prove itself
								}
							}
							h.up.reset()
							return "", out
						})
					})
				}
			}
		}
	}
	// a certificate that expires, or becomes valid, while the server runs
	for _, s := range servers[:3] {
		for _, h := range hosts {
			for _, m := range []string{"GET", "POST"} {
				wireCase(fmt.Sprintf("time/%s/%s/%s", s.name, h.name, m), func() (string, string) {
					now := time.Now()
					spec := certSpec{cn: "upstream", parent: c22Roots.root, key: c22Roots.lk, notBefore: now.Add(-time.Hour), notAfter: now.Add(2 * time.Second)}
					if ip := net.ParseIP(h.name); ip != nil {
						spec.ips = []net.IP{ip}
					} else {
						spec.dns = []string{h.name}
					}
					dies := &c22Kind{name: "dies", chain: []*cert{makeCert(spec)}, ok: true}
					spec.notBefore, spec.notAfter = now.Add(2*time.Second), now.Add(time.Hour)
					comes := &c22Kind{name: "comes", chain: []*cert{makeCert(spec)}}
					step := func(k *c22Kind) string {
						h.up.begin(tls.VersionTLS13, false, k)
						r := send(s, h, m)
						_, p := h.up.end(s.skip, secret)
						if p == "" {
							p = verdict(r, k.ok)
						}
						if p != "" {
							p = k.name + ": " + p
						}
						return p
					}
					early := time.Now()
					p1, p2 := step(comes), step(dies)
					if time.Since(early) > 500*time.Millisecond {
						p1, p2 = "", "" // too slow to tell
					}
					if p1+p2 != "" {
						return p1 + p2, ""
					}
					time.Sleep(time.Until(now.Add(3500 * time.Millisecond)))
					comes.ok, dies.ok = true, false
					return step(comes) + step(dies), "turned"
				})
			}
		}
	}
}
