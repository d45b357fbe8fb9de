//go:build go1.21

package j8a

import (
	"crypto/tls"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C23f"] = checkC23f
}

// checkC23f lets crowds of clients use up every file descriptor the server may have
func checkC23f() {
	R.Rule = "real servers with every limit of open files of a range are kept at that limit by more clients than they can accept (silent, half a head, half a handshake, requests to an upstream that hangs), from the boot or later on, for longer than any of the server's own periodic work; it must not die, a client that was there before is answered all the time, and everybody else as soon as the crowd has left"
	up := newRawUp("up", nil)
	up.set(func(q *upReq) upAct {
		if strings.HasSuffix(q.Target, "/hang") {
			return upAct{Hang: true}
		}
		return ok200("ok")
	})
	jw := newRawUp("jwks", nil)
	k := ecKey(algCurve("ES256"))
	doc := jwksOf(jwkOf(k, "k", "ES256"))
	jw.set(func(q *upReq) upAct {
		return upAct{Raw: fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(doc), doc), Close: true}
	})
	unknown := forge(`{"alg":"ES256","kid":"other"}`, `{"sub":"x"}`, "ES256", k)
	limits := []int{8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 32}
	if thorough() {
		limits = nil
		for n := 7; n < 40; n++ {
			limits = append(limits, n)
		}
		limits = append(limits, 64, 200)
	}
	g := newGroup(400)
	var wmu sync.Mutex
	for _, secure := range []bool{false, true} {
		kinds := []string{"silent", "half a head", "hanging", "jwks"}
		if secure {
			kinds = []string{"silent", "half a handshake"}
		}
		for _, kind := range kinds {
			for _, n := range limits {
				for _, from := range []time.Duration{0, 5 * time.Second} {
					if !thorough() && from == 0 && n%3 != 0 {
						continue
					}
					secure, kind, n, from := secure, kind, n, from
					g.do(fmt.Sprintf("%d files, tls=%v, %s, from %v", n, secure, kind, from), func() (string, string) {
						yml := c23Yml(up.port, deadPort(), 1, secure, nil)
						if kind == "jwks" {
							yml = fmt.Sprintf("connection: {downstream: {port: {{PORT}}}}\njwt: {j: {alg: ES256, jwksUrl: 'http://localhost:%d/k'}}\nroutes: [{path: /api, resource: api}, {path: /sec, resource: api, jwt: j}, {path: /about, resource: about}]\nresources: {api: [{url: {scheme: http, host: localhost, port: %d}}]}\n", jw.port, up.port)
						}
						wmu.Lock()
						s := boot(yml, fmt.Sprintf("@nofile=%d", n), "LOGLEVEL=WARN")
						wmu.Unlock()
						if s == nil {
							return "", "no boot"
						}
						defer s.stop()
						born := time.Now()
						var tlsc *tls.Config
						if secure {
							tlsc = &tls.Config{InsecureSkipVerify: true}
						}
						cl := &wclient{addr: s.addr(), tls: tlsc}
						dead := func() string {
							if !s.exited() {
								return ""
							}
							o := s.out.String()
							if i := strings.Index(o, "panic"); i > 0 {
								o = o[i:]
							}
							if len(o) > 600 {
								o = o[:600]
							}
							return fmt.Sprintf("the server died %v after its start: %s", time.Since(born), o)
						}
						time.Sleep(from)
						b := cl.conn()
						ask := func(c *wconn, target, hdr string) (int, error) {
							c.SetDeadline(time.Now().Add(15 * time.Second))
							io.WriteString(c, "GET "+target+" HTTP/1.1\r\nHost: gw\r\n"+hdr+"\r\n")
							r := c.readResp("GET", 15*time.Second)
							return r.Status, r.Err
						}
						if b != nil {
							if st, err := ask(b, "/about", ""); err != nil || st != 200 {
								b.Close()
								b = nil // not even one client fits
							}
						}
						var crowd []io.Closer
						for i := 0; i < n+10; i++ {
							c := dialRaw(s.addr())
							if c == nil {
								break
							}
							crowd = append(crowd, c)
							switch kind {
							case "half a head":
								io.WriteString(c, "GET /about HT")
							case "half a handshake":
								io.WriteString(c, "\x16\x03\x01\x02\x00\x01\x00")
							case "hanging":
								io.WriteString(c, "GET /api/hang HTTP/1.1\r\nHost: gw\r\n\r\n")
							case "jwks":
								io.WriteString(c, "GET /sec/x HTTP/1.1\r\nHost: gw\r\nAuthorization: Bearer "+unknown+"\r\n\r\n")
							}
						}
						out := fmt.Sprint(b != nil)
						problem := ""
						for problem == "" && time.Since(born) < 68*time.Second {
							if p := dead(); p != "" {
								problem = p
								break
							}
							if b != nil {
								st, err := ask(b, "/about", "")
								if p := dead(); p != "" {
									problem = p
								} else if err != nil || st != 200 {
									problem = fmt.Sprintf("a client that was there before got %d (%v) %v after the start", st, err, time.Since(born))
								}
							}
							time.Sleep(3 * time.Second)
						}
						for _, c := range crowd {
							c.Close()
						}
						if problem == "" {
							time.Sleep(3 * time.Second)
							if problem = dead(); problem == "" && b != nil {
								if st, err := ask(b, "/api/fine", ""); err != nil || st != 200 && st != 502 {
									problem = fmt.Sprintf("a client that was there before got %d (%v) after the crowd had left", st, err)
								}
								b.Close()
								time.Sleep(time.Second)
								c := (&wclient{addr: s.addr(), tls: tlsc}).conn()
								if c == nil {
									problem = "a client is not accepted after the crowd had left"
								} else {
									st, err := ask(c, "/about", "")
									if err != nil || st != 200 {
										problem = fmt.Sprintf("a client got %d (%v) after the crowd had left", st, err)
									}
									out += fmt.Sprint(st)
									c.Close()
								}
							}
						}
						return problem, out
					})
				}
			}
		}
	}
	g.wait()
}
