//go:build go1.21

package j8a

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C04"] = checkC04
	checks["C04h"] = checkC04h
}

const c04Max = 64

func c04Yml(up int, max int, rd int) string {
	return fmt.Sprintf(`
connection:
  downstream: {port: {{PORT}}, maxBodyBytes: %d, readTimeoutSeconds: %d}
  upstream: {maxAttempts: 2}
routes:
  - {path: /api, resource: api}
  - {path: /tr, resource: api, transform: /v2}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, max, rd, up)
}

// contents gives bodies of this size made of different kinds of bytes
func contents(n int) map[string]string {
	out := map[string]string{}
	text := strings.Repeat(`{"key":"value","n":1}`+"\r\n0\r\n\r\n", n/20+1)[:n]
	out["text"] = text
	all := make([]byte, n)
	for i := range all {
		all[i] = byte(i*7 + 0x80)
	}
	out["bytes"] = string(all)
	out["zero"] = strings.Repeat("\x00", n)
	if n > 20 {
		g := refGzip([]byte("gzip as entity of a request"))
		if len(g) < n {
			out["gzip"] = string(g) + strings.Repeat("z", n-len(g))
		}
	}
	return out
}

// refChunks decodes a chunked body. strict: exactly per RFC 7230; lenient: tolerates what servers may tolerate.
func refChunks(raw string, strict bool) (body string, rest string, ok bool) {
	line := func() (string, bool) {
		i := strings.IndexByte(raw, '\n')
		if i < 0 {
			return "", false
		}
		l := raw[:i]
		raw = raw[i+1:]
		if strings.HasSuffix(l, "\r") {
			l = l[:len(l)-1]
		} else if strict {
			return "", false
		}
		return l, true
	}
	for {
		l, k := line()
		if !k {
			return body, raw, false
		}
		sz := strings.SplitN(l, ";", 2)[0]
		if strict && strings.ContainsAny(l, ";\t \x00\r") {
			return body, raw, false // legal maybe, but not demanded
		}
		if !strict {
			sz = strings.Trim(sz, " \t\r\x00")
		}
		if sz == "" || len(sz) > 15 {
			return body, raw, false
		}
		for _, c := range sz {
			if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
				return body, raw, false
			}
		}
		n, _ := strconv.ParseInt(sz, 16, 64)
		if n == 0 {
			for {
				l, k := line()
				if !k {
					return body, raw, false
				}
				if l == "" {
					return body, raw, true
				}
				i := strings.IndexByte(l, ':')
				if strict || i <= 0 {
					return body, raw, !strict
				}
			}
		}
		if int64(len(raw)) < n {
			return body + raw, "", false
		}
		body += raw[:n]
		raw = raw[n:]
		switch {
		case strings.HasPrefix(raw, "\r\n"):
			raw = raw[2:]
		case !strict && strings.HasPrefix(raw, "\n"):
			raw = raw[1:]
		default:
			return body, raw, false
		}
	}
}

func chunkUp(body string, sizes []int) string {
	o := ""
	for _, n := range sizes {
		if n > len(body) {
			n = len(body)
		}
		if n > 0 {
			o += fmt.Sprintf("%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
	}
	if body != "" {
		o += fmt.Sprintf("%x\r\n%s\r\n", len(body), body)
	}
	return o + "0\r\n\r\n"
}

// sendSegs writes the segments one by one on a connection of its own and reads everything that comes back
func sendSegs(addr string, method string, segs []string, gap time.Duration, end string, patience time.Duration) *wresp {
	c := dialRaw(addr)
	if c == nil {
		return &wresp{Err: errors.New("cannot connect")}
	}
	defer c.Close()
	for i, s := range segs {
		if i > 0 && gap > 0 {
			time.Sleep(gap)
		}
		if _, err := io.WriteString(c, s); err != nil {
			break
		}
	}
	switch end {
	case "fin":
		c.Conn.(*net.TCPConn).CloseWrite()
	case "rst":
		time.Sleep(time.Millisecond)
		c.Close()
		return &wresp{Err: errNoResp}
	}
	return c.readResp(method, patience)
}

type forbiddenList struct {
	up  *rawUp
	ids map[string]string
}

// end reports requests that reached an upstream although their case forbade it
func (f *forbiddenList) end() {
	if len(f.ids) == 0 {
		return
	}
	time.Sleep(400 * time.Millisecond)
	for id, key := range f.ids {
		if q := f.up.take(id); len(q) > 0 {
			R.Violate(key, "a request that must not be forwarded reached the upstream: %s", q[0])
			return
		}
	}
}

func checkC04() {
	R.Rule = "all combinations of method, framing, chunking, body size around the limit, kind of content, way of sending, Expect and first attempt failures, every truncation point of a body, every one-byte mutation of a chunked body out of an alphabet of bytes and a list of contradictory framings are sent as raw bytes to the real server, whose raw upstream records what it gets; a case passes if the body arrives whole and equal, or is refused as the framing reference demands and never seen by the upstream"
	up := newRawUp("up", nil)
	s := mustBoot(c04Yml(up.port, c04Max, 20))
	defer s.stop()
	cl := &wclient{addr: s.addr()}
	forb := &forbiddenList{up, map[string]string{}}
	id := 0
	next := func() string { id++; return fmt.Sprintf("c%d", id) }
	failFirst := func(q *upReq) upAct {
		if len(q.get("X-Fail")) > 0 && q.N == 1 {
			switch q.get("X-Fail")[0] {
			case "500":
				return upAct{Raw: "HTTP/1.1 500 no\r\nContent-Length: 2\r\n\r\nno"}
			case "close":
				return upAct{Close: true}
			}
		}
		return ok200("fine")
	}
	up.set(failFirst)

	sizes := []int{0, 1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 1000}
	if thorough() {
		sizes = nil
		for i := 0; i < 140; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 4095, 4096, 4097, 65536, 300000)
	}
	chunkings := map[string][]int{"one": {1 << 20}, "halves": {31, 1 << 20}, "ones": nil, "grow": {1, 2, 4, 8, 16, 32, 64}}
	for i := 0; i < 1100; i++ {
		chunkings["ones"] = append(chunkings["ones"], 1)
	}
	expectBody := func(cid, key, method, body string, r *wresp, attempts int) string {
		q := up.take(cid)
		if len(body) > c04Max {
			if len(q) > 0 {
				return fmt.Sprintf("body of %d bytes exceeds the limit of %d but reached the upstream: %s", len(body), c04Max, q[0])
			}
			forb.ids[cid] = key
			if r.Err != nil || r.Status != 413 {
				return fmt.Sprintf("body of %d bytes exceeds the limit of %d, response is %s", len(body), c04Max, r)
			}
			return ""
		}
		if len(body) == c04Max && len(q) == 0 && r.Status == 413 {
			return ""
		}
		if r.Err != nil || r.Status != 200 {
			return fmt.Sprintf("request with a body of %d bytes got %s", len(body), r)
		}
		if len(q) != attempts {
			return fmt.Sprintf("%d requests reached the upstream instead of %d", len(q), attempts)
		}
		for _, x := range q {
			if x.BodyErr != nil || !x.Done {
				return fmt.Sprintf("body arrived broken: %v", x.BodyErr)
			}
			if string(x.Body) != body {
				return fmt.Sprintf("body arrived as %q instead of %q", x.Body, body)
			}
			if x.Method != method {
				return fmt.Sprintf("arrived as %s", x.Line)
			}
		}
		return ""
	}
	// what a body may look like, and what its type may say of it
	var bodies []string
	for c := 0; c < 256; c++ {
		x := string([]byte{byte(c)})
		bodies = append(bodies, x, x+"rest", "rest"+x)
	}
	nb := len(bodies)
	bodies = append(bodies, "\xef\xbb\xbf{}", "\xef\xbb\xbf", "\xff\xfeh\x00i\x00", "\xfe\xff\x00h\x00i", "  ", "\n\n", "\r\n", " \t\r\n ", "\n{}", "{}\n", " {} ", "{ \"a\" : 1 }", "{\"a\":1,\"a\":2}", "null", "{}", "[]", "a=b&a=c", "a=b+c%20d&e", "&", "=", "a;b", "%zz", "--x\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--x--\r\n", "--x--", "\x1f\x8b", "\x1f\x8bno gzip", string(refGzip([]byte("gz"))), "0\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "<a>\r</a>", "caf\xe9", "\xc3\xa9", "\xed\xa0\x80", "\x00", "\x00\x00\x00\x00")
	types := []string{"", "application/octet-stream", "application/json", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "text/plain; charset=utf-16", "application/gzip", "text/xml", "bogus"}
	for bi, body := range bodies {
		for ti, t := range types {
			if bi < nb && ti != bi%len(types) {
				continue
			}
			for mi, m := range []string{"POST", "PUT", "DELETE"} {
				for fi, fr := range []string{"cl", "one", "ones"} {
					if bi < nb && (bi/3+mi+fi)%2 != 0 {
						continue
					}
					for _, ce := range []string{"", "gzip"} {
						if ce != "" && bi < nb {
							continue
						}
						cid := next()
						key := fmt.Sprintf("looks %s %.40q %s %s %q", m, body, t, fr, ce)
						wireCase(key, func() (string, string) {
							h := fmt.Sprintf("%s /api/b?a=z&q HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\n", m, cid)
							if t != "" {
								h += "Content-Type: " + t + "\r\n"
							}
							if ce != "" {
								h += "Content-Encoding: gzip\r\n"
							}
							payload := body
							if fr == "cl" {
								h += fmt.Sprintf("Content-Length: %d\r\n", len(body))
							} else {
								h += "Transfer-Encoding: chunked\r\n"
								payload = chunkUp(body, chunkings[fr])
							}
							r := cl.do(m, h+"\r\n"+payload)
							return expectBody(cid, key, m, body, r, 1), fmt.Sprint("looks ", r.Status)
						})
					}
				}
			}
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE", "GET", "OPTIONS"} {
		for _, n := range sizes {
			cont := contents(n)
			for _, kind := range []string{"text", "bytes", "zero", "gzip"} {
				body, ok := cont[kind]
				if !ok || (kind == "zero" && m != "PUT") {
					continue
				}
				for _, fr := range []string{"cl", "one", "halves", "ones", "grow"} {
					for _, way := range []string{"whole", "split", "bytes", "expect"} {
						if way == "bytes" && (n > 128 || kind != "bytes") {
							continue
						}
						if way == "split" && kind != "text" && !thorough() {
							continue
						}
						for _, fail := range []string{"", "500", "close"} {
							if fail != "" && (m != "PUT" && m != "DELETE" || way != "whole") {
								continue
							}
							cid := next()
							key := fmt.Sprintf("%s %d %s %s %s fail=%s", m, n, kind, fr, way, fail)
							wireCase(key, func() (string, string) {
								h := fmt.Sprintf("%s /api/b HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\nContent-Type: application/octet-stream\r\n", m, cid)
								if kind == "gzip" {
									h += "Content-Encoding: gzip\r\n"
								}
								attempts := 1
								if fail != "" {
									h += "X-Fail: " + fail + "\r\n"
									attempts = 2
								}
								payload := body
								if fr == "cl" {
									h += fmt.Sprintf("Content-Length: %d\r\n", n)
								} else {
									h += "Transfer-Encoding: chunked\r\n"
									payload = chunkUp(body, chunkings[fr])
								}
								var r *wresp
								switch way {
								case "whole":
									r = cl.do(m, h+"\r\n"+payload)
								case "split":
									r = sendSegs(s.addr(), m, []string{h, "\r\n", payload[:len(payload)/2], payload[len(payload)/2:]}, time.Millisecond, "", 10*time.Second)
								case "bytes":
									segs := []string{h + "\r\n"}
									for i := range payload {
										segs = append(segs, payload[i:i+1])
									}
									r = sendSegs(s.addr(), m, segs, 0, "", 10*time.Second)
								case "expect":
									r = sendSegs(s.addr(), m, []string{h + "Expect: 100-continue\r\n\r\n", payload}, time.Millisecond, "", 10*time.Second)
								}
								if fail == "close" {
									// a transport may itself repeat on a fresh connection what a stale one did not answer
									q := up.take(cid)
									for _, x := range q {
										if n <= c04Max && (string(x.Body) != body || x.BodyErr != nil) || n > c04Max {
											return fmt.Sprintf("body arrived as %q instead of %q (%v)", x.Body, body, x.BodyErr), ""
										}
									}
									if n < c04Max && (r.Status != 200 || len(q) < 2) {
										return fmt.Sprintf("response %s after %d attempts", r, len(q)), ""
									}
									return "", fmt.Sprint(r.Status)
								}
								return expectBody(cid, key, m, body, r, attempts), fmt.Sprint(r.Status, len(r.Body))
							})
						}
					}
				}
			}
		}
	}

	// HTTP/2, with and without a declared length
	cert := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
	ts := mustBoot(strings.Replace(c04Yml(up.port, c04Max, 20), fmt.Sprintf("{port: {{PORT}}, maxBodyBytes: %d, readTimeoutSeconds: 20}", c04Max),
		fmt.Sprintf("\n    port: {{PORT}}\n    maxBodyBytes: %d\n    mode: TLS\n    cert: ", c04Max)+yamlBlock(pemCerts(cert), 6)+"    key: "+yamlBlock(pemKey(cert.key), 6), 1))
	defer ts.stop()
	h2, h2n := newH2(ts.addr()), newH2(ts.addr())
	h2n.nolen = true
	for _, m := range []string{"POST", "PUT", "DELETE", "GET", "OPTIONS"} {
		for _, n := range sizes {
			cont := contents(n)
			for _, kind := range []string{"text", "bytes", "zero", "gzip"} {
				body, ok := cont[kind]
				if !ok {
					continue
				}
				for _, fail := range []string{"", "500"} {
					if fail != "" && m != "PUT" && m != "DELETE" {
						continue
					}
					for i, h := range []*h2client{h2, h2n} {
						cid := next()
						wireCase(fmt.Sprintf("h2 %s %d %s %d fail=%s", m, n, kind, i, fail), func() (string, string) {
							hd := [][2]string{{"X-Case", cid}}
							attempts := 1
							if fail != "" {
								hd = append(hd, [2]string{"X-Fail", fail})
								attempts = 2
							}
							r := h.do(m, "/api/b", hd, []byte(body))
							return expectBody(cid, "h2", m, body, r, attempts), fmt.Sprint(r.Status, len(r.Body))
						})
					}
				}
			}
		}
	}

	// never: a request that must not reach the upstream
	never := func(cid, key string, r *wresp, wantResp bool) (string, string) {
		if q := up.take(cid); len(q) > 0 {
			return fmt.Sprintf("incomplete or malformed request body was forwarded: %s", q[0]), ""
		}
		forb.ids[cid] = key
		if wantResp && (r.Err != nil || r.Status < 400) {
			return fmt.Sprintf("response is %s", r), ""
		}
		return "", fmt.Sprint(r.Status)
	}
	// every truncation point
	for _, m := range []string{"POST", "PUT", "GET"} {
		for _, n := range []int{1, 2, 20, 63} {
			body := contents(n)["bytes"]
			for _, fr := range []string{"cl", "one", "grow", "trailer"} {
				payload := body
				h := fmt.Sprintf("%s /api/t HTTP/1.1\r\nHost: x\r\n", m)
				switch fr {
				case "cl":
					h += fmt.Sprintf("Content-Length: %d\r\n", n)
				case "trailer":
					h += "Transfer-Encoding: chunked\r\nTrailer: X-T\r\n"
					payload = strings.TrimSuffix(chunkUp(body, []int{7}), "\r\n") + "X-T: v\r\n\r\n"
				default:
					h += "Transfer-Encoding: chunked\r\n"
					payload = chunkUp(body, chunkings[fr])
				}
				for cut := 0; cut < len(payload); cut++ {
					for _, end := range []string{"fin", "rst"} {
						if end == "rst" && cut%3 != 0 && !thorough() {
							continue
						}
						cid := next()
						key := fmt.Sprintf("truncated %s %d %s at %d %s", m, n, fr, cut, end)
						wireCase(key, func() (string, string) {
							r := sendSegs(s.addr(), m, []string{h + "X-Case: " + cid + "\r\n\r\n" + payload[:cut]}, 0, end, 10*time.Second)
							if fr != "cl" && cut >= len(payload)-2 {
								// all data and the last chunk are there, only the end of the trailer section is missing:
								// the entity itself is complete
								for _, x := range up.take(cid) {
									if string(x.Body) != body || x.BodyErr != nil {
										return fmt.Sprintf("body arrived as %q", x.Body), ""
									}
								}
								return "", "late cut"
							}
							return never(cid, key, r, false)
						})
					}
				}
			}
		}
	}
	// one byte mutations of chunked bodies
	alpha := []byte("0g\r\n; -Ff1\x00\xff:")
	for _, sz := range [][]int{{3, 5}, {10}, {1, 1, 1}} {
		good := chunkUp("abcdefgh1\n", sz)
		for pos := 0; pos <= len(good); pos++ {
			for _, op := range []string{"set", "ins", "del"} {
				for _, b := range alpha {
					if op == "del" && b != alpha[0] {
						continue
					}
					if pos == len(good) && op != "ins" {
						continue
					}
					var mut string
					switch op {
					case "set":
						mut = good[:pos] + string([]byte{b}) + good[pos+1:]
					case "ins":
						mut = good[:pos] + string([]byte{b}) + good[pos:]
					case "del":
						mut = good[:pos] + good[pos+1:]
					}
					c04Chunk(s, up, forb, next(), "PUT", fmt.Sprintf("mutated %v %s %d %#x", sz, op, pos, b), mut, "")
				}
			}
		}
	}
	// other chunked oddities
	for i, raw := range []string{
		"5;ext=1\r\nhello\r\n0\r\n\r\n", "5 ;ext\r\nhello\r\n0\r\n\r\n", "05\r\nhello\r\n0\r\n\r\n", "00000005\r\nhello\r\n000\r\n\r\n",
		"5\r\nhello\r\n0\r\nX-T: 1\r\n\r\n", "5\r\nhello\r\n0\r\nbad trailer\r\n\r\n", "ffffffffffffffff\r\nhello\r\n0\r\n\r\n", "fffffffffffffffff\r\nhello\r\n0\r\n\r\n",
		"8000000000000000\r\nhello\r\n0\r\n\r\n", "7fffffffffffffff\r\nhello\r\n0\r\n\r\n", "-5\r\nhello\r\n0\r\n\r\n", "+5\r\nhello\r\n0\r\n\r\n", "0x5\r\nhello\r\n0\r\n\r\n",
		"5\r\nhello", "5\r\nhello\r\n", "5\r\nhel", "", "\r\n", "A\r\n0123456789\r\n0\r\n\r\n", "a\r\n0123456789\r\n0\r\n\r\n", "40\r\n" + strings.Repeat("x", 64) + "\r\n0\r\n\r\n", "41\r\n" + strings.Repeat("x", 65) + "\r\n0\r\n\r\n",
		"3f\r\n" + strings.Repeat("x", 63) + "\r\n1\r\ny\r\n1\r\nz\r\n0\r\n\r\n", "3f\r\n" + strings.Repeat("x", 63) + "\r\n1\r\ny\r\n1\r\nz\r\ng\r\n\r\n", "ffff\r\n" + strings.Repeat("x", 65535) + "\r\n",
	} {
		for _, m := range []string{"PUT", "POST"} {
			c04Chunk(s, up, forb, next(), m, fmt.Sprintf("odd %s %d", m, i), raw, "")
			c04Chunk(s, up, forb, next(), m, fmt.Sprintf("odd %s %d with CL", m, i), raw, "Content-Length: 5\r\n")
		}
	}
	// contradictory or malformed lengths: forwarded only with exactly these five bytes
	for _, hd := range []string{"Content-Length: 5\r\nContent-Length: 5\r\n", "Content-Length: 5, 5\r\n", "Content-Length: 5\r\nContent-Length: 6\r\n", "Content-Length: -5\r\n", "Content-Length: +5\r\n", "Content-Length: 0x5\r\n", "Content-Length: 5 \r\n", "Content-Length:5\r\n",
		"Content-Length: 05\r\n", "Content-Length: 18446744073709551621\r\n", "Content-Length: 9223372036854775808\r\n", "Content-Length: 9223372036854775807\r\n", "Content-Length: five\r\n",
		"Transfer-Encoding: identity\r\nContent-Length: 5\r\n", "Transfer-Encoding: gzip\r\n", "Transfer-Encoding: gzip, chunked\r\n", "Transfer-Encoding: chunked, chunked\r\n", "Transfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n", "Transfer-Encoding: \r\nContent-Length: 5\r\n", "Transfer-Encoding: xchunked\r\n"} {
		for _, m := range []string{"PUT", "POST", "GET"} {
			for _, ver := range []string{"1.1", "1.0"} {
				cid := next()
				key := fmt.Sprintf("length %s %s %q", m, ver, hd)
				wireCase(key, func() (string, string) {
					r := sendSegs(s.addr(), m, []string{fmt.Sprintf("%s /api/l HTTP/%s\r\nHost: x\r\nX-Case: %s\r\n%s\r\nhello", m, ver, cid, hd)}, 0, "fin", 10*time.Second)
					for _, x := range up.take(cid) {
						if ver == "1.0" && strings.Contains(hd, "Transfer") && len(x.Body) == 0 {
							continue // HTTP/1.0 knows no transfer codings: without a length there is no body
						}
						if string(x.Body) != "hello" || x.BodyErr != nil {
							return fmt.Sprintf("request with headers %q was forwarded with body %q", hd, x.Body), ""
						}
					}
					if strings.Contains(hd, "Content-Length: 5\r\n") && !strings.Contains(hd, "6") && !strings.Contains(hd, "Transfer") && r.Status != 200 {
						return fmt.Sprintf("response is %s", r), ""
					}
					return "", fmt.Sprint(r.Status)
				})
			}
		}
	}
	forb.end()

	// a body that stalls until the read timeout is never forwarded
	wireCase("stalled bodies", func() (string, string) {
		s2 := mustBoot(c04Yml(up.port, c04Max, 1))
		defer s2.stop()
		c := dialRaw(s2.addr())
		c2 := dialRaw(s2.addr())
		defer c.Close()
		defer c2.Close()
		io.WriteString(c, "PUT /api/s HTTP/1.1\r\nHost: x\r\nX-Case: stall1\r\nContent-Length: 10\r\n\r\nabc")
		io.WriteString(c2, "PUT /api/s HTTP/1.1\r\nHost: x\r\nX-Case: stall2\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n")
		r := c.readResp("PUT", 10*time.Second)
		r2 := c2.readResp("PUT", 10*time.Second)
		time.Sleep(300 * time.Millisecond)
		if q := append(up.take("stall1"), up.take("stall2")...); len(q) > 0 {
			return "a body that never arrived in full was forwarded: " + q[0].String(), ""
		}
		if (r.Err == nil && r.Status < 400) || (r2.Err == nil && r2.Status < 400) {
			return fmt.Sprint("response is ", r, r2), ""
		}
		return "", fmt.Sprint(r.Status, r2.Status)
	})
	// the default limit of 2 MiB and large bodies
	for _, n := range []int{1 << 20, 2<<20 - 1, 2<<20 + 1, 5 << 20} {
		for _, fr := range []string{"cl", "chunked"} {
			cid := next()
			wireCase(fmt.Sprintf("default limit %d %s", n, fr), func() (string, string) {
				s2 := mustBoot(c04Yml(up.port, 0, 0))
				defer s2.stop()
				body := strings.Repeat("0123456789abcdef", n/16+1)[:n]
				h := fmt.Sprintf("PUT /tr/big HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\n", cid)
				var segs []string
				if fr == "cl" {
					segs = []string{h + fmt.Sprintf("Content-Length: %d\r\n\r\n", n), body}
				} else {
					segs = []string{h + "Transfer-Encoding: chunked\r\n\r\n", chunkUp(body, []int{100000, 1, 32768, 300000})}
				}
				done := make(chan *wresp, 1)
				c := dialRaw(s2.addr())
				defer c.Close()
				go func() { done <- c.readResp("PUT", 20*time.Second) }()
				for _, x := range segs {
					io.WriteString(c, x)
				}
				r := <-done
				q := up.take(cid)
				if n >= 2<<20 {
					if len(q) > 0 || r.Status != 413 {
						return fmt.Sprintf("%d bytes: response %s, %d forwarded", n, r, len(q)), ""
					}
					return "", "413"
				}
				if r.Status != 200 || len(q) != 1 || string(q[0].Body) != body {
					return fmt.Sprintf("%d bytes: response %s, %d forwarded", n, r, len(q)), ""
				}
				return "", "200"
			})
		}
	}
	if s.exited() {
		R.Violate(curCase, "the server died: %s", s.out.String())
	}
}

func c04Chunk(s *srv, up *rawUp, forb *forbiddenList, cid, m, key, raw, hd string) {
	wireCase(key, func() (string, string) {
		strictBody, srest, strictOK := refChunks(raw, true)
		lenBody, _, lenOK := refChunks(raw, false)
		r := sendSegs(s.addr(), m, []string{fmt.Sprintf("%s /api/m HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\n%sTransfer-Encoding: chunked\r\n\r\n%s", m, cid, hd, raw)}, 0, "fin", 10*time.Second)
		q := up.take(cid)
		if !lenOK || len(lenBody) > c04Max {
			if len(q) > 0 {
				return fmt.Sprintf("malformed body %q was forwarded: %s", raw, q[0]), ""
			}
			forb.ids[cid] = key
			if len(lenBody) > c04Max && lenOK && r.Status != 413 {
				return fmt.Sprintf("oversize body got %s", r), ""
			}
			if r.Err == nil && r.Status < 400 {
				return fmt.Sprintf("malformed body %q got %s", raw, r), ""
			}
			return "", fmt.Sprint("refused ", r.Status)
		}
		if strictOK && len(strictBody) < c04Max && hd == "" {
			if r.Status != 200 || len(q) != 1 {
				return fmt.Sprintf("valid body %q got %s, %d forwarded", raw, r, len(q)), ""
			}
		}
		for _, x := range q {
			if string(x.Body) != lenBody || x.BodyErr != nil {
				return fmt.Sprintf("body %q was forwarded as %q (%v)", raw, x.Body, x.BodyErr), ""
			}
		}
		_ = srest
		return "", fmt.Sprint(r.Status)
	})
}

// ---- handler level: every way a body can arrive ----

type scriptBody struct {
	data string
	cuts []int // sizes of reads
	zero bool  // interleave reads of no bytes
	end  string
	n    int
	z    bool
}

func (b *scriptBody) Read(p []byte) (int, error) {
	if b.zero && !b.z {
		b.z = true
		return 0, nil
	}
	b.z = false
	if b.n >= len(b.cuts) {
		return 0, b.err()
	}
	k := b.cuts[b.n]
	if k > len(p) {
		k = len(p)
	}
	copy(p, b.data[:k])
	b.data = b.data[k:]
	if k == b.cuts[b.n] {
		b.n++
	} else {
		b.cuts[b.n] -= k
	}
	if b.n == len(b.cuts) && strings.HasPrefix(b.end, "with-") {
		return k, b.err()
	}
	return k, nil
}

func (b *scriptBody) err() error {
	switch b.end {
	case "eof", "with-eof":
		return io.EOF
	case "unexpected", "with-unexpected":
		return io.ErrUnexpectedEOF
	}
	return errors.New("connection reset by peer")
}
func (b *scriptBody) Close() error { return nil }

type recClient struct {
	seen []string
	last []*http.Request
	resp func(*http.Request, int) (*http.Response, error)
}

func (c *recClient) Get(string) (*http.Response, error) { return nil, errors.New("no") }
func (c *recClient) Do(r *http.Request) (*http.Response, error) {
	b := []byte{}
	if r.Body != nil {
		b, _ = ioutil.ReadAll(r.Body)
	}
	c.seen = append(c.seen, string(b))
	c.last = append(c.last, r)
	if c.resp != nil {
		return c.resp(r, len(c.seen))
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: ioutil.NopCloser(bytes.NewReader([]byte("ok"))), Request: r}, nil
}

func compositions(n int, f func([]int)) {
	if n == 0 {
		f(nil)
		return
	}
	var rec func(rest int, cur []int)
	rec = func(rest int, cur []int) {
		if rest == 0 {
			f(append([]int(nil), cur...))
			return
		}
		for i := 1; i <= rest; i++ {
			rec(rest-i, append(cur, i))
		}
	}
	rec(n, nil)
}

func checkC04h() {
	R.Rule = "every composition of a body of up to N bytes into reads (also interleaved with empty reads), for known and unknown lengths, ending with EOF (alone or with the last bytes) or an error, below, at and above the limit, through the real handler: forwarded byte for byte, or refused and never forwarded"
	max := 8
	top := pick(11, 14)
	yml := fmt.Sprintf(`
connection:
  downstream: {maxBodyBytes: %d}
  upstream: {maxAttempts: 2}
routes: [{path: /api, resource: api}]
resources: {api: [{url: {scheme: http, host: api.test, port: 8001}}]}
`, max)
	Runner = &Runtime{Config: *bootChain(yml), Start: time.Now()}
	cl := &recClient{}
	httpClient = cl
	for n := 0; n <= top; n++ {
		data := string([]byte("\x1f\x8b\x00\xffabcdefghijkl")[:n])
		compositions(n, func(cuts []int) {
			for _, end := range []string{"eof", "with-eof", "unexpected", "with-unexpected", "reset"} {
				for _, known := range []int{-1, n, n + 1} {
					if (known == n+1) != strings.Contains(end, "unexpected") && known >= 0 {
						continue
					}
					if known == 0 {
						continue
					}
					for _, zero := range []bool{false, true} {
						key := fmt.Sprintf("n=%d cuts=%v end=%s len=%d zero=%v", n, cuts, end, known, zero)
						if !R.Mine(key) {
							continue
						}
						R.Before(key)
						curCase = key
						for _, m := range []string{"PUT", "POST"} {
							cl.seen = nil
							req := httptest.NewRequest(m, "/api/x", nil)
							req.Body = &scriptBody{data: data, cuts: append([]int(nil), cuts...), end: end, zero: zero}
							req.ContentLength = int64(known)
							if known < 0 {
								req.TransferEncoding = []string{"chunked"}
							}
							rec := newRec()
							proxyHandler(rec, req)
							good := strings.HasSuffix(end, "-eof") || end == "eof"
							p := ""
							code := 0
							if len(rec.Codes) == 1 {
								code = rec.Codes[0]
							}
							switch {
							case len(rec.Codes) != 1:
								p = fmt.Sprint("status lines ", rec.Codes)
							case n > max || known > max:
								if code != 413 || len(cl.seen) > 0 {
									if good || known > max || len(cl.seen) > 0 {
										p = fmt.Sprintf("oversize body: status %d, forwarded %q", code, cl.seen)
									}
								}
							case !good:
								if len(cl.seen) > 0 || code < 400 {
									p = fmt.Sprintf("broken body: status %d, forwarded %q", code, cl.seen)
								}
							case n < max:
								if code != 200 || len(cl.seen) != 1 || cl.seen[0] != data {
									p = fmt.Sprintf("body %q: status %d, forwarded %q", data, code, cl.seen)
								}
							default:
								for _, b := range cl.seen {
									if b != data {
										p = fmt.Sprintf("body %q: forwarded %q", data, b)
									}
								}
							}
							if p != "" {
								R.Violate(key, "%s: %s", m, p)
							}
							R.Steps += int64(len(cuts)) + 1
							R.Validated++
							R.Ran(key, fmt.Sprint(code, len(cl.seen)), n > 0)
						}
					}
				}
			}
		})
	}
}
