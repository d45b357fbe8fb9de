//go:build go1.21

package j8a

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"strings"
	"time"
)

func init() {
	checks["C05"] = checkC05
}

// refGzipOK tells whether gzip may be sent to a client with these Accept-Encoding lines
func refGzipOK(lines []string) bool {
	ok := false
	for _, l := range lines {
		for _, e := range strings.Split(l, ",") {
			p := strings.Split(e, ";")
			name := strings.ToLower(strings.TrimSpace(p[0]))
			if name != "gzip" && name != "x-gzip" && name != "*" {
				continue
			}
			zero := false
			for _, x := range p[1:] {
				x = strings.ToLower(strings.ReplaceAll(x, " ", ""))
				if strings.HasPrefix(x, "q=0") && strings.Trim(x[2:], "0.") == "" {
					zero = true
				}
			}
			if zero && name != "*" {
				return false
			}
			if !zero {
				ok = true
			}
		}
	}
	return ok
}

func acceptLines() [][]string {
	out := [][]string{nil, {""}}
	names := []string{"gzip", "GZIP", "x-gzip", "identity", "br", "*", "deflate", "notgzip", "gzipped"}
	qs := []string{"", ";q=1", ";q=0.5", ";q=0", "; q=0.0", ";q=0.000", " ; Q=0", ";q=0.001", ";q=1.000"}
	for _, n := range names {
		for _, q := range qs {
			out = append(out, []string{n + q})
		}
	}
	few := []string{"gzip", "gzip;q=0", "identity", "br", "identity;q=0", "gzip;q=0.3", "*", "*;q=0", "deflate;q=0"}
	for _, a := range few {
		for _, b := range few {
			if strings.HasPrefix(a, "gzip") && strings.HasPrefix(b, "gzip") {
				continue
			}
			out = append(out, []string{a + ", " + b})
			out = append(out, []string{a, b})
			if thorough() {
				out = append(out, []string{a + "," + b + ",compress"})
			}
		}
	}
	return out
}

type c05Body struct {
	name string
	data []byte
	// entity, if it differs from data, and the coding that data is in
	entity []byte
	coding string
}

func c05Bodies() []c05Body {
	text := []byte(`{"k":"` + strings.Repeat("value ", 30) + `"}`)
	big := []byte(strings.Repeat("0123456789 the quick brown fox ", 3000))
	for i := range big {
		big[i] ^= byte(i * i >> 3)
	}
	var multi bytes.Buffer
	multi.Write(refGzip([]byte("first,")))
	multi.Write(refGzip([]byte("second")))
	var stored bytes.Buffer
	w, _ := gzip.NewWriterLevel(&stored, gzip.NoCompression)
	w.Name = "file.txt"
	w.Write(text)
	w.Close()
	return []c05Body{
		{"empty", nil, nil, ""},
		{"text", text, text, ""},
		{"one", []byte("x"), []byte("x"), ""},
		{"two", []byte("xy"), []byte("xy"), ""},
		{"magic", []byte("\x1f\x8bnot gzip at all"), []byte("\x1f\x8bnot gzip at all"), ""},
		{"gzfile", refGzip(text), refGzip(text), ""},
		{"big", big, big, ""},
		{"gz", refGzip(text), text, "gzip"},
		{"gzempty", refGzip(nil), nil, "gzip"},
		{"gzone", refGzip([]byte("1")), []byte("1"), "gzip"},
		{"gzmulti", multi.Bytes(), []byte("first,second"), "gzip"},
		{"gzstored", stored.Bytes(), text, "gzip"},
		{"gzgz", refGzip(refGzip(text)), refGzip(text), "gzip"},
		{"gzbig", refGzip(big), big, "gzip"},
		{"opaque", []byte("\x0b\x02\x80opaque bytes of another coding\x03"), nil, "other"},
		{"opaquegz", refGzip(text), nil, "other"},
	}
}

var c05Labels = map[string][][]string{
	"":      {nil, {"identity"}, {""}, {"Identity"}},
	"gzip":  {{"gzip"}, {"GZIP"}, {"x-gzip"}, {" gzip "}},
	"other": {{"br"}, {"identity", "br"}, {"br", "identity"}, {"identity, br"}, {"identity", "gzip", "br"}, {"deflate"}, {"zstd"}, {"gzip, br"}, {"br", "gzip"}, {"br, gzip"}, {"aes128gcm"}},
}

func checkC05() {
	R.Rule = "all combinations of Accept-Encoding header (single codings with every spelling of a quality value, pairs in one or two lines), content coding label of the upstream, kind of body (really in that coding), status, method and framing are exchanged with the real server; what the client gets is decoded by its label with an independent decoder and compared with the upstream's entity; the same for every kind of generated response"
	up := newRawUp("up", nil)
	s := mustBoot(fmt.Sprintf(`
connection:
  downstream: {port: {{PORT}}, maxBodyBytes: 64}
  upstream: {readTimeoutSeconds: 1, maxAttempts: 1}
jwt:
  hs: {alg: HS256, key: "%s"}
routes:
  - {path: /about, resource: about}
  - {path: /api, resource: api}
  - {path: /sec, resource: api, jwt: hs}
  - {path: /none, resource: none}
resources:
  api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]
`, pxSecret, up.port))
	defer s.stop()
	cl := &wclient{addr: s.addr()}
	bodies := c05Bodies()
	ctype := "Content-Type: application/octet-stream\r\n"
	one := func(ae []string, label []string, b c05Body, status int, method, framing string) {
		key := fmt.Sprintf("%s %d ae=%q label=%q body=%s %s", method, status, ae, label, b.name, framing)
		ct := ctype
		if ct != "Content-Type: application/octet-stream\r\n" {
			key += fmt.Sprintf(" %q", ct)
		}
		wireCase(key, func() (string, string) {
			up.set(func(q *upReq) upAct {
				h := fmt.Sprintf("HTTP/1.1 %d Status\r\n%sX-Up: 1\r\n", status, ct)
				for _, l := range label {
					h += "Content-Encoding: " + l + "\r\n"
				}
				if status == 204 || status == 304 {
					return upAct{Raw: h + "\r\n"}
				}
				data := string(b.data)
				switch framing {
				case "cl":
					h += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(data))
				case "chunked":
					h += "Transfer-Encoding: chunked\r\n\r\n"
					data = chunkUp(data, []int{1, 5, 100000})
				case "close":
					h += "Connection: close\r\n\r\n"
				}
				if q.Method == "HEAD" {
					data = ""
				}
				return upAct{Raw: h + data, Close: framing == "close"}
			})
			req := fmt.Sprintf("%s /api/x HTTP/1.1\r\nHost: x\r\nX-Case: a\r\n", method)
			for _, a := range ae {
				req += "Accept-Encoding: " + a + "\r\n"
			}
			if method == "POST" {
				req += "Content-Length: 2\r\n\r\nhi"
			} else {
				req += "\r\n"
			}
			r := cl.do(method, req)
			up.take("a")
			if r.Err != nil {
				return fmt.Sprint("no proper response: ", r), ""
			}
			got := strings.Join(r.get("Content-Encoding"), ", ")
			out := fmt.Sprintf("%d %s", r.Status, got)
			want := status
			if status >= 500 {
				want = 502
			}
			if r.Status != want {
				return fmt.Sprintf("status %d instead of %d: %s", r.Status, want, r), out
			}
			return c05Judge(r, method, ae, status, b, label), out
		})
	}
	lines := acceptLines()
	for _, ae := range lines {
		for _, b := range bodies {
			for i, l := range c05Labels[b.coding] {
				if i > 2 && len(b.data) > 1000 {
					continue
				}
				one(ae, l, b, 200, "GET", "cl")
			}
		}
	}
	someAE := [][]string{nil, {"gzip"}, {"gzip;q=0"}, {"identity"}, {"br, gzip;q=0.5"}, {"*"}, {"deflate, br"}}
	for _, ae := range someAE {
		for _, b := range bodies {
			for i, l := range c05Labels[b.coding] {
				if i > 2 && !thorough() {
					continue
				}
				for _, st := range []int{200, 201, 202, 203, 204, 206, 226, 299, 300, 301, 302, 304, 307, 399, 400, 401, 404, 418, 429, 499, 500, 503} {
					for _, m := range []string{"GET", "POST", "HEAD", "OPTIONS", "TRACE", "DELETE", "PUT"} {
						for _, f := range []string{"cl", "chunked", "close"} {
							few := (st == 200 || st == 301 || st == 404 || st == 206)
							if !thorough() && !(few && (m == "GET" || m == "POST" || m == "HEAD")) && f != "cl" {
								continue
							}
							if !thorough() && !few && m != "GET" && m != "POST" {
								continue
							}
							if m == "HEAD" && f == "close" && st == 200 && len(b.data) == 0 {
								continue
							}
							one(ae, l, b, st, m, f)
						}
					}
				}
			}
		}
	}
	// sizes around those of buffers, easy and hard to compress; first and last bytes of all values; types that might be taken for compressed ones
	kinds := func(name string, data []byte) []c05Body {
		return []c05Body{{name, data, data, ""}, {"gz" + name, refGzip(data), data, "gzip"}}
	}
	fewAE := [][]string{nil, {"gzip"}, {"identity"}, {"gzip;q=0"}}
	noise := func(n int) []byte {
		b := make([]byte, n)
		x := uint32(2463534242)
		for i := range b {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b[i] = byte(x)
		}
		return b
	}
	sizes := []int{3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200, 255, 256, 257, 400, 511, 512, 513, 860, 1000, 1023, 1024, 1025, 1399, 1400, 1401, 1460, 1499, 1500, 1501, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1 << 17, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 21, 1<<21 + 1, 5 << 20}
	if thorough() {
		for n := 3; n < 3000; n += 7 {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 16<<20, 33<<20)
	}
	for _, n := range sizes {
		for k, d := range [][]byte{bytes.Repeat([]byte("{\"k\":1}\n"), n/8+1)[:n], noise(n)} {
			for _, b := range kinds(fmt.Sprintf("%d/%d", n, k), d) {
				for i, ae := range fewAE {
					if n > 1<<20+1 && (i == 0 || k == 0 && i == 3) {
						continue
					}
					for _, f := range []string{"cl", "chunked", "close"} {
						if n > 70000 && f == "close" {
							continue
						}
						one(ae, c05Labels[b.coding][0], b, 200, "GET", f)
					}
				}
			}
		}
	}
	for c := 0; c < 256; c++ {
		x := string([]byte{byte(c)})
		for _, d := range []string{x, x + "rest", "rest" + x, x + x, x + "\x8b", "\x1f" + x} {
			for _, b := range kinds(fmt.Sprintf("byte %q", d), []byte(d)) {
				for _, ae := range fewAE[1:3] {
					one(ae, c05Labels[b.coding][0], b, 200, "GET", "cl")
				}
			}
		}
	}
	for _, d := range []string{"\xef\xbb\xbf{}", "\xff\xfeh\x00i\x00", "\xfe\xff\x00h\x00i", " ", "\n", "\r\n", "\t \n", "\n\n{}", "{}\n\n", " {} ", "null", "{}", "[]", "0", "PK\x03\x04zip", "BZh9x", "\x28\xb5\x2f\xfd", "\xfd7zXZ\x00", "\x78\x9czlib", "\x89PNG\r\n\x1a\n", "%PDF-1.4", "\xff\xd8\xff\xe0", "<html>\x00</html>", "<?xml version='1.0' encoding='utf-16'?>", "data: x\n\n"} {
		for _, t := range []string{"", "image/png", "image/svg+xml", "application/gzip", "application/x-gzip", "application/zip", "application/json", "application/json; charset=utf-16", "text/html; charset=iso-8859-1", "text/event-stream", "video/mp4", "audio/mpeg", "font/woff2", "application/pdf", "application/wasm", "application/grpc", "multipart/byteranges; boundary=x", "application/octet-stream; x=gzip", "IMAGE/JPEG", "bogus"} {
			ctype = "Content-Type: " + t + "\r\n"
			if t == "" {
				ctype = "X-No-Type: 1\r\n"
			}
			for _, b := range kinds(fmt.Sprintf("%q", d), []byte(d)) {
				for _, ae := range fewAE {
					one(ae, c05Labels[b.coding][0], b, 200, "GET", "cl")
				}
			}
		}
	}
	ctype = "Content-Type: application/octet-stream\r\n"
	// what the gateway says itself
	gens := []struct {
		name, method, req string
		code              int
	}{
		{"about", "GET", "GET /about HTTP/1.1\r\nHost: x\r\n", 200},
		{"about post", "POST", "POST /about HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n", 200},
		{"no route", "GET", "GET /nowhere HTTP/1.1\r\nHost: x\r\n", 404},
		{"no token", "GET", "GET /sec/x HTTP/1.1\r\nHost: x\r\n", 401},
		{"bad method", "PATCH", "PATCH /api/x HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n", 400},
		{"no resource", "GET", "GET /none HTTP/1.1\r\nHost: x\r\n", 503},
		{"too large", "PUT", "PUT /api/x HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n", 413},
		{"upstream resets", "POST", "POST /api/x HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\nX-Do: close\r\n", 502},
		{"upstream hangs", "POST", "POST /api/x HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\nX-Do: hang\r\n", 504},
		{"broken gzip", "POST", "POST /api/x HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\nX-Do: cut\r\n", 502},
	}
	for _, g := range gens {
		for _, ae := range lines {
			if g.code == 504 {
				one := false
				for _, s := range someAE {
					one = one || fmt.Sprint(s) == fmt.Sprint(ae)
				}
				if !one {
					continue
				}
			}
			key := fmt.Sprintf("generated %s ae=%q", g.name, ae)
			wireCase(key, func() (string, string) {
				up.set(func(q *upReq) upAct {
					switch d := q.get("X-Do"); {
					case len(d) == 0:
						return ok200("x")
					case d[0] == "close":
						return upAct{Close: true}
					case d[0] == "cut":
						return upAct{Raw: "HTTP/1.1 200 OK\r\nContent-Length: 100\r\nContent-Encoding: gzip\r\n\r\n\x1f\x8b", Close: true}
					}
					return upAct{Hang: true}
				})
				req := g.req + "X-Case: g\r\n"
				for _, a := range ae {
					req += "Accept-Encoding: " + a + "\r\n"
				}
				req += "\r\n"
				if g.code == 413 {
					req += strings.Repeat("x", 1000)
				}
				r := cl.do(g.method, req)
				up.take("g")
				if r.Err != nil || r.Status != g.code {
					return fmt.Sprintf("expected %d, got %s", g.code, r), ""
				}
				return c05Judge(r, g.method, ae, g.code, c05Body{name: "generated"}, nil), fmt.Sprint(r.Status, r.get("Content-Encoding"))
			})
		}
	}
	if s.exited() {
		R.Violate(curCase, "the server died: %s", s.out.String())
	}
	_ = time.Now
}

// c05Judge checks label, length and body of a response
func c05Judge(r *wresp, method string, ae []string, status int, b c05Body, label []string) string {
	labels := r.get("Content-Encoding")
	got := strings.Join(labels, ",")
	if r.CL >= 0 && !r.Chunk && method != "HEAD" && status != 304 && status != 204 && int64(len(r.Body)) != r.CL {
		return fmt.Sprintf("Content-Length %d but %d bytes", r.CL, len(r.Body))
	}
	if r.Chunk && r.CL >= 0 {
		return "both Content-Length and Transfer-Encoding: " + r.String()
	}
	if method == "HEAD" || len(r.Body) == 0 {
		if method != "HEAD" && status < 400 && status != 204 && status != 304 && len(b.entity) > 0 {
			return "the body is missing: " + r.String()
		}
		if method != "HEAD" && b.name == "generated" {
			return "the body is missing: " + r.String()
		}
		return ""
	}
	if status >= 400 || b.name == "generated" {
		dec, rest, err := refDecode(got, r.Body)
		if err != nil || len(rest) > 0 {
			return fmt.Sprintf("generated body does not decode by label %q: %v %q", got, err, r.Body)
		}
		if strings.Contains(strings.ToLower(got), "gzip") && !refGzipOK(ae) {
			return "gzip sent to a client that does not accept it: " + r.String()
		}
		code := r.Status
		if b.name == "generated" && code == 200 {
			code = 0
		}
		return jsonOK(dec, code)
	}
	if b.coding == "other" {
		var want, have []string
		for _, l := range label {
			for _, x := range strings.Split(l, ",") {
				want = append(want, strings.ToLower(strings.TrimSpace(x)))
			}
		}
		for _, x := range strings.Split(got, ",") {
			have = append(have, strings.ToLower(strings.TrimSpace(x)))
		}
		if strings.Join(want, ",") != strings.Join(have, ",") {
			return fmt.Sprintf("coding label %q was passed on as %q", label, labels)
		}
		if !bytes.Equal(r.Body, b.data) {
			return fmt.Sprintf("body in coding %q was changed from %q to %q", label, b.data, r.Body)
		}
		return ""
	}
	dec, rest, err := refDecode(got, r.Body)
	if err != nil || len(rest) > 0 {
		return fmt.Sprintf("body does not decode by label %q: %v %q", got, err, r.Body)
	}
	if strings.Contains(strings.ToLower(got), "gzip") && !refGzipOK(ae) {
		return "gzip sent to a client that does not accept it: " + r.String()
	}
	if !bytes.Equal(dec, b.entity) {
		if len(dec) > 300 {
			dec = dec[:300]
		}
		return fmt.Sprintf("decoded by label %q the body is %q, not the upstream's entity", got, dec)
	}
	return ""
}
