//go:build go1.21

package j8a

import (
	"crypto/tls"
	"fmt"
	"net/url"
	"strings"
)

func init() {
	checks["C11"] = checkC11
}

const uriLegal = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?@!$&'()*+,;=%"

// legalTarget tells whether a target consists of legal URI characters and percent triplets only
func legalTarget(t string) bool {
	for i := 0; i < len(t); i++ {
		if !strings.ContainsRune(uriLegal, rune(t[i])) || t[i] >= 0x80 {
			return false
		}
		if t[i] == '%' {
			if i+2 >= len(t) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(t[i+1])) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(t[i+2])) {
				return false
			}
		}
	}
	return true
}

// sameTarget compares a target with what arrived. Illegal targets may be normalised by percent encoding.
func sameTarget(want, got string) bool {
	if want == got {
		return true
	}
	if legalTarget(want) {
		return false
	}
	split := func(s string) (string, string) {
		if i := strings.IndexByte(s, '?'); i >= 0 {
			return s[:i], s[i:]
		}
		return s, ""
	}
	wp, wq := split(want)
	gp, gq := split(got)
	dec := func(s string) string {
		// decode what is a proper triplet
		o := ""
		for i := 0; i < len(s); i++ {
			if s[i] == '%' && i+2 < len(s) {
				if d, err := url.PathUnescape(s[i : i+3]); err == nil {
					o += d
					i += 2
					continue
				}
			}
			o += s[i : i+1]
		}
		return o
	}
	if dec(wp) != dec(gp) {
		return false
	}
	return wq == gq || dec(wq) == dec(gq)
}

type c11Route struct{ path, transform string }

func (r c11Route) want(target string) string {
	if r.transform == "" {
		return target
	}
	t := r.transform
	if t == "/" {
		t = ""
	}
	rest := target[len(r.path):]
	out := t + rest
	if !strings.HasPrefix(out, "/") {
		out = "/" + out
	}
	return out
}

func checkC11() {
	R.Rule = "all request targets made of up to N tokens out of an alphabet of delimiters, percent triplets, illegal bytes and look-alikes of other authorities, on routes with and without transforms, are sent as raw request lines (with all methods for a subset) to the real server; its upstream compares the request target byte for byte, and trap servers named in targets, Host headers and redirects must never be contacted"
	up := newRawUp("up", nil)
	trap := newRawUp("trap", nil)
	routes := []c11Route{{"/api", ""}, {"/tr", "/v2"}, {"/rt", "/"}, {"/dp/q", "/n/m/"}, {"/sl/", "/"}, {"/s2/", "/zz"}, {"/tt", "/tt/tt"}}
	yml := "connection: {downstream: {port: {{PORT}}}, upstream: {readTimeoutSeconds: 30}}\nroutes:\n"
	for _, r := range routes {
		yml += fmt.Sprintf("  - {path: %s, resource: up%s}\n", r.path, func() string {
			if r.transform != "" {
				return ", transform: " + r.transform
			}
			return ""
		}())
	}
	yml += fmt.Sprintf("resources: {up: [{url: {scheme: http, host: 127.0.0.1, port: %d}}, {url: {scheme: http, host: 127.0.0.1, port: %d}}]}\n", up.port, trap.port)
	s := mustBoot(yml)
	defer s.stop()
	cl := &wclient{addr: s.addr()}
	tp := fmt.Sprintf("127.0.0.1:%d", trap.port)
	run := func(r c11Route, method, rest string) {
		target := r.path + rest
		key := fmt.Sprintf("%s %s->%s %q", method, r.path, r.transform, strings.ReplaceAll(rest, tp, "TRAP"))
		wireCase(key, func() (string, string) {
			host := fmt.Sprintf("127.0.0.1:%d", up.port)
			resp := cl.do(method, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\nX-Case: t\r\nX-Forwarded-Host: %s\r\nContent-Length: 0\r\n\r\n", method, target, tp, tp))
			q := up.take("t")
			if trap.conns > 0 || len(trap.seen) > 0 {
				return fmt.Sprintf("target %q made the gateway contact a host other than the mapped one", target), ""
			}
			if resp.Err != nil {
				return fmt.Sprintf("target %q: %s", target, resp), ""
			}
			if len(q) == 0 {
				// refused as no URI, or redirected to its clean form
				if resp.Status == 400 && !legalTarget(target) {
					return "", "400"
				}
				if resp.Status == 301 || resp.Status == 307 || resp.Status == 308 {
					p := target
					if i := strings.IndexByte(p, '?'); i >= 0 {
						p = p[:i]
					}
					d, err := url.PathUnescape(p)
					if err != nil {
						d = p
					}
					if strings.Contains(d, "//") || strings.Contains(d+"/", "/./") || strings.Contains(d+"/", "/../") {
						return "", "cleaned"
					}
				}
				return fmt.Sprintf("target %q was not forwarded: %s", target, resp), ""
			}
			if len(q) != 1 {
				return fmt.Sprintf("target %q was forwarded %d times", target, len(q)), ""
			}
			if h := q[0].get("Host"); len(h) != 1 || h[0] != host {
				return fmt.Sprintf("target %q: upstream was addressed as %q instead of %q", target, h, host), ""
			}
			want := r.want(target)
			normal := func() string { // the target as net/http reads one that is not legal
				p, qs := target, ""
				if i := strings.IndexByte(p, '?'); i >= 0 {
					p, qs = p[:i], p[i:]
				}
				if d, err := url.PathUnescape(p); err == nil && !legalTarget(p) && strings.HasPrefix(d, r.path) {
					return r.want(d) + qs
				}
				return want
			}
			if !sameTarget(want, q[0].Target) && !sameTarget(normal(), q[0].Target) {
				return fmt.Sprintf("target %q arrived as %q instead of %q", target, q[0].Target, want), ""
			}
			return "", fmt.Sprint(resp.Status)
		})
	}
	tokens := []string{"/", "a", ".", "..", "?", "%2F", "%2f", "%2e", "%00", "%0d%0a", "%20", "%25", "%", "%zz", "@", ":", ";", "&", "=", "+", "~", "#", "\\", "\"", "<", "{", "|", "^", "[", "*", "'", "(", ",", "$", "!", "-", "_", "\x80", "\xc3\xa9", "%C3%A9", "@" + tp + "/", ":1", "//" + tp + "/", "/" + "api", "/tr", "/v2", "tt"}
	for _, r := range routes {
		run(r, "GET", "")
		for _, a := range tokens {
			run(r, "GET", a)
			for _, m := range []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE"} {
				run(r, m, a)
				run(r, m, "/x"+a+"y?b"+a+"c")
			}
			for _, b := range tokens {
				run(r, "GET", a+b)
				run(r, "GET", "/p"+a+"?"+b)
			}
		}
	}
	small := []string{"/", "a", "?", "%2F", "@" + tp, ":", "#", "\"", ".", ";", "%", "tt", "&", "\x80"}
	if thorough() {
		small = tokens
	}
	for i, r := range routes {
		if i > 2 && thorough() {
			continue
		}
		for _, a := range small {
			for _, b := range small {
				for _, c := range small {
					run(r, "GET", a+b+c)
				}
			}
		}
	}
	// the same again and again
	for _, r := range routes {
		for _, a := range append(append([]string{}, tokens...), "?a=", "=b&", "../", "./", "%2e%2e/", "http://", "a b"[:1], "&&", "==", "%3F", "%26", "%2B", "[]", "{}", "${x}", "--", "*") {
			for _, n := range []int{2, 3, 4, 7, 16} {
				x := strings.Repeat(a, n)
				run(r, "GET", "/p?q="+x)
				run(r, "GET", "/p?"+x+"r=1")
				if n < 7 {
					run(r, "POST", "/p"+x)
					run(r, "GET", x)
				}
			}
		}
	}
	// a proxy that others are to use is not meant
	for _, scheme := range []string{"http", "https"} {
		for _, v := range []string{"HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "ALL_PROXY", "all_proxy", "FTP_PROXY", "PROXY"} {
			for _, host := range []string{"0.0.0.0", "127.0.0.1", "localhost"} {
				wireCase(fmt.Sprintf("environment %s %s %s", scheme, v, host), func() (string, string) {
					u := up
					if scheme == "https" {
						c := makeCert(certSpec{cn: "localhost", dns: []string{"localhost"}, ca: true})
						u = newRawUp("tls", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{c.der}, PrivateKey: c.key}}})
					}
					s := mustBoot(fmt.Sprintf("connection: {downstream: {port: {{PORT}}}, upstream: {readTimeoutSeconds: 30, tlsInsecureSkipVerify: true}}\nroutes: [{path: /api, resource: up}]\nresources: {up: [{url: {scheme: %s, host: %s, port: %d}}]}\n", scheme, host, u.port), v+"=http://"+tp, "NO_PROXY=", "no_proxy=", "REQUEST_METHOD=")
					defer s.stop()
					c := &wclient{addr: s.addr()}
					defer c.drop()
					r := c.do("GET", "GET /api/x HTTP/1.1\r\nHost: x\r\nX-Case: env\r\n\r\n")
					q := u.take("env")
					if trap.conns > 0 {
						trap.conns = 0
						return "the request was sent to another host", ""
					}
					if r.Err != nil || r.Status != 200 || len(q) != 1 || q[0].Target != "/api/x" {
						return fmt.Sprintf("response %s, %d forwarded", r, len(q)), ""
					}
					return "", "direct"
				})
			}
		}
	}
	// redirects are handed on, not followed
	for _, st := range []int{300, 301, 302, 303, 305, 307, 308} {
		for _, loc := range []string{"http://" + tp + "/x", "//" + tp + "/x", "/api/other", "other", "", "https://" + tp, "http://[bad", "%zz"} {
			for _, m := range []string{"GET", "POST", "PUT", "HEAD", "DELETE"} {
				wireCase(fmt.Sprintf("redirect %d %s %q", st, m, strings.ReplaceAll(loc, tp, "TRAP")), func() (string, string) {
					up.set(func(q *upReq) upAct {
						return upAct{Raw: fmt.Sprintf("HTTP/1.1 %d R\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n", st, loc)}
					})
					defer up.set(func(q *upReq) upAct { return ok200("ok") })
					body := ""
					if m == "POST" || m == "PUT" {
						body = "data"
					}
					r := cl.do(m, fmt.Sprintf("%s /api/x HTTP/1.1\r\nHost: x\r\nX-Case: r\r\nContent-Length: %d\r\n\r\n%s", m, len(body), body))
					q := up.take("r")
					if trap.conns > 0 || len(q) != 1 {
						return fmt.Sprintf("redirect was followed: %d requests, %d to elsewhere", len(q), trap.conns), ""
					}
					if r.Err != nil || r.Status != st || r.one("Location") != loc {
						return fmt.Sprintf("redirect became %s", r), ""
					}
					return "", fmt.Sprint(r.Status)
				})
			}
		}
	}
	// targets in other forms lead nowhere else either
	for _, m := range []string{"GET", "CONNECT", "OPTIONS", "POST"} {
		for _, t := range []string{"http://" + tp + "/api/x", "https://" + tp + "/", "http://user@" + tp + "/api", tp, "/" + tp, "*", "//" + tp + "/api/x", "///" + tp + "/api", "api/x", "http:/api/x", "http://127.0.0.1/api/x", "/api@" + tp, "/tr@" + tp, "/rt@" + tp, "/rt:@" + tp, "/rt." + tp, "ftp://" + tp + "/api"} {
			wireCase(fmt.Sprintf("form %s %s", m, strings.ReplaceAll(t, tp, "TRAP")), func() (string, string) {
				c := &wclient{addr: s.addr()}
				defer c.drop()
				r := c.do(m, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\nX-Case: f\r\nContent-Length: 0\r\n\r\n", m, t, tp))
				q := up.take("f")
				if trap.conns > 0 {
					return fmt.Sprintf("%s %s was sent to another host", m, t), ""
				}
				if len(q) > 0 && !strings.HasPrefix(t, "/") {
					return fmt.Sprintf("%s %s was forwarded as %s", m, t, q[0].Line), ""
				}
				return "", fmt.Sprint(r.Status)
			})
		}
	}
	if s.exited() {
		R.Violate(curCase, "the server died: %s", s.out.String())
	}
}
