//go:build go1.21

package j8a

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"time"
)

func init() {
	checks["C10"] = checkC10
	checks["C10h"] = checkC10h
}

// c10Route is a route of a kind: plain, policy, missing (no such resource), empty, nolabel, default, lone-* (one mapping that does not bear the label), labelled, about (on the wire only)
type c10Route struct {
	path string
	kind string
}

func c10Norm(p string) string {
	if !strings.HasPrefix(p, "/") {
		return "/" + p
	}
	return p
}

func c10Config(rs []c10Route, port func(i, j int) (string, int), head string) string {
	y := head + `
policies:
  one: [{label: green, weight: 1.0}]
  lost: [{label: red, weight: 1.0}]
  rest: [{label: green, weight: 0.0}]
routes:
`
	res := "resources:\n"
	for i, r := range rs {
		if r.kind == "about" {
			y += fmt.Sprintf("  - path: %q\n    resource: about\n", r.path)
			continue
		}
		// names of all forms; what is missing has neighbours whose names differ in case or by a letter only
		name := fmt.Sprintf([]string{"r%d", "Res%d", "ABOUT%d", "with.dot%d", "with-dash_%d", "über%d", "9%d", "about%dx", "with blank%d", "a/b:%d"}[(i+len(rs)+len(r.path))%10], i)
		y += fmt.Sprintf("  - path: %q\n    resource: %q\n", r.path, name)
		switch r.kind {
		case "policy":
			y += "    policy: one\n"
		case "nolabel":
			y += "    policy: lost\n"
		case "default", "lone-green", "lone-none":
			y += "    policy: rest\n"
		case "lone-blue":
			y += "    policy: one\n"
		}
		h0, p0 := port(i, 0)
		h1, p1 := port(i, 1)
		m := func(labels, h string, p int) string {
			return fmt.Sprintf("    - {%surl: {scheme: http, host: %s, port: %d}}\n", labels, h, p)
		}
		switch r.kind {
		case "lone-green":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [green], ", h0, p0)
		case "lone-blue":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [blue], ", h0, p0)
		case "lone-none":
			res += fmt.Sprintf("  %q:\n", name) + m("", h0, p0)
		case "labelled":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [blue, green], ", h0, p0) + m("", h1, p1) + m("labels: [default], ", h1, p1)
		case "missing":
			other := strings.ToUpper(name)
			if other == name {
				other = strings.ToLower(name)
			}
			if other != name {
				res += fmt.Sprintf("  %q:\n", other) + m("", h0, p0)
			}
			res += fmt.Sprintf("  %q:\n", name+"x") + m("", h0, p0) + fmt.Sprintf("  %q:\n", "x"+name) + m("", h0, p0)
		case "empty":
			res += fmt.Sprintf("  %q: []\n", name)
		case "nolabel":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [blue, RED, redd, re, default], ", h1, p1) + m("labels: [blue, green], ", h0, p0) + m("", h1, p1)
		case "policy":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [blue, Green, greener], ", h1, p1) + m("", h1, p1) + m("labels: [blue, green], ", h0, p0) + m("labels: [green], ", h1, p1)
		case "default":
			res += fmt.Sprintf("  %q:\n", name) + m("labels: [green], ", h1, p1) + m("labels: [default], ", h0, p0)
		default:
			res += fmt.Sprintf("  %q:\n", name) + m("", h0, p0) + m("", h1, p1)
		}
	}
	return y + res
}

// c10Want gives status and index of the route that serves the target, -1 for none
func c10Want(rs []c10Route, target string) (int, int) {
	best := -1
	for i, r := range rs {
		if strings.HasPrefix(target, c10Norm(r.path)) && (best < 0 || len(c10Norm(r.path)) > len(c10Norm(rs[best].path))) {
			best = i
		}
	}
	if best < 0 {
		return 404, -1
	}
	switch rs[best].kind {
	case "missing", "empty", "nolabel", "lone-green", "lone-blue", "lone-none":
		return 503, -1
	case "about":
		return 200, -1
	}
	return 200, best
}

var c10Paths = []string{"/", "/a", "a/b", "/ab", "/a/b/c", "b", "/a/", "/A", "/a-b", "/b%20c"}
var c10Targets = []string{"/", "/a", "/a/", "/ab", "/abc", "/a/b", "/a/bb", "/a/b/c", "/a/b/cc/d?x=/b", "/a/b/", "/b", "/bb", "/b/a", "/A", "/AB", "/?a", "/a?b=/a/b", "/c", "/a-b/c", "/a-", "/b%20c/d", "/b%20", "/b%2", "/%61", "/a%2Fb"}

// c10Sets enumerates ordered sets of up to n paths
func c10Sets(paths []string, n int, f func([]string)) {
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			f(append([]string(nil), cur...))
		}
		if len(cur) == n {
			return
		}
	next:
		for _, p := range paths {
			for _, c := range cur {
				if c10Norm(c) == c10Norm(p) {
					continue next
				}
			}
			rec(append(cur, p))
		}
	}
	rec(nil)
}

// c10Many gives a long list of routes in a given order
func c10Many(n, rot int, rev bool) []c10Route {
	var rs []c10Route
	for i := 0; i < n; i++ {
		p := "/r" + strings.Repeat("x", (i*7)%n)
		if i%3 == 1 {
			p = strings.TrimPrefix(p, "/")
		}
		rs = append(rs, c10Route{p, "plain"})
	}
	rs = append(rs[rot%n:], rs[:rot%n]...)
	if rev {
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	return rs
}

// c10Long are targets around the lengths that buffers, keys and limits have
var c10Long = func() (l []string) {
	for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 8000} {
		x := strings.Repeat("x", n)
		l = append(l, "/a/b/"+x[5:], "/a?"+x[3:], "/a/"+strings.Repeat("y/", n/2-2), "/"+x[1:], "/ab"+x[3:])
	}
	return
}()

func checkC10h() {
	R.Rule = "every ordered set of up to N routes out of an alphabet of nested, overlapping and disjoint paths (with and without leading slash), all kinds of resource mappings on small sets, and long route lists in all rotations, are loaded by the real configuration pipeline; every target of an alphabet is sent through the real handler and the upstream it reaches is compared with a longest prefix reference"
	cl := &recClient{}
	httpClient = cl
	run := func(rs []c10Route, targets []string, more string) {
		key := fmt.Sprintf("%s%v", more, rs)
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		yml := c10Config(rs, func(i, j int) (string, int) { return fmt.Sprintf("h%d-%d.test", i, j), 8000 + i }, "")
		Runner = &Runtime{Config: *bootChain(yml), Start: time.Now()}
		out := ""
		for _, tg := range targets {
			if tg == "/b%2" {
				continue // no URI, net/http refuses it
			}
			cl.seen, cl.last = nil, nil
			rec := newRec()
			proxyHandler(rec, httptest.NewRequest("GET", tg, nil))
			code, best := c10Want(rs, tg)
			got := fmt.Sprint(rec.Codes)
			host := ""
			for _, r := range cl.last {
				got += " " + r.URL.Host
				host = r.URL.Host
			}
			want := fmt.Sprint([]int{code})
			if best >= 0 {
				want += fmt.Sprintf(" h%d-0.test:%d", best, 8000+best)
			}
			if got != want {
				R.Violate(key, "target %s: status and upstream are %s, should be %s (host %s)", tg, got, want, host)
				break
			}
			out += got + ";"
			R.Steps++
		}
		R.Validated++
		R.Ran(key, out, true)
	}
	c10Sets(c10Paths, pick(3, 4), func(ps []string) {
		var rs []c10Route
		for _, p := range ps {
			rs = append(rs, c10Route{p, "plain"})
		}
		run(rs, c10Targets, "")
	})
	c10Sets([]string{"/", "/a", "a/b", "/ab"}, 2, func(ps []string) {
		var rs []c10Route
		for _, p := range ps {
			rs = append(rs, c10Route{p, "plain"})
		}
		run(rs, c10Long, "long ")
	})
	// whatever comes behind the path of a route, it is a prefix all the same
	var next []string
	for b := byte(0x21); b < 0x7f; b++ {
		if b == '%' || b == '#' {
			continue
		}
		next = append(next, string(b))
	}
	for _, x := range []string{"%41", "%20", "%2F", "%25", "%00", "%23", "\u00e9", "%C3%A9", "//", "..", "/..", "/.", "?", "?/", "?a", "/?", "??", ";", ";a", "=a", "@h", ":1"} {
		next = append(next, x)
	}
	var behind []string
	for _, p := range []string{"/", "/a", "/a/b", "/ab"} {
		for _, x := range next {
			behind = append(behind, p+x, p+x+"a/b", p+x+"/ab")
		}
	}
	c10Sets([]string{"/", "/a", "a/b", "/ab"}, 3, func(ps []string) {
		var rs []c10Route
		for _, p := range ps {
			rs = append(rs, c10Route{p, "plain"})
		}
		run(rs, behind, "behind ")
	})
	kinds := []string{"plain", "policy", "missing", "empty", "nolabel", "default"}
	lone := []string{"lone-green", "lone-blue", "lone-none", "labelled"}
	c10Sets([]string{"/", "/a", "a/b", "/b"}, 3, func(ps []string) {
		kinds := kinds
		if len(ps) < 3 {
			// resources of one mapping, whose label is not the one drawn; labels without a policy
			kinds = append(append([]string{}, kinds...), lone...)
		}
		n := 1
		for range ps {
			n *= len(kinds)
		}
		for k := 0; k < n; k++ {
			var rs []c10Route
			x := k
			for _, p := range ps {
				rs = append(rs, c10Route{p, kinds[x%len(kinds)]})
				x /= len(kinds)
			}
			run(rs, []string{"/", "/a", "/a/", "/a/b", "/a/bc", "/b", "/c", "/ab"}, "")
		}
	})
	for _, n := range []int{8, 11, 12, 13, 20, 33, 50, 64} {
		for rot := 0; rot < n; rot++ {
			for _, rev := range []bool{false, true} {
				var tg []string
				for i := 0; i < n+2; i++ {
					tg = append(tg, "/r"+strings.Repeat("x", i), "/r"+strings.Repeat("x", i)+"/y")
				}
				run(c10Many(n, rot, rev), tg, fmt.Sprintf("many%d/%d/%v", n, rot, rev))
			}
		}
	}
}

func checkC10() {
	R.Rule = "the same with the real server process and raw sockets for all permutations of representative route sets"
	var ups []*rawUp
	for i := 0; i < 12; i++ {
		u := newRawUp(fmt.Sprint(i), nil)
		u.set(func(q *upReq) upAct { return ok200(u.name) })
		ups = append(ups, u)
	}
	run := func(rs []c10Route, methods []string) {
		key := fmt.Sprintf("%v", rs)
		abt := strings.Contains(key, " about}")
		wireCase(key, func() (string, string) {
			s := mustBoot(c10Config(rs, func(i, j int) (string, int) { return "127.0.0.1", ups[2*i+j].port }, "connection: {downstream: {port: {{PORT}}}}\n"))
			defer s.stop()
			cl := &wclient{addr: s.addr()}
			defer cl.drop()
			n := 0
			for _, tg := range append(c10Targets, "http://a.test/a", "/a?x=%zz", "/a/x%2e%2e/b", c10Long[3], c10Long[len(c10Long)-1]) {
				if abt && (strings.HasPrefix(tg, "http:") || strings.Contains(tg, "%")) {
					continue // other spellings of an about path may be taken for it
				}
				for _, m := range methods {
					n++
					id := fmt.Sprintf("t%d", n)
					r := cl.do(m, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nX-Case: %s\r\nContent-Length: 0\r\n\r\n", m, tg, id))
					got := ""
					for i, u := range ups {
						for range u.take(id) {
							got += fmt.Sprint(" ", i)
						}
					}
					code, best := c10Want(rs, tg)
					if tg == "/b%2" {
						code, best = 400, -1
					}
					want := ""
					if best >= 0 {
						want = fmt.Sprint(" ", 2*best)
					}
					if strings.HasPrefix(tg, "http:") {
						code, want = 404, ""
					}
					if r.Err != nil || r.Status != code || got != want {
						return fmt.Sprintf("%s %s: response %s from upstream %q, should be %d from %q", m, tg, r, got, code, want), ""
					}
					if code == 200 && best < 0 && (!strings.Contains(string(r.Body), "Version") || !strings.HasPrefix(r.one("Content-Type"), "application/json")) {
						return fmt.Sprintf("%s %s: response %s %.100q is not the about resource", m, tg, r, r.Body), ""
					}
				}
			}
			return "", fmt.Sprint(n)
		})
	}
	for _, p := range []string{"/", "a/"} {
		run([]c10Route{{p, "about"}, {p, "about"}}, []string{"GET", "POST"})
		run([]c10Route{{"/b", "about"}, {p, "plain"}, {"b", "about"}}, []string{"GET", "POST"})
	}
	c10Sets([]string{"/a", "a/b", "/ab", "/"}, 4, func(ps []string) {
		if len(ps) < 3 && !thorough() {
			return
		}
		var rs, rk []c10Route
		for i, p := range ps {
			rs = append(rs, c10Route{p, "plain"})
			rk = append(rk, c10Route{p, []string{"policy", "missing", "nolabel", "default"}[i]})
		}
		for k := 1; k < 1<<len(ps) && (len(ps) < 4 || thorough()); k++ {
			var ra []c10Route
			for i, p := range ps {
				ra = append(ra, c10Route{p, "plain"})
				if k&(1<<i) != 0 {
					ra[i].kind = "about"
				}
			}
			run(ra, []string{"GET", "POST"})
		}
		run(rs, []string{"GET", "POST"})
		run(rk, []string{"GET", "PUT", "OPTIONS"})
	})
}
