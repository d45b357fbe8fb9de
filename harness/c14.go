//go:build go1.21

package j8a

import (
	"bufio"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C14"] = checkC14
	checks["C14w"] = checkC14w
}

type cfgParam struct {
	side, name string
	def        int64
	vals       []int64 // values to configure
	get        func(c *Config) int64
}

var cfgParams = []cfgParam{
	{"downstream", "readTimeoutSeconds", 120, []int64{11, 1, 86400}, func(c *Config) int64 { return int64(c.Connection.Downstream.ReadTimeoutSeconds) }},
	{"downstream", "roundTripTimeoutSeconds", 240, []int64{12, 1, 86401}, func(c *Config) int64 { return int64(c.Connection.Downstream.RoundTripTimeoutSeconds) }},
	{"downstream", "idleTimeoutSeconds", 120, []int64{13, 1, 86402}, func(c *Config) int64 { return int64(c.Connection.Downstream.IdleTimeoutSeconds) }},
	{"downstream", "maxBodyBytes", 2 << 20, []int64{14, 1, 1 << 40}, func(c *Config) int64 { return c.Connection.Downstream.MaxBodyBytes }},
	{"downstream", "port", 8080, []int64{15, 1, 65535}, func(c *Config) int64 { return int64(c.Connection.Downstream.Port) }},
	{"upstream", "socketTimeoutSeconds", 3, []int64{16, 1, 86403}, func(c *Config) int64 { return int64(c.Connection.Upstream.SocketTimeoutSeconds) }},
	{"upstream", "readTimeoutSeconds", 120, []int64{17, 1, 86404}, func(c *Config) int64 { return int64(c.Connection.Upstream.ReadTimeoutSeconds) }},
	{"upstream", "idleTimeoutSeconds", 120, []int64{18, 1, 86405}, func(c *Config) int64 { return int64(c.Connection.Upstream.IdleTimeoutSeconds) }},
	{"upstream", "poolSize", 32768, []int64{19, 1, 100000}, func(c *Config) int64 { return int64(c.Connection.Upstream.PoolSize) }},
	{"upstream", "maxAttempts", 1, []int64{20, 2, 1000}, func(c *Config) int64 { return int64(c.Connection.Upstream.MaxAttempts) }},
}

var cfgSchemes = map[string]string{"": "http", "http": "http", "https": "https", "http:": "http", "https:": "https", "http://": "http", "https://": "https", "HTTP": "http", "HTTPS": "https", "Https://": "https", "hTTp:": "http"}

func checkC14() {
	R.Rule = "every combination of absent, zero and set over all numeric parameters, of modes, skip flags and schemes is run through the real configuration pipeline and each effective value compared with the documented one"
	one := func(key, yml string, f func(c *Config) string) {
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		c := bootChain(yml)
		R.Steps++
		if p := f(c); p != "" {
			R.Violate(key, "%s in %s", p, yml)
		}
		R.Validated++
		R.Ran(key, fmt.Sprint(c.Connection.Downstream.Mode, c.Connection.Upstream.TlsInsecureSkipVerify), true)
	}
	// all numeric parameters at once, states are absent, 0 and each value
	n := len(cfgParams)
	state := make([]int, n)
	modes := []struct {
		yml  string
		mode string
		port int64
	}{{"", "HTTP", 8080}, {"mode: ''", "HTTP", 8080}, {"mode: HTTP", "HTTP", 8080}, {"mode: http", "HTTP", 8080}, {"mode: TLS", "TLS", 443}, {"mode: tls", "TLS", 443}, {"mode: Tls", "TLS", 443}, {"mode: null", "HTTP", 8080}}
	build := func(state []int, mode string, skip string) string {
		side := map[string][]string{}
		for i, p := range cfgParams {
			switch state[i] {
			case 0:
			case 1:
				side[p.side] = append(side[p.side], p.name+": 0")
			case -1:
				side[p.side] = append(side[p.side], p.name+": null")
			default:
				side[p.side] = append(side[p.side], fmt.Sprintf("%s: %d", p.name, p.vals[state[i]-2]))
			}
		}
		if mode != "" {
			side["downstream"] = append(side["downstream"], mode)
		}
		if skip != "" {
			side["upstream"] = append(side["upstream"], skip)
		}
		y := ""
		for _, s := range []string{"downstream", "upstream"} {
			if len(side[s]) > 0 {
				y += fmt.Sprintf("  %s: {%s}\n", s, strings.Join(side[s], ", "))
			}
		}
		if y != "" {
			y = "connection:\n" + y
		}
		return y + "routes: [{path: /a, resource: r}]\nresources: {r: [{url: {host: h, port: 1}}]}\n"
	}
	verify := func(c *Config, state []int, mode string, port int64, skip bool) string {
		for i, p := range cfgParams {
			want := p.def
			if p.name == "port" {
				want = port
			}
			if state[i] > 1 {
				want = p.vals[state[i]-2]
			}
			if got := p.get(c); got != want {
				return fmt.Sprintf("%s.%s is %d, not %d", p.side, p.name, got, want)
			}
		}
		if c.Connection.Downstream.Mode != mode {
			return fmt.Sprintf("mode is %q", c.Connection.Downstream.Mode)
		}
		if c.Connection.Upstream.TlsInsecureSkipVerify != skip {
			return fmt.Sprintf("tlsInsecureSkipVerify is %v", c.Connection.Upstream.TlsInsecureSkipVerify)
		}
		return ""
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			st := append([]int(nil), state...)
			m := modes[0]
			for j, s := range st {
				if s == 2 && j%3 == 0 {
					m = modes[4]
				}
			}
			one(fmt.Sprint("product ", st), build(st, m.yml, ""), func(c *Config) string { return verify(c, st, m.mode, m.port, false) })
			return
		}
		for s := 0; s <= 2; s++ {
			state[i] = s
			rec(i + 1)
		}
		state[i] = 0
	}
	rec(0)
	// pairs of parameters over all their states with all modes and flags
	skips := []struct {
		yml string
		on  bool
	}{{"", false}, {"tlsInsecureSkipVerify: true", true}, {"tlsInsecureSkipVerify: false", false}, {"tlsInsecureSkipVerify: null", false}}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for a := -1; a <= 4; a++ {
				for b := -1; b <= 4; b++ {
					for mi, m := range modes {
						for si, s := range skips {
							if !thorough() && (mi+si+a+b)%3 != 0 {
								continue
							}
							st := make([]int, n)
							st[i], st[j] = a, b
							m, s := m, s
							one(fmt.Sprint("pair ", st, m.yml, s.yml), build(st, m.yml, s.yml), func(c *Config) string { return verify(c, st, m.mode, m.port, s.on) })
						}
					}
				}
			}
		}
	}
	// schemes, names and labels of mappings: up to three mappings in up to two resources
	names := sorted(map[string]bool{"": true, "http": true, "https": true, "http:": true, "https:": true, "http://": true, "https://": true, "HTTP": true, "HTTPS": true, "Https://": true, "hTTp:": true, "-": true})
	mapping := func(s string, i int) string {
		u := ""
		if s != "-" {
			u = fmt.Sprintf("scheme: %q, ", s)
		}
		return fmt.Sprintf("{labels: [l%d, m], url: {%shost: h%d, port: %d}}", i, u, i, 100+i)
	}
	for _, a := range names {
		for _, b := range names {
			for _, c := range names {
				if !thorough() && c != a && c != "-" && c != "https" {
					continue
				}
				l := []string{a, b, c}
				y := fmt.Sprintf("routes: [{path: /a, resource: r}]\nresources:\n  r: [%s, %s]\n  other: [%s]\n", mapping(a, 0), mapping(b, 1), mapping(c, 2))
				one("schemes "+strings.Join(l, " "), y, func(cf *Config) string {
					got := append(append([]ResourceMapping(nil), cf.Resources["r"]...), cf.Resources["other"]...)
					if len(cf.Resources["r"]) != 2 || len(got) != 3 {
						return "mappings were lost"
					}
					for i, g := range got {
						s := l[i]
						if s == "-" {
							s = ""
						}
						name := "r"
						if i == 2 {
							name = "other"
						}
						if g.URL.Scheme != cfgSchemes[s] || g.URL.Host != fmt.Sprintf("h%d", i) || int(g.URL.Port) != 100+i || g.Name != name || len(g.Labels) != 2 || g.Labels[0] != fmt.Sprintf("l%d", i) {
							return fmt.Sprintf("mapping %d is %+v", i, g)
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- the real process ----

// badVals are yaml values by the kinds of parameter that must not take them; ? marks either
var badVals = []struct {
	yml  string
	kind string // what it is
}{
	{"'12'", "string"}, {"abc", "string"}, {"1.5", "float"}, {"[1]", "list"}, {"[]", "list"}, {"{a: 1}", "map"}, {"{}", "map"}, {"true", "bool"}, {"1e30", "float"}, {"99999999999999999999", "big"}, {"0x10", "?"}, {"'true'", "string"}, {"1", "int"},
}

// accepts: 1 yes, 0 no, -1 either
func kindTakes(param, val string) int {
	if val == "?" {
		return -1
	}
	switch param {
	case "int":
		if val == "int" {
			return 1
		}
		return 0
	case "bool":
		if val == "bool" {
			return 1
		}
		return 0
	case "string":
		switch val {
		case "string":
			return 1
		case "list", "map":
			return 0
		}
		return -1
	case "float":
		switch val {
		case "int":
			return 1
		case "float":
			return -1
		case "big":
			return -1
		}
		return 0
	case "list", "map":
		if val == param {
			return -1
		}
		return 0
	}
	return -1
}

func checkC14w() {
	R.Rule = "every combination of configuration sources and their states, every parameter with values of every wrong type, every illegal class, and each parameter's effect on real connections is tried on the real server process"
	// ---- sources ----
	src := func(port int, path string) string {
		return fmt.Sprintf("connection: {downstream: {port: %d}}\nroutes: [{path: %s, resource: about}]\n", port, path)
	}
	states := []string{"none", "good", "bad", "noroutes", "empty", "missing", "dir", "null"}
	body := func(st string, port int, path string) string {
		switch st {
		case "good":
			return src(port, path)
		case "bad":
			return "routes: [{path: /x\n  : :"
		case "noroutes":
			return fmt.Sprintf("connection: {downstream: {port: %d}}\n", port)
		case "null":
			return "null\n"
		}
		return ""
	}
	base := filepath.Join(os.Getenv("VERIF_TMP"), "src-"+strconv.Itoa(os.Getpid()))
	id := 0
	for _, c := range states {
		for _, e := range []string{"none", "good", "bad", "noroutes", "empty", "null"} {
			for _, d := range []string{"none", "good", "bad", "noroutes", "dir", "empty"} {
				for _, cname := range []string{"x.yml", "j8acfg.yml"} {
					if cname == "j8acfg.yml" && (d != "none" || c == "none") {
						continue
					}
					c, e, d, cname := c, e, d, cname
					wireCase(fmt.Sprintf("sources -c %s (%s) env %s default %s", c, cname, e, d), func() (string, string) {
						id++
						dir := filepath.Join(base, strconv.Itoa(id))
						os.MkdirAll(dir, 0755)
						defer os.RemoveAll(dir)
						port := freePort()
						put := func(name, st, path string) {
							f := filepath.Join(dir, name)
							switch st {
							case "none", "missing":
							case "dir":
								os.MkdirAll(f, 0755)
							default:
								os.WriteFile(f, []byte(body(st, port, path)), 0644)
							}
						}
						put("j8acfg.yml", d, "/from-default")
						var args, env []string
						if c != "none" {
							put(cname, c, "/from-c")
							args = []string{"-c", cname}
						}
						if e != "none" {
							env = append(env, "J8ACFG_YML="+body(e, port, "/from-env"))
						}
						want := ""
						switch {
						case c != "none":
							if c == "good" {
								want = "/from-c"
							}
						case e != "none" && e != "empty":
							if e == "good" {
								want = "/from-env"
							}
						case d == "good":
							want = "/from-default"
						}
						p := launch(dir, args, env...)
						defer p.stop()
						s := &srv{proc: p, port: port}
						for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !s.exited(); {
							if k, err := net.Dial("tcp", s.addr()); err == nil {
								k.Close()
								break
							}
							s.wait(time.Millisecond)
						}
						if want == "" {
							if !s.wait(10 * time.Millisecond) {
								return "the server started", ""
							}
							return orderly(s), "refused"
						}
						if s.exited() {
							return "the server did not start: " + s.out.String(), ""
						}
						cl := &wclient{addr: s.addr()}
						defer cl.drop()
						for _, path := range []string{"/from-c", "/from-env", "/from-default"} {
							r := cl.do("GET", "GET "+path+" HTTP/1.1\r\nHost: x\r\n\r\n")
							if r.Err != nil || (r.Status == 200) != (path == want) {
								return fmt.Sprintf("%s answers %s, the configuration should be that with %s", path, r, want), ""
							}
						}
						return "", want
					})
				}
			}
		}
	}
	// ---- values of the wrong type ----
	full := func(down, up, top, route, res string) string {
		y := "connection:\n  downstream:\n    port: {{PORT}}\n" + down
		if up != "" {
			y += "  upstream:\n" + up
		}
		if route == "" {
			route = "{path: /about, resource: about}"
		}
		if res == "" {
			res = "{r: [{url: {scheme: http, host: 127.0.0.1, port: 1}}]}"
		}
		return y + top + "routes: [" + route + "]\nresources: " + res + "\n"
	}
	verdict := func(key, yml string, want int) {
		wireCase(key, func() (string, string) {
			s, x := bootOrRefuse(yml)
			if s != nil {
				s.stop()
				if want == 0 {
					return "the server started with an illegal configuration: " + yml, ""
				}
				return "", "up"
			}
			if x != "" {
				return x, ""
			}
			if want == 1 {
				return "the server refused a legal configuration: " + yml, ""
			}
			return "", "refused"
		})
	}
	for _, v := range badVals {
		for _, p := range cfgParams {
			k := fmt.Sprintf("type %s.%s=%s", p.side, p.name, v.yml)
			line := fmt.Sprintf("    %s: %s\n", p.name, v.yml)
			w := kindTakes("int", v.kind)
			switch {
			case p.name == "port":
				if w == 0 {
					verdict(k, strings.Replace(full(line, "", "", "", ""), "    port: {{PORT}}\n", "", 1), 0)
				}
			case p.side == "downstream":
				verdict(k, full(line, "", "", "", ""), w)
			default:
				verdict(k, full("", line, "", "", ""), w)
			}
		}
		verdict("type skip="+v.yml, full("", "    tlsInsecureSkipVerify: "+v.yml+"\n", "", "", ""), kindTakes("bool", v.kind))
		for _, n := range []string{"mode", "cert", "key"} {
			w := kindTakes("string", v.kind)
			if n == "mode" && w == 1 {
				w = -1
			}
			verdict("type "+n+"="+v.yml, full("    "+n+": "+v.yml+"\n", "", "", "", ""), w)
		}
		for _, n := range []string{"path", "resource", "transform", "policy", "jwt"} {
			w := kindTakes("string", v.kind)
			if w == 1 && (n == "transform" || n == "jwt") {
				w = 0 // no slash, unknown
			}
			r := "{path: /a, resource: r, " + n + ": " + v.yml + "}"
			if n == "path" {
				r = "{resource: r, path: " + v.yml + "}"
			}
			if n == "resource" {
				r = "{path: /a, resource: " + v.yml + "}"
			}
			if w == -1 && (n == "transform" || n == "jwt") && v.kind != "?" {
				w = 0
			}
			verdict("type route."+n+"="+v.yml, full("", "", "", r, ""), w)
		}
		for _, n := range []string{"scheme", "host"} {
			o := map[string]string{"scheme": "host: h", "host": "scheme: http"}[n]
			verdict("type url."+n+"="+v.yml, full("", "", "", "", "{r: [{url: {port: 1, "+o+", "+n+": "+v.yml+"}}]}"), kindTakes("string", v.kind))
		}
		verdict("type url.port="+v.yml, full("", "", "", "", "{r: [{url: {host: h, port: "+v.yml+"}}]}"), kindTakes("int", v.kind))
		verdict("type labels="+v.yml, full("", "", "", "", "{r: [{labels: "+v.yml+", url: {host: h, port: 1}}]}"), kindTakes("list", v.kind))
		verdict("type label="+v.yml, full("", "", "", "", "{r: [{labels: ["+v.yml+"], url: {host: h, port: 1}}]}"), -1)
		verdict("type url="+v.yml, full("", "", "", "", "{r: [{url: "+v.yml+"}]}"), kindTakes("map", v.kind))
		verdict("type mapping="+v.yml, full("", "", "", "", "{r: ["+v.yml+"]}"), kindTakes("map", v.kind))
		verdict("type resource="+v.yml, full("", "", "", "", "{r: "+v.yml+"}"), kindTakes("list", v.kind))
		verdict("type resources="+v.yml, full("", "", "", "", v.yml), kindTakes("map", v.kind))
		verdict("type policies="+v.yml, full("", "", "policies: "+v.yml+"\n", "", ""), kindTakes("map", v.kind))
		verdict("type policy="+v.yml, full("", "", "policies: {p: "+v.yml+"}\n", "", ""), kindTakes("list", v.kind))
		verdict("type policyentry="+v.yml, full("", "", "policies: {p: ["+v.yml+"]}\n", "", ""), kindTakes("map", v.kind))
		verdict("type weight="+v.yml, full("", "", "policies: {p: [{label: a, weight: "+v.yml+"}]}\n", "", ""), kindTakes("float", v.kind))
		verdict("type weightlabel="+v.yml, full("", "", "policies: {p: [{weight: 1.0, label: "+v.yml+"}]}\n", "", ""), kindTakes("string", v.kind))
		verdict("type jwt="+v.yml, full("", "", "jwt: "+v.yml+"\n", "", ""), kindTakes("map", v.kind))
		verdict("type routes="+v.yml, "connection: {downstream: {port: {{PORT}}}}\nroutes: "+v.yml+"\n", 0)
		verdict("type route="+v.yml, "connection: {downstream: {port: {{PORT}}}}\nroutes: ["+v.yml+"]\n", map[bool]int{true: 0, false: -1}[kindTakes("map", v.kind) == 0])
		if kindTakes("map", v.kind) == 0 {
			verdict("type downstream="+v.yml, "connection: {downstream: "+v.yml+", upstream: {}}\nroutes: [{path: /about, resource: about}]\n", 0)
		}
		verdict("type upstream="+v.yml, "connection: {downstream: {port: {{PORT}}}, upstream: "+v.yml+"}\nroutes: [{path: /about, resource: about}]\n", kindTakes("map", v.kind))
		if kindTakes("map", v.kind) == 0 {
			verdict("type connection="+v.yml, "connection: "+v.yml+"\nroutes: [{path: /about, resource: about}]\n", 0)
		}
		verdict("type document="+v.yml, v.yml+"\n", 0)
	}
	// ---- illegal routes ----
	route := func(key, r string, want int) {
		for _, before := range []string{"", "{path: /aa, resource: r}, "} {
			for _, after := range []string{"", ", {path: /, resource: r}"} {
				verdict(fmt.Sprintf("route %s%s%s", before, r, after), full("", "", "jwt: {j: {alg: none}, k: {alg: HS256, key: abc}}\npolicies: {p: [{label: a, weight: 1}]}\n", before+r+after, ""), want)
			}
		}
	}
	for _, p := range []string{"/a(", "/a[", "/*(", "a)", "/a\\\\", "(?P<", "/a{2,1}", "/(?z)", "/a**"} {
		route(p, fmt.Sprintf("{path: %q, resource: r}", strings.ReplaceAll(p, "\\\\", "\\")), 0)
	}
	for _, p := range []string{"/a", "a", "/a/b", "/a.b", "/", "/a-b_c~1"} {
		route(p, fmt.Sprintf("{path: %q, resource: r}", p), 1)
		for _, t := range []string{"b", "b/", " /b", "*", ".", "http://x", "\\", "?"} {
			route(p, fmt.Sprintf("{path: %q, resource: r, transform: %q}", p, t), 0)
		}
		for _, t := range []string{"/", "/b", "/b/", "//", ""} {
			route(p, fmt.Sprintf("{path: %q, resource: r, transform: %q}", p, t), 1)
		}
		for _, j := range []string{"x", "J", "jj", " j", "k2", "none"} {
			route(p, fmt.Sprintf("{path: %q, resource: r, jwt: %q}", p, j), 0)
		}
		for _, j := range []string{"j", "k", ""} {
			route(p, fmt.Sprintf("{path: %q, resource: r, jwt: %q}", p, j), 1)
		}
	}
	values()
	// ---- effect of each parameter on the wire ----
	effects()
}

// values carries strings that a shell, a template, a format or a character set might take for something else
// through every source, and watches them arrive: as secret, as names and as transform
func values() {
	up := newRawUp("values", nil)
	up.set(func(*upReq) upAct { return ok200("up") })
	dir := filepath.Join(os.Getenv("VERIF_TMP"), "values-"+strconv.Itoa(os.Getpid()))
	strs := []string{"plain", "$HOME", "${HOME}", "$$", "a$1b$", "%HOME%", "%d%s%%", "~", "`id`", "$(id)", "{{.Env}}", "{{PORT}}x", "<no value>", "a\\b", "a\nb", "a\tb", "trailing\n", "two\n\n", " led", "trailed ", "# no comment", "a # b", "!env X", "&a", "*a", "é€\U0001F511", "e\u0301", "\u00a0", "null", "true", "0x10", "1_000", "1e3", "0b1", "'", "\"", "'\"", "CASE", "a: b", "- a", "[a]", "{a}", "@a", "|", ">", "?", "a,b", "a\r\nb", "<a&b>", "\u2028", strings.Repeat("long $HOME ", 500)}
	quote := func(v, style string) string {
		switch style {
		case "json":
			b, _ := json.Marshal(v)
			return string(b)
		case "single":
			if strings.ContainsAny(v, "\n\t\r\u2028") {
				return ""
			}
			return "'" + strings.ReplaceAll(v, "'", "''") + "'"
		}
		if strings.ContainsAny(v, "\r\t\u2028") || strings.HasPrefix(v, " ") || strings.HasPrefix(v, "\n") {
			return ""
		}
		b := "|-"
		switch {
		case strings.HasSuffix(v, "\n\n"):
			b = "|+"
		case strings.HasSuffix(v, "\n"):
			b = "|"
		}
		return b + "\n      " + strings.ReplaceAll(strings.TrimSuffix(v, "\n"), "\n", "\n      ")
	}
	n := 0
	for _, v := range strs {
		for _, style := range []string{"json", "single", "block"} {
			for _, src := range []string{"-c", "env", "file"} {
				wireCase(fmt.Sprintf("value %.40q %s from %s", v, style, src), func() (string, string) {
					q := quote(v, style)
					if q == "" {
						return "", "no such form"
					}
					name := quote(v[:min(len(v), 100)], "json")
					port := freePort()
					y := fmt.Sprintf("connection:\n  downstream: {port: %d}\njwt:\n  j:\n    alg: HS256\n    key: %s\n  %s:\n    alg: none\n", port, q, name)
					y += fmt.Sprintf("policies:\n  %s: [{label: %s, weight: 1}]\n", name, name)
					y += fmt.Sprintf("routes:\n- {path: /sec, resource: about, jwt: j}\n- {path: /none, resource: about, jwt: %s}\n- {path: /name, resource: %s, policy: %s, transform: /$HOME/$$/x}\n", name, name, name)
					y += fmt.Sprintf("resources:\n  %s:\n  - {labels: [x], url: {scheme: http, host: 127.0.0.1, port: 1}}\n  - {labels: [%s], url: {scheme: http, host: 127.0.0.1, port: %d}}\n", name, name, up.port)
					n++
					d := filepath.Join(dir, strconv.Itoa(n))
					os.MkdirAll(d, 0755)
					defer os.RemoveAll(d)
					var args, env []string
					switch src {
					case "-c":
						os.WriteFile(filepath.Join(d, "x.yml"), []byte(y), 0644)
						args = []string{"-c", "x.yml"}
					case "env":
						env = []string{"J8ACFG_YML=" + y}
					default:
						os.WriteFile(filepath.Join(d, "j8acfg.yml"), []byte(y), 0644)
					}
					p := launch(d, args, env...)
					defer p.stop()
					s := &srv{proc: p, port: port}
					for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !s.exited(); {
						if k, err := net.Dial("tcp", s.addr()); err == nil {
							k.Close()
							break
						}
						s.wait(time.Millisecond)
					}
					if s.exited() {
						return "the server did not start: " + s.out.String(), ""
					}
					cl := &wclient{addr: s.addr()}
					defer cl.drop()
					for _, x := range []struct {
						key  string
						code int
					}{{v, 200}, {v + "x", 401}, {strings.TrimSpace(v) + " ", 401}, {os.ExpandEnv(v), 401}} {
						if x.key == v {
							x.code = 200
						}
						tok := forge(`{"alg":"HS256","typ":"JWT"}`, `{"sub":"x"}`, "HS256", []byte(x.key))
						if r := cl.do("GET", "GET /sec HTTP/1.1\r\nHost: x\r\nAuthorization: Bearer "+tok+"\r\n\r\n"); r.Err != nil || r.Status != x.code {
							return fmt.Sprintf("the secret is %.60q, a token of secret %.60q got %s", v, x.key, r), ""
						}
					}
					tok := forge(`{"alg":"none"}`, `{"sub":"x"}`, "none", nil)
					if r := cl.do("GET", "GET /none HTTP/1.1\r\nHost: x\r\nAuthorization: Bearer "+tok+"\r\n\r\n"); r.Err != nil || r.Status != 200 {
						return fmt.Sprintf("a token of the jwt named %.60q got %s", v, r), ""
					}
					r := cl.do("GET", "GET /name/y HTTP/1.1\r\nHost: x\r\nX-Case: v\r\n\r\n")
					q0 := up.take("v")
					if r.Err != nil || r.Status != 200 || len(q0) != 1 || q0[0].Line != "GET /$HOME/$$/x/y HTTP/1.1" {
						return fmt.Sprintf("resource, policy and label %.60q got %s, upstream saw %v", v, r, q0), ""
					}
					return "", "arrived"
				})
			}
		}
	}
}

// orderly tells what is wrong with the end of a process that refused its configuration
func orderly(s *srv) string {
	out := s.out.String()
	if strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ") {
		return "the boot crashed: " + out
	}
	if s.code == 0 {
		return "the boot ended without an error: " + out
	}
	return ""
}

func effects() {
	up := newRawUp("up", nil)
	y := func(down, ups string) string {
		return fmt.Sprintf("connection:\n  downstream: {port: {{PORT}}%s}\n  upstream: {%s}\nroutes: [{path: /, resource: api}]\nresources: {api: [{url: {scheme: http, host: 127.0.0.1, port: %d}}]}\n", down, ups, up.port)
	}
	with := func(key, yml string, f func(s *srv) string) {
		wireCase("effect "+key, func() (string, string) {
			s, x := bootOrRefuse(yml)
			if s == nil {
				return "did not start: " + x, ""
			}
			defer s.stop()
			return f(s), key
		})
	}
	get := func(s *srv, path, more string) (*wresp, time.Duration) {
		t := time.Now()
		c := &wclient{addr: s.addr()}
		defer c.drop()
		r := c.do("GET", "GET "+path+" HTTP/1.1\r\nHost: x\r\n"+more+"\r\n")
		return r, time.Since(t)
	}
	// closes measures when the server hangs up on a connection
	closes := func(s *srv, send string, resp bool) (time.Duration, string) {
		c := dialRaw(s.addr())
		if c == nil {
			return 0, "cannot connect"
		}
		defer c.Close()
		io.WriteString(c, send)
		if resp {
			if r := c.readResp("GET", 10*time.Second); r.Err != nil || r.Status != 200 {
				return 0, "no answer: " + r.String()
			}
		}
		t := time.Now()
		c.SetReadDeadline(time.Now().Add(12 * time.Second))
		for {
			b := make([]byte, 4096)
			if _, err := c.Read(b); err != nil {
				if e, ok := err.(net.Error); ok && e.Timeout() {
					return 12 * time.Second, ""
				}
				return time.Since(t), ""
			}
		}
	}
	window := func(d time.Duration, p string, secs int) string {
		lo, hi := time.Duration(secs)*time.Second-100*time.Millisecond, time.Duration(secs)*time.Second+2500*time.Millisecond
		if p != "" {
			return p
		}
		if d < lo || d > hi {
			return fmt.Sprintf("took %v with %d s configured", d, secs)
		}
		return ""
	}
	reqOK := "GET /a HTTP/1.1\r\nHost: x\r\n\r\n"
	// values so large that no run could wait for them: nothing is cut off, refused or resent
	slow := newRawUp("slow", nil)
	slow.set(func(*upReq) upAct {
		return upAct{Delay: 300 * time.Millisecond, Raw: "HTTP/1.1 200 X\r\nContent-Length: 2\r\n\r\nok"}
	})
	for _, p := range cfgParams {
		if p.name == "port" {
			continue
		}
		for _, v := range []string{"2147483647", "2147483648", "4294967295", "4294967296", "9223372035", "9223372036", "9223372037", "9999999999", "18446744073", "18446744074", "36893488147", "9007199254740993", "9223372036854775806", "9223372036854775807"} {
			line := ""
			down, ups := "", ""
			if line = p.name + ": " + v; p.side == "downstream" {
				down = ", " + line
			} else {
				ups = line
			}
			with("huge "+p.side+" "+line, strings.Replace(y(down, ups), fmt.Sprint(up.port), fmt.Sprint(slow.port), 1), func(s *srv) string {
				c := dialRaw(s.addr())
				if c == nil {
					return "cannot connect"
				}
				defer c.Close()
				for i := 0; i < 3; i++ {
					io.WriteString(c, "PUT /a HTTP/1.1\r\nHost: x\r\nX-Case: h\r\nContent-Length: 10\r\n\r\nabcde")
					time.Sleep(50 * time.Millisecond)
					io.WriteString(c, "fghij")
					r := c.readResp("PUT", 10*time.Second)
					if q := slow.take("h"); r.Err != nil || r.Status != 200 || len(q) != 1 || string(q[0].Body) != "abcdefghij" {
						return fmt.Sprintf("request %d got %s, upstream saw %v", i, r, q)
					}
					time.Sleep(100 * time.Millisecond)
				}
				return ""
			})
		}
	}
	for _, n := range []int{1, 3} {
		n := n
		with(fmt.Sprint("downstream idle ", n), y(fmt.Sprintf(", idleTimeoutSeconds: %d, readTimeoutSeconds: 30", n), ""), func(s *srv) string {
			d, p := closes(s, reqOK, true)
			return window(d, p, n)
		})
		with(fmt.Sprint("downstream read head ", n), y(fmt.Sprintf(", readTimeoutSeconds: %d, idleTimeoutSeconds: 30", n), ""), func(s *srv) string {
			d, p := closes(s, "GET /a HTTP/1.1\r\nHost: x", false)
			return window(d, p, n)
		})
		with(fmt.Sprint("downstream read body ", n), y(fmt.Sprintf(", readTimeoutSeconds: %d, idleTimeoutSeconds: 30", n), ""), func(s *srv) string {
			d, p := closes(s, "PUT /a HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nabc", false)
			return window(d, p, n)
		})
		with(fmt.Sprint("round trip ", n), y(fmt.Sprintf(", roundTripTimeoutSeconds: %d", n), ""), func(s *srv) string {
			up.set(func(*upReq) upAct { return upAct{Hang: true} })
			r, d := get(s, "/a", "")
			if r.Err != nil || r.Status != 504 {
				return "got " + r.String()
			}
			return window(d, "", n)
		})
		with(fmt.Sprint("upstream read ", n), y("", fmt.Sprintf("readTimeoutSeconds: %d", n)), func(s *srv) string {
			up.set(func(*upReq) upAct { return upAct{Hang: true} })
			r, d := get(s, "/a", "")
			if r.Err != nil || r.Status != 504 {
				return "got " + r.String()
			}
			return window(d, "", n)
		})
		with(fmt.Sprint("upstream idle ", n), y("", fmt.Sprintf("idleTimeoutSeconds: %d", n)), func(s *srv) string {
			up.set(func(*upReq) upAct { return ok200("ok") })
			if r, _ := get(s, "/a", "X-Case: 1\r\n"); r.Status != 200 {
				return r.String()
			}
			time.Sleep(time.Duration(n)*time.Second - 500*time.Millisecond)
			if r, _ := get(s, "/a", "X-Case: 2\r\n"); r.Status != 200 {
				return r.String()
			}
			time.Sleep(time.Duration(n)*time.Second + 1500*time.Millisecond)
			if r, _ := get(s, "/a", "X-Case: 3\r\n"); r.Status != 200 {
				return r.String()
			}
			a, b, c := up.take("1"), up.take("2"), up.take("3")
			if len(a) != 1 || len(b) != 1 || len(c) != 1 {
				return "upstream did not see each request once"
			}
			if a[0].Conn != b[0].Conn {
				return "an idle upstream connection was not reused within the idle timeout"
			}
			if b[0].Conn == c[0].Conn {
				return "an upstream connection was kept beyond the idle timeout"
			}
			return ""
		})
		with(fmt.Sprint("socket timeout tls ", n), strings.Replace(y("", fmt.Sprintf("socketTimeoutSeconds: %d, tlsInsecureSkipVerify: true", n)), "scheme: http,", "scheme: https,", 1), func(s *srv) string {
			// the upstream speaks no TLS and stays silent after the client hello
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return ""
			}
			defer ln.Close()
			go func() {
				for {
					c, err := ln.Accept()
					if err != nil {
						return
					}
					defer c.Close()
				}
			}()
			s2, x := bootOrRefuse(strings.Replace(s.yml, fmt.Sprintf("port: %d}}]", up.port), fmt.Sprintf("port: %d}}]", ln.Addr().(*net.TCPAddr).Port), 1))
			if s2 == nil {
				return x
			}
			defer s2.stop()
			r, d := get(s2, "/a", "")
			if r.Err != nil || (r.Status != 502 && r.Status != 504) {
				return "got " + r.String()
			}
			return window(d, "", n)
		})
	}
	for _, n := range []int{1, 2, 5} {
		n := n
		with(fmt.Sprint("pool ", n), y("", fmt.Sprintf("poolSize: %d", n)), func(s *srv) string {
			const par = 8
			var in, wg sync.WaitGroup
			in.Add(par)
			up.set(func(*upReq) upAct { // all of them at once
				in.Done()
				in.Wait()
				return ok200("ok")
			})
			bad := make(chan string, 100)
			for i := 0; i < par; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r, _ := get(s, "/a", "X-Case: p\r\n"); r.Status != 200 {
						bad <- r.String()
					}
				}()
			}
			wg.Wait()
			first := up.take("p")
			in.Add(par)
			time.Sleep(100 * time.Millisecond)
			for i := 0; i < par; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r, _ := get(s, "/a", "X-Case: p\r\n"); r.Status != 200 {
						bad <- r.String()
					}
				}()
			}
			wg.Wait()
			select {
			case b := <-bad:
				return b
			default:
			}
			conns := map[int]bool{}
			for _, q := range first {
				conns[q.Conn] = true
			}
			if len(conns) != par {
				return fmt.Sprintf("%d connections for %d parallel requests", len(conns), par)
			}
			reused := 0
			for _, q := range up.take("p") {
				if conns[q.Conn] {
					reused++
				}
			}
			if reused != n {
				return fmt.Sprintf("%d of %d connections were kept with a pool of %d", reused, par, n)
			}
			return ""
		})
		with(fmt.Sprint("attempts ", n), y("", fmt.Sprintf("maxAttempts: %d", n)), func(s *srv) string {
			up.set(func(*upReq) upAct { return upAct{Raw: "HTTP/1.1 500 Oops\r\nContent-Length: 0\r\n\r\n"} })
			r, _ := get(s, "/a", "X-Case: m\r\n")
			if r.Status != 502 {
				return r.String()
			}
			if got := len(up.take("m")); got != n {
				return fmt.Sprintf("%d attempts with %d configured", got, n)
			}
			return ""
		})
	}
	for _, m := range []struct {
		yml  string
		size int
	}{{"", 2 << 20}, {", maxBodyBytes: 0", 2 << 20}, {", maxBodyBytes: 10", 10}, {", maxBodyBytes: 1", 1}, {", maxBodyBytes: 5000", 5000}} {
		m := m
		with("body"+m.yml, y(m.yml, ""), func(s *srv) string {
			up.set(func(*upReq) upAct { return ok200("ok") })
			for _, d := range []int{-1, 1} {
				n := m.size + d
				c := &wclient{addr: s.addr()}
				r := c.do("PUT", fmt.Sprintf("PUT /a HTTP/1.1\r\nHost: x\r\nX-Case: b\r\nContent-Length: %d\r\n\r\n%s", n, strings.Repeat("x", n)))
				c.drop()
				got := len(up.take("b"))
				if d < 0 && (r.Status != 200 || got != 1) || d > 0 && (r.Status != 413 || got != 0) {
					return fmt.Sprintf("%d bytes with a limit of %d: %s, upstream saw %d", n, m.size, r, got)
				}
			}
			return ""
		})
	}
	for _, m := range []string{"", ", mode: HTTP", ", mode: http", ", mode: TLS", ", mode: tls", ", mode: tLs", ", mode: null"} {
		m := m
		root := makeCert(certSpec{cn: "root", ca: true})
		leaf := makeCert(certSpec{cn: "leaf", dns: []string{"a.test"}, parent: root})
		yml := strings.Replace(tlsYmlOf(pemCerts(leaf, root), pemKey(leaf.key), ""), "    mode: TLS\n", "", 1)
		if m != "" {
			yml = strings.Replace(yml, "    cert:", "    "+m[2:]+"\n    cert:", 1)
		}
		with("mode"+m, yml, func(s *srv) string {
			c, err := tls.Dial("tcp", s.addr(), &tls.Config{InsecureSkipVerify: true, CurvePreferences: []tls.CurveID{tls.CurveP256}})
			isTLS := strings.Contains(strings.ToLower(m), "tls")
			if (err == nil) != isTLS {
				return fmt.Sprintf("TLS handshake: %v", err)
			}
			if err == nil {
				defer c.Close()
				io.WriteString(c, "GET /about HTTP/1.1\r\nHost: x\r\n\r\n")
				if r := (&wconn{Conn: c, r: bufio.NewReader(c)}).readResp("GET", 10*time.Second); r.Status != 200 {
					return r.String()
				}
				return ""
			}
			if r, _ := get(s, "/about", ""); r.Status != 200 {
				return r.String()
			}
			return ""
		})
	}
	// default ports, one case so that no two processes compete for them
	wireCase("effect default ports", func() (string, string) {
		root := makeCert(certSpec{cn: "root", ca: true})
		leaf := makeCert(certSpec{cn: "leaf", dns: []string{"a.test"}, parent: root})
		tlsY := tlsYmlOf(pemCerts(leaf, root), pemKey(leaf.key), "")
		for _, c := range []struct {
			yml  string
			port int
		}{
			{"routes: [{path: /about, resource: about}]\n", 8080},
			{"connection: {downstream: {port: 0}}\nroutes: [{path: /about, resource: about}]\n", 8080},
			{strings.Replace(tlsY, "    port: {{PORT}}\n", "", 1), 443},
			{strings.Replace(tlsY, "{{PORT}}", "0", 1), 443},
		} {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", c.port))
			if err != nil {
				R.Note("default_ports_untested", err.Error())
				continue
			}
			l.Close()
			s := &srv{proc: launch(".", nil, "J8ACFG_YML="+c.yml), port: c.port}
			ok := false
			for end := time.Now().Add(15 * time.Second); time.Now().Before(end) && !s.exited() && !ok; {
				if k, err := net.Dial("tcp", s.addr()); err == nil {
					k.Close()
					ok = true
				}
				s.wait(2 * time.Millisecond)
			}
			out := s.out.String()
			s.stop()
			if !ok {
				return fmt.Sprintf("not listening on %d with %s: %s", c.port, c.yml, out), ""
			}
		}
		return "", "ports"
	})
}
