//go:build go1.21

package j8a

// The server's identity and its log follow the environment.

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() {
	checks["C29"] = checkC29
}

var c29Levels = map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "panic": 6}

// c29Level is the level that a LOGLEVEL asks for
func c29Level(v string) int {
	switch strings.ToUpper(v) {
	case "TRACE":
		return 0
	case "DEBUG":
		return 1
	case "WARN":
		return 3
	}
	return 2
}

var c29ID = regexp.MustCompile(`^[0-9a-f]{8}$`)

func checkC29() {
	R.Rule = "the real server is booted with every combination of HOSTNAME, VERSION, LOGLEVEL, TZ and LOGCOLOR values with up to two (thorough: any number) off their default, plain and TLS, and with configurations that are refused; after requests of every kind of outcome, identity and version in headers, bodies and request ids, and level, identity, form and time zone of every log line are compared with the environment"
	up := newRawUp("up", nil)
	var mu sync.Mutex
	ids := map[string]string{} // host/version -> id, id -> host/version
	hosts := []string{"", "a", "ab", "gw-1.example.test", strings.Repeat("h", 300), "h\"o s:t{}"}
	versions := []string{"", "v0.7.2", "b", "bc", "v9.9.9", "1 \"2\""}
	levels := []string{"", "TRACE", "trace", "Debug", "DEBUG", "INFO", "info", "WARN", "wArn", "ERROR", "bogus", " ", "WARNING", "warn ", " TRACE", "FATAL", "PANIC", "OFF", "DISABLED", "TRAC", "TRACES", "D", "ERR", "INFO2", "0", "-1", "5", "wаrn"}
	zones := []string{"", "UTC", "Australia/Sydney", "America/Los_Angeles", "Asia/Kolkata", "Bogus/Zone"}
	colors := []string{"", "TRUE", "yes", "y", "false", "1", "no"}
	g := newGroup(10)
	ports := sync.Mutex{}
	sysHost, _ := os.Hostname()
	run := func(ih, iv, il, iz, ic int, tlsmode bool, conf string) {
		h, v, l, z, c := hosts[ih], versions[iv], levels[il], zones[iz], colors[ic]
		key := fmt.Sprintf("host=%.20s version=%s level=%s tz=%s color=%s tls=%v %s", h, v, l, z, c, tlsmode, conf)
		g.do(key, func() (string, string) {
			yml := c17Yml(up.port, 1, 1, 1, 60, tlsmode)
			if conf == "refused" {
				yml = strings.Replace(yml, "routes:", "routs:", 1)
			}
			ports.Lock()
			port := freePort()
			ports.Unlock()
			p := launch(".", nil, "J8ACFG_YML="+strings.ReplaceAll(yml, "{{PORT}}", fmt.Sprint(port)), "HOSTNAME="+h, "VERSION="+v, "LOGLEVEL="+l, "TZ="+z, "LOGCOLOR="+c)
			defer p.stop()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			id := ""
			ver := v
			if ver == "" {
				ver = "v0.7.2"
			}
			if conf == "refused" {
				if !p.wait(10 * time.Second) {
					return "a refused configuration runs", ""
				}
				if p.code == 0 {
					return "a refused configuration exits with 0", ""
				}
			} else {
				for i := 0; ; i++ {
					x, err := net.Dial("tcp", addr)
					if err == nil {
						x.Close()
						break
					}
					if p.exited() || i > 3000 {
						return "the server does not come up: " + clip(p.out.String()), ""
					}
					time.Sleep(3 * time.Millisecond)
				}
				cl := &wclient{addr: addr}
				if tlsmode {
					cl.tls = &tls.Config{InsecureSkipVerify: true}
				}
				defer cl.drop()
				for i, tg := range []string{"/api/x", "/none/x", "/about", "/sec/x", "/nowhere", "/api/y"} {
					m := "GET"
					if tg == "/api/y" {
						m = "FOO"
					}
					r := cl.do(m, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n\r\n", m, tg))
					if r.Err != nil {
						return fmt.Sprintf("%s: %v", tg, r), ""
					}
					s := r.get("Server")
					if len(s) != 1 || !strings.HasPrefix(s[0], "j8a "+ver+" ") {
						return fmt.Sprintf("%s: Server is %q with version %q", tg, s, ver), ""
					}
					x := strings.TrimPrefix(s[0], "j8a "+ver+" ")
					if i == 0 {
						id = x
					}
					if x != id || !c29ID.MatchString(x) {
						return fmt.Sprintf("%s: the server calls itself %q, before %q", tg, x, id), ""
					}
					if rid := r.one("X-Request-Id"); tg != "/about" && !strings.HasPrefix(rid, "XR-"+id+"-") {
						return fmt.Sprintf("%s: X-Request-Id %q does not bear the server id %s", tg, rid, id), ""
					}
					if i > 0 {
						var b struct{ ServerID, Version string }
						if json.Unmarshal(r.Body, &b) != nil || b.ServerID != id || b.Version != ver {
							return fmt.Sprintf("%s: body %q, id %s, version %s", tg, r.Body, id, ver), ""
						}
					}
				}
				if tlsmode {
					if x := dialRaw(addr); x != nil {
						x.Write([]byte("GET / HTTP/1.1\r\n\r\n"))
						x.readResp("GET", 2*time.Second)
						x.Close()
					}
				}
				eh := h
				if eh == "" {
					eh = sysHost
				}
				mu.Lock()
				a, b := ids["env "+eh+ver], ids["id "+id]
				ids["env "+eh+ver], ids["id "+id] = id, eh+ver
				mu.Unlock()
				if a != "" && a != id {
					return fmt.Sprintf("the id for host %q and version %q is %s, before %s", eh, ver, id, a), ""
				}
				if b != "" && b != eh+ver {
					return fmt.Sprintf("the id %s stands for %q and for %q", id, eh+ver, b), ""
				}
				time.Sleep(60 * time.Millisecond)
			}
			out := p.out.String()
			seen := map[int]bool{}
			if conf == "refused" && strings.TrimSpace(out) == "" {
				return "a refused configuration says nothing", ""
			}
			if u := strings.ToUpper(c); u == "TRUE" || u == "YES" || u == "Y" {
				lvls := map[string]int{"TRC": 0, "DBG": 1, "INF": 2, "WRN": 3, "ERR": 4, "FTL": 5}
				for _, line := range strings.Split(out, "\n") {
					if strings.TrimSpace(line) == "" {
						continue
					}
					if !strings.Contains(line, "\x1b[") {
						return "with colors the log says " + clip(line), ""
					}
					for n, v := range lvls {
						if strings.Contains(line, "\x1b[1m\x1b["+"31m"+n) || strings.Contains(line, "m"+n+"\x1b[0m") {
							seen[v] = true
						}
					}
				}
			} else {
				all, bad := logEntries(out)
				if len(bad) > 0 {
					return "not JSON: " + clip(bad[0]), ""
				}
				loc, err := time.LoadLocation(z)
				if z == "" || err != nil {
					loc = time.UTC
				}
				known := false
				for _, en := range all {
					lv, ok := c29Levels[str(en["level"])]
					if !ok {
						return fmt.Sprintf("log line without level: %v", en), ""
					}
					seen[lv] = true
					if s := str(en["srvId"]); s != "" {
						known = true
						if id == "" {
							id = s
						}
						if s != id {
							return fmt.Sprintf("log line of server %s, not %s: %v", s, id, en), ""
						}
					} else if known || lv >= 2 {
						return fmt.Sprintf("log line without srvId: %v", en), ""
					}
					t, err := time.Parse(time.RFC3339, str(en["time"]))
					if err != nil || time.Since(t) > 2*time.Minute || time.Until(t) > 2*time.Minute {
						return fmt.Sprintf("time of a log line: %v", en), ""
					}
					if want := t.In(loc).Format(time.RFC3339); want != str(en["time"]) {
						return fmt.Sprintf("time %v is not that of zone %q, %s", en["time"], z, want), ""
					}
				}
			}
			lim := c29Level(l)
			for x := range seen {
				if x < lim {
					return fmt.Sprintf("LOGLEVEL %q logs level %d", l, x), ""
				}
			}
			var need []int
			switch {
			case conf == "refused":
				need = []int{5}
			default:
				for x := lim; x < 3; x++ {
					need = append(need, x)
				}
				if tlsmode {
					need = append(need, 3)
				}
			}
			for _, x := range need {
				if !seen[x] {
					return fmt.Sprintf("LOGLEVEL %q logs nothing at level %d", l, x), ""
				}
			}
			return "", fmt.Sprint(len(seen), lim)
		})
	}
	// the id of a host against those of its neighbours, and of its own restarts
	idOf := func(yml string, env ...string) (string, string) {
		ports.Lock()
		port := freePort()
		ports.Unlock()
		p := launch(".", nil, append([]string{"J8ACFG_YML=" + strings.ReplaceAll(yml, "{{PORT}}", fmt.Sprint(port))}, env...)...)
		defer p.stop()
		cl := &wclient{addr: fmt.Sprintf("127.0.0.1:%d", port)}
		defer cl.drop()
		for i := 0; i < 3000 && !p.exited(); i++ {
			if x, err := net.Dial("tcp", cl.addr); err == nil {
				x.Close()
				r := cl.do("GET", "GET /nowhere HTTP/1.1\r\nHost: x\r\n\r\n")
				f := strings.Fields(r.one("Server"))
				if len(f) < 3 || !c29ID.MatchString(f[len(f)-1]) {
					return "", "got " + r.String()
				}
				return f[len(f)-1], ""
			}
			time.Sleep(3 * time.Millisecond)
		}
		return "", "the server does not come up: " + clip(p.out.String())
	}
	plainYml := c17Yml(up.port, 1, 1, 1, 60, false)
	otherYml := "connection: {downstream: {port: {{PORT}}}}\nroutes: [{path: /, resource: about}]\n"
	for _, n := range []int{1, 2, 7, 8, 9, 16, 24, 25, 31, 32, 33, 63, 64, 65, 128, 253} {
		n := n
		g.do(fmt.Sprintf("neighbours of a host name of %d letters", n), func() (string, string) {
			base := strings.Repeat("host-name.example", n/17+1)[:n]
			envs := []string{base, base, base + "x", "x" + base}
			for _, i := range []int{0, n / 2, n - 1} {
				envs = append(envs, base[:i]+"Z"+base[i+1:], base[:i]+base[i+1:]+"y")
			}
			got := map[string]string{}
			of := map[string]string{}
			for i, h := range envs {
				if h == "" {
					continue
				}
				for _, v := range []string{"", "v0.7.2", "v0.7.3", "w0.7.2"} {
					if v != "" && i > 1 {
						continue
					}
					yml, more := plainYml, []string{"LOGLEVEL=TRACE", "TZ=UTC"}
					if i == 1 {
						yml, more = otherYml, []string{"LOGLEVEL=WARN", "TZ=Asia/Kolkata", "LOGCOLOR=y", "USER=nobody", "HOME=/nowhere"}
					}
					id, p := idOf(yml, append(more, "HOSTNAME="+h, "VERSION="+v)...)
					if p != "" {
						return p, ""
					}
					if v == "" {
						v = "v0.7.2"
					}
					who := h + " " + v
					if o, ok := got[who]; ok && o != id {
						return fmt.Sprintf("the id of %q was %s and is %s after a restart", who, o, id), ""
					}
					if o, ok := of[id]; ok && o != who {
						return fmt.Sprintf("%q and %q have the same id %s", o, who, id), ""
					}
					got[who], of[id] = id, who
				}
			}
			return "", "neighbours"
		})
	}
	for ih := range hosts {
		for iv := range versions {
			for il := range levels {
				for iz := range zones {
					for ic := range colors {
						off := 0
						for _, x := range []int{ih, iv, il, iz, ic} {
							if x > 0 {
								off++
							}
						}
						if off > pick(2, 3) || il > 11 && off > 1 {
							continue
						}
						run(ih, iv, il, iz, ic, false, "")
						if off < 2 || il > 0 {
							run(ih, iv, il, iz, ic, true, "")
						}
						if off < 2 {
							run(ih, iv, il, iz, ic, false, "refused")
						}
					}
				}
			}
		}
	}
	g.wait()
}
