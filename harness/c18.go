//go:build go1.21

package j8a

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C18"] = checkC18
	checks["C18w"] = checkC18w
}

// peer is a remote address: what Go prints and what is to be logged
type peer struct {
	printed string // host:port
	want    string
	name    string
}

func peersOf(ip netip.Addr, ports []int, zones []string) []peer {
	var out []peer
	add := func(s, want string) {
		for _, o := range out {
			if o.printed == s {
				return
			}
		}
		out = append(out, peer{s, want, s})
	}
	for _, p := range ports {
		if ip.Is4() {
			add((&net.TCPAddr{IP: net.IP(ip.AsSlice()), Port: p}).String(), ip.String())
			add(netip.AddrPortFrom(ip, uint16(p)).String(), ip.String())
			continue
		}
		for _, z := range zones {
			if z != "" && ip.Is4In6() {
				continue // there is no such thing
			}
			ta := &net.TCPAddr{IP: net.IP(ip.AsSlice()), Port: p, Zone: z}
			w := net.IP(ip.AsSlice()).String()
			add(ta.String(), w)
			if !ip.Is4In6() {
				add(netip.AddrPortFrom(ip.WithZone(z), uint16(p)).String(), ip.WithZone("").String())
			} else {
				// without a zone there are two ways to print it, both name the address
				add(netip.AddrPortFrom(ip, uint16(p)).String(), ip.String())
			}
		}
	}
	return out
}

func c18Msgs() []string {
	locals := []string{"10.0.0.2:443", "[::1]:443", "[2001:db8::2]:8443", "[fe80::2%eth0]:443", "172.17.255.254:8080"}
	m := []string{
		"http: TLS handshake error from %s: EOF",
		"http: TLS handshake error from %s: tls: first record does not look like a TLS handshake",
		"http: TLS handshake error from %s: tls: client offered only unsupported versions: [302 301]",
		"http: TLS handshake error from %s: tls: client offered only unsupported versions: []",
		"http: TLS handshake error from %s: tls: no cipher suite supported by both client and server",
		"http: TLS handshake error from %s: remote error: tls: unknown certificate authority",
		"http: TLS handshake error from %s: remote error: tls: bad certificate",
		"http: TLS handshake error from %s: tls: client requested unsupported application protocols ([\"h3\"])",
		"http: TLS handshake error from %s: tls: client requested unsupported application protocols ([\"9.8.7.6\" \"::1\"])",
		"http: TLS handshake error from %s: tls: client requested unsupported application protocols ([\"a::b\" \"[fe80::bad]:1\" \" 9.8.7.6:1 \" \"[::2]\"])",
		"http: TLS handshake error from %s: client sent an HTTP request to an HTTPS server",
		"http: TLS handshake error from %s: tls: unsupported SSLv2 handshake received",
		"http: TLS handshake error from %s: tls: oversized record received with length 21536",
		"http: TLS handshake error from %s: local error: tls: unexpected message",
		"http: TLS handshake error from %s: context deadline exceeded",
		"http: panic serving %s: runtime error: invalid memory address or nil pointer dereference\ngoroutine 35 [running]:\nnet/http.(*conn).serve.func1()\n\t/usr/local/go/src/net/http/server.go:1868 +0xb9\npanic({0xa5c3e0?, 0x10fd5b0?})\n",
		"http: panic serving %s: cafe::babe 1.1.1.1 dead:beef\n",
		"http: response.WriteHeader on hijacked connection from %s",
		"http2: server: error reading preface from client %s: timeout waiting for client preface",
		"http2: server: error reading preface from client %s: bogus greeting \"POST / HTTP/1.1\\r\\nHost: a\"",
		"http2: server connection error from %s: connection error: PROTOCOL_ERROR",
		"http: TLS handshake error from %s: write tcp: broken pipe",
	}
	for _, l := range locals {
		m = append(m, "http: TLS handshake error from %s: read tcp "+l+"->%s: read: connection reset by peer",
			"http: TLS handshake error from %s: write tcp "+l+"->%s: i/o timeout")
	}
	return m
}

func checkC18() {
	R.Rule = "all IPv4 addresses over an alphabet of octets and all IPv6 addresses over an alphabet of groups, in each textual form Go prints, with ports and zones, in each message net/http and crypto/tls print with a client address (hostile content included), through the adapter of the server's error log; and as remote address of a request that is logged"
	zla := &zerologAdapter{}
	msgs := c18Msgs()
	logReset(true)
	one := func(p peer, msg string) string {
		m := strings.ReplaceAll(msg, "%s", p.printed)
		logReset(true)
		if n, err := zla.Write([]byte(m + "\n")); n != len(m)+1 || err != nil {
			return fmt.Sprintf("%q: adapter wrote %d, %v", m, n, err)
		}
		n := 0
		for _, e := range logLines() {
			if got, ok := e["dwnReqRemoteAddr"]; ok && got != p.want {
				return fmt.Sprintf("%q: logged remote address is %v instead of %s", m, got, p.want)
			} else if ok {
				n++
			}
		}
		if n == 0 {
			return fmt.Sprintf("%q: logged without remote address", m)
		}
		return ""
	}
	Runner = &Runtime{Config: *bootChain("connection: {downstream: {port: 1}}\nroutes: [{path: /about, resource: about}]\n"), Start: time.Now()}
	req := func(p peer, h http.HandlerFunc) string {
		logReset(true)
		r := httptest.NewRequest("GET", "/about", nil)
		r.RemoteAddr = p.printed
		h(httptest.NewRecorder(), r)
		var l []map[string]interface{}
		for _, e := range logLines() {
			if _, ok := e["dwnResCode"]; ok {
				l = append(l, e)
			}
		}
		if len(l) != 1 {
			return fmt.Sprintf("%s: %d log entries", p.printed, len(l))
		}
		if got := l[0]["dwnReqRemoteAddr"]; got != p.want {
			return fmt.Sprintf("request from %s is logged as from %v instead of %s", p.printed, got, p.want)
		}
		return ""
	}
	trace := os.Getenv("VERIF_REPLAY") != ""
	group := func(name string, ps []peer, every int) {
		if !R.Mine(name) {
			return
		}
		R.Before(name)
		defer setLevel()()
		n := 0
		for pi, p := range ps {
			for mi, m := range msgs {
				if every > 1 && (pi+mi)%every != 0 {
					continue
				}
				if v6 := strings.HasPrefix(p.printed, "["); strings.Contains(m, "->") && v6 != strings.Contains(m, "[") {
					continue // both ends of a connection are of one family
				}
				n++
				if d := one(p, m); d != "" {
					R.Violate(name, "%s", d)
					return
				}
			}
			for hi, h := range []http.HandlerFunc{proxyHandler, aboutHandler} {
				if every > 1 && (pi+hi)%2 != 0 {
					continue
				}
				n++
				if d := req(p, h); d != "" {
					R.Violate(name, "%s", d)
					return
				}
			}
			R.Ran(name+p.printed, p.want, true)
		}
		R.Evaluations += int64(n - len(ps))
		R.Steps += int64(n)
		R.Validated += int64(n)
		_ = trace
	}
	ports := []int{1, 80, 1234, 8080, 49580, 65535}
	if !thorough() {
		ports = []int{80, 49580}
	}
	oct := []byte{0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255}
	for _, a := range oct {
		for _, b := range oct {
			var ps []peer
			for _, c := range oct {
				for _, d := range oct {
					ps = append(ps, peersOf(netip.AddrFrom4([4]byte{a, b, c, d}), ports, nil)...)
				}
			}
			group(fmt.Sprintf("v4 %d.%d.*", a, b), ps, pick(6, 1))
		}
	}
	// every value of every octet
	for pos := 0; pos < 4; pos++ {
		var ps []peer
		for v := 0; v < 256; v++ {
			x := [4]byte{192, 168, 7, 33}
			x[pos] = byte(v)
			ps = append(ps, peersOf(netip.AddrFrom4(x), ports, nil)...)
		}
		group(fmt.Sprintf("v4 octet %d", pos), ps, 1)
	}
	zones := []string{"", "eth0", "1", "en0.100", "br-1a2b", "Ethernet 2", "fe80", "::"}
	if !thorough() {
		zones = []string{"", "eth0", "br-1a2b"}
	}
	groups := []uint16{0, 1, 0xab, 0xffff}
	if thorough() {
		groups = []uint16{0, 1, 0xf, 0x1605, 0xffff}
	}
	n := 1
	for i := 0; i < 4; i++ {
		n *= len(groups)
	}
	for hi := 0; hi < n; hi++ {
		var ps []peer
		for lo := 0; lo < n; lo++ {
			var b [16]byte
			h, l := hi, lo
			for g := 0; g < 4; g++ {
				b[2*g], b[2*g+1] = byte(groups[h%len(groups)]>>8), byte(groups[h%len(groups)])
				b[8+2*g], b[8+2*g+1] = byte(groups[l%len(groups)]>>8), byte(groups[l%len(groups)])
				h, l = h/len(groups), l/len(groups)
			}
			z := zones[(hi+lo)%len(zones)]
			ps = append(ps, peersOf(netip.AddrFrom16(b), ports[(hi+lo)%len(ports):][:1], []string{z})...)
		}
		group(fmt.Sprintf("v6 high %d", hi), ps, pick(8, 6))
	}
	// some in full
	for _, s := range []string{"::", "::1", "fe80::1", "fe80::fc:ff:fe00:1", "2001:db8::2:1", "2406:2000:e4:1605::9001", "1:2:3:4:5:6:7:8", "ff02::fb", "::ffff:10.1.1.1", "::ffff:255.255.255.255", "::10.1.1.1", "64:ff9b::a01:101", "2001:0:0:1::", "1::", "::8", "a:b:c:d:e:f:0:0", "fd00::2", "2001:db8:0:1:1:1:1:1", "100::ffff:1.2.3.4"} {
		group("v6 "+s, peersOf(netip.MustParseAddr(s), []int{1, 80, 443, 1234, 8080, 49580, 65535}, []string{"", "eth0", "1", "en0.100", "br-1a2b", "Ethernet 2", "fe80", "::", "wlp2s0"}), 1)
	}
}

func checkC18w() {
	R.Rule = "connections from loopback addresses (IPv4 sources over an octet alphabet, IPv6 where the machine has it) to the real server: requests, and TLS handshakes that fail in each of a list of ways; the address in the log entry is compared with the source address"
	up := newRawUp("up", nil)
	s := mustBoot(strings.Replace(tlsYml(up.port), "mode: TLS", "readTimeoutSeconds: 3\n    mode: TLS", 1), "LOGLEVEL=TRACE")
	defer s.stop()
	s2 := mustBoot(wireYml(up.port, ""))
	defer s2.stop()
	dial := func(src string, port int) (net.Conn, error) {
		host := "127.0.0.1"
		if strings.Contains(src, ":") {
			host = src
		}
		d := net.Dialer{Timeout: 5 * time.Second}
		la, err := net.ResolveTCPAddr("tcp", net.JoinHostPort(src, "0"))
		if err != nil {
			return nil, err
		}
		d.LocalAddr = la
		return d.Dial("tcp", net.JoinHostPort(host, strconv.Itoa(port)))
	}
	srcs := []string{"127.0.0.1", "127.1.1.1", "127.0.0.99", "127.200.10.250", "127.255.255.254", "127.9.99.199", "127.100.0.10", "127.249.1.100"}
	if c, err := dial("::1", s.port); err == nil {
		c.Close()
		srcs = append(srcs, "::1")
	}
	ifs, _ := net.InterfaceAddrs()
	for _, a := range ifs {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && n.IP.IsGlobalUnicast() {
			src := n.IP.String()
			if c, err := (&net.Dialer{Timeout: time.Second, LocalAddr: &net.TCPAddr{IP: n.IP}}).Dial("tcp", net.JoinHostPort(src, strconv.Itoa(s.port))); err == nil {
				c.Close()
				srcs = append(srcs, src)
			}
		}
	}
	dialTo := func(src string, port int) (net.Conn, error) {
		if ip := net.ParseIP(src); ip != nil && !ip.IsLoopback() {
			return (&net.Dialer{Timeout: 5 * time.Second, LocalAddr: &net.TCPAddr{IP: ip}}).Dial("tcp", net.JoinHostPort(src, strconv.Itoa(port)))
		}
		return dial(src, port)
	}
	fails := []struct {
		name string
		f    func(c net.Conn)
	}{
		{"garbage", func(c net.Conn) { c.Write([]byte("\x16\x03\x99garbage that is no hello at all")) }},
		{"http", func(c net.Conn) { c.Write([]byte("GET / HTTP/1.1\r\nHost: a\r\n\r\n")) }},
		{"ssl2", func(c net.Conn) { c.Write([]byte("\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10")) }},
		{"eof", func(c net.Conn) { c.Write([]byte("\x16\x03\x01")); c.(*net.TCPConn).CloseWrite() }},
		{"reset", func(c net.Conn) {
			c.Write([]byte("\x16\x03\x01"))
			time.Sleep(5 * time.Millisecond)
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}},
		{"old", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS11, MinVersion: tls.VersionTLS10}).Handshake()
		}},
		{"suite", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, MaxVersion: tls.VersionTLS12, CipherSuites: []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA}}).Handshake()
		}},
		{"distrust", func(c net.Conn) { tls.Client(c, &tls.Config{ServerName: "localhost"}).Handshake() }},
		{"alpn", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h3"}}).Handshake()
		}},
		{"alpn v6", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"::bad", "fe80::1"}}).Handshake()
		}},
		{"alpn bracket", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"[::bad]", "[fe80::1]:80 "}}).Handshake()
		}},
		{"alpn v4", func(c net.Conn) {
			tls.Client(c, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{" 9.8.7.6:1 ", "9.8.7.6"}}).Handshake()
		}},
		{"timeout", func(c net.Conn) {
			c.SetReadDeadline(time.Now().Add(8 * time.Second))
			c.Read(make([]byte, 1))
		}},
	}
	for _, src := range srcs {
		for _, f := range fails {
			wireCase("handshake "+f.name+" from "+src, func() (string, string) {
				s.out.Reset()
				c, err := dialTo(src, s.port)
				if err != nil {
					return "", "no connection"
				}
				me := c.LocalAddr().String()
				f.f(c)
				defer c.Close()
				var seen []string
				for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
					all, _ := logEntries(s.out.String())
					for _, e := range all {
						if strings.Contains(fmt.Sprint(e), "handshake") && strings.Contains(fmt.Sprint(e), me) {
							if a := str(e["dwnReqRemoteAddr"]); a != src {
								return fmt.Sprintf("handshake error from %s is logged as %v", src, e), ""
							}
							return "", "logged"
						}
					}
				}
				return fmt.Sprintf("no log entry for the failed handshake: %q", seen), ""
			})
		}
		for _, tgt := range []string{"/about", "/api", "/nowhere", "/sec", "/none"} {
			for _, tl := range []bool{false, true} {
				wireCase(fmt.Sprintf("request %s tls %v from %s", tgt, tl, src), func() (string, string) {
					sv := s2
					if tl {
						sv = s
					}
					sv.out.Reset()
					c, err := dialTo(src, sv.port)
					if err != nil {
						return "", "no connection"
					}
					defer c.Close()
					if tl {
						t := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
						if t.Handshake() != nil {
							return "handshake failed", ""
						}
						c = t
					}
					id := "c18-" + src + tgt + fmt.Sprint(tl)
					fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: a\r\nX-Request-Id: %s\r\nConnection: close\r\n\r\n", tgt, id)
					c.SetReadDeadline(time.Now().Add(10 * time.Second))
					b := make([]byte, 4096)
					for {
						if _, err := c.Read(b); err != nil {
							break
						}
					}
					for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
						all, _ := logEntries(sv.out.String())
						for _, e := range all {
							if _, ok := e["dwnResCode"]; ok && e[XRequestID] == id {
								if e["dwnReqRemoteAddr"] != src {
									return fmt.Sprintf("request from %s is logged as %v", src, e), ""
								}
								return "", "logged"
							}
						}
					}
					return "no log entry for the request: " + sv.out.String(), ""
				})
			}
		}
	}
}
