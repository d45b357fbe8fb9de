//go:build go1.21

package j8a

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func init() {
	checks["C16"] = checkC16
	checks["C16w"] = checkC16w
}

const day = 24 * time.Hour

// tsSink keeps every log line with the instant it was written at
type tsSink struct {
	at   []time.Time
	line []map[string]interface{}
	raw  []string
}

func (s *tsSink) Write(p []byte) (int, error) {
	for _, l := range bytes.Split(bytes.TrimRight(p, "\n"), []byte("\n")) {
		m := map[string]interface{}{}
		if err := json.Unmarshal(l, &m); err != nil {
			m["level"], m["message"] = "invalid", string(l)
		}
		s.at, s.line, s.raw = append(s.at, time.Now()), append(s.line, m), append(s.raw, string(l))
	}
	return len(p), nil
}

// chainSpec is a chain, leaf first; the last one signs itself
type chainSpec struct {
	left   []time.Duration // remaining validity of each at the start
	serial []string
	order  []int           // positions after the leaf, in the order they are configured
	back   []time.Duration // how long ago each was issued, a day if not given
	year   []int           // the year each expires in, 0: see left
	since  int             // the year all were issued in, 0: see back
}

// secsBetween is b-a in seconds, durations end at 292 years
func secsBetween(a, b time.Time) int64 { return b.Unix() - a.Unix() }

func (c chainSpec) String() string {
	if c.year != nil {
		return fmt.Sprintf("until %v since %d left %v order %v", c.year, c.since, c.left, c.order)
	}
	if c.back != nil {
		return fmt.Sprintf("left %v serials %v order %v issued %v ago", c.left, c.serial, c.order, c.back)
	}
	return fmt.Sprintf("left %v serials %v order %v", c.left, c.serial, c.order)
}

var c16keys []crypto.Signer

func (c chainSpec) make(keys []crypto.Signer, now time.Time, back time.Duration) []*cert {
	n := len(c.left)
	cs := make([]*cert, n)
	for i := n - 1; i >= 0; i-- {
		back := back
		if c.back != nil {
			back = c.back[i]
		}
		s := certSpec{cn: fmt.Sprintf("cn%d", i), key: keys[i], notBefore: now.Add(-back), notAfter: now.Add(c.left[i]), ca: i > 0 || n == 1}
		if c.year != nil && c.year[i] != 0 {
			s.notAfter = time.Date(c.year[i], 12, 31, 23, 59, 59, 0, time.UTC)
		}
		if c.since != 0 {
			s.notBefore = time.Date(c.since, 1, 1, 0, 0, 0, 0, time.UTC)
		}
		s.serial, _ = new(big.Int).SetString(c.serial[i], 16)
		if i == 0 {
			s.dns = []string{"host.test", "*.host.test"}
		}
		if i < n-1 {
			s.parent = cs[i+1]
		}
		cs[i] = makeCert(s)
	}
	return cs
}

// serialForms are the ways a log may spell a serial
func hexOnly(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= '0' && r <= '9', r >= 'A' && r <= 'F':
			return r
		case r >= 'a' && r <= 'f':
			return r - 32
		}
		return -1
	}, s)
}

// earliestOf checks that a report names exactly the certificates idx (one of them) as the earliest
func earliestNamed(msg string, cs []*cert, idx map[int]bool) string {
	var seg []string
	for i, p := range strings.Split(msg, "#") {
		if i > 0 {
			seg = append(seg, p)
		}
	}
	if len(seg) != len(cs) {
		return fmt.Sprintf("the report is on %d certificates of %d: %s", len(seg), len(cs), msg)
	}
	named := 0
	for i, s := range seg {
		tok := hexOnly(strings.SplitN(s, " ", 2)[0])
		if strings.TrimLeft(tok, "0") != strings.TrimLeft(strings.ToUpper(fmt.Sprintf("%x", cs[i].x.SerialNumber)), "0") {
			return fmt.Sprintf("certificate %d has serial %x, reported as %q", i, cs[i].x.SerialNumber, strings.SplitN(s, " ", 2)[0])
		}
		if strings.Contains(s, "earliest") {
			named++
			if !idx[i] {
				return fmt.Sprintf("certificate %d is called the earliest to expire, that is %v: %s", i, idx, msg)
			}
		}
	}
	if named != 1 {
		return fmt.Sprintf("%d certificates are called the earliest to expire: %s", named, msg)
	}
	return ""
}

var (
	reExpires = regexp.MustCompile(`expires in ([0-9a-z ]+)`)
	reUnit    = regexp.MustCompile(`([0-9]+) (year|week|day|hour|minute|second|millisecond|microsecond)s?`)
	reTotal   = regexp.MustCompile(`validity period of ([0-9]+) days`)
	units16   = map[string]time.Duration{"year": 365 * day, "week": 7 * day, "day": day, "hour": time.Hour, "minute": time.Minute, "second": time.Second, "millisecond": time.Millisecond, "microsecond": time.Microsecond}
)

// factsTrue checks what a report says about each certificate at the instant it was written
func factsTrue(msg string, cs []*cert, at time.Time) string {
	for i, s := range strings.Split(msg, "#")[1:] {
		x := cs[i].x
		left := x.NotAfter.Sub(at)
		if m := reExpires.FindStringSubmatch(s); m != nil {
			sum, least := time.Duration(0), time.Duration(0)
			for _, u := range reUnit.FindAllStringSubmatch(m[1], -1) {
				least = units16[u[2]]
				sum += time.Duration(atoi(u[1], -1)) * least
			}
			if far := secsBetween(at, x.NotAfter); far > 290*365*86400 {
				// too far away for a duration: years and weeks, or a bound that is true
				got, unit := int64(0), int64(0)
				for _, u := range reUnit.FindAllStringSubmatch(m[1], -1) {
					unit = int64(units16[u[2]] / time.Second)
					got += int64(atoi(u[1], -1)) * unit
				}
				if got == 0 || got > far || far >= got+unit && !strings.Contains(m[1], "more than") {
					return fmt.Sprintf("certificate %d expires in %d years and is reported to expire in %q", i, far/365/86400, m[1])
				}
			} else if sum > left || left >= sum+least {
				return fmt.Sprintf("certificate %d expires in %v and is reported to expire in %q", i, left, m[1])
			}
		} else {
			return fmt.Sprintf("nothing on when certificate %d expires: %s", i, s)
		}
		if x.IsCA {
			continue
		}
		total := x.NotAfter.Sub(x.NotBefore)
		if long := strings.Contains(s, "above legal browser max"); long != (total > 398*day) {
			return fmt.Sprintf("certificate %d is valid for %v, too long for browsers: %v", i, total, long)
		} else if m := reTotal.FindStringSubmatch(s); long && (m == nil || int64(atoi(m[1], -1)) != secsBetween(x.NotBefore, x.NotAfter)/86400) {
			return fmt.Sprintf("certificate %d is valid for %v: %s", i, total, s)
		}
		if over := strings.Contains(s, "grace period expired"); over != !at.Before(x.NotBefore.Add(398*day)) {
			return fmt.Sprintf("certificate %d was issued %v ago, grace period over: %v", i, at.Sub(x.NotBefore), over)
		}
		if !strings.Contains(s, fmt.Sprint(x.DNSNames)) || !strings.Contains(s, x.NotBefore.Format("2006-01-02")) {
			return fmt.Sprintf("certificate %d is for %v, issued on %v: %s", i, x.DNSNames, x.NotBefore, s)
		}
	}
	return ""
}

func checkC16() {
	R.Rule = "every chain of up to three (thorough: four) certificates with every combination of remaining validities around the 30 day and expiry boundaries, every serial length and every order of configuration is put under the real health check loop for weeks of virtual time; each instant at which something is logged, its level and the certificate it names are compared with a reference"
	var keys []crypto.Signer
	for i := 0; i < 4; i++ {
		keys = append(keys, ecKey(elliptic.P256()))
	}
	run := func(c chainSpec, days int) {
		key := fmt.Sprintf("%v for %d days", c, days)
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		var problem, outcome string
		bubble(func() {
			s := &tsSink{}
			log.Logger = zerolog.New(s)
			zerolog.SetGlobalLevel(zerolog.DebugLevel)
			t0 := time.Now()
			cs := c.make(keys, t0, day)
			var ch tls.Certificate
			ch.PrivateKey = keys[0]
			ch.Certificate = [][]byte{cs[0].der}
			for _, i := range c.order {
				ch.Certificate = append(ch.Certificate, cs[i].der)
			}
			go tlsHealthCheck(&tls.Config{Certificates: []tls.Certificate{ch}}, true)
			time.Sleep(time.Duration(days)*day + time.Hour)
			n := 0
			for d := 0; d <= days && problem == ""; d++ {
				at := t0.Add(time.Duration(d) * day)
				var mine []map[string]interface{}
				for n < len(s.at) && !s.at[n].After(at) {
					if !s.at[n].Equal(at) && problem == "" {
						problem = fmt.Sprintf("logged after %v: %s", s.at[n].Sub(t0), s.raw[n])
					}
					mine = append(mine, s.line[n])
					n++
				}
				R.Steps++
				min, valid := time.Duration(1<<63-1), true
				first := cs[0].x.NotAfter
				for _, x := range cs {
					if l := x.x.NotAfter.Sub(at); l < min {
						min = l
					}
					if x.x.NotAfter.Before(first) {
						first = x.x.NotAfter
					}
					valid = valid && !at.After(x.x.NotAfter) && !at.Before(x.x.NotBefore)
				}
				idx := map[int]bool{}
				for i, x := range cs {
					idx[i] = x.x.NotAfter.Equal(first)
				}
				if len(mine) == 0 {
					problem = fmt.Sprintf("nothing was reported on day %d, earliest expiry in %v", d, min)
					break
				}
				warn, other := 0, 0
				var reports []string
				for _, m := range mine {
					if m["level"] == "warn" || m["level"] == "error" {
						warn++
					} else {
						other++
					}
					if msg := fmt.Sprint(m["message"]); strings.Contains(msg, "#") {
						reports = append(reports, msg)
					}
				}
				outcome += fmt.Sprint(warn, other, ";")
				if !valid {
					if warn == 0 {
						problem = fmt.Sprintf("no warning on day %d, the chain is not valid any more: %v", d, mine)
					}
					continue
				}
				if len(reports) != 1 {
					problem = fmt.Sprintf("%d reports on day %d: %v", len(reports), d, mine)
					continue
				}
				if (warn > 0) != (min < 30*day) {
					problem = fmt.Sprintf("warning=%v on day %d with %v left until the earliest expiry: %v", warn > 0, d, min, mine)
				} else if p := earliestNamed(reports[0], cs, idx); p != "" {
					problem = fmt.Sprintf("day %d: %s", d, p)
				} else if p := factsTrue(reports[0], cs, at); p != "" {
					problem = fmt.Sprintf("day %d: %s", d, p)
				}
			}
			if problem == "" && n < len(s.at) {
				problem = fmt.Sprintf("logged after %v: %s", s.at[n].Sub(t0), s.raw[n])
			}
		})
		quiet()
		if problem != "" {
			R.Violate(key, "%s", problem)
		}
		R.Validated++
		R.Ran(key, outcome, true)
	}
	seq := func(n int) []string {
		o := make([]string, n)
		for i := range o {
			o[i] = fmt.Sprintf("%X", 0xA1+i)
		}
		return o
	}
	var perms func(k []int) [][]int
	perms = func(k []int) [][]int {
		if len(k) == 0 {
			return [][]int{nil}
		}
		var o [][]int
		for i := range k {
			rest := append(append([]int(nil), k[:i]...), k[i+1:]...)
			for _, p := range perms(rest) {
				o = append(o, append([]int{k[i]}, p...))
			}
		}
		return o
	}
	orders := [][][]int{{{}}, {{}}, {{1}}, {{1, 2}, {2, 1}}, perms([]int{1, 2, 3})}
	lefts := []time.Duration{time.Second, day - time.Second, day, day + time.Second, 5 * day, 30*day - time.Second, 30 * day, 30*day + time.Second, 31 * day, 33*day - time.Second, 400 * day}
	if thorough() {
		lefts = append(lefts, 2*day, 29*day, 32*day+12*time.Hour, 31*day-time.Second, 31*day+time.Second, 90*day, 30*day+12*time.Hour, 4000*day, 36500*day)
	}
	var rec func(n int, cur []time.Duration, days int, f func([]time.Duration))
	rec = func(n int, cur []time.Duration, days int, f func([]time.Duration)) {
		if len(cur) == n {
			f(cur)
			return
		}
		for _, l := range lefts {
			rec(n, append(append([]time.Duration(nil), cur...), l), days, f)
		}
	}
	for n := 1; n <= 3; n++ {
		rec(n, nil, 0, func(l []time.Duration) {
			for _, o := range orders[n] {
				run(chainSpec{left: l, serial: seq(n), order: o}, pick(4, 40))
			}
		})
	}
	lefts = []time.Duration{2 * day, 31 * day, 33 * day, 400 * day}
	for n := 1; n <= 4; n++ {
		rec(n, nil, 0, func(l []time.Duration) {
			for _, o := range orders[n] {
				run(chainSpec{left: l, serial: seq(n), order: o}, pick(40, 420))
			}
		})
	}
	// certificates without a well defined end (RFC 5280 4.1.2.5), and other distant ones
	years := []int{0, 2027, 2290, 2292, 2293, 2400, 3000, 9999}
	for _, since := range []int{0, 1950, 1970, 1999} {
		for n := 1; n <= 3; n++ {
			var all [][]int
			var grow func(cur []int)
			grow = func(cur []int) {
				if len(cur) == n {
					all = append(all, append([]int(nil), cur...))
					return
				}
				for _, y := range years {
					if n == 3 && !thorough() && (y == 2027 || y == 2292) {
						continue
					}
					grow(append(cur, y))
				}
			}
			grow(nil)
			for _, y := range all {
				l := make([]time.Duration, n)
				for i := range l {
					l[i] = 30*day + time.Duration(i)*day
				}
				for _, o := range orders[n] {
					run(chainSpec{left: l, serial: seq(n), order: o, year: y, since: since}, 3)
				}
			}
		}
	}
	// when they were issued: older certificates need not be the first to expire
	lefts = []time.Duration{2 * day, 31 * day, 60 * day, 400 * day}
	backs := []time.Duration{0, time.Hour, 90 * day, 367 * day, 397 * day, 398*day - time.Second, 398 * day, 3650 * day}
	bl := lefts
	for n := 1; n <= pick(3, 4); n++ {
		lefts = backs
		if n >= 3 {
			lefts = []time.Duration{time.Hour, 397 * day, 3650 * day}
		}
		var all [][]time.Duration
		rec(n, nil, 0, func(l []time.Duration) { all = append(all, l) })
		lefts = bl
		for _, b := range all {
			rec(n, nil, 0, func(l []time.Duration) {
				run(chainSpec{left: l, serial: seq(n), order: orders[n][0], back: b}, 3)
			})
		}
	}
	// serials: every length, by position
	for n := 1; n <= 3; n++ {
		for pos := 0; pos < n; pos++ {
			for digits := 1; digits <= 40; digits++ {
				for _, lead := range "18F" {
					for _, rest := range []string{"0", "9", "A"} {
						if digits == 40 && lead != '1' {
							continue // more than the 20 bytes a certificate can bear
						}
						l := make([]time.Duration, n)
						for i := range l {
							l[i] = 400 * day
						}
						l[n-1] = 20 * day
						s := seq(n)
						s[pos] = string(lead) + strings.Repeat(rest, digits-1)
						run(chainSpec{left: l, serial: s, order: orders[n][0]}, 2)
					}
				}
			}
		}
	}
}

// fastBin builds the server with hours and days compressed to milliseconds: the sleeps and timers of the
// package are rewritten in a copy of each file, everything else is the code as it is
func fastBin() string { return os.Getenv("VERIF_J8A") + ".fast" }

func hasFast() bool {
	_, err := os.Stat(fastBin())
	return err == nil
}

// fastBoot starts the compressed server
func fastBoot(yml string, env ...string) (*srv, string) {
	old := os.Getenv("VERIF_J8A")
	os.Setenv("VERIF_J8A", fastBin())
	defer os.Setenv("VERIF_J8A", old)
	return bootOrRefuse(yml, env...)
}

func tlsYmlOf(chain, key string, more string) string {
	return "connection:\n  downstream:\n    port: {{PORT}}\n    mode: TLS\n    cert: " + yamlBlock(chain, 6) + "    key: " + yamlBlock(key, 6) + more + "routes: [{path: /about, resource: about}]\n"
}

func checkC16w() {
	R.Rule = "the real server process in TLS mode with hours compressed to milliseconds keeps reporting on chains of every class, with the right level from the first report on"
	if !hasFast() {
		R.Note("fast", "the compressed server could not be built")
	}
	var keys []crypto.Signer
	for i := 0; i < 3; i++ {
		keys = append(keys, rsaKey(2048))
	}
	for _, n := range []int{1, 2, 3} {
		for _, l := range []time.Duration{29 * day, 31 * day, 300 * day} {
			for pos := 0; pos < n; pos++ {
				for _, serial := range []string{"7", "A1", "123", "1234567", "ABCDEF0123456789ABCDEF0123456789ABCDEF"} {
					n, l, pos, serial := n, l, pos, serial
					wireCase(fmt.Sprintf("server with %d certificates, number %d expires in %v, serial %s", n, pos, l, serial), func() (string, string) {
						c := chainSpec{}
						for i := 0; i < n; i++ {
							c.left, c.serial = append(c.left, 400*day), append(c.serial, fmt.Sprintf("%X", 0xB1+i))
							if i > 0 {
								c.order = append(c.order, i)
							}
						}
						c.left[pos], c.serial[pos] = l, serial
						cs := c.make(keys, time.Now(), day)
						all := []*cert{}
						all = append(all, cs...)
						bootf := bootOrRefuse
						if hasFast() {
							bootf = fastBoot
						}
						s, x := bootf(tlsYmlOf(pemCerts(all...), pemKey(keys[0]), ""), "LOGLEVEL=DEBUG")
						if s == nil {
							return "the server did not start with a valid chain: " + x, ""
						}
						defer s.stop()
						want := 4
						if !hasFast() {
							want = 1
						}
						var rep []map[string]interface{}
						for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && !s.exited(); time.Sleep(5 * time.Millisecond) {
							rep = nil
							for _, ln := range strings.Split(s.out.String(), "\n") {
								m := map[string]interface{}{}
								if json.Unmarshal([]byte(ln), &m) == nil && strings.Contains(fmt.Sprint(m["message"]), "#") && strings.Contains(fmt.Sprint(m["message"]), "cn") {
									rep = append(rep, m)
								}
							}
							if len(rep) >= want {
								break
							}
						}
						if s.exited() {
							return "the server died: " + s.out.String(), ""
						}
						if len(rep) < want {
							return fmt.Sprintf("the server reported %d times on its chain in as many days as fit into 10 s of compressed time: %s", len(rep), s.out.String()), ""
						}
						for _, m := range rep {
							if (m["level"] == "warn") != (l < 30*day) {
								return fmt.Sprintf("level %v with %v left: %v", m["level"], l, m), ""
							}
							if p := earliestNamed(fmt.Sprint(m["message"]), cs, map[int]bool{pos: true}); p != "" {
								return p, ""
							}
						}
						return "", fmt.Sprint(n, pos, rep[0]["level"])
					})
				}
			}
		}
	}
}
