//go:build go1.21

package j8a

import (
	"fmt"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

func init() {
	checks["C08"] = checkC08
}

// c08Want: 1 must pass, 0 must be refused, -1 either. nil claims are absent. now is in whole seconds.
func c08Want(now, s int64, exp, iat, nbf *int64) int {
	want := 1
	if s > 1<<60 {
		s = 1 << 60
	}
	if exp != nil && now >= *exp+s {
		return 0
	}
	if iat != nil && now < *iat-s {
		return 0
	}
	if nbf != nil {
		if now < *nbf-s {
			return 0
		}
		if now == *nbf-s {
			want = -1
		}
	}
	return want
}

// c08Epoch is where the clock of a bubble starts
const c08Epoch = 946684800

func checkC08() {
	R.Rule = "the full product of exp, iat and nbf (absent and at offsets around both ends of the skew, epoch and far away) x skews from 0 to a year, absent, quoted or not x algorithms x fractions of the second, plus single claims in all numeric encodings and token life cycles second by second, all evaluated by the real handler at exact virtual instants"
	skews := []struct {
		yml string
		s   int64
	}{{"0", 0}, {`"1"`, 1}, {"2", 2}, {"", 120}, {`"120"`, 120}, {"121", 121}, {"3600", 3600}, {`"86400"`, 86400}, {"947000", 947000}, {"2678401", 2678401}, {"31536000", 31536000}, {"946684900", 946684900}, {"2147483648", 2147483648}, {"9223372035", 9223372035}, {`"9223372037"`, 9223372037}, {"9999999999", 9999999999}, {"18446744074", 18446744074}, {"9007199254740993", 9007199254740993}, {`"9223372036854775807"`, 9223372036854775807}}
	es, rs := ecKey(algCurve("ES256")), rsaKey(2048)
	algsC := []string{"HS256", "none", "ES256", "RS256"}
	y := "jwt:\n"
	rt := "routes:\n"
	for i, s := range skews {
		for _, a := range algsC {
			y += fmt.Sprintf("  j%d-%s:\n    alg: %s\n", i, a, a)
			switch a {
			case "HS256":
				y += "    key: " + pxSecret + "\n"
			case "ES256":
				y += "    key: " + yamlBlock(pemPub(&es.PublicKey), 6)
			case "RS256":
				y += "    key: " + yamlBlock(pemPub(&rs.PublicKey), 6)
			}
			if s.yml != "" {
				y += "    acceptableSkewSeconds: " + s.yml + "\n"
			}
			rt += fmt.Sprintf("  - {path: /%s/%d/, resource: api, jwt: j%d-%s}\n", a, i, i, a)
		}
	}
	cfg := bootChain(y + rt + "resources: {api: [{url: {scheme: http, host: api.test, port: 8001}}]}\n")
	cl := &recClient{}
	keys := map[string]interface{}{"HS256": []byte(pxSecret), "none": nil, "ES256": es, "RS256": rs}
	sign := func(alg, claims string) string { return forge(`{"alg":"`+alg+`"}`, claims, alg, keys[alg]) }
	// ask runs in a bubble
	ask := func(alg string, i int, token string) (bool, string) {
		cl.seen, cl.last = nil, nil
		rec := newRec()
		q := httptest.NewRequest("GET", fmt.Sprintf("/%s/%d/x", alg, i), nil)
		q.Header.Set("Authorization", "Bearer "+token)
		proxyHandler(rec, q)
		R.Steps++
		if len(rec.Codes) != 1 || (rec.Codes[0] != 200 && rec.Codes[0] != 401) || (rec.Codes[0] == 200) != (len(cl.seen) == 1) {
			return false, fmt.Sprintf("status %v with %d requests forwarded", rec.Codes, len(cl.seen))
		}
		return rec.Codes[0] == 200, ""
	}
	run := func(key string, f func() (string, string)) {
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		curCase = key
		var p, o string
		synctest.Test(R.t, func(*testing.T) {
			Runner = &Runtime{Config: *cfg, Start: time.Now()}
			httpClient = cl
			p, o = f()
		})
		if p != "" {
			R.Violate(key, "%s", p)
		}
		R.Validated++
		R.Ran(key, o, true)
	}
	judge := func(alg string, i int, claims string, want int) string {
		ok, p := ask(alg, i, sign(alg, claims))
		if p == "" && (ok && want == 0 || !ok && want == 1) {
			p = fmt.Sprintf("passed=%v", ok)
		}
		if p != "" {
			return fmt.Sprintf("%s at %s (unix %d) with skew %d: claims %s: %s", alg, time.Now().UTC().Format(time.RFC3339Nano), time.Now().Unix(), skews[i].s, claims, p)
		}
		return ""
	}
	fracs := []time.Duration{0, 1, 500 * time.Millisecond, 999999999}
	for i, sk := range skews {
		s := sk.s
		offs := func(sign int64) []int64 { // relative to now
			o := []int64{-1, 0, 1}
			for d := int64(-2); d <= 2; d++ {
				o = append(o, sign*s+d)
			}
			o = append(o, -sign*s, -sign*s+1, -sign*s-1, sign*s*2)
			seen := map[int64]bool{}
			var u []int64
			for _, x := range o {
				// no dates before 1970 or after 9999
				if y := x + c08Epoch; s > 1e9 && (y < 0 || y > 253402300799 || x > 253402300799) {
					continue
				}
				if !seen[x] {
					seen[x] = true
					u = append(u, x)
				}
			}
			return u
		}
		type cv struct {
			abs bool
			v   int64
			no  bool
		}
		list := func(sign int64) []cv {
			l := []cv{{no: true}}
			for _, x := range offs(sign) {
				l = append(l, cv{v: x})
			}
			for _, x := range []int64{0, 1, 2, 100000, 253402300799} {
				l = append(l, cv{abs: true, v: x})
			}
			return l
		}
		for _, alg := range algsC {
			for _, fr := range fracs {
				if (alg == "RS256" || alg == "ES256") && fr != 500*time.Millisecond && !thorough() {
					continue
				}
				for _, e := range list(-1) {
					run(fmt.Sprintf("grid %s skew %s frac %v exp %+v", alg, sk.yml, fr, e), func() (string, string) {
						time.Sleep(fr)
						now := time.Now().Unix()
						get := func(c cv) *int64 {
							if c.no {
								return nil
							}
							v := c.v
							if !c.abs {
								v += now
							}
							return &v
						}
						out := [2]int{}
						for ia, a := range list(1) {
							for in, n := range list(1) {
								if (alg == "RS256" || alg == "ES256") && (ia+in)%4 != 0 && !thorough() {
									continue
								}
								exp, iat, nbf := get(e), get(a), get(n)
								var c []string
								for _, x := range []struct {
									n string
									v *int64
								}{{"exp", exp}, {"iat", iat}, {"nbf", nbf}} {
									if x.v != nil {
										c = append(c, fmt.Sprintf(`"%s":%d`, x.n, *x.v))
									}
								}
								want := c08Want(now, s, exp, iat, nbf)
								if want == 1 {
									out[1]++
								} else {
									out[0]++
								}
								if p := judge(alg, i, "{"+strings.Join(c, ",")+"}", want); p != "" {
									return p, ""
								}
							}
						}
						return "", fmt.Sprint(out)
					})
				}
			}
		}
		// encodings of a number
		for _, alg := range []string{"HS256", "none"} {
			for _, claim := range []string{"exp", "iat", "nbf"} {
				run(fmt.Sprintf("encoding %s skew %s %s", alg, sk.yml, claim), func() (string, string) {
					now := time.Now().Unix()
					n := 0
					for _, d := range []int64{-10 * 365 * 86400, -s - 10, -s - 2, -s + 2, -2, 2, s - 2, s + 2, s + 10, 10 * 365 * 86400} {
						v := now + d
						if s > 1e9 && (v < 0 || v > 253402300799) {
							continue
						}
						var e, a, b *int64
						switch claim {
						case "exp":
							e = &v
						case "iat":
							a = &v
						default:
							b = &v
						}
						want := c08Want(now, s, e, a, b)
						for _, enc := range []string{fmt.Sprintf("%d", v), fmt.Sprintf("%d.0", v), fmt.Sprintf("%d.25", v), fmt.Sprintf("%d.999", v), fmt.Sprintf("%ve0", v), fmt.Sprintf("%.9fE+9", float64(v)/1e9), fmt.Sprintf("%de-3", v*1000), fmt.Sprintf(`"%d"`, v)} {
							w := want
							if strings.Contains(enc, `"`) && w == 1 {
								w = -1 // no number; but never a way around the claim
							}
							n++
							if p := judge(alg, i, fmt.Sprintf(`{"%s":%s,"x":1}`, claim, enc), w); p != "" {
								return p, ""
							}
							if p := judge(alg, i, fmt.Sprintf(`{"%s":%s,"%s":%s}`, claim, enc, claim, enc), w); p != "" {
								return p, ""
							}
						}
					}
					for _, v := range []string{"0", "-1", "-946684800", "-1e3", "1e3"} {
						w := 1
						if x, _ := strconv.ParseFloat(v, 64); claim == "exp" && s < 1<<33 {
							x := int64(x)
							w = c08Want(now, s, &x, nil, nil)
						} else if claim == "exp" {
							w = -1
						}
						if p := judge(alg, i, fmt.Sprintf(`{"%s":%s}`, claim, v), w); p != "" {
							return p, ""
						}
					}
					return "", fmt.Sprint(n)
				})
			}
		}
		// one token over its life
		for _, alg := range algsC {
			for _, step := range []time.Duration{time.Second, 700 * time.Millisecond} {
				for _, which := range []string{"exp", "iat", "nbf", "nbf+exp", "iat+exp"} {
					run(fmt.Sprintf("life %s skew %s %v %s", alg, sk.yml, step, which), func() (string, string) {
						t0 := time.Now().Unix()
						var c []string
						var e, a, n *int64
						if strings.Contains(which, "exp") {
							v := t0 + 30
							if s > 40 {
								v = max(t0-s+30, 0)
							}
							e = &v
							c = append(c, fmt.Sprintf(`"exp":%d`, v))
						}
						v := t0 + min(s+5, 250000000000)
						if strings.Contains(which, "iat") {
							a = &v
							c = append(c, fmt.Sprintf(`"iat":%d`, v))
						}
						if strings.Contains(which, "nbf") {
							n = &v
							c = append(c, fmt.Sprintf(`"nbf":%d`, v))
						}
						tok := sign(alg, "{"+strings.Join(c, ",")+"}")
						o := ""
						for i0 := 0; i0 < 60; i0++ {
							want := c08Want(time.Now().Unix(), s, e, a, n)
							ok, p := ask(alg, i, tok)
							if p == "" && (ok && want == 0 || !ok && want == 1) {
								p = fmt.Sprintf("passed=%v", ok)
							}
							if p != "" {
								return fmt.Sprintf("%s token %v, skew %d, issued at unix %d, asked at %s (unix %d): %s", alg, c, s, t0, time.Now().UTC().Format(time.RFC3339Nano), time.Now().Unix(), p), ""
							}
							if ok {
								o += "1"
							} else {
								o += "0"
							}
							time.Sleep(step)
						}
						return "", o
					})
				}
			}
		}
	}
}
