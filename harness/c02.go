//go:build go1.21

package j8a

import (
	"fmt"
	"net/http"
	"time"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C25"] = checkC25
}

func richHdr() http.Header {
	return http.Header{
		"Authorization":   {"Basic Zm9vOmJhcg=="},
		"Cookie":          {"a=b", "c=d"},
		"X-Multi":         {"one", "", "three, four"},
		"Accept":          {"application/json;q=0.9, */*"},
		"Accept-Language": {"de-CH"},
		"Content-Type":    {"application/json"},
		"User-Agent":      {"verif/1.0"},
		"X-Request-Id":    {"rid-client"},
	}
}

// seqs enumerates attempt scripts: failing attempts until the first decisive one or max attempts
func seqs(fails, oks []Att, max int) (out [][]Att) {
	var rec func(cur []Att)
	rec = func(cur []Att) {
		for _, o := range oks {
			out = append(out, append(append([]Att(nil), cur...), o))
		}
		for _, f := range fails {
			n := append(append([]Att(nil), cur...), f)
			if len(n) < max {
				rec(n)
			} else {
				// one more answer lies ready: it must not be asked for
				out = append(out, append(n, Att{Status: 200}))
			}
		}
	}
	rec(nil)
	return
}

// pxCase runs one exchange without a controller and judges it
func pxCase(s Scen, extra func(o *Obs) string) {
	key := s.Key()
	if !R.Mine(key) {
		return
	}
	R.Before(key)
	curCase = key
	allowed, states := s.model()
	obs, left := pxRun(R.t, nil, &Runtime{Config: *bootChain(pxYml(s)), Start: time.Now()}, []Scen{s}, horizonOf(s))
	R.ModelStates += int64(states)
	p, o := s.judge(obs[0], allowed)
	if p == "" && len(left) > 0 {
		p = fmt.Sprint("left: ", left)
	}
	if p == "" && extra != nil {
		p = extra(obs[0])
	}
	if p != "" {
		R.Violate(key, "%s", p)
	}
	R.Steps += int64(len(obs[0].Seen)) + 2
	R.Validated++
	R.Ran(key, o, len(obs[0].Seen) > 0)
}

var allMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT"}

func checkC02() {
	R.Rule = "all combinations of method, maxAttempts and per attempt answer (transport error, 5xx, broken body, header timeout, body timeout, success, redirect, client error) run through the real handler in virtual time against the reference model of the retry discipline; every attempt's request is compared with the client's; non-trivial: at least one upstream attempt"
	fails := []Att{{Err: true}, {Status: 500}, {Status: 200, BErr: true}, {H: never}, {Status: 200, B: never}, {H: sec, Err: true}, {Status: 503, B: sec, Gz: true}}
	oks := []Att{{Status: 200}, {Status: 204, Empty: true}, {Status: 302, Empty: true}, {Status: 404}, {Status: 200, H: sec, Gz: true}}
	if thorough() {
		fails = append(fails, Att{Status: 599}, Att{Status: 502, Empty: true}, Att{Status: 500, BErr: true})
		oks = append(oks, Att{Status: 499, Empty: true}, Att{Status: 400, Gz: true}, Att{Status: 301}, Att{Status: 201, B: sec})
	}
	for max := 1; max <= 4; max++ {
		f, o := fails, oks
		if max == 3 && !thorough() {
			f, o = fails[:5], oks[:4]
		}
		if max == 4 {
			f, o = fails[:3], oks[:1]
			if thorough() {
				f, o = fails[:5], oks[:2]
			}
		}
		for _, atts := range seqs(f, o, max) {
			for _, m := range allMethods {
				for _, rt := range []time.Duration{100 * sec, 3 * sec} {
					s := Scen{Method: m, Max: max, T: 2 * sec, RT: rt, Atts: atts, Tag: "A", Hdr: richHdr()}
					if m == "PUT" || m == "POST" || m == "DELETE" {
						s.Body = "body of the request, to be repeated by every attempt"
					}
					if m == "POST" && len(atts)%2 == 0 {
						s.ClientGz = true
					}
					pxCase(s, nil)
				}
			}
		}
	}
	// every status, first or second, and whatever headers come with it: the status alone decides
	for status := 200; status < 600; status++ {
		for _, m := range []string{"GET", "PUT", "POST"} {
			for first := 1; first <= 2; first++ {
				atts := []Att{{Status: status, Empty: status == 204 || status == 304}, {Status: 200}}
				if first == 2 {
					atts = []Att{{Status: 500}, atts[0], {Status: 200}}
				}
				pxCase(Scen{Method: m, Max: first + 1, T: 2 * sec, RT: 100 * sec, Atts: atts, Tag: "A", Hdr: richHdr()}, nil)
			}
		}
	}
	for _, status := range []int{200, 302, 404, 408, 409, 421, 423, 425, 429, 500, 502, 503, 504, 507} {
		for _, h := range []string{"Retry-After: 1", "Retry-After: 0", "Retry-After: Fri, 31 Dec 1999 23:59:59 GMT", "Connection: close", "Cache-Control: no-store", "Warning: 110 - stale", "Allow: GET", "X-Should-Retry: false", "X-Should-Retry: true", "Grpc-Status: 14", "Refresh: 1", "Location: /api/y", "Www-Authenticate: Basic", "Content-Type: text/plain", "Server: j8a", "Etag: \"x\"", "Vary: *", "Accept-Ranges: none", "Content-Range: bytes 0-1/2"} {
			for _, m := range []string{"GET", "HEAD", "DELETE", "POST"} {
				pxCase(Scen{Method: m, Max: 3, T: 2 * sec, RT: 100 * sec, Atts: []Att{{Status: status, Hdr: h}, {Status: status, Hdr: h}, {Status: 200}}, Tag: "A", Hdr: richHdr()}, nil)
			}
		}
	}
	// retries stay with the upstream that was chosen first and keep what the route did to the target
	n := 0
	for _, atts := range seqs(fails, oks[:2], 3) {
		s := rq("A", "GET", "/pol/x?y=z", "http://a.test:8004/pol/x?y=z", mAtts(atts...))
		s.Max = 3
		vsDice = func() float64 {
			n++
			if n%2 == 1 {
				return 0.5
			}
			return 0.1
		}
		n = 0
		pxCase(s, nil)
		n = 1
		s.WantURL = "http://b.test:8005/pol/x?y=z"
		s.Tag = "B"
		pxCase(s, nil)
		vsDice = nil
		s = rq("C", "PUT", "/tr/x?y=z", "http://tr.test:8003/v2/x?y=z", mAtts(atts...), mBody("abc"), mNoRid)
		s.Max = 3
		pxCase(s, nil)
	}
}

// timing checks what the upstream saw of the timeouts
func (s Scen) timing(o *Obs) string {
	for i, x := range o.Seen {
		limit := x.At + s.T
		if s.RT < limit {
			limit = s.RT
		}
		if x.At > s.RT {
			return fmt.Sprintf("attempt %d was started at %v, after the round trip timeout", i+1, x.At)
		}
		over := x.EndAt != never && x.EndAt <= limit
		if !over && (x.Canceled == never || x.Canceled > limit) {
			return fmt.Sprintf("attempt %d started at %v was not cancelled by %v (cancelled %v, ended %v)", i+1, x.At, limit, x.Canceled, x.EndAt)
		}
		early := x.Canceled != never && x.Canceled < limit
		if early && (x.EndAt == never || x.EndAt > x.Canceled) {
			return fmt.Sprintf("attempt %d started at %v was cancelled at %v, before its time was up at %v", i+1, x.At, x.Canceled, limit)
		}
	}
	return ""
}

func checkC03() {
	R.Rule = "all combinations of attempt timeout, round trip timeout, maxAttempts and the instants at which each attempt's headers and body arrive or fail (never, before, at, just around and after each deadline; upstreams that ignore cancellation included) run through the real handler in virtual time against the timed reference model; cancellations are observed by the scripted upstream"
	ms := time.Millisecond
	T := 2 * sec
	hs := []time.Duration{0, sec, 2*sec - ms, 2 * sec, 2*sec + ms, 3 * sec, never}
	bs := []time.Duration{0, sec - ms, sec, sec + ms, 2 * sec, never}
	var atts []Att
	for _, h := range hs {
		for _, b := range bs {
			if h == never && b != 0 {
				continue
			}
			atts = append(atts, Att{H: h, B: b, Status: 200})
			if h == 0 || h == sec || thorough() {
				atts = append(atts, Att{H: h, B: b, Status: 500})
				atts = append(atts, Att{H: h, B: b, Status: 200, BErr: true})
			}
			if h != never && (b == sec || b == 0) {
				atts = append(atts, Att{H: h, B: b, Status: 200, Deaf: true})
			}
		}
		if h != never {
			atts = append(atts, Att{H: h, Err: true}, Att{H: h, Err: true, Deaf: true})
		}
	}
	rts := []time.Duration{sec, 2 * sec, 3 * sec, 4 * sec, 5 * sec, 100 * sec}
	check := func(s Scen) { pxCase(s, s.timing) }
	for _, rt := range rts {
		for _, m := range []string{"GET", "POST"} {
			for _, a := range atts {
				s := Scen{Method: m, Max: 1, T: T, RT: rt, Atts: []Att{a}, Tag: "A"}
				check(s)
			}
		}
		for _, a := range atts {
			for j, b := range atts {
				if !thorough() && j%2 == int(rt/sec)%2 {
					continue
				}
				if a.Status == 200 && !a.Err && !a.BErr && a.H != never && a.B != never && a.H+a.B < T {
					continue // the first attempt is decisive
				}
				check(Scen{Method: "GET", Max: 2, T: T, RT: rt, Atts: []Att{a, b}, Tag: "A"})
			}
		}
	}
	// three attempts, other timeouts
	few := []Att{{H: never}, {H: 2 * sec, Status: 200}, {H: sec, B: sec, Status: 200, Deaf: true}, {H: sec, Err: true}, {H: 0, B: never, Status: 200}, {H: sec - ms, Status: 200}, {H: sec, Status: 503}}
	for _, t := range []time.Duration{sec, 2 * sec} {
		for _, rt := range []time.Duration{sec, 2 * sec, 3 * sec, 4 * sec, 6 * sec} {
			for _, a := range few {
				for _, b := range few {
					for _, c := range few {
						check(Scen{Method: "PUT", Body: "b", Max: 3, T: t, RT: rt, Atts: []Att{a, b, c}, Tag: "A"})
					}
				}
			}
		}
	}
}

func checkC25() {
	R.Rule = "every combination of attempt outcomes, and pairs of exchanges, run through the real handler in virtual time; when the handler returns every completely received upstream body has been closed and no upstream request is in flight any more, and after the configured timeouts no goroutine of the exchange is left and every upstream request's context has been released"
	fails := []Att{{Err: true}, {Status: 500}, {Status: 500, Empty: true}, {Status: 200, BErr: true}, {H: never}, {Status: 200, B: never}, {Status: 503, B: never}, {H: 3 * sec, Status: 200, Gz: true, Deaf: true}, {H: sec, Status: 200, B: 2 * sec, Deaf: true}, {H: sec, Err: true}}
	oks := []Att{{Status: 200}, {Status: 204, Empty: true}, {Status: 302}, {Status: 404}, {Status: 200, H: sec, Gz: true}, {Status: 200, B: sec}, {Status: 429, B: sec, Empty: true}}
	for max := 1; max <= 3; max++ {
		f, o := fails, oks
		if max == 3 && !thorough() {
			f, o = fails[:8], oks[:4]
		}
		for _, atts := range seqs(f, o, max) {
			for _, rt := range []time.Duration{100 * sec, 3 * sec, sec} {
				for _, m := range []string{"GET", "POST", "HEAD"} {
					if m != "GET" && max == 3 {
						continue
					}
					s := Scen{Method: m, Max: max, T: 2 * sec, RT: rt, Atts: atts, Tag: "A"}
					pxCase(s, s.clean)
				}
			}
		}
	}
}

// clean checks that an exchange left nothing behind
func (s Scen) clean(o *Obs) string {
	for i, x := range o.Seen {
		limit := x.At + s.T
		if s.RT < limit {
			limit = s.RT
		}
		if x.Returned && x.EndAt != never && x.EndAt < limit && o.ClosedAtDone[i] == 0 {
			return fmt.Sprintf("the response body of attempt %d, which ended at %v, was not closed when the request was answered", i+1, x.EndAt)
		}
		if !s.Atts[i].Deaf && o.Done != never && x.EndAt > o.Done {
			return fmt.Sprintf("attempt %d was still in flight after the request was answered at %v (cancelled %v, ended %v)", i+1, o.Done, x.Canceled, x.EndAt)
		}
		if !x.Released {
			return fmt.Sprintf("the context of attempt %d was never released", i+1)
		}
	}
	return ""
}
