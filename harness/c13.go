//go:build go1.21

package j8a

import (
	"fmt"
	"net/http"
	"os"
	"strings"
	"time"
)

func init() {
	checks["C13"] = checkC13
}

func rq(tag, method, target, want string, mod ...func(*Scen)) Scen {
	s := Scen{Method: method, Target: target, WantURL: want, Tag: tag, Max: 2, T: 2 * sec, RT: 5 * sec,
		Atts: []Att{ok(0, 0)}, Hdr: http.Header{"Authorization": {"Basic cred-" + tag}, "Cookie": {"sid=" + tag}}}
	s.Hdr.Set(XRequestID, "rid-"+tag)
	for _, m := range mod {
		m(&s)
	}
	return s
}

func mGz(s *Scen)                 { s.ClientGz = true }
func mUpGz(s *Scen)               { s.Atts = []Att{{Status: 200, Gz: true}} }
func mAtts(a ...Att) func(*Scen)  { return func(s *Scen) { s.Atts = a } }
func mBody(b string) func(*Scen)  { return func(s *Scen) { s.Body = b } }
func mDeny(c int) func(*Scen)     { return func(s *Scen) { s.Deny = c } }
func mNoRid(s *Scen)              { s.Hdr.Del(XRequestID) }
func mDice(u float64) func(*Scen) { return func(s *Scen) { s.Dice = u } }
func mTok(tok string) func(*Scen) {
	return func(s *Scen) { s.Hdr.Set("Authorization", "Bearer "+tok) }
}

// c13Pairs are sets of requests handled at the same time, each pair sharing a piece of machinery
func c13Pairs() map[string][]Scen {
	good := hsToken(`{"alg":"HS256","typ":"JWT"}`, `{"sub":"a"}`, pxSecret)
	bad := hsToken(`{"alg":"HS256","typ":"JWT"}`, `{"sub":"b"}`, "another secret another secret 32")
	m := map[string][]Scen{}
	api := func(tag string, f ...func(*Scen)) Scen {
		return rq(tag, "GET", "/api/"+tag+"?u="+tag, "http://api.test:8001/api/"+tag+"?u="+tag, f...)
	}
	m["plain-plain"] = []Scen{api("A"), api("B")}
	m["cold"] = m["plain-plain"]
	m["rid-generated"] = []Scen{api("A", mNoRid), api("B", mNoRid)}
	m["zip-zip"] = []Scen{api("A", mGz), api("B", mGz)}
	m["unzip-unzip"] = []Scen{api("A", mUpGz), api("B", mUpGz)}
	m["zip-unzip"] = []Scen{api("A", mGz), api("B", mUpGz)}
	m["zip-plain"] = []Scen{api("A", mGz, mUpGz), api("B")}
	m["post-put"] = []Scen{rq("A", "POST", "/api/A", "http://api.test:8001/api/A", mBody("body of A")), rq("B", "PUT", "/api/B", "http://api.test:8001/api/B", mBody("the other body, of B"))}
	m["jwt-good-bad"] = []Scen{rq("A", "GET", "/sec/A", "http://sec.test:8002/sec/A", mTok(good)), rq("B", "GET", "/sec/B", "", mTok(bad), mDeny(401))}
	m["jwt-bad-none"] = []Scen{rq("A", "GET", "/sec/A", "", mTok(bad), mDeny(401)), rq("B", "GET", "/sec/B", "", mDeny(401))}
	m["routes"] = []Scen{api("A"), rq("B", "GET", "/tr/B", "http://tr.test:8003/v2/B")}
	m["jwt-open"] = []Scen{rq("A", "GET", "/sec/A", "", mDeny(401)), rq("B", "GET", "/tr/B", "http://tr.test:8003/v2/B")}
	m["404-200"] = []Scen{rq("A", "GET", "/nope/A", "", mDeny(404), mGz), api("B", mGz)}
	m["404-404"] = []Scen{rq("A", "GET", "/nope/A", "", mDeny(404), mGz), rq("B", "GET", "/nope/B", "", mDeny(404))}
	m["413-200"] = []Scen{rq("A", "POST", "/api/A", "", mBody(strings.Repeat("x", 5000)), mDeny(413)), rq("B", "POST", "/api/B", "http://api.test:8001/api/B", mBody("small"))}
	m["400-200"] = []Scen{rq("A", "PATCH", "/api/A", "", mDeny(400)), api("B")}
	m["4xx-200"] = []Scen{api("A", mAtts(Att{Status: 404})), api("B")}
	m["retry-plain"] = []Scen{api("A", mAtts(Att{Status: 500}, Att{Status: 200, Gz: true})), api("B")}
	m["retry-retry"] = []Scen{api("A", mAtts(Att{Err: true}, Att{Status: 200})), api("B", mAtts(Att{Status: 503}, Att{Status: 200}))}
	m["502-200"] = []Scen{api("A", mAtts(Att{Err: true})), api("B")}
	m["timeout-plain"] = []Scen{api("A", mAtts(Att{H: never}, Att{Status: 200})), api("B", func(s *Scen) { s.Delay = 2 * sec })}
	m["late-gz"] = []Scen{api("A", mAtts(Att{H: 3 * sec, Status: 200, Gz: true, Deaf: true}, Att{H: sec, Status: 200})), api("B", mUpGz, func(s *Scen) { s.Delay = 3 * sec })}
	// what an attempt of a request that was answered long ago still receives
	m["ghost-head"] = []Scen{api("A", mAtts(Att{H: 5 * sec, Status: 200, Deaf: true}, Att{Status: 200})), api("B", mAtts(Att{H: 1500 * time.Millisecond, Status: 201}), func(s *Scen) { s.Delay = 4 * sec })}
	m["ghost-body"] = []Scen{api("A", mAtts(Att{Status: 200, B: 5 * sec, Gz: true, Deaf: true}, Att{Status: 200})), api("B", mAtts(Att{Status: 201, B: 1500 * time.Millisecond}), func(s *Scen) { s.Delay = 4 * sec })}
	m["ghost-504"] = []Scen{api("A", mAtts(Att{H: 7 * sec, Status: 200, Deaf: true}, Att{H: 7 * sec, Status: 200, Deaf: true})), api("B", mAtts(Att{H: time.Second, B: 500 * time.Millisecond, Status: 201}), func(s *Scen) { s.Delay = 6 * sec })}
	m["ghost-retry"] = []Scen{api("A", mAtts(Att{H: 5 * sec, Status: 500, Deaf: true}, Att{Status: 200, B: sec, Gz: true})), api("B", mAtts(Att{H: sec, Status: 503}, Att{H: sec, Status: 200, B: 500 * time.Millisecond}), func(s *Scen) { s.Delay = 3500 * time.Millisecond })}
	// the body of one answer is complete when the other's head arrives, so is its tail
	m["body-head"] = []Scen{api("A", mAtts(Att{Status: 200, B: sec})), api("B", mAtts(Att{H: sec, Status: 200}))}
	m["body-body"] = []Scen{api("A", mAtts(Att{Status: 200, B: sec})), api("B", mAtts(Att{Status: 201, B: sec}))}
	m["body-head-gz"] = []Scen{api("A", mAtts(Att{Status: 200, B: sec, Gz: true})), api("B", mGz, mAtts(Att{H: sec, Status: 200}))}
	m["policy"] = []Scen{rq("A", "GET", "/pol/A", "http://a.test:8004/pol/A", mDice(0.5)), rq("B", "GET", "/pol/B", "http://b.test:8005/pol/B", mDice(0.1))}
	return m
}

// pairs the quick tier explores with two deviations
var c13Core = map[string]bool{"404-404": true, "jwt-bad-none": true, "413-200": true, "404-200": true, "zip-zip": true}

var symmetric = map[string]bool{"plain-plain": true, "rid-generated": true, "zip-zip": true, "unzip-unzip": true, "cold": true}

func checkC13() {
	pairs := c13Pairs()
	keys := map[string]bool{}
	for k := range pairs {
		keys[k] = true
	}
	R.Rule = "an execution is one complete schedule of two or three requests handled at the same time by the instrumented handler; distinct by request set and schedule; each set shares machinery (gzip pools, routing table, jwt keys, policies, remote address parser, request ids)"
	run := func(name string, scens []Scen, bound int) {
		allowed := make([]map[Allowed]bool, len(scens))
		for i, s := range scens {
			var n int
			allowed[i], n = s.model()
			if bound == 0 {
				R.ModelStates += int64(n)
			}
		}
		// without a warm parser the first requests race for building its expressions
		warmIpr = &iprex{}
		warmIpr.extractAddr("192.0.2.1:1234")
		if strings.HasPrefix(name, "cold") {
			warmIpr = nil
		}
		explore(fmt.Sprintf("b%d %s", bound, name), bound, func(c *vsCtl) (string, string) {
			c.dice = func(kind string, n int64) float64 {
				id := c.cur().id
				if len(id) > 1 && id[0] == 't' {
					return scens[int(id[1]-'0')].Dice
				}
				return 0.5
			}
			obs, left := pxRun(R.t, c, &Runtime{Config: *bootChain(pxYml(scens[0])), Start: time.Now()}, scens, 20*sec)
			if len(left) > 0 {
				return "goroutines left: " + fmt.Sprint(left), "left"
			}
			out := ""
			rids := map[string]string{}
			for i, s := range scens {
				p, o := s.judge(obs[i], allowed[i])
				if p != "" {
					return "request " + s.Tag + ": " + p, o
				}
				rid := obs[i].Rec.Sent.Get(XRequestID)
				if other, dup := rids[rid]; dup {
					return fmt.Sprintf("requests %s and %s share the request id %s", s.Tag, other, rid), o
				}
				rids[rid] = s.Tag
				out += o + " "
			}
			return "", out
		})
	}
	for bound := 0; bound <= pick(2, 2); bound++ {
		for _, k := range sorted(keys) {
			if bound == 2 && !thorough() && !c13Core[k] {
				continue
			}
			t0 := time.Now()
			_ = t0
			run(k, pairs[k], bound)
			// the same requests the other way round: the default schedule favours the first
			p := pairs[k]
			if !symmetric[k] {
				run(k+" reversed", []Scen{p[1], p[0]}, bound)
			}
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Println(bound, k, time.Since(t0), R.Evaluations)
			}
		}
		if !R.stopped {
			R.Note("deviation_bound_completed", bound)
		}
	}
	if thorough() {
		for _, k := range sorted(keys) {
			p := pairs[k]
			c := p[0]
			c.Tag = "C"
			c.Hdr = c.Hdr.Clone()
			c.Hdr.Set(XRequestID, "rid-C")
			run(k+" three", []Scen{p[0], p[1], c}, 1)
		}
	}
}
