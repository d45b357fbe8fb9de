//go:build go1.21

package j8a

import (
	"fmt"
	"time"
)

const sec = time.Second

func init() {
	checks["C01"] = checkC01
}

func ok(h, b time.Duration) Att { return Att{H: h, B: b, Status: 200} }

// c01Scens are exchanges whose events collide: answers at the very instant of a timeout, late
// answers of abandoned attempts, retries, round trip timeouts in the middle of a retry.
func c01Scens() (out []Scen) {
	add := func(method string, max int, T, RT time.Duration, gz bool, atts ...Att) {
		s := Scen{Method: method, Max: max, T: T, RT: RT, ClientGz: gz, Atts: atts, Tag: "A"}
		if method == "PUT" || method == "POST" {
			s.Body = "request body"
		}
		out = append(out, s)
	}
	gz := func(a Att) Att { a.Gz = true; return a }
	deaf := func(a Att) Att { a.Deaf = true; return a }
	st := func(a Att, c int) Att { a.Status = c; return a }
	// plain success, and content coding variants
	add("GET", 1, 2*sec, 5*sec, false, ok(0, 0))
	add("GET", 1, 2*sec, 5*sec, false, gz(ok(sec, 0)))
	// attempt timeout at the instant of the headers
	add("GET", 1, 2*sec, 5*sec, false, ok(2*sec, 0))
	add("GET", 1, 2*sec, 5*sec, false, deaf(ok(2*sec, 0)))
	// ... of the body
	add("GET", 1, 2*sec, 5*sec, false, ok(sec, sec))
	add("GET", 1, 2*sec, 5*sec, false, deaf(gz(ok(sec, sec))))
	// same with a retry that succeeds
	add("GET", 2, 2*sec, 5*sec, false, ok(2*sec, 0), gz(ok(0, 0)))
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(2*sec, 0))), ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(sec, sec))), ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, true, deaf(ok(sec, sec)), gz(ok(0, 0)))
	// late answer of attempt 1 lands while attempt 2 is being worked on
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(3*sec, 0))), ok(sec, 0))
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(3*sec, 0))), ok(0, sec))
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(sec, 2*sec))), ok(sec, 0))
	add("GET", 2, 2*sec, 5*sec, false, deaf(gz(ok(sec, 2*sec))), ok(0, sec))
	add("GET", 2, 2*sec, 5*sec, false, deaf(st(ok(sec, 2*sec), 500)), ok(0, sec))
	add("GET", 2, 2*sec, 5*sec, false, deaf(st(gz(ok(sec, 2*sec)), 404)), ok(sec, 0))
	// failure statuses and errors
	add("GET", 2, 2*sec, 5*sec, false, st(ok(0, 0), 503), ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, false, Att{H: 0, Err: true}, ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, false, Att{H: 0, Status: 200, B: 0, BErr: true}, ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, false, Att{H: 2 * sec, Err: true}, ok(0, 0))
	add("GET", 2, 2*sec, 5*sec, false, Att{H: sec, Status: 200, B: sec, BErr: true}, gz(ok(0, 0)))
	add("GET", 1, 2*sec, 5*sec, false, st(ok(sec, 0), 404))
	add("GET", 1, 2*sec, 5*sec, true, gz(st(ok(sec, 0), 404)))
	// round trip timeout at the instant of an answer
	add("GET", 1, 5*sec, 2*sec, false, ok(2*sec, 0))
	add("GET", 1, 5*sec, 2*sec, false, deaf(ok(sec, sec)))
	add("GET", 1, 5*sec, 2*sec, false, ok(never, 0))
	add("GET", 2, 2*sec, 3*sec, false, ok(never, 0), ok(sec, 0))
	add("GET", 2, 2*sec, 3*sec, false, deaf(ok(3*sec, 0)), deaf(ok(sec, 0)))
	add("GET", 2, 5*sec, 2*sec, false, Att{H: 2 * sec, Err: true}, ok(0, 0))
	add("GET", 2, 5*sec, 2*sec, false, st(ok(2*sec, 0), 500), ok(0, 0))
	// both timeouts at once
	add("GET", 1, 2*sec, 2*sec, false, ok(2*sec, 0))
	add("GET", 2, 2*sec, 2*sec, false, ok(never, 0), ok(0, 0))
	add("GET", 3, sec, 2*sec, false, ok(never, 0), deaf(ok(sec, 0)), ok(0, 0))
	add("GET", 2, sec, 2*sec, false, deaf(ok(2*sec, 0)), deaf(ok(sec, 0)))
	// not repeatable
	add("POST", 2, 2*sec, 5*sec, false, deaf(ok(2*sec, 0)), ok(0, 0))
	add("POST", 3, 2*sec, 5*sec, false, ok(sec, sec), ok(0, 0))
	// three attempts, leftovers of two
	add("GET", 3, sec, 5*sec, false, deaf(gz(ok(2*sec, 0))), deaf(gz(ok(sec, 0))), ok(0, 0))
	add("PUT", 3, sec, 5*sec, true, deaf(ok(0, 2*sec)), deaf(ok(0, sec)), gz(ok(0, 0)))
	return
}

func horizonOf(s Scen) time.Duration {
	h := s.RT + time.Duration(s.Max+1)*s.T + sec
	for _, a := range s.Atts {
		if a.H != never {
			h += a.H
		}
		if a.B != never {
			h += a.B
		}
	}
	return h
}

func checkC01() {
	scens := c01Scens()
	if thorough() {
		scens = append(scens, c01Product()...)
	}
	R.Rule = "an execution is one complete schedule of one exchange (upstream script x timeouts x content coding) on the instrumented handler, all goroutines, selects and timers under the controller; distinct by scenario and schedule; each has several goroutines of the server and the upstream that collide at the same virtual instant"
	warmIpr = &iprex{}
	warmIpr.extractAddr("192.0.2.1:1234")
	for bound := 0; bound <= pick(2, 3); bound++ {
		full := true
		for i, s := range scens {
			if bound == 3 && !thorough() && !c01Core[i] {
				continue
			}
			allowed, n := s.model()
			if bound == 0 {
				R.ModelStates += int64(n)
			}
			cfg := bootChain(pxYml(s))
			explore(fmt.Sprintf("b%d %s", bound, s.Key()), bound, func(c *vsCtl) (string, string) {
				obs, left := pxRun(R.t, c, &Runtime{Config: *cfg, Start: time.Now()}, []Scen{s}, horizonOf(s))
				if len(left) > 0 {
					return "request not answered or goroutines left: " + fmt.Sprint(left), "left"
				}
				return s.judge(obs[0], allowed)
			})
			if R.stopped {
				full = false
			}
		}
		if full {
			R.Note("deviation_bound_completed", bound)
		}
	}
}

// scenarios the quick tier explores with two preemptions
var c01Core = map[int]bool{2: true, 7: true, 11: true, 13: true, 28: true}

func c01Product() []Scen { return nil }
