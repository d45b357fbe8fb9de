//go:build go1.21

package j8a

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

func init() {
	checks["C12"] = checkC12
	checks["C12x"] = checkC12x
}

type c12Policy struct {
	name   string
	labels []string
	w      []float64
}

func (p c12Policy) yml() string {
	var l []string
	for i := range p.labels {
		l = append(l, fmt.Sprintf("{label: %s, weight: %v}", p.labels[i], p.w[i]))
	}
	return "[" + strings.Join(l, ", ") + "]"
}

// want is the probability of each label; what the weights leave over goes to default
func (p c12Policy) want() map[string]float64 {
	m := map[string]float64{}
	sum := 0.0
	for i, l := range p.labels {
		m[l] += p.w[i]
		sum += p.w[i]
	}
	if sum < 1-1e-9 {
		m["default"] += 1 - sum
	}
	return m
}

func perms(n int) (out [][]int) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func c12Policies() (out []c12Policy) {
	base := []c12Policy{
		{"one", []string{"a"}, []float64{1}},
		{"zero", []string{"a", "b"}, []float64{0, 1}},
		{"half", []string{"a", "b"}, []float64{0.5, 0.5}},
		{"9010", []string{"a", "b"}, []float64{0.9, 0.1}},
		{"third", []string{"a", "b", "c"}, []float64{0.2, 0.3, 0.5}},
		{"same", []string{"a", "b", "c"}, []float64{0.25, 0.25, 0.5}},
		{"rest", []string{"a", "b"}, []float64{0.2, 0.3}},
		{"restonly", []string{"a"}, []float64{0.4}},
		{"four", []string{"a", "b", "c", "d"}, []float64{0.1, 0.2, 0.3, 0.4}},
		{"fourrest", []string{"a", "b", "c", "d"}, []float64{0.05, 0.15, 0.25, 0.25}},
		{"fine", []string{"a", "b"}, []float64{0.12345, 0.87655}},
		{"finerest", []string{"a", "b", "c"}, []float64{0.3333, 0.3333, 0.3333}},
		{"rare", []string{"a", "b"}, []float64{0.001, 0.999}},
		{"rarerest", []string{"a", "b", "c"}, []float64{0.0005, 0.0105, 0.0015}},
		{"twice", []string{"a", "b", "a"}, []float64{0.2, 0.5, 0.3}},
	}
	for _, p := range base {
		for i, pm := range perms(len(p.labels)) {
			if !thorough() && i > 5 && i%5 != 0 {
				continue
			}
			q := c12Policy{name: fmt.Sprintf("%s/%v", p.name, pm)}
			for _, j := range pm {
				q.labels = append(q.labels, p.labels[j])
				q.w = append(q.w, p.w[j])
			}
			out = append(out, q)
		}
	}
	return
}

func c12Yml(p c12Policy, rev bool) string {
	// two mappings bear label a; the first one listed has to be chosen
	res := []string{
		"{labels: [a], url: {scheme: http, host: a.test, port: 8001}}",
		"{labels: [x, b], url: {scheme: http, host: b.test, port: 8001}}",
		"{labels: [c, y], url: {scheme: http, host: c.test, port: 8001}}",
		"{labels: [d], url: {scheme: http, host: d.test, port: 8001}}",
		"{labels: [default], url: {scheme: http, host: default.test, port: 8001}}",
		"{labels: [b, a, z], url: {scheme: http, host: ab.test, port: 8001}}",
	}
	if rev {
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return fmt.Sprintf(`
policies:
  p: %s
routes:
  - {path: /pol, resource: pol, policy: p}
  - {path: /q, resource: pol, policy: q}
  - {path: /abt, resource: about}
resources:
  pol: [%s]
`, strings.Replace(p.yml(), "", "", 1)+"\n  q: [{label: a, weight: 0.5}, {label: c, weight: 0.5}]", strings.Join(res, ", "))
}

func c12Host(label string, rev bool) string {
	if rev && (label == "a" || label == "b") {
		return "ab.test"
	}
	return label + ".test"
}

// policyRequest sends one request down the policy route and returns the host it was mapped to
func policyRequest(u *upstream, tag, target string) (host string, code int) {
	s := rq(tag, "GET", target, "")
	u.scens[tag] = s
	u.start[tag] = time.Now()
	rec := newRec()
	proxyHandler(rec, s.request())
	if len(u.seen[tag]) > 0 {
		host = strings.Split(strings.TrimPrefix(u.seen[tag][0].URL, "http://"), ":")[0]
	}
	if len(rec.Codes) > 0 {
		code = rec.Codes[0]
	}
	delete(u.scens, tag)
	u.seen[tag] = nil
	return
}

// c12Events are what may happen between two policy decisions
var c12Events = map[string]func(u *upstream){
	"404":   func(u *upstream) { proxyHandler(newRec(), rq("e", "GET", "/nope", "").request()) },
	"400":   func(u *upstream) { proxyHandler(newRec(), rq("e", "PATCH", "/pol", "").request()) },
	"about": func(u *upstream) { aboutHandler(newRec(), rq("e", "GET", "/abt", "").request()) },
	"pol":   func(u *upstream) { policyRequest(u, "e", "/pol/e") },
	"q":     func(u *upstream) { policyRequest(u, "e", "/q/e") },
	"502": func(u *upstream) {
		s := rq("e", "GET", "/pol/e", "", mAtts(Att{Err: true}))
		u.scens["e"] = s
		u.start["e"] = time.Now()
		proxyHandler(newRec(), s.request())
		u.seen["e"] = nil
	},
}

func checkC12() {
	R.Rule = "the dice is owned by the harness: for each policy and every order of its labels all points of a dice grid are enumerated in every state reached by a history of at most two events (generated responses, other policy decisions, failing requests) and the measured share of each label is compared with its weight; each host reached is compared with the first mapping bearing the label. Histories of reseeding are enumerated too: no state of the generator may recur within a history"
	var evs []string
	for k := range c12Events {
		evs = append(evs, k)
	}
	sort.Strings(evs)
	hist := [][]string{{}}
	for _, a := range evs {
		hist = append(hist, []string{a})
	}
	for _, a := range evs {
		for _, b := range evs {
			hist = append(hist, []string{a, b})
		}
	}
	if thorough() {
		for _, a := range evs {
			for _, b := range evs {
				for _, c := range evs {
					hist = append(hist, []string{a, b, c})
				}
			}
		}
	}
	for _, p := range c12Policies() {
		for hi, h := range hist {
			if !thorough() && len(h) == 2 && !strings.HasSuffix(p.name, "[1 0]") && !strings.HasSuffix(p.name, "[2 0 1]") {
				continue
			}
			rev := hi%2 == 1
			key := fmt.Sprintf("grid %s rev=%v after %s", p.name, rev, strings.Join(h, ","))
			if !R.Mine(key) {
				continue
			}
			R.Before(key)
			c12Grid(key, p, rev, h)
		}
	}
	for _, h := range hist {
		key := "seeds " + strings.Join(h, ",")
		if R.Mine(key) {
			R.Before(key)
			c12Seeds(key, h)
		}
	}
}

func c12Grid(key string, p c12Policy, rev bool, h []string) {
	cfg := bootChain(c12Yml(p, rev))
	n := pick(200, 1000)
	synctest.Test(R.t, func(t *testing.T) {
		u := &upstream{scens: map[string]Scen{}, start: map[string]time.Time{}, seen: map[string][]*Seen{}}
		Runner = &Runtime{Config: *cfg, Start: time.Now()}
		httpClient = u
		vsDice = func() float64 { return 0.5 }
		defer func() { vsDice = nil }()
		for _, e := range h {
			c12Events[e](u)
		}
		// every point of the grid, from the low and the high end in turn
		cnt := map[string]int{}
		total := 0
		draws0 := vsDiceDraws
		run := func(f func() float64) {
			vsDice = f
			host, code := policyRequest(u, "p", "/pol/p")
			if code != 200 {
				host = fmt.Sprintf("status %d", code)
			}
			cnt[host]++
			total++
		}
		at := func(x float64) (host string) {
			cntWas := map[string]int{}
			for k, v := range cnt {
				cntWas[k] = v
			}
			run(func() float64 { return x })
			for k, v := range cnt {
				if v != cntWas[k] {
					host = k
				}
			}
			return
		}
		var xs []float64
		for i := 0; i < n; i++ {
			xs = append(xs, (float64(i)+0.5)/float64(n))
		}
		nx := len(xs)
		// the ends, and the middle of every interval a label can have if the labels are laid out in any order
		for k := 1e-2; k > 1e-9; k /= 10 {
			xs = append(xs, k, 1-k)
		}
		xs = append(xs, 0)
		for set := 0; set < 1<<len(p.w); set++ {
			sum := 0.0
			for i, w := range p.w {
				if set>>i&1 == 1 {
					sum += w
				}
			}
			for i, w := range p.w {
				if set>>i&1 == 0 && sum+w/2 < 1 {
					xs = append(xs, sum+w/2)
				}
			}
		}
		hosts := map[float64]string{}
		for i := range xs {
			k := i / 2
			if i%2 == 1 {
				k = len(xs) - 1 - i/2
			}
			hosts[xs[k]] = at(xs[k])
		}
		per := float64(vsDiceDraws-draws0) / float64(total)
		tol := 1.5 / float64(n)
		share := map[string]float64{}
		if per < 1 || per > 1 {
			// the decision takes none or several numbers of the hooked generator: use real draws
			cnt, total = map[string]int{}, 0
			for i := 0; i < 20000; i++ {
				run(nil)
				time.Sleep(time.Millisecond)
			}
			tol = 6 * math.Sqrt(0.25/20000)
			R.Note("decisions_not_driven_by_hooked_generator", 1)
			R.Complete = false
			for host, c := range cnt {
				share[host] = float64(c) / float64(total)
			}
		} else {
			// the exact share is the length of the intervals: find the ends of each between neighbours that differ
			sort.Float64s(xs)
			changes := 0
			for i := 1; i < len(xs); i++ {
				if hosts[xs[i]] != hosts[xs[i-1]] {
					changes++
				}
			}
			if changes < 40 {
				tol = 2e-4
				for i := range xs {
					lo, hi := xs[i], 1.0
					if i+1 < len(xs) {
						hi = xs[i+1]
					}
					a, end := hosts[lo], hi
					if i+1 < len(xs) && hosts[hi] != a {
						for hi-lo > 1e-6 {
							if m := (lo + hi) / 2; at(m) == a {
								lo = m
							} else {
								hi = m
							}
						}
						// more than one change between neighbours: what follows the first belongs to the other
						share[hosts[end]] += end - hi
						share[a] += hi - xs[i]
						continue
					}
					share[a] += end - xs[i]
				}
			} else {
				// no intervals: each point of the grid stands for its part
				for i := 0; i < nx; i++ {
					share[hosts[(float64(i)+0.5)/float64(n)]] += 1 / float64(n)
				}
			}
		}
		want := map[string]float64{}
		for l, w := range p.want() {
			want[c12Host(l, rev)] += w
		}
		var got []string
		for host, sh := range share {
			got = append(got, fmt.Sprintf("%s=%.4f", host, sh))
			if w, ok := want[host]; !ok && cnt[host] > 0 || math.Abs(sh-w) > tol {
				R.Violate(key, "policy %s: %s got a share of %.5f of all dice values instead of %.5f", p.yml(), host, sh, w)
			}
		}
		for host, w := range want {
			if w > tol && share[host] == 0 {
				R.Violate(key, "policy %s: %s was never chosen instead of %.4f", p.yml(), host, w)
			}
		}
		sort.Strings(got)
		R.Steps += int64(total)
		R.Validated++
		R.Ran(key, strings.Join(got, " "), true)
		R.Evaluations += int64(total - 1)
		synctest.Wait()
		time.Sleep(300 * time.Second)
	})
}

// c12Seeds repeats a history of events and looks for states of the generator that recur
func c12Seeds(key string, h []string) {
	p := c12Policy{"half", []string{"a", "b"}, []float64{0.5, 0.5}}
	cfg := bootChain(c12Yml(p, false))
	synctest.Test(R.t, func(t *testing.T) {
		u := &upstream{scens: map[string]Scen{}, start: map[string]time.Time{}, seen: map[string][]*Seen{}}
		Runner = &Runtime{Config: *cfg, Start: time.Now()}
		httpClient = u
		seeds := map[int64]bool{}
		cur, pos := int64(-1), 0
		drawn := map[string]bool{}
		bad := ""
		policy := false
		vsSeed = func(s int64) { cur, pos = s, 0; seeds[s] = true }
		vsDice = func() float64 {
			pos++
			k := fmt.Sprintf("%d/%d", cur, pos)
			if policy && drawn[k] {
				bad = k
			}
			if policy {
				drawn[k] = true
			}
			return 0.5
		}
		defer func() { vsSeed, vsDice = nil, nil }()
		seq := ""
		real := 0
		for i := 0; i < 40; i++ {
			for _, e := range h {
				c12Events[e](u)
				time.Sleep(time.Millisecond)
			}
			before := pos
			policy = true
			host, _ := policyRequest(u, "p", "/pol/p")
			policy = false
			if pos != before {
				real++
			}
			seq += host[:1]
			time.Sleep(time.Millisecond)
		}
		if bad != "" {
			R.Violate(key, "after %v the generator is reset to a state it was in before (seed/position %s): consecutive decisions repeat", h, bad)
		}
		if real == 0 && strings.Count(seq, "a") != 0 && strings.Count(seq, "b") == 0 {
			R.Violate(key, "40 decisions between %v all went to a: %s", h, seq)
		}
		R.Steps += 40
		R.Validated++
		R.Ran(key, fmt.Sprintf("%d reseeds", len(seeds)), len(h) > 0)
		time.Sleep(300 * time.Second)
	})
}

// checkC12x: concurrent decisions, all schedules
func checkC12x() {
	R.Rule = "one execution is one schedule of two or three concurrent policy decisions (with concurrent generated responses) on the instrumented handler; each request's own dice decides its label"
	type sc struct {
		name string
		p    c12Policy
		dice []float64
	}
	var scs []sc
	for _, p := range []c12Policy{
		{"ab", []string{"a", "b"}, []float64{0.7, 0.3}},
		{"abc", []string{"a", "b", "c"}, []float64{0.5, 0.3, 0.2}},
		{"rest", []string{"a", "b"}, []float64{0.4, 0.3}},
	} {
		for _, d := range [][]float64{{0.05, 0.95}, {0.45, 0.55}, {0.95, 0.25}} {
			scs = append(scs, sc{p.name, p, d})
		}
	}
	// the reference: which label a dice value leads to when nothing else is going on
	pick1 := func(p c12Policy, dice float64) string {
		c := &vsCtl{}
		lbl := ""
		obs, _ := c12Exchange(c, p, []float64{dice})
		if len(obs[0].Seen) > 0 {
			lbl = obs[0].Seen[0].URL
		}
		return lbl
	}
	for bound := 0; bound <= pick(1, 2); bound++ {
		for _, x := range scs {
			key := fmt.Sprintf("b%d %s %v", bound, x.name, x.dice)
			want := []string{}
			for _, d := range x.dice {
				want = append(want, pick1(x.p, d))
			}
			explore(key, bound, func(c *vsCtl) (string, string) {
				obs, left := c12Exchange(c, x.p, x.dice)
				if len(left) > 0 {
					return fmt.Sprint("left ", left), "left"
				}
				out := ""
				for i, o := range obs {
					if o.Pan != "" {
						return "panic " + o.Pan, "panic"
					}
					if len(o.Seen) != 1 {
						return fmt.Sprintf("request %d made %d attempts", i, len(o.Seen)), "attempts"
					}
					got := o.Seen[0].URL
					if got[:len(got)-1] != want[i][:len(want[i])-1] {
						return fmt.Sprintf("policy %s dice %v led to %s, without concurrent requests it is %s", x.p.yml(), x.dice[i], got, want[i]), "split"
					}
					out += got + " "
				}
				return "", out
			})
		}
		if !R.stopped {
			R.Note("deviation_bound_completed", bound)
		}
	}
}

func c12Exchange(c *vsCtl, p c12Policy, dice []float64) ([]*Obs, []string) {
	var scens []Scen
	for i, d := range dice {
		scens = append(scens, rq(fmt.Sprint(i), "GET", fmt.Sprintf("/pol/%d", i), "", mDice(d)))
	}
	c.dice = func(kind string, n int64) float64 {
		id := c.cur().id
		if len(id) > 1 && id[0] == 't' && int(id[1]-'0') < len(dice) {
			return dice[int(id[1]-'0')]
		}
		return 0.5
	}
	warmIpr = &iprex{}
	warmIpr.extractAddr("192.0.2.1:1234")
	y := c12Yml(p, false)
	return pxRun(R.t, c, &Runtime{Config: *bootChain(y + "connection: {upstream: {readTimeoutSeconds: 2, maxAttempts: 1}, downstream: {roundTripTimeoutSeconds: 5}}\n"), Start: time.Now()}, scens, 20*sec)
}
