//go:build go1.21

package j8a

import (
	"fmt"
	"strconv"
	"strings"
)

// explore enumerates all schedules of one scenario with at most bound deviations (preemptions).
// body runs one execution under the given controller and returns a problem ("" if none) and a
// canonical outcome. The root schedule's children are spread over the shards.
func explore(key string, bound int, body func(c *vsCtl) (problem, outcome string)) (execs int) {
	run := func(prefix []int, tracing bool) (*vsCtl, string, string) {
		c := &vsCtl{prefix: prefix, tracing: tracing, bound: bound}
		if tracing {
			c.bound = 0 // what follows the recorded choices is the default
		}
		curCase = key + "#" + joinInts(prefix)
		R.Before(curCase)
		p, o := body(c)
		if len(c.crashes) > 0 {
			p = "crash: " + c.crashes[0]
		}
		return c, p, o
	}
	if R.replay != "" {
		if !strings.HasPrefix(R.replay, key+"#") {
			return 0
		}
		prefix := splitInts(R.replay[len(key)+1:])
		run(nil, false)
		c, p, o := run(prefix, true)
		R.Ran(R.replay, o, true)
		R.Steps += int64(c.steps)
		if p != "" {
			R.Violate(R.replay, "%s\nschedule:\n  %s", p, strings.Join(c.trace, "\n  "))
		}
		return 1
	}
	if R.stopped || R.Expired() || len(R.Violations) >= 3 {
		R.Complete = false
		R.stopped = true
		return 0
	}
	report := func(c *vsCtl, prefix []int, p, o string) {
		execs++
		R.Steps += int64(c.steps)
		R.Validated++
		k := key + "#" + joinInts(prefix)
		R.Ran(k, key+" "+o, true)
		if c.diverged != "" {
			diverged++
			R.Note("diverged", diverged)
			return
		}
		if p != "" {
			// minimal schedule first: iterate the bound from outside, so the first hit is short
			R.Violate(k, "%s", p)
		}
	}
	run(nil, false) // warm up lazily built state
	var rec func(prefix []int, depth int)
	rec = func(prefix []int, depth int) {
		if R.stopped || len(R.Violations) >= 3 {
			R.Complete = false
			return
		}
		if execs&63 == 0 && R.Expired() {
			R.Complete = false
			R.stopped = true
			return
		}
		c, p, o := run(prefix, false)
		if depth > 0 || R.shard == 0 {
			report(c, prefix, p, o)
		}
		used := 0
		for i := 0; i < len(prefix) && i < len(c.choices); i++ {
			used += c.choices[i].Cost[c.choices[i].Chosen]
		}
		child := 0
		for i := len(prefix); i < len(c.choices); i++ {
			ch := c.choices[i]
			for alt := 1; alt < ch.N; alt++ {
				if used+ch.Cost[alt] > bound {
					continue
				}
				child++
				if depth == 0 && child%R.shards != R.shard {
					continue
				}
				np := make([]int, i+1)
				for j := 0; j < i; j++ {
					np[j] = c.choices[j].Chosen
				}
				np[i] = alt
				rec(np, depth+1)
			}
			used += ch.Cost[ch.Chosen]
		}
	}
	rec(nil, 0)
	return execs
}

var diverged int

func joinInts(p []int) string {
	// run-length: zeros dominate
	var sb strings.Builder
	z := 0
	for _, x := range p {
		if x == 0 {
			z++
			continue
		}
		fmt.Fprintf(&sb, "%dx%d.", z, x)
		z = 0
	}
	return sb.String()
}

func splitInts(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ".") {
		if f == "" {
			continue
		}
		i := strings.IndexByte(f, 'x')
		z, _ := strconv.Atoi(f[:i])
		v, _ := strconv.Atoi(f[i+1:])
		for ; z > 0; z-- {
			out = append(out, 0)
		}
		out = append(out, v)
	}
	return out
}
