//go:build go1.21

package j8a

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"github.com/shirou/gopsutil/process"
)

func init() {
	checks["C19"] = checkC19
	checks["C19d"] = checkC19d
}

const c19Max = 24

// c19Ref is the reference: the window and whether a position is flagged
type c19Ref struct{ win []sample }

func (r *c19Ref) add(s sample) {
	r.win = append(r.win, s)
	if len(r.win) > c19Max {
		r.win = r.win[len(r.win)-c19Max:]
	}
}

// c19Compare checks the history against the reference, and what it reports
func c19Compare(h samples, ref *c19Ref) string {
	if len(h) > c19Max {
		return fmt.Sprintf("history has %d samples", len(h))
	}
	if len(h) != len(ref.win) {
		return fmt.Sprintf("history has %d samples instead of %d", len(h), len(ref.win))
	}
	for i := range h {
		if h[i] != ref.win[i] {
			return fmt.Sprintf("position %d of the history is %+v instead of %+v", i, h[i], ref.win[i])
		}
	}
	logReset(true)
	g := h.log()
	l := logLines()
	unset := false
	for _, s := range ref.win {
		unset = unset || s.pid == 0
	}
	if len(g) != len(ref.win) {
		return fmt.Sprintf("%d growth rates for %d samples", len(g), len(ref.win))
	}
	any := false
	for i := range g {
		want, high := 0.0, false
		if !unset {
			want = float64(ref.win[i].rssBytes) / float64(ref.win[0].rssBytes)
			high = ref.win[i].rssBytes >= 2*ref.win[0].rssBytes
		}
		any = any || high
		if g[i].high != high || g[i].v < want-1e-9*want || g[i].v > want+1e-9*want {
			return fmt.Sprintf("growth of position %d is %+v instead of %v %v in %s", i, g[i], want, high, winStr(ref.win))
		}
	}
	if (len(l) > 0) != any {
		return fmt.Sprintf("%d log entries although high growth is %v in %s", len(l), any, winStr(ref.win))
	}
	for i := range h {
		if h[i] != ref.win[i] {
			return fmt.Sprintf("reporting has changed position %d of the history", i)
		}
	}
	return ""
}

func winStr(w []sample) string {
	o := ""
	for _, s := range w {
		o += fmt.Sprintf(" %d:%d", s.pid, s.rssBytes)
	}
	return o
}

func checkC19() {
	R.Rule = "all sequences of samples of up to a depth over an alphabet of memory sizes around the threshold, started on histories of every fill, and all sequences of up to 60 samples that deviate from a base in up to a number of positions, are appended to the real history; after every append its contents, growth rates, flags and log are compared with a reference list"
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	mk := func(i int, v int64) sample {
		if v < 0 {
			return sample{}
		}
		return sample{pid: 7, rssBytes: uint64(v), vmsBytes: uint64(v) * 3, swapBytes: uint64(i), cpuPc: float64(i), mPc: float32(i), time: time.Unix(int64(1000+i), 0)}
	}
	run := func(key string, h samples, seq []int64, checkEvery bool) string {
		ref := &c19Ref{win: append([]sample{}, h...)}
		for i, v := range seq {
			s := mk(i, v)
			h.append(s)
			ref.add(s)
			R.Steps++
			if checkEvery || i == len(seq)-1 {
				if p := c19Compare(h, ref); p != "" {
					return fmt.Sprintf("after %d samples: %s", i+1, p)
				}
			}
		}
		return ""
	}
	do := func(key string, mkh func() samples, seq []int64, every bool) {
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		p := run(key, mkh(), seq, every)
		if p != "" {
			R.Violate(key, "%s", p)
		}
		R.Validated++
		R.Ran(key, fmt.Sprint(seq), true)
	}
	// starts: empty, of every fill, unset, the server's own
	type start struct {
		name string
		f    func() samples
	}
	starts := []start{{"nil", func() samples { return nil }}, {"empty", func() samples { return samples{} }}}
	for _, n := range []int{1, 2, 12, 22, 23, 24} {
		n := n
		starts = append(starts, start{fmt.Sprint(n, " unset"), func() samples { return make(samples, n) }})
		starts = append(starts, start{fmt.Sprint(n, " of 100"), func() samples {
			h := make(samples, n)
			for i := range h {
				h[i] = mk(-100+i, 100)
			}
			return h
		}})
		starts = append(starts, start{fmt.Sprint(n, " rising"), func() samples {
			h := samples{}
			for i := 0; i < n; i++ {
				h = append(h, mk(-100+i, int64(100+5*i)))
			}
			return h
		}})
	}
	alphabet := []int64{100, 199, 200, 201, 50, -1, 1 << 40}
	depth := pick(4, 6)
	for _, st := range starts {
		var rec func(p []int64)
		rec = func(p []int64) {
			if len(p) == depth {
				do(fmt.Sprintf("%s then %v", st.name, p), st.f, append([]int64{}, p...), true)
				return
			}
			for _, a := range alphabet {
				rec(append(p, a))
			}
		}
		rec(nil)
	}
	// long ones: base with deviations
	long := 60
	base := make([]int64, long)
	full := starts[len(starts)-2] // 24 of 100
	devs := pick(2, 3)
	seen := 0
	var rec func(from, left int, seq []int64, name string)
	rec = func(from, left int, seq []int64, name string) {
		for _, st := range []start{starts[0], full, starts[len(starts)-3]} {
			seen++
			do(fmt.Sprintf("long on %s%s", st.name, name), st.f, append([]int64{}, seq...), true)
		}
		if left == 0 {
			return
		}
		for i := from; i < long; i++ {
			if left < devs && !thorough() && (i-from)%5 != 0 && i-from != 23 && i-from != 24 && i-from != 22 {
				continue
			}
			if left < devs-1 && (i-from)%7 != 0 && i-from != 22 && i-from != 23 {
				continue
			}
			for _, v := range []int64{200, 199, 50, -1} {
				old := seq[i]
				seq[i] = v
				rec(i+1, left-1, seq, fmt.Sprintf("%s %d=%d", name, i, v))
				seq[i] = old
			}
		}
	}
	for i := range base {
		base[i] = 100
	}
	rec(0, devs, base, "")
	// levels that persist
	for i := 0; i < long; i++ {
		for j := i; j < long; j += pick(3, 1) {
			for _, v := range []int64{99, 150, 199, 200, 400, 10} {
				for _, w := range []int64{100, 199, 200, 400, 20} {
					seq := make([]int64, long)
					for k := range seq {
						switch {
						case k < i:
							seq[k] = 100
						case k < j:
							seq[k] = v
						default:
							seq[k] = w
						}
					}
					do(fmt.Sprintf("levels 100 until %d, %d until %d, %d", i, v, j, w), starts[0].f, seq, true)
				}
			}
		}
	}
}

// checkC19d runs the sampling daemons of the server in virtual time over a process table of the harness's own
func checkC19d() {
	R.Rule = "every course of memory over up to 60 hours with up to two (thorough: three) changes of level is played to the real sampling daemons in virtual time through a process table made by the harness; the hourly report is compared with a reference window at every hour"
	dir := filepath.Join(os.Getenv("VERIF_TMP"), "proc-"+fmt.Sprint(os.Getpid()))
	os.MkdirAll(filepath.Join(dir, "4242"), 0755)
	// without a stat file there are no cpu times, and no waiting for them
	os.Setenv("HOST_PROC", dir)
	ioutil.WriteFile(filepath.Join(dir, "4242", "status"), []byte("Name:\tx\nState:\tS\nPid:\t4242\nPPid:\t1\nTgid:\t4242\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nThreads:\t1\nVmRSS:\t400 kB\nVmSize:\t800 kB\nVmSwap:\t0 kB\n"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "meminfo"), []byte("MemTotal: 32000000 kB\nMemFree: 1000000 kB\n"), 0644)
	statm := filepath.Join(dir, "4242", "statm")
	// 0, -1 and -2 pages stand for a reading that cannot be taken
	pid := filepath.Join(dir, "4242")
	set := func(pages int) {
		if os.Rename(pid+".gone", pid); pages <= 0 {
			os.Remove(statm)
			if pages == -1 {
				ioutil.WriteFile(statm, nil, 0644)
			}
			if pages == -2 {
				os.Rename(pid, pid+".gone")
			}
			return
		}
		ioutil.WriteFile(statm+".n", []byte(fmt.Sprintf("%d %d 10 10 0 10 0", pages*3, pages)), 0644)
		os.Rename(statm+".n", statm)
	}
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	defer zerolog.SetGlobalLevel(zerolog.InfoLevel)
	do := func(key string, level func(hour int) int, hours int) {
		if !R.Mine(key) {
			return
		}
		R.Before(key)
		problem, outcome := "", ""
		bubble(func() {
			ts := &tsSink{}
			log.Logger = zerolog.New(ts)
			set(level(0))
			proc, err := process.NewProcess(4242)
			if proc == nil { // the server goes on after an error
				problem = "harness: " + fmt.Sprint(err)
				return
			}
			start := time.Now()
			logProcStats(proc)
			for h := 0; h < hours; h++ {
				time.Sleep(30 * time.Minute)
				if h+1 <= hours {
					set(level(h + 1))
				}
				time.Sleep(30*time.Minute - time.Nanosecond)
				time.Sleep(time.Nanosecond)
			}
			time.Sleep(time.Minute)
			// hour h: the history holds samples of hours up to h-1 or, if sampled first, h
			high := map[int]int{}
			other := ""
			perf := 0
			for i, l := range ts.line {
				if _, ok := l["rssBytes"]; ok {
					perf++
					continue
				}
				at := ts.at[i].Sub(start)
				if at%time.Hour != 0 {
					other = fmt.Sprintf("unexpected entry %v after %v", l, at)
				}
				high[int(at/time.Hour)]++
			}
			if other != "" {
				problem = other
				return
			}
			for h := 1; h <= hours; h++ {
				// a reading that failed is left out, or (none) leaves the window without a report
				verdict := func(last int, none bool) bool {
					var win []int
					for i := 0; i < c19Max; i++ {
						win = append(win, level(0))
					}
					for i := 0; i <= last; i++ {
						if none || level(i) > 0 {
							win = append(win, level(i))
						}
					}
					win = win[len(win)-c19Max:]
					high := false
					for _, v := range win {
						if v <= 0 {
							return false
						}
						high = high || v >= 2*win[0]
					}
					return high
				}
				a, b := verdict(h-1, false), verdict(h, false)
				if a2, b2 := verdict(h-1, true), verdict(h, true); a != a2 || b != b2 {
					b = !a
				}
				got := high[h] > 0
				if high[h] > 1 {
					problem = fmt.Sprintf("%d reports in hour %d", high[h], h)
				}
				if a == b && got != a {
					problem = fmt.Sprintf("high growth reported in hour %d: %v, expected %v", h, got, a)
				}
				if problem != "" {
					return
				}
				if got {
					outcome += "H"
				} else {
					outcome += "."
				}
			}
		})
		if problem != "" {
			R.Violate(key, "%s", problem)
		}
		R.Steps += int64(hours)
		R.Validated++
		R.Ran(key, outcome, strings.Contains(outcome, "H"))
	}
	hours := 60
	lv := []int{100, 199, 200, 50, 400, 1000}
	for i := 1; i < hours; i++ {
		for _, v := range lv[1:] {
			do(fmt.Sprintf("100 until %d then %d", i, v), func(h int) int {
				if h < i {
					return 100
				}
				return v
			}, hours)
		}
	}
	if !thorough() {
		lv = lv[:5]
	}
	// readings that fail for a while, also the very first, before and after a rise
	for _, i := range []int{0, 1, 2, 12, 25, 40} {
		for _, d := range []int{1, 2, 23, 24, 25, 70} {
			for _, f := range []int{0, -1, -2} {
				for _, w := range []int{100, 199, 200, 50} {
					do(fmt.Sprintf("100, no reading (%d) from %d for %d, then %d", f, i, d, w), func(h int) int {
						switch {
						case h < i:
							return 100
						case h < i+d:
							return f
						}
						return w
					}, hours)
				}
			}
		}
	}
	steps := []int{1, 2, 22, 23, 24, 25, 26}
	if thorough() {
		steps = []int{1, 2, 3, 11, 21, 22, 23, 24, 25, 26, 27, 30}
	}
	for i := 1; i < 30; i += pick(4, 1) {
		for _, d := range steps {
			for _, v := range lv {
				for _, w := range lv {
					if v == w {
						continue
					}
					do(fmt.Sprintf("100 until %d then %d for %d then %d", i, v, d, w), func(h int) int {
						switch {
						case h < i:
							return 100
						case h < i+d:
							return v
						}
						return w
					}, hours)
				}
			}
		}
	}
	for _, g := range []int{1, 2, 3, 4, 5, 8} {
		do(fmt.Sprintf("rising by %d", g), func(h int) int { return 100 + g*h }, 100)
		do(fmt.Sprintf("falling by %d", g), func(h int) int { return 1000 - g*h }, 100)
		do(fmt.Sprintf("every %d", g), func(h int) int {
			if h%g == 0 {
				return 200
			}
			return 100
		}, 100)
	}
}
