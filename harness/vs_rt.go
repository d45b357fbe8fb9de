//go:build go1.21

package j8a

// Runtime of the controlled scheduler. Code rewritten by tools/instr calls into this file. Without
// a controller (vsC == nil) every function behaves like what it replaces.

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
)

type vsThread struct {
	id     string
	wake   chan struct{}
	loc    string
	childs int
	done   bool
}

type vsChoice struct {
	N      int // options
	Chosen int
	Cost   []int // deviation cost of each option
	What   string
}

type vsDivergence struct{ msg string }

// vsCtl controls one execution inside one synctest bubble
type vsCtl struct {
	mu       sync.Mutex
	threads  map[int64]*vsThread // by goroutine id
	parked   []*vsThread
	live     map[string]*vsThread
	notify   chan struct{}
	last     *vsThread
	anon     int
	gen      int64
	prefix   []int
	choices  []vsChoice
	steps    int
	crashes  []string
	trace    []string
	tracing  bool
	freeRun  bool
	switches map[string]bool
	diverged string
	dice     func(kind string, n int64) float64
	tooLong  bool
	bound    int
	used     int
	spent    bool
	maxSteps int
	start    time.Time
}

var vsC *vsCtl
var vsGen int64

// vsG is the address of the goroutine's descriptor: unique among live goroutines
func vsG() uintptr

func vsGoid() int64 { return int64(vsG()) }

func (c *vsCtl) cur() *vsThread {
	g := vsGoid()
	c.mu.Lock()
	th := c.threads[g]
	if th == nil {
		// a goroutine started by a library (e.g. an http callback)
		c.anon++
		th = &vsThread{id: "~" + strconv.Itoa(c.anon), wake: make(chan struct{}, 1)}
		c.threads[g] = th
	}
	c.mu.Unlock()
	return th
}

func (c *vsCtl) park(th *vsThread, loc string) {
	th.loc = loc
	c.mu.Lock()
	if c.freeRun {
		c.mu.Unlock()
		return
	}
	c.parked = append(c.parked, th)
	c.mu.Unlock()
	select {
	case c.notify <- struct{}{}:
	default:
	}
	<-th.wake
}

func vsPoint(loc string) {
	if c := vsC; c != nil {
		th := c.cur()
		// with no deviation left to spend the running thread keeps running
		if th == c.last && c.spent && c.steps < c.maxSteps {
			c.steps++
			return
		}
		c.park(th, loc)
	}
}

// choose is called by the controller or by the only running thread
func (c *vsCtl) choose(what string, cost []int) int {
	n := len(cost)
	if n == 1 {
		return 0
	}
	i := len(c.choices)
	pick := 0
	if i < len(c.prefix) {
		pick = c.prefix[i]
		if pick >= n {
			c.diverged = fmt.Sprintf("choice %d: %d of %d (%s)", i, pick, n, what)
			pick = 0
		}
	}
	c.choices = append(c.choices, vsChoice{N: n, Chosen: pick, Cost: cost, What: what})
	c.used += cost[pick]
	c.spent = c.used >= c.bound && len(c.choices) >= len(c.prefix)
	return pick
}

// newThread registers a logical thread at spawn time so that ids do not depend on timing
func (c *vsCtl) newThread() *vsThread {
	p := c.cur()
	c.mu.Lock()
	p.childs++
	th := &vsThread{id: p.id + "." + fmt.Sprintf("%02d", p.childs), wake: make(chan struct{}, 1)}
	c.mu.Unlock()
	return th
}

func (c *vsCtl) enter(th *vsThread, loc string) {
	g := vsGoid()
	c.mu.Lock()
	c.threads[g] = th
	c.live[th.id] = th
	c.mu.Unlock()
	c.park(th, loc)
}

func (c *vsCtl) leave(th *vsThread, rec interface{}) {
	c.mu.Lock()
	delete(c.live, th.id)
	delete(c.threads, vsGoid())
	th.done = true
	if rec != nil {
		c.crashes = append(c.crashes, fmt.Sprintf("panic in goroutine %s: %v\n%s", th.id, rec, vsStack()))
	}
	c.mu.Unlock()
}

func vsStack() string { return string(debug.Stack()) }

func vsWrap[F any](f F) F {
	c := vsC
	if c == nil {
		return f
	}
	th := c.newThread()
	v := reflect.ValueOf(f)
	if v.IsNil() {
		return f
	}
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) (res []reflect.Value) {
		defer func() { c.leave(th, recover()) }()
		c.enter(th, "spawn")
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}

func vsAfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(d, vsWrap(f))
}

// ---- select ----

type vsCaser interface {
	rcase() reflect.SelectCase
	peek() int // 0 not ready, 1 ready, 2 received already
	take(v reflect.Value, ok bool)
}

type vsRecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

func vsRecv[T any](ch <-chan T) *vsRecvCase[T] { return &vsRecvCase[T]{ch: ch} }

func (r *vsRecvCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

func (r *vsRecvCase[T]) peek() int {
	if r.ch == nil {
		return 0
	}
	if len(r.ch) > 0 {
		return 1
	}
	select {
	case v, ok := <-r.ch:
		if ok {
			r.Val, r.Ok = v, true
			return 2
		}
		return 1 // closed: receiving has no effect
	default:
		return 0
	}
}
func (r *vsRecvCase[T]) take(v reflect.Value, ok bool) {
	if v.IsValid() && ok {
		r.Val = v.Interface().(T)
	}
	r.Ok = ok
}

type vsSendCase[T any] struct {
	ch chan<- T
	v  T
}

func vsSend[T any](ch chan<- T, v T) *vsSendCase[T] { return &vsSendCase[T]{ch: ch, v: v} }
func (s *vsSendCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *vsSendCase[T]) peek() int {
	if s.ch != nil && len(s.ch) < cap(s.ch) {
		return 1
	}
	return 0
}
func (s *vsSendCase[T]) take(v reflect.Value, ok bool) {}

func vsSelect(loc string, def bool, cs ...vsCaser) int {
	c := vsC
	if c != nil && !c.freeRun {
		var rdy []int
		for i, x := range cs {
			switch x.peek() {
			case 1:
				rdy = append(rdy, i)
			case 2:
				return i
			}
		}
		if len(rdy) > 0 {
			k := 0
			if len(rdy) > 1 {
				k = c.choose("select "+loc, make([]int, len(rdy)))
			}
			x := cs[rdy[k]]
			if rc := x.rcase(); rc.Dir == reflect.SelectRecv {
				if v, ok := rc.Chan.TryRecv(); v.IsValid() {
					x.take(v, ok)
				}
			} else {
				rc.Chan.TrySend(rc.Send)
			}
			return rdy[k]
		}
	}
	var rcs []reflect.SelectCase
	for _, x := range cs {
		rcs = append(rcs, x.rcase())
	}
	if def {
		rcs = append(rcs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rcs)
	if i == len(cs) {
		return -1
	}
	cs[i].take(v, ok)
	vsPoint(loc)
	return i
}

// ---- sync replacements ----

type vsPool struct {
	New   func() interface{}
	mu    sync.Mutex
	gen   int64
	items []interface{}
}

func (p *vsPool) Get() interface{} {
	p.mu.Lock()
	if p.gen != vsGen {
		p.gen, p.items = vsGen, nil
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *vsPool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if p.gen != vsGen {
		p.gen, p.items = vsGen, nil
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// vsMutex blocks durably, so that the controller sees the waiter as blocked
type vsMutex struct {
	mu      sync.Mutex
	gen     int64
	held    bool
	waiters []chan struct{}
}

func (m *vsMutex) fresh() {
	if m.gen != vsGen {
		m.gen, m.held, m.waiters = vsGen, false, nil
	}
}
func (m *vsMutex) Lock() {
	vsPoint("lock")
	for {
		m.mu.Lock()
		m.fresh()
		if !m.held {
			m.held = true
			m.mu.Unlock()
			return
		}
		w := make(chan struct{})
		m.waiters = append(m.waiters, w)
		m.mu.Unlock()
		<-w
		vsPoint("lock")
	}
}
func (m *vsMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *vsMutex) Unlock() {
	m.mu.Lock()
	m.fresh()
	if !m.held {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	ws := m.waiters
	m.waiters = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
	vsPoint("unlock")
}

type vsRWMutex struct {
	mu      sync.Mutex
	gen     int64
	w       bool
	r       int
	waiters []chan struct{}
}

func (m *vsRWMutex) fresh() {
	if m.gen != vsGen {
		m.gen, m.w, m.r, m.waiters = vsGen, false, 0, nil
	}
}
func (m *vsRWMutex) acquire(try func() bool) {
	vsPoint("lock")
	for {
		m.mu.Lock()
		m.fresh()
		if try() {
			m.mu.Unlock()
			return
		}
		w := make(chan struct{})
		m.waiters = append(m.waiters, w)
		m.mu.Unlock()
		<-w
		vsPoint("lock")
	}
}
func (m *vsRWMutex) release(f func()) {
	m.mu.Lock()
	m.fresh()
	f()
	ws := m.waiters
	m.waiters = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
	vsPoint("unlock")
}
func (m *vsRWMutex) Lock() {
	m.acquire(func() bool {
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		return true
	})
}
func (m *vsRWMutex) Unlock() { m.release(func() { m.w = false }) }
func (m *vsRWMutex) RLock() {
	m.acquire(func() bool {
		if m.w {
			return false
		}
		m.r++
		return true
	})
}
func (m *vsRWMutex) RUnlock() { m.release(func() { m.r-- }) }
func (m *vsRWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *vsRWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.fresh()
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *vsRWMutex) RLocker() sync.Locker { return vsRLocker{m} }

type vsRLocker struct{ m *vsRWMutex }

func (l vsRLocker) Lock()   { l.m.RLock() }
func (l vsRLocker) Unlock() { l.m.RUnlock() }

type vsOnce struct {
	m    vsMutex
	gen  int64
	done bool
}

func (o *vsOnce) Do(f func()) {
	if o.gen != vsGen {
		o.gen, o.done = vsGen, false
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// ---- math/rand ----

var vsDiceDraws int64
var vsDice func() float64 // outside of a controller, set by sequential harnesses

func vsDraw(n int64) (float64, bool) {
	if c := vsC; c != nil && c.dice != nil {
		vsDiceDraws++
		return c.dice("", n), true
	}
	if vsDice != nil {
		vsDiceDraws++
		return vsDice(), true
	}
	return 0, false
}

func vsRandFloat64() float64 {
	if u, ok := vsDraw(0); ok {
		return u
	}
	return rand.Float64()
}
func vsRandFloat32() float32 {
	if u, ok := vsDraw(0); ok {
		f := float32(u)
		if f >= 1 {
			f = 0.99999994
		}
		return f
	}
	return rand.Float32()
}
func vsScale(n int64) (int64, bool) {
	if u, ok := vsDraw(n); ok {
		return int64(u * float64(n)), true
	}
	return 0, false
}
func vsRandIntn(n int) int {
	if v, ok := vsScale(int64(n)); ok {
		return int(v)
	}
	return rand.Intn(n)
}
func vsRandIntN(n int) int { return vsRandIntn(n) }
func vsRandInt31n(n int32) int32 {
	if v, ok := vsScale(int64(n)); ok {
		return int32(v)
	}
	return rand.Int31n(n)
}
func vsRandInt32N(n int32) int32 { return vsRandInt31n(n) }
func vsRandInt63n(n int64) int64 {
	if v, ok := vsScale(n); ok {
		return v
	}
	return rand.Int63n(n)
}
func vsRandInt64N(n int64) int64 { return vsRandInt63n(n) }
func vsRandInt() int {
	if v, ok := vsScale(1 << 62); ok {
		return int(v) * 2
	}
	return rand.Int()
}
func vsRandInt31() int32 {
	if v, ok := vsScale(1 << 31); ok {
		return int32(v)
	}
	return rand.Int31()
}
func vsRandInt63() int64 { return int64(vsRandInt()) }
func vsRandUint32() uint32 {
	if v, ok := vsScale(1 << 32); ok {
		return uint32(v)
	}
	return rand.Uint32()
}
func vsRandUint64() uint64 { return uint64(vsRandInt()) << 1 }
func vsRandPerm(n int) []int {
	if vsC != nil || vsDice != nil {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	return rand.Perm(n)
}
func vsRandShuffle(n int, swap func(i, j int)) {
	if vsC == nil && vsDice == nil {
		rand.Shuffle(n, swap)
	}
}

// vsSeed, where set, is told about reseeding instead of the real generator
var vsSeed func(int64)

func vsRandSeed(s int64) {
	if vsSeed != nil {
		vsSeed(s)
		return
	}
	if vsC == nil && vsDice == nil {
		rand.Seed(s)
	}
}

// ---- controller ----

// vsRun runs the tasks concurrently inside the current bubble under the given schedule prefix.
// It must be called from the bubble's main goroutine. horizon is the virtual time after which
// unfinished work counts as hung.
func (c *vsCtl) run(horizon time.Duration, tasks ...func()) {
	vsGen++
	c.gen = vsGen
	c.threads = map[int64]*vsThread{}
	c.live = map[string]*vsThread{}
	c.notify = make(chan struct{}, 1)
	if c.maxSteps == 0 {
		c.maxSteps = 200000
	}
	c.start = time.Now()
	c.spent = c.bound == 0 && len(c.prefix) == 0
	main := &vsThread{id: "m", wake: make(chan struct{}, 1)}
	c.threads[vsGoid()] = main
	vsC = c
	defer func() { vsC = nil }()
	for i, f := range tasks {
		th := &vsThread{id: fmt.Sprintf("t%d", i), wake: make(chan struct{}, 1)}
		f := f
		go func() {
			defer func() { c.leave(th, recover()) }()
			c.enter(th, "task")
			f()
		}()
		c.mu.Lock()
		c.live[th.id] = th
		c.mu.Unlock()
	}
	deadline := time.NewTimer(horizon)
	defer deadline.Stop()
	for {
		synctest.Wait()
		c.mu.Lock()
		parked := append([]*vsThread(nil), c.parked...)
		nlive := len(c.live)
		c.mu.Unlock()
		if len(parked) == 0 {
			if nlive == 0 {
				// everything that was started has ended; let pending timers run out
			}
			select {
			case <-c.notify:
				continue
			case <-deadline.C:
				return
			}
		}
		sort.Slice(parked, func(i, j int) bool { return parked[i].id < parked[j].id })
		cost := make([]int, len(parked))
		for i, th := range parked {
			if th == c.last && i > 0 {
				copy(parked[1:i+1], parked[:i])
				parked[0] = th
			}
		}
		// every departure from the default costs 1: a preemption, or, where the last thread is
		// blocked, running another than the first enabled thread
		for i := range cost {
			if i > 0 {
				cost[i] = 1
			}
		}
		k := 0
		if len(parked) > 1 {
			what := ""
			if c.tracing {
				for _, th := range parked {
					what += th.id + "@" + th.loc + " "
				}
			}
			k = c.choose(what, cost)
		}
		th := parked[k]
		if c.tracing && th != c.last {
			c.trace = append(c.trace, fmt.Sprintf("+%v run %s at %s", time.Since(c.start), th.id, th.loc))
		}
		c.last = th
		c.steps++
		if c.steps > c.maxSteps {
			c.tooLong = true
			c.release()
			continue
		}
		c.mu.Lock()
		for i, p := range c.parked {
			if p == th {
				c.parked = append(c.parked[:i], c.parked[i+1:]...)
				break
			}
		}
		c.mu.Unlock()
		th.wake <- struct{}{}
	}
}

// release lets everything run uncontrolled (used when an execution exceeds its step bound)
func (c *vsCtl) release() {
	c.mu.Lock()
	c.freeRun = true
	ps := c.parked
	c.parked = nil
	c.mu.Unlock()
	for _, p := range ps {
		p.wake <- struct{}{}
	}
}

// liveIDs lists threads that have not ended
func (c *vsCtl) liveIDs() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var out []string
	for id, th := range c.live {
		out = append(out, id+"@"+th.loc)
	}
	sort.Strings(out)
	return out
}
