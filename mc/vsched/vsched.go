// Package vsched is a controlled scheduler. Code rewritten by /verif/rewrite calls it for every goroutine
// start, lock, wait group, channel and atomic operation; exactly one controlled goroutine runs at a time and
// every scheduling decision is taken here, so that all schedules up to a preemption bound can be enumerated.
//
// The package is compiled without race instrumentation and hands control over inside RaceDisable sections,
// so the race detector sees only the happens-before edges of the program's own synchronisation.
// No maps and no fmt are used on the scheduling path (both would create events visible to the detector).
package vsched

import (
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
	"unsafe"
)

type kind int

const (
	kRun     kind = iota // always enabled
	kLock                // wants mu
	kRLock               // wants mu for reading
	kWait                // waits for wg
	kChan                // pending cases
	kCond                // waits for a signal
	kMatched             // its channel operation was completed by a partner
	kDead
)

type thread struct {
	id      int
	ch      chan struct{}
	kind    kind
	mu      *RWMutex
	wg      *WaitGroup
	cases   []*rawCase
	deflt   bool
	matched int // index of the completed case
	cond    *Cond
	gid     uint64
	where   string
}

// Decision is one scheduling decision.
type Decision struct {
	Options   []int // thread ids, the default one first
	Cost      []int // preemptions each option costs
	Chosen    int   // index in Options
	Cumul     int   // preemptions before this decision
	IsSelect  bool
	CurThread int
}

// Exec is the record of one execution.
type Exec struct {
	Decisions []Decision
	Deadlock  string // "" or a description of the blocked threads
	Leaked    string // threads still blocked after the body returned
	Panics    []string
	Misuse    string
	Spawned   int
	Steps     int
	Truncated bool
	bodyDone  bool
	threads   []*thread
	cur       *thread
	prefix    []int
	cumul     int
	chans     []*chanRec
	done      chan struct{}
	cpus      int
	checkG    bool
	stopped   bool
	maxSteps  int
	sync      byte
}

var active *Exec

// goid returns the id of the calling goroutine.
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var v uint64
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		v = v*10 + uint64(b[i]-'0')
	}
	return v
}

// me returns the controlled thread that is calling, nil for goroutines outside the exploration.
//
//go:noinline
func me() *thread {
	e := active
	if e == nil || e.stopped {
		return nil
	}
	t := e.cur
	if t == nil {
		return nil
	}
	if e.checkG && t.gid != goid() {
		return nil
	}
	return t
}

// Cpus is what runtime.NumCPU and runtime.GOMAXPROCS return to the rewritten code.
func Cpus() int {
	if e := active; e != nil {
		return e.cpus
	}
	return runtime.NumCPU()
}

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return Cpus() }

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return Cpus() }

// Run executes body as thread 0 following prefix, then the default policy (keep running the current thread).
func Run(cpus int, checkG bool, maxSteps int, prefix []int, body func()) *Exec {
	e := &Exec{prefix: prefix, cpus: cpus, checkG: checkG, done: make(chan struct{}, 1), maxSteps: maxSteps}
	t := e.newThread()
	active = e
	e.cur = t
	go e.runThread(t, body, true)
	raceDisable()
	t.ch <- struct{}{}
	<-e.done
	raceEnable()
	raceAcquire(unsafe.Pointer(&e.sync))
	e.stopped = true
	active = nil
	return e
}

func (e *Exec) newThread() *thread {
	t := &thread{id: len(e.threads), ch: make(chan struct{}, 1), kind: kRun}
	e.threads = append(e.threads, t)
	return t
}

func (e *Exec) runThread(t *thread, f func(), body bool) {
	raceDisable()
	<-t.ch
	raceEnable()
	if e.checkG {
		t.gid = goid()
	}
	defer func() {
		if r := recover(); r != nil {
			e.Panics = append(e.Panics, "thread "+strconv.Itoa(t.id)+": "+errString(r)+"\n"+string(debug.Stack()))
			if body {
				e.bodyDone = true
			}
		}
		t.kind = kDead
		if body && !e.bodyDone { // Goexit
			e.bodyDone = true
		}
		e.next(t)
	}()
	f()
	if body {
		e.bodyDone = true
		raceReleaseMerge(unsafe.Pointer(&e.sync))
	}
}

func errString(r interface{}) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return "panic value of another type"
}

func (t *thread) enabled(e *Exec) bool {
	switch t.kind {
	case kRun, kMatched:
		return true
	case kLock:
		return !t.mu.w && t.mu.r == 0
	case kRLock:
		return !t.mu.w
	case kWait:
		return t.wg.n <= 0
	case kChan:
		if t.deflt {
			return true
		}
		for _, c := range t.cases {
			if c.ready(e, t) {
				return true
			}
		}
	}
	return false
}

func (e *Exec) describe() string {
	s := ""
	for _, t := range e.threads {
		if t.kind == kDead {
			continue
		}
		w := ""
		switch t.kind {
		case kLock, kRLock:
			w = "waits for a lock"
		case kWait:
			w = "waits for a wait group with count " + strconv.Itoa(t.wg.n)
		case kChan:
			w = "waits for a channel operation"
		case kCond:
			w = "waits for a condition"
		}
		s += "thread " + strconv.Itoa(t.id) + " " + w + "; "
	}
	return s
}

// next picks the thread to run after cur reached a scheduling point (or died) and hands control to it.
func (e *Exec) next(cur *thread) {
	e.Steps++
	var opts [256]int
	var cost [256]int
	n := 0
	curEn := cur.kind != kDead && cur.enabled(e)
	if curEn {
		opts[n] = cur.id
		n++
	}
	for _, t := range e.threads {
		if t != cur && t.kind != kDead && n < len(opts) && t.enabled(e) {
			opts[n] = t.id
			if curEn {
				cost[n] = 1
			}
			n++
		}
	}
	if n == 0 || e.Steps > e.maxSteps {
		alive := false
		for _, t := range e.threads {
			if t.kind != kDead {
				alive = true
			}
		}
		if e.Steps > e.maxSteps {
			e.Truncated = true
		} else if alive && e.bodyDone {
			e.Leaked = e.describe()
		} else if alive {
			e.Deadlock = e.describe()
		}
		e.stopped = true
		raceDisable()
		e.done <- struct{}{}
		raceEnable()
		if cur.kind != kDead {
			raceDisable()
			select {} // this execution is over
		}
		return
	}
	ch := e.decide(opts[:n], cost[:n], false, cur.id)
	t := e.threads[opts[ch]]
	if t == cur {
		return
	}
	e.cur = t
	dead := cur.kind == kDead
	raceDisable()
	t.ch <- struct{}{}
	if !dead {
		<-cur.ch
	}
	raceEnable()
}

func (e *Exec) decide(opts, cost []int, sel bool, cur int) int {
	if len(opts) == 1 {
		return 0
	}
	i := len(e.Decisions)
	ch := 0
	if i < len(e.prefix) {
		ch = e.prefix[i]
		if ch >= len(opts) {
			ch = 0
			e.Misuse = "the execution is not reproducible: decision " + strconv.Itoa(i) + " has fewer options than before"
		}
	}
	d := Decision{Chosen: ch, Cumul: e.cumul, IsSelect: sel, CurThread: cur}
	d.Options = make([]int, len(opts))
	d.Cost = make([]int, len(opts))
	for k := range opts {
		d.Options[k] = opts[k]
		d.Cost[k] = cost[k]
	}
	e.cumul += cost[ch]
	e.Decisions = append(e.Decisions, d)
	return ch
}

// point is a scheduling point of thread t, whose pending operation is described by t.kind.
func (t *thread) point() { active.next(t) }

// Point is an explicit scheduling point.
func Point() {
	if t := me(); t != nil {
		t.kind = kRun
		t.point()
	}
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if t := me(); t != nil {
		t.kind = kRun
		t.point()
		return
	}
	time.Sleep(d)
}

// Go replaces the go statement.
func Go(f func()) {
	t := me()
	if t == nil {
		go f()
		return
	}
	e := active
	n := e.newThread()
	e.Spawned++
	go e.runThread(n, f, false)
}

// ---- locks

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	real realRW
	w    bool
	r    int
}

// Lock ...
func (m *RWMutex) Lock() {
	if t := me(); t != nil {
		t.kind, t.mu = kLock, m
		t.point()
		t.kind = kRun
		m.w = true
	}
	m.real.Lock()
}

// TryLock ...
func (m *RWMutex) TryLock() bool {
	if t := me(); t != nil {
		t.kind = kRun
		t.point()
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		m.real.Lock()
		return true
	}
	return m.real.TryLock()
}

// Unlock ...
func (m *RWMutex) Unlock() {
	if t := me(); t != nil {
		if !m.w {
			panic("unlock of a mutex that is not locked")
		}
		m.w = false
		m.real.Unlock()
		return
	}
	m.real.Unlock()
}

// RLock ...
func (m *RWMutex) RLock() {
	if t := me(); t != nil {
		t.kind, t.mu = kRLock, m
		t.point()
		t.kind = kRun
		m.r++
	}
	m.real.RLock()
}

// RUnlock ...
func (m *RWMutex) RUnlock() {
	if t := me(); t != nil {
		if m.r <= 0 {
			panic("read unlock of a mutex that is not read locked")
		}
		m.r--
		m.real.RUnlock()
		return
	}
	m.real.RUnlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct{ rw RWMutex }

// Lock ...
func (m *Mutex) Lock() { m.rw.Lock() }

// Unlock ...
func (m *Mutex) Unlock() { m.rw.Unlock() }

// TryLock ...
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do ...
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Locker replaces sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	real *realCond
	sync byte
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: newRealCond(l)} }

// Wait ...
func (c *Cond) Wait() {
	t := me()
	if t == nil {
		c.real.Wait()
		return
	}
	t.kind, t.cond = kCond, c
	// releasing the lock must not schedule this thread as runnable: it waits for a signal
	switch l := c.L.(type) {
	case *Mutex:
		l.rw.w = false
		l.rw.real.Unlock()
	case *RWMutex:
		l.w = false
		l.real.Unlock()
	}
	t.point()
	raceAcquire(unsafe.Pointer(&c.sync))
	c.L.Lock()
}

func (c *Cond) wake(all bool) {
	e := active
	raceReleaseMerge(unsafe.Pointer(&c.sync))
	for _, u := range e.threads {
		if u.kind == kCond && u.cond == c {
			u.kind = kRun
			if !all {
				return
			}
		}
	}
}

// Signal ...
func (c *Cond) Signal() {
	if t := me(); t != nil {
		c.wake(false)
		t.kind = kRun
		t.point()
		return
	}
	c.real.Signal()
}

// Broadcast ...
func (c *Cond) Broadcast() {
	if t := me(); t != nil {
		c.wake(true)
		t.kind = kRun
		t.point()
		return
	}
	c.real.Broadcast()
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real realWG
	n    int
}

// Add ...
func (w *WaitGroup) Add(d int) {
	if t := me(); t != nil {
		w.n += d
		w.real.Add(d)
		if d < 0 {
			t.kind = kRun
			t.point()
		}
		return
	}
	w.n += d
	w.real.Add(d)
}

// Done ...
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait ...
func (w *WaitGroup) Wait() {
	if t := me(); t != nil {
		t.kind, t.wg = kWait, w
		t.point()
		t.kind = kRun
	}
	w.real.Wait()
}

// Go ...
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Counters are plain memory outside the race detector's view: they count events without ordering the threads
// that count them. Only meaningful under controlled schedules.
type Counters struct {
	keys [128]string
	n    [128]int
	used int
}

// Count adds one to the counter.
//
//go:noinline
func (c *Counters) Count(k string) {
	if active == nil {
		return
	}
	for i := 0; i < c.used; i++ {
		if c.keys[i] == k {
			c.n[i]++
			return
		}
	}
	if c.used < len(c.keys) {
		c.keys[c.used], c.n[c.used] = k, 1
		c.used++
	}
}

// Get returns the counts.
//
//go:noinline
func (c *Counters) Get() map[string]int {
	m := map[string]int{}
	for i := 0; i < c.used; i++ {
		m[c.keys[i]] = c.n[i]
	}
	return m
}
