package vsched

import (
	"reflect"
	"unsafe"
)

// chanRec is the model of one channel created by rewritten code.
type chanRec struct {
	ptr    unsafe.Pointer
	keep   interface{}
	cap    int
	closed bool
	length func() int // of the real channel (buffered channels)
	sync   byte
}

// rawCase is one channel operation (or one case of a select).
type rawCase struct {
	ch     *chanRec
	isNil  bool
	send   bool
	val    interface{} // value to send, or received by hand-over
	ok     bool
	handed bool // completed by hand-over of an unbuffered channel
	sync   byte
	peer   *rawCase
}

func (e *Exec) chanOf(p unsafe.Pointer) *chanRec {
	for i := len(e.chans) - 1; i >= 0; i-- {
		if e.chans[i].ptr == p {
			return e.chans[i]
		}
	}
	return nil
}

// ready tells whether thread t could complete case c now.
func (c *rawCase) ready(e *Exec, t *thread) bool {
	if c.isNil {
		return false
	}
	if c.ch.closed {
		return true
	}
	if c.ch.cap > 0 {
		if c.send {
			return c.ch.length() < c.ch.cap
		}
		return c.ch.length() > 0
	}
	_, _, ok := c.partner(e, t)
	return ok
}

func (c *rawCase) partner(e *Exec, t *thread) (*thread, int, bool) {
	for _, u := range e.threads {
		if u == t || u.kind != kChan || u.deflt {
			continue
		}
		for i, d := range u.cases {
			if !d.isNil && d.ch == c.ch && d.send != c.send {
				return u, i, true
			}
		}
	}
	return nil, 0, false
}

// doCases performs a select over cases; it returns the index of the case to perform, -1 for the default.
// handed reports that the operation is already complete (unbuffered hand-over).
func doCases(t *thread, cases []*rawCase, deflt bool) (idx int) {
	e := active
	for _, c := range cases {
		raceRelease(unsafe.Pointer(&c.sync))
	}
	t.kind, t.cases, t.deflt = kChan, cases, deflt
	t.point()
	if t.kind == kMatched {
		t.kind = kRun
		raceAcquire(unsafe.Pointer(&cases[t.matched].peer.sync))
		return t.matched
	}
	var ids [64]int
	var cost [64]int
	n := 0
	for i, c := range cases {
		if c.ready(e, t) && n < len(ids) {
			ids[n] = i
			n++
		}
	}
	t.kind = kRun
	if n == 0 {
		return -1
	}
	k := ids[e.decide(ids[:n], cost[:n], true, t.id)]
	c := cases[k]
	if c.ch.closed || c.ch.cap > 0 {
		return k // performed on the real channel by the caller
	}
	u, i, ok := c.partner(e, t)
	if !ok {
		return k
	}
	d := u.cases[i]
	if c.send {
		d.val, d.ok = c.val, true
	} else {
		c.val, c.ok = d.val, true
	}
	c.handed, d.handed = true, true
	d.peer = c
	u.kind, u.matched = kMatched, i
	raceAcquire(unsafe.Pointer(&d.sync))
	return k
}

//go:noinline
func ptrOf(ch interface{}) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

//go:noinline
func registerChan(p unsafe.Pointer, keep interface{}, capacity int, length func() int) {
	if t := me(); t != nil {
		e := active
		e.chans = append(e.chans, &chanRec{ptr: p, keep: keep, cap: capacity, length: length})
	}
}

// lookup returns the model of the channel, nil when the caller or the channel is outside the exploration.
//
//go:noinline
func lookup(p unsafe.Pointer) (*thread, *chanRec) {
	t := me()
	if t == nil || p == nil {
		return t, nil
	}
	return t, active.chanOf(p)
}

//go:noinline
func newCase(r *chanRec, send bool, v interface{}) *rawCase {
	return &rawCase{ch: r, isNil: r == nil, send: send, val: v}
}

//go:noinline
func oneCase(t *thread, c *rawCase) {
	doCases(t, []*rawCase{c}, false)
}

//go:noinline
func markClosed(t *thread, r *chanRec) {
	t.kind = kRun
	t.point()
	r.closed = true
}

//go:noinline
func block(t *thread) {
	c := &rawCase{isNil: true}
	doCases(t, []*rawCase{c}, false)
}

//go:noinline
func handed(c *rawCase) bool { return c.handed }

//go:noinline
func value(c *rawCase) interface{} { return c.val }

//go:noinline
func valueOk(c *rawCase) bool { return c.ok }

//go:noinline
func selectCases(t *thread, cs []*rawCase, d bool) int { return doCases(t, cs, d) }
