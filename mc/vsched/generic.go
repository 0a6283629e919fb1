package vsched

// The generic functions are instantiated (and race instrumented) in the calling package: they only pass
// values on.

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n ...int) chan T {
	c := 0
	if len(n) > 0 {
		c = n[0]
	}
	ch := make(chan T, c)
	registerChan(ptrOf(ch), ch, c, func() int { return len(ch) })
	return ch
}

// Send replaces ch <- v, as Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		t, r := lookup(ptrOf(ch))
		if t == nil || (r == nil && ch != nil) {
			ch <- v
			return
		}
		if ch == nil {
			block(t)
		}
		c := newCase(r, true, v)
		oneCase(t, c)
		if handed(c) {
			return
		}
		ch <- v // buffered with room, or closed
	}
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	t, r := lookup(ptrOf(ch))
	if t == nil || (r == nil && ch != nil) {
		v, ok = <-ch
		return
	}
	if ch == nil {
		block(t)
	}
	c := newCase(r, false, nil)
	oneCase(t, c)
	if handed(c) {
		if x := value(c); x != nil {
			v = x.(T)
		}
		return v, valueOk(c)
	}
	v, ok = <-ch // buffered with a value, or closed
	return
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	t, r := lookup(ptrOf(ch))
	if t != nil && r != nil {
		markClosed(t, r)
	}
	close(ch)
}

// A Case of a select statement.
type Case interface {
	raw(t *thread) *rawCase
	perform()
}

// SelRecv is a receive case.
type SelRecv[T any] struct {
	ch <-chan T
	c  *rawCase
	V  T
	Ok bool
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *SelRecv[T] { return &SelRecv[T]{ch: ch} }

func (s *SelRecv[T]) raw(t *thread) *rawCase {
	_, r := lookup(ptrOf(s.ch))
	s.c = newCase(r, false, nil)
	return s.c
}

func (s *SelRecv[T]) perform() {
	if handed(s.c) {
		if x := value(s.c); x != nil {
			s.V = x.(T)
		}
		s.Ok = valueOk(s.c)
		return
	}
	s.V, s.Ok = <-s.ch
}

// SelSend is a send case.
type SelSend[T any] struct {
	ch chan<- T
	v  T
	c  *rawCase
}

// SendCase makes a send case, as SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) *SelSend[T] {
	return func(v T) *SelSend[T] { return &SelSend[T]{ch: ch, v: v} }
}

func (s *SelSend[T]) raw(t *thread) *rawCase {
	_, r := lookup(ptrOf(s.ch))
	s.c = newCase(r, true, s.v)
	return s.c
}

func (s *SelSend[T]) perform() {
	if handed(s.c) {
		return
	}
	s.ch <- s.v
}

// Select replaces a select statement: it returns the index of the case performed, -1 for default.
func Select(deflt bool, cases ...Case) int {
	t := me()
	if t == nil {
		panic("vsched: select outside the exploration")
	}
	raws := make([]*rawCase, len(cases))
	for i, c := range cases {
		raws[i] = c.raw(t)
	}
	k := selectCases(t, raws, deflt)
	if k >= 0 {
		cases[k].perform()
	}
	return k
}

// Ranger iterates over a channel.
type Ranger[T any] struct{ ch <-chan T }

// Range2 begins for v := range ch.
func Range2[T any](ch <-chan T) (*Ranger[T], T) {
	var v T
	return &Ranger[T]{ch}, v
}

// Range1 begins for v = range ch and for range ch.
func Range1[T any](ch <-chan T) *Ranger[T] { return &Ranger[T]{ch} }

// Next receives the next value.
func (r *Ranger[T]) Next(p *T) bool {
	v, ok := Recv2(r.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}
