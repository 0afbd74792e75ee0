package rt

// Chan is the simulated counterpart of a Go channel.
type Chan[T any] struct {
	buf    []T
	n      int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

type selector struct {
	fired bool
	idx   int
}

type waiter[T any] struct {
	g    *G
	val  T
	ok   bool
	sel  *selector
	idx  int
	done bool
}

func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.n = n[0]
	}
	return c
}

// MakeChan64 accepts any integer-typed size expression.
func MakeChanN[T any, I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n I) *Chan[T] {
	return MakeChan[T](int(n))
}

func popLive[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.g.state == gDead || w.g.killed {
			continue
		}
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func hasLive[T any](q []*waiter[T], self *selector) bool {
	for _, w := range q {
		if w.g.state == gDead || w.g.killed {
			continue
		}
		if w.sel != nil && (w.sel.fired || w.sel == self) {
			continue
		}
		return true
	}
	return false
}

// trySend completes a send without blocking if it can.
func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popLive(&c.recvq); w != nil {
		w.val, w.ok, w.done = v, true, true
		S.ready(w.g)
		return true
	}
	if len(c.buf) < c.n {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.done = true
			S.ready(w.g)
		}
		return v, true, true
	}
	if w := popLive(&c.sendq); w != nil {
		w.done = true
		S.ready(w.g)
		return w.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

func (c *Chan[T]) Send(v T) {
	s := S
	s.progress()
	if c == nil {
		s.block("send on nil channel")
	}
	if c.trySend(v) {
		return
	}
	w := &waiter[T]{g: s.cur, val: v}
	c.sendq = append(c.sendq, w)
	s.block("chan send")
	if !w.done {
		panic("send on closed channel")
	}
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Recv2() (T, bool) {
	s := S
	s.progress()
	if c == nil {
		s.block("receive from nil channel")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	w := &waiter[T]{g: s.cur}
	c.recvq = append(c.recvq, w)
	s.block("chan receive")
	return w.val, w.ok
}

func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	if S != nil && S.cur != nil {
		S.progress()
	}
	c.closed = true
	for {
		w := popLive(&c.recvq)
		if w == nil {
			break
		}
		w.done = true
		S.ready(w.g)
	}
	for {
		w := popLive(&c.sendq)
		if w == nil {
			break
		}
		S.ready(w.g) // its send panics
	}
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.n
}

// Zero returns T's zero value (used by translated select statements).
func (c *Chan[T]) Zero() (z T) { return }

// SelCase is one case of a select.
type SelCase interface {
	ready(*selector) bool
	fire()
	enq(*selector, int)
	fin(*selector)
	unlink(*selector)
}

type recvCase[T any] struct {
	c  *Chan[T]
	v  *T
	ok *bool
	w  *waiter[T]
}

func CaseRecv[T any](c *Chan[T], v *T, ok *bool) SelCase { return &recvCase[T]{c: c, v: v, ok: ok} }

func (r *recvCase[T]) ready(sel *selector) bool {
	return r.c != nil && (len(r.c.buf) > 0 || r.c.closed || hasLive(r.c.sendq, sel))
}
func (r *recvCase[T]) fire() { v, ok, _ := r.c.tryRecv(); *r.v, *r.ok = v, ok }
func (r *recvCase[T]) enq(s *selector, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{g: S.cur, sel: s, idx: i}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *recvCase[T]) fin(*selector) { *r.v, *r.ok = r.w.val, r.w.ok }
func (r *recvCase[T]) unlink(*selector) {
	if r.c != nil {
		unlinkW(&r.c.recvq, r.w)
	}
}

type sendCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

func CaseSend[T any](c *Chan[T], v T) SelCase { return &sendCase[T]{c: c, v: v} }

// SendCase builds a send case with the value converted to the element type.
func (c *Chan[T]) SendCase(v T) SelCase { return &sendCase[T]{c: c, v: v} }

func (r *sendCase[T]) ready(sel *selector) bool {
	return r.c != nil && (r.c.closed || len(r.c.buf) < r.c.n || hasLive(r.c.recvq, sel))
}
func (r *sendCase[T]) fire() { r.c.trySend(r.v) }
func (r *sendCase[T]) enq(s *selector, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{g: S.cur, sel: s, idx: i, val: r.v}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *sendCase[T]) fin(*selector) {
	if !r.w.done {
		panic("send on closed channel")
	}
}
func (r *sendCase[T]) unlink(*selector) {
	if r.c != nil {
		unlinkW(&r.c.sendq, r.w)
	}
}

func unlinkW[T any](q *[]*waiter[T], w *waiter[T]) {
	for i, x := range *q {
		if x == w {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

// Select runs a select statement: the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if !hasDefault {
		s.progress()
	} else if s.cur.killed {
		s.progress()
	}
	var rd []int
	for i, c := range cases {
		if c.ready(nil) {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		s.progress()
		i := rd[s.Sched.N(len(rd))]
		cases[i].fire()
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selector{idx: -1}
	for i, c := range cases {
		c.enq(sel, i)
	}
	s.block("select")
	for _, c := range cases {
		c.unlink(sel)
	}
	cases[sel.idx].fin(sel)
	return sel.idx
}
