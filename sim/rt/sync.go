package rt

import (
	"sort"
	"unsafe"
)

// Mutex is the simulated sync.Mutex. A waiter that lost the race for it once is
// handed the lock by the next Unlock (Go's starvation mode).
type Mutex struct {
	locked bool
	q      []*mwait
}

type mwait struct {
	g      *G
	lost   bool
	handed bool
}

func (m *Mutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		m.locked = true
		return
	}
	if s.cur.killed {
		s.progress()
	}
	if !m.locked {
		m.locked = true
		return
	}
	w := &mwait{g: s.cur}
	for {
		if w.lost {
			m.q = append([]*mwait{w}, m.q...)
		} else {
			m.q = append(m.q, w)
		}
		s.block("mutex lock")
		if w.handed {
			return
		}
		if !m.locked {
			m.locked = true
			return
		}
		w.lost = true
	}
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.cur == nil {
		m.locked = false
		return
	}
	if s.cur.killed {
		m.locked = false
		return
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	for len(m.q) > 0 {
		w := m.q[0]
		m.q = m.q[1:]
		if w.g.state != gBlocked {
			continue
		}
		if w.lost {
			w.handed, m.locked = true, true
		}
		s.ready(w.g)
		return
	}
}

// RWMutex is the simulated sync.RWMutex: a waiting writer holds off new readers,
// an unlocking writer lets all waiting readers in first.
type RWMutex struct {
	w       bool
	readers int
	rq, wq  []*mwait
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil || s.cur == nil {
		m.readers++
		return
	}
	if s.cur.killed {
		s.progress()
	}
	if !m.w && len(m.wq) == 0 {
		m.readers++
		return
	}
	m.rq = append(m.rq, &mwait{g: s.cur})
	s.block("rwmutex rlock") // the lock is ours when we are woken
}

func (m *RWMutex) wakeWriter(s *Sim) bool {
	for len(m.wq) > 0 {
		w := m.wq[0]
		m.wq = m.wq[1:]
		if w.g.state == gBlocked {
			m.w = true
			s.ready(w.g)
			return true
		}
	}
	return false
}

func (m *RWMutex) wakeReaders(s *Sim) bool {
	q := m.rq
	m.rq = nil
	any := false
	for _, w := range q {
		if w.g.state == gBlocked {
			m.readers++
			any = true
			s.ready(w.g)
		}
	}
	return any
}

func (m *RWMutex) TryRLock() bool {
	if m.w || len(m.wq) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s != nil && s.cur != nil && s.cur.killed {
		return
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && s != nil {
		m.wakeWriter(s)
	}
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		m.w = true
		return
	}
	if s.cur.killed {
		s.progress()
	}
	if !m.w && m.readers == 0 && len(m.wq) == 0 {
		m.w = true
		return
	}
	m.wq = append(m.wq, &mwait{g: s.cur})
	s.block("rwmutex lock") // the lock is ours when we are woken
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s != nil && s.cur != nil && s.cur.killed {
		return
	}
	if !m.w {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if s != nil && !m.wakeReaders(s) {
		m.wakeWriter(s)
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	q WaitQ
}

func (wg *WaitGroup) Add(d int) {
	s := S
	if s != nil && s.cur != nil && s.cur.killed {
		return
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 && s != nil {
		wg.q.WakeAll(s)
	}
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	s := S
	for wg.n > 0 {
		wg.q.Wait(s, "waitgroup wait")
	}
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go("waitgroup.Go", func() {
		defer wg.Done()
		f()
	})
}

// Once is the simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond is the simulated sync.Cond.
type Cond struct {
	L Locker
	q WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := S
	s.progress()
	c.q.gs = append(c.q.gs, s.cur)
	c.L.Unlock()
	// Unlock does not switch, so nobody can have signalled before we park
	s.block("cond wait")
	c.L.Lock()
}
func (c *Cond) Signal()    { S.progress(); c.q.WakeOne(S) }
func (c *Cond) Broadcast() { S.progress(); c.q.WakeAll(S) }

// Map is the simulated sync.Map (iteration order is insertion order).
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) { o, ok := m.m[k]; m.Store(k, v); return o, ok }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if x, ok := m.m[k]; ok && x == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }

// Pool is the simulated sync.Pool.
type Pool struct {
	New func() any
	xs  []any
}

func (p *Pool) Get() any {
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.xs = append(p.xs, x)
	}
}

// MapKeys gives the keys of a map in an order the simulation decides: sorted,
// then rotated by a scheduler draw (Go's order is unspecified).
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	MapR(m)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return lessAny(any(ks[i]), any(ks[j])) })
	if S != nil && S.cur != nil {
		if r := S.Sched.N(len(ks)); r > 0 {
			ks = append(append(make([]K, 0, len(ks)), ks[r:]...), ks[:r]...)
		}
	}
	return ks
}

// Go's maps notice tasks that use a map while another one changes it and end the
// process. A write takes a moment here: others that run in between and use the map
// are caught, just as they would be when running in parallel.

// MapW is m, which is about to be changed.
func MapW[M ~map[K]V, K comparable, V any](site int32, m M) M {
	if s := S; s != nil && s.cur != nil && m != nil {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
		if s.mapw[p] != nil {
			Fatal("concurrent map writes")
		}
		if g := s.cur; g.budget <= 1 { // only then others may run
			s.mapw[p] = g
			defer delete(s.mapw, p)
		}
		Y(site)
	}
	return m
}

// MapR is m, which is about to be read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && len(s.mapw) > 0 && m != nil && s.cur != nil {
		if s.mapw[*(*unsafe.Pointer)(unsafe.Pointer(&m))] != nil {
			Fatal("concurrent map read and map write")
		}
	}
	return m
}

// KeyOf is k, which is becoming a map key. Pointers are numbered then, to have an order.
func KeyOf[K comparable](k K) K {
	if s := S; s != nil && s.cur != nil {
		if _, ok := s.ptrs[k]; !ok {
			s.ptrs[k] = len(s.ptrs)
		}
	}
	return k
}

// MapVal is the zero value of a map's element (declares loop variables).
func MapVal[M ~map[K]V, K comparable, V any](M) (v V) { return }
func MapKey[M ~map[K]V, K comparable, V any](M) (k K) { return }

// ResetVar zeroes a package variable between runs.
func ResetVar[T any](p *T) { var z T; *p = z }
