// Package ssync replaces package sync in instrumented code: every operation is a scheduling point and
// blocking is under the simulator's control.
package ssync

import (
	"sort"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ l bool }

func (m *Mutex) Lock() {
	simrt.YIO()
	for m.l {
		if simrt.Unwinding() {
			return
		}
		simrt.Block(m)
	}
	m.l = true
	simrt.Hold(m, m.release)
}

func (m *Mutex) TryLock() bool {
	simrt.YIO()
	if m.l {
		return false
	}
	m.l = true
	simrt.Hold(m, m.release)
	return true
}

func (m *Mutex) release() { m.l = false; simrt.Wake(m) }

func (m *Mutex) Unlock() {
	if !m.l {
		if simrt.Unwinding() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Unhold(m)
	m.release()
	simrt.YIO()
}

type rkey struct {
	m *RWMutex
	n int
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	w    bool
	r    int
	want int
	rel  int // readers released by task death
}

func (m *RWMutex) Lock() {
	simrt.YIO()
	m.want++
	for m.w || m.r > 0 {
		if simrt.Unwinding() {
			m.want--
			return
		}
		func() {
			ok := false
			defer func() {
				if !ok {
					m.want--
					simrt.Wake(m)
				}
			}()
			simrt.Block(m)
			ok = true
		}()
	}
	m.want--
	m.w = true
	simrt.Hold(m, m.releaseW)
}

func (m *RWMutex) releaseW() { m.w = false; simrt.Wake(m) }

func (m *RWMutex) TryLock() bool {
	simrt.YIO()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.Hold(m, m.releaseW)
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if simrt.Unwinding() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Unhold(m)
	m.releaseW()
	simrt.YIO()
}

func (m *RWMutex) RLock() {
	simrt.YIO()
	for m.w || m.want > 0 {
		if simrt.Unwinding() {
			return
		}
		simrt.Block(m)
	}
	m.r++
	m.holdR()
}

func (m *RWMutex) holdR() {
	simrt.HoldCount(m, func() {
		if m.r > 0 {
			m.r--
		}
		simrt.Wake(m)
	})
}

func (m *RWMutex) TryRLock() bool {
	simrt.YIO()
	if m.w || m.want > 0 {
		return false
	}
	m.r++
	m.holdR()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		if simrt.Unwinding() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.UnholdCount(m)
	m.r--
	simrt.Wake(m)
	simrt.YIO()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.YIO()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is sync.Pool: which of the free items Get returns, and whether it returns one at all, is decided
// by the simulator.
type Pool struct {
	New   func() any
	items []any
	run   any
}

func (p *Pool) Get() any {
	simrt.YIO()
	if r := simrt.RunToken(); p.run != r {
		p.run, p.items = r, nil
	}
	if n := len(p.items); n > 0 {
		k := simrt.ChooseN(n + 1)
		if k == n {
			k = n - 1
		}
		x := p.items[k]
		p.items = append(p.items[:k:k], p.items[k+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.YIO()
	if r := simrt.RunToken(); p.run != r {
		p.run, p.items = r, nil
	}
	if simrt.ChooseN(16) == 15 {
		return
	}
	p.items = append(p.items, x)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	simrt.YIO()
	w.n += d
	if w.n < 0 {
		if simrt.Unwinding() {
			w.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.YIO()
	for w.n > 0 {
		if simrt.Unwinding() {
			return
		}
		simrt.Block(w)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.GoCall(func() { defer w.Done(); f() })
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	q    []*int
	tick int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	k := new(int)
	c.q = append(c.q, k)
	c.L.Unlock()
	for *k == 0 {
		if simrt.Unwinding() {
			return
		}
		simrt.Block(k)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.YIO()
	if len(c.q) > 0 {
		i := simrt.ChooseN(len(c.q))
		k := c.q[i]
		c.q = append(c.q[:i:i], c.q[i+1:]...)
		*k = 1
		simrt.Wake(k)
	}
}

func (c *Cond) Broadcast() {
	simrt.YIO()
	for _, k := range c.q {
		*k = 1
		simrt.Wake(k)
	}
	c.q = nil
}

// Map is sync.Map.
type Map struct {
	m map[any]any
	k map[any]int
	n int
}

func (m *Map) init() {
	if m.m == nil {
		m.m, m.k = map[any]any{}, map[any]int{}
	}
}

func (m *Map) set(k, v any) {
	m.init()
	if _, ok := m.m[k]; !ok {
		m.n++
		m.k[k] = m.n
	}
	m.m[k] = v
}

func (m *Map) Load(k any) (any, bool) { simrt.YIO(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { simrt.YIO(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.YIO()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.YIO()
	v, ok := m.m[k]
	delete(m.m, k)
	delete(m.k, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.YIO()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.YIO()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.YIO()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		delete(m.k, k)
		return true
	}
	return false
}
func (m *Map) Clear() { simrt.YIO(); m.m, m.k = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.YIO()
	var ks []any
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m.k[ks[i]] < m.k[ks[j]] })
	for len(ks) > 0 {
		i := simrt.ChooseN(len(ks))
		k := ks[i]
		ks = append(ks[:i:i], ks[i+1:]...)
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		simrt.YIO()
	}
}
