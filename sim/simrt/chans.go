package simrt

import (
	"reflect"
	"runtime"
)

// Channels stay real Go channels, but no task ever blocks in one: an operation that cannot proceed parks the
// task, and before every scheduling decision the operations of parked tasks are tried again, in the order of
// the tasks. Operations on a channel without a buffer are paired with those of parked tasks.

// Case is one communication of a select statement.
type Case interface {
	try() bool
	peer() (ch uintptr, send, unbuffered bool)
	value() any
	give(any)
	failure() any
}

// RC is a receive operation and its result.
type RC[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// RCase is a receive operation on c.
func RCase[T any](c <-chan T) *RC[T] { return &RC[T]{c: c} }

func (r *RC[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

func (r *RC[T]) peer() (uintptr, bool, bool) {
	return reflect.ValueOf(r.c).Pointer(), false, cap(r.c) == 0
}
func (r *RC[T]) value() any   { return nil }
func (r *RC[T]) give(v any)   { r.V, _ = v.(T); r.OK = true }
func (r *RC[T]) failure() any { return nil }

// SC is a send operation.
type SC[T any] struct {
	c chan<- T
	v T
	p any
}

// SB is a channel that is about to be sent to.
type SB[T any] struct{ c chan<- T }

// SChan starts a send operation on c.
func SChan[T any](c chan<- T) SB[T] { return SB[T]{c} }

// To completes it.
func (b SB[T]) To(v T) *SC[T] { return &SC[T]{c: b.c, v: v} }

// Send sends v.
func (b SB[T]) Send(v T) { Select(false, b.To(v)) }

func (s *SC[T]) try() (ok bool) {
	defer func() {
		if r := recover(); r != nil { // closed
			s.p, ok = r, true
		}
	}()
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}

func (s *SC[T]) peer() (uintptr, bool, bool) {
	return reflect.ValueOf(s.c).Pointer(), true, cap(s.c) == 0
}
func (s *SC[T]) value() any   { return s.v }
func (s *SC[T]) give(any)     {}
func (s *SC[T]) failure() any { return s.p }

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	r := RCase(c)
	Select(false, r)
	return r.V
}

// Recv2 receives from a channel.
func Recv2[T any](c <-chan T) (T, bool) {
	r := RCase(c)
	Select(false, r)
	return r.V, r.OK
}

// poll performs one of the operations t waits for, if it can proceed.
func poll(t *Task, cases []Case) bool {
	n := len(cases)
	if n == 0 {
		return false
	}
	first := int(uint64(t.forced*7+int64(t.ID)*13+t.steps) % uint64(n))
	for k := 0; k < n; k++ {
		i := (first + k) % n
		c := cases[i]
		if c.try() {
			t.chosen = i
			return true
		}
		ch, send, unbuf := c.peer()
		if !unbuf || ch == 0 || sim.nChan == 0 {
			continue
		}
		for _, o := range sim.alive {
			if o == t || o.cases == nil {
				continue
			}
			for j, d := range o.cases {
				och, osend, _ := d.peer()
				if och != ch || osend == send {
					continue
				}
				if send {
					d.give(c.value())
				} else {
					c.give(d.value())
				}
				o.chosen = j
				unpark(o)
				o.st = ready
				t.chosen = i
				return true
			}
		}
	}
	return false
}

// unpark ends the wait of t for channel operations, if any.
func unpark(t *Task) {
	if t.cases != nil {
		t.cases = nil
		sim.nChan--
	}
}

// settle lets parked channel operations proceed that can.
func settle() {
	s := sim
	for again := s.nChan > 0; again; {
		again = false
		for _, t := range s.alive {
			if t.cases != nil && t.st == blocked && poll(t, t.cases) {
				unpark(t)
				t.st = ready
				again = true
			}
		}
	}
}

// wakeExternal waits for goroutines outside of the simulator, such as those of package context.
func (s *simulation) wakeExternal() bool {
	for i := 0; i < 100; i++ {
		runtime.Gosched()
		settle()
		for _, t := range s.alive {
			if t.st == ready {
				return true
			}
		}
	}
	return false
}

// Select performs a select statement: it returns the index of the communication that happened, or -1 for the
// default clause.
func Select(def bool, cases ...Case) int {
	t := cur
	if t == nil {
		for {
			for i, c := range cases {
				if c.try() {
					if p := c.failure(); p != nil {
						panic(p)
					}
					return i
				}
			}
			if def {
				return -1
			}
			runtime.Gosched()
		}
	}
	YIO()
	if len(cases) == 0 {
		for !def && !t.unwind {
			Block(&struct{ int }{})
		}
		return -1
	}
	if !poll(t, cases) {
		if def {
			return -1
		}
		account(t)
		checkDying(t)
		if t.unwind {
			return 0
		}
		t.cases = cases
		sim.nChan++
		t.st, t.waitOn = blocked, "a channel"
		yieldAway(t)
		t.waitOn = nil
		unpark(t)
		if t.unwind {
			return 0
		}
	}
	if p := cases[t.chosen].failure(); p != nil {
		panic(p)
	}
	return t.chosen
}
