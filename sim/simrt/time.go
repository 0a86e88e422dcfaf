package simrt

import "time"

// Base is the wall clock time at which the run starts.
var Base = Epochs[0]

// Epochs are the times runs start at.
var Epochs = []time.Time{
	time.Date(2031, 3, 14, 15, 9, 26, 535897932, time.UTC),
	time.Date(2038, 1, 19, 2, 14, 7, 999999999, time.UTC), // seconds pass 2^31 during the validity of tokens
	time.Date(2106, 2, 7, 6, 0, 0, 1, time.UTC),           // 2^32
	time.Date(1970, 1, 1, 0, 0, 0, 500, time.UTC),
	time.Date(1999, 12, 31, 23, 30, 0, 0, time.UTC),
	time.Date(2028, 2, 28, 23, 59, 59, 999999999, time.UTC),
	time.Date(2027, 3, 28, 0, 30, 0, 123000000, time.UTC),  // clocks are set forward
	time.Date(2027, 10, 31, 0, 15, 0, 100000000, time.UTC), // clocks are set back
	time.Date(2016, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2262, 4, 11, 23, 10, 0, 77, time.UTC), // 2^63 ns
	time.Date(2026, 9, 9, 1, 46, 40, 999999, time.UTC),
}

// NodeClock is the wall clock of one node.
type NodeClock struct {
	Offset time.Duration
	Loc    *time.Location
}

// Clocks are the wall clocks by node.
var Clocks []NodeClock

// localZone makes time.Local the zone of the node whose task is about to run: only one runs at a time.
func localZone(n int) {
	loc := time.UTC
	if n >= 0 && n < len(Clocks) && Clocks[n].Loc != nil {
		loc = Clocks[n].Loc
	}
	if time.Local != loc {
		time.Local = loc
	}
}

func clock() NodeClock {
	if cur != nil && cur.Node >= 0 && cur.Node < len(Clocks) {
		return Clocks[cur.Node]
	}
	return NodeClock{Loc: time.UTC}
}

// NodeTime is the wall clock time node n reads now.
func NodeTime(n int) time.Time {
	c := NodeClock{Loc: time.UTC}
	if n >= 0 && n < len(Clocks) {
		c = Clocks[n]
	}
	loc := c.Loc
	if loc == nil {
		loc = time.UTC
	}
	return Base.Add(time.Duration(NowNanos())).Add(c.Offset).In(loc)
}

func TimeNow() time.Time {
	if cur == nil {
		return NodeTime(-1)
	}
	return NodeTime(cur.Node)
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration)           { Sleep(d) }
func TimeAfter(d time.Duration) <-chan time.Time {
	return NewTimer(d).C
}
func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	id int
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	if sim == nil {
		return
	}
	node := -1
	var val any
	if cur != nil {
		node, val = cur.Node, cur.Val
	}
	t.id = sim.addEvent(int64(d), func() {
		t.id = 0
		if t.f != nil {
			Go("timer", node, val, t.f)
			return
		}
		select {
		case t.c <- NodeTime(node):
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	if t.id != 0 && sim != nil {
		ok := sim.delEvent(t.id)
		t.id = 0
		return ok
	}
	return false
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

// Ticker replaces time.Ticker. It stops after a bounded number of ticks so that runs end.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *Timer
	n int
}

func NewTicker(d time.Duration) *Ticker {
	k := &Ticker{c: make(chan time.Time, 1)}
	k.C = k.c
	var tick func()
	tick = func() {
		k.n++
		select {
		case k.c <- TimeNow():
		default:
		}
		if k.n < 1000 && k.t != nil {
			k.t.Reset(d)
		}
	}
	k.t = TimeAfterFunc(d, tick)
	return k
}

func (k *Ticker) Stop() {
	if k.t != nil {
		k.t.Stop()
		k.t = nil
	}
}

func (k *Ticker) Reset(time.Duration) {}
