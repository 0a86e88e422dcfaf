// Package simrt is the simulator's runtime: it owns the choice of which task runs, the clock, the
// randomness and the disk of everything that runs inside a simulation.
//
// Tasks are goroutines, of which exactly one holds the token (cur) at any time. The worker process runs
// with GOMAXPROCS=1. Instrumented code calls Y before every statement; when the step budget is used up the
// policy decides which task goes on.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

type state int

const (
	ready state = iota
	blocked
	sleeping
	parked
	done
)

// Task is one simulated thread.
type Task struct {
	ID     int
	Name   string
	Node   int // library instance host it runs on: selects clock skew and zone; -1: harness
	Val    any // harness data, inherited by child tasks
	Shield int // >0: cannot be killed (inside a remote provider)
	wake   chan struct{}
	st     state
	waitOn any
	wakeAt int64
	steps  int64
	forced int64
	dying  bool
	unwind bool
	held   map[any]func()
	prio   int
	pre    []Switch // explicit mode: remaining preemptions of this task
	onDone func()
	cases  []Case // channel operations the task waits for
	chosen int
	aux    bool  // started by a go statement of the code under test
	since  int64 // steps when the task last gave up the processor by itself
	spins  int   // times in a row it did so only to let others run
	spunAt int64
}

// Switch is one recorded scheduling decision.
type Switch struct {
	T int   `json:"t"`           // task
	S int64 `json:"s,omitempty"` // its local step count (preemption)
	F int64 `json:"f,omitempty"` // its n-th forced switch (block, exit)
	N int   `json:"n"`           // task that runs next
}

// Sched describes how interleavings are chosen.
type Sched struct {
	Mode     string   `json:"mode"` // "rand", "io", "pct", "seq", "explicit"
	Mean     int      `json:"mean,omitempty"`
	Seed     uint64   `json:"seed,omitempty"`
	Changes  int      `json:"changes,omitempty"`
	Focus    uint32   `json:"focus,omitempty"` // packages whose statements are scheduling points; 0: all
	Switches []Switch `json:"switches,omitempty"`
}

// Outcome says how a run ended.
type Outcome struct {
	Deadlock string
	Panic    string // panic in a task outside of any protected call (harness error)
	StepCap  bool
	Steps    int64
	Decision int
	Switches []Switch
	Hash     uint64
	SimNanos int64
	Tasks    int
}

type simulation struct {
	excl     *Task // waits for a task it kills: nothing else may run
	tasks    []*Task
	alive    []*Task // those that have not ended
	rng      Rng
	sched    Sched
	now      int64
	steps    int64
	cap      int64
	out      Outcome
	fin      chan struct{}
	ending   bool
	nChan    int // tasks that wait for channel operations
	events   []event
	evSeq    int
	force    map[[2]int64]int
	changeAt []int64
	lowPrio  int
	hash     uint64
}

type event struct {
	at  int64
	seq int
	f   func()
}

var (
	budget  int64 = 1 << 62
	granted int64 = 1 << 62
	cur     *Task
	sim     *simulation
)

// focus is the set of packages whose statements are scheduling points.
var focus uint32 = 0x1ff

// Y is a scheduling point in the package with the given bit.
func Y(bit uint32) {
	if focus&bit == 0 {
		return
	}
	budget--
	if budget <= 0 {
		ySlow()
	}
}

// V is a scheduling point behind the evaluation of v.
func V[T any](bit uint32, v T) T {
	Y(bit)
	return v
}

// YIO is a scheduling point at a provider call or lock operation, where preemptions are more likely.
func YIO() {
	if cur == nil {
		return
	}
	t := cur
	budget--
	account(t)
	checkDying(t)
	s := sim
	switch s.sched.Mode {
	case "io":
		if s.rng.N(100) < s.sched.Mean {
			preempt(t)
			return
		}
	case "rand":
		if s.rng.N(100) < 10 {
			preempt(t)
			return
		}
	}
	if budget <= 0 {
		ySlow()
	}
}

func account(t *Task) {
	n := granted - budget
	t.steps += n
	sim.steps += n
	granted = budget
	if sim.steps > sim.cap && !sim.ending {
		sim.out.StepCap = true
		endRun()
	}
}

func checkDying(t *Task) {
	if t.dying && !t.unwind && t.Shield == 0 {
		t.unwind = true
		runtime.Goexit()
	}
}

func ySlow() {
	t := cur
	if t == nil {
		budget, granted = 1<<62, 1<<62
		return
	}
	account(t)
	if t.dying {
		if t.unwind || t.Shield > 0 {
			budget, granted = 1<<20, 1<<20
			return
		}
		checkDying(t)
	}
	if t.steps-t.since >= spinLimit {
		Gosched()
		return
	}
	preempt(t)
}

// spinLimit is the number of steps after which a task that never waits lets others run, as it may be waiting
// for them in a loop.
const spinLimit = 1 << 20

// Gosched lets other tasks run. A task that does so again and again lets time pass as well, since what it waits
// for may take time.
func Gosched() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	account(t)
	if t.steps-t.spunAt > 100 && t.steps-t.spunAt < spinLimit {
		t.spins = 0
	}
	t.spunAt = t.steps
	if t.spins < 30 {
		t.spins++
	}
	Sleep(time.Duration(1) << t.spins)
}

// preempt lets the policy choose who continues; t stays ready.
func preempt(t *Task) {
	s := sim
	if s.ending || t.unwind {
		grant(t)
		return
	}
	settle()
	n := s.choosePreempt(t)
	if n == t {
		grant(t)
		return
	}
	s.out.Switches = append(s.out.Switches, Switch{T: t.ID, S: t.steps, N: n.ID})
	s.mix(t.ID, t.steps, n.ID)
	switchTo(t, n)
}

func (s *simulation) mix(a int, b int64, c int) {
	s.hash = (s.hash ^ uint64(a)) * 1099511628211
	s.hash = (s.hash ^ uint64(b)) * 1099511628211
	s.hash = (s.hash ^ uint64(c)) * 1099511628211
}

// Mix adds harness events to the trace hash.
func Mix(v uint64) {
	if sim != nil {
		sim.hash = (sim.hash ^ v) * 1099511628211
	}
}

func (s *simulation) readyTasks() []*Task {
	var r []*Task
	for _, t := range s.alive {
		if t.st == ready {
			r = append(r, t)
		}
	}
	return r
}

func (s *simulation) choosePreempt(t *Task) *Task {
	switch s.sched.Mode {
	case "explicit":
		for len(t.pre) > 0 && t.pre[0].S <= t.steps {
			p := t.pre[0]
			t.pre = t.pre[1:]
			if p.N < len(s.tasks) && p.N >= 0 && s.tasks[p.N].st == ready {
				return s.tasks[p.N]
			}
		}
		return t
	case "seq":
		return t
	case "pct":
		s.lowPrio--
		t.prio = s.lowPrio
		return s.highest()
	}
	r := s.readyTasks()
	return r[s.rng.N(len(r))]
}

func (s *simulation) highest() *Task {
	var b *Task
	for _, t := range s.alive {
		if t.st == ready && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

func (s *simulation) chooseForced(t *Task) *Task {
	r := s.readyTasks()
	if len(r) == 0 {
		return nil
	}
	if s.excl != nil && s.excl.st == ready {
		return s.excl
	}
	if len(r) == 1 {
		return r[0]
	}
	switch s.sched.Mode {
	case "explicit":
		if n, ok := s.force[[2]int64{int64(t.ID), t.forced}]; ok {
			for _, c := range r {
				if c.ID == n {
					return c
				}
			}
		}
		return r[0]
	case "seq":
		return r[0]
	case "pct":
		return s.highest()
	}
	return r[s.rng.N(len(r))]
}

// grant sets the number of steps t may take before the next decision.
func grant(t *Task) {
	localZone(t.Node)
	s := sim
	n := int64(1 << 40)
	if !s.ending && !t.unwind {
		switch s.sched.Mode {
		case "rand":
			n = s.rng.Geom(s.sched.Mean)
		case "explicit":
			for len(t.pre) > 0 && t.pre[0].S <= t.steps {
				t.pre = t.pre[1:]
			}
			if len(t.pre) > 0 {
				n = t.pre[0].S - t.steps
			}
		case "pct":
			for len(s.changeAt) > 0 && s.changeAt[0] <= s.steps {
				s.changeAt = s.changeAt[1:]
			}
			if len(s.changeAt) > 0 {
				n = s.changeAt[0] - s.steps
			}
		}
	}
	if m := t.since + spinLimit - t.steps; n > m {
		n = m
	}
	if m := s.cap - s.steps + 1; n > m && !s.ending {
		n = m
	}
	if n < 1 {
		n = 1
	}
	budget, granted = n, n
}

func switchTo(t, n *Task) {
	cur = n
	grant(n)
	n.wake <- struct{}{}
	<-t.wake
	resumed(t)
}

func resumed(t *Task) {
	if t.dying && !t.unwind && t.Shield == 0 {
		t.unwind = true
		runtime.Goexit()
	}
}

// yieldAway is called with t not ready: someone else has to run.
func yieldAway(t *Task) {
	account(t)
	t.forced++
	t.since = t.steps
	s := sim
	settle()
	for {
		if t.st == ready { // woken by an event while choosing
			cur = t
			grant(t)
			return
		}
		n := s.chooseForced(t)
		if n != nil {
			if n != t {
				s.out.Switches = append(s.out.Switches, Switch{T: t.ID, F: t.forced, N: n.ID})
				s.mix(t.ID, -t.forced, n.ID)
			}
			if n == t {
				cur = t
				grant(t)
				return
			}
			if t.st == done {
				cur = n
				grant(n)
				n.wake <- struct{}{}
				return
			}
			switchTo(t, n)
			return
		}
		if s.advance() {
			continue
		}
		// Nothing can run, unless code outside of the simulator is about to act on a channel.
		if s.nChan > 0 && s.wakeExternal() {
			continue
		}
		if s.live() == 0 {
			cur = nil
			select {
			case s.fin <- struct{}{}:
			default:
			}
			return
		}
		if !s.ending && !s.onlyAux() {
			s.out.Deadlock = s.describe()
		}
		endRun()
		if t.st == done || t.dying && t.unwind {
			if t.st == done {
				continue
			}
		}
		if t.dying && !t.unwind {
			t.st = ready
			cur = t
			t.unwind = true
			runtime.Goexit()
		}
	}
}

func (s *simulation) live() int { return len(s.alive) }

func (s *simulation) ended(t *Task) {
	t.Val, t.pre, t.onDone = nil, nil, nil
	for i, o := range s.alive {
		if o == t {
			s.alive = append(s.alive[:i], s.alive[i+1:]...)
			return
		}
	}
}

// onlyAux reports whether all that is left are tasks the code under test started and forgot.
func (s *simulation) onlyAux() bool {
	for _, t := range s.alive {
		if t.st != done && !t.aux {
			return false
		}
	}
	return true
}

func (s *simulation) describe() string {
	d := ""
	for _, t := range s.alive {
		if t.st != done {
			d += fmt.Sprintf("[task %d %s state=%d waits on %T] ", t.ID, t.Name, t.st, t.waitOn)
		}
	}
	return d
}

// endRun makes every task unwind.
func endRun() {
	s := sim
	s.ending = true
	for _, t := range s.alive {
		if t.st != done {
			t.dying = true
			t.Shield = 0
			unpark(t)
			if t.st == blocked || t.st == sleeping {
				t.st = ready
			}
		}
	}
}

// Abort ends the run: every task is unwound.
func Abort() {
	endRun()
	checkDying(cur)
}

// advance moves the clock to the next event; it reports whether something became ready.
func (s *simulation) advance() bool {
	at := int64(-1)
	for _, t := range s.alive {
		if t.st == sleeping && (at < 0 || t.wakeAt < at) {
			at = t.wakeAt
		}
	}
	if len(s.events) > 0 && (at < 0 || s.events[0].at < at) {
		at = s.events[0].at
	}
	if at < 0 {
		return false
	}
	if at > s.now {
		s.now = at
	}
	s.due()
	return true
}

func (s *simulation) due() {
	for _, t := range s.alive {
		if t.st == sleeping && t.wakeAt <= s.now {
			t.st = ready
		}
	}
	for len(s.events) > 0 && s.events[0].at <= s.now {
		e := s.events[0]
		s.events = s.events[1:]
		e.f()
	}
}

func (s *simulation) addEvent(d int64, f func()) int {
	s.evSeq++
	s.events = append(s.events, event{s.now + d, s.evSeq, f})
	sort.Slice(s.events, func(i, j int) bool {
		if s.events[i].at != s.events[j].at {
			return s.events[i].at < s.events[j].at
		}
		return s.events[i].seq < s.events[j].seq
	})
	return s.evSeq
}

func (s *simulation) delEvent(id int) bool {
	for i, e := range s.events {
		if e.seq == id {
			s.events = append(s.events[:i:i], s.events[i+1:]...)
			return true
		}
	}
	return false
}

// Block parks the current task until Wake(on).
func Block(on any) {
	t := cur
	if t == nil {
		panic("simrt: blocking outside of a simulation")
	}
	if t.dying {
		checkDying(t)
		if t.unwind {
			return
		}
	}
	t.st, t.waitOn = blocked, on
	yieldAway(t)
	t.waitOn = nil
}

// Wake makes all tasks parked on the object ready.
func Wake(on any) {
	if sim == nil {
		return
	}
	for _, t := range sim.alive {
		if t.st == blocked && t.waitOn == on {
			t.st = ready
		}
	}
}

// Unwinding reports whether the current task is being killed, in which case locks do not block.
func Unwinding() bool { return cur != nil && cur.unwind }

// Hold registers a lock held by the current task, so that killing the task releases it.
func Hold(l any, release func()) {
	if cur != nil {
		if cur.held == nil {
			cur.held = map[any]func(){}
		}
		cur.held[l] = release
	}
}

// Unhold removes a lock registered by Hold, whoever registered it.
func Unhold(l any) {
	if cur != nil && cur.held[l] != nil {
		delete(cur.held, l)
		return
	}
	if sim != nil {
		for _, t := range sim.alive {
			delete(t.held, l)
		}
	}
}

// Current returns the running task, nil outside of a simulation.
func Current() *Task { return cur }

// Active reports whether the caller runs inside a simulation.
func Active() bool { return cur != nil }

// Sleep parks the current task for simulated time.
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		return
	}
	if d < 0 {
		d = 0
	}
	if t.dying {
		checkDying(t)
		if t.unwind {
			return
		}
	}
	t.st, t.wakeAt = sleeping, sim.now+int64(d)
	yieldAway(t)
}

// Elapse moves the clock forward without giving up the processor.
func Elapse(d time.Duration) {
	if sim != nil {
		sim.now += int64(d)
		sim.due()
	}
}

// NowNanos is the true simulated time since the start of the run.
func NowNanos() int64 {
	if sim == nil {
		return 0
	}
	return sim.now
}

// Steps is the number of steps taken so far.
func Steps() int64 {
	if sim == nil {
		return 0
	}
	if cur != nil {
		account(cur)
	}
	return sim.steps
}

// Go starts a new task.
func Go(name string, node int, val any, f func()) *Task {
	s := sim
	t := &Task{ID: len(s.tasks), Name: name, Node: node, Val: val, wake: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.alive = append(s.alive, t)
	s.lowPrio++
	t.prio = 1000 + s.rng.N(1000)
	if s.sched.Mode == "explicit" {
		for _, w := range s.sched.Switches {
			if w.T == t.ID && w.F == 0 {
				t.pre = append(t.pre, w)
			}
		}
	}
	if s.ending {
		t.dying = true
	}
	go t.main(f)
	return t
}

func (t *Task) main(f func()) {
	<-t.wake
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			if !t.unwind && sim.out.Panic == "" {
				sim.out.Panic = fmt.Sprintf("task %d %s: %v\n%s", t.ID, t.Name, r, debug.Stack())
				account(t)
				endRun()
			}
		}
		t.unwind = true
		if t.dying {
			for _, rel := range t.held {
				rel()
			}
		} // otherwise a lock it still holds stays locked
		t.held = nil
		unpark(t)
		if t.onDone != nil {
			t.onDone()
		}
		account(t)
		t.st = done
		sim.ended(t)
		Wake(t)
		yieldAway(t)
	}()
	if t.dying {
		return
	}
	f()
}

// Join waits for a task to end.
func Join(t *Task) {
	for t.st != done {
		Block(t)
		if Unwinding() {
			return
		}
	}
}

// Done reports whether the task ended.
func (t *Task) Done() bool { return t.st == done }

// Killed reports whether the task was killed.
func (t *Task) Killed() bool { return t.dying }

// KillNode unwinds every task of the node except the caller, one after the other, while nothing else runs;
// if the caller itself belongs to the node it is unwound last (KillNode does not return then).
func KillNode(match func(*Task) bool, after func()) {
	s := sim
	self := cur
	for _, t := range append([]*Task{}, s.alive...) {
		if t == self || t.st == done || !match(t) {
			continue
		}
		kill(self, t)
	}
	if after != nil {
		after()
	}
	if match(self) {
		self.dying = true
		checkDying(self)
	}
}

func kill(self, t *Task) {
	t.dying = true
	if t.Shield > 0 {
		// It unwinds as soon as it is outside of the provider.
		return
	}
	// Run t alone until it is done.
	account(self)
	old := self.st
	for _, o := range sim.alive {
		if o != t && o.st == ready {
			o.st = parked
		}
	}
	unpark(t)
	t.st = ready
	self.st = blocked
	self.waitOn = t
	exclOld := sim.excl
	sim.excl = self
	// Deliberately not recorded as a decision: t is the only ready task.
	cur = t
	budget, granted = 1<<40, 1<<40
	t.wake <- struct{}{}
	<-self.wake
	sim.excl = exclOld
	self.waitOn = nil
	self.st = old
	for _, o := range sim.alive {
		if o.st == parked {
			o.st = ready
		}
	}
	grant(self)
}

// GoCall implements a go statement.
func GoCall(f any, args ...any) { goCall(f, args, false) }

// GoCallSlice implements a go statement whose last argument is passed with "...".
func GoCallSlice(f any, args ...any) { goCall(f, args, true) }

func goCall(f any, args []any, slice bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
			if !slice {
				pt = pt.Elem()
			}
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			v := reflect.ValueOf(a)
			if v.Type() != pt && v.Type().ConvertibleTo(pt) {
				v = v.Convert(pt)
			}
			in[i] = v
		}
	}
	call := func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}
	if cur == nil {
		go call()
		return
	}
	g := GoHook
	p := cur
	t := Go(p.Name+".go", p.Node, p.Val, func() {
		if g != nil {
			g(call)
		} else {
			call()
		}
	})
	t.aux = true
	YIO()
}

// GoHook, if set, wraps the body of tasks started by go statements of the code under test.
var GoHook func(call func())

// Run executes main as the first task and returns when all tasks have ended.
func Run(sched Sched, stepCap int64, main func()) Outcome {
	s := &simulation{sched: sched, rng: NewRng(sched.Seed ^ 0x5eed5c4ed), cap: stepCap, fin: make(chan struct{}, 1), hash: 14695981039346656037}
	focus = 0x1ff
	if sched.Focus != 0 {
		focus = sched.Focus
	}
	if s.sched.Mean < 1 {
		s.sched.Mean = 1
	}
	if sched.Mode == "explicit" {
		s.force = map[[2]int64]int{}
		for _, w := range sched.Switches {
			if w.F > 0 {
				s.force[[2]int64{int64(w.T), w.F}] = w.N
			}
		}
	}
	if sched.Mode == "pct" {
		at := int64(0)
		for i := 0; i < sched.Changes; i++ {
			at += s.rng.Geom(s.sched.Mean)
			s.changeAt = append(s.changeAt, at)
		}
	}
	sim = s
	t := Go("main", -1, nil, main)
	cur = t
	grant(t)
	t.wake <- struct{}{}
	<-s.fin
	cur = nil
	budget, granted = 1<<62, 1<<62
	s.out.Steps = s.steps
	s.out.Decision = len(s.out.Switches)
	s.out.Hash = s.hash
	s.out.SimNanos = s.now
	s.out.Tasks = len(s.tasks)
	sim = nil
	return s.out
}
