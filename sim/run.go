package main

import (
	"crypto/rand"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/gofrs/uuid"
	jsoniter "github.com/json-iterator/go"

	"verifsim/simrt"
)

// scratch is the directory of the worker process for database files.
var scratch string

var stepCap int64 = 60_000_000

// stepsFor is the bound for a plan: plans with very many calls make long chains, whose cost is quadratic.
func stepsFor(p *Plan) int64 {
	if p.ops() > 500 {
		return 10 * stepCap
	}
	for _, c := range p.Clients {
		for _, o := range c {
			if o.K == "ich" && o.arg(3) > 0 {
				return 200 * stepCap
			}
			if o.K == "ich" {
				return 10 * stepCap
			}
		}
	}
	return stepCap
}

var curWorld *World

func initSim() {
	rand.Reader = simrt.Reader{}
	simrt.RandHook = randHook
	simrt.OrderRand = orderRand
	simrt.GoHook = func(call func()) {
		defer func() {
			if r := recover(); r != nil && !simrt.Unwinding() {
				if curWorld != nil {
					curWorld.fail("*", "panic", "a goroutine started by the library panicked: %v\n%s", r, trimStack(debug.Stack()))
				}
			}
		}()
		call()
	}
	simrt.DiskHook = diskHook
	simrt.CrashHook = crashHook
}

// families by name.
var families = map[string]func(w *World){
	"sys":  runSys,
	"io":   runIO,
	"conc": runConc,
	"keys": runKeys,
}

// runPlan executes a plan. It is a function of the plan alone.
func runPlan(p *Plan) *Result {
	simrt.ResetVars()
	uuid.DefaultGenerator = uuid.NewGen()
	jsoniter.ConfigDefault = jsoniter.Config{EscapeHTML: true, SortMapKeys: true}.Froze()
	simrt.ResetRand(p.Seed)
	simrt.DiskReset()
	simrt.Clocks = nil
	simrt.Base = simrt.Epochs[abs(p.Cfg["epoch"])%len(simrt.Epochs)]
	stampN = 0
	w := newWorld(p)
	curWorld = w
	w.dir = scratch
	clearDir(scratch)
	fam := families[p.Fam]
	res := &Result{Stats: w.stats}
	if fam == nil {
		res.Err = "unknown family " + p.Fam
		return res
	}
	simrt.MapConflict = func(what string) {
		w.fail("C13 C14 C16 C17 C23", "unsynchronised use of a map", "concurrent calls use a map at the same time without a lock: %s", what)
	}
	out := simrt.Run(p.Sched, stepsFor(p), func() { fam(w) })
	ds := simrt.DiskReset()
	w.stats.Faults["disk-sectors-lost"] += ds.LostSectors
	w.stats.Faults["disk-sectors-torn"] += ds.TornSectors
	w.stats.Probes["disk-writes"] += ds.Writes
	w.stats.Probes["disk-syncs"] += ds.Syncs
	clearDir(scratch)
	for k, v := range w.stats.Faults {
		if v == 0 {
			delete(w.stats.Faults, k)
		}
	}
	res.Out = out
	w.stats.SimNanos = out.SimNanos
	w.stats.Steps = out.Steps
	w.stats.Switches = len(out.Switches)
	if w.viol == nil && w.harness == "" && w.foreign == "" {
		switch {
		case out.Panic != "":
			w.harness = "panic: " + out.Panic
		case out.Deadlock != "":
			w.fail("*", "deadlock", "calls never finish: %s", out.Deadlock)
		case out.StepCap:
			w.fail("*", "endless call", "calls do not finish within %d steps", stepsFor(p))
		}
	}
	res.Viol, res.Foreign, res.Known, res.Trace = w.viol, w.foreign, w.known, w.trace
	res.Err = w.harness
	if w.harness != "" {
		res.Viol = nil
	}
	n := len(w.trace)
	if n > 12 {
		n = 12
	}
	res.Sample = strings.Join(w.trace[:n], "\n")
	res.logs = w.logsOut
	curWorld = nil
	return res
}

func clearDir(d string) {
	if d == "" {
		return
	}
	es, err := os.ReadDir(d)
	if err != nil {
		return
	}
	for _, e := range es {
		_ = os.Remove(d + "/" + e.Name())
	}
}

func diskHook(op simrt.DiskOp) simrt.DiskFault {
	w := curWorld
	if w == nil {
		return simrt.DiskFault{}
	}
	oc := curOp()
	if oc == nil || oc.quiet {
		return simrt.DiskFault{}
	}
	n := oc.nDisk
	oc.nDisk++
	oc.diskOps = append(oc.diskOps, op.Kind)
	root := op.Kind == "write" && op.Off < 2*int64(os.Getpagesize())
	wasRoot := oc.diskRoot
	oc.diskRoot = root
	for i := range oc.op.F {
		f := &oc.op.F[i]
		if !strings.HasPrefix(f.K, "disk-") || f.N != n {
			continue
		}
		if w.opening && !oc.faultyOpen && (f.K == "disk-crash" || op.Kind == "sync" && wasRoot) {
			continue // somebody is restarting the process: it cannot die here
		}
		w.fire(oc, f.K+":"+op.Kind, true)
		oc.diskFault = true
		w.diskFaults = append(w.diskFaults, w.stamp())
		switch f.K {
		case "disk-err", "disk-full":
			if op.Kind == "sync" && wasRoot {
				// The root page is written and whether it will last is unknown: bbolt itself cannot go on
				// from there, so the process dies here.
				return simrt.DiskFault{Crash: true}
			}
			oc.diskRefused = true
			d := simrt.DiskFault{Err: simrt.ErrIO}
			if f.K == "disk-full" {
				d.Err = simrt.ErrSpace
				if !root { // root pages are smaller than what a disk writes as a whole
					d.Short = f.A % (op.Len + 1)
				}
			}
			return d
		case "disk-crash":
			return simrt.DiskFault{Crash: true, Short: f.A % (op.Len + 1)}
		}
	}
	return simrt.DiskFault{}
}

func crashHook() {
	w := curWorld
	oc := curOp()
	if w == nil || oc == nil {
		return
	}
	mode := 0
	for _, f := range oc.op.F {
		if f.K == "disk-crash" {
			mode = f.A
		}
	}
	w.crash(oc.node, mode)
}

// sameClass reports whether the plan still shows the violation.
func sameClass(p *Plan, class string) (*Result, bool) {
	r := runPlan(p)
	return r, r.Viol != nil && r.Viol.Class == class
}

// ablate decides whether a violation needs what the property is about.
func ablate(p *Plan, class string) string {
	try := func(q *Plan) bool {
		r := runPlan(q)
		return r.Viol != nil && r.Viol.Class == class
	}
	switch p.Prop {
	case "C17":
		if len(p.Clients) < 2 {
			return ""
		}
		q := p.clone()
		q.Sched = simrt.Sched{Mode: "seq"}
		if try(q) {
			return "also happens without any overlap"
		}
	case "C16":
		if p.cfgv("alias") == 0 {
			return ""
		}
		q := p.clone()
		q.Cfg["alias"] = 0
		if try(q) {
			return "also happens with private memory"
		}
	case "C05", "C12", "C15", "C19", "C20", "C22", "C03", "C07":
		q := p.clone()
		n := 0
		for i := range q.Clients {
			for j := range q.Clients[i] {
				n += len(q.Clients[i][j].F)
				q.Clients[i][j].F = nil
			}
		}
		if p.Prop == "C22" && p.cfgv("wraperr") > 0 {
			q.Cfg["wraperr"] = 0
			n++
		}
		if n > 0 && try(q) && !(p.Prop == "C20" || p.Prop == "C03") {
			return "also happens without faults"
		}
	}
	return ""
}

func (p *Plan) cfgv(k string) int { return p.Cfg[k] }

// shrink reduces a violating plan.
func shrink(p *Plan, class string, budget int) *Plan {
	best := p.clone()
	tries := 0
	limit := time.Now().Add(45 * time.Second) // of the real clock: how far it is reduced, not what is found
	ok := func(q *Plan) bool {
		if tries >= budget || time.Now().After(limit) {
			return false
		}
		tries++
		_, y := sameClass(q, class)
		return y
	}
	// Fix the schedule as recorded, so that it can be thinned out.
	r, y := sameClass(best, class)
	if !y {
		return p
	}
	step := func(mk func(q *Plan) bool) bool {
		q := best.clone()
		if !mk(q) {
			return false
		}
		if ok(q) {
			best = q
			return true
		}
		return false
	}
	// The simplest schedule that still shows it.
	seq := step(func(q *Plan) bool { q.Sched = simrt.Sched{Mode: "seq"}; return true })
	for pass := 0; pass < 3; pass++ {
		changed := false
		// Whole clients' programs.
		for i := range best.Clients {
			if len(best.Clients[i]) > 0 && len(best.Clients) > 1 && step(func(q *Plan) bool { q.Clients[i] = nil; return true }) {
				changed = true
			}
		}
		// Chunks of operations.
		for i := range best.Clients {
			for n := len(best.Clients[i]); n >= 1; n /= 2 {
				for at := 0; at < len(best.Clients[i]); {
					if !step(func(q *Plan) bool {
						e := at + n
						if e > len(q.Clients[i]) {
							e = len(q.Clients[i])
						}
						q.Clients[i] = append(append([]Op{}, q.Clients[i][:at]...), q.Clients[i][e:]...)
						return true
					}) {
						at += n
					} else {
						changed = true
					}
				}
			}
		}
		// Faults.
		for i := range best.Clients {
			for j := range best.Clients[i] {
				for k := 0; k < len(best.Clients[i][j].F); {
					if !step(func(q *Plan) bool {
						f := q.Clients[i][j].F
						q.Clients[i][j].F = append(append([]Fault{}, f[:k]...), f[k+1:]...)
						return true
					}) {
						k++
					} else {
						changed = true
					}
				}
			}
		}
		// Configuration.
		for _, k := range sortedKeys(best.Cfg) {
			if v := best.Cfg[k]; v != 0 && k != "alias" {
				for _, nv := range []int{0, 1} {
					if nv != v && step(func(q *Plan) bool { q.Cfg[k] = nv; return true }) {
						changed = true
						break
					}
				}
			}
		}
		// Arguments.
		for i := range best.Clients {
			for j := range best.Clients[i] {
				for k := range best.Clients[i][j].A {
					if v := best.Clients[i][j].A[k]; v != 0 && v != 1 {
						step(func(q *Plan) bool { q.Clients[i][j].A[k] = 0; return true })
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	if !seq {
		// Preemptions.
		if r, y = sameClass(best, class); y {
			q := best.clone()
			q.Sched = simrt.Sched{Mode: "explicit", Focus: best.Sched.Focus, Switches: r.Out.Switches}
			if len(r.Out.Switches) < 20000 && ok(q) {
				best = q
				for n := len(best.Sched.Switches) / 2; n >= 1; n /= 2 {
					for at := 0; at < len(best.Sched.Switches); {
						if !step(func(q *Plan) bool {
							e := at + n
							if e > len(q.Sched.Switches) {
								e = len(q.Sched.Switches)
							}
							q.Sched.Switches = append(append([]simrt.Switch{}, q.Sched.Switches[:at]...), q.Sched.Switches[e:]...)
							return true
						}) {
							at += n
						}
					}
				}
			}
		}
	}
	return best
}

var _ = fmt.Sprint
