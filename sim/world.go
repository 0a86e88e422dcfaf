package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	d1io "github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
	"github.com/rs/zerolog"

	"verifsim/simrt"
)

// OpCtx is the state of one operation in progress; tasks working on its behalf carry it.
type OpCtx struct {
	w           *World
	op          *Op
	seq         int
	client      int
	kind        string
	node        int
	quiet       bool // harness operation: no faults, not traced
	stream      *simrt.Stream
	order       uint64
	nIO         int
	nID         int
	nRand       int
	nDisk       int
	diskOps     []string
	diskFault   bool
	diskRoot    bool // the last disk operation wrote a root page
	calls       []Call
	mutated     int
	fired       []string
	relax       bool // a fault fired that may change the outcome
	idFault     bool // last identity lookup failed by injection
	accFail     bool // last access record read failed by injection
	ctx         context.Context
	cancel      context.CancelFunc
	cancelAt    int // provider calls made before cancellation, -1 if not cancelled
	afterCan    int // provider calls begun after the first one that saw the cancellation
	mutCan      int // effects after cancellation
	sawCan      bool
	sawBy       map[*simrt.Task]bool // the tasks of the call that saw it: calls they make side by side may be under way when the first one does
	badCtx      string
	lines       []string
	plain       []byte   // the contents it encrypts, where secrets are watched
	args        []string // what the caller passed in, where secrets are watched
	logTag      string
	oid         string
	idAt        int    // 1 + number of lines logged before the identity of the caller was known
	logOK       bool   // a call that must name its caller and object
	uid         string // caller's ID, if authentication succeeds
	maxCalls    int
	rngFault    bool
	rngShort    int // bytes a short read left out
	repeats     bool
	repN        int
	repeat      *simrt.Stream
	tampered    bool
	gone        [][]error // what has to be reported
	mutAfterRng int
	crashed     bool
	crashAt     int64
	diskRefused bool
	faultyOpen  bool // opens the storage, and meets faults
	panicked    string
	done        bool
	begin       int64
	end         int64
}

// Call is one provider call as the simulator saw it.
type Call struct {
	Op, Key string
	ID      []byte
	Type    d1io.DataType
	Applied bool
	Err     bool
	Lost    bool // took effect but was reported as failed
	Val     []byte
}

type ctxKey struct{}

// Node is one process using the library.
type Node struct {
	n      int
	up     bool
	d1     d1.D1
	alone  id.Standalone
	idx    index.SecureIndex
	st     *Storage
	idst   *Storage
	prov   d1io.Provider
	idprov d1io.Provider
	idp    id.Provider
}

// World is one simulated deployment.
type World struct {
	ownProcs   bool // every client is a process, and a crash must not end others
	p          *Plan
	prop       string
	rng        simrt.Rng
	nodes      []*Node
	back       *Backing
	idBack     *Backing
	keys       key.Keys
	cfgID      id.StandaloneConfig
	idp        *StubIDP
	viol       *Violation
	foreign    string
	known      map[string]string
	stats      *Stats
	trace      []string
	nOps       int
	dir        string
	opening    bool
	logs       *logSink
	secrets    []secret
	written    []wrec
	harness    string
	epoch      int
	lastOp     map[int]*OpCtx
	allCalls   int
	inSetup    bool
	logsOut    [][]string
	salts      map[string][]uint64
	foreignCr  map[string]crypto.CryptorInterface
	methods    map[string]string
	diskFaults []int64 // when the disk failed
	bootHook   func(n *Node)
}

type wrec struct {
	id  []byte
	dt  d1io.DataType
	val []byte
	op  *OpCtx
}

func newWorld(p *Plan) *World {
	w := &World{p: p, prop: p.Prop, rng: simrt.NewRng(simrt.Mix64(p.Seed, 77)), known: map[string]string{}, stats: newStats(), salts: map[string][]uint64{}, methods: map[string]string{}, lastOp: map[int]*OpCtx{}}
	w.keys = key.Keys{KEK: w.keyBytes(1), AEK: w.keyBytes(2), TEK: w.keyBytes(3), IEK: w.keyBytes(4)}
	w.cfgID = id.StandaloneConfig{UEK: w.keyBytes(5), GEK: w.keyBytes(6), TEK: w.keyBytes(7)}
	w.logs = &logSink{w: w}
	return w
}

func (w *World) keyBytes(n uint64) []byte {
	b := make([]byte, 32)
	simrt.NewStream(simrt.Mix64(w.p.Seed, 1000+n)).Read(b)
	return b
}

func (w *World) cfg(k string) int { return w.p.Cfg[k] }

// fail records a violation. props lists the properties it breaks; "*" means whatever is being checked.
func (w *World) fail(props, class, format string, a ...any) {
	if w.viol != nil || w.foreign != "" || w.harness != "" {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if props == "*" || strings.Contains(" "+props+" ", " "+w.prop+" ") {
		w.viol = &Violation{class, msg}
		w.tracef("VIOLATION %s: %s", class, msg)
		return
	}
	w.foreign = props + " " + class + ": " + msg
	w.tracef("FOREIGN %s", w.foreign)
}

func (w *World) stopped() bool { return w.viol != nil || w.foreign != "" || w.harness != "" }

func (w *World) herr(format string, a ...any) {
	if w.harness == "" {
		w.harness = fmt.Sprintf(format, a...)
	}
}

const traceCap = 4000

func (w *World) tracef(format string, a ...any) {
	if len(w.trace) >= traceCap {
		return
	}
	w.trace = append(w.trace, fmt.Sprintf("%d ", simrt.NowNanos())+fmt.Sprintf(format, a...))
}

func (w *World) probe(name string) { w.stats.Probes[name]++ }

func curOp() *OpCtx {
	t := simrt.Current()
	if t == nil {
		return nil
	}
	oc, _ := t.Val.(*OpCtx)
	return oc
}

// ---------------------------------------------------------------- backing stores

// Backing is the storage shared by the nodes: one of the library's providers or the reference store.
type Backing struct {
	w       *World
	kind    string // "model", "mem", "bolt", "proxy-mem", "proxy-bolt"
	prov    d1io.Provider
	path    string
	down    bool
	shadow  map[string]srec
	tried   map[string]srec // written without a report of success
	ver     int
	onApply func(op string, id []byte, dt d1io.DataType, val []byte)
}

type srec struct {
	id  []byte
	dt  d1io.DataType
	val []byte
	ver int
}

func skey(id []byte, dt d1io.DataType) string { return fmt.Sprintf("%x/%d", id, dt) }

// modelStore is the reference store.
type modelStore struct{ m map[string][]byte }

func (s *modelStore) Put(_ context.Context, id []byte, dt d1io.DataType, data []byte) error {
	simrt.YIO()
	k := skey(id, dt)
	if _, ok := s.m[k]; ok {
		return d1io.ErrAlreadyExists
	}
	s.m[k] = append([]byte{}, data...)
	return nil
}

func (s *modelStore) Get(_ context.Context, id []byte, dt d1io.DataType) ([]byte, error) {
	simrt.YIO()
	v, ok := s.m[skey(id, dt)]
	if !ok {
		return nil, d1io.ErrNotFound
	}
	return append([]byte{}, v...), nil
}

func (s *modelStore) Update(_ context.Context, id []byte, dt d1io.DataType, data []byte) error {
	simrt.YIO()
	k := skey(id, dt)
	if _, ok := s.m[k]; !ok {
		return d1io.ErrNotFound
	}
	s.m[k] = append([]byte{}, data...)
	return nil
}

func (s *modelStore) Delete(_ context.Context, id []byte, dt d1io.DataType) error {
	simrt.YIO()
	delete(s.m, skey(id, dt))
	return nil
}

var storeKinds = []string{"model", "mem", "proxy-mem", "bolt", "proxy-bolt"}

func newBacking(w *World, kind, name string) *Backing {
	b := &Backing{w: w, kind: kind, shadow: map[string]srec{}, tried: map[string]srec{}}
	if strings.HasSuffix(kind, "bolt") {
		b.path = filepath.Join(w.dir, name)
	}
	return b
}

// open (re)creates the provider; must run inside a simulation for bolt.
func (b *Backing) open() error {
	switch b.kind {
	case "model":
		if b.prov == nil {
			b.prov = &modelStore{map[string][]byte{}}
		}
	case "mem", "proxy-mem":
		if b.prov == nil {
			m := d1io.NewMem()
			b.prov = &m
			if b.kind == "proxy-mem" {
				p := d1io.NewProxy(&m)
				b.prov = &p
			}
		}
	case "bolt", "proxy-bolt":
		db, err := d1io.NewBolt(b.path)
		if err != nil {
			return err
		}
		b.prov = &db
		if b.kind == "proxy-bolt" {
			p := d1io.NewProxy(&db)
			b.prov = &p
		}
	}
	b.down = false
	return nil
}

func (b *Backing) local() bool { return strings.HasSuffix(b.kind, "bolt") }

func (b *Backing) apply(op string, id []byte, dt d1io.DataType, val []byte) {
	b.ver++
	k := skey(id, dt)
	if op == "delete" {
		delete(b.shadow, k)
	} else {
		b.shadow[k] = srec{append([]byte{}, id...), dt, append([]byte{}, val...), b.ver}
	}
	if b.onApply != nil {
		b.onApply(op, id, dt, val)
	}
}

// resync re-reads the shadow after a crash.
func (b *Backing) resync() {
	for k, r := range b.tried {
		if _, ok := b.shadow[k]; !ok {
			b.shadow[k] = r
		}
		delete(b.tried, k)
	}
	for _, k := range sortedKeys(b.shadow) {
		r := b.shadow[k]
		v, err := b.prov.Get(context.Background(), r.id, r.dt)
		switch {
		case err == nil:
			if !bytes.Equal(v, r.val) || r.ver == 0 {
				r.val = v
				b.ver++
				r.ver = b.ver
				b.shadow[k] = r
			}
		case errors.Is(err, d1io.ErrNotFound):
			delete(b.shadow, k)
		}
	}
}

// ---------------------------------------------------------------- storage provider with faults

// Storage is the io.Provider a node uses.
type Storage struct {
	w    *World
	back *Backing
	node int
}

var errInjected = errors.New("simulated storage failure")

func (w *World) mkErr(a int) error {
	switch a % 4 {
	case 1:
		return fmt.Errorf("backend unavailable: %w", errInjected)
	case 2:
		return context.DeadlineExceeded
	case 3:
		return fmt.Errorf("rpc: %w", errors.Join(errInjected, errors.New("code 14")))
	}
	return errInjected
}

// goneErrors are the errors that report a missing or an already existing record.
func goneErrors(kind, op string, dt d1io.DataType) []error {
	alone := in(kind, []string{"nu", "chpw", "gi", "ng", "aug", "rug", "du"})
	switch {
	case dt == d1io.DataTypeSealedObject && op == "put":
		return []error{d1.ErrObjectAlreadyExists}
	case dt == d1io.DataTypeSealedObject:
		return []error{d1.ErrObjectNotFound}
	case dt == d1io.DataTypeSealedAccess && op == "put":
		return []error{d1.ErrAccessAlreadyExists}
	case dt == d1io.DataTypeSealedAccess:
		return []error{d1.ErrAccessNotFound, d1.ErrObjectNotFound}
	case dt == d1io.DataTypeSealedNode && op == "put":
		return []error{index.ErrNodeAlreadyExists}
	case dt == d1io.DataTypeSealedNode:
		return []error{index.ErrNodeNotFound}
	case dt == id.DataTypeSealedUser && op == "put":
		return []error{id.ErrUserAlreadyExists}
	case dt == id.DataTypeSealedUser && alone && kind == "chpw" && op == "get":
		return []error{id.ErrNotAuthenticated}
	case dt == id.DataTypeSealedUser && alone:
		return []error{id.ErrUserNotFound}
	case dt == id.DataTypeSealedGroup && op == "put":
		return []error{id.ErrGroupAlreadyExists}
	case dt == id.DataTypeSealedGroup && alone:
		return []error{id.ErrGroupNotFound}
	}
	return nil
}

func (s *Storage) do(op string, ctx context.Context, id []byte, dt d1io.DataType, data []byte) ([]byte, error) {
	simrt.YIO()
	w := s.w
	oc := curOp()
	if oc == nil {
		oc = &OpCtx{w: w, quiet: true, cancelAt: -1, kind: "setup"}
	}
	w.stats.Calls++
	w.allCalls++
	n := oc.nIO
	oc.nIO++
	ci := len(oc.calls)
	oc.calls = append(oc.calls, Call{Op: op, ID: append([]byte{}, id...), Type: dt, Err: true, Key: skey(id, dt)})
	if op == "put" || op == "update" {
		oc.calls[ci].Val = append([]byte{}, data...)
	}
	if !oc.quiet {
		if len(oc.calls) > 5000 {
			w.fail("C20 C17 "+kindProps(oc.kind), "unbounded provider calls", "%s made more than 5000 provider calls", oc.kind)
			killSelf()
		}
		w.checkCtx(oc, ctx, "storage "+op)
	}
	isAcc := dt == d1io.DataTypeSealedAccess && op == "get"
	if isAcc {
		oc.accFail = false
	}
	if op == "put" || op == "update" {
		w.written = append(w.written, wrec{append([]byte{}, id...), dt, append([]byte{}, data...), oc})
	}
	if s.back.down {
		return nil, errInjected
	}
	var errAfter error
	crashAfter := -1
	odd := 0
	late := false // begun after the cancellation was seen
	tamper := -1
	if !oc.quiet {
		for i := range oc.op.F {
			f := &oc.op.F[i]
			hit := f.N == n || strings.HasSuffix(f.K, "+") && n >= f.N
			if !hit || w.ownProcs && simrt.PkgState && strings.HasPrefix(f.K, "crash") {
				continue
			}
			switch strings.TrimSuffix(f.K, "+") {
			case "io-err":
				w.fire(oc, f.K, true)
				if isAcc {
					oc.accFail = true
				}
				if f.A >= 8 && op == "get" { // data together with an error
					v, _ := s.inner("get", ctx, id, dt, nil)
					return v, w.mkErr(f.A)
				}
				return nil, w.mkErr(f.A)
			case "io-gone": // the provider claims what is not so: the record is not there, or it is already
				if op == "delete" || op == "get" && in(oc.kind, []string{"del", "ia", "is", "ix"}) {
					continue
				}
				w.fire(oc, f.K, true)
				oc.gone = append(oc.gone, goneErrors(oc.kind, op, dt))
				if isAcc {
					oc.accFail = true
				}
				e := d1io.ErrNotFound
				if op == "put" {
					e = d1io.ErrAlreadyExists
				}
				if f.A%2 == 1 {
					e = fmt.Errorf("backend: %w", e)
				}
				return nil, e
			case "io-lost": // takes effect, reported as failed
				w.fire(oc, f.K, true)
				errAfter = w.mkErr(f.A)
				if isAcc {
					oc.accFail = true
				}
			case "io-slow":
				w.fire(oc, f.K, false)
				simrt.Sleep(time.Duration(f.A) * time.Millisecond)
			case "clock":
				w.fire(oc, f.K, false)
				simrt.Elapse(time.Duration(f.A) * time.Second)
			case "crash": // before the call takes effect
				if !w.opening {
					w.fire(oc, f.K, true)
					w.crash(oc.node, f.A)
				}
			case "crash-after":
				if !w.opening {
					w.fire(oc, f.K, true)
					crashAfter = f.A
				}
			case "cancel":
				if oc.cancelAt < 0 {
					w.fire(oc, f.K, true)
					oc.cancelAt = len(oc.calls) - 1
					oc.cancel()
				}
			case "tamper":
				tamper = f.A
			case "io-odd":
				w.fire(oc, f.K, true)
				odd = f.A%4 + 1
				if isAcc {
					oc.accFail = true
				}
			}
		}
		late = oc.sawCan
		if ctx.Err() != nil {
			oc.refused()
			if isAcc {
				oc.accFail = true
			}
			return nil, ctx.Err()
		}
	}
	if op == "put" {
		s.back.tried[skey(id, dt)] = srec{append([]byte{}, id...), dt, nil, 0}
	}
	out, err := s.inner(op, ctx, id, dt, data)
	if err == nil && op != "get" {
		delete(s.back.tried, skey(id, dt))
		old, had := s.back.shadow[skey(id, dt)]
		changed := !had || !bytes.Equal(old.val, data)
		if op == "delete" {
			changed = had
		}
		s.back.apply(op, id, dt, data)
		if changed {
			oc.mutated++
			if late {
				oc.mutCan++
			}
			if oc.rngFault {
				oc.mutAfterRng++
			}
		}
		oc.calls[ci].Applied = true
	}
	if err == nil && op == "get" {
		oc.calls[ci].Val = append([]byte{}, out...)
	}
	oc.calls[ci].Err = err != nil
	if !oc.quiet {
		w.tracef("  op%d %s %x.. type %d len %d -> %v", oc.seq, op, head(id), dt, len(data)+len(out), err)
	}
	if crashAfter >= 0 {
		w.crash(oc.node, crashAfter)
	}
	simrt.YIO()
	if tamper >= 0 && err == nil && op == "get" {
		if t := w.tamper(s.back, oc, id, dt, out, tamper); !bytes.Equal(t, out) {
			w.fire(oc, "tamper", true)
			w.stats.Faults[fmt.Sprintf("tamper-mode-%d", tamper%tamperModes)]++
			oc.tampered = true
			return t, nil
		}
	}
	if odd > 0 {
		switch odd {
		case 1:
			if op == "get" {
				return nil, nil
			}
		case 2:
			if op == "get" {
				return []byte("null"), nil
			}
		case 3:
			if op == "get" {
				return []byte("{}"), nil
			}
		case 4:
			if op == "get" {
				return out, w.mkErr(1)
			}
		}
	}
	if errAfter != nil {
		oc.calls[ci].Lost = oc.calls[ci].Applied
		return nil, errAfter
	}
	if err != nil && w.cfg("wraperr") > 0 {
		switch w.cfg("wraperr") {
		case 1:
			err = fmt.Errorf("storage backend: %w", err)
		case 2:
			err = errors.Join(errors.New("request 17"), err)
		case 3:
			err = &wrapErr{err}
		}
	}
	return out, err
}

type wrapErr struct{ e error }

func (e *wrapErr) Error() string        { return "wrapped" }
func (e *wrapErr) Is(target error) bool { return errors.Is(e.e, target) }

func head(b []byte) []byte {
	if len(b) > 6 {
		return b[:6]
	}
	return b
}

// inner calls the real provider. A provider shared by several processes is not affected by the death of
// one of its clients.
func (s *Storage) inner(op string, ctx context.Context, id []byte, dt d1io.DataType, data []byte) ([]byte, error) {
	t := simrt.Current()
	if t != nil && !s.back.local() {
		t.Shield++
		defer func() {
			if t.Shield > 0 {
				t.Shield--
			}
		}()
	}
	switch op {
	case "put":
		return nil, s.back.prov.Put(ctx, id, dt, data)
	case "get":
		return s.back.prov.Get(ctx, id, dt)
	case "update":
		return nil, s.back.prov.Update(ctx, id, dt, data)
	default:
		return nil, s.back.prov.Delete(ctx, id, dt)
	}
}

func (s *Storage) Put(ctx context.Context, id []byte, dt d1io.DataType, data []byte) error {
	_, err := s.do("put", ctx, id, dt, data)
	return err
}
func (s *Storage) Get(ctx context.Context, id []byte, dt d1io.DataType) ([]byte, error) {
	return s.do("get", ctx, id, dt, nil)
}
func (s *Storage) Update(ctx context.Context, id []byte, dt d1io.DataType, data []byte) error {
	_, err := s.do("update", ctx, id, dt, data)
	return err
}
func (s *Storage) Delete(ctx context.Context, id []byte, dt d1io.DataType) error {
	_, err := s.do("delete", ctx, id, dt, nil)
	return err
}

// kindProps are the properties about what calls of a kind achieve.
func kindProps(kind string) string {
	switch kind {
	case "ia", "is", "ix":
		return "C11 C12 C13"
	case "enc", "upd", "dec":
		return "C01"
	case "del":
		return "C06"
	case "acc", "addg", "remg", "authz":
		return "C04"
	case "nu", "login", "chpw", "du":
		return "C09"
	case "gi", "ng", "aug", "rug":
		return "C10"
	}
	return ""
}

func (w *World) fire(oc *OpCtx, kind string, relax bool) {
	w.stats.Faults[kind]++
	oc.fired = append(oc.fired, kind)
	if relax {
		oc.relax = true
	}
	w.tracef("  op%d fault %s", oc.seq, kind)
	simrt.Mix(uint64(len(kind)) + uint64(oc.nIO))
}

func (w *World) checkCtx(oc *OpCtx, ctx context.Context, what string) {
	if oc.badCtx != "" {
		return
	}
	switch {
	case ctx == nil:
		oc.badCtx = what + ": nil context"
	case ctx.Value(ctxKey{}) != any(oc):
		oc.badCtx = what + ": context does not carry the caller's values"
	default:
		d1, ok1 := ctx.Deadline()
		d2, ok2 := oc.ctx.Deadline()
		if ok2 && (!ok1 || d1.After(d2)) {
			oc.badCtx = what + ": caller's deadline lost"
		} else if !ok2 && ok1 {
			// A shorter deadline set by the library is allowed.
		}
		if oc.ctx.Err() != nil && ctx.Err() == nil {
			oc.badCtx = what + ": cancellation of the caller's context does not reach the provider"
		}
	}
}

func killSelf() {
	t := simrt.Current()
	simrt.KillNode(func(x *simrt.Task) bool { return x == t }, nil)
}

// ---------------------------------------------------------------- crash and restart

// crash ends the process running on the node: with a file-backed store everything runs in that process.
func (w *World) crash(node, mode int) {
	oc := curOp()
	if t := simrt.Current(); w.opening && !(oc != nil && oc.faultyOpen) || t != nil && t.Killed() {
		return
	}
	all := w.back != nil && w.back.local() || w.idBack != nil && w.idBack.local()
	whole := all || simrt.PkgState
	w.tracef("  CRASH node %d (all=%v) mode %d", node, all, mode)
	w.epoch++
	at := w.stamp()
	simrt.KillNode(func(t *simrt.Task) bool {
		oc, _ := t.Val.(*OpCtx)
		if oc == nil || oc.quiet || t.Node < 0 {
			return false
		}
		if whole || t.Node == node {
			oc.crashed = true
			oc.crashAt = at
			return true
		}
		return false
	}, func() {
		for _, n := range w.nodes {
			if whole || n.n == node {
				n.up = false
			}
		}
		if simrt.PkgState {
			simrt.Outside(simrt.ResetVars)
		}
		if all {
			r := simrt.NewRng(simrt.Mix64(w.p.Seed, uint64(w.epoch), 99))
			simrt.DiskCrash(&r, mode%4)
			w.stats.Faults["power-loss"]++
			for _, b := range []*Backing{w.back, w.idBack} {
				if b != nil && b.local() {
					b.down = true
				}
			}
		}
	})
}

// ensureUp restarts whatever is down; called by client tasks before an operation.
func (w *World) ensureUp(n *Node) {
	for w.opening {
		simrt.Sleep(time.Millisecond)
	}
	if n.up && !(w.back != nil && w.back.down) && !(w.idBack != nil && w.idBack.down) {
		return
	}
	w.opening = true
	w.runQuiet("restart", n.n, func(oc *OpCtx) {
		for _, b := range []*Backing{w.back, w.idBack} {
			if b != nil && (b.down || b.prov == nil) {
				if err := b.open(); err != nil {
					w.fail("C15 C05 C06 C12 C01 C04 C09 C11", "storage does not reopen after a crash", "NewBolt: %v", err)
					return
				}
				b.resync()
			}
		}
		w.boot(oc.ctx, n)
	})
	w.opening = false
}

func (w *World) boot(ctx context.Context, n *Node) {
	if w.bootHook != nil {
		w.bootHook(n)
		return
	}
	if n.st == nil {
		n.st = &Storage{w, w.back, n.n}
		ib := w.idBack
		if ib == nil {
			ib = w.back
		}
		n.idst = &Storage{w, ib, n.n}
	}
	if n.prov == nil {
		n.prov, n.idprov = n.st, n.idst
		if w.cfg("proxy") > 0 {
			p := d1io.NewProxy(n.st)
			n.prov = &p
			q := d1io.NewProxy(n.idst)
			n.idprov = &q
		}
	}
	ks := copyKeys(w.keys)
	sc := id.StandaloneConfig{UEK: clone(w.cfgID.UEK), GEK: clone(w.cfgID.GEK), TEK: clone(w.cfgID.TEK)}
	kp := key.NewStatic(ks)
	if w.cfg("alias") > 1 {
		scribble(ks.KEK, ks.AEK, ks.TEK, ks.IEK) // the provider keeps its own
	}
	var err error
	if w.cfg("standalone") > 0 {
		n.alone, err = id.NewStandalone(sc, n.idprov)
		if err != nil {
			w.herr("NewStandalone: %v", err)
			return
		}
		n.idp = &idWrap{w, &n.alone}
	} else {
		n.idp = w.idp
	}
	kprov := &sharedKeys{p: &kp, hold: w.cfg("alias") > 0 && w.p.Seed%2 == 0}
	n.d1, err = d1.New(ctx, kprov, n.prov, n.idp)
	if err != nil {
		w.herr("d1.New: %v", err)
		return
	}
	n.idx, err = index.NewSecureIndex(ctx, kprov, n.prov, n.idp)
	if err != nil {
		w.herr("NewSecureIndex: %v", err)
		return
	}
	if !bytes.Equal(sc.UEK, w.cfgID.UEK) || !bytes.Equal(sc.GEK, w.cfgID.GEK) || !bytes.Equal(sc.TEK, w.cfgID.TEK) {
		w.fail("C16 C26", "argument written to", "NewStandalone changed the keys it was given")
	}
	if kprov.hold {
		for _, k := range kprov.out {
			if !bytes.Equal(k.KEK, w.keys.KEK) || !bytes.Equal(k.AEK, w.keys.AEK) || !bytes.Equal(k.TEK, w.keys.TEK) || !bytes.Equal(k.IEK, w.keys.IEK) {
				w.fail("C16 C26", "keys of the provider written to", "New or NewSecureIndex changed memory of the key provider")
			}
		}
	}
	if w.cfg("alias") > 0 {
		scribble(ks.KEK, ks.AEK, ks.TEK, ks.IEK, sc.UEK, sc.GEK, sc.TEK)
		for _, k := range kprov.out { // what the provider handed out belongs to whoever received it
			scribble(k.KEK, k.AEK, k.TEK, k.IEK)
		}
		k2, err := kp.GetKeys(ctx)
		if err == nil && (!bytes.Equal(k2.KEK, w.keys.KEK) || !bytes.Equal(k2.AEK, w.keys.AEK) || !bytes.Equal(k2.TEK, w.keys.TEK) || !bytes.Equal(k2.IEK, w.keys.IEK)) {
			w.fail("C16", "keys shared", "the key provider's keys change with memory its callers hold")
		}
	}
	n.up = true
}

// sharedKeys notes the keys handed out.
type sharedKeys struct {
	p    key.Provider
	hold bool // hands out the same memory again
	out  []key.Keys
}

func (s *sharedKeys) GetKeys(ctx context.Context) (key.Keys, error) {
	if s.hold && len(s.out) > 0 {
		return s.out[0], nil
	}
	k, err := s.p.GetKeys(ctx)
	s.out = append(s.out, k)
	return k, err
}

func copyKeys(k key.Keys) key.Keys {
	return key.Keys{KEK: clone(k.KEK), AEK: clone(k.AEK), TEK: clone(k.TEK), IEK: clone(k.IEK)}
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// setup builds nodes, clocks and stores; runs as first thing in the main task.
func (w *World) setup() {
	nn := w.cfg("nodes")
	if nn < 1 {
		nn = 1
	}
	simrt.Clocks = nil
	for i := 0; i < nn; i++ {
		off := time.Duration(w.p.Cfg[fmt.Sprintf("skew%d", i)]) * time.Millisecond
		simrt.Clocks = append(simrt.Clocks, simrt.NodeClock{Offset: off, Loc: zone(w.p.Cfg[fmt.Sprintf("zone%d", i)])})
	}
	w.back = newBacking(w, storeKinds[w.cfg("store")%len(storeKinds)], "main.db")
	if w.cfg("idstore") > 0 {
		w.idBack = newBacking(w, storeKinds[(w.cfg("idstore")-1)%len(storeKinds)], "id.db")
	}
	if w.idp == nil {
		w.idp = &StubIDP{w: w, users: map[string]*stubUser{}}
	}
	w.runQuiet("setup", -1, func(oc *OpCtx) {
		if err := w.back.open(); err != nil {
			w.herr("open: %v", err)
			return
		}
		if w.idBack != nil {
			if err := w.idBack.open(); err != nil {
				w.herr("open: %v", err)
				return
			}
		}
	})
	for i := 0; i < nn; i++ {
		n := &Node{n: i}
		w.nodes = append(w.nodes, n)
		w.runQuiet("boot", i, func(oc *OpCtx) { w.boot(oc.ctx, n) })
	}
}

func zone(i int) *time.Location {
	switch i % 6 {
	case 1:
		return time.FixedZone("IST", 5*3600+1800)
	case 2:
		return time.FixedZone("NST", -(3*3600 + 1800))
	case 3:
		return time.FixedZone("LINT", 14*3600)
	case 4:
		return time.FixedZone("", -12*3600)
	case 5:
		return time.FixedZone("X", 1800)
	}
	return time.UTC
}

// ---------------------------------------------------------------- running operations

func (w *World) newOp(op *Op, kind string, client, node int) *OpCtx {
	w.nOps++
	oc := &OpCtx{w: w, op: op, seq: w.nOps, client: client, kind: kind, node: node, cancelAt: -1}
	for _, f := range op.F {
		if l := w.salts[kind]; f.K == "rng-repeat" && len(l) > 0 {
			// The first N reads (all for 0) give what an earlier call of the kind got.
			oc.repeat = simrt.NewStream(simrt.Mix64(w.p.Seed, l[len(l)-1-abs(f.A)%len(l)], 0xabcdef))
			oc.repN = f.N
			if oc.repN <= 0 {
				oc.repN = 1 << 30
			}
			oc.repeats = true
			w.fire(oc, f.K, true)
		}
	}
	oc.stream = simrt.NewStream(simrt.Mix64(w.p.Seed, op.S, 0xabcdef))
	oc.maxCalls = 64
	oc.order = simrt.Mix64(w.p.Seed, op.S, 0x0bde)
	ctx := context.Background()
	if w.logCtx() != nil {
		// All calls share a logger, as they do if an application sets it up once.
		ctx = w.logs.ctx
	}
	ctx = context.WithValue(ctx, ctxKey{}, oc)
	if w.cfg("deadline") > 0 {
		var c context.CancelFunc
		ctx, c = context.WithDeadline(ctx, time.Date(2290, 1, 1, 0, 0, 0, 0, time.UTC))
		defer func() {
			c2 := oc.cancel
			oc.cancel = func() { c2(); c() }
		}()
	}
	oc.ctx, oc.cancel = context.WithCancel(ctx)
	for _, f := range op.F {
		if f.K == "pre-cancel" {
			w.fire(oc, f.K, true)
			oc.cancelAt = 0
			oc.cancel()
		}
	}
	return oc
}

// runOp runs f as the body of one operation on the node, in its own task, and waits for it.
func (w *World) runOp(op *Op, kind string, client int, n *Node, f func(oc *OpCtx)) *OpCtx {
	w.ensureUp(n)
	oc := w.newOp(op, kind, client, n.n)
	w.stats.Ops[kind]++
	for _, f := range op.F {
		if f.K == "async-cancel" {
			f := f
			simrt.Go("canceller", -1, nil, func() {
				for i := 0; i < f.N; i++ {
					simrt.YIO()
				}
				if oc.end == 0 && oc.cancelAt < 0 {
					w.fire(oc, f.K, true)
					oc.cancelAt = len(oc.calls)
					oc.cancel()
				}
			})
		}
	}
	w.startOp(oc, f)
	return oc
}

func (w *World) startOp(oc *OpCtx, f func(oc *OpCtx)) {
	oc.begin = w.stamp()
	w.lastOp[oc.client] = oc
	t := simrt.Go(oc.kind, oc.node, oc, func() {
		defer func() {
			if r := recover(); r != nil && !simrt.Unwinding() {
				oc.panicked = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		f(oc)
		oc.done = true
	})
	simrt.Join(t)
	oc.end = w.stamp()
	oc.cancel()
	if !oc.done && oc.panicked == "" && !oc.crashed && !w.stopped() {
		if t.Killed() {
			oc.crashed = true
		} else {
			w.herr("operation %s ended without result", oc.kind)
		}
	}
	if oc.panicked != "" {
		w.fail("*", "panic", "%s panicked: %s", oc.kind, oc.panicked)
	}
	if !oc.quiet {
		w.salts[oc.kind] = append(w.salts[oc.kind], oc.op.S)
		w.afterOp(oc)
	}
}

var stampN int64

func (w *World) stamp() int64 { stampN++; return stampN }

// trimStack reduces a stack to function names and lines, which do not differ between runs.
func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "\npanic("); i > 0 {
		s = s[i+1:]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if len(out) > 0 {
				out[len(out)-1] += " " + l
			}
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "created by ") {
			break
		}
		if strings.HasPrefix(l, "goroutine ") || l == "" {
			continue
		}
		out = append(out, l)
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "; ")
}

// runQuiet runs harness work (setup, verification) without faults.
func (w *World) runQuiet(kind string, node int, f func(oc *OpCtx)) *OpCtx {
	op := &Op{K: kind, S: simrt.Mix64(0x9017, uint64(w.nOps))}
	oc := &OpCtx{w: w, op: op, kind: kind, node: node, quiet: true, cancelAt: -1, client: -1}
	w.nOps++
	oc.seq = w.nOps
	oc.stream = simrt.NewStream(simrt.Mix64(w.p.Seed, op.S, 3))
	oc.order = simrt.Mix64(w.p.Seed, op.S, 4)
	oc.ctx, oc.cancel = context.WithCancel(context.WithValue(context.Background(), ctxKey{}, oc))
	w.startOp(oc, f)
	return oc
}

// afterOp checks what must hold for every call.
func (w *World) afterOp(oc *OpCtx) {
	w.stats.Checks++
	if w.prop == "C20" {
		if oc.badCtx != "" {
			w.fail("C20", "context not passed on", "%s: %s", oc.kind, oc.badCtx)
		}
		if oc.afterCan > 0 {
			w.fail("C20", "calls after cancellation", "%s made %d more provider calls after a provider call had returned the cancellation", oc.kind, oc.afterCan)
		}
		if oc.mutCan > 0 {
			w.fail("C20", "effect after cancellation", "%s changed storage after it was cancelled", oc.kind)
		}
		if len(oc.calls) > oc.maxCalls {
			w.fail("C20", "too many provider calls", "%s made %d provider calls, more than %d", oc.kind, len(oc.calls), oc.maxCalls)
		}
	}
	if w.prop == "C21" {
		w.checkLogs(oc)
	}
}

func randHook(p []byte) (int, error) {
	oc := curOp()
	if oc == nil {
		simrt.GlobalRand(p)
		return len(p), nil
	}
	n := oc.nRand
	oc.nRand++
	if oc.rngShort > 0 && len(p) == oc.rngShort {
		oc.rngShort = 0
	}
	if !oc.quiet {
		for _, f := range oc.op.F {
			hit := f.N == n
			switch f.K {
			case "rng-err":
				if hit {
					oc.w.fire(oc, f.K, true)
					oc.rngFault = true
					return 0, simrt.ErrRand
				}
			case "rng-err+":
				if n >= f.N {
					oc.w.fire(oc, f.K, true)
					oc.rngFault = true
					return 0, simrt.ErrRand
				}
			case "rng-short":
				if hit && len(p) > 0 {
					k := f.A % 64
					if k >= len(p) {
						k = len(p) - 1
					}
					if k < 0 {
						k = 0
					}
					oc.stream.Read(p[:k])
					if f.A >= 64 {
						// Fewer bytes than asked for, but no error: the rest has to be asked for again.
						oc.w.fire(oc, "rng-partial", false)
						oc.rngShort = len(p) - k
						return k, nil
					}
					oc.w.fire(oc, f.K, true)
					oc.rngFault = true
					return k, simrt.ErrRand
				}
			}
		}
	}
	if oc.repeat != nil && n < oc.repN {
		oc.repeat.Read(p)
	} else {
		oc.stream.Read(p)
	}
	return len(p), nil
}

func orderRand() uint64 {
	oc := curOp()
	if oc == nil {
		return 12345
	}
	oc.order = simrt.Mix64(oc.order, 1)
	return oc.order
}

// ---------------------------------------------------------------- identity provider stub

type stubUser struct {
	token  string
	ident  id.Identity
	reject bool

	given *id.Identity // what the provider keeps handing out, if it does not make copies, and
	kept  id.Identity  // what that has to look like
}

// give returns the identity, in memory that the provider goes on using.
func (u *stubUser) give(w *World) id.Identity {
	u.check(w)
	if u.given == nil || !identSame(u.kept, u.ident) {
		g := copyIdent(u.ident)
		if u.ident.Groups == nil {
			g.Groups = nil
		}
		u.given, u.kept = &g, copyIdent(u.ident)
	}
	return *u.given
}

func (u *stubUser) check(w *World) {
	if u.given != nil && !identSame(*u.given, u.kept) {
		w.fail("C16", "identity provider's memory written to", "the identity of %s, as its provider keeps it, became scopes %#x groups %v", u.kept.ID, uint64(u.given.Scopes), groupText(*u.given))
	}
}

// StubIDP is an identity provider whose data the harness controls.
type StubIDP struct {
	w     *World
	users map[string]*stubUser
}

var errIDP = errors.New("simulated identity provider failure")

func (s *StubIDP) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	return idCall(s.w, ctx, token, func() (id.Identity, error) {
		u := s.users[token]
		if u == nil || u.reject {
			return id.Identity{}, errors.New("token not accepted")
		}
		if s.w.cfg("alias") > 0 {
			return u.give(s.w), nil
		}
		return copyIdent(u.ident), nil
	})
}

func copyIdent(i id.Identity) id.Identity {
	o := i
	o.Groups = make(map[string]id.AccessGroup, len(i.Groups))
	for k, v := range i.Groups {
		o.Groups[k] = v
	}
	return o
}

// idWrap puts the fault points of the identity provider around the real Standalone.
type idWrap struct {
	w *World
	p id.Provider
}

func (s *idWrap) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	return idCall(s.w, ctx, token, func() (id.Identity, error) { return s.p.GetIdentity(ctx, token) })
}

func idCall(w *World, ctx context.Context, token string, f func() (id.Identity, error)) (id.Identity, error) {
	simrt.YIO()
	oc := curOp()
	if oc == nil || oc.quiet {
		return f()
	}
	n := oc.nID
	oc.nID++
	w.stats.Calls++
	oc.idFault = false
	oc.calls = append(oc.calls, Call{Op: "identity", Key: token})
	w.checkCtx(oc, ctx, "identity lookup")
	after, odd := false, false
	for _, fl := range oc.op.F {
		hit := fl.N == n || strings.HasSuffix(fl.K, "+") && n >= fl.N
		if !hit {
			continue
		}
		switch strings.TrimSuffix(fl.K, "+") {
		case "id-err":
			w.fire(oc, fl.K, true)
			oc.idFault = true
			return id.Identity{}, errIDP
		case "id-odd": // an identity together with an error
			w.fire(oc, fl.K, true)
			odd = true
		case "id-slow":
			w.fire(oc, fl.K, false)
			simrt.Sleep(time.Duration(fl.A) * time.Millisecond)
		case "id-lost":
			w.fire(oc, fl.K, true)
			after = true
		case "id-cancel":
			if oc.cancelAt < 0 {
				w.fire(oc, fl.K, true)
				oc.cancelAt = len(oc.calls) - 1
				oc.cancel()
			}
		case "id-crash":
			w.fire(oc, fl.K, true)
			w.crash(oc.node, fl.A)
		}
	}
	if ctx.Err() != nil {
		oc.refused()
		oc.idFault = true
		return id.Identity{}, ctx.Err()
	}
	i, err := f()
	if after {
		oc.idFault = true
		return id.Identity{}, errIDP
	}
	if odd {
		oc.idFault = true
		if i.ID == "" || err != nil {
			i = id.Identity{ID: "", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{}}
		}
		i.Scopes = id.ScopeAll
		return i, errIDP
	}
	if err == nil {
		oc.idAt = 1 + len(oc.lines)
	}
	return i, err
}

// ---------------------------------------------------------------- log sink

type logSink struct {
	w     *World
	base  zerolog.Logger
	ctx   context.Context // holds the logger which all calls get
	ready bool
	own   []string
	probe string
}

func (l *logSink) Write(p []byte) (int, error) {
	if oc := curOp(); oc != nil {
		oc.lines = append(oc.lines, string(p))
	} else {
		l.own = append(l.own, string(p))
	}
	return len(p), nil
}

// logCtx is the logger the callers put into their contexts: 1 is a plain one, more have a longer context
// with spare room.
func (w *World) logCtx() *zerolog.Logger {
	n := w.cfg("log")
	if n == 0 {
		return nil
	}
	l := w.logs
	if !l.ready {
		l.ready = true
		level := zerolog.DebugLevel
		if w.cfg("loglevel") > 0 {
			level = []zerolog.Level{zerolog.InfoLevel, zerolog.WarnLevel, zerolog.ErrorLevel}[w.cfg("loglevel")%3]
		}
		c := zerolog.New(l).Level(level).With()
		for i := 0; i < n; i++ {
			c = c.Str(fmt.Sprintf("app%d", i), "sim")
		}
		l.base = c.Logger()
		l.ctx = l.base.WithContext(context.Background())
		l.base.Error().Msg("probe")
		l.probe = l.own[len(l.own)-1]
		l.own = nil
	}
	return &l.base
}

func mkdir() (string, error) {
	d, err := os.MkdirTemp(os.TempDir(), "d1sim")
	if err == nil {
		err = os.WriteFile(filepath.Join(d, "pid"), []byte(fmt.Sprint(os.Getpid())), 0o600)
	}
	return d, err
}

func hx(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%s..(%d bytes)", hex.EncodeToString(b[:24]), len(b))
	}
	return hex.EncodeToString(b)
}

// refused notes that a provider call was turned down because the context is done.
func (oc *OpCtx) refused() {
	t := simrt.Current()
	if oc.sawBy[t] {
		oc.afterCan++
	}
	if oc.sawBy == nil {
		oc.sawBy = map[*simrt.Task]bool{}
	}
	oc.sawBy[t] = true
	oc.sawCan = true
}
