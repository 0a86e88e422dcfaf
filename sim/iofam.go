package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	d1io "github.com/cybercryptio/d1-lib/v2/io"

	"verifsim/simrt"
)

// The "io" family: clients use one of the shipped storage providers directly and share its keys; the history of
// every key has to be that of a map, whatever overlapped and wherever the process or the disk gave up.

type ioKey struct {
	id []byte
	dt d1io.DataType
}

type ioOp struct {
	kind     string
	key      int
	val      string // value written, or value read
	cls      string // "ok", "not found", "exists", "error", "crashed"
	client   int
	begin    int64
	end      int64
	seq      int
	overlaps bool
}

type ioRun struct {
	*World
	keys []ioKey
	hist []ioOp
	flt  []int64 // when disk faults fired
}

var ioTypes = []d1io.DataType{0, 1, 2, 3, 4, 5, 6, 255, 256, 257, 0x6161, 0x8000, 65535, 13, 100, 127, 128, 129, 300}

// makeKeys chooses IDs and types that are easy to confuse.
func (s *ioRun) makeKeys(n int) {
	r := simrt.NewRng(simrt.Mix64(s.p.Seed, 0x10f))
	seen := map[string]bool{}
	add := func(id []byte, dt d1io.DataType) {
		if k := skey(id, dt); !seen[k] {
			seen[k] = true
			s.keys = append(s.keys, ioKey{id, dt})
		}
	}
	var base []byte
	switch r.N(6) {
	case 0:
	case 1:
		base = []byte{byte(r.N(256))}
	case 2:
		base = []byte("6161")
	case 3:
		base = make([]byte, 16)
		simrt.NewStream(r.U64()).Read(base)
	case 4:
		base = bytes.Repeat([]byte{byte(r.N(3))}, 1+r.N(20))
	case 5:
		base = make([]byte, []int{100, 1000, 4090, 4096, 5000, 32000, 32765}[r.N(7)])
		simrt.NewStream(r.U64()).Read(base)
	}
	if n > 25 { // many records, so that the database file has many pages
		for i := 0; i < n; i++ {
			id := make([]byte, []int{1, 16, 36, 36, 36, 300}[r.N(6)])
			simrt.NewStream(r.U64()).Read(id)
			add(id, ioTypes[r.N(6)])
		}
		return
	}
	for i := 0; i < 200 && len(s.keys) < n; i++ {
		dt := ioTypes[r.N(6)]
		if r.P(30) {
			dt = ioTypes[r.N(len(ioTypes))]
		}
		id := clone(base)
		switch r.N(14) {
		case 12, 13: // the ID goes on like the type is written
			if dt < 10 {
				dt = []d1io.DataType{10, 11, 13, 100, 127, 128, 129, 300, 255, 256, 257, 1234, 6553, 65535}[r.N(14)]
			}
			d := fmt.Sprint(uint16(dt))
			cut := 1 + r.N(len(d)-1)
			rest, _ := strconv.Atoi(d[cut:])
			add(id, dt)
			dt = d1io.DataType(rest)
			if b, err := hex.DecodeString(d[:cut]); err == nil && r.P(70) {
				id = append(id, b...)
			} else {
				id = append(id, d[:cut]...)
			}
		case 0:
		case 1: // ends like the encoding of a type
			t := ioTypes[r.N(len(ioTypes))]
			id = binary.LittleEndian.AppendUint16(id, uint16(t))
			for k := r.N(3); k > 0; k-- {
				id = append(id, 0)
			}
		case 2:
			id = append(id, make([]byte, r.N(5))...)
		case 3:
			id = append(id, fmt.Sprintf(":%d", ioTypes[r.N(len(ioTypes))])...)
		case 4:
			id = []byte(fmt.Sprintf("%x", base))
		case 5:
			if len(id) > 0 {
				id = id[:len(id)-1]
			}
		case 6:
			id = append(id, byte(r.N(256)))
		case 7:
			id = append([]byte{0}, id...)
		case 8:
			id = nil
		case 9:
			id = binary.AppendUvarint(id, uint64(ioTypes[r.N(len(ioTypes))]))
		case 10:
			id = append(id, fmt.Sprintf("%d", r.N(30))...)
		case 11:
			if len(id) > 0 {
				id[len(id)-1] ^= 1 << r.N(8)
			}
		}
		if len(id) > 32765 {
			id = id[:32765]
		}
		add(id, dt)
	}
}

func (s *ioRun) value(op *Op) []byte {
	v := contentOf(s.p.Seed, op.arg(1))
	if len(v) >= 8 {
		binary.LittleEndian.PutUint64(v, op.S)
	}
	return v
}

func ioClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, d1io.ErrNotFound):
		return "not found"
	case errors.Is(err, d1io.ErrAlreadyExists):
		return "exists"
	}
	return "error"
}

// provOp makes one call to the provider.
func (s *ioRun) provOp(c int, op *Op) {
	n := s.nodes[0]
	if s.cfg("onenode") == 0 {
		n = s.nodes[c%len(s.nodes)]
	}
	ki := abs(op.arg(0)) % len(s.keys)
	k := s.keys[ki]
	h := ioOp{kind: op.K, key: ki, client: c, cls: "crashed"}
	var val []byte
	if op.K == "put" || op.K == "update" {
		val = s.value(op)
		h.val = string(val)
	}
	alias := s.cfg("alias") > 0
	var bad string
	oc := s.runOp(op, op.K, c, n, func(oc *OpCtx) {
		h.seq, h.begin = oc.seq, oc.begin
		id, data := clone(k.id), val
		okID, okData := func() bool { return true }, func() bool { return true }
		if alias {
			id, okID = withSpare(k.id)
			if op.K == "put" || op.K == "update" {
				data, okData = withSpare(val)
			}
		} else if len(id) == 0 && op.S%2 == 0 {
			id = nil
		}
		if len(data) == 0 && op.S%3 == 0 {
			data = nil
		}
		var out []byte
		var err error
		switch op.K {
		case "put":
			err = s.back.prov.Put(oc.ctx, id, k.dt, data)
		case "get":
			out, err = s.back.prov.Get(oc.ctx, id, k.dt)
			h.val = string(out)
		case "update":
			err = s.back.prov.Update(oc.ctx, id, k.dt, data)
		case "delete":
			err = s.back.prov.Delete(oc.ctx, id, k.dt)
		}
		h.cls = ioClass(err)
		s.stats.Results[op.K+" "+h.cls]++
		if op.K == "get" && err != nil && len(out) > 0 {
			bad = "a failed get returned data"
		}
		if alias {
			if !okID() || !okData() {
				bad = "an argument or the memory behind it was written to"
			}
			scribble(id, data)
			if cap(out) > 0 {
				scribble(out[:cap(out)])
			}
		}
		s.tracef("op%d client%d %s key%d %s -> %s %s", oc.seq, c, op.K, ki, vtext(h.val), h.cls, errText(err, h.cls))
	})
	h.end = oc.end
	if oc.crashed {
		h.cls = "crashed"
		h.end = oc.crashAt
	}
	h.begin = oc.begin
	h.seq = oc.seq
	s.hist = append(s.hist, h)
	if bad != "" {
		if strings.HasPrefix(bad, "an argument") {
			s.fail("C16", "caller's memory written", "%s: %s", op.K, bad)
		} else {
			s.fail("C14 C15", "data with an error", "%s: %s", op.K, bad)
		}
	}
	if h.cls == "error" && !s.faultIn(h.begin, h.end) {
		s.fail("C14 C15 C16 C17", "call fails", "op%d %s key %s type %d fails without a cause", h.seq, op.K, hx(k.id), k.dt)
	}
	if h.cls != "error" && h.cls != "crashed" && oc.diskRefused && (op.K == "put" || op.K == "update" || op.K == "delete") && h.cls == "ok" {
		s.fail("C15", "refused write acknowledged", "op%d %s key %s type %d: the disk refused a write, the call reports success", h.seq, op.K, hx(k.id), k.dt)
	}
}

func errText(err error, cls string) string {
	if cls == "error" {
		return err.Error()
	}
	return ""
}

func vtext(v string) string {
	if v == "" {
		return ""
	}
	return fmt.Sprintf("%.12x(%d)", v, len(v))
}

func (s *ioRun) faultIn(a, b int64) bool {
	for _, t := range s.World.diskFaults {
		if a <= t && t <= b {
			return true
		}
	}
	return false
}

// withSpare copies b into memory with spare capacity and tells whether everything is unchanged.
func withSpare(b []byte) ([]byte, func() bool) {
	buf := make([]byte, len(b)+64)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	want := clone(buf)
	return buf[:len(b)], func() bool { return bytes.Equal(buf, want) }
}

// open2 opens the database a second time.
func (s *ioRun) open2(c int, op *Op) {
	n := s.nodes[0]
	s.runOp(op, op.K, c, n, func(oc *OpCtx) {
		if !s.back.local() || s.back.down {
			return
		}
		t0 := simrt.NowNanos()
		watch := simrt.TimeAfterFunc(time.Hour, func() {
			s.fail("C15", "second open does not return", "the database is in use and a second NewBolt neither succeeds nor fails within an hour")
			simrt.Abort()
		})
		defer watch.Stop()
		_, err := d1io.NewBolt(s.back.path)
		if s.stopped() {
			return
		}
		s.stats.Results["open2 "+okErr(err)]++
		s.tracef("op%d client%d second open -> %v after %v", oc.seq, c, err, time.Duration(simrt.NowNanos()-t0))
		if err == nil {
			s.fail("C15", "second open succeeds", "the database is in use and a second NewBolt succeeds")
		}
	})
}

// reopen cuts the power and opens the database again, with faults while doing so.
func (s *ioRun) reopen(c int, op *Op) {
	s.runOp(&Op{K: "crash", S: op.S}, "crash", c, s.nodes[0], func(oc *OpCtx) {
		s.fire(oc, "crash-idle", false)
		s.crash(0, op.arg(0))
	})
	if !s.back.local() || len(op.F) == 0 || s.opening || !s.back.down {
		return
	}
	// Opening meets faults too.
	s.opening = true
	oc := s.newOp(op, "reopen", c, 0)
	oc.faultyOpen = true
	s.startOp(oc, func(oc *OpCtx) {
		err := s.back.open()
		s.tracef("op%d client%d open -> %v", oc.seq, c, err)
		s.stats.Results["reopen "+okErr(err)]++
		s.back.down = err != nil
		if err != nil {
			if !oc.diskFault {
				s.fail("C15", "storage does not reopen after a crash", "NewBolt: %v", err)
			}
		}
	})
	s.opening = false
}

func runIO(w *World) {
	s := &ioRun{World: w}
	w.back = newBacking(w, storeKinds[w.cfg("store")%len(storeKinds)], "main.db")
	nn := w.cfg("nodes")
	if nn < 1 {
		nn = 1
	}
	for i := 0; i < nn; i++ {
		simrt.Clocks = append(simrt.Clocks, simrt.NodeClock{Loc: time.UTC})
		w.nodes = append(w.nodes, &Node{n: i, up: true})
	}
	w.idp = &StubIDP{w: w, users: map[string]*stubUser{}}
	w.bootHook = func(n *Node) { n.up = true }
	w.runQuiet("setup", -1, func(oc *OpCtx) {
		if err := w.back.open(); err != nil {
			w.herr("open: %v", err)
		}
	})
	nk := w.cfg("keys")
	if nk < 1 {
		nk = 3
	}
	s.makeKeys(nk)
	if w.stopped() {
		return
	}
	var ts []*simrt.Task
	for i := range w.p.Clients {
		i, ops := i, w.p.Clients[i]
		ts = append(ts, simrt.Go(fmt.Sprintf("client%d", i), -1, nil, func() {
			for j := range ops {
				if w.stopped() {
					return
				}
				switch ops[j].K {
				case "open2":
					s.open2(i, &ops[j])
				case "reopen":
					s.reopen(i, &ops[j])
				default:
					s.provOp(i, &ops[j])
				}
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if w.stopped() {
		return
	}
	// What is left in the end; after one more loss of power for the file-backed provider.
	if w.back.local() && w.cfg("lastcrash") > 0 {
		s.reopen(0, &Op{K: "reopen", A: []int{w.cfg("lastcrash")}, S: 77})
	}
	for ki := range s.keys {
		if !w.stopped() {
			s.provOp(len(w.p.Clients), &Op{K: "get", A: []int{ki}, S: simrt.Mix64(uint64(ki), 5)})
		}
	}
	if w.stopped() {
		return
	}
	s.check()
}

// check looks for a one-at-a-time order of each key's calls.
func (s *ioRun) check() {
	for ki := range s.keys {
		var h []ioOp
		for _, o := range s.hist {
			if o.key != ki {
				continue
			}
			if o.cls == "error" || o.cls == "crashed" && o.kind == "get" {
				continue // without effect
			}
			h = append(h, o)
		}
		h = dropDirty(h)
		sort.Slice(h, func(a, b int) bool { return h[a].begin < h[b].begin })
		s.stats.Checks++
		if msg := linMap(h); msg != "" {
			s.fail("C14 C15 C16", "not linearizable", "key %s type %d: no order of these calls explains the results: %s", hx(s.keys[ki].id), s.keys[ki].dt, msg)
			return
		}
	}
}

// dropDirty leaves out reads that saw the effect of a call which a crash cut short: nobody was promised it.
func dropDirty(h []ioOp) []ioOp {
	var out []ioOp
	for _, o := range h {
		dirty := false
		if o.kind == "get" {
			for _, x := range h {
				if x.cls == "crashed" && x.begin < o.end && o.begin < x.end {
					if x.kind == "delete" && o.cls == "not found" || x.kind != "delete" && o.cls == "ok" && o.val == x.val {
						dirty = true
					}
				}
			}
		}
		if !dirty {
			out = append(out, o)
		}
	}
	return out
}

// linMap reports whether the calls are those of a map slot that is empty in the beginning.
func linMap(h []ioOp) string {
	n := len(h)
	const absent = "\x00absent"
	words := (n + 63) / 64
	memo := map[string]bool{}
	done := make([]uint64, words)
	best := 0
	keyOf := func(st string) string {
		b := make([]byte, 0, 8*words+len(st))
		for _, d := range done {
			b = binary.LittleEndian.AppendUint64(b, d)
		}
		return string(append(b, st...))
	}
	var dfs func(cnt int, st string, maxBegin int64) bool
	dfs = func(cnt int, st string, maxBegin int64) bool {
		if cnt > best {
			best = cnt
		}
		minEnd := int64(1) << 62
		left := 0
		for i := 0; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 0 && h[i].cls != "crashed" {
				left++
				if h[i].end < minEnd {
					minEnd = h[i].end
				}
			}
		}
		if left == 0 {
			return true
		}
		k := keyOf(st)
		if memo[k] {
			return false
		}
		memo[k] = true
		for i := 0; i < n; i++ {
			if done[i/64]>>(i%64)&1 != 0 || h[i].begin > minEnd {
				continue
			}
			o := &h[i]
			if o.cls == "crashed" && maxBegin > o.end {
				continue
			}
			ns, ok := mapStep(o, st, absent)
			if !ok {
				continue
			}
			done[i/64] |= 1 << (i % 64)
			mb := maxBegin
			if o.begin > mb {
				mb = o.begin
			}
			r := dfs(cnt+1, ns, mb)
			done[i/64] &^= 1 << (i % 64)
			if r {
				return true
			}
		}
		return false
	}
	if dfs(0, absent, 0) {
		return ""
	}
	var t []string
	for _, o := range h {
		t = append(t, fmt.Sprintf("op%d[%d,%d] client%d %s(%s)=%s", o.seq, o.begin, o.end, o.client, o.kind, vtext(o.val), o.cls))
		if len(t) > 30 {
			break
		}
	}
	return strings.Join(t, "; ")
}

func mapStep(o *ioOp, st, absent string) (string, bool) {
	has := st != absent
	v := "\x01" + o.val
	crashed := o.cls == "crashed"
	switch o.kind {
	case "put":
		if crashed {
			return v, !has
		}
		if o.cls == "ok" {
			return v, !has
		}
		return st, o.cls == "exists" && has
	case "update":
		if crashed {
			return v, has
		}
		if o.cls == "ok" {
			return v, has
		}
		return st, o.cls == "not found" && !has
	case "get":
		if o.cls == "ok" {
			return st, st == v
		}
		return st, o.cls == "not found" && !has
	case "delete":
		return absent, o.cls == "ok" || crashed
	}
	return st, false
}
