package main

import (
	"fmt"

	"github.com/cybercryptio/d1-lib/v2/id"

	"verifsim/simrt"
)

// gen makes one plan.
type gen struct {
	simrt.Rng
	p     *Plan
	id    string
	deep  bool
	users int
	nodes int
	kws   int
	alone bool
	objs  int
	toks  int
	badP  int // percent of calls with a token that is not good
	long  int // factor of the lengths of the programs
	cur   int // client
}

func (g *gen) oneOf(l ...int) int { return l[g.N(len(l))] }

// weighted picks an index by weight.
func (g *gen) weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := g.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

type wop struct {
	k string
	w int
}

func (g *gen) pick(l []wop) string {
	t := 0
	for _, o := range l {
		t += o.w
	}
	x := g.N(t)
	for _, o := range l {
		if x < o.w {
			return o.k
		}
		x -= o.w
	}
	return l[0].k
}

func idHash(id string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(id); i++ {
		h = (h ^ uint64(id[i])) * 1099511628211
	}
	return h
}

// genPlan makes plan n of a property.
func genPlan(id string, n int, tier string, seed uint64) *Plan {
	s := simrt.Mix64(seed, idHash(id), uint64(n))
	g := &gen{Rng: simrt.NewRng(s), id: id, deep: tier == "thorough"}
	g.p = &Plan{Prop: id, Fam: "sys", Seed: g.U64(), Cfg: map[string]int{}}
	generators[id](g, n)
	return g.p
}

func (g *gen) set(k string, v int) { g.p.Cfg[k] = v }

// base sets up the deployment.
func (g *gen) base(clients int, alone int) {
	g.nodes = 1 + g.weighted(40, 35, 25)
	g.users = 1 + g.weighted(20, 40, 30, 10)
	g.kws = 1 + g.N(4)
	g.alone = g.P(alone)
	g.set("nodes", g.nodes)
	g.set("users", g.users)
	g.set("kws", g.kws)
	g.set("store", g.weighted(45, 25, 6, 18, 6))
	if g.alone {
		g.set("standalone", 1)
		g.set("groups", g.N(3))
		if g.P(30) {
			g.set("idstore", 1+g.weighted(60, 30, 0, 10))
		}
	}
	if g.P(25) {
		g.set("deadline", 1)
	}
	if g.P(6) {
		g.set("log", 1+g.N(8))
	}
	if g.P(15) {
		g.set("proxy", 1)
	}
	if g.P(15) {
		g.set("wraperr", 1+g.N(3))
	}
	if g.P(12) || g.id == "C08" && g.P(50) {
		g.set("epoch", g.N(len(simrt.Epochs)))
	}
	if g.P(30) {
		for i := 0; i < g.nodes; i++ {
			g.set(fmt.Sprintf("zone%d", i), g.N(6))
		}
	}
	if g.long = 1; g.P(1) { // instances with a long past
		clients = 1 + clients/3
		g.long = g.oneOf(8, 15, 30)
	}
	g.p.Clients = make([][]Op, clients)
	g.sched()
}

// sched chooses how the tasks are interleaved.
func (g *gen) sched() {
	s := simrt.Sched{Seed: g.U64()}
	if len(g.p.Clients) < 2 {
		s.Mode = "seq"
		if g.P(50) {
			// Calls may start threads of their own.
			s.Mode, s.Mean = "rand", g.oneOf(50, 400, 3000)
		}
		g.p.Sched = s
		return
	}
	switch g.weighted(40, 40, 20) {
	case 0:
		s.Mode, s.Mean = "io", g.oneOf(5, 15, 40, 70)
	case 1:
		s.Mode, s.Mean = "rand", g.oneOf(5, 20, 100, 500, 3000)
		if g.P(60) {
			s.Focus = uint32(g.oneOf(1, 2, 4, 8, 16, 32, 64, 128, 1|4, 8|32, 16|32, 1|32, 4|128, 2|4, 1|2|64))
		}
	default:
		s.Mode, s.Mean, s.Changes = "pct", g.oneOf(200, 2000, 10000), 2+g.N(8)
		if g.P(40) {
			s.Focus = uint32(g.oneOf(1, 8, 16, 32, 128))
		}
	}
	g.p.Sched = s
}

func (g *gen) tok() int {
	if g.badP > 0 && g.P(g.badP) {
		if g.alone && g.P(40) {
			return 10 + g.N(6)
		}
		return 1 + g.N(5)
	}
	return 0
}

func (g *gen) user() int { return g.N(g.users) }
func (g *gen) node() int { return g.N(g.nodes) }

func (g *gen) content() int {
	k := 0
	switch g.weighted(70, 25, 1, 4) {
	case 0:
		k = g.N(len(sizes))
	case 1:
		k = 30 + g.N(60)
	case 2:
		k = 90 + g.N(7)
	default:
		k = 97 + g.N(3)
	}
	return k + 100*g.N(60)
}

// adOf makes associated data less often large.
func (g *gen) ad() int {
	if g.P(40) {
		return 100 * g.N(6)
	}
	if g.P(4) {
		return g.content()
	}
	return g.N(25) + 100*g.N(60)
}

func (g *gen) group() int {
	switch g.weighted(57, 15, 15, 10, 3) {
	case 4:
		return 400 + g.N(96)
	case 1:
		return 300 + g.N(g.users)
	case 2:
		if g.alone {
			return 100 + g.N(8)
		}
	case 3:
		if g.P(8) {
			return longNames + g.N(36)
		}
		return g.N(100)
	}
	if g.alone && g.P(60) {
		return 100 + g.N(8)
	}
	return g.N(12)
}

func (g *gen) groups() []int {
	n := g.weighted(15, 45, 20, 10, 8, 2)
	if n == 5 {
		n = 5 + g.N(60)
		if g.P(6) {
			n = 200 + g.N(400)
		}
	}
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, g.group())
	}
	return l
}

func (g *gen) obj() int {
	if g.P(2) {
		return 1000 + g.N(9)
	}
	if g.P(50) && g.objs > 0 {
		return g.objs - 1
	}
	return g.N(g.objs + 1)
}

func (g *gen) scope() int {
	s := g.someScope()
	if g.P(8) { // with bits an application uses for itself
		s |= 1 << g.oneOf(9, 15, 16, 31, 32, 40, 53, 62, 63)
		if g.P(30) {
			s |= int(g.U64() &^ uint64(id.ScopeAll))
		}
	}
	return s
}

func (g *gen) someScope() int {
	switch g.weighted(50, 30, 20) {
	case 0:
		return int(id.ScopeAll)
	case 1: // all but one
		return int(id.ScopeAll) &^ (1 << g.N(9))
	}
	return g.N(int(id.ScopeEnd))
}

// op makes one operation of the kind.
func (g *gen) op(k string) Op {
	o := Op{K: k, S: g.U64()}
	switch k {
	case "enc":
		o.A = append([]int{g.user(), g.tok(), g.node(), g.content(), g.ad()}, g.groups()...)
		g.objs++
	case "upd":
		o.A = []int{g.obj(), g.user(), g.tok(), g.node(), g.content(), g.ad()}
	case "dec", "del", "acc", "authz":
		o.A = []int{g.obj(), g.user(), g.tok(), g.node()}
	case "addg", "remg":
		o.A = append([]int{g.obj(), g.user(), g.tok(), g.node()}, g.groups()...)
	case "setid":
		o.A = []int{g.user(), g.scope()}
		for n := g.N(4); n > 0; n-- {
			o.A = append(o.A, g.N(12), g.scope())
		}
	case "rej":
		o.A = []int{g.user(), g.N(2)}
	case "nu":
		o.A = []int{g.node(), g.scope()}
		if g.users < 6 {
			g.users++
		}
	case "login", "chpw":
		sel := 0
		if g.P(30) {
			sel = g.oneOf(1, 2, 3, 4, 5, 6, 7, 7, 7, 10, 11, 12)
		}
		o.A = []int{g.user(), sel, g.node(), 0}
		if g.P(6) {
			o.A[3] = 77
		}
	case "gi":
		o.A = []int{g.user(), g.tok(), g.node()}
	case "ng":
		o.A = []int{g.user(), g.tok(), g.node(), g.scope()}
	case "aug", "rug":
		t := g.user()
		if g.P(5) {
			t = 1000 + g.N(12)
		}
		o.A = []int{g.user(), g.tok(), g.node(), t}
		n := g.weighted(6, 64, 20, 10)
		for i := 0; i < n; i++ {
			x := 100 + g.N(6)
			if g.P(6) {
				x = 300 + g.N(g.users)
			} else if g.P(6) {
				x = g.N(12)
			} else if g.P(3) {
				x = 400 + g.N(100)
			}
			o.A = append(o.A, x)
		}
	case "du":
		o.A = []int{g.user(), g.tok(), g.node(), g.user()}
		if g.P(8) {
			o.A[3] = 1000 + g.N(12)
		}
	case "ia", "ix":
		o.A = []int{g.N(g.kws), g.user(), g.tok(), g.node(), g.identSel()}
	case "is":
		o.A = []int{g.N(g.kws), g.user(), g.tok(), g.node()}
	case "tn":
		o.A = []int{g.content(), g.node(), 0}
		if g.p.Cfg["foreign"] > 0 && g.P(15) {
			o.A[2] = 1
		}
		g.toks++
	case "tg":
		o.A = []int{g.N(g.toks + 1), g.node(), g.oneOf(0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), g.N(100000), g.N(g.toks + 1)}
	case "adv":
		switch g.weighted(20, 50, 30) {
		case 0:
			o.A = []int{0, g.oneOf(1, 1000, 60_000, 3_599_000, 3_600_000, 3_600_001, 3_601_000, 7_200_000)}
		case 1:
			o.A = []int{1, g.around(), g.node(), g.N(g.toks + 1)}
		default:
			o.A = []int{2, g.around(), g.node(), g.user(), g.N(3)}
		}
	case "clk":
		o.A = []int{g.node(), g.oneOf(1, -1, 1000, -1000, 500, -500, 60_000, -60_000, 3_600_000, -3_600_000, 7_200_000, -7_200_000, 86_400_000, -86_400_000)}
	case "crash":
		o.A = []int{g.node(), g.N(4)}
	}
	return o
}

// around is a number of nanoseconds close to zero.
func (g *gen) around() int {
	return g.oneOf(-1_000_000_000, -999_999_999, -1_000_000, -1000, -2, -1, 0, 1, 2, 1000, 1_000_000, 499_999_999, 999_999_999, 1_000_000_000, 1_000_000_001)
}

func (g *gen) identSel() int {
	switch g.weighted(65, 5, 30) {
	case 0:
		return g.N(6)
	case 1:
		if g.P(50) {
			return longNames + g.N(36)
		}
		return wildNames + g.N(8)
	}
	return g.N(200)
}

// add appends operations chosen by weight to client c.
func (g *gen) add(c, n int, mix []wop) {
	g.cur = c
	for i := 0; i < n; i++ {
		g.p.Clients[c] = append(g.p.Clients[c], g.op(g.pick(mix)))
	}
}

// fill gives every client a program.
func (g *gen) fill(lo, hi int, mix []wop) {
	u := g.users
	for c := range g.p.Clients {
		g.objs, g.toks, g.users = 0, 0, u
		m := mix
		if len(g.p.Clients) == 1 && g.P(15) && g.id != "C08" { // time passes
			m = mixed(mix, []wop{{"adv", 3}, {"clk", 2}})
		}
		g.add(c, (lo+g.N(hi-lo+1))*g.long, m)
	}
}

// lead puts an operation of the kind before each client's program.
func (g *gen) lead(ks ...string) {
	for c := range g.p.Clients {
		var l []Op
		for _, k := range ks {
			l = append(l, g.op(k))
		}
		g.p.Clients[c] = append(l, g.p.Clients[c]...)
	}
}

// faults adds faults of the kinds to a share of the operations (percent).
func (g *gen) faults(share int, on func(k string) bool, kinds ...string) {
	for c := range g.p.Clients {
		for i := range g.p.Clients[c] {
			o := &g.p.Clients[c][i]
			if on != nil && !on(o.K) || !g.P(share) {
				continue
			}
			n := 1
			if g.P(10) {
				n = 2
			}
			for ; n > 0; n-- {
				o.F = append(o.F, g.fault(o.K, kinds[g.N(len(kinds))]))
			}
		}
	}
}

func (g *gen) fault(opk, k string) Fault {
	f := Fault{K: k}
	span := 4
	switch opk {
	case "ia", "is", "ix":
		span = g.oneOf(4, 10, 30)
	case "nu", "login", "chpw", "gi", "ng", "aug", "rug", "du":
		span = g.oneOf(3, 6, 10)
	default:
		if g.alone {
			span = 8
		}
	}
	f.N = g.N(span)
	switch k {
	case "io-err", "io-err+", "io-lost", "io-gone":
		f.A = g.N(12)
	case "io-slow", "id-slow":
		f.A = g.oneOf(1, 100, 10_000, 3_000_000)
	case "io-odd":
		f.A = g.N(4)
	case "clock":
		f.A = g.oneOf(1, 60, 3599, 3600, 3601, 86400)
	case "crash", "crash-after":
		f.A = g.N(4)
	case "id-err", "id-odd", "id-lost", "id-cancel", "id-crash":
		f.N = 0
	case "disk-err", "disk-full":
		f.N = g.N(12)
		f.A = g.N(5000)
	case "disk-crash":
		f.N = g.N(12)
		f.A = g.N(5000)
	case "rng-err", "rng-err+":
		f.N = g.N(12)
	case "rng-short":
		f.N = g.N(12)
		f.A = g.N(128)
	case "rng-repeat":
		f.N = g.oneOf(0, 0, 1, 2, 3)
		f.A = g.N(4)
	case "tamper":
		f.N = g.N(span)
		f.A = g.N(100000)
	case "async-cancel":
		f.N = g.oneOf(1, 3, 10, 30, 100, 300)
	}
	return f
}

func any_(string) bool { return true }

func isOne(ks ...string) func(string) bool {
	return func(k string) bool { return in(k, ks) }
}

func isWrite(k string) bool {
	return in(k, []string{"enc", "upd", "del", "addg", "remg", "nu", "chpw", "ng", "aug", "rug", "du", "ia", "ix"})
}

func (g *gen) hasDisk() bool {
	return g.p.Cfg["store"] >= 3
}

// restarts inserts crashes of whole nodes between operations.
func (g *gen) restarts(share int) {
	for c := range g.p.Clients {
		var l []Op
		for _, o := range g.p.Clients[c] {
			if g.P(share) {
				l = append(l, g.op("crash"))
			}
			l = append(l, o)
		}
		g.p.Clients[c] = l
	}
}

// retries repeats operations that met a fault, without it.
func (g *gen) retries(share int, on func(k string) bool) {
	for c := range g.p.Clients {
		var l []Op
		for _, o := range g.p.Clients[c] {
			l = append(l, o)
			if len(o.F) > 0 && on(o.K) && g.P(share) {
				r := Op{K: o.K, A: append([]int{}, o.A...), S: g.U64()}
				l = append(l, r)
			}
		}
		g.p.Clients[c] = l
	}
}

var objMix = []wop{{"enc", 20}, {"upd", 20}, {"dec", 30}, {"acc", 6}, {"addg", 7}, {"remg", 6}, {"del", 5}, {"authz", 4}}
var aloneMix = []wop{{"nu", 5}, {"login", 10}, {"chpw", 6}, {"gi", 14}, {"ng", 5}, {"aug", 12}, {"rug", 8}, {"du", 2}}
var idxMix = []wop{{"ia", 40}, {"is", 35}, {"ix", 20}}

func mixed(ls ...[]wop) []wop {
	var o []wop
	for _, l := range ls {
		o = append(o, l...)
	}
	return o
}

// scale gives every weight a factor.
func scale(l []wop, f int) []wop {
	var o []wop
	for _, x := range l {
		o = append(o, wop{x.k, x.w * f})
	}
	return o
}

// all is a mix of everything the deployment has.
func (g *gen) all() []wop {
	m := mixed(scale(objMix, 2), idxMix, []wop{{"tn", 4}, {"tg", 5}})
	if g.alone {
		m = mixed(m, scale(aloneMix, 2))
	} else {
		m = mixed(m, []wop{{"setid", 3}})
	}
	return m
}

var ioFaults = []string{"io-err", "io-lost", "crash", "crash-after"}
var idFaults = []string{"id-err", "id-odd", "id-slow", "id-lost"}

var generators map[string]func(g *gen, n int)

func init() {
	generators = map[string]func(g *gen, n int){
		"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07,
		"C08": genC08, "C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C16": genC16, "C17": genC17,
		"C13": genC13, "C14": genC14, "C15": genC15, "C23": genC23, "C18": genC18, "C19": genC19, "C20": genC20, "C21": genC21, "C22": genC22, "C26": genC26,
	}
}

// huge gives a few of the objects of some rare runs contents of many megabytes.
func (g *gen) huge(n int) {
	if n%1500 != 700 {
		return
	}
	left := 2
	for c := range g.p.Clients {
		for i := range g.p.Clients[c] {
			op, at := &g.p.Clients[c][i], 3
			if op.K == "upd" {
				at = 4
			}
			if left > 0 && (op.K == "enc" || op.K == "upd") && len(op.A) > at {
				op.A[at] = hugeContent + g.N(4) + 100*g.N(60)
				left--
			}
		}
	}
}

func genC01(g *gen, n int) {
	g.base(1+g.weighted(40, 25, 20, 15), 30)
	mix := objMix
	if g.P(20) {
		mix = mixed(objMix, idxMix, []wop{{"tn", 3}})
	}
	g.fill(8, 40, mix)
	g.lead("enc")
	g.huge(n)
	if g.P(35) {
		g.restarts(6)
	}
	if g.P(35) {
		g.faults(8, isWrite, "io-err", "crash", "io-slow", "clock")
	}
}

func genC02(g *gen, n int) {
	g.base(1+g.weighted(60, 20, 20), 45)
	g.badP = g.oneOf(0, 5, 15)
	if g.users < 2 {
		g.users = 2
		g.set("users", 2)
	}
	if g.P(50) {
		g.set("scoped", 1)
	}
	mix := mixed([]wop{{"enc", 12}, {"upd", 10}, {"dec", 20}, {"acc", 10}, {"addg", 10}, {"remg", 10}, {"del", 5}, {"authz", 12}, {"ia", 3}, {"is", 4}, {"ix", 3}})
	if g.alone {
		mix = mixed(mix, []wop{{"aug", 10}, {"rug", 8}, {"ng", 4}, {"gi", 4}, {"login", 3}, {"du", 1}, {"chpw", 1}, {"nu", 1}})
		if len(g.p.Clients) == 1 && g.P(40) {
			mix = mixed(mix, []wop{{"adv", 4}, {"clk", 3}})
		}
	} else {
		mix = mixed(mix, []wop{{"setid", 14}, {"rej", 3}})
	}
	g.fill(15, 50, mix)
	g.lead("enc", "enc")
	if g.P(20) {
		g.restarts(4)
	}
}

func genC03(g *gen, n int) {
	genC02(g, n)
	if g.P(25) {
		g.set("secret", 1)
	}
	if g.P(80) {
		g.faults(20, nil, "id-err", "id-odd", "id-lost", "id-cancel", "io-err", "io-odd", "cancel", "io-slow", "id-slow", "clock", "io-lost", "io-gone")
	}
	if g.P(25) {
		g.faults(10, nil, "async-cancel", "pre-cancel")
	}
}

func genC04(g *gen, n int) {
	g.base(1+g.weighted(60, 20, 20), 30)
	g.fill(12, 50, []wop{{"enc", 12}, {"upd", 10}, {"dec", 16}, {"acc", 20}, {"addg", 20}, {"remg", 18}, {"del", 2}, {"authz", 8}})
	g.lead("enc", "addg")
	if g.P(30) {
		g.restarts(5)
	}
	if g.P(60) {
		g.faults(25, isOne("addg", "remg"), "io-err", "io-lost", "crash", "crash-after", "cancel", "io-slow")
		if g.hasDisk() && g.P(60) {
			g.faults(25, isOne("addg", "remg"), "disk-err", "disk-full", "disk-crash")
		}
		g.retries(50, isOne("addg", "remg"))
	}
}

func genC05(g *gen, n int) {
	g.base(1+g.weighted(70, 20, 10), 25)
	g.fill(8, 30, []wop{{"enc", 20}, {"upd", 30}, {"dec", 25}, {"acc", 4}, {"addg", 5}, {"remg", 3}, {"del", 5}})
	g.lead("enc")
	g.huge(n)
	g.faults(40, isOne("enc", "upd"), "io-err", "io-lost", "crash", "crash-after", "cancel", "io-err+")
	if g.hasDisk() {
		g.faults(40, isOne("enc", "upd"), "disk-err", "disk-full", "disk-crash")
	}
	g.retries(50, isOne("upd"))
}

func genC06(g *gen, n int) {
	if g.P(25) {
		genC06conc(g)
		return
	}
	g.base(1+g.weighted(70, 20, 10), 25)
	g.fill(10, 40, []wop{{"enc", 22}, {"upd", 12}, {"dec", 16}, {"acc", 6}, {"addg", 6}, {"remg", 4}, {"del", 26}, {"authz", 3}})
	g.lead("enc")
	if g.P(75) {
		g.faults(45, isOne("del"), "io-err", "io-lost", "crash", "crash-after", "cancel", "io-err+", "io-slow")
		if g.hasDisk() {
			g.faults(40, isOne("del"), "disk-err", "disk-full", "disk-crash")
		}
		g.retries(60, isOne("del"))
	}
	if g.P(20) {
		g.restarts(5)
	}
}

func genC07(g *gen, n int) {
	if g.P(10) {
		genC26(g, n)
		return
	}
	g.base(1, 55)
	g.badP = 0
	mix := mixed(objMix, idxMix)
	if g.alone {
		mix = mixed(scale(objMix, 1), idxMix, scale(aloneMix, 3))
	}
	g.fill(12, 40, mix)
	if g.alone {
		g.lead("enc", "ia", "ia", "ng", "aug", "enc")
	} else {
		g.lead("enc", "enc", "ia", "ia")
	}
	g.set("wraperr", 0)
	g.faults(45, nil, "tamper")
}

func genC08(g *gen, n int) {
	if g.P(8) {
		g.set("foc", 3)
		genC26(g, n)
		return
	}
	g.base(1, 45)
	if g.P(60) {
		g.set("foreign", 1)
	}
	if g.P(50) {
		for i := 0; i < g.nodes; i++ {
			g.set(fmt.Sprintf("skew%d", i), g.oneOf(0, 1, -1, 999, -999, 1000, -1000, 59_000, -59_000, 3_600_000, -3_600_000, g.N(10000)))
		}
	}
	mix := []wop{{"tn", 20}, {"tg", 50}, {"adv", 12}, {"clk", 6}}
	if g.alone {
		mix = mixed(mix, []wop{{"login", 10}, {"gi", 25}, {"dec", 4}, {"enc", 2}, {"adv", 6}})
	}
	g.badP = 20
	g.fill(15, 60, mix)
	g.lead("tn", "tn")
	if g.P(20) {
		g.restarts(4)
	}
	if g.P(30) {
		g.faults(8, isOne("tg", "gi", "login", "dec"), "clock", "io-slow")
	}
}

func genC09(g *gen, n int) {
	g.base(1+g.weighted(60, 20, 20), 100)
	g.badP = g.oneOf(0, 10, 20)
	g.fill(12, 45, []wop{{"nu", 8}, {"login", 30}, {"chpw", 20}, {"gi", 22}, {"du", 8}, {"ng", 3}, {"aug", 4}, {"rug", 2}, {"enc", 3}, {"dec", 3}})
	if g.P(50) {
		g.faults(25, isOne("nu", "login", "chpw", "du", "aug", "rug", "ng"), "io-err", "io-lost", "crash", "crash-after", "cancel")
		if g.p.Cfg["idstore"] == 0 && g.hasDisk() {
			g.faults(25, isOne("nu", "chpw", "du"), "disk-err", "disk-full", "disk-crash")
		}
	}
	if g.P(25) {
		g.restarts(5)
	}
}

func genC10(g *gen, n int) {
	g.base(1+g.weighted(60, 20, 20), 100)
	g.badP = g.oneOf(0, 3, 10)
	if g.users < 2 {
		g.users = 2
		g.set("users", 2)
	}
	g.set("groups", 1+g.N(4))
	if g.P(8) { // members of many groups
		g.users = 2
		g.set("users", 2)
		g.fill(40, 90, []wop{{"gi", 25}, {"ng", 40}, {"aug", 30}, {"rug", 5}})
		for c := range g.p.Clients {
			for i := range g.p.Clients[c] {
				if o := &g.p.Clients[c][i]; in(o.K, []string{"aug", "rug"}) {
					for k := 4; k < len(o.A); k++ {
						o.A[k] = 100 + g.N(40)
					}
				}
			}
		}
	} else {
		g.fill(15, 60, []wop{{"nu", 3}, {"login", 4}, {"chpw", 3}, {"gi", 30}, {"ng", 8}, {"aug", 28}, {"rug", 22}, {"du", 2}})
	}
	if g.P(35) {
		g.faults(15, isOne("aug", "rug", "ng", "du"), "io-err", "io-lost", "crash", "crash-after", "cancel")
		g.faults(10, isOne("aug", "rug", "gi", "login", "ng"), "io-err", "io-err+", "io-odd", "io-gone", "cancel")
	}
	if g.P(20) {
		g.restarts(4)
	}
}

func genC11(g *gen, n int) {
	g.base(1+g.weighted(55, 25, 20), 10)
	g.long = 1 // has its own
	lo, hi := 15, 60
	mix := idxMix
	if g.P(8) { // long chains
		lo, hi = 150, 320
		deep := g.N(40) == 0
		g.kws = 1
		g.set("kws", 1)
		g.set("store", g.oneOf(0, 0, 1))
		mix = []wop{{"ia", 90}, {"is", 4}, {"ix", 6}}
		if deep {
			lo, hi = 1090, 1130
			mix = []wop{{"ia", 985}, {"is", 7}, {"ix", 8}}
			g.users, g.badP = 1, 0
			g.set("users", 1)
			g.set("scoped", 0)
		}
		for len(g.p.Clients) > 1 {
			g.p.Clients = g.p.Clients[:1]
		}
		g.sched()
	} else if g.P(25) { // churn
		lo, hi = 60, 150
		g.kws = 1 + g.N(2)
		g.set("kws", g.kws)
		mix = []wop{{"ia", 45}, {"is", 12}, {"ix", 43}}
	}
	g.fill(lo, hi, mix)
	if far := n%250 == 60; far || n%60 == 30 { // keywords with a long past
		g.p.Clients = g.p.Clients[:1]
		g.users, g.badP = 1, 0
		g.set("users", 1)
		g.set("scoped", 0)
		g.set("store", 0)
		g.set("standalone", 0)
		g.p.Sched = simrt.Sched{Seed: g.U64(), Mode: "seq"}
		ops := g.p.Clients[0]
		ops = ops[:3+g.N(10)]
		m := 300 + g.N(900)
		if g.P(30) || far {
			m = 4100 + g.N(300)
		}
		if far && n%500 == 60 {
			m = 16400
		}
		if n == 310 {
			m = 65600 + g.N(300)
		}
		grow := 0
		switch {
		case n == 1560:
			m, grow = 2100, 1
		case g.deep && n%20000 == 5310:
			m, grow = 4200, 1
		}
		at := g.N(len(ops))
		g.p.Clients[0] = append(append(append([]Op{}, ops[:at]...), Op{K: "ich", A: []int{g.N(4), m, g.N(2), grow}, S: g.U64()}), ops[at:]...)
		return
	}
	if lo >= 150 { // deletes that remove few pairs, so that the chain gets long
		for i := range g.p.Clients[0] {
			if o := &g.p.Clients[0][i]; o.K == "ix" && len(o.A) > 4 && g.P(90) {
				o.A[4] = 6 + g.N(194)
			}
		}
	}
	if g.P(25) {
		g.restarts(3)
	}
}

func genC12(g *gen, n int) {
	g.base(1+g.weighted(75, 15, 10), 5)
	g.kws = 1 + g.N(3)
	g.set("kws", g.kws)
	g.fill(12, 50, []wop{{"ia", 42}, {"is", 22}, {"ix", 30}})
	g.faults(40, isOne("ia", "ix"), "io-err", "io-lost", "crash", "crash-after", "cancel", "io-err+")
	if g.hasDisk() {
		g.faults(40, isOne("ia", "ix"), "disk-err", "disk-full", "disk-crash")
	}
	g.retries(40, isOne("ia", "ix"))
}

func genC16(g *gen, n int) {
	if g.P(25) { // the storage providers by themselves
		genC14(g, n)
		g.set("alias", 1)
		return
	}
	g.base(1+g.weighted(40, 30, 30), 50)
	g.set("alias", 1+g.N(2))
	g.set("store", g.weighted(10, 40, 10, 30, 10))
	g.fill(10, 40, g.all())
	g.lead("enc")
	if g.P(20) {
		g.faults(8, nil, "io-err", "io-lost", "cancel")
	}
}

func genC17(g *gen, n int) {
	g.base(2+g.weighted(40, 35, 25), 50)
	g.set("store", g.weighted(20, 40, 10, 20, 10))
	g.badP = g.oneOf(0, 3)
	g.fill(6, 25, g.all())
	g.lead("enc")
	if g.P(15) {
		g.set("log", 1+g.N(5))
	}
	if g.P(10) {
		g.faults(10, nil, "io-err", "io-slow", "cancel", "async-cancel")
	}
}

func genC18(g *gen, n int) {
	g.base(1+g.weighted(70, 30), 50)
	g.set("secret", 1)
	g.set("store", g.weighted(70, 20, 0, 10))
	if g.P(30) {
		g.set("foreign", 1)
	}
	if g.P(10) { // many objects of few contents
		g.set("dup", 1)
		g.fill(20, 40, []wop{{"enc", 60}, {"upd", 20}, {"dec", 5}, {"addg", 5}, {"del", 5}})
	} else {
		g.fill(10, 35, g.all())
		g.lead("enc", "enc", "ia", "ia")
	}
	if g.P(60) {
		g.faults(15, nil, "io-err", "io-lost", "crash", "crash-after", "cancel", "id-err", "io-slow")
	}
}

func genC19(g *gen, n int) {
	g.base(1+g.weighted(70, 30), 50)
	g.fill(8, 30, g.all())
	g.lead("enc")
	kinds := []string{"rng-err", "rng-err+", "rng-short"}
	g.faults(40, isOne("enc", "upd", "addg", "remg", "nu", "chpw", "login", "ng", "aug", "rug", "ia", "ix", "tn"), kinds...)
	if g.P(80) && len(g.p.Clients) == 1 {
		g.faults(30, isOne("enc", "nu", "ng"), "rng-repeat")
		if g.P(50) {
			g.faults(60, isOne("del", "du"), "io-err", "io-lost", "cancel")
		}
	}
}

func genC20(g *gen, n int) {
	g.base(1+g.weighted(60, 40), 50)
	g.fill(8, 30, g.all())
	g.lead("enc", "ia", "ia")
	g.faults(30, nil, "cancel", "id-cancel", "pre-cancel", "async-cancel", "io-err", "io-err+", "io-slow", "id-err", "io-lost")
	if g.P(30) {
		g.faults(15, nil, "io-err+")
	}
	if g.P(50) {
		g.set("deadline", 1)
	}
	if g.P(40) {
		g.set("log", 1+g.N(8))
	}
}

func genC21(g *gen, n int) {
	g.base(1+g.weighted(20, 40, 40), 50)
	if g.P(85) {
		g.set("log", 1+g.N(8))
		if g.P(6) {
			g.set("loglevel", 1+g.N(3))
		}
	}
	g.badP = 5
	g.fill(8, 25, g.all())
	g.lead("enc")
	if g.P(30) {
		g.faults(15, nil, "io-err", "io-slow", "id-err", "cancel", "io-odd")
	}
	if g.P(50) && len(g.p.Clients) > 1 {
		g.p.Sched = simrt.Sched{Seed: g.U64(), Mode: "rand", Mean: g.oneOf(3, 10, 40), Focus: uint32(g.oneOf(128, 128|1, 128|16, 128|8))}
	}
}

func genC22(g *gen, n int) {
	g.base(1+g.weighted(70, 30), 50)
	g.set("wraperr", g.N(4))
	g.fill(10, 40, g.all())
	g.lead("enc", "ia")
	g.faults(35, isWrite, "io-err", "io-lost", "io-lost", "io-slow", "io-err+", "io-gone", "cancel")
	if g.P(30) {
		g.faults(10, func(k string) bool { return !isWrite(k) }, "io-err", "io-lost", "io-gone")
	}
	g.retries(40, isWrite)
}

// ioBase sets up a deployment that is a storage provider and its users.
func (g *gen) ioBase(clients int) {
	g.p.Fam = "io"
	g.nodes = 1
	g.set("nodes", 1)
	g.set("keys", 1+g.weighted(15, 25, 25, 20, 15)+g.weighted(80, 20)*g.N(12))
	g.p.Clients = make([][]Op, clients)
	g.sched()
	if clients > 1 && g.p.Sched.Mode == "rand" && g.P(60) {
		g.p.Sched.Focus = 0
		g.p.Sched.Mean = g.oneOf(3, 10, 40, 200)
	}
}

func (g *gen) ioOps(lo, hi int, mix []wop) {
	keys := g.p.Cfg["keys"]
	for c := range g.p.Clients {
		for n := lo + g.N(hi-lo+1); n > 0; n-- {
			o := Op{K: g.pick(mix), S: g.U64()}
			switch o.K {
			case "open2":
			case "reopen":
				o.A = []int{g.N(4)}
			default:
				k := g.N(keys)
				if g.P(50) && keys <= 25 {
					k = 0
				}
				o.A = []int{k, g.content()}
			}
			g.p.Clients[c] = append(g.p.Clients[c], o)
		}
	}
}

func genC14(g *gen, n int) {
	g.ioBase(1 + g.weighted(25, 35, 25, 15))
	g.set("store", 1+g.weighted(40, 10, 40, 10))
	lo, hi := 6, 30
	if len(g.p.Clients) > 1 {
		lo, hi = 3, 14
	} else if g.P(30) {
		lo, hi = 40, 120
		if g.P(5) {
			lo, hi = 1000, 3000
		}
	}
	g.ioOps(lo, hi, []wop{{"put", 30}, {"get", 30}, {"update", 25}, {"delete", 18}})
}

func genC15(g *gen, n int) {
	g.ioBase(1 + g.weighted(50, 25, 25))
	g.set("store", 3+g.weighted(80, 20))
	if g.P(80) {
		g.set("lastcrash", 1+g.N(4))
	}
	lo, hi := 6, 30
	if len(g.p.Clients) > 1 {
		lo, hi = 4, 16
	} else if g.P(30) {
		lo, hi = 40, 120
	}
	if len(g.p.Clients) == 1 && g.P(6) { // a database of many pages
		g.set("keys", 40+g.N(260))
		g.ioOps(100, 400, []wop{{"put", 55}, {"get", 8}, {"update", 15}, {"delete", 18}, {"open2", 1}, {"reopen", 3}})
		g.faults(g.oneOf(1, 3, 10), isOne("put", "update", "delete", "open2"), "disk-err", "disk-full", "disk-crash")
		g.faults(30, isOne("reopen"), "disk-err", "disk-full", "disk-crash")
		return
	}
	g.ioOps(lo, hi, []wop{{"put", 30}, {"get", 22}, {"update", 25}, {"delete", 16}, {"open2", 4}, {"reopen", 5}})
	g.faults(g.oneOf(5, 15, 30, 60), isOne("put", "update", "delete", "get", "open2"), "disk-err", "disk-full", "disk-crash")
	g.faults(50, isOne("reopen"), "disk-err", "disk-full", "disk-crash")
}

// concBase sets up a deployment in which clients share data.
func (g *gen) concBase(clients int) {
	g.p.Fam = "conc"
	g.p.Clients = make([][]Op, clients)
	g.nodes = 1 + g.N(3)
	g.users = 1 + g.N(3)
	g.set("store", g.weighted(25, 35, 10, 22, 8))
	if g.P(20) {
		g.set("proxy", 1)
	}
	if g.P(15) {
		g.set("wraperr", 1+g.N(3))
	}
	g.sched()
}

// concOps fills the clients' programs: most calls go to the same few things.
func (g *gen) concOps(lo, hi int, mix []wop) {
	for c := range g.p.Clients {
		for k := lo + g.N(hi-lo+1); k > 0; k-- {
			g.p.Clients[c] = append(g.p.Clients[c], g.concOp(c, g.pick(mix)))
			if g.P(10) {
				g.p.Clients[c] = append(g.p.Clients[c], Op{K: "pause", A: []int{g.oneOf(1, 50, 2000)}})
			}
		}
	}
	g.slow()
}

func (g *gen) concOp(c int, k string) Op {
	o := Op{K: k, S: g.U64()}
	dat := g.weighted(80, 15, 5)
	switch k {
	case "upd":
		o.A = []int{dat, g.N(g.users), g.N(3), g.N(40)}
	case "dec", "acc", "authz", "del":
		o.A = []int{dat, g.N(g.users), g.N(3)}
	case "addg", "remg":
		o.A = []int{dat, g.N(g.users), g.N(3)}
		for n := 1 + g.N(2); n > 0; n-- {
			if g.P(60) {
				o.A = append(o.A, 300+g.N(g.users))
			} else {
				o.A = append(o.A, g.N(3))
			}
		}
	case "ia", "is", "ix":
		o.A = []int{dat, g.N(g.users), g.N(3), g.N(4), g.N(2)}
	case "login", "chpw":
		o.A = []int{0, g.N(g.users), g.N(3), g.weighted(70, 10, 5, 15)}
	case "gi", "ng":
		o.A = []int{0, g.N(g.users), g.N(3)}
	case "aug", "rug":
		o.A = []int{0, g.N(g.users), g.N(3), g.N(g.users)}
		for n := 1 + g.weighted(80, 20); n > 0; n-- {
			o.A = append(o.A, g.N(3))
		}
	case "du":
		o.A = []int{0, g.N(g.users), g.N(3), g.N(g.users)}
	}
	return o
}

// slow delays some provider calls, by less than tokens live.
func (g *gen) slow() {
	if !g.P(40) {
		return
	}
	g.faults(15, nil, "io-slow")
	for c := range g.p.Clients {
		for i := range g.p.Clients[c] {
			for k := range g.p.Clients[c][i].F {
				if f := &g.p.Clients[c][i].F[k]; f.K == "io-slow" && f.A > 10_000 {
					f.A = 10_000
				}
			}
		}
	}
}

// cuts makes some calls of kinds that change one record end in the middle.
func (g *gen) cuts(share int, kinds ...string) {
	fs := []string{"io-err", "io-lost"}
	if g.p.Cfg["store"] < 3 {
		// Every client has a process of its own.
		g.set("nodes", len(g.p.Clients))
		for c := range g.p.Clients {
			for i := range g.p.Clients[c] {
				if o := &g.p.Clients[c][i]; len(o.A) > 2 {
					o.A[2] = c
				}
			}
		}
		fs = append(fs, "crash", "crash-after")
	}
	g.faults(share, isOne(kinds...), fs...)
}

func genC13(g *gen, n int) {
	g.concBase(2 + g.weighted(50, 35, 15))
	g.set("nodes", g.nodes)
	g.set("users", g.users)
	if g.p.Cfg["store"] == 0 {
		g.set("store", 1)
	}
	shared := 1 + g.weighted(80, 20)
	own := g.weighted(50, 50)
	g.set("kws", shared+own*len(g.p.Clients))
	g.set("prefill", g.weighted(50, 20, 20, 10))
	hi := []int{0, 0, 8, 6, 5}[len(g.p.Clients)]
	for c := range g.p.Clients {
		for k := 2 + g.N(hi-1); k > 0; k-- {
			var o Op
			if own > 0 && g.P(35) {
				o = g.concOp(c, g.pick([]wop{{"ia", 40}, {"is", 30}, {"ix", 30}}))
				o.A[0] = shared + c
			} else {
				o = g.concOp(c, g.pick([]wop{{"ia", 60}, {"is", 40}}))
				o.A[0] = g.N(shared)
			}
			g.p.Clients[c] = append(g.p.Clients[c], o)
		}
	}
	g.slow()
	if g.P(30) {
		g.cuts(12, "ia", "is")
	}
}

func genC23(g *gen, n int) {
	nc := 2 + g.weighted(60, 40)
	g.concBase(nc)
	g.set("nodes", g.nodes)
	hi := []int{0, 0, 6, 4}[nc]
	cut := g.P(25)
	g.set("safe", g.weighted(30, 45, 25))
	switch g.weighted(55, 25, 20) {
	case 0:
		g.users = 2 + g.N(3)
		g.set("objects", 1+g.weighted(80, 20))
		mix := []wop{{"upd", 25}, {"dec", 25}, {"acc", 12}, {"authz", 6}, {"addg", 14}, {"remg", 14}, {"del", 5}}
		if g.p.Cfg["safe"] == 2 {
			mix = []wop{{"upd", 25}, {"dec", 25}, {"acc", 12}, {"authz", 6}, {"addg", 14}, {"del", 14}}
		}
		g.concOps(2, hi, mix)
		if cut {
			g.cuts(12, "addg", "remg", "dec", "acc")
		}
	case 1:
		g.users = 2 + g.N(2)
		g.set("standalone", 1)
		g.set("groups", g.N(3))
		g.concOps(2, hi, []wop{{"login", 15}, {"chpw", 18}, {"gi", 22}, {"ng", 8}, {"aug", 18}, {"rug", 14}, {"du", 4}})
		if cut {
			g.cuts(12, "chpw", "aug", "rug", "login", "gi")
		} else if g.P(30) { // users who change each other
			g.set("members", 1)
			for c := range g.p.Clients {
				for i := range g.p.Clients[c] {
					if o := &g.p.Clients[c][i]; (o.K == "aug" || o.K == "rug" || o.K == "gi" || o.K == "ng") && len(g.p.Clients[c]) > 0 && g.P(70) {
						o.K = "aug"
						o.A = []int{0, c % g.users, g.N(3), (c + 1) % g.users, 0}
					}
				}
			}
		}
	case 2:
		g.set("kws", 1+g.weighted(80, 20))
		g.set("prefill", g.N(4))
		g.concOps(2, hi, []wop{{"ia", 40}, {"is", 30}, {"ix", 25}})
		if cut {
			g.cuts(12, "ia", "is")
		}
	}
	g.set("users", g.users)
}

// genC06conc: deletions overlapping everything else on the object.
func genC06conc(g *gen) {
	nc := 2 + g.weighted(60, 40)
	g.concBase(nc)
	g.set("nodes", g.nodes)
	g.users = 2 + g.N(3)
	g.set("users", g.users)
	g.set("objects", 1+g.weighted(80, 20))
	if g.P(60) {
		g.set("safe", 2)
		g.concOps(2, 5, []wop{{"upd", 30}, {"dec", 15}, {"acc", 8}, {"addg", 20}, {"del", 30}})
	} else {
		g.concOps(2, 5, []wop{{"upd", 30}, {"dec", 10}, {"acc", 5}, {"addg", 15}, {"remg", 10}, {"del", 30}})
	}
	if g.P(25) {
		g.cuts(15, "addg", "remg")
	}
}

// genC26: instances with keys of their own.
func genC26(g *gen, n int) {
	g.p.Fam = "keys"
	g.set("store", g.weighted(50, 30, 5, 12, 3))
	g.set("pool", g.N(3))
	g.set("kform", g.weighted(40, 20, 15, 15, 10))
	per := 1 + g.weighted(20, 50, 30)
	g.set("per", per-1)
	g.p.Clients = make([][]Op, 1+g.weighted(60, 25, 15))
	g.sched()
	boot := func(node int) Op {
		o := Op{K: "boot", S: g.U64(), A: []int{node, []int{7, 1, 2, 4, 3, 5, 6}[g.weighted(50, 12, 12, 12, 5, 5, 4)]}}
		same := g.P(10)
		first := g.N(4)
		for i := 0; i < nKinds; i++ {
			switch {
			case g.P(4):
				o.A = append(o.A, -1-g.N(20))
			case same: // one key for everything
				o.A = append(o.A, first)
			case g.P(50):
				o.A = append(o.A, 0)
			default:
				o.A = append(o.A, g.N(4))
			}
		}
		if g.P(15) {
			f := Fault{K: []string{"key-err", "key-odd", "key-slow", "pre-cancel"}[g.N(4)], A: g.N(4)}
			if f.K == "key-slow" {
				f.A = g.oneOf(1, 100, 5000)
			}
			o.F = append(o.F, f)
		}
		return o
	}
	foc := g.weighted(30, 30, 10, 10, 20)
	if f := g.p.Cfg["foc"]; f > 0 {
		foc = f - 1
	}
	for c := range g.p.Clients {
		for k := 0; k < per; k++ {
			o := boot(k)
			o.A[1], o.F = 7, nil
			g.p.Clients[c] = append(g.p.Clients[c], o)
		}
		mix := []wop{{"boot", 14}}
		if foc == 0 || foc == 1 {
			mix = mixed(mix, []wop{{"enc", 12}, {"upd", 10}, {"dec", 30}, {"acc", 10}, {"addg", 8}, {"del", 4}})
		}
		if foc == 0 || foc == 2 {
			mix = mixed(mix, []wop{{"tn", 6}, {"tg", 15}})
		}
		if foc == 0 || foc == 3 {
			mix = mixed(mix, []wop{{"ia", 12}, {"is", 12}, {"ix", 6}})
		}
		if foc == 0 || foc == 4 {
			mix = mixed(mix, []wop{{"nu", 6}, {"login", 16}, {"chpw", 6}, {"gi", 20}, {"ng", 8}, {"aug", 10}, {"rug", 4}, {"du", 1}})
		}
		k := 10 + g.N(40)
		if g.P(1) {
			k *= 20
		}
		for ; k > 0; k-- {
			kind := g.pick(mix)
			if kind == "boot" {
				g.p.Clients[c] = append(g.p.Clients[c], boot(g.N(per)))
				continue
			}
			g.p.Clients[c] = append(g.p.Clients[c], Op{K: kind, S: g.U64(), A: []int{g.N(per), g.N(5), g.N(30) + 100*g.N(20), g.N(5)}})
		}
	}
}
