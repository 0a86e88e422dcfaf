package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	d1io "github.com/cybercryptio/d1-lib/v2/io"

	"verifsim/simrt"
)

// The "sys" family: clients work on their own objects, accounts and keywords through any of the nodes, and
// every call is judged against the sequential model of the client's own data.

type client struct {
	n      int
	users  []*user
	objs   []*object
	kws    []*keyword
	toks   []*dtok
	groups []string // groups made in the Standalone provider
	log    []string // results in order, for comparing with the client running alone
}

type dtok struct {
	contents []byte
	sealed   data.SealedToken
	lo, hi   int64
	foreign  bool
}

type sysRun struct {
	*World
	cl     []*client
	gscope map[string]id.Scope
	owner  map[string]*object
	labels map[string]string
	lparts map[string]string
	junk   map[uuid.UUID]bool // IDs about which nothing is said any more // index record ID -> keyword
	for2   *Node              // instance with other keys
}

func (s *sysRun) nm(i int) string {
	if s.cfg("secret") > 0 {
		return secretName(s.p.Seed, "grp", i%12)
	}
	return name(i)
}

func (s *sysRun) ident(i int) string {
	if s.cfg("secret") > 0 {
		return secretName(s.p.Seed, "ident", i%8)
	}
	return name(i)
}

func (s *sysRun) node(i int) *Node { return s.nodes[abs(i)%len(s.nodes)] }

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// ---------------------------------------------------------------- setup

func (s *sysRun) setupClients() {
	nu := s.cfg("users")
	if nu < 1 {
		nu = 2
	}
	nk := s.cfg("kws")
	if nk < 1 {
		nk = 3
	}
	taken := map[string]bool{}
	for i := range s.p.Clients {
		c := &client{n: i}
		s.cl = append(s.cl, c)
		r := simrt.NewRng(simrt.Mix64(s.p.Seed, uint64(i), 0xc11e))
		for k := 0; k < nk; k++ {
			j := r.N(120)
			kw := name(j)
			if s.cfg("secret") > 0 {
				kw = secretName(s.p.Seed, "kw", i*100+k)
			}
			if k > 0 && s.cfg("secret") == 0 && r.P(35) {
				kw = related(c.kws[r.N(k)].kw, &r)
			}
			for taken[kw] {
				j++
				kw = name(j)
			}
			taken[kw] = true
			c.kws = append(c.kws, &keyword{kw: kw})
		}
		for k := 0; k < nu; k++ {
			s.addUser(c, k, &r)
		}
		if s.stopped() {
			return
		}
		if s.cfg("standalone") > 0 {
			for k := 0; k < 1+s.cfg("groups"); k++ {
				u := c.users[r.N(len(c.users))]
				s.exec(c, &Op{K: "ng", A: []int{s.uix(c, u), 0, 0, s.scopes(&r)}, S: simrt.Mix64(s.p.Seed, uint64(i*50+k), 5)})
			}
			// Most deployments share some groups.
			for k := 0; k < 2; k++ {
				s.exec(c, &Op{K: "aug", A: []int{r.N(nu), 0, 0, r.N(nu), 100 + r.N(4)}, S: simrt.Mix64(s.p.Seed, uint64(i*50+k), 6)})
			}
		}
	}
}

func (s *sysRun) uix(c *client, u *user) int {
	for i := range c.users {
		if c.users[i] == u {
			return i
		}
	}
	return 0
}

func (s *sysRun) scopes(r *simrt.Rng) int {
	if r.P(70) {
		return int(id.ScopeAll)
	}
	return r.N(int(id.ScopeEnd))
}

func (s *sysRun) addUser(c *client, k int, r *simrt.Rng) {
	sc := id.ScopeAll
	if k > 0 || s.cfg("scoped") > 0 {
		sc = id.Scope(s.scopes(r))
	}
	if s.cfg("standalone") > 0 {
		s.exec(c, &Op{K: "nu", A: []int{0, int(sc)}, S: simrt.Mix64(s.p.Seed, uint64(c.n*100+k), 3)})
		s.exec(c, &Op{K: "login", A: []int{len(c.users) - 1, 0, 0}, S: simrt.Mix64(s.p.Seed, uint64(c.n*100+k), 4)})
		return
	}
	u := &user{id: fmt.Sprintf("u%d.%d", c.n, k), client: c.n}
	if s.cfg("secret") > 0 {
		u.id = secretName(s.p.Seed, "usr", c.n*100+k)
	} else if r.P(30) {
		u.id += "/" + name(r.N(len(namePool)))
	}
	u.stub = &stubUser{token: fmt.Sprintf("tok-%d-%d-%x", c.n, k, simrt.Mix64(s.p.Seed, uint64(k))), ident: id.Identity{ID: u.id, Scopes: sc}}
	for g := r.N(4); g > 0; g-- {
		gn := s.nm(r.N(12))
		if gn == u.id {
			continue
		}
		if u.stub.ident.Groups == nil {
			u.stub.ident.Groups = map[string]id.AccessGroup{}
		}
		u.stub.ident.Groups[gn] = id.AccessGroup{ID: gn, Scopes: id.Scope(s.scopes(r))}
	}
	s.idp.users[u.stub.token] = u.stub
	c.users = append(c.users, u)
}

// ---------------------------------------------------------------- identities

type caller struct {
	u      *user
	tok    string
	any    bool // altered token: rejected or exactly the original
	bad    bool // never accepted
	lo, hi int64
	t0, t1 int64
}

func (s *sysRun) caller(c *client, uArg, tSel int) caller {
	u := c.users[abs(uArg)%len(c.users)]
	var tok string
	var k caller
	if u.stub != nil {
		tok = u.stub.token
	} else {
		if len(u.tokens) == 0 {
			return caller{u: u, tok: "none", bad: true}
		}
		t := u.tokens[len(u.tokens)-1]
		if tSel >= 10 {
			t = u.tokens[tSel%len(u.tokens)]
		}
		tok, k.lo, k.hi = t.s, t.lo, t.hi
	}
	k.u, k.tok = u, tok
	switch tSel {
	case 1:
		k.tok, k.bad = "", true
	case 2:
		k.tok, k.bad = "garbage", true
	case 3:
		if u.stub != nil {
			k.tok, k.bad = tok+"x", true
		} else {
			k.tok, k.any = flipToken(tok, s.nOps), true
		}
	case 4:
		if u.stub != nil {
			k.tok, k.bad = tok[:len(tok)-1], true
		} else {
			k.tok, k.bad = base64.RawURLEncoding.EncodeToString([]byte("{\"ExpiryTime\":\"2099-01-01T00:00:00Z\",\"Ciphertext\":\"\",\"WrappedKey\":\"\"}")), true
		}
	case 5:
		if u.stub == nil {
			if t, ok := foreignToken(s.World, u.id); ok {
				k.tok, k.bad = t, true
			}
		}
	}
	if k.any && k.tok == tok {
		k.any = false
	}
	return k
}

// foreignToken makes a token for the user under other keys.
func foreignToken(w *World, uid string) (string, bool) {
	cr, err := newCryptor(w.keyBytes(77))
	if err != nil {
		return "", false
	}
	t := data.NewToken([]byte(uid), time.Hour)
	t.ExpiryTime = simrt.NodeTime(0).Add(time.Hour)
	st, err := t.Seal(cr)
	if err != nil {
		return "", false
	}
	str, err := st.String()
	return str, err == nil
}

// forgedToken makes a token under a key of the attacker's, with a data key that can be guessed.
func (s *sysRun) forgedToken(contents []byte, exp time.Time, x int) (data.SealedToken, bool) {
	key := s.keyBytes(77)
	if x%3 == 0 {
		key = make([]byte, 32)
	}
	var st data.SealedToken
	ok := false
	s.runQuiet("forge", 0, func(oc *OpCtx) {
		oc.repeat, oc.repN = simrt.ZeroStream(), 1<<30
		cr, err := newCryptor(key)
		if err != nil {
			return
		}
		t := data.NewToken(clone(contents), time.Hour)
		t.ExpiryTime = exp
		if st, err = t.Seal(cr); err != nil {
			return
		}
		switch x / 3 % 4 {
		case 0:
			st.WrappedKey = nil
		case 1:
			st.WrappedKey = make([]byte, 32)
		case 2:
			st.WrappedKey = make([]byte, 40)
		}
		ok = true
	})
	return st, ok
}

func flipToken(tok string, n int) string {
	b, err := base64.RawURLEncoding.DecodeString(tok)
	if err != nil || len(b) == 0 {
		return tok + "A"
	}
	r := simrt.NewRng(uint64(n) * 7)
	switch r.N(4) {
	case 0: // another expiry
		s := string(b)
		if i := strings.Index(s, "ExpiryTime\":\"20"); i >= 0 {
			j := i + len("ExpiryTime\":\"20")
			bb := []byte(s)
			bb[j] = '9'
			return base64.RawURLEncoding.EncodeToString(bb)
		}
	case 1:
		return tok[:len(tok)-1-r.N(4)]
	}
	b[r.N(len(b))] ^= 1 << r.N(8)
	return base64.RawURLEncoding.EncodeToString(b)
}

// identWorlds lists what the identity provider may answer to the caller's token.
func (s *sysRun) identWorlds(k caller) []idw {
	rej := idw{uw: -1}
	if k.bad {
		return []idw{rej}
	}
	if k.u.stub != nil {
		if k.u.stub.reject {
			return []idw{rej}
		}
		return []idw{{ok: true, ident: k.u.stub.ident, uw: -1}}
	}
	valid, invalid := k.t0 <= k.hi || k.t1 <= k.hi, k.t1 > k.lo || k.t0 > k.lo
	if k.any {
		invalid = true
	}
	var out []idw
	for i, w := range k.u.worlds {
		if !w.exists {
			out = append(out, idw{uw: i})
			continue
		}
		if invalid {
			out = append(out, idw{uw: i})
		}
		if valid {
			out = append(out, idw{ok: true, ident: s.identOf(k.u, w), uw: i})
		}
	}
	return out
}

func (s *sysRun) identOf(u *user, w uwl) id.Identity {
	i := id.Identity{ID: u.id, Scopes: u.scopes, Groups: map[string]id.AccessGroup{}}
	for g := range w.groups {
		i.Groups[g] = id.AccessGroup{ID: g, Scopes: s.gscope[g]}
	}
	return i
}

func identSame(a, b id.Identity) bool {
	if a.ID != b.ID || a.Scopes != b.Scopes || len(a.Groups) != len(b.Groups) {
		return false
	}
	for k, v := range a.Groups {
		if b.Groups[k] != v {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- operations

func (s *sysRun) exec(c *client, op *Op) {
	if s.stopped() {
		return
	}
	switch op.K {
	case "enc":
		s.encrypt(c, op)
	case "upd", "dec", "del", "acc", "addg", "remg", "authz":
		s.objOp(c, op)
	case "nu", "login", "chpw", "ng", "aug", "rug", "du", "gi":
		if s.cfg("standalone") > 0 {
			s.idOp(c, op)
		}
	case "setid", "rej":
		s.stubOp(c, op)
	case "ia", "is", "ix":
		s.idxOp(c, op)
	case "ich":
		s.churn(c, op)
	case "tn", "tg":
		s.tokOp(c, op)
	case "adv":
		s.advance(c, op)
	case "clk":
		n := s.node(op.arg(0)).n
		simrt.Clocks[n].Offset += time.Duration(op.arg(1)) * time.Millisecond
		s.stats.Faults["clock-jump"]++
		s.tracef("clock of node %d jumps by %d ms", n, op.arg(1))
	case "crash":
		if !s.opening {
			s.stats.Faults["crash"]++
			s.crash(s.node(op.arg(0)).n, op.arg(1))
		}
	default:
		s.herr("unknown operation %q", op.K)
	}
}

func (s *sysRun) stubOp(c *client, op *Op) {
	u := c.users[abs(op.arg(0))%len(c.users)]
	if u.stub == nil {
		return
	}
	s.stats.Ops[op.K]++
	if op.K == "rej" {
		u.stub.reject = op.arg(1) > 0
		s.tracef("c%d token of %s rejected=%v", c.n, u.id, u.stub.reject)
		return
	}
	n := id.Identity{ID: u.stub.ident.ID, Scopes: id.Scope(op.arg(1))}
	for i := 2; i+1 < len(op.A); i += 2 {
		g := s.nm(op.A[i])
		if g == u.id {
			continue
		}
		if n.Groups == nil {
			n.Groups = map[string]id.AccessGroup{}
		}
		n.Groups[g] = id.AccessGroup{ID: g, Scopes: id.Scope(op.A[i+1])}
	}
	u.stub.ident = n
	s.tracef("c%d identity of %s now scopes %#x groups %v", c.n, u.id, uint64(n.Scopes), groupText(n))
}

func groupText(i id.Identity) string {
	m := map[string]bool{}
	for g, ag := range i.Groups {
		m[fmt.Sprintf("%.20s=%#x", g, uint64(ag.Scopes))] = true
	}
	return setText(m)
}

func (s *sysRun) advance(c *client, op *Op) {
	d := time.Duration(op.arg(1)) * time.Millisecond
	if op.arg(0) >= 1 {
		// To the expiry of a token on the clock of a node, give or take.
		n := s.node(op.arg(2)).n
		var at int64
		if op.arg(0) == 1 && len(c.toks) > 0 {
			at = c.toks[abs(op.arg(3))%len(c.toks)].lo
		} else if op.arg(0) == 2 && len(c.users) > 0 {
			u := c.users[abs(op.arg(3))%len(c.users)]
			if len(u.tokens) > 0 {
				at = u.tokens[abs(op.arg(4))%len(u.tokens)].lo
			}
		}
		if at == 0 {
			return
		}
		d = time.Duration(at - nanos(simrt.NodeTime(n)) + int64(op.arg(1)))
	}
	if d <= 0 || d > 1000*time.Hour {
		if op.arg(0) >= 1 && d <= 0 && d > -1000*time.Hour {
			// Set the node's clock back instead.
			simrt.Clocks[s.node(op.arg(2)).n].Offset += d
			s.stats.Faults["clock-jump"]++
			s.tracef("clock of node %d set back by %v", s.node(op.arg(2)).n, -d)
		}
		return
	}
	s.stats.Faults["time-passes"]++
	simrt.Elapse(d)
	s.tracef("time passes: %v", d)
}

func (s *sysRun) clock(n *Node) int64 { return nanos(simrt.NodeTime(n.n)) }

// origin is the instant that times are counted from: a Unix time in nanoseconds ends in 2262.
var origin = time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)

func nanos(t time.Time) int64 { return int64(t.Sub(origin)) }

// spare returns the bytes in a slice with spare capacity, and a function telling whether anything of it changed.
func (s *sysRun) spare(b []byte) ([]byte, func() bool) {
	if oc := curOp(); oc != nil && s.cfg("secret") > 0 {
		oc.args = append(oc.args, string(b))
	}
	if s.cfg("alias") == 0 {
		return b, func() bool { return false }
	}
	full := make([]byte, len(b)+80)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = byte(0xa0 + i%64)
	}
	want := clone(full)
	return full[:len(b)], func() bool { return !bytes.Equal(full, want) }
}

func (s *sysRun) spareStrs(g []string) ([]string, func() bool) {
	if oc := curOp(); oc != nil && s.cfg("secret") > 0 {
		oc.args = append(oc.args, g...)
	}
	if s.cfg("alias") == 0 {
		return g, func() bool { return false }
	}
	full := make([]string, len(g)+5)
	copy(full, g)
	for i := len(g); i < len(full); i++ {
		full[i] = fmt.Sprintf("spare-%d", i)
	}
	want := append([]string{}, full...)
	return full[:len(g)], func() bool {
		for i := range want {
			if full[i] != want[i] {
				return true
			}
		}
		return false
	}
}

func scribble(bs ...[]byte) {
	for _, b := range bs {
		b = b[:cap(b)]
		for i := range b {
			b[i] = b[i]*5 + 91
		}
	}
}

func scribbleStrs(g []string) {
	g = g[:cap(g)]
	for i := range g {
		g[i] = "scribbled"
	}
}

func d1Class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, d1.ErrNotAuthenticated):
		return "noauthn"
	case errors.Is(err, d1.ErrNotAuthorized):
		return "noauthz"
	case errors.Is(err, d1.ErrAccessNotFound), errors.Is(err, d1.ErrObjectNotFound):
		return "absent"
	case errors.Is(err, d1.ErrObjectAlreadyExists), errors.Is(err, d1.ErrAccessAlreadyExists):
		return "exists"
	}
	return "err"
}

func (s *sysRun) groupArgs(c *client, a []int) []string {
	var out []string
	for _, x := range a {
		x = abs(x)
		switch {
		case x >= 300 && x < 400 && len(c.users) > 0:
			out = append(out, c.users[x%len(c.users)].id)
		case x >= 400 && x < 500 && len(c.users) > 0:
			out = append(out, nearID(c.users[x%len(c.users)].id, x/3))
		case x >= 100 && x < 200 && len(c.groups) > 0:
			out = append(out, c.groups[x%len(c.groups)])
		default:
			out = append(out, s.nm(x))
		}
	}
	return out
}

// ended records the result of a call in the client's log and in the trace.
func (s *sysRun) ended(c *client, oc *OpCtx, err error, what, res string) {
	if len(oc.gone) > 0 && len(oc.gone) == len(oc.fired) && oc.done && err != nil {
		// The provider said that a record is missing or exists already: so does the call.
		good := false
		for _, l := range oc.gone {
			good = good || l == nil
			for _, e := range l {
				good = good || errors.Is(err, e)
			}
		}
		if !good {
			s.fail("C22", "wrong error", "%s: %v, although the provider reported the record as missing or existing: must be %v", what, err, oc.gone[0])
		}
	}
	if err != nil && oc.done && s.cfg("secret") > 0 {
		s.discloses(oc, err)
	}
	if s.cfg("alias") > 0 && s.idp != nil {
		for _, k := range sortedKeys(s.idp.users) {
			s.idp.users[k].check(s.World)
		}
	}
	if oc.crashed && !oc.done {
		res = "crash"
	}
	s.stats.Results[oc.kind+":"+strings.SplitN(res, " ", 2)[0]]++
	line := fmt.Sprintf("c%d op%d n%d %s -> %s", c.n, oc.seq, oc.node, what, res)
	if len(oc.fired) > 0 {
		line += " faults:" + strings.Join(oc.fired, ",")
	}
	s.tracef("%s", line)
	c.log = append(c.log, what+" -> "+res)
	simrt.Mix(uint64(len(line)))
}

func oshort(o uuid.UUID) string { return o.String()[:8] }

// ctags adds the properties that this context puts at stake to those of the oracle.
func (s *sysRun) ctags(oc *OpCtx, o *object, base string) string {
	t := base
	if o != nil {
		if o.interrupted {
			t += " C05"
		}
		if o.aclCut {
			t += " C04"
		}
		if o.delCut {
			t += " C06"
		}
		if o.ackFault {
			t += " C22"
		}
	}
	return t + s.wtags(oc)
}

func (s *sysRun) wtags(oc *OpCtx) string {
	t := ""
	if s.cfg("alias") > 0 {
		t += " C16"
	}
	if s.prop == "C17" {
		t += " C17"
	}
	if s.cfg("wraperr") > 0 {
		t += " C22"
	}
	for _, f := range oc.fired {
		if f == "tamper" {
			t += " C07"
		}
	}
	if s.stats.Faults["rng-repeat"] > 0 {
		t += " C19"
	}
	return t
}

func needOf(kind string) id.Scope {
	switch kind {
	case "enc":
		return id.ScopeEncrypt
	case "upd":
		return id.ScopeUpdate
	case "dec":
		return id.ScopeDecrypt
	case "del":
		return id.ScopeDelete
	case "acc", "authz":
		return id.ScopeGetAccessGroups
	}
	return id.ScopeModifyAccessGroups
}

// checkRefusal checks what holds for every call that fails.
func (s *sysRun) checkRefusal(oc *OpCtx, refused bool, output string, tags string) {
	if output != "" {
		s.fail("C03 C20 C22"+tags, "output with error", "%s returned an error together with %s", oc.kind, output)
	}
	if oc.mutated > 0 && (refused || oc.idFault || oc.accFail) && !(oc.crashed) {
		why := "a refused call"
		if oc.idFault {
			why = "a call whose identity lookup failed"
		} else if oc.accFail {
			why = "a call whose access list could not be read"
		}
		s.fail("C03"+tags, "refused call changed storage", "%s: %s changed %d stored records", oc.kind, why, oc.mutated)
	}
	if oc.rngFault && oc.mutAfterRng > 0 {
		s.fail("C19"+tags, "stored without randomness", "%s stored %d records after the randomness source had failed", oc.kind, oc.mutAfterRng)
	}
}

func (s *sysRun) checkOK(oc *OpCtx, tags string) {
	if oc.rngFault {
		s.fail("C19"+tags, "randomness failure ignored", "%s succeeded although the randomness source failed during the call", oc.kind)
	}
	if oc.rngShort > 0 {
		s.fail("C19"+tags, "randomness failure ignored", "%s succeeded although %d bytes of randomness were missing", oc.kind, oc.rngShort)
	}
	if oc.sawCan {
		s.fail("C20"+tags, "cancellation ignored", "%s succeeded although a provider call was refused because the context was cancelled", oc.kind)
	}
	if oc.idFault {
		s.fail("C03 C02"+tags, "identity failure ignored", "%s succeeded although the identity lookup failed", oc.kind)
	}
	if oc.accFail {
		s.fail("C03 C02"+tags, "access read failure ignored", "%s succeeded although the access list could not be read", oc.kind)
	}
}

func (s *sysRun) encrypt(c *client, op *Op) {
	// args: user, token, node, content, ad, groups...
	n := s.node(op.arg(2))
	k := s.caller(c, op.arg(0), op.arg(1))
	content := &blob{contentOf(s.p.Seed, op.arg(3)), contentOf(s.p.Seed, op.arg(4))}
	if s.cfg("secret") > 0 {
		content.pt = s.secretContent(op.arg(3), content.pt)
	}
	var gs []string
	if len(op.A) > 5 {
		gs = s.groupArgs(c, op.A[5:])
	}
	var oid uuid.UUID
	var err error
	var chk []func() bool
	k.t0 = s.clock(n)
	oc := s.runOp(op, "enc", c.n, n, func(oc *OpCtx) {
		oc.plain = content.pt
		pt, c1 := s.spare(content.pt)
		ad, c2 := s.spare(content.ad)
		g, c3 := s.spareStrs(gs)
		o := &data.Object{Plaintext: nilIf(pt, op.S), AssociatedData: nilIf(ad, op.S>>1)}
		oc.uid = k.u.id
		oid, err = n.d1.Encrypt(oc.ctx, k.tok, o, g...)
		if oc.logOK = err == nil; oc.logOK {
			oc.oid = oid.String()
		}
		chk = []func() bool{c1, c2, c3}
		for _, f := range chk {
			if f() {
				s.fail("C16", "argument written to", "Encrypt changed memory of its arguments")
			}
		}
		if s.cfg("alias") > 0 {
			scribble(pt, ad)
			scribbleStrs(g)
		}
	})
	k.t1 = s.clock(n)
	if s.stopped() {
		return
	}
	cls := d1Class(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	what := fmt.Sprintf("enc user %s content %d/%d bytes groups %s", k.u.id, len(content.pt), len(content.ad), strsText(gs))
	s.ended(c, oc, err, what, cls)
	tags := s.wtags(oc)
	acl := map[string]bool{}
	for _, g := range gs {
		acl[g] = true
	}
	acl[k.u.id] = true
	perm, ref := false, false
	var ws []int
	for _, iw := range s.identWorlds(k) {
		ok := iw.ok && has(iw.ident.Scopes, id.ScopeEncrypt)
		match := false
		switch {
		case !iw.ok:
			ref = true
			match = cls == "noauthn"
		case !ok:
			ref = true
			match = cls == "noauthz"
		default:
			perm = true
			match = cls == "ok"
		}
		if match || cls == "crash" || cls != "ok" && oc.relax {
			ws = append(ws, iw.uw)
		}
	}
	if cls == "ok" {
		if !perm {
			s.fail("C02 C03"+s.idtags(k.u)+tags, "unauthorised call succeeded", "Encrypt succeeded for %s, which must be refused", k.u.id)
			return
		}
		s.checkOK(oc, tags)
		if oid == uuid.Nil {
			s.fail("C01 C22"+tags, "no object id", "Encrypt succeeded with a nil object ID")
			return
		}
		if oc.repeats {
			for _, cc := range s.cl {
				for i, o := range cc.objs {
					if o.oid == oid {
						gone := false // it may be, after an interrupted delete
						for _, w := range o.worlds {
							gone = gone || w.st == oAbsent
						}
						if !gone {
							s.fail("C19 C01"+tags, "existing object replaced", "Encrypt with repeated randomness succeeded for the ID of an existing object %s", oid)
							return
						}
						cc.objs = append(cc.objs[:i:i], cc.objs[i+1:]...)
						break
					}
				}
			}
		}
		o := &object{oid: oid, client: c.n, worlds: []owl{{oPresent, content, acl}}, ackFault: len(oc.fired) > 0}
		c.objs = append(c.objs, o)
		s.own(oc, o)
		s.filterUser(k.u, ws)
		return
	}
	out := ""
	if oid != uuid.Nil {
		out = "an object ID"
	}
	s.checkRefusal(oc, !perm && cls != "crash", out, tags)
	if cls != "crash" && !oc.relax {
		if len(ws) == 0 {
			if perm && !ref {
				t := "C02"
				if cls == "err" || cls == "exists" {
					t = "C01 C02"
				}
				s.fail(t+s.idtags(k.u)+tags, "permitted call failed", "Encrypt by %s must succeed, got: %v", k.u.id, err)
			} else {
				s.fail("C02"+tags, "wrong refusal", "Encrypt by %s must be refused, got: %v", k.u.id, err)
			}
			return
		}
		s.filterUser(k.u, ws)
		return
	}
	if !perm {
		return
	}
	// The call was cut short. If it got as far as storing something, the caller does not know the ID, but
	// nobody may be able to read it.
	var key []byte
	accMaybe, accSet := false, false
	for i, ca := range oc.calls {
		if (ca.Op == "put" || ca.Op == "update") && len(ca.ID) == uuid.Size {
			key = ca.ID
			if ca.Type == d1io.DataTypeSealedAccess {
				if ca.Applied {
					accSet = true
				}
				if i == len(oc.calls)-1 {
					accMaybe = true
				}
			}
		}
	}
	if key == nil {
		return
	}
	oid = uuid.FromBytesOrNil(key)
	if s.junk[oid] {
		return
	}
	for _, cc := range s.cl {
		for i, o := range cc.objs {
			if o.oid == oid {
				// Repeated randomness: an existing object must stay as it is. Of one that is half deleted nothing
				// more is said: with the same ID and keys the new content may appear under the old access list.
				for _, w := range o.worlds {
					if w.st != oPresent {
						cc.objs = append(cc.objs[:i:i], cc.objs[i+1:]...)
						s.junk[oid] = true
						break
					}
				}
				return
			}
		}
	}
	o := &object{oid: oid, client: c.n, worlds: []owl{{st: oAbsent}}, interrupted: true, orphan: true}
	// Taking effect without being confirmed is beyond the library's power, as is dying after the last write.
	if cls == "crash" && accMaybe || cls != "crash" && accSet && oc.lostAccess() || oc.crashed {
		o.worlds = append(o.worlds, owl{oPresent, content, acl})
	}
	s.own(oc, o)
	c.objs = append(c.objs, o)
}

// lostAccess reports whether the write of an access list took effect but was reported as failed.
func (oc *OpCtx) lostAccess() bool {
	for _, ca := range oc.calls {
		if ca.Type == d1io.DataTypeSealedAccess && ca.Op == "put" && ca.Applied && ca.Lost {
			return true
		}
	}
	return false
}

func nilIf(b []byte, salt uint64) []byte {
	if len(b) == 0 && salt&1 == 1 {
		return nil
	}
	return b
}

// own notes which object the records written by a call belong to.
func (s *sysRun) own(oc *OpCtx, o *object) {
	for _, ca := range oc.calls {
		if ca.Op == "put" || ca.Op == "update" {
			s.owner[ca.Key] = o
		}
	}
}

func (s *sysRun) idtags(u *user) string {
	if u.stub == nil {
		t := " C10"
		if len(u.worlds) > 0 {
			t += " C09"
		}
		return t
	}
	return ""
}

// filterUser keeps the user worlds with the given indices.
func (s *sysRun) filterUser(u *user, keep []int) {
	if u.stub != nil || len(u.worlds) < 2 {
		return
	}
	in := map[int]bool{}
	for _, k := range keep {
		in[k] = true
	}
	var out []uwl
	for i, w := range u.worlds {
		if in[i] {
			out = append(out, w)
		}
	}
	if len(out) > 0 {
		u.worlds = out
	}
}

// allowedObj says which results a call on an object may have, and whether it may go ahead.
func allowedObj(kind string, iw idw, ow owl) (cls []string, permitted bool) {
	need := needOf(kind)
	if !iw.ok {
		return []string{"noauthn"}, false
	}
	if !has(iw.ident.Scopes, need) {
		return []string{"noauthz"}, false
	}
	if ow.st == oAbsent {
		if kind == "del" {
			return []string{"ok"}, true
		}
		return []string{"absent"}, false
	}
	if !ow.allows(&iw.ident, need) {
		if ow.st == oPartial {
			return []string{"noauthz", "absent"}, false
		}
		return []string{"noauthz"}, false
	}
	switch ow.st {
	case oPartial:
		switch kind {
		case "dec", "upd":
			return []string{"absent"}, true
		case "del":
			return []string{"ok"}, true
		}
		return []string{"ok", "absent"}, true
	case oBroken:
		if kind == "dec" {
			return []string{"err"}, true
		}
	}
	return []string{"ok"}, true
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (s *sysRun) objOp(c *client, op *Op) {
	// args: object, user, token, node, extra...
	var o *object
	if op.arg(0) >= 1000 || len(c.objs) == 0 {
		var b [16]byte
		simrt.NewStream(simrt.Mix64(op.S, 9)).Read(b[:])
		if op.arg(0)%3 == 1 {
			b = [16]byte{}
		}
		o = &object{oid: uuid.UUID(b), client: c.n, worlds: []owl{{st: oAbsent}}}
	} else {
		o = c.objs[abs(op.arg(0))%len(c.objs)]
	}
	n := s.node(op.arg(3))
	k := s.caller(c, op.arg(1), op.arg(2))
	kind := op.K
	var err error
	var res data.Object
	var groups map[string]struct{}
	var content *blob
	var gs []string
	what := fmt.Sprintf("%s %s user %s", kind, oshort(o.oid), k.u.id)
	switch kind {
	case "upd":
		content = &blob{contentOf(s.p.Seed, op.arg(4)), contentOf(s.p.Seed, op.arg(5))}
		if s.cfg("secret") > 0 {
			content.pt = s.secretContent(op.arg(4), content.pt)
		}
		what += fmt.Sprintf(" content %d/%d bytes", len(content.pt), len(content.ad))
	case "addg", "remg":
		if len(op.A) > 4 {
			gs = s.groupArgs(c, op.A[4:])
		}
		what += " " + strsText(gs)
	}
	k.t0 = s.clock(n)
	oc := s.runOp(op, kind, c.n, n, func(oc *OpCtx) {
		oc.oid, oc.uid = o.oid.String(), k.u.id
		defer func() { oc.logOK = err == nil }()
		switch kind {
		case "upd":
			oc.plain = content.pt
			pt, c1 := s.spare(content.pt)
			ad, c2 := s.spare(content.ad)
			err = n.d1.Update(oc.ctx, k.tok, o.oid, &data.Object{Plaintext: nilIf(pt, op.S), AssociatedData: nilIf(ad, op.S>>1)})
			if c1() || c2() {
				s.fail("C16", "argument written to", "Update changed memory of its arguments")
			}
			if s.cfg("alias") > 0 {
				scribble(pt, ad)
			}
		case "dec":
			res, err = n.d1.Decrypt(oc.ctx, k.tok, o.oid)
		case "del":
			err = n.d1.Delete(oc.ctx, k.tok, o.oid)
		case "acc":
			groups, err = n.d1.GetAccessGroups(oc.ctx, k.tok, o.oid)
		case "addg":
			g, c1 := s.spareStrs(gs)
			err = n.d1.AddGroupsToAccess(oc.ctx, k.tok, o.oid, g...)
			if c1() {
				s.fail("C16", "argument written to", "AddGroupsToAccess changed memory of its arguments")
			}
			if s.cfg("alias") > 0 {
				scribbleStrs(g)
			}
		case "remg":
			g, c1 := s.spareStrs(gs)
			err = n.d1.RemoveGroupsFromAccess(oc.ctx, k.tok, o.oid, g...)
			if c1() {
				s.fail("C16", "argument written to", "RemoveGroupsFromAccess changed memory of its arguments")
			}
			if s.cfg("alias") > 0 {
				scribbleStrs(g)
			}
		case "authz":
			err = n.d1.AuthorizeIdentity(oc.ctx, k.tok, o.oid)
		}
	})
	k.t1 = s.clock(n)
	if s.stopped() {
		return
	}
	cls := d1Class(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	desc := cls
	if cls == "ok" {
		switch kind {
		case "dec":
			desc = fmt.Sprintf("ok %d/%d bytes", len(res.Plaintext), len(res.AssociatedData))
		case "acc":
			desc = "ok " + setText(setOf(groups))
		}
	}
	s.ended(c, oc, err, what, desc)
	s.own(oc, o)
	tags := s.ctags(oc, o, "")
	ids := s.identWorlds(k)
	type pair struct{ i, o int }
	var good []pair
	anyPerm, anyOK, anyRef := false, false, false
	for i, iw := range ids {
		for j, ow := range o.worlds {
			al, perm := allowedObj(kind, iw, ow)
			anyPerm = anyPerm || perm
			anyOK = anyOK || in("ok", al)
			anyRef = anyRef || in("noauthn", al) || in("noauthz", al)
			if !in(cls, al) {
				continue
			}
			if cls == "ok" {
				if kind == "dec" && !sameBlob(ow.content, res.Plaintext, res.AssociatedData) {
					continue
				}
				if kind == "acc" && !sameSet(ow.acl, groups) {
					continue
				}
			}
			good = append(good, pair{i, j})
		}
	}
	tamper := false
	for _, f := range oc.fired {
		tamper = tamper || f == "tamper"
	}
	_ = tamper
	if cls == "ok" {
		if len(good) == 0 {
			switch {
			case !anyOK && !anyRef:
				s.fail("C06 C05 C03 C02"+tags, "absent object accessible", "%s: succeeded on an object that does not exist (any more)%s", what, stateText(o))
			case !anyOK:
				s.fail("C02 C03 C04"+s.idtags(k.u)+tags, "unauthorised call succeeded", "%s: succeeded, must be refused%s", what, stateText(o))
			case kind == "dec":
				s.fail("C01"+tags, "wrong content", "%s: got %s / %s%s", what, hx(res.Plaintext), hx(res.AssociatedData), stateText(o))
			default:
				s.fail("C04"+tags, "wrong access list", "%s: got %s%s", what, setText(setOf(groups)), stateText(o))
			}
			return
		}
		s.checkOK(oc, tags)
		var nw []owl
		var us []int
		existed := false
		for _, p := range good {
			ow := o.worlds[p.o]
			us = append(us, ids[p.i].uw)
			switch kind {
			case "upd":
				ow = owl{oPresent, content, ow.acl}
			case "addg":
				ow = ow.with(gs, true)
			case "remg":
				ow = ow.with(gs, false)
			case "del":
				if ow.st != oAbsent {
					existed = true
				}
				ow = owl{st: oAbsent}
			}
			nw = append(nw, ow)
		}
		allExisted := existed
		if kind == "del" {
			for _, p := range good {
				allExisted = allExisted && o.worlds[p.o].st != oAbsent
			}
		}
		o.worlds = dedupO(nw)
		s.filterUser(k.u, us)
		if len(oc.fired) > 0 && (kind == "upd" || kind == "addg" || kind == "remg" || kind == "del") {
			o.ackFault = true
		}
		if kind == "del" {
			if allExisted || o.mustErase {
				o.delAck = true
				s.checkErased(o, tags)
			} else if !existed && oc.mutated > 0 {
				s.fail("C06"+tags, "delete of nothing had an effect", "%s changed %d records", what, oc.mutated)
			}
		}
		if s.cfg("alias") > 0 {
			scribble(res.Plaintext, res.AssociatedData)
			for g := range groups {
				delete(groups, g)
			}
			if groups != nil {
				groups["scribbled"] = struct{}{}
			}
		}
		return
	}
	// Failure.
	out := ""
	if len(res.Plaintext) > 0 || len(res.AssociatedData) > 0 {
		out = "content"
	}
	if len(groups) > 0 {
		out = "groups"
	}
	s.checkRefusal(oc, !anyPerm, out, tags)
	if s.stopped() {
		return
	}
	if cls != "crash" && !oc.relax {
		if len(good) == 0 {
			switch {
			case anyOK && (cls == "noauthn" || cls == "noauthz"):
				s.fail("C02 C04"+s.idtags(k.u)+tags, "permitted call refused", "%s: %v, must succeed%s", what, err, stateText(o))
			case anyOK && kind == "del":
				s.fail("C06 C02"+tags, "delete fails", "%s: %v, must succeed%s", what, err, stateText(o))
			case anyOK && kind == "dec":
				s.fail("C01"+s.idtags(k.u)+tags, "content lost", "%s: %v, must succeed%s", what, err, stateText(o))
			case anyOK:
				s.fail("C01 C02"+s.idtags(k.u)+tags, "permitted call failed", "%s: %v, must succeed%s", what, err, stateText(o))
			case anyRef:
				s.fail("C02"+tags, "wrong refusal", "%s: %v, must be refused as not authenticated or not authorised%s", what, err, stateText(o))
			default:
				s.fail("C06 C22"+tags, "absence not reported", "%s: %v, must report that the object is absent%s", what, err, stateText(o))
			}
			return
		}
		var nw []owl
		var us []int
		for _, p := range good {
			nw = append(nw, o.worlds[p.o])
			us = append(us, ids[p.i].uw)
		}
		o.worlds = dedupO(nw)
		s.filterUser(k.u, us)
		return
	}
	// Cut short by a fault: old or new, by what the property of the operation says.
	if !anyPerm || oc.mutated == 0 && !oc.crashed {
		return
	}
	if kind == "del" {
		all := len(o.worlds) > 0
		for _, ow := range o.worlds {
			all = all && ow.st != oAbsent
		}
		// It existed for sure, so that whatever delete is acknowledged next has to have erased it.
		o.mustErase = o.mustErase || all
	}
	objW, accW := false, false
	for _, ca := range oc.calls {
		if ca.Op == "update" {
			if ca.Type == d1io.DataTypeSealedObject && (ca.Applied || oc.crashed) {
				objW = true
			}
			if ca.Type == d1io.DataTypeSealedAccess && ca.Applied {
				accW = true
			}
		}
	}
	var nw []owl
	for _, iw := range ids {
		for _, ow := range o.worlds {
			nw = append(nw, ow)
			_, perm := allowedObj(kind, iw, ow)
			if !perm || ow.st == oAbsent {
				continue
			}
			switch kind {
			case "upd":
				o.interrupted = true
				if ow.st == oPartial {
					break
				}
				nw = append(nw, owl{oPresent, content, ow.acl})
				if objW && !accW && listed["C05/update-cut"] {
					// The recorded finding: the content is written before its key.
					nw = append(nw, owl{oBroken, nil, ow.acl})
				}
			case "addg":
				o.aclCut = true
				nw = append(nw, ow.with(gs, true))
			case "remg":
				o.aclCut = true
				nw = append(nw, ow.with(gs, false))
			case "del":
				o.delCut = true
				o.delBy = op.arg(1)
				nw = append(nw, owl{oPartial, nil, ow.acl}, owl{st: oAbsent})
			}
		}
	}
	o.worlds = dedupO(nw)
}

func stateText(o *object) string {
	var l []string
	names := []string{"present", "content erased", "content without its key", "absent"}
	for _, w := range o.worlds {
		t := names[w.st]
		if w.content != nil {
			t += fmt.Sprintf(" content %s/%s", hx(w.content.pt), hx(w.content.ad))
		}
		if w.st != oAbsent {
			t += " access " + setText(w.acl)
		}
		l = append(l, t)
	}
	return " [object " + o.oid.String() + ": " + strings.Join(l, " | ") + "]"
}

func setOf(g map[string]struct{}) map[string]bool {
	m := map[string]bool{}
	for k := range g {
		m[k] = true
	}
	return m
}

func sameSet(a map[string]bool, g map[string]struct{}) bool {
	if len(a) != len(g) {
		return false
	}
	for k := range g {
		if !a[k] {
			return false
		}
	}
	return true
}

// checkErased checks that nothing of an object is left in storage.
func (s *sysRun) checkErased(o *object, tags string) {
	for _, k := range sortedKeys(s.back.shadow) {
		r := s.back.shadow[k]
		if s.owner[k] == o || bytes.Equal(r.id, o.oid.Bytes()) {
			s.fail("C06"+tags, "not erased", "after an acknowledged delete of %s the record %x of type %d (%d bytes) is still stored", o.oid, r.id, r.dt, len(r.val))
			return
		}
	}
}

// ---------------------------------------------------------------- Standalone identity provider

func idClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, id.ErrNotAuthenticated):
		return "noauthn"
	case errors.Is(err, id.ErrNotAuthorized):
		return "noauthz"
	case errors.Is(err, id.ErrUserNotFound), errors.Is(err, id.ErrGroupNotFound):
		return "absent"
	case errors.Is(err, id.ErrUserAlreadyExists), errors.Is(err, id.ErrGroupAlreadyExists):
		return "exists"
	}
	return "err"
}

func (s *sysRun) pwdOf(c *client, u *user, op *Op) string {
	sel := op.arg(1)
	switch {
	case sel == 0 && len(u.pwds) > 0:
		return u.pwds[len(u.pwds)-1]
	case sel == 1 && len(u.pwds) > 1:
		return u.pwds[len(u.pwds)-2]
	case sel == 2:
		return ""
	case sel == 3 && len(u.pwds) > 0:
		return u.pwds[len(u.pwds)-1] + "x"
	case sel == 4 && len(u.pwds) > 0:
		return strings.ToLower(u.pwds[len(u.pwds)-1])
	case sel >= 10:
		o := c.users[sel%len(c.users)]
		if len(o.pwds) > 0 {
			return o.pwds[len(o.pwds)-1]
		}
	case sel == 5 && len(u.pwds) > 0:
		p := u.pwds[len(u.pwds)-1]
		return p[:len(p)-1]
	case sel == 7 && len(u.pwds) > 0:
		// Something close to the password.
		p := u.pwds[len(u.pwds)-1]
		switch op.S % 10 {
		case 0:
			return " " + p
		case 1:
			return p + " "
		case 2:
			return p + "\n"
		case 3:
			return p + "="
		case 4:
			return strings.ToUpper(p)
		case 5:
			// Other unused bits at the end of the base64 text.
			const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
			if i := strings.IndexByte(abc, p[len(p)-1]); i >= 0 {
				return p[:len(p)-1] + string(abc[i^1])
			}
		case 6:
			if q := strings.NewReplacer("-", "+", "_", "/").Replace(p); q != p {
				return q
			}
			return p[1:]
		case 7:
			return p + p
		case 8:
			return strings.TrimRight(p, p[len(p)-1:])
		case 9:
			return p[:len(p)/2]
		}
	case sel == 8 && len(u.pwds) > 0:
		return u.pwds[len(u.pwds)-1] + "\x00"
	}
	return "wrong"
}

// otherID is something close to an ID, but not the ID.
func otherID(id string, i int) string {
	switch i % 8 {
	case 0:
		if q := strings.ToUpper(id); q != id {
			return q
		}
	case 1:
		return " " + id
	case 2:
		return id + " "
	case 3:
		return "{" + id + "}"
	case 4:
		return "urn:uuid:" + id
	case 5:
		if q := strings.ReplaceAll(id, "-", ""); q != id {
			return q
		}
	case 6:
		return id + "\x00"
	}
	return id[:len(id)-1] + "!"
}

func (s *sysRun) newUser(c *client, uid, pwd string, sc id.Scope) *user {
	u := &user{id: uid, client: c.n, scopes: sc, pwds: []string{pwd}, worlds: []uwl{{true, pwd, map[string]bool{}}}}
	c.users = append(c.users, u)
	s.secret(pwd, "password")
	s.secretID(uid, "user ID")
	return u
}

func (s *sysRun) idOp(c *client, op *Op) {
	kind := op.K
	switch kind {
	case "nu":
		s.idNewUser(c, op)
		return
	}
	if len(c.users) == 0 {
		return
	}
	switch kind {
	case "login", "chpw":
		s.idPassword(c, op)
	default:
		s.idCallerOp(c, op)
	}
}

func splitScopes(m int, salt uint64) []id.Scope {
	// The same set given in different ways.
	switch salt % 3 {
	case 0:
		return []id.Scope{id.Scope(m)}
	case 1:
		var l []id.Scope
		for b := 0; b < 64; b++ {
			if m&(1<<b) != 0 {
				l = append(l, id.Scope(1)<<b)
			}
		}
		return l
	}
	return []id.Scope{id.Scope(m &^ 3), id.Scope(m & 7)}
}

func (s *sysRun) idNewUser(c *client, op *Op) {
	n := s.node(op.arg(0))
	var uid, pwd string
	var err error
	sc := splitScopes(op.arg(1), op.S)
	oc := s.runOp(op, "nu", c.n, n, func(oc *OpCtx) {
		uid, pwd, err = n.alone.NewUser(oc.ctx, sc...)
	})
	if s.stopped() {
		return
	}
	cls := idClass(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	s.ended(c, oc, err, fmt.Sprintf("nu scopes %#x", op.arg(1)), cls)
	tags := s.wtags(oc)
	if cls == "ok" {
		s.checkOK(oc, tags)
		for _, cc := range s.cl {
			for _, o := range cc.users {
				if o.id == uid {
					gone := true
					for _, w := range o.worlds {
						gone = gone && !w.exists
					}
					if !gone {
						s.fail("C19 C09"+tags, "existing user replaced", "NewUser succeeded for the ID of an existing user %s", uid)
						return
					}
					// The ID of a user deleted before: it belongs to the new one from now on.
					o.pwds = append(o.pwds, pwd)
					o.scopes = id.Scope(op.arg(1))
					o.worlds = []uwl{{true, pwd, map[string]bool{}}}
					s.secret(pwd, "password")
					return
				}
			}
		}
		s.newUser(c, uid, pwd, id.Scope(op.arg(1)))
		return
	}
	out := ""
	if uid != "" || pwd != "" {
		out = "a user ID or password"
	}
	s.checkRefusal(oc, false, out, tags)
	if cls != "crash" && !oc.relax && !oc.repeats {
		s.fail("C09 C10"+tags, "new user fails", "NewUser: %v", err)
	}
}

func (s *sysRun) idPassword(c *client, op *Op) {
	u := c.users[abs(op.arg(0))%len(c.users)]
	pwd := s.pwdOf(c, u, op)
	n := s.node(op.arg(2))
	kind := op.K
	uid := u.id
	ghost := op.arg(3) == 77
	if ghost {
		uid = otherID(u.id, int(op.S%8))
	}
	var tok, npwd string
	var exp int64
	var err error
	t0 := s.clock(n)
	oc := s.runOp(op, kind, c.n, n, func(oc *OpCtx) {
		if kind == "login" {
			tok, exp, err = n.alone.LoginUser(oc.ctx, uid, pwd)
		} else {
			npwd, err = n.alone.ChangeUserPassword(oc.ctx, uid, pwd)
		}
	})
	t1 := s.clock(n)
	if s.stopped() {
		return
	}
	cls := idClass(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	what := fmt.Sprintf("%s user %.8s password #%d", kind, uid, op.arg(1))
	s.ended(c, oc, err, what, cls)
	tags := s.wtags(oc)
	if u.cut {
		tags += " C22"
	}
	perm, refuse := false, false
	var keep []uwl
	for _, w := range u.worlds {
		ok := w.exists && w.pwd == pwd && !ghost
		perm = perm || ok
		refuse = refuse || !ok
		switch {
		case cls == "ok" && ok:
			if kind == "chpw" {
				w.pwd = npwd
			}
			keep = append(keep, w)
		case cls != "ok" && !ok:
			keep = append(keep, w)
		case cls != "ok" && ok && (oc.relax || cls == "crash"):
			keep = append(keep, w)
			if kind == "chpw" && (oc.mutated > 0 || oc.crashed) {
				w.pwd = unknownPwd
				keep = append(keep, w)
				u.cut = true
			}
		}
	}
	if cls == "ok" {
		if len(keep) == 0 {
			if ghost {
				tags += " C10"
			}
			s.fail("C09"+tags, "wrong password accepted", "%s: succeeded, must be refused%s", what, userText(u))
			return
		}
		s.checkOK(oc, tags)
		if kind == "chpw" {
			u.pwds = append(u.pwds, npwd)
			s.secret(npwd, "password")
			if npwd == pwd || npwd == "" {
				s.fail("C09", "password not changed", "ChangeUserPassword returned the old or an empty password")
			}
		} else {
			h := int64(time.Hour)
			if exp < floorSec(t0+h) || exp > floorSec(t1+h) {
				s.fail("C08"+tags, "wrong expiry", "login at %d..%d reports expiry %d, must be one hour later", t0, t1, exp)
			}
			lo, hi := t0+h, t1+h
			u.tokens = append(u.tokens, token{tok, lo, hi})
			s.secret(tok, "token")
		}
		u.worlds = dedupU(keep)
		return
	}
	out := ""
	if tok != "" || npwd != "" || exp != 0 {
		out = "a token or password"
	}
	s.checkRefusal(oc, !perm, out, tags)
	if cls != "crash" && !oc.relax {
		if len(keep) == 0 {
			s.fail("C09"+tags, "right password refused", "%s: %v, must succeed%s", what, err, userText(u))
			return
		}
		if cls != "noauthn" {
			s.fail("C09"+tags, "wrong refusal", "%s: %v, must be refused as not authenticated%s", what, err, userText(u))
			return
		}
	}
	u.worlds = dedupU(keep)
}

func floorSec(ns int64) int64 {
	return origin.Add(time.Duration(ns)).Unix()
}

func userText(u *user) string {
	var l []string
	for _, w := range u.worlds {
		l = append(l, fmt.Sprintf("exists=%v password known=%v groups %s", w.exists, w.pwd != unknownPwd, setText(w.groups)))
	}
	return " [user " + u.id + ": " + strings.Join(l, " | ") + "]"
}

func (s *sysRun) gidArgs(c *client, a []int) []string {
	var out []string
	for _, x := range a {
		x = abs(x)
		switch {
		case x >= 100 && x < 200 && len(c.groups) > 0:
			out = append(out, c.groups[x%len(c.groups)])
		case x >= 300 && x < 400:
			out = append(out, c.users[x%len(c.users)].id)
		case x >= 100 && x < 200:
			out = append(out, "no-such-group")
		case x >= 400 && x < 500:
			// Something close to the ID of a group.
			gid := c.users[x%len(c.users)].id
			if len(c.groups) > 0 {
				gid = c.groups[x%len(c.groups)]
			}
			out = append(out, otherID(gid, x/4))
		default:
			out = append(out, s.nm(x))
		}
	}
	return out
}

// idCallerOp runs the calls that need a token: gi, ng, aug, rug, du.
func (s *sysRun) idCallerOp(c *client, op *Op) {
	// args: caller, token, node, target or scopes, groups...
	k := s.caller(c, op.arg(0), op.arg(1))
	n := s.node(op.arg(2))
	kind := op.K
	var target *user
	var gids []string
	tid := ""
	if kind == "aug" || kind == "rug" || kind == "du" {
		target = c.users[abs(op.arg(3))%len(c.users)]
		tid = target.id
		if op.arg(3) >= 1000 {
			tid = "no-such-user"
			if op.S%4 != 0 {
				tid = otherID(target.id, int(op.S/4%8))
			}
			target = nil
		}
	}
	if kind == "aug" || kind == "rug" {
		if len(op.A) > 4 {
			gids = s.gidArgs(c, op.A[4:])
		}
	}
	what := fmt.Sprintf("%s caller %.8s", kind, k.u.id)
	if tid != "" {
		what += fmt.Sprintf(" target %.8s %s", tid, strsText(gids))
	}
	var err error
	var ident id.Identity
	var gid string
	k.t0 = s.clock(n)
	oc := s.runOp(op, kind, c.n, n, func(oc *OpCtx) {
		switch kind {
		case "gi":
			ident, err = n.alone.GetIdentity(oc.ctx, k.tok)
		case "ng":
			gid, err = n.alone.NewGroup(oc.ctx, k.tok, splitScopes(op.arg(3), op.S)...)
		case "aug", "rug":
			g, c1 := s.spareStrs(gids)
			if kind == "aug" {
				err = n.alone.AddUserToGroups(oc.ctx, k.tok, tid, g...)
			} else {
				err = n.alone.RemoveUserFromGroups(oc.ctx, k.tok, tid, g...)
			}
			if c1() {
				s.fail("C16", "argument written to", "%s changed memory of its arguments", kind)
			}
			if s.cfg("alias") > 0 {
				scribbleStrs(g)
			}
		case "du":
			err = n.alone.DeleteUser(oc.ctx, k.tok, tid)
		}
	})
	k.t1 = s.clock(n)
	if s.stopped() {
		return
	}
	cls := idClass(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	desc := cls
	if cls == "ok" && kind == "gi" {
		desc = fmt.Sprintf("ok scopes %#x groups %s", uint64(ident.Scopes), groupText(ident))
	}
	s.ended(c, oc, err, what, desc)
	tags := s.wtags(oc)
	if k.u.cut || target != nil && target.cut {
		tags += " C22"
	}
	// Candidate states: caller world x target world (the same world if the caller is the target).
	type cand struct {
		iw   idw
		tw   int
		want []string // allowed results
		perm bool
	}
	var cands []cand
	for _, iw := range s.identWorlds(k) {
		tws := []int{-1}
		if target != nil {
			tws = nil
			for i := range target.worlds {
				if target == k.u && iw.uw >= 0 && i != iw.uw {
					continue
				}
				tws = append(tws, i)
			}
		}
		for _, tw := range tws {
			cd := cand{iw: iw, tw: tw}
			switch {
			case !iw.ok:
				cd.want = []string{"noauthn", "absent"}
				if kind == "gi" || k.bad || k.any {
					cd.want = []string{"noauthn", "absent", "err"}
				}
			case kind == "gi" || kind == "ng":
				cd.want, cd.perm = []string{"ok"}, true
			case kind == "du":
				cd.want, cd.perm = []string{"ok"}, true
			default:
				member, self := true, false
				for _, g := range gids {
					if _, ok := iw.ident.Groups[g]; !ok {
						member = false
						if g == iw.ident.ID {
							self = true
						}
					}
				}
				onlySelf := self
				for _, g := range gids {
					if _, ok := iw.ident.Groups[g]; !ok && g != iw.ident.ID {
						onlySelf = false
					}
				}
				exists := target != nil && target.worlds[tw].exists
				switch {
				case !member && kind == "rug" && onlySelf:
					// Removing somebody from oneself is not a change of any group.
					cd.want = []string{"noauthz", "ok", "absent"}
					cd.perm = true
				case !member:
					cd.want = []string{"noauthz"}
				case !exists:
					cd.want = []string{"absent"}
					if len(gids) == 0 {
						cd.want = []string{"absent", "ok"}
					}
				default:
					cd.want, cd.perm = []string{"ok"}, true
				}
			}
			cands = append(cands, cd)
		}
	}
	anyPerm, anyOK := false, false
	var good []cand
	for _, cd := range cands {
		anyPerm = anyPerm || cd.perm
		anyOK = anyOK || in("ok", cd.want)
		if !in(cls, cd.want) {
			continue
		}
		if cls == "ok" && kind == "gi" && !identSame(ident, cd.iw.ident) {
			continue
		}
		good = append(good, cd)
	}
	tokTag := ""
	if k.any || k.bad || k.lo > 0 && (k.t1 >= k.lo || k.t0 >= k.lo) {
		tokTag = " C08"
	}
	apply := func(uw uwl) uwl {
		nw := uw
		nw.groups = copySet(uw.groups)
		switch kind {
		case "aug":
			for _, g := range gids {
				nw.groups[g] = true
			}
		case "rug":
			for _, g := range gids {
				delete(nw.groups, g)
			}
		case "du":
			nw.exists = false
		case "ng":
			nw.groups[gid] = true
		}
		return nw
	}
	if cls == "ok" {
		if len(good) == 0 {
			switch {
			case anyOK:
				s.fail("C10"+tags, "wrong identity", "%s: got %s scopes %#x groups %s%s", what, ident.ID, uint64(ident.Scopes), groupText(ident), userText(k.u))
			case kind == "aug" || kind == "rug":
				s.fail("C10 C03"+tokTag+tags, "unauthorised membership change", "%s: succeeded, must be refused%s", what, userText(k.u))
			default:
				s.fail("C09 C02 C10"+tokTag+tags, "token accepted", "%s: succeeded, the token must be rejected%s", what, userText(k.u))
			}
			return
		}
		s.checkOK(oc, tags)
		var us []int
		for _, cd := range good {
			us = append(us, cd.iw.uw)
		}
		switch kind {
		case "gi":
			s.filterUser(k.u, us)
			if s.cfg("alias") > 0 {
				for g := range ident.Groups {
					ident.Groups[g] = id.AccessGroup{ID: "scribbled", Scopes: id.ScopeAll}
				}
				if ident.Groups != nil {
					ident.Groups["scribbled"] = id.AccessGroup{ID: "scribbled", Scopes: id.ScopeAll}
				}
			}
		case "ng":
			for _, cc := range s.cl {
				for _, g := range cc.groups {
					if g == gid {
						s.fail("C19 C10"+tags, "existing group replaced", "NewGroup succeeded for the ID of an existing group %s", gid)
						return
					}
				}
			}
			if gid == "" {
				s.fail("C10"+tags, "no group id", "NewGroup succeeded with an empty ID")
				return
			}
			s.filterUser(k.u, us)
			c.groups = append(c.groups, gid)
			s.secretID(gid, "group ID")
			s.gscope[gid] = id.Scope(op.arg(3))
			for i := range k.u.worlds {
				if k.u.worlds[i].exists {
					k.u.worlds[i] = apply(k.u.worlds[i])
				}
			}
			k.u.cut = k.u.cut || len(oc.fired) > 0
		default:
			if target != k.u {
				s.filterUser(k.u, us)
			}
			if target == nil {
				return
			}
			var nw []uwl
			for _, cd := range good {
				w := target.worlds[cd.tw]
				if kind == "du" || w.exists {
					w = apply(w)
				}
				nw = append(nw, w)
			}
			target.worlds = dedupU(nw)
			target.cut = target.cut || len(oc.fired) > 0
			if kind == "du" {
				if _, there := s.idShadow()[skey([]byte(tid), id.DataTypeSealedUser)]; there {
					s.fail("C09 C22"+tags, "user not erased", "the record of the deleted user %s is still stored", tid)
				}
			}
		}
		return
	}
	out := ""
	if ident.ID != "" || len(ident.Groups) > 0 || ident.Scopes != 0 {
		out = "identity data"
	}
	if gid != "" {
		out = "a group ID"
	}
	s.checkRefusal(oc, !anyPerm, out, tags)
	if s.stopped() {
		return
	}
	if cls != "crash" && !oc.relax {
		if kind == "ng" && oc.repeats {
			return
		}
		if len(good) == 0 {
			if anyOK && (kind == "gi" || cls == "noauthn" || cls == "absent") {
				s.fail("C10"+s.livetag(k)+tags, "valid token rejected", "%s: %v, must succeed%s", what, err, userText(k.u))
			} else if anyOK {
				s.fail("C10"+tags, "permitted call failed", "%s: %v, must succeed%s", what, err, userText(k.u))
			} else {
				s.fail("C10 C09"+tags, "wrong refusal", "%s: %v%s", what, err, userText(k.u))
			}
			return
		}
		var us []int
		for _, cd := range good {
			us = append(us, cd.iw.uw)
		}
		s.filterUser(k.u, us)
		return
	}
	if !anyPerm || oc.mutated == 0 && !oc.crashed {
		return
	}
	// Cut short.
	switch kind {
	case "ng":
		for _, ca := range oc.calls {
			if ca.Type == id.DataTypeSealedGroup && ca.Op == "put" && ca.Applied {
				gid = string(ca.ID)
			}
		}
		if gid == "" {
			return
		}
		s.gscope[gid] = id.Scope(op.arg(3))
		nw := append([]uwl{}, k.u.worlds...)
		for _, w := range k.u.worlds {
			if w.exists {
				nw = append(nw, apply(w))
			}
		}
		k.u.worlds = dedupU(nw)
		k.u.cut = true
	case "aug", "rug", "du":
		if target == nil {
			return
		}
		nw := append([]uwl{}, target.worlds...)
		for _, cd := range cands {
			if cd.perm && target.worlds[cd.tw].exists {
				nw = append(nw, apply(target.worlds[cd.tw]))
			}
		}
		target.worlds = dedupU(nw)
		target.cut = true
	}
}

func (s *sysRun) livetag(k caller) string {
	if k.lo > 0 {
		return " C08 C09"
	}
	return " C09"
}

func (s *sysRun) idShadow() map[string]srec {
	if s.idBack != nil {
		return s.idBack.shadow
	}
	return s.back.shadow
}

// ---------------------------------------------------------------- index

func idxClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, index.ErrNotAuthenticated):
		return "noauthn"
	case errors.Is(err, index.ErrNotAuthorized):
		return "noauthz"
	}
	return "err"
}

// linkParts are the first, last and middle bytes of a record ID, which no two unrelated IDs share.
func linkParts(id []byte) []string {
	if len(id) < 16 {
		return nil
	}
	return []string{"<" + string(id[:8]), ">" + string(id[len(id)-8:]), "=" + string(id[len(id)/2-4:len(id)/2+4])}
}

func (s *sysRun) idxOp(c *client, op *Op) {
	// args: keyword, user, token, node, identifier
	kw := c.kws[abs(op.arg(0))%len(c.kws)]
	k := s.caller(c, op.arg(1), op.arg(2))
	n := s.node(op.arg(3))
	ident := s.ident(op.arg(4))
	if s.cfg("uniqident") > 0 {
		ident = fmt.Sprintf("%s#%x", ident, op.S&0xffff)
	}
	kind := op.K
	if kind == "ia" {
		kw.adds++
	}
	var err error
	var got []string
	what := fmt.Sprintf("%s %.20q user %s", kind, kw.kw, k.u.id)
	if kind != "is" {
		what += fmt.Sprintf(" identifier %.20q", ident)
	}
	k.t0 = s.clock(n)
	oc := s.runOp(op, kind, c.n, n, func(oc *OpCtx) {
		oc.maxCalls = 60 + 10*(kw.adds+2)
		oc.uid = k.u.id
		oc.args = []string{kw.kw, ident}
		defer func() { oc.logOK = err == nil }()
		switch kind {
		case "ia":
			err = n.idx.Add(oc.ctx, k.tok, kw.kw, ident)
		case "is":
			got, err = n.idx.Search(oc.ctx, k.tok, kw.kw)
		case "ix":
			err = n.idx.Delete(oc.ctx, k.tok, kw.kw, ident)
		}
	})
	k.t1 = s.clock(n)
	if s.stopped() {
		return
	}
	cls := idxClass(err)
	if oc.crashed && !oc.done {
		cls = "crash"
	}
	desc := cls
	if cls == "ok" && kind == "is" {
		desc = "ok " + strsText(got)
	}
	s.ended(c, oc, err, what, desc)
	for _, ca := range oc.calls {
		if ca.Op == "put" && ca.Type == d1io.DataTypeSealedNode {
			if o, ok := s.labels[ca.Key]; ok && o != kw.kw {
				s.fail("C18 C11", "record ID shared by keywords", "index record %x used for keywords %q and %q", ca.ID, o, kw.kw)
				return
			}
			if _, ok := s.labels[ca.Key]; !ok {
				for _, part := range linkParts(ca.ID) {
					if o, ok := s.lparts[part]; ok && o != ca.Key {
						s.fail("C18", "linkable record IDs", "index record ID %x written for keyword %q shares %x with another", ca.ID, kw.kw, part[1:])
						return
					}
					s.lparts[part] = ca.Key
				}
			}
			s.labels[ca.Key] = kw.kw
		}
	}
	tags := s.wtags(oc)
	if kw.cut {
		tags += " C12"
	}
	if s.prop == "C13" && len(s.p.Clients) > 1 {
		tags += " C13"
	}
	if s.prop == "C22" {
		tags += " C22"
	}
	ids := s.identWorlds(k)
	perm, refuse := false, false
	var us []int
	for _, iw := range ids {
		ok := iw.ok && has(iw.ident.Scopes, id.ScopeIndex)
		perm = perm || ok
		refuse = refuse || !ok
		if ok && cls == "ok" || !iw.ok && cls == "noauthn" || iw.ok && !ok && cls == "noauthz" {
			us = append(us, iw.uw)
		}
	}
	if cls == "ok" {
		if !perm {
			s.fail("C02 C03"+s.idtags(k.u)+tags, "unauthorised call succeeded", "%s: succeeded, must be refused", what)
			return
		}
		s.checkOK(oc, tags)
		s.filterUser(k.u, us)
		switch kind {
		case "ia":
			kw.list = append(kw.list, ient{id: ident})
			if len(kw.list) > kw.size {
				kw.size = len(kw.list)
			}
		case "ix":
			var l []ient
			for _, e := range kw.list {
				if e.id != ident {
					l = append(l, e)
				}
			}
			kw.list = l
		case "is":
			if !matchList(kw.list, got) {
				s.fail("C11"+tags, "wrong search result", "%s: got %s, added and not deleted: %s", what, strsText(got), listText(kw.list))
				return
			}
			kw.list = kw.list[:0:0]
			for _, g := range got {
				kw.list = append(kw.list, ient{id: g})
			}
			if s.cfg("alias") > 0 {
				scribbleStrs(got)
			}
		}
		return
	}
	out := ""
	if len(got) > 0 {
		out = "search results"
	}
	s.checkRefusal(oc, !perm, out, tags)
	if s.stopped() {
		return
	}
	if cls != "crash" && !oc.relax {
		if len(us) == 0 {
			switch {
			case perm && (cls == "noauthn" || cls == "noauthz"):
				s.fail("C02"+s.idtags(k.u)+tags, "permitted call refused", "%s: %v, must succeed", what, err)
			case perm:
				s.fail("C11"+tags, "index call fails", "%s: %v, must succeed (entries %s)", what, err, listText(kw.list))
			default:
				s.fail("C02"+tags, "wrong refusal", "%s: %v, must be refused as not authenticated or not authorised", what, err)
			}
			return
		}
		s.filterUser(k.u, us)
		return
	}
	if !perm || oc.mutated == 0 && !oc.crashed {
		return
	}
	switch kind {
	case "ia":
		kw.cut = true
		kw.list = append(kw.list, ient{id: ident, opt: true})
		if len(kw.list) > kw.size {
			kw.size = len(kw.list)
		}
	case "ix":
		kw.cut = true
		for i := range kw.list {
			if kw.list[i].id == ident {
				kw.list[i].opt = true
			}
		}
	}
}

// ---------------------------------------------------------------- tokens

func (s *sysRun) tokOp(c *client, op *Op) {
	if op.K == "tn" {
		// args: contents, node, foreign
		n := s.node(op.arg(1))
		inst := &n.d1
		if op.arg(2) > 0 && s.for2 != nil {
			inst = &s.for2.d1
		}
		contents := contentOf(s.p.Seed, op.arg(0))
		if s.cfg("secret") > 0 {
			contents = s.secretContent(op.arg(0), contents)
		}
		var st data.SealedToken
		var err error
		t0 := s.clock(n)
		oc := s.runOp(op, "tn", c.n, n, func(oc *OpCtx) {
			b, c1 := s.spare(contents)
			st, err = inst.CreateToken(oc.ctx, nilIf(b, op.S))
			if c1() {
				s.fail("C16", "argument written to", "CreateToken changed memory of its arguments")
			}
			if s.cfg("alias") > 0 {
				scribble(b)
			}
		})
		t1 := s.clock(n)
		if s.stopped() {
			return
		}
		s.ended(c, oc, err, fmt.Sprintf("tn %d bytes", len(contents)), okErr(err))
		tags := s.wtags(oc)
		if err != nil || !oc.done {
			s.checkRefusal(oc, false, outIf(len(st.Ciphertext) > 0 || len(st.WrappedKey) > 0, "a token"), tags)
			if !oc.relax && oc.done {
				s.fail("C08"+tags, "token creation fails", "CreateToken: %v", err)
			}
			return
		}
		s.checkOK(oc, tags)
		h := int64(time.Hour)
		exp := nanos(st.ExpiryTime)
		if exp < t0+h || exp > t1+h {
			s.fail("C08"+tags, "wrong expiry", "token made at %d..%d carries expiry %v, must be one hour later", t0, t1, st.ExpiryTime)
			return
		}
		c.toks = append(c.toks, &dtok{contents: contents, sealed: st, lo: exp, hi: exp, foreign: inst != &n.d1})
		return
	}
	// args: token, node, mode, arg, other token
	if len(c.toks) == 0 {
		return
	}
	t := c.toks[abs(op.arg(0))%len(c.toks)]
	o := c.toks[abs(op.arg(4))%len(c.toks)]
	n := s.node(op.arg(1))
	st := data.SealedToken{ExpiryTime: t.sealed.ExpiryTime, Ciphertext: clone(t.sealed.Ciphertext), WrappedKey: clone(t.sealed.WrappedKey)}
	inst := &n.d1
	must := true // valid if the clock says so
	may := true
	mode := op.arg(2)
	x := abs(op.arg(3))
	flip := func(b []byte) bool {
		if len(b) == 0 {
			return false
		}
		b[x/8%len(b)] ^= 1 << (x % 8)
		return true
	}
	viaString := false
	switch mode {
	case 1:
		viaString = true
	case 2:
		st.ExpiryTime = st.ExpiryTime.Add([]time.Duration{1, -1, time.Second, -time.Second, time.Hour, 1000 * time.Hour}[x%6])
		must, may = false, false
	case 3:
		must, may = !flip(st.Ciphertext), false
	case 4:
		must, may = !flip(st.WrappedKey), false
	case 5:
		if !bytes.Equal(o.sealed.Ciphertext, st.Ciphertext) {
			st.Ciphertext = clone(o.sealed.Ciphertext)
			must, may = false, false
		}
	case 6:
		if !bytes.Equal(o.sealed.WrappedKey, st.WrappedKey) {
			st.WrappedKey = clone(o.sealed.WrappedKey)
			must, may = false, false
		}
	case 7:
		if !o.sealed.ExpiryTime.Equal(st.ExpiryTime) {
			st.ExpiryTime = o.sealed.ExpiryTime
			must, may = false, false
		}
	case 8:
		if s.for2 != nil {
			inst = &s.for2.d1
		}
	case 9:
		if k := x % (len(st.Ciphertext) + 1); k < len(st.Ciphertext) {
			st.Ciphertext = st.Ciphertext[:k]
			must, may = false, false
		}
	case 10:
		if k := x % (len(st.WrappedKey) + 1); k < len(st.WrappedKey) {
			st.WrappedKey = st.WrappedKey[:k]
			must, may = false, false
		}
	case 11: // the same instant in another zone: not the bytes that were authenticated
		st.ExpiryTime = st.ExpiryTime.In(zone(x))
		must = false
	case 12:
		viaString = true
		must = false
	case 13:
		st.Ciphertext = append(st.Ciphertext, byte(x))
		must, may = false, false
	case 14:
		st = data.SealedToken{ExpiryTime: st.ExpiryTime}
		must, may = false, false
	case 15: // made under a key that can be guessed
		if f, ok := s.forgedToken(o.contents, st.ExpiryTime, x); ok {
			st, must, may = f, false, false
		}
	}
	if (inst != &n.d1) != t.foreign {
		must, may = false, false
	}
	var got []byte
	var err error
	t0 := s.clock(n)
	oc := s.runOp(op, "tg", c.n, n, func(oc *OpCtx) {
		arg := st
		if viaString {
			var str string
			str, err = st.String()
			if err != nil {
				return
			}
			if mode == 12 {
				str = flipToken(str, x)
			}
			arg, err = data.TokenFromString(str)
			if err != nil {
				return
			}
		}
		var c1, c2 func() bool
		arg.Ciphertext, c1 = s.spare(arg.Ciphertext)
		arg.WrappedKey, c2 = s.spare(arg.WrappedKey)
		got, err = inst.GetTokenContents(oc.ctx, &arg)
		if c1() || c2() || !viaString && (!bytes.Equal(arg.Ciphertext, st.Ciphertext) || !bytes.Equal(arg.WrappedKey, st.WrappedKey)) {
			s.fail("C16", "argument written to", "GetTokenContents changed memory of its arguments")
		}
	})
	t1 := s.clock(n)
	if s.stopped() {
		return
	}
	s.ended(c, oc, err, fmt.Sprintf("tg mode %d", mode), okErr(err))
	if !oc.done {
		return
	}
	tags := s.wtags(oc)
	early := t0 <= t.lo && t1 <= t.lo // certainly not expired
	late := t0 > t.hi && t1 > t.hi
	if err == nil {
		s.checkOK(oc, tags)
		if late {
			s.fail("C08"+tags, "expired token accepted", "token with expiry %d accepted at %d..%d", t.hi, t0, t1)
		} else if !may {
			s.fail("C08"+tags, "altered token accepted", "token altered by mode %d accepted", mode)
		} else if !bytes.Equal(got, t.contents) {
			s.fail("C08"+tags, "wrong token contents", "got %s, want %s", hx(got), hx(t.contents))
		}
		if s.cfg("alias") > 0 {
			scribble(got)
		}
		return
	}
	s.checkRefusal(oc, false, outIf(len(got) > 0, "token contents"), tags)
	if must && early && !oc.relax {
		s.fail("C08"+tags, "valid token rejected", "token with expiry %d rejected at %d..%d: %v", t.lo, t0, t1, err)
	}
}

func okErr(err error) string {
	if err == nil {
		return "ok"
	}
	return "err"
}

// discloses looks for what an error gives away: contents and names that are not the caller's own words. The IDs of the
// groups of an account are no secret to its owner.
func (s *sysRun) discloses(oc *OpCtx, err error) {
	text := err.Error()
next:
	for _, x := range s.secrets {
		if t := string(x.text); x.kind != "password" && x.kind != "group ID" && t != oc.uid && strings.Contains(text, t) {
			for _, a := range oc.args {
				if strings.Contains(a, t) {
					continue next
				}
			}
			s.fail("C03", "output with error", "the error of %s tells the caller a %s: %q", oc.kind, x.kind, text)
			return
		}
	}
}

func outIf(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// ---------------------------------------------------------------- settling

// settle checks the final state through the API, without faults, after all clients are done.
func (s *sysRun) settle() {
	if s.stopped() {
		return
	}
	salt := uint64(0x5e771e)
	do := func(c *client, k string, a ...int) {
		salt++
		s.exec(c, &Op{K: k, A: a, S: simrt.Mix64(s.p.Seed, salt)})
	}
	for _, c := range s.cl {
		if s.cfg("standalone") > 0 {
			for i, u := range c.users {
				// Sessions may have run out.
				if len(u.pwds) > 0 {
					do(c, "login", i, 0, i)
				}
				do(c, "gi", i, 0, i+1)
			}
		}
		nu := len(c.users)
		objs := append([]*object{}, c.objs...)
		for oi := range objs {
			o := c.objs[oi]
			for u := 0; u < nu && u < 4; u++ {
				do(c, "dec", oi, u, 0, u)
			}
			do(c, "acc", oi, oi%nu, 0, oi)
			do(c, "acc", oi, (oi+1)%nu, 0, oi)
			if o.delCut {
				do(c, "del", oi, o.delBy, 0, oi)
				do(c, "dec", oi, o.delBy, 0, oi)
			} else if o.interrupted && !o.orphan {
				for u := 0; u < nu && u < 3; u++ {
					do(c, "upd", oi, u, 0, u, 400+u*7+oi, 405)
				}
				for u := 0; u < nu && u < 3; u++ {
					do(c, "dec", oi, u, 0, u+1)
				}
				do(c, "acc", oi, oi%nu, 0, oi)
				if oi%2 == 0 {
					for u := 0; u < nu && u < 3; u++ {
						do(c, "del", oi, u, 0, u)
					}
					do(c, "dec", oi, oi%nu, 0, oi)
				}
			}
			if o.delAck && !s.stopped() && len(o.worlds) == 1 && o.worlds[0].st == oAbsent {
				s.checkErased(o, "")
			}
		}
		for ki, kw := range c.kws {
			if len(kw.list) == 0 && !kw.cut {
				continue
			}
			u := s.indexUser(c)
			if u < 0 {
				break
			}
			do(c, "is", ki, u, 0, ki)
			if kw.cut && len(kw.list) > 0 {
				// What was interrupted can be completed, and stays completed.
				for i := 0; i < len(kw.list) && i < 3; i++ {
					x := kw.list[i].id
					s.idxDirect(c, kw, u, "ix", x)
					s.idxDirect(c, kw, u, "is", "")
					s.idxDirect(c, kw, u, "ia", x+"+")
					s.idxDirect(c, kw, u, "is", "")
					if s.stopped() {
						return
					}
				}
			}
		}
	}
	// Everything else again, after all of that.
	for _, c := range s.cl {
		for oi := range c.objs {
			do(c, "dec", oi, oi%len(c.users), 0, 1)
		}
		if s.cfg("standalone") > 0 {
			for i := range c.users {
				do(c, "gi", i, 0, 0)
			}
		}
		if u := s.indexUser(c); u >= 0 {
			for ki := range c.kws {
				do(c, "is", ki, u, 0, 1)
			}
		}
	}
}

func (s *sysRun) indexUser(c *client) int {
	for i, u := range c.users {
		k := s.caller(c, i, 0)
		n := s.node(i)
		k.t0, k.t1 = s.clock(n), s.clock(n)
		ok := true
		for _, iw := range s.identWorlds(k) {
			ok = ok && iw.ok && has(iw.ident.Scopes, id.ScopeIndex)
		}
		_ = u
		if ok && !k.bad {
			return i
		}
	}
	return -1
}

// churn adds and deletes pairs of a keyword many times over.
func (s *sysRun) churn(c *client, op *Op) {
	// args: keyword, rounds, keep an entry in front, whether to grow a chain instead
	kw := c.kws[abs(op.arg(0))%len(c.kws)]
	u := s.indexUser(c)
	if u < 0 {
		return
	}
	s.tracef("c%d churn %d rounds of add and delete on %.20q", c.n, op.arg(1), kw.kw)
	if op.arg(2) > 0 {
		s.idxDirect(c, kw, u, "ia", "kept")
	}
	if op.arg(3) > 0 { // a long chain, and then deletes in it
		s.probe("very long chain")
		for j := 0; j < op.arg(1) && !s.stopped(); j++ {
			s.idxDirect(c, kw, u, "ia", fmt.Sprintf("grown %d", j))
		}
		s.idxDirect(c, kw, u, "is", "")
		for _, j := range []int{op.arg(1) - 1, op.arg(1) / 2, 0} {
			s.idxDirect(c, kw, u, "ix", fmt.Sprintf("grown %d", j))
			s.idxDirect(c, kw, u, "ia", fmt.Sprintf("late %d", j))
			s.idxDirect(c, kw, u, "is", "")
		}
		return
	}
	s.idxDirect(c, kw, u, "ia", "churn 0")
	for j := 1; j <= op.arg(1) && !s.stopped(); j++ {
		s.idxDirect(c, kw, u, "ia", fmt.Sprintf("churn %d", j))
		s.idxDirect(c, kw, u, "ix", fmt.Sprintf("churn %d", j-1))
		if near := (j+8)&(j+7) < 16; near || j%500 == 0 {
			s.idxDirect(c, kw, u, "is", "")
		}
	}
	s.idxDirect(c, kw, u, "is", "")
	s.probe("long churn")
}

// idxDirect runs an index call with a given identifier text, without faults.
func (s *sysRun) idxDirect(c *client, kw *keyword, u int, kind, ident string) {
	if s.stopped() {
		return
	}
	k := s.caller(c, u, 0)
	n := s.node(u)
	op := &Op{K: kind, S: simrt.Mix64(s.p.Seed, uint64(s.nOps), 0xd1ec)}
	var err error
	var got []string
	what := fmt.Sprintf("%s %.20q identifier %.20q", kind, kw.kw, ident)
	oc := s.runOp(op, kind, c.n, n, func(oc *OpCtx) {
		oc.args = []string{kw.kw, ident}
		switch kind {
		case "ia":
			err = n.idx.Add(oc.ctx, k.tok, kw.kw, ident)
		case "is":
			got, err = n.idx.Search(oc.ctx, k.tok, kw.kw)
		case "ix":
			err = n.idx.Delete(oc.ctx, k.tok, kw.kw, ident)
		}
	})
	if s.stopped() {
		return
	}
	s.ended(c, oc, err, what, idxClass(err)+" "+strsText(got))
	tags := "C11 C12" + s.wtags(oc)
	if err != nil {
		s.fail(tags, "index call fails", "%s: %v (entries %s)", what, err, listText(kw.list))
		return
	}
	switch kind {
	case "ia":
		kw.list = append(kw.list, ient{id: ident})
	case "ix":
		var l []ient
		for _, e := range kw.list {
			if e.id != ident {
				l = append(l, e)
			}
		}
		kw.list = l
	case "is":
		if !matchList(kw.list, got) {
			s.fail(tags, "wrong search result", "%s: got %s, added and not deleted: %s", what, strsText(got), listText(kw.list))
			return
		}
		kw.list = kw.list[:0:0]
		for _, g := range got {
			kw.list = append(kw.list, ient{id: g})
		}
	}
}

// runSys runs the plan of the "sys" family inside a simulation.
func runSys(w *World) {
	s := &sysRun{World: w, gscope: map[string]id.Scope{}, owner: map[string]*object{}, labels: map[string]string{}, lparts: map[string]string{}, junk: map[uuid.UUID]bool{}}
	w.setup()
	if w.stopped() {
		return
	}
	if w.cfg("foreign") > 0 {
		s.for2 = s.foreignNode()
	}
	w.inSetup = true
	s.setupClients()
	w.inSetup = false
	if w.stopped() {
		return
	}
	var ts []*simrt.Task
	for i := range w.p.Clients {
		c, ops := s.cl[i], w.p.Clients[i]
		ts = append(ts, simrt.Go(fmt.Sprintf("client%d", i), -1, nil, func() {
			for j := range ops {
				if w.stopped() {
					return
				}
				if w.cfg("secret") > 0 {
					s.noteSecrets(c, &ops[j])
				}
				s.exec(c, &ops[j])
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if w.stopped() {
		return
	}
	if !w.p.NoSettle() {
		s.settle()
	}
	if w.prop == "C18" && !w.stopped() {
		w.scanSecrets()
		w.scanLinks()
	}
	if w.prop == "C21" && !w.stopped() {
		w.checkSilence()
	}
	for _, c := range s.cl {
		w.logsOut = append(w.logsOut, c.log)
	}
}

func (p *Plan) NoSettle() bool { return p.Cfg["nosettle"] > 0 }

func (s *sysRun) foreignNode() *Node {
	w := s.World
	n := &Node{n: 0}
	save := w.keys
	saveID := w.cfgID
	w.keys.KEK, w.keys.AEK, w.keys.TEK, w.keys.IEK = w.keyBytes(91), w.keyBytes(92), w.keyBytes(93), w.keyBytes(94)
	w.runQuiet("boot-foreign", 0, func(oc *OpCtx) { w.boot(oc.ctx, n) })
	w.keys, w.cfgID = save, saveID
	return n
}

var _ = context.Background
