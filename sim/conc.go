package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	d1io "github.com/cybercryptio/d1-lib/v2/io"
	"github.com/gofrs/uuid"

	"verifsim/simrt"
)

// The "conc" family: clients share objects, keywords or accounts. Afterwards a search decides whether some
// one-at-a-time order of the calls on each of them explains every result (strict). Where the library is known
// not to give that, a second look decides whether each call at least did what its own storage accesses allow
// (relaxed); what passes only that belongs to one of the listed findings or is a violation.

// cev is one call.
type cev struct {
	seq, client int
	kind        string
	dat         int // object or keyword
	u, t        int // caller and target
	gs          []string
	content     int
	ident       string
	pwd         string
	begin, end  int64
	cls         string
	err         string
	cut         bool // may or may not have had its effect
	list        []string
	set         map[string]bool
	newpwd, gid string
	oc          *OpCtx
}

type concUser struct {
	id    string
	tok   string
	ident id.Identity
	pwds  []string // as acknowledged
}

type concRun struct {
	*World
	users    []*concUser
	oids     []uuid.UUID
	kws      []string
	groups   []string
	contents map[string]int
	hist     []*cev
	locks    map[string]int // -1 exclusive, else number of sharers
	writer   map[string]*cev
	readOf   map[string][]byte // what the writer had read last
}

func (s *concRun) lock(name string, excl bool) {
	for s.locks[name] < 0 || excl && s.locks[name] > 0 {
		simrt.Sleep(time.Millisecond)
	}
	if excl {
		s.locks[name] = -1
	} else {
		s.locks[name]++
	}
}

func (s *concRun) unlock(name string) {
	if s.locks[name] < 0 {
		s.locks[name] = 0
	} else {
		s.locks[name]--
	}
}

// exclusion names the lock under which a call runs so that calls known not to go together do not overlap.
func (s *concRun) exclusion(op *Op) (string, bool) {
	safe := s.cfg("safe")
	if safe == 0 {
		return "", false
	}
	switch op.K {
	case "upd", "addg", "remg":
		return fmt.Sprintf("o%d", s.obj(op)), true
	case "del":
		if safe == 1 {
			return fmt.Sprintf("o%d", s.obj(op)), true
		}
	case "ix":
		return fmt.Sprintf("k%d", s.kw(op)), true
	case "ia", "is":
		return fmt.Sprintf("k%d", s.kw(op)), false
	case "chpw", "aug", "rug", "ng", "du":
		return "users", true
	}
	return "", false
}

func (s *concRun) obj(op *Op) int { return abs(op.arg(0)) % len(s.oids) }
func (s *concRun) kw(op *Op) int  { return abs(op.arg(0)) % len(s.kws) }

func (s *concRun) grp(i int) string {
	i = abs(i)
	if s.cfg("standalone") > 0 {
		return s.groups[i%len(s.groups)]
	}
	if i >= 300 {
		return s.users[(i-300)%len(s.users)].id
	}
	return s.groups[i%len(s.groups)]
}

func (s *concRun) grps(a []int) []string {
	var l []string
	for _, x := range a {
		l = append(l, s.grp(x))
	}
	return l
}

func argsFrom(op *Op, n int) []int {
	if len(op.A) > n {
		return op.A[n:]
	}
	return nil
}

func concIdxClass(err error) string {
	if errors.Is(err, index.ErrNodeAlreadyExists) {
		return "exists"
	}
	return idxClass(err)
}

// blobOf makes content that no other call stores.
func (s *concRun) blobOf(op *Op, sel int) (pt, ad []byte, key string) {
	pt = contentOf(s.p.Seed, sel)
	ad = []byte(fmt.Sprintf("%016x", op.S))
	return pt, ad, string(ad) + string(pt)
}

// run makes one call and records it.
func (s *concRun) run(c int, op *Op) *cev {
	if s.stopped() {
		return nil
	}
	if name, excl := s.exclusion(op); name != "" {
		s.lock(name, excl)
		defer s.unlock(name)
	}
	e := &cev{kind: op.K, client: c, dat: -1, content: -1, cls: "cut"}
	n := s.nodes[abs(op.arg(2))%len(s.nodes)]
	if op.K != "nu" {
		e.u = abs(op.arg(1)) % len(s.users)
	}
	var what string
	var f func(oc *OpCtx)
	set := func(cls string, err error) {
		e.cls = cls
		if err != nil {
			e.err = err.Error()
		}
	}
	switch op.K {
	case "enc", "upd", "dec", "acc", "authz", "addg", "remg", "del":
		var oid uuid.UUID
		if op.K == "enc" {
			e.dat = len(s.oids)
		} else {
			e.dat = s.obj(op)
			oid = s.oids[e.dat]
		}
		tok := s.users[e.u].tok
		what = fmt.Sprintf("%s object%d by %s", op.K, e.dat, s.users[e.u].id)
		switch op.K {
		case "enc", "upd":
			pt, ad, key := s.blobOf(op, op.arg(3))
			e.content = len(s.contents)
			s.contents[key] = e.content
			what += fmt.Sprintf(" content%d", e.content)
			if op.K == "enc" {
				e.gs = s.grps(argsFrom(op, 4))
				f = func(oc *OpCtx) {
					o, err := n.d1.Encrypt(oc.ctx, tok, &data.Object{Plaintext: pt, AssociatedData: ad}, e.gs...)
					set(d1Class(err), err)
					if err == nil {
						s.oids = append(s.oids, o)
					}
				}
			} else {
				f = func(oc *OpCtx) {
					err := n.d1.Update(oc.ctx, tok, oid, &data.Object{Plaintext: pt, AssociatedData: ad})
					set(d1Class(err), err)
				}
			}
		case "dec":
			f = func(oc *OpCtx) {
				o, err := n.d1.Decrypt(oc.ctx, tok, oid)
				set(d1Class(err), err)
				if err == nil {
					x, ok := s.contents[string(o.AssociatedData)+string(o.Plaintext)]
					if !ok {
						s.fail("C23 C01 C17", "content never stored", "decrypt of object%d returns %d bytes with associated data %.40q: no call stored that as a whole", e.dat, len(o.Plaintext), o.AssociatedData)
						return
					}
					e.content = x
				} else if len(o.Plaintext) > 0 {
					s.fail("C23 C03 C06", "content with an error", "decrypt of object%d returns content together with %v", e.dat, err)
				}
			}
		case "acc":
			f = func(oc *OpCtx) {
				g, err := n.d1.GetAccessGroups(oc.ctx, tok, oid)
				set(d1Class(err), err)
				e.set = setOf(g)
			}
		case "authz":
			f = func(oc *OpCtx) {
				err := n.d1.AuthorizeIdentity(oc.ctx, tok, oid)
				set(d1Class(err), err)
			}
		case "addg", "remg":
			e.gs = s.grps(argsFrom(op, 3))
			what += fmt.Sprintf(" %q", e.gs)
			f = func(oc *OpCtx) {
				var err error
				if op.K == "addg" {
					err = n.d1.AddGroupsToAccess(oc.ctx, tok, oid, e.gs...)
				} else {
					err = n.d1.RemoveGroupsFromAccess(oc.ctx, tok, oid, e.gs...)
				}
				set(d1Class(err), err)
			}
		case "del":
			f = func(oc *OpCtx) {
				err := n.d1.Delete(oc.ctx, tok, oid)
				set(d1Class(err), err)
			}
		}
	case "ia", "is", "ix":
		e.dat = s.kw(op)
		kw, tok := s.kws[e.dat], s.users[e.u].tok
		e.ident = name(op.arg(3))
		if op.arg(4) > 0 {
			e.ident = fmt.Sprintf("%x", op.S)
		}
		what = fmt.Sprintf("%s keyword%d", op.K, e.dat)
		if op.K != "is" {
			what += fmt.Sprintf(" %.30q", e.ident)
		}
		f = func(oc *OpCtx) {
			var err error
			switch op.K {
			case "ia":
				err = n.idx.Add(oc.ctx, tok, kw, e.ident)
			case "is":
				e.list, err = n.idx.Search(oc.ctx, tok, kw)
			case "ix":
				err = n.idx.Delete(oc.ctx, tok, kw, e.ident)
			}
			set(concIdxClass(err), err)
		}
	case "nu":
		what = "new user"
		f = func(oc *OpCtx) {
			u, p, err := n.alone.NewUser(oc.ctx, id.ScopeAll)
			set(idClass(err), err)
			if err == nil {
				e.t = len(s.users)
				s.users = append(s.users, &concUser{id: u, pwds: []string{p}})
				e.newpwd = p
			}
		}
	case "login", "chpw":
		u := s.users[e.u]
		e.pwd = u.pwds[len(u.pwds)-1]
		switch op.arg(3) {
		case 1:
			e.pwd = u.pwds[0]
		case 2:
			e.pwd = "wrong"
		case 3:
			if len(u.pwds) > 1 {
				e.pwd = u.pwds[len(u.pwds)-2]
			}
		}
		what = fmt.Sprintf("%s user%d", op.K, e.u)
		f = func(oc *OpCtx) {
			if op.K == "login" {
				t, _, err := n.alone.LoginUser(oc.ctx, u.id, e.pwd)
				set(idClass(err), err)
				if err == nil && u.tok == "" {
					u.tok = t
				}
				return
			}
			p, err := n.alone.ChangeUserPassword(oc.ctx, u.id, e.pwd)
			set(idClass(err), err)
			if err == nil {
				e.newpwd = p
				u.pwds = append(u.pwds, p)
			}
		}
	case "gi", "aug", "rug", "ng", "du":
		tok := s.users[e.u].tok
		what = fmt.Sprintf("%s by user%d", op.K, e.u)
		if op.K != "gi" && op.K != "ng" {
			e.t = abs(op.arg(3)) % len(s.users)
			what += fmt.Sprintf(" on user%d", e.t)
		}
		if op.K == "aug" || op.K == "rug" {
			e.gs = s.grps(argsFrom(op, 4))
			what += fmt.Sprintf(" %q", e.gs)
		}
		f = func(oc *OpCtx) {
			var err error
			switch op.K {
			case "gi":
				var i id.Identity
				i, err = n.alone.GetIdentity(oc.ctx, tok)
				e.set = map[string]bool{}
				for g := range i.Groups {
					e.set[g] = true
				}
				if err == nil && i.ID != s.users[e.u].id {
					s.fail("C23 C10 C17", "other identity", "the token of %s gives %s", s.users[e.u].id, i.ID)
				}
			case "aug":
				err = n.alone.AddUserToGroups(oc.ctx, tok, s.users[e.t].id, e.gs...)
			case "rug":
				err = n.alone.RemoveUserFromGroups(oc.ctx, tok, s.users[e.t].id, e.gs...)
			case "du":
				err = n.alone.DeleteUser(oc.ctx, tok, s.users[e.t].id)
			case "ng":
				e.gid, err = n.alone.NewGroup(oc.ctx, tok, id.ScopeAll)
				if err == nil {
					s.groups = append(s.groups, e.gid)
				}
			}
			set(idClass(err), err)
		}
	default:
		s.herr("unknown operation %s", op.K)
		return e
	}
	oc := s.runOp(op, op.K, c, n, f)
	e.oc, e.seq, e.begin, e.end = oc, oc.seq, oc.begin, oc.end
	if oc.crashed {
		e.cls = "cut"
		if oc.crashAt > 0 {
			e.end = oc.crashAt
		}
	}
	if oc.relax && e.cls != "ok" {
		e.cut = true
	}
	if e.cls == "cut" {
		e.cut = true
	}
	s.hist = append(s.hist, e)
	s.stats.Results[op.K+":"+e.cls]++
	s.tracef("c%d op%d n%d %s -> %s%s %s", c, e.seq, n.n, what, e.cls, e.out(), e.err)
	return e
}

func (e *cev) out() string {
	switch {
	case e.cls != "ok":
		return ""
	case e.kind == "dec":
		return fmt.Sprintf(" content%d", e.content)
	case e.kind == "acc" || e.kind == "gi":
		return " " + setText(e.set)
	case e.kind == "is":
		return " " + strsText(e.list)
	case e.kind == "ng":
		return " " + e.gid
	}
	return ""
}

func (e *cev) overlaps(x *cev) bool { return e.begin < x.end && x.begin < e.end }

// ---------------------------------------------------------------- one-at-a-time orders

const linCap = 300_000

// linearize reports whether an order of the calls explains them: 1 yes, 0 no, -1 undecided.
func linearize[S any](h []*cev, init S, key func(S) string, step func(S, *cev) (S, bool)) int {
	n := len(h)
	done := make([]bool, n)
	memo := map[string]bool{}
	visits := 0
	kb := make([]byte, 0, 256)
	var dfs func(st S, maxBegin int64) bool
	dfs = func(st S, maxBegin int64) bool {
		minEnd := int64(1) << 62
		left := 0
		for i := 0; i < n; i++ {
			if !done[i] && !h[i].cut {
				left++
				if h[i].end < minEnd {
					minEnd = h[i].end
				}
			}
		}
		if left == 0 {
			return true
		}
		kb = kb[:0]
		for i := 0; i < n; i++ {
			if done[i] {
				kb = append(kb, '1')
			} else {
				kb = append(kb, '0')
			}
		}
		k := string(kb) + key(st)
		if memo[k] {
			return false
		}
		memo[k] = true
		if visits++; visits > linCap {
			return false
		}
		for i := 0; i < n; i++ {
			e := h[i]
			if done[i] || e.begin > minEnd || e.cut && maxBegin > e.end {
				continue
			}
			ns, ok := step(st, e)
			if !ok {
				continue
			}
			done[i] = true
			mb := maxBegin
			if e.begin > mb {
				mb = e.begin
			}
			r := dfs(ns, mb)
			done[i] = false
			if r {
				return true
			}
		}
		return false
	}
	if dfs(init, 0) {
		return 1
	}
	if visits > linCap {
		return -1
	}
	return 0
}

func sortEvs(h []*cev) {
	sort.SliceStable(h, func(a, b int) bool { return h[a].begin < h[b].begin })
}

func histText(h []*cev) string {
	var t []string
	for _, e := range h {
		x := fmt.Sprintf("op%d[%d,%d] c%d u%d %s", e.seq, e.begin, e.end, e.client, e.u, e.kind)
		switch e.kind {
		case "upd", "enc":
			x += fmt.Sprintf(" content%d", e.content)
		case "addg", "remg", "aug", "rug":
			x += fmt.Sprintf(" %.60q", e.gs)
		case "ia", "ix":
			x += fmt.Sprintf(" %.20q", e.ident)
		}
		if in(e.kind, []string{"aug", "rug", "du"}) {
			x += fmt.Sprintf(" t%d", e.t)
		}
		t = append(t, x+"="+e.cls+e.out())
		if len(t) > 30 {
			break
		}
	}
	return strings.Join(t, "; ")
}

// objects

type ostate struct {
	present bool
	content int
	acl     map[string]bool
}

func (s ostate) key() string { return fmt.Sprintf("%v %d %s", s.present, s.content, aclKey(s.acl)) }

func (s *concRun) onList(u int, acl map[string]bool) bool {
	i := s.users[u].ident
	if acl[i.ID] {
		return true
	}
	for g := range i.Groups {
		if acl[g] {
			return true
		}
	}
	return false
}

func changed(acl map[string]bool, gs []string, add bool) map[string]bool {
	m := copySet(acl)
	for _, g := range gs {
		if add {
			m[g] = true
		} else {
			delete(m, g)
		}
	}
	return m
}

func (s *concRun) objStep(st ostate, e *cev) (ostate, bool) {
	if e.kind == "enc" {
		acl := map[string]bool{s.users[e.u].id: true}
		return ostate{true, e.content, changed(acl, e.gs, true)}, e.cls == "ok" && !st.present
	}
	if !st.present {
		if e.kind == "del" {
			return st, e.cut || e.cls == "ok"
		}
		return st, !e.cut && e.cls == "absent"
	}
	if !s.onList(e.u, st.acl) {
		return st, !e.cut && e.cls == "noauthz"
	}
	if !e.cut && e.cls != "ok" {
		return st, false
	}
	switch e.kind {
	case "upd":
		return ostate{true, e.content, st.acl}, true
	case "addg":
		return ostate{true, st.content, changed(st.acl, e.gs, true)}, true
	case "remg":
		return ostate{true, st.content, changed(st.acl, e.gs, false)}, true
	case "del":
		return ostate{}, true
	case "dec":
		return st, e.cut || e.content == st.content
	case "acc":
		return st, e.cut || aclKey(e.set) == aclKey(st.acl)
	}
	return st, true
}

// accounts

type uacc struct {
	exists bool
	pwd    string
	groups map[string]bool
}

type ustate struct{ u []uacc }

func (s ustate) key() string {
	var b strings.Builder
	for _, x := range s.u {
		fmt.Fprintf(&b, "%v %q %s|", x.exists, x.pwd, aclKey(x.groups))
	}
	return b.String()
}

func (s ustate) with(i int, a uacc) ustate {
	n := ustate{append([]uacc{}, s.u...)}
	n.u[i] = a
	return n
}

func cutPwd(e *cev) string {
	if e.cut {
		return fmt.Sprintf("unknown %d", e.seq)
	}
	return e.newpwd
}

func member(gs []string, of map[string]bool) bool {
	for _, g := range gs {
		if !of[g] {
			return false
		}
	}
	return true
}

func (s *concRun) userStep(st ustate, e *cev) (ustate, bool) {
	is := func(c string) bool { return !e.cut && e.cls == c }
	if e.kind == "nu" {
		if e.cls != "ok" {
			return st, e.cut
		}
		return st.with(e.t, uacc{true, e.newpwd, map[string]bool{}}), true
	}
	a := st.u[e.u]
	if e.kind == "login" || e.kind == "chpw" {
		if !a.exists || a.pwd != e.pwd {
			return st, is("noauthn")
		}
		if !e.cut && e.cls != "ok" {
			return st, false
		}
		if e.kind == "chpw" {
			a.pwd = cutPwd(e)
			return st.with(e.u, a), true
		}
		return st, true
	}
	if !a.exists {
		return st, is("absent") || is("noauthn")
	}
	switch e.kind {
	case "gi":
		return st, e.cut || e.cls == "ok" && aclKey(e.set) == aclKey(a.groups)
	case "aug", "rug":
		if !member(e.gs, a.groups) {
			return st, is("noauthz")
		}
		b := st.u[e.t]
		if !b.exists {
			return st, is("absent")
		}
		if !e.cut && e.cls != "ok" {
			return st, false
		}
		b.groups = changed(b.groups, e.gs, e.kind == "aug")
		return st.with(e.t, b), true
	case "ng":
		if e.cut {
			return st, true // nobody knows its name
		}
		if e.cls != "ok" {
			return st, false
		}
		a.groups = changed(a.groups, []string{e.gid}, true)
		return st.with(e.u, a), true
	case "du":
		if !e.cut && e.cls != "ok" {
			return st, false
		}
		return st.with(e.t, uacc{}), true
	}
	return st, false
}

// keywords

func kwKey(l []string) string { return listKey(l) }

func kwStep(st []string, e *cev) ([]string, bool) {
	if !e.cut && e.cls != "ok" {
		return st, false
	}
	switch e.kind {
	case "ia":
		return append(append([]string{}, st...), e.ident), true
	case "ix":
		var l []string
		for _, x := range st {
			if x != e.ident {
				l = append(l, x)
			}
		}
		return l, true
	}
	return st, e.cut || kwKey(st) == kwKey(e.list)
}

// ---------------------------------------------------------------- what each call's own accesses allow

// collect notes who wrote each stored value and what it had read before.
func (s *concRun) collect() {
	s.writer, s.readOf = map[string]*cev{}, map[string][]byte{}
	for _, e := range s.hist {
		last := map[string][]byte{}
		var lastAny []byte
		for i := range e.oc.calls {
			c := &e.oc.calls[i]
			if c.Op == "get" && !c.Err {
				last[c.Key], lastAny = c.Val, c.Val
			}
			if c.Op == "put" || c.Op == "update" {
				v := c.Key + string(c.Val)
				s.writer[v] = e
				s.readOf[v] = last[c.Key]
				if e.kind == "ix" {
					s.readOf[v] = lastAny
				}
			}
		}
	}
}

type arec struct {
	content int
	acl     map[string]bool
}

func (s *concRun) access(key string, val []byte) (arec, bool) {
	e := s.writer[key+string(val)]
	if e == nil {
		return arec{}, false
	}
	if e.kind == "enc" {
		return arec{e.content, changed(map[string]bool{s.users[e.u].id: true}, e.gs, true)}, true
	}
	r, ok := s.access(key, s.readOf[key+string(val)])
	if !ok {
		return r, false
	}
	switch e.kind {
	case "upd":
		return arec{e.content, r.acl}, true
	case "addg", "remg":
		return arec{r.content, changed(r.acl, e.gs, e.kind == "addg")}, true
	}
	return r, false
}

func firstGet(oc *OpCtx, dt d1io.DataType) *Call {
	for i := range oc.calls {
		if c := &oc.calls[i]; c.Op == "get" && c.Type == dt {
			return c
		}
	}
	return nil
}

// relaxedObj reports whether a call's result follows from what it read and wrote.
func (s *concRun) relaxedObj(e *cev) bool {
	if e.cut || e.kind == "enc" {
		return true
	}
	for i := range e.oc.calls {
		if e.oc.calls[i].Op == "put" {
			return false // nothing but encrypt creates records
		}
	}
	a := firstGet(e.oc, d1io.DataTypeSealedAccess)
	if a == nil {
		return false
	}
	if a.Err {
		return e.cls == "absent" || e.kind == "del" && e.cls == "ok"
	}
	r, ok := s.access(a.Key, a.Val)
	if !ok {
		return false
	}
	if !s.onList(e.u, r.acl) {
		return e.cls == "noauthz"
	}
	switch e.kind {
	case "acc":
		return e.cls == "ok" && aclKey(e.set) == aclKey(r.acl)
	case "authz":
		return e.cls == "ok"
	case "dec":
		o := firstGet(e.oc, d1io.DataTypeSealedObject)
		if o == nil {
			return false
		}
		if o.Err {
			return e.cls == "absent"
		}
		w := s.writer[o.Key+string(o.Val)]
		if w == nil {
			return false
		}
		if w.content != r.content {
			return e.cls == "err"
		}
		return e.cls == "ok" && e.content == w.content
	}
	// Writers: all their writes worked, or they say that the object is gone.
	all, n := true, 0
	for i := range e.oc.calls {
		if c := &e.oc.calls[i]; c.Op == "update" || c.Op == "delete" {
			n++
			all = all && !c.Err
		}
	}
	if all {
		return e.cls == "ok" && n > 0
	}
	return e.cls == "absent"
}

func (s *concRun) account(key string, val []byte) (uacc, bool) {
	e := s.writer[key+string(val)]
	if e == nil {
		return uacc{}, false
	}
	if e.kind == "nu" {
		return uacc{true, e.newpwd, map[string]bool{}}, true
	}
	a, ok := s.account(key, s.readOf[key+string(val)])
	if !ok {
		return a, false
	}
	switch e.kind {
	case "chpw":
		a.pwd = cutPwd(e)
	case "aug", "rug":
		a.groups = changed(a.groups, e.gs, e.kind == "aug")
	case "ng":
		a.groups = changed(a.groups, []string{e.gid}, true)
	default:
		return a, false
	}
	return a, true
}

func (s *concRun) relaxedUser(e *cev) bool {
	if e.cut || e.kind == "nu" {
		return true
	}
	key := func(i int) string { return skey([]byte(s.users[i].id), id.DataTypeSealedUser) }
	var c *Call
	wrote, failed := 0, 0
	for i := range e.oc.calls {
		x := &e.oc.calls[i]
		if x.Op == "get" && x.Key == key(e.u) && c == nil {
			c = x
		}
		if x.Op == "put" && x.Type == id.DataTypeSealedUser {
			return false
		}
		if x.Op == "update" {
			wrote++
			if x.Err {
				failed++
			}
		}
	}
	if c == nil {
		return false
	}
	if c.Err {
		return e.cls == "absent" || e.cls == "noauthn"
	}
	a, ok := s.account(c.Key, c.Val)
	if !ok {
		return false
	}
	done := e.cls == "ok" && wrote == 1 && failed == 0 || e.cls == "absent" && (failed > 0 || wrote == 0)
	switch e.kind {
	case "login":
		return (e.cls == "ok") == (a.pwd == e.pwd)
	case "chpw":
		if a.pwd != e.pwd {
			return e.cls == "noauthn" && wrote == 0
		}
		return done
	case "gi":
		return e.cls == "ok" && aclKey(e.set) == aclKey(a.groups)
	case "aug", "rug":
		if !member(e.gs, a.groups) {
			return e.cls == "noauthz" && wrote == 0
		}
		return done
	case "ng":
		return done
	case "du":
		return e.cls == "ok"
	}
	return false
}

func (s *concRun) nodeIdent(c *Call) (string, bool) {
	key, val := c.Key, c.Val
	e := s.writer[key+string(val)]
	for n := 0; e != nil && e.kind == "ix" && n < 1000; n++ {
		// A copy of the node it had read last, which had another label.
		r := s.readOf[key+string(val)]
		e = nil
		for k, w := range s.writer {
			if len(k) >= len(r) && strings.HasSuffix(k, string(r)) && len(r) > 0 {
				e, key, val = w, k[:len(k)-len(r)], r
				break
			}
		}
	}
	if e == nil {
		return "", false
	}
	return e.ident, true
}

func (s *concRun) relaxedIdx(e *cev) bool {
	if e.cut {
		return true
	}
	var l []string
	put, ok := 0, 0
	for i := range e.oc.calls {
		c := &e.oc.calls[i]
		switch {
		case c.Op == "get" && !c.Err && e.kind == "is":
			x, ok := s.nodeIdent(c)
			if !ok {
				return false
			}
			l = append(l, x)
		case c.Op == "put":
			if put++; !c.Err {
				ok++
			}
			if e.kind != "ia" {
				return false
			}
		case (c.Op == "update" || c.Op == "delete") && e.kind != "ix":
			return false
		}
	}
	switch e.kind {
	case "is":
		return e.cls == "ok" && kwKey(l) == kwKey(e.list)
	case "ia":
		return e.cls == "ok" && ok == 1 && put == 1 || e.cls == "exists" && ok == 0
	}
	return true
}

// ---------------------------------------------------------------- verdicts

func (s *concRun) pick(f func(e *cev) bool) []*cev {
	var h []*cev
	for _, e := range s.hist {
		if f(e) {
			h = append(h, e)
		}
	}
	sortEvs(h)
	return h
}

func overlapOf(h []*cev, a, b []string) bool {
	for i, x := range h {
		for _, y := range h[i+1:] {
			if x.overlaps(y) && (in(x.kind, a) && in(y.kind, b) || in(y.kind, a) && in(x.kind, b)) {
				return true
			}
		}
	}
	return false
}

// finding reports a history that no one-at-a-time order explains.
func (s *concRun) finding(tags, key, class, what string, h []*cev) {
	if key != "" && listed["C23/"+key] {
		s.known[key] = what
		s.stats.Results["known "+key]++
		return
	}
	s.fail(tags, class, "%s: no one-at-a-time order explains: %s", what, histText(h))
}

func (s *concRun) verdict(r int) bool {
	s.stats.Checks++
	if r < 0 {
		s.probe("history too large to decide")
	}
	return r != 0
}

func (s *concRun) checkObj(k int) {
	what := fmt.Sprintf("object%d", k)
	h := s.pick(func(e *cev) bool { return e.dat == k && !in(e.kind, []string{"ia", "is", "ix"}) })
	strict := func(h []*cev) bool { return s.verdict(linearize(h, ostate{}, ostate.key, s.objStep)) }
	if strict(h) {
		return
	}
	tags := "C23 C06 C17"
	for _, e := range h {
		if !s.relaxedObj(e) {
			s.fail(tags, "not one at a time", "%s: op%d %s -> %s does not follow from what it read; %s", what, e.seq, e.kind, e.cls+e.out(), histText(h))
			return
		}
	}
	// Decrypts that met half of an update fail; those that met half of a delete find nothing, while calls that
	// only need the access list still work.
	without := func(half, full bool) []*cev {
		var l []*cev
		for _, e := range h {
			bad := false
			for _, x := range h {
				bad = bad || x.overlaps(e) && (half && e.kind == "dec" && e.cls == "err" && x.kind == "upd" ||
					full && (e.kind == "dec" || e.kind == "upd") && e.cls == "absent" && x.kind == "del" && x.cls == "ok")
			}
			if !bad {
				l = append(l, e)
			}
		}
		return l
	}
	for i, key := range []string{"decrypt-during-update", "delete-in-progress", "delete-in-progress"} {
		if h2 := without(i != 1, i != 0); len(h2) < len(h) && strict(h2) {
			s.finding(tags, key, "not one at a time", what, h)
			return
		}
	}
	rmw := []string{"upd", "addg", "remg"}
	switch {
	case overlapOf(h, rmw, rmw):
		s.finding(tags, "object-lost-update", "not one at a time", what, h)
	case overlapOf(h, []string{"del"}, []string{"remg"}):
		s.finding(tags, "delete-during-revoke", "not one at a time", what, h)
	default:
		s.finding(tags, "", "not one at a time", what, h)
	}
}

func (s *concRun) checkUsers() {
	h := s.pick(func(e *cev) bool { return true })
	st := ustate{make([]uacc, len(s.users))}
	if s.verdict(linearize(h, st, ustate.key, s.userStep)) {
		return
	}
	for _, e := range h {
		if !s.relaxedUser(e) {
			s.fail("C23 C17", "not one at a time", "accounts: op%d %s -> %s does not follow from what it read; %s", e.seq, e.kind, e.cls+e.out(), histText(h))
			return
		}
	}
	wr := []string{"chpw", "aug", "rug", "ng", "du"}
	if overlapOf(h, wr, wr) {
		s.finding("C23 C17", "user-lost-update", "not one at a time", "accounts", h)
		return
	}
	s.finding("C23 C17", "", "not one at a time", "accounts", h)
}

func (s *concRun) checkKw(k int) {
	what := fmt.Sprintf("keyword%d", k)
	all := s.pick(func(e *cev) bool { return e.dat == k && in(e.kind, []string{"ia", "is", "ix"}) })
	tags := "C13 C23 C17"
	var h []*cev
	dels := false
	for _, e := range all {
		dels = dels || e.kind == "ix"
		if e.kind == "ia" && e.cls == "exists" && !e.cut {
			// Refused because another call took the place; it must not have added anything.
			other := false
			for _, x := range all {
				other = other || x != e && x.overlaps(e) && x.kind != "is"
			}
			if !other {
				s.fail(tags, "add refused without a cause", "%s: op%d add %.20q fails (%s) and nothing overlapped it", what, e.seq, e.ident, e.err)
				return
			}
			continue
		}
		h = append(h, e)
	}
	if s.verdict(linearize(h, nil, kwKey, kwStep)) {
		return
	}
	for _, e := range h {
		if !s.relaxedIdx(e) {
			s.fail(tags, "not one at a time", "%s: op%d %s -> %s does not follow from what it read; %s", what, e.seq, e.kind, e.cls+e.out(), histText(all))
			return
		}
	}
	if dels {
		tags = "C23 C17"
	}
	if overlapOf(h, []string{"ix"}, []string{"ix", "ia", "is"}) {
		s.finding(tags, "index-delete-overlap", "not one at a time", what, all)
		return
	}
	s.finding(tags, "", "not one at a time", what, all)
}

// erased checks that nothing is left of objects whose deletion was acknowledged.
func (s *concRun) erased() {
	for _, e := range s.hist {
		if e.kind != "del" || e.cls != "ok" {
			continue
		}
		for _, x := range s.hist {
			if x.kind != "enc" || x.dat != e.dat {
				continue
			}
			for i := range x.oc.calls {
				c := &x.oc.calls[i]
				if c.Op != "put" {
					continue
				}
				s.runQuiet("look", 0, func(oc *OpCtx) {
					v, err := s.back.prov.Get(oc.ctx, c.ID, c.Type)
					if err == nil {
						s.fail("C06 C23", "something left after delete", "op%d deleted object%d; in the end record %x type %d (%d bytes) is there", e.seq, e.dat, head(c.ID), c.Type, len(v))
					}
				})
			}
		}
	}
}

func runConc(w *World) {
	s := &concRun{World: w, contents: map[string]int{}, locks: map[string]int{}}
	// A crash ends the call it hits only: these plans do not cut calls that need several writes.
	w.ownProcs = true
	w.setup()
	if w.stopped() {
		return
	}
	r := simrt.NewRng(simrt.Mix64(w.p.Seed, 0xc0c0))
	salt := uint64(0xc0000)
	do := func(k string, a ...int) *cev {
		salt++
		return s.run(len(w.p.Clients), &Op{K: k, A: a, S: simrt.Mix64(w.p.Seed, salt)})
	}
	nu := max(w.cfg("users"), 1)
	if w.cfg("standalone") > 0 {
		for i := 0; i < nu; i++ {
			do("nu", 0, 0, i)
			do("login", 0, i, 0, 0)
		}
		ng := 1 + w.cfg("groups")
		for i := 0; i < ng && !w.stopped(); i++ {
			do("ng", 0, r.N(2)%nu, 0)
		}
		for i := 0; i < nu && w.cfg("members") > 0 && !w.stopped(); i++ {
			do("aug", 0, 0, 0, i, 0)
			do("aug", 0, 1%nu, 0, i, 0)
		}
		for i := 0; i < r.N(4) && !w.stopped(); i++ {
			do("aug", 0, r.N(nu), 0, r.N(nu), r.N(8))
		}
	} else {
		s.groups = []string{"readers", "writers", "g3"}
		for i := 0; i < nu; i++ {
			u := &concUser{id: fmt.Sprintf("u%d", i), tok: fmt.Sprintf("tok%d-%x", i, simrt.Mix64(w.p.Seed, uint64(i)))}
			u.ident = id.Identity{ID: u.id, Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{}}
			for _, g := range s.groups {
				if i > 0 && r.P(40) {
					u.ident.Groups[g] = id.AccessGroup{ID: g, Scopes: id.ScopeAll}
				}
			}
			w.idp.users[u.tok] = &stubUser{token: u.tok, ident: u.ident}
			s.users = append(s.users, u)
		}
		for i := 0; i < w.cfg("objects"); i++ {
			a := []int{0, 0, 0, r.N(40)}
			for j := 1; j < nu; j++ {
				if r.P(70) {
					a = append(a, 300+j) // by ID
				}
			}
			if r.P(40) {
				a = append(a, r.N(3))
			}
			if e := do("enc", a...); e == nil || e.cls != "ok" {
				if !w.stopped() {
					w.herr("setup: encrypt: %s", e.err)
				}
				return
			}
		}
		for i := 0; i < w.cfg("kws"); i++ {
			s.kws = append(s.kws, fmt.Sprintf("%s#%d", name(r.N(60)), i))
			for j := w.cfg("prefill"); j > 0; j-- {
				do("ia", i, 0, 0, r.N(4), r.N(2))
			}
		}
	}
	if w.stopped() {
		return
	}
	var ts []*simrt.Task
	for i := range w.p.Clients {
		i, ops := i, w.p.Clients[i]
		ts = append(ts, simrt.Go(fmt.Sprintf("client%d", i), -1, nil, func() {
			for j := range ops {
				if w.stopped() {
					return
				}
				switch {
				case ops[j].K == "pause":
					simrt.Sleep(time.Duration(ops[j].arg(0)) * time.Millisecond)
				case in(ops[j].K, []string{"ia", "is", "ix"}) && len(s.kws) == 0, in(ops[j].K, []string{"upd", "dec", "acc", "authz", "addg", "remg", "del"}) && len(s.oids) == 0:
				default:
					s.run(i, &ops[j])
				}
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if w.stopped() {
		return
	}
	// What is left.
	for i := range s.oids {
		for u := 0; u < nu; u++ {
			do("dec", i, u, u)
			do("acc", i, u, u+1)
		}
	}
	for i := range s.kws {
		do("is", i, 0, i)
		do("is", i, 0, i+1)
	}
	if w.cfg("standalone") > 0 {
		for u := 0; u < nu; u++ {
			do("gi", 0, u, u)
			do("login", 0, u, u+1, 0)
			do("login", 0, u, u+1, 1)
		}
	}
	if w.stopped() {
		return
	}
	s.erased()
	s.collect()
	if w.cfg("standalone") > 0 {
		s.checkUsers()
	}
	for i := range s.oids {
		s.checkObj(i)
	}
	for i := range s.kws {
		s.checkKw(i)
	}
}
