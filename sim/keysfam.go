package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verifsim/simrt"
)

// The "keys" family: instances are made, and made anew, with keys from a small pool, by key providers that fail,
// stall or answer oddly; what instances with other keys can do with stored and issued things follows from which
// keys they share.

// Kinds of keys.
const (
	kKEK = iota
	kAEK
	kTEK
	kIEK
	kUEK
	kGEK
	kITEK
	nKinds
)

// kNode is one process: up to three instances, each with the keys it was made with.
type kNode struct {
	n     int
	d1    *d1.D1
	idx   *index.SecureIndex
	alone *id.Standalone
	k     [nKinds]int
}

type kObj struct {
	oid      uuid.UUID
	kek, aek int
	content  *blob
	acl      map[string]bool
	gone     bool
}

type kTok struct {
	st       data.SealedToken
	contents []byte
	tek      int
}

type kUser struct {
	uid, pwd string
	uek      int
	groups   map[string]bool
	scopes   id.Scope
	gone     bool
	tok      string
	tek      int
}

type kClient struct {
	c     *client
	nodes []*kNode
	objs  []*kObj
	toks  []*kTok
	users []*kUser
	gids  []string
	lists map[string][]string // by index key and keyword
}

type keysRun struct {
	*World
	s    *sysRun
	gek  map[string]int
	gsc  map[string]id.Scope
	cl   []*kClient
	pool int
}

// kProvider is a key provider with faults.
type kProvider struct {
	w     *World
	keys  key.Keys
	after bool // made once: from now on it answers with other keys
	hold  bool
	n     int
}

func (p *kProvider) GetKeys(ctx context.Context) (key.Keys, error) {
	simrt.YIO()
	oc := curOp()
	p.n++
	if p.after {
		p.w.probe("key provider asked again")
		return key.Keys{KEK: p.w.keyBytes(501), AEK: p.w.keyBytes(501), TEK: p.w.keyBytes(501), IEK: p.w.keyBytes(501)}, nil
	}
	out := copyKeys(p.keys)
	if p.hold { // hands out its own memory
		out = p.keys
	}
	if oc == nil || oc.quiet {
		return out, nil
	}
	n := oc.nIO
	oc.nIO++
	p.w.checkCtx(oc, ctx, "key lookup")
	for _, f := range oc.op.F {
		if f.N != n {
			continue
		}
		switch f.K {
		case "key-err":
			p.w.fire(oc, f.K, true)
			return key.Keys{}, p.w.mkErr(f.A)
		case "key-odd": // good keys together with an error
			p.w.fire(oc, f.K, true)
			return out, p.w.mkErr(f.A)
		case "key-slow":
			p.w.fire(oc, f.K, false)
			simrt.Sleep(time.Duration(f.A) * time.Millisecond)
		}
	}
	if ctx.Err() != nil {
		oc.relax = true
		return key.Keys{}, ctx.Err()
	}
	return out, nil
}

// badLengths are key lengths that are not the required one.
var badLengths = []int{0, 1, 8, 16, 24, 31, 33, 40, 48, 64}

// poolKey is entry i of the pool; negative entries are keys of a wrong length.
func (s *keysRun) poolKey(i int) []byte {
	if i < 0 {
		n := badLengths[(-i-1)%len(badLengths)]
		b := make([]byte, 64)
		copy(b, s.keyBytes(700))
		copy(b[32:], s.keyBytes(701))
		if n == 0 && i%2 == 0 {
			return nil
		}
		return b[:n]
	}
	base := s.keyBytes(600)
	switch s.cfg("kform") {
	case 1: // apart in one byte
		base[[]int{31, 0, 16, 15}[i/2%4]] += byte(i)
		return base
	case 2: // the simplest keys there are
		return bytes.Repeat([]byte{byte(i)}, 32)
	case 3: // apart in one bit
		base[i*11%32] ^= byte(i&1) << (i % 8)
		base[31] ^= byte(i >> 1)
		return base
	case 4: // with zeros at the end or at the start
		k := s.keyBytes(600 + uint64(i))
		if i%2 == 0 {
			clear(k[16+i:])
		} else {
			clear(k[:16-i])
		}
		return k
	}
	return s.keyBytes(600 + uint64(i))
}

func runKeys(w *World) {
	s := &keysRun{World: w, s: &sysRun{World: w}, gek: map[string]int{}, gsc: map[string]id.Scope{}}
	s.pool = 2 + abs(w.cfg("pool"))%3
	w.bootHook = func(n *Node) { n.up = true }
	nc := len(w.p.Clients)
	per := 1 + abs(w.cfg("per"))%3
	w.p.Cfg["nodes"] = nc * per
	w.setup()
	if w.stopped() {
		return
	}
	for i := range w.p.Clients {
		c := &kClient{c: &client{n: i}, lists: map[string][]string{}}
		for k := 0; k < per; k++ {
			n := &kNode{n: i*per + k}
			c.nodes = append(c.nodes, n)
		}
		s.cl = append(s.cl, c)
		w.idp.users[s.tokenOf(i)] = &stubUser{token: s.tokenOf(i), ident: id.Identity{ID: fmt.Sprintf("u%d", i), Scopes: id.ScopeAll}}
	}
	var ts []*simrt.Task
	for i := range w.p.Clients {
		c, ops := s.cl[i], w.p.Clients[i]
		ts = append(ts, simrt.Go(fmt.Sprintf("client%d", i), -1, nil, func() {
			for j := range ops {
				if w.stopped() {
					return
				}
				s.exec(c, &ops[j])
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
}

func (s *keysRun) tokenOf(c int) string { return fmt.Sprintf("tok-%d", c) }

// logEnded notes the end of a call.
func (s *keysRun) logEnded(c *kClient, oc *OpCtx, err error, what string) {
	s.s.ended(c.c, oc, err, what, okErr(err))
}

// want checks the outcome of a call against the keys.
func (s *keysRun) want(oc *OpCtx, err error, ok bool, tags, what string) bool {
	if oc.relax || !oc.done {
		return false
	}
	switch {
	case err == nil && !ok:
		s.fail("C26 "+tags, "usable under other keys", "%s succeeded, although the instance does not hold the keys", what)
	case err != nil && ok:
		s.fail("C26 "+tags, "unusable under the right keys", "%s: %v, although the instance holds the keys", what, err)
	case err != nil && oc.mutated > 0:
		s.fail("C26 C03", "refused call changed storage", "%s failed and changed %d stored records", what, oc.mutated)
	}
	return err == nil && !s.stopped()
}

func (s *keysRun) exec(c *kClient, op *Op) {
	n := c.nodes[abs(op.arg(0))%len(c.nodes)]
	if op.K == "boot" {
		s.bootOp(c, n, op)
		return
	}
	switch op.K {
	case "enc", "upd", "dec", "acc", "addg", "del":
		if n.d1 != nil {
			s.objOp(c, n, op)
		}
	case "tn", "tg":
		if n.d1 != nil {
			s.tokOp(c, n, op)
		}
	case "ia", "is", "ix":
		if n.idx != nil {
			s.idxOp(c, n, op)
		}
	default:
		if n.alone != nil {
			s.userOp(c, n, op)
		}
	}
}

// bootOp makes the instances of a node anew. A failed attempt leaves the old ones in use.
func (s *keysRun) bootOp(c *kClient, n *kNode, op *Op) {
	// args: node, what (1 d1, 2 index, 4 standalone), a pool entry per kind of key
	what := op.arg(1)
	var k [nKinds]int
	var kb [nKinds][]byte
	bad := [nKinds]bool{}
	for i := range k {
		k[i] = op.arg(2 + i)
		if k[i] >= 0 {
			k[i] %= s.pool
		}
		kb[i] = s.poolKey(k[i])
		bad[i] = k[i] < 0
	}
	sn := s.nodes[n.n]
	static := op.S%3 == 0 && len(op.F) == 0
	newProv := func() (key.Provider, *kProvider) {
		ks := key.Keys{KEK: clone(kb[kKEK]), AEK: clone(kb[kAEK]), TEK: clone(kb[kTEK]), IEK: clone(kb[kIEK])}
		if static {
			p := key.NewStatic(ks)
			return &p, nil
		}
		p := &kProvider{w: s.World, keys: ks, hold: op.S%7 == 1}
		return p, p
	}
	desc := fmt.Sprintf("boot n%d %b keys %v", n.n, what, k)
	same := func(ks ...[]byte) {
		for i := 0; i < len(ks); i += 2 {
			if !bytes.Equal(ks[i], ks[i+1]) {
				s.fail("C26 C16", "keys written to", "%s: making an instance changed memory of the keys' owner", desc)
			}
		}
	}
	var st *Storage = &Storage{s.World, s.back, n.n}
	if what&1 != 0 {
		var inst d1.D1
		var err error
		kp, fp := newProv()
		oc := s.runOp(op, "new-d1", c.c.n, sn, func(oc *OpCtx) {
			inst, err = d1.New(oc.ctx, kp, st, s.idp)
		})
		if s.stopped() {
			return
		}
		s.logEnded(c, oc, err, desc+" d1")
		if fp != nil {
			same(fp.keys.KEK, kb[kKEK], fp.keys.AEK, kb[kAEK], fp.keys.TEK, kb[kTEK], fp.keys.IEK, kb[kIEK])
			fp.after = true
		}
		if s.made(oc, err, !bad[kKEK] && !bad[kAEK] && !bad[kTEK], "d1.New", desc) {
			n.d1, n.k[kKEK], n.k[kAEK], n.k[kTEK] = &inst, k[kKEK], k[kAEK], k[kTEK]
		}
	}
	if what&2 != 0 && !s.stopped() {
		var inst index.SecureIndex
		var err error
		kp, fp := newProv()
		oc := s.runOp(op, "new-index", c.c.n, sn, func(oc *OpCtx) {
			inst, err = index.NewSecureIndex(oc.ctx, kp, st, s.idp)
		})
		if s.stopped() {
			return
		}
		s.logEnded(c, oc, err, desc+" index")
		if fp != nil {
			same(fp.keys.KEK, kb[kKEK], fp.keys.AEK, kb[kAEK], fp.keys.TEK, kb[kTEK], fp.keys.IEK, kb[kIEK])
			fp.after = true
		}
		if s.made(oc, err, !bad[kIEK], "index.NewSecureIndex", desc) {
			n.idx, n.k[kIEK] = &inst, k[kIEK]
		}
	}
	if what&4 != 0 && !s.stopped() {
		var inst id.Standalone
		var err error
		oc := s.runOp(&Op{K: op.K, A: op.A, S: op.S}, "new-standalone", c.c.n, sn, func(oc *OpCtx) {
			cf := id.StandaloneConfig{UEK: clone(kb[kUEK]), GEK: clone(kb[kGEK]), TEK: clone(kb[kITEK])}
			inst, err = id.NewStandalone(cf, st)
			same(cf.UEK, kb[kUEK], cf.GEK, kb[kGEK], cf.TEK, kb[kITEK])
			scribble(cf.UEK, cf.GEK, cf.TEK)
		})
		if s.stopped() {
			return
		}
		s.logEnded(c, oc, err, desc+" standalone")
		if s.made(oc, err, !bad[kUEK] && !bad[kGEK] && !bad[kITEK], "id.NewStandalone", desc) {
			n.alone, n.k[kUEK], n.k[kGEK], n.k[kITEK] = &inst, k[kUEK], k[kGEK], k[kITEK]
		}
	}
}

// made judges the making of an instance.
func (s *keysRun) made(oc *OpCtx, err error, lengths bool, fn, desc string) bool {
	if oc.badCtx != "" {
		s.fail("C26 C20", "context not passed on", "%s: %s", fn, oc.badCtx)
		return false
	}
	failed := oc.relax
	switch {
	case err == nil && failed:
		s.fail("C26", "instance without keys", "%s succeeded although its key provider failed (%s)", fn, desc)
	case err == nil && !lengths:
		s.fail("C26", "instance without keys", "%s accepted keys of a wrong length (%s)", fn, desc)
	case err != nil && lengths && !failed:
		s.fail("C26", "instance refused", "%s: %v with good keys (%s)", fn, err, desc)
	case oc.mutated > 0:
		s.fail("C26", "storage changed by making an instance", "%s changed %d stored records", fn, oc.mutated)
	}
	return err == nil && !s.stopped()
}

func (s *keysRun) objOp(c *kClient, n *kNode, op *Op) {
	// args: node, object, contents, associated data
	ctok := s.tokenOf(c.c.n)
	me := fmt.Sprintf("u%d", c.c.n)
	sn := s.nodes[n.n]
	var o *kObj
	if op.K != "enc" {
		if len(c.objs) == 0 {
			return
		}
		o = c.objs[abs(op.arg(1))%len(c.objs)]
	}
	b := &blob{contentOf(s.p.Seed, op.arg(2)), contentOf(s.p.Seed, op.arg(3))}
	var err error
	var oid uuid.UUID
	var got data.Object
	var list map[string]struct{}
	oc := s.runOp(op, op.K, c.c.n, sn, func(oc *OpCtx) {
		in := &data.Object{Plaintext: clone(b.pt), AssociatedData: clone(b.ad)}
		switch op.K {
		case "enc":
			oid, err = n.d1.Encrypt(oc.ctx, ctok, in, "grp")
		case "upd":
			err = n.d1.Update(oc.ctx, ctok, o.oid, in)
		case "dec":
			got, err = n.d1.Decrypt(oc.ctx, ctok, o.oid)
		case "acc":
			list, err = n.d1.GetAccessGroups(oc.ctx, ctok, o.oid)
		case "addg":
			err = n.d1.AddGroupsToAccess(oc.ctx, ctok, o.oid, fmt.Sprintf("g%d", op.arg(2)))
		case "del":
			err = n.d1.Delete(oc.ctx, ctok, o.oid)
		}
	})
	if s.stopped() {
		return
	}
	what := fmt.Sprintf("%s with keys KEK %d AEK %d", op.K, n.k[kKEK], n.k[kAEK])
	if o != nil {
		what += fmt.Sprintf(" on %s (KEK %d AEK %d gone %v)", oshort(o.oid), o.kek, o.aek, o.gone)
	}
	s.logEnded(c, oc, err, what)
	if op.K == "enc" {
		if s.want(oc, err, true, "C01", what) {
			c.objs = append(c.objs, &kObj{oid: oid, kek: n.k[kKEK], aek: n.k[kAEK], content: b, acl: map[string]bool{me: true, "grp": true}})
		}
		return
	}
	acc := !o.gone && o.aek == n.k[kAEK]
	switch op.K {
	case "upd":
		if s.want(oc, err, acc, "C07", what) {
			o.kek, o.content = n.k[kKEK], b
		}
	case "dec":
		if s.want(oc, err, acc && o.kek == n.k[kKEK], "C07", what) {
			if !bytes.Equal(got.Plaintext, o.content.pt) || !bytes.Equal(got.AssociatedData, o.content.ad) {
				s.fail("C26 C01", "wrong content", "%s: got %s / %s", what, hx(got.Plaintext), hx(got.AssociatedData))
			}
		} else if err != nil && len(got.Plaintext)+len(got.AssociatedData) > 0 {
			s.fail("C26 C03", "output with error", "%s failed but returned content", what)
		}
	case "acc":
		if s.want(oc, err, acc, "C07", what) {
			var l []string
			for g := range list {
				l = append(l, g)
			}
			sort.Strings(l)
			if listKey(l) != aclKey(o.acl) {
				s.fail("C26 C04", "wrong access list", "%s: got %q, must be %q", what, l, sortedKeys(o.acl))
			}
		}
	case "addg":
		if s.want(oc, err, acc, "C07", what) {
			o.acl[fmt.Sprintf("g%d", op.arg(2))] = true
		}
	case "del":
		if s.want(oc, err, acc || o.gone, "C07 C06", what) {
			o.gone = true
		}
	}
}

func (s *keysRun) tokOp(c *kClient, n *kNode, op *Op) {
	sn := s.nodes[n.n]
	if op.K == "tn" {
		contents := contentOf(s.p.Seed, op.arg(2))
		var st data.SealedToken
		var err error
		oc := s.runOp(op, op.K, c.c.n, sn, func(oc *OpCtx) { st, err = n.d1.CreateToken(oc.ctx, clone(contents)) })
		if s.stopped() {
			return
		}
		what := fmt.Sprintf("tn with TEK %d", n.k[kTEK])
		s.logEnded(c, oc, err, what)
		if s.want(oc, err, true, "C08", what) {
			c.toks = append(c.toks, &kTok{st, contents, n.k[kTEK]})
		}
		return
	}
	if len(c.toks) == 0 {
		return
	}
	t := c.toks[abs(op.arg(1))%len(c.toks)]
	var got []byte
	var err error
	oc := s.runOp(op, op.K, c.c.n, sn, func(oc *OpCtx) {
		st := data.SealedToken{ExpiryTime: t.st.ExpiryTime, Ciphertext: clone(t.st.Ciphertext), WrappedKey: clone(t.st.WrappedKey)}
		got, err = n.d1.GetTokenContents(oc.ctx, &st)
	})
	if s.stopped() {
		return
	}
	what := fmt.Sprintf("tg with TEK %d of a token under %d", n.k[kTEK], t.tek)
	s.logEnded(c, oc, err, what)
	if s.want(oc, err, t.tek == n.k[kTEK], "C08", what) && !bytes.Equal(got, t.contents) {
		s.fail("C26 C08", "wrong contents", "%s: got %s", what, hx(got))
	}
}

func (s *keysRun) idxOp(c *kClient, n *kNode, op *Op) {
	// args: node, keyword, identifier
	kw := fmt.Sprintf("kw%d-%d", c.c.n, op.arg(1)%2)
	ident := fmt.Sprintf("id%d", op.arg(2)%4)
	lk := fmt.Sprintf("%d/%s", n.k[kIEK], kw)
	ctok := s.tokenOf(c.c.n)
	var got []string
	var err error
	oc := s.runOp(op, op.K, c.c.n, s.nodes[n.n], func(oc *OpCtx) {
		oc.maxCalls = 100 + 10*len(c.lists[lk])
		switch op.K {
		case "ia":
			err = n.idx.Add(oc.ctx, ctok, kw, ident)
		case "is":
			got, err = n.idx.Search(oc.ctx, ctok, kw)
		case "ix":
			err = n.idx.Delete(oc.ctx, ctok, kw, ident)
		}
	})
	if s.stopped() {
		return
	}
	what := fmt.Sprintf("%s %s with IEK %d", op.K, kw, n.k[kIEK])
	s.logEnded(c, oc, err, what)
	if !s.want(oc, err, true, "C11", what) {
		return
	}
	switch op.K {
	case "ia":
		c.lists[lk] = append(c.lists[lk], ident)
	case "ix":
		var l []string
		for _, x := range c.lists[lk] {
			if x != ident {
				l = append(l, x)
			}
		}
		c.lists[lk] = l
	case "is":
		if listKey(got) != listKey(c.lists[lk]) {
			s.fail("C26 C11", "wrong search result", "%s: got %q, added under this key and not deleted: %q", what, got, c.lists[lk])
		}
	}
}

func (s *keysRun) userOp(c *kClient, n *kNode, op *Op) {
	// args: node, user, other user, group
	sn := s.nodes[n.n]
	k := &n.k
	if op.K == "nu" {
		var uid, pwd string
		var err error
		oc := s.runOp(op, op.K, c.c.n, sn, func(oc *OpCtx) { uid, pwd, err = n.alone.NewUser(oc.ctx, id.ScopeAll) })
		if s.stopped() {
			return
		}
		what := fmt.Sprintf("nu with UEK %d", k[kUEK])
		s.logEnded(c, oc, err, what)
		if s.want(oc, err, true, "C09", what) {
			c.users = append(c.users, &kUser{uid: uid, pwd: pwd, uek: k[kUEK], groups: map[string]bool{}, scopes: id.ScopeAll})
		}
		return
	}
	if len(c.users) == 0 {
		return
	}
	u := c.users[abs(op.arg(1))%len(c.users)]
	v := c.users[abs(op.arg(2))%len(c.users)]
	gid := ""
	if len(c.gids) > 0 {
		gid = c.gids[abs(op.arg(3))%len(c.gids)]
	}
	if u.tok == "" && op.K != "login" && op.K != "chpw" || gid == "" && (op.K == "aug" || op.K == "rug") {
		return
	}
	// What the caller's token lets the instance see.
	auth := !u.gone && u.tok != "" && u.tek == k[kITEK] && u.uek == k[kUEK]
	for g := range u.groups {
		auth = auth && s.gek[g] == k[kGEK]
	}
	own := !u.gone && u.uek == k[kUEK]
	other := !v.gone && v.uek == k[kUEK]
	scope := id.Scope(1 + op.S%uint64(id.ScopeAll))
	var err error
	var out string
	var ident id.Identity
	oc := s.runOp(op, op.K, c.c.n, sn, func(oc *OpCtx) {
		switch op.K {
		case "login":
			out, _, err = n.alone.LoginUser(oc.ctx, u.uid, u.pwd)
		case "chpw":
			out, err = n.alone.ChangeUserPassword(oc.ctx, u.uid, u.pwd)
		case "gi":
			ident, err = n.alone.GetIdentity(oc.ctx, u.tok)
		case "ng":
			out, err = n.alone.NewGroup(oc.ctx, u.tok, scope)
		case "aug":
			err = n.alone.AddUserToGroups(oc.ctx, u.tok, v.uid, gid)
		case "rug":
			err = n.alone.RemoveUserFromGroups(oc.ctx, u.tok, v.uid, gid)
		case "du":
			err = n.alone.DeleteUser(oc.ctx, u.tok, v.uid)
		}
	})
	if s.stopped() {
		return
	}
	what := fmt.Sprintf("%s user %.8s (UEK %d token TEK %d) with UEK %d GEK %d TEK %d", op.K, u.uid, u.uek, u.tek, k[kUEK], k[kGEK], k[kITEK])
	s.logEnded(c, oc, err, what)
	switch op.K {
	case "login":
		if s.want(oc, err, own, "C07 C09", what) {
			u.tok, u.tek = out, k[kITEK]
		} else if err != nil && out != "" {
			s.fail("C26 C03", "output with error", "%s failed but returned a token", what)
		}
	case "chpw":
		if s.want(oc, err, own, "C07 C09", what) {
			u.pwd = out
		}
	case "gi":
		if s.want(oc, err, auth, "C07 C08", what) {
			var l []string
			for g, ag := range ident.Groups {
				l = append(l, g)
				if ag.ID != g || ag.Scopes != s.gsc[g] {
					s.fail("C26 C10", "wrong identity", "%s: group %.8s has scopes %#x, must be %#x", what, g, ag.Scopes, s.gsc[g])
				}
			}
			sort.Strings(l)
			if ident.ID != u.uid || ident.Scopes != u.scopes || listKey(l) != aclKey(u.groups) {
				s.fail("C26 C10", "wrong identity", "%s: got %s %#x %q", what, ident.ID, ident.Scopes, l)
			}
		} else if err != nil && (ident.ID != "" || len(ident.Groups) > 0) {
			s.fail("C26 C03", "output with error", "%s failed but returned an identity", what)
		}
	case "ng":
		if s.want(oc, err, auth, "C07 C10", what) {
			c.gids = append(c.gids, out)
			s.gek[out], s.gsc[out] = k[kGEK], scope
			u.groups[out] = true
		}
	case "aug", "rug":
		if s.want(oc, err, auth && u.groups[gid] && other, "C07 C10", what) {
			if op.K == "aug" {
				v.groups[gid] = true
			} else {
				delete(v.groups, gid)
			}
		}
	case "du":
		if s.want(oc, err, auth, "C07 C09", what) {
			v.gone = true
		}
	}
}

var _ = errors.Is
