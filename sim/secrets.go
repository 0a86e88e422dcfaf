package main

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	d1io "github.com/cybercryptio/d1-lib/v2/io"

	"verifsim/simrt"
)

// What the storage provider must not see (C18).

type secret struct {
	text []byte
	kind string
	own  string // ID of the records in which it may appear
}

func newCryptor(key []byte) (crypto.CryptorInterface, error) {
	c, err := crypto.NewAESCryptor(key)
	return &c, err
}

func (w *World) secret(s, kind string) {
	if w.cfg("secret") > 0 && len(s) >= 12 {
		w.secrets = append(w.secrets, secret{[]byte(s), kind, ""})
	}
}

// secretID registers an ID, which only the records of its owner may show.
func (w *World) secretID(s, kind string) {
	if w.cfg("secret") == 0 || len(s) < 12 {
		return
	}
	w.secrets = append(w.secrets, secret{[]byte(s), kind, s})
	if u, err := uuid.FromString(s); err == nil {
		w.secrets = append(w.secrets, secret{u.Bytes(), kind, s})
	}
}

// secretContent makes recognisable content of about the length of b.
func (s *sysRun) secretContent(sel int, b []byte) []byte {
	n := len(b)
	if n > 2000 {
		n = 2000
	}
	if s.cfg("dup") > 0 {
		sel, n = sel%3, 0
	}
	out := []byte(secretName(s.p.Seed, "content", sel%6)) // few, so that equal contents occur
	for i := 1; len(out) < n; i++ {
		out = append(out, secretName(s.p.Seed, "content", sel%6+1000*i)...)
	}
	s.secret(string(out), "content")
	return out
}

// noteSecrets registers the names an operation uses.
func (s *sysRun) noteSecrets(c *client, op *Op) {
	for _, k := range c.kws {
		s.secretOnce(k.kw, "keyword")
	}
	for _, u := range c.users {
		if u.stub != nil {
			s.secretOnce(u.id, "access list entry")
		}
	}
	for i := 0; i < 12; i++ {
		s.secretOnce(s.nm(i), "group name")
	}
	for i := 0; i < 8; i++ {
		s.secretOnce(s.ident(i), "identifier")
	}
}

func (s *sysRun) secretOnce(t, kind string) {
	for _, x := range s.secrets {
		if string(x.text) == t {
			return
		}
	}
	s.secret(t, kind)
}

// views collects everything a reader of the bytes could decode without a key.
func views(b []byte, depth int, out *[][]byte) {
	*out = append(*out, b)
	if depth <= 0 || len(b) < 4 {
		return
	}
	if b[0] == 0x1f && b[1] == 0x8b {
		if r, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
			if d, err := io.ReadAll(io.LimitReader(r, 1<<22)); err == nil {
				views(d, depth-1, out)
			}
		}
	}
	if b[0]&0x0f == 8 && (int(b[0])<<8|int(b[1]))%31 == 0 {
		if r, err := zlib.NewReader(bytes.NewReader(b)); err == nil {
			if d, err := io.ReadAll(io.LimitReader(r, 1<<22)); err == nil {
				views(d, depth-1, out)
			}
		}
	}
	var v any
	if json.Unmarshal(b, &v) == nil {
		var rec func(x any)
		rec = func(x any) {
			switch y := x.(type) {
			case string:
				strViews(y, depth-1, out)
			case []any:
				for _, e := range y {
					rec(e)
				}
			case map[string]any:
				for _, k := range sortedKeys(y) {
					strViews(k, depth-1, out)
					rec(y[k])
				}
			}
		}
		rec(v)
	} else if isText(b) {
		strViews(string(b), depth-1, out)
	}
}

func isText(b []byte) bool {
	for _, c := range b {
		if c < 32 || c > 126 {
			return false
		}
	}
	return true
}

func strViews(s string, depth int, out *[][]byte) {
	*out = append(*out, []byte(s))
	if depth <= 0 || len(s) < 8 {
		return
	}
	if d, err := hex.DecodeString(s); err == nil {
		views(d, depth-1, out)
	}
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if d, err := e.DecodeString(s); err == nil {
			views(d, depth-1, out)
			break
		}
	}
}

// pieces are the byte strings whose presence gives a secret away.
func pieces(t []byte) [][]byte {
	const n = 12
	if len(t) <= n {
		return [][]byte{t}
	}
	return [][]byte{t[:n], t[len(t)/2-n/2 : len(t)/2-n/2+n], t[len(t)-n:]}
}

func encodings(p []byte) [][]byte {
	out := [][]byte{p, []byte(hex.EncodeToString(p)), []byte(strings.ToUpper(hex.EncodeToString(p)))}
	for off := 0; off < 3; off++ {
		q := append(make([]byte, off), p...)
		e := base64.StdEncoding.EncodeToString(q)
		// Only the characters that depend on p alone.
		from := (off*8 + 5) / 6
		to := len(q) * 8 / 6
		e1 := e[from:to]
		out = append(out, []byte(e1))
		if e2 := strings.NewReplacer("+", "-", "/", "_").Replace(e1); e2 != e1 {
			out = append(out, []byte(e2))
		}
	}
	rev := make([]byte, len(p))
	for i := range p {
		rev[len(p)-1-i] = p[i]
	}
	out = append(out, rev)
	utf16 := make([]byte, 0, 2*len(p))
	for _, c := range p {
		utf16 = append(utf16, c, 0)
	}
	return append(out, utf16)
}

// scanSecrets checks everything that was handed to storage.
func (w *World) scanSecrets() {
	type pat struct {
		b []byte
		s int
	}
	var pats []pat
	for i, s := range w.secrets {
		for _, p := range pieces(s.text) {
			for _, e := range encodings(p) {
				pats = append(pats, pat{e, i})
			}
		}
	}
	w.stats.Probes["secrets"] += len(w.secrets)
	fields := map[string]int{} // field value -> index of the write
	blocks := map[string]int{}
	deks := map[string]string{}
	for wi, r := range w.written {
		w.stats.Checks++
		val := r.val
		if r.dt == d1io.DataTypeSealedObject {
			val = withoutField(r.val, "AssociatedData")
		}
		var vs [][]byte
		views(val, 6, &vs)
		views(r.id, 4, &vs)
		for _, v := range vs {
			for _, p := range pats {
				if bytes.Contains(v, p.b) && (w.secrets[p.s].own == "" || w.secrets[p.s].own != string(r.id)) {
					w.fail("C18", "plaintext in storage", "the record %x of type %d written by %s contains %s %.24q", r.id, r.dt, r.op.kind, w.secrets[p.s].kind, w.secrets[p.s].text)
					return
				}
			}
		}
		if string(val) != string(r.val) && r.op != nil {
			// Associated data may be visible, but nothing else may be hidden there; contents are checked above.
			w.probe("associated-data")
		}
		// Keys and nonces are never used twice.
		var m map[string]any
		if json.Unmarshal(r.val, &m) != nil {
			continue
		}
		for _, k := range sortedKeys(m) {
			t, ok := m[k].(string)
			if !ok || k == "AssociatedData" {
				continue
			}
			b, err := base64.StdEncoding.DecodeString(t)
			if err != nil || len(b) < 16 || t == fmt.Sprint(m["OID"]) || t == fmt.Sprint(m["UID"]) || t == fmt.Sprint(m["GID"]) {
				continue
			}
			if o, dup := fields[string(b)]; dup && !w.sameWrite(o, wi) {
				w.fail("C18", "key used twice", "field %s of two records written to storage is equal: %s (by %s and %s)", k, hx(b), w.written[o].op.kind, r.op.kind)
				return
			}
			fields[string(b)] = wi
			for i := 0; i+16 <= len(b) && i < 64; i += 16 {
				// Blocks at the same place of the same kind of field.
				key := fmt.Sprintf("%s/%d/%s", k, i, b[i:i+16])
				if o, dup := blocks[key]; dup && !w.sameWrite(o, wi) {
					w.fail("C18", "key used twice", "block %d of field %s of two records written to storage is equal: %x (by %s and %s)", i/16, k, b[i:i+16], w.written[o].op.kind, r.op.kind)
					return
				}
				blocks[key] = wi
			}
		}
		// The key of the object is inside the access record.
		if r.dt == d1io.DataTypeSealedAccess && (r.op.kind == "enc" || r.op.kind == "upd") && len(r.id) == 16 {
			if dek, ok := w.dekOf(r.val, r.id); ok {
				w.probe("object-keys")
				tag := fmt.Sprintf("%p", r.op)
				if o, dup := deks[dek]; dup && o != tag {
					w.fail("C18", "key used twice", "two versions of objects are sealed under the same data key (%s)", r.op.kind)
					return
				}
				deks[dek] = tag
			}
		}
	}
}

// scanLinks checks that nothing in the records of objects tells which of them have equal contents.
func (w *World) scanLinks() {
	type group struct {
		oids  map[string]bool
		feats []map[string]string
	}
	byLen := map[int]map[string]*group{}
	for _, r := range w.written {
		if r.dt != d1io.DataTypeSealedObject || r.op == nil || len(r.op.plain) == 0 {
			continue
		}
		l := byLen[len(r.op.plain)]
		if l == nil {
			l = map[string]*group{}
			byLen[len(r.op.plain)] = l
		}
		g := l[string(r.op.plain)]
		if g == nil {
			g = &group{oids: map[string]bool{}}
			l[string(r.op.plain)] = g
		}
		if g.oids[string(r.id)] || len(g.feats) >= 8 {
			continue
		}
		g.oids[string(r.id)] = true
		g.feats = append(g.feats, features(r.val))
	}
	var lens []int
	for n := range byLen {
		lens = append(lens, n)
	}
	sort.Ints(lens)
	for _, n := range lens {
		l := byLen[n]
		var gs []*group
		for _, k := range sortedKeys(l) {
			if len(l[k].feats) >= 2 {
				gs = append(gs, l[k])
			}
		}
		if len(gs) < 3 {
			continue
		}
		w.probe("link-groups")
		for _, f := range sortedKeys(gs[0].feats[0]) {
			seen := map[string]bool{}
			for _, g := range gs {
				v, ok := g.feats[0][f]
				for _, m := range g.feats {
					x, has := m[f]
					ok = ok && has && x == v
				}
				if !ok || seen[v] {
					break
				}
				seen[v] = true
			}
			if len(seen) == len(gs) {
				w.fail("C18", "equal contents linkable", "%s of the records of objects with %d different contents of %d bytes is equal exactly where the contents are", f, len(gs), n)
				return
			}
		}
	}
}

// features are the parts of an object record that are compared with those of others, associated data left out.
func features(b []byte) map[string]string {
	out := map[string]string{}
	windows := func(path string, b []byte) {
		for i := 0; i+4 <= len(b) && i < 64; i += 2 {
			out[fmt.Sprintf("%s: byte %d", path, i)] = string(b[i : i+4])
			out[fmt.Sprintf("%s: byte %d from the end", path, i)] = string(b[len(b)-i-4 : len(b)-i])
		}
	}
	var v any
	if json.Unmarshal(b, &v) != nil {
		windows("the record", b)
		return out
	}
	var rec func(path string, x any)
	rec = func(path string, x any) {
		switch y := x.(type) {
		case []any:
			for i, e := range y {
				rec(fmt.Sprintf("%s.%d", path, i), e)
			}
		case map[string]any:
			for _, k := range sortedKeys(y) {
				if k != "AssociatedData" {
					rec(path+"."+k, y[k])
				}
			}
		case string:
			if d, err := base64.StdEncoding.DecodeString(y); err == nil {
				windows("field "+path, d)
			} else {
				windows("field "+path, []byte(y))
			}
		default:
			out["field "+path] = fmt.Sprint(y)
		}
	}
	rec("", v)
	return out
}

// sameWrite reports whether two writes are of the same bytes under the same ID by the same call.
func (w *World) sameWrite(a, b int) bool {
	x, y := w.written[a], w.written[b]
	return a == b || x.op == y.op && x.dt == y.dt && bytes.Equal(x.id, y.id) && bytes.Equal(x.val, y.val)
}

func (w *World) dekOf(val, oid []byte) (string, bool) {
	var sa data.SealedAccess
	if json.Unmarshal(val, &sa) != nil {
		return "", false
	}
	copy(sa.OID[:], oid)
	cr, err := newCryptor(w.keys.AEK)
	if err != nil {
		return "", false
	}
	a, err := sa.Unseal(cr)
	if err != nil || len(a.WrappedDEK) == 0 {
		return "", false
	}
	return string(a.WrappedDEK), true
}

func withoutField(b []byte, f string) []byte {
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return b
	}
	if _, ok := m[f]; !ok {
		return b
	}
	delete(m, f)
	out, err := json.Marshal(m)
	if err != nil {
		return b
	}
	return out
}

// otherKeysLabels adds the client's keywords to an index with other keys over the same kind of storage and
// compares the record IDs.
func (s *sysRun) otherKeysLabels() {
	if s.for2 == nil {
		return
	}
	mine := map[string]bool{}
	for _, r := range s.written {
		if r.dt == d1io.DataTypeSealedNode {
			mine[string(r.id)] = true
		}
	}
	n := len(s.written)
	for _, c := range s.cl {
		u := s.indexUser(c)
		if u < 0 {
			continue
		}
		k := s.caller(c, u, 0)
		for _, kw := range c.kws {
			op := &Op{K: "ia", S: simrt.Mix64(s.p.Seed, uint64(s.nOps), 0xf0f0)}
			s.runOp(op, "ia-other-keys", c.n, s.for2, func(oc *OpCtx) { _ = s.for2.idx.Add(oc.ctx, k.tok, kw.kw, "x") })
			if s.stopped() {
				return
			}
		}
	}
	for _, r := range s.written[n:] {
		if r.dt == d1io.DataTypeSealedNode && mine[string(r.id)] {
			s.fail("C18", "record ID without key", "the index record ID %x is used under two different index keys", r.id)
			return
		}
	}
}
