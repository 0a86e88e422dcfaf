package main

import (
	"encoding/base64"
	"encoding/json"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	d1io "github.com/cybercryptio/d1-lib/v2/io"

	"verifsim/simrt"
)

// Attacks on stored records (C07). Replays of an older version of the same record are not among them: the
// library keeps nothing that could tell them from the present one.

const tamperModes = 18

// tamper returns what the attacker puts in the place of a record.
func (w *World) tamper(b *Backing, oc *OpCtx, rid []byte, dt d1io.DataType, val []byte, sel int) []byte {
	r := simrt.NewRng(simrt.Mix64(w.p.Seed, uint64(sel), oc.op.S))
	out := clone(val)
	pick := func(same bool) []byte {
		var ks []string
		me := skey(rid, dt)
		for k, s := range b.shadow {
			if k != me && (s.dt == dt) == same {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return nil
		}
		sort.Strings(ks)
		return b.shadow[ks[r.N(len(ks))]].val
	}
	fields := func(x []byte) map[string]any {
		var m map[string]any
		if json.Unmarshal(x, &m) != nil {
			return nil
		}
		return m
	}
	enc := func(m map[string]any) []byte {
		x, err := json.Marshal(m)
		if err != nil {
			return val
		}
		return x
	}
	bin := func(m map[string]any) []string { // byte fields
		var ks []string
		for _, k := range sortedKeys(m) {
			if s, ok := m[k].(string); ok {
				if d, err := base64.StdEncoding.DecodeString(s); err == nil && len(d) > 0 {
					ks = append(ks, k)
				}
			}
		}
		return ks
	}
	m := fields(val)
	mode := sel % tamperModes
	if m == nil && (mode == 1 || mode >= 6) {
		mode = 0
	}
	switch mode {
	case 0: // a bit
		if len(out) > 0 {
			out[r.N(len(out))] ^= 1 << r.N(8)
		}
	case 1: // a bit inside of a field
		if ks := bin(m); len(ks) > 0 {
			k := ks[r.N(len(ks))]
			d, _ := base64.StdEncoding.DecodeString(m[k].(string))
			at := r.N(len(d))
			switch r.N(4) {
			case 0:
				at = 0
			case 1:
				at = len(d) - 1
			}
			d[at] ^= 1 << r.N(8)
			m[k] = base64.StdEncoding.EncodeToString(d)
			out = enc(m)
		}
	case 2: // cut off
		out = out[:r.N(len(out)+1)]
	case 3: // degenerate values
		out = [][]byte{{}, []byte("null"), []byte("{}"), []byte("[]"), []byte("\"\""), []byte("0"), []byte("{"), {0}}[r.N(8)]
	case 4: // extended
		out = append(out, [][]byte{{0}, []byte(" "), []byte("{}"), []byte("x"), val}[r.N(5)]...)
	case 5: // a record of another ID
		if o := pick(true); o != nil {
			out = clone(o)
		}
	case 6: // a record of another type
		if o := pick(false); o != nil {
			out = clone(o)
		}
	case 7: // one or two fields of a record of another ID
		if o := fields(pick(true)); o != nil {
			ks := sortedKeys(m)
			for n := 1 + r.N(2); n > 0; n-- {
				k := ks[r.N(len(ks))]
				if v, ok := o[k]; ok {
					m[k] = v
				}
			}
			out = enc(m)
		}
	case 8: // all fields but the name of a record of another ID
		if o := fields(pick(true)); o != nil {
			for _, k := range sortedKeys(m) {
				if k != "OID" && k != "UID" && k != "GID" {
					if v, ok := o[k]; ok {
						m[k] = v
					}
				}
			}
			out = enc(m)
		}
	case 9: // made under other keys
		if x := w.foreignRecord(oc, rid, dt, m); x != nil {
			out = x
		}
	case 16, 17: // made under other keys, with a data key that can be guessed, and the wrapped key left out or garbled
		old, oldN := oc.repeat, oc.repN
		oc.repeat, oc.repN = simrt.ZeroStream(), 1<<30
		x := w.foreignRecord(oc, rid, dt, m)
		oc.repeat, oc.repN = old, oldN
		if x == nil {
			break
		}
		f := fields(x)
		if f == nil {
			break
		}
		for _, k := range sortedKeys(f) {
			if !strings.Contains(k, "WrappedKey") {
				continue
			}
			switch r.N(6) {
			case 0, 1:
				f[k] = ""
			case 2:
				f[k] = nil
			case 3:
				delete(f, k)
			case 4:
				f[k] = base64.StdEncoding.EncodeToString(make([]byte, 32)) // the data key itself
			default:
				f[k] = base64.StdEncoding.EncodeToString(make([]byte, 40))
			}
		}
		out = enc(f)
	case 10: // a field emptied or dropped
		ks := sortedKeys(m)
		if len(ks) > 0 {
			k := ks[r.N(len(ks))]
			switch r.N(3) {
			case 0:
				m[k] = nil
			case 1:
				m[k] = ""
			default:
				delete(m, k)
			}
			out = enc(m)
		}
	case 11: // fields exchanged
		if ks := bin(m); len(ks) > 1 {
			i, j := r.N(len(ks)), r.N(len(ks))
			m[ks[i]], m[ks[j]] = m[ks[j]], m[ks[i]]
			out = enc(m)
		}
	case 12: // a field cut short or extended
		if ks := bin(m); len(ks) > 0 {
			k := ks[r.N(len(ks))]
			d, _ := base64.StdEncoding.DecodeString(m[k].(string))
			switch r.N(3) {
			case 0:
				d = d[:r.N(len(d))]
			case 1:
				d = d[r.N(len(d)):]
			default:
				d = append(d, byte(r.N(256)))
			}
			m[k] = base64.StdEncoding.EncodeToString(d)
			out = enc(m)
		}
	case 13: // a readable record instead of a sealed one
		u := oc.uid
		switch dt {
		case d1io.DataTypeSealedAccess:
			p, _ := json.Marshal(map[string]any{"Groups": map[string]any{u: map[string]any{}}, "WrappedDEK": ""})
			m["Ciphertext"], m["WrappedKey"] = base64.StdEncoding.EncodeToString(p), ""
			m["Groups"] = map[string]any{u: map[string]any{}}
		case id.DataTypeSealedUser, id.DataTypeSealedGroup:
			p, _ := json.Marshal(map[string]any{"Scopes": 0xffff, "Groups": map[string]any{}})
			m["Ciphertext"], m["WrappedKey"], m["Scopes"] = base64.StdEncoding.EncodeToString(p), "", 0xffff
		case d1io.DataTypeSealedNode:
			p, _ := json.Marshal(map[string]any{"Identifier": "forged", "NextCounter": 1})
			m["Ciphertext"], m["WrappedKey"], m["Identifier"] = base64.StdEncoding.EncodeToString(p), "", "forged"
		default:
			m["Ciphertext"], m["Plaintext"] = base64.StdEncoding.EncodeToString([]byte("\"Zm9yZ2Vk\"")), "Zm9yZ2Vk"
		}
		out = enc(m)
	case 14: // the name changed, or associated data replaced
		for _, k := range []string{"OID", "UID", "GID"} {
			if _, ok := m[k]; ok {
				if o := fields(pick(true)); o != nil {
					m[k] = o[k]
				} else {
					m[k] = "00000000-0000-0000-0000-000000000001"
				}
			}
		}
		if _, ok := m["AssociatedData"]; ok && r.P(60) {
			m["AssociatedData"] = base64.StdEncoding.EncodeToString([]byte("other associated data")[:r.N(20)])
		}
		out = enc(m)
	case 15: // bytes moved between associated data and the rest
		if s, ok := m["AssociatedData"].(string); ok {
			d, _ := base64.StdEncoding.DecodeString(s)
			switch {
			case len(d) > 0 && r.P(50):
				d = d[:len(d)-1]
			default:
				d = append(d, 0)
			}
			m["AssociatedData"] = base64.StdEncoding.EncodeToString(d)
			out = enc(m)
		} else if len(out) > 0 {
			n := r.N(len(out))
			out = append(out[:n:n], out[n+1:]...)
		}
	}
	return out
}

// foreignRecord makes a record that would suit the caller under keys of the attacker's choice: other
// random keys, an all-zero key, or a key of this deployment that is meant for something else.
func (w *World) foreignRecord(oc *OpCtx, rid []byte, dt d1io.DataType, m map[string]any) []byte {
	r := simrt.NewRng(simrt.Mix64(w.p.Seed, oc.op.S, 0xf07e))
	key := w.keyBytes(88)
	switch r.N(4) {
	case 0:
		key = make([]byte, 32)
	case 1:
		switch dt {
		case d1io.DataTypeSealedObject:
			key = w.keys.TEK
		case d1io.DataTypeSealedAccess:
			key = w.keys.TEK
		default:
			key = w.keyBytes(89)
		}
	}
	cr, err := newCryptor(key)
	if err != nil {
		return nil
	}
	var x any
	switch dt {
	case d1io.DataTypeSealedObject:
		o := data.Object{Plaintext: []byte("forged"), AssociatedData: []byte("forged")}
		_, so, err := o.Seal(uuid.FromBytesOrNil(rid), cr)
		if err != nil {
			return nil
		}
		x = so
	case d1io.DataTypeSealedAccess:
		a := data.NewAccess(make([]byte, 40))
		if oc.uid != "" {
			a.AddGroups(oc.uid)
		}
		sa, err := a.Seal(uuid.FromBytesOrNil(rid), cr)
		if err != nil {
			return nil
		}
		x = sa
	case d1io.DataTypeSealedNode:
		n := data.Node{Identifier: "forged", NextCounter: 1}
		sn, err := n.Seal(rid, cr)
		if err != nil {
			return nil
		}
		x = sn
	case id.DataTypeSealedUser:
		u := id.User{SaltAndHash: forgedHash(), Scopes: id.ScopeAll, Groups: map[string]struct{}{}}
		wk, ct, err := cr.Encrypt(&u, string(rid))
		if err != nil {
			return nil
		}
		x = id.SealedUser{UID: string(rid), Ciphertext: ct, WrappedKey: wk}
	case id.DataTypeSealedGroup:
		wk, ct, err := cr.Encrypt(&id.Group{Scopes: id.ScopeAll}, string(rid))
		if err != nil {
			return nil
		}
		x = id.SealedGroup{GID: string(rid), Ciphertext: ct, WrappedKey: wk}
	default:
		return nil
	}
	b, err := json.Marshal(x)
	if err != nil {
		return nil
	}
	return b
}

// forgedHash is the salt and hash of the password "wrong".
func forgedHash() []byte {
	_, sh, err := crypto.NewPasswordHasher().GeneratePassword()
	if err != nil {
		return make([]byte, 40)
	}
	return sh
}
