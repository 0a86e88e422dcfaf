package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/id"
)

// ---------------------------------------------------------------- objects

const (
	oPresent = iota
	oPartial // content erased, access list left
	oBroken  // content written, its key not
	oAbsent
)

// owl is one state an object may be in.
type owl struct {
	st      int
	content *blob
	acl     map[string]bool
}

type blob struct{ pt, ad []byte }

type object struct {
	oid    uuid.UUID
	client int
	worlds []owl
	// interrupted: an encrypt or update on it was cut short; aclCut: a grant or revocation was.
	interrupted, aclCut, delCut bool
	ackFault                    bool // an acknowledged call on it met a fault
	orphan                      bool // made by an encrypt that reported failure
	delAck                      bool // a delete was acknowledged while it existed
	mustErase                   bool // a delete was cut short while it existed
	delBy                       int  // user whose delete failed
	wrote                       int  // operations that wrote it
}

func aclKey(a map[string]bool) string {
	return listKey(sortedKeys(a))
}

func (o owl) key() string { return fmt.Sprintf("%d %p %q", o.st, o.content, aclKey(o.acl)) }

// listKey tells any two lists apart.
func listKey(l []string) string { return fmt.Sprintf("%d%q", len(l), l) }

func dedupO(ws []owl) []owl {
	seen := map[string]bool{}
	var out []owl
	for _, w := range ws {
		if k := w.key(); !seen[k] {
			seen[k] = true
			out = append(out, w)
		}
	}
	return out
}

func copySet(a map[string]bool) map[string]bool {
	b := make(map[string]bool, len(a))
	for k := range a {
		b[k] = true
	}
	return b
}

func (o owl) with(groups []string, add bool) owl {
	n := o
	n.acl = copySet(o.acl)
	for _, g := range groups {
		if add {
			n.acl[g] = true
		} else {
			delete(n.acl, g)
		}
	}
	return n
}

func (o owl) allows(i *id.Identity, need id.Scope) bool {
	if o.acl[i.ID] && has(i.Scopes, need) {
		return true
	}
	for g, ag := range i.Groups {
		if g != i.ID && o.acl[g] && has(ag.Scopes, need) {
			return true
		}
	}
	return false
}

func has(s, need id.Scope) bool { return uint64(s)&uint64(need) == uint64(need) }

func sameBlob(b *blob, pt, ad []byte) bool {
	return b != nil && bytes.Equal(b.pt, pt) && bytes.Equal(b.ad, ad)
}

// ---------------------------------------------------------------- users

// uwl is one state a user account may be in.
type uwl struct {
	exists bool
	pwd    string
	groups map[string]bool
}

func (u uwl) key() string { return fmt.Sprintf("%v %q %q", u.exists, u.pwd, aclKey(u.groups)) }

func dedupU(ws []uwl) []uwl {
	seen := map[string]bool{}
	var out []uwl
	for _, w := range ws {
		if k := w.key(); !seen[k] {
			seen[k] = true
			out = append(out, w)
		}
	}
	return out
}

const unknownPwd = "\x00unknown"

type token struct {
	s      string
	lo, hi int64 // expiry instant lies in [lo, hi], nanoseconds of the wall clock of the issuing node
}

type user struct {
	id     string
	client int
	stub   *stubUser // stub provider
	worlds []uwl     // Standalone
	scopes id.Scope
	tokens []token
	pwds   []string // passwords issued so far
	cut    bool     // an operation on it was cut short
}

// idw is one answer the identity provider may give.
type idw struct {
	ok    bool
	ident id.Identity
	uw    int // index of the user world it belongs to, -1: none
}

// ---------------------------------------------------------------- index

type ient struct {
	id  string
	opt bool // possibly absent
}

type keyword struct {
	kw   string
	list []ient
	cut  bool
	size int // largest number of entries so far
	adds int // adds attempted so far
}

// match reports whether got is the list with some of the optional entries left out.
func matchList(list []ient, got []string) bool {
	// dp over positions.
	prev := make([]bool, len(got)+1)
	prev[0] = true
	for _, e := range list {
		next := make([]bool, len(got)+1)
		for j := range prev {
			if !prev[j] {
				continue
			}
			if e.opt {
				next[j] = true
			}
			if j < len(got) && got[j] == e.id {
				next[j+1] = true
			}
		}
		prev = next
	}
	return prev[len(got)]
}

func listText(list []ient) string {
	var s []string
	for _, e := range list {
		t := fmt.Sprintf("%.20q", e.id)
		if e.opt {
			t += "?"
		}
		s = append(s, t)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func strsText(l []string) string {
	var s []string
	for _, e := range l {
		s = append(s, fmt.Sprintf("%.20q", e))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func setText(m map[string]bool) string {
	ks := sortedKeys(m)
	sort.Strings(ks)
	return strsText(ks)
}
