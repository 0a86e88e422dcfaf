package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Entry is one element of a map iteration.
type Entry[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
}

// Live reports whether the key is still in the map.
func (e Entry[M, K, V]) Live() bool {
	mapAcc(*(*unsafe.Pointer)(unsafe.Pointer(&e.m)), false)
	_, ok := e.m[e.K]
	return ok
}

// V returns the current value.
func (e Entry[M, K, V]) V() V { return e.m[e.K] }

// OrderRand, if set, returns the generator deciding the next map iteration order.
var OrderRand func() uint64

// MapEntries lists a map in an order decided by the simulator.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[M, K, V] {
	es := make([]Entry[M, K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[M, K, V]{m, k})
	}
	if len(es) < 2 {
		return es
	}
	switch any(es[0].K).(type) {
	case string:
		sort.Slice(es, func(i, j int) bool { return any(es[i].K).(string) < any(es[j].K).(string) })
	default:
		switch reflect.TypeOf(es[0].K).Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(es, func(i, j int) bool { return reflect.ValueOf(es[i].K).Int() < reflect.ValueOf(es[j].K).Int() })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			sort.Slice(es, func(i, j int) bool { return reflect.ValueOf(es[i].K).Uint() < reflect.ValueOf(es[j].K).Uint() })
		default:
			sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i].K) < fmt.Sprint(es[j].K) })
		}
	}
	if OrderRand != nil {
		r := NewRng(OrderRand())
		for i := len(es) - 1; i > 0; i-- {
			j := r.N(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

// Accesses to maps are not atomic: while one is in progress another task may run, and if that one uses the
// same map and either of them writes, a real program would stop with "concurrent map writes" or similar.

type mapUse struct {
	m     unsafe.Pointer
	write bool
	t     *Task
}

var mapUses []mapUse

// MapConflict is told about unsynchronised uses of a map.
var MapConflict func(what string)

// MapRead marks a read of the map.
func MapRead[M ~map[K]V, K comparable, V any](m M) M {
	mapAcc(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	return m
}

// MapWrite marks a write to the map.
func MapWrite[M ~map[K]V, K comparable, V any](m M) M {
	mapAcc(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true)
	return m
}

func mapAcc(m unsafe.Pointer, write bool) {
	t := cur
	if t == nil || m == nil || sim.ending || t.unwind || len(sim.tasks) < 3 {
		return
	}
	k := 0
	for _, u := range mapUses {
		if u.t.st == done || u.t.dying {
			continue
		}
		mapUses[k] = u
		k++
		if u.m == m && u.t != t && (write || u.write) && MapConflict != nil {
			MapConflict([]string{"read", "write"}[b2i(write)] + " while a " + []string{"read", "write"}[b2i(u.write)] + " is in progress")
		}
	}
	mapUses = append(mapUses[:k], mapUse{m, write, t})
	YIO()
	for i := range mapUses {
		if mapUses[i].t == t && mapUses[i].m == m {
			mapUses = append(mapUses[:i], mapUses[i+1:]...)
			break
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
