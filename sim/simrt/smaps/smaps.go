// Package smaps replaces maps in instrumented code: the order of an iteration is the simulator's choice.
package smaps

import (
	"iter"
	"maps"

	"verifsim/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range simrt.MapEntries(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range simrt.MapEntries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range simrt.MapEntries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { maps.Copy(dst, src) }

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, e := range simrt.MapEntries(m) {
		if e.Live() && del(e.K, e.V()) {
			delete(m, e.K)
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return maps.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(m1, m2, eq)
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }
