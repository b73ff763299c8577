// Package vmaps replaces maps: it iterates in a deterministic (or explored)
// order and reports the accesses.
package vmaps

import (
	"iter"
	"maps"

	"verif/vsched"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return vsched.RangeMap(m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range vsched.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range vsched.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		vsched.MapW(m)[vsched.K(k)] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := make(map[K]V)
	Insert(m, seq)
	return m
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(vsched.MapR(m)) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(vsched.MapW(dst), vsched.MapR(src))
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range vsched.RangeMap(m) {
		if del(k, v) {
			delete(vsched.MapW(m), k)
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	return maps.Equal(vsched.MapR(m1), vsched.MapR(m2))
}
