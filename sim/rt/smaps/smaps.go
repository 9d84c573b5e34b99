// Package smaps stands in for maps: iteration follows the simulator's order.
package smaps

import (
	"iter"
	"maps"

	"github.com/childe/healer/zz_sim/sim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) { sim.RangeMap(m)(yield) }
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) { sim.RangeMap(m)(func(k K, _ V) bool { return yield(k) }) }
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) { sim.RangeMap(m)(func(_ K, v V) bool { return yield(v) }) }
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { maps.Copy(dst, src) }

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	sim.RangeMap(m)(func(k K, v V) bool {
		if del(k, v) {
			delete(m, k)
		}
		return true
	})
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return maps.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(m1, m2, eq)
}
