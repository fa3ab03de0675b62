// Package simmaps is package maps with the iteration order the run decides.
package simmaps

import (
	"iter"

	"recengine/internal/zzsim/rt"
)

// All is maps.All.
func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := rt.RangeMap(m)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys is maps.Keys.
func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k, _ := rt.RangeMap(m)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values is maps.Values.
func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, _, v := rt.RangeMap(m)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}

// DeleteFunc is maps.DeleteFunc.
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	it, k, v := rt.RangeMap(m)
	for it.Next(&k, &v) {
		if del(k, v) {
			delete(m, k)
		}
	}
}

// EqualFunc is maps.EqualFunc.
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	if len(m1) != len(m2) {
		return false
	}
	it, k, v := rt.RangeMap(m1)
	for it.Next(&k, &v) {
		if v2, ok := m2[k]; !ok || !eq(v, v2) {
			return false
		}
	}
	return true
}
