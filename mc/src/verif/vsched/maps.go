package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// K registers a map key whose order is otherwise not deterministic (pointers).
func K[T any](k T) T {
	if R != nil && !R.dead {
		v := reflect.ValueOf(k)
		if v.IsValid() && v.Kind() == reflect.Pointer {
			if _, ok := R.mapIDs[k]; !ok {
				R.mapIDs[k] = mix(R.cur.hash, uint64(len(R.mapIDs))<<48>>48)
			}
		}
	}
	return k
}

func keyLess(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return cmp.Less(va.Int(), vb.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return cmp.Less(va.Uint(), vb.Uint())
		case reflect.Pointer:
			if R != nil {
				return R.mapIDs[a] < R.mapIDs[b]
			}
			return va.Pointer() < vb.Pointer()
		}
	}
	if sa, sb := fmt.Sprint(a), fmt.Sprint(b); sa != sb {
		return sa < sb
	}
	return va.Kind() < vb.Kind()
}

// RangeMap iterates over a map in a deterministic (or explored) order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		MapR(m)
		keys := make([]K, 0, len(m))
		var nan []V
		for k, v := range m {
			if k != k {
				nan = append(nan, v)
				continue
			}
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		if R != nil && R.MapPerm && len(keys) > 1 && len(keys) <= 4 {
			for i := 0; i+1 < len(keys); i++ {
				j := i + Choose(len(keys)-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
		for _, v := range nan {
			var k K
			for k = range m {
				if k != k {
					break
				}
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
