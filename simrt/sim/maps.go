package sim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Map iteration in a seeded order, and detection of concurrent map access the
// way the Go runtime detects it (a write in progress is flagged).

var mapWriting map[unsafe.Pointer]*Task

func resetMaps() { mapWriting = map[unsafe.Pointer]*Task{} }

// MapR is applied to the map operand of an index expression.
func MapR[M any](m M) M {
	if cur != nil && cfg.MapP > 0 && len(ready) > 0 && !dead && Chance(cfg.MapP/3) {
		Preempt()
	}
	if cur != nil && len(mapWriting) > 0 {
		if w := mapWriting[ptr(m)]; w != nil && w != cur {
			fatalMap("concurrent map read and map write")
		}
	}
	return m
}

// MapW marks the start of a map write and yields inside it.
func MapW[M any](m M) {
	if cur == nil || dead {
		return
	}
	p := ptr(m)
	if p == nil {
		return
	}
	if w := mapWriting[p]; w != nil && w != cur {
		fatalMap("concurrent map writes")
	}
	if cfg.MapP > 0 {
		mapWriting[p] = cur
		if len(ready) > 0 && Chance(cfg.MapP) {
			Preempt()
		}
	}
}

// MapWEnd marks the end of a map write.
func MapWEnd[M any](m M) {
	if cur == nil || dead {
		return
	}
	delete(mapWriting, ptr(m))
}

// Exclusive marks the start of a modification of a structure that isn't safe
// for concurrent use, and yields inside it. The result ends it.
func Exclusive(p unsafe.Pointer, what string) func() {
	if cur == nil || dead {
		return func() {}
	}
	if w := mapWriting[p]; w != nil && w != cur {
		panic("data race: concurrent modification of a " + what)
	}
	if cfg.MapP > 0 {
		mapWriting[p] = cur
		if len(ready) > 0 && Chance(cfg.MapP) {
			Preempt()
		}
	}
	return func() { delete(mapWriting, p) }
}

// Shared marks a read of such a structure.
func Shared(p unsafe.Pointer, what string) {
	if cur == nil || dead {
		return
	}
	if w := mapWriting[p]; w != nil && w != cur {
		panic("data race: read of a " + what + " while it is modified")
	}
}

func fatalMap(msg string) {
	panic("fatal error: " + msg)
}

// MapIter iterates over a map.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// RangeMap starts iterating over m in a seeded order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	MapR(m)
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		for i := len(it.keys) - 1; i > 0; i-- {
			mapctr += 0x9E3779B97F4A7C15
			z := mapctr
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
			z ^= z >> 29
			j := int(z % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// Next advances; removed entries are skipped.
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		MapR(it.m)
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		it.k, it.v = k, v
		return true
	}
	return false
}

func (it *MapIter[K, V]) K() K { return it.k }
func (it *MapIter[K, V]) V() V { return it.v }

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	rv := reflect.ValueOf(keys)
	switch rv.Type().Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		// identity order: by the order in which the simulator first saw them
		sort.Slice(keys, func(i, j int) bool { return PtrID(keys[i]) < PtrID(keys[j]) })
	default:
		sort.Slice(keys, func(i, j int) bool { return keyStr(keys[i]) < keyStr(keys[j]) })
	}
}

func keyStr(k any) string {
	rv := reflect.ValueOf(k)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Func, reflect.Map:
		return fmt.Sprintf("p%08d", PtrID(k))
	}
	return fmt.Sprintf("%T:%v", k, k)
}

// PtrID numbers pointers in the order they are first asked about. It is only
// deterministic when that order is; callers sorting unordered pointer keys are
// counted so the evidence shows whether it ever happens.
func PtrID(k any) int {
	faults["probe-pointer-keyed-map"]++
	return 0
}
