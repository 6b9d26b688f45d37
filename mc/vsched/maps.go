package vsched

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Zero resets a package variable that has no initialiser.
func Zero[T any](p *T) { var z T; *p = z }

type pkgReinit struct {
	path string
	f    func()
}

var pkgs []pkgReinit

// RegisterPkg is called by every instrumented package, in initialisation order.
func RegisterPkg(path string, f func()) { pkgs = append(pkgs, pkgReinit{path, f}) }

// Reinit re-runs package initialisation of all instrumented packages except those with one of the
// given path suffixes, in dependency order.
func Reinit(except ...string) {
next:
	for _, p := range pkgs {
		for _, e := range except {
			if strings.HasSuffix(p.path, e) {
				continue next
			}
		}
		p.f()
	}
}

// ReinitOnly re-runs package initialisation of the packages with the given path suffixes.
func ReinitOnly(only ...string) {
	for _, p := range pkgs {
		for _, e := range only {
			if strings.HasSuffix(p.path, e) {
				p.f()
				break
			}
		}
	}
}

// MapKey registers a pointer-like map key so that iteration order is deterministic.
func MapKey[K any](k K) K {
	noteKey(k)
	return k
}

func noteKey(k interface{}) {
	if x != nil {
		ordinal(k)
	}
}

func mapRev() bool { return x != nil && x.MapRev }

func ordinal(k interface{}) int {
	for i := len(x.ords) - 1; i >= 0; i-- {
		if x.ords[i] == k {
			return i
		}
	}
	x.ords = append(x.ords, k)
	return len(x.ords) - 1
}

// Entry is one entry of a map under iteration.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the entry is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the current value of the entry.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// MapEntries lists the entries of m in a deterministic order.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if len(m) == 0 {
		// still read the map, for the race detector
		for range m {
		}
		return nil
	}
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
	}
	if len(es) > 1 {
		ks := make([]sortKey, len(es))
		for i := range es {
			ks[i] = mkSortKey(any(es[i].K))
		}
		sort.Sort(&byKey[K, V]{es, ks})
		if mapRev() {
			for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
		}
	}
	return es
}

type sortKey struct {
	n int64
	s string
}

type byKey[K comparable, V any] struct {
	es []Entry[K, V]
	ks []sortKey
}

func (b *byKey[K, V]) Len() int { return len(b.es) }
func (b *byKey[K, V]) Less(i, j int) bool {
	if b.ks[i].n != b.ks[j].n {
		return b.ks[i].n < b.ks[j].n
	}
	return b.ks[i].s < b.ks[j].s
}
func (b *byKey[K, V]) Swap(i, j int) {
	b.es[i], b.es[j] = b.es[j], b.es[i]
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
}

func mkSortKey(k interface{}) sortKey {
	switch v := k.(type) {
	case string:
		return sortKey{0, v}
	case int:
		return sortKey{int64(v), ""}
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return sortKey{v.Int(), ""}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return sortKey{int64(v.Uint()), ""}
	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.Map, reflect.UnsafePointer:
		if x != nil {
			return sortKey{int64(ordinal(k)), ""}
		}
		return sortKey{}
	}
	var sb strings.Builder
	keyText(&sb, v, k)
	return sortKey{0, sb.String()}
}

func keyText(sb *strings.Builder, v reflect.Value, whole interface{}) {
	switch v.Kind() {
	case reflect.String:
		sb.WriteString(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Float64, reflect.Float32:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			keyText(sb, v.Field(i), whole)
			sb.WriteByte('|')
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			keyText(sb, v.Index(i), whole)
			sb.WriteByte('|')
		}
	case reflect.Interface:
		if !v.IsNil() {
			keyText(sb, v.Elem(), whole)
		}
	default:
		if x != nil {
			sb.WriteString(strconv.Itoa(ordinal(whole)))
		}
	}
}
