// Package rt binds one slot of instrumented code to the simulated process it is running.
package rt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"vsim/simrt"
)

var P *simrt.Proc
var n, max int64 = 0, 1 << 62

func Bind(p *simrt.Proc) {
	P = p
	n = 0
	chans = nil
	max = 1 << 62
	if p != nil {
		max = p.TickMax
	}
}

// Tick bounds the work of a process, so that endless loops and recursion end deterministically.
func Tick() {
	n++
	if n > max && P != nil {
		P.Over()
	}
	if P != nil && P.Threads() > 1 {
		P.Preempt(n)
	}
}

func Zero[T any](p *T) { var z T; *p = z }

func Embed[T any](p *T, pattern string) {
	v := reflect.ValueOf(p).Elem()
	if v.Kind() == reflect.String {
		v.SetString("<!-- " + pattern + " -->\n")
	}
}

// Keys returns the keys of the map in the order chosen by the simulator.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	var zero K
	switch any(zero).(type) {
	case string:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(string) < any(ks[j]).(string) })
	case int:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(int) < any(ks[j]).(int) })
	default:
		type kd struct {
			k K
			d string
		}
		ds := make([]kd, len(ks))
		for i, k := range ks {
			ds[i] = kd{k, describe(reflect.ValueOf(&k).Elem(), 2)}
		}
		sort.SliceStable(ds, func(i, j int) bool { return ds[i].d < ds[j].d })
		for i := range ds {
			ks[i] = ds[i].k
		}
	}
	if P == nil {
		return ks
	}
	switch P.Cmd.Cfg.MapMode {
	case 1:
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	case 2:
		simrt.Shuffle(P.MapR, ks)
	case 3:
		r := P.MapR.N(len(ks))
		ks = append(append([]K{}, ks[r:]...), ks[:r]...)
	}
	return ks
}

func describe(v reflect.Value, depth int) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())^(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
		if depth == 0 {
			return ""
		}
		return describe(v.Elem(), depth-1)
	case reflect.Struct, reflect.Array:
		var b strings.Builder
		k := v.Len
		if v.Kind() == reflect.Struct {
			k = v.NumField
		}
		for i := 0; i < k(); i++ {
			f := v
			if v.Kind() == reflect.Struct {
				f = v.Field(i)
			} else {
				f = v.Index(i)
			}
			b.WriteString(describe(f, depth))
			b.WriteByte('|')
		}
		return b.String()
	}
	return ""
}

// Range is what ranges over maps become.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range Keys[M, K, V](m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
