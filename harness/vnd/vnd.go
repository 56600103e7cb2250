// Package vnd is the interface between verification harnesses and the engine.
//
// Under the engine every function of this package is symbolic. Natively, values are read from a replay file,
// so that a counterexample can be run against the real code.
package vnd

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
)

var (
	vars     map[string]uint64
	cases    map[string]int
	allocLim int
	base     uint64
)

var prefix string

// Prefix sets a prefix of the names of the variables which are created later.
func Prefix(p string) { prefix = p }

func key(name string, idx []int) string {
	name = prefix + name
	for _, i := range idx {
		name += fmt.Sprintf("[%d]", i)
	}
	return name
}

// Byte returns a symbolic byte.
func Byte(name string, idx ...int) byte { return byte(vars[key(name, idx)]) }

// U16 returns a symbolic value.
func U16(name string, idx ...int) uint16 { return uint16(vars[key(name, idx)]) }

// U32 returns a symbolic value.
func U32(name string, idx ...int) uint32 { return uint32(vars[key(name, idx)]) }

// U64 returns a symbolic value.
func U64(name string, idx ...int) uint64 { return vars[key(name, idx)] }

// Int64 returns a symbolic value.
func Int64(name string, idx ...int) int64 { return int64(vars[key(name, idx)]) }

// Bool returns a symbolic boolean.
func Bool(name string, idx ...int) bool { return vars[key(name, idx)]&1 != 0 }

// Bits returns a symbolic value of w bits.
func Bits(name string, w int, idx ...int) uint64 {
	v := vars[key(name, idx)]
	if w < 64 {
		v &= (1 << w) - 1
	}
	return v
}

// Int returns a symbolic value between lo and hi.
func Int(name string, lo, hi int, idx ...int) int {
	v := lo + int(vars[key(name, idx)])
	if v > hi || v < lo {
		fmt.Println("VH-ASSUME")
		os.Exit(4)
	}
	return v
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vars[fmt.Sprintf("%s%s[%d]", prefix, name, i)])
	}
	return b
}

// Fill returns n bytes of value b.
func Fill(b byte, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}

// Case returns a job parameter.
func Case(name string) int {
	v, ok := cases[name]
	if !ok {
		panic("no case " + name)
	}
	return v
}

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VH-ASSUME")
		os.Exit(4)
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VH-ASSERT " + msg)
		os.Exit(3)
	}
}

// Reach marks a point which must be reachable.
func Reach(string) {}

// Observe records a value for the validation of the encoding.
func Observe(name string, v uint64) { fmt.Printf("VH-OBS %s %d\n", name, v) }

// AllocLimit bounds any single allocation that follows.
func AllocLimit(n int) {
	allocLim = n
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base = m.TotalAlloc
}

// Eq compares byte slices.
func Eq(a, b []byte) bool { return string(a) == string(b) }

// And is a non-branching conjunction.
func And(a, b bool) bool { return a && b }

// Or is a non-branching disjunction.
func Or(a, b bool) bool { return a || b }

// Implies is a non-branching implication.
func Implies(a, b bool) bool { return !a || b }

// Ite is a non-branching choice.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// FloatEq compares floats.
func FloatEq(a, b float64) bool { return a == b }

// DeepEqual is structural equality; nil and empty slices are equal.
func DeepEqual(a, b any) bool { return deepEq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	panic("deepEq of " + a.Kind().String())
}

// DeepCopy copies a value and what it refers to.
func DeepCopy(a any) any {
	if a == nil {
		return nil
	}
	return deepCp(reflect.ValueOf(a)).Interface()
}

func deepCp(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(deepCp(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCp(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deepCp(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCp(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deepCp(v.Field(i)))
			}
		}
	}
	return out
}

// Main runs a harness on a replay file.
func Main(reg map[string]func()) {
	buf, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var rc struct {
		Harness string            `json:"harness"`
		Cases   map[string]int    `json:"cases"`
		Vars    map[string]uint64 `json:"vars"`
	}
	if err := json.Unmarshal(buf, &rc); err != nil {
		panic(err)
	}
	vars, cases = rc.Vars, rc.Cases
	f := reg[rc.Harness]
	if f == nil {
		fmt.Println("VH-ERR no harness")
		os.Exit(5)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := string(debug.Stack())
				var fn []string
				for _, l := range strings.Split(s, "\n") {
					if strings.Contains(l, "mediacommon") && !strings.HasPrefix(l, "\t") && len(fn) < 4 {
						if i := strings.LastIndex(l, "("); i > 0 {
							l = l[:i]
						}
						fn = append(fn, l[strings.LastIndex(l, "/")+1:])
					}
				}
				fmt.Printf("VH-PANIC %v in %s\n", r, strings.Join(fn, " < "))
				os.Exit(2)
			}
		}()
		f()
	}()
	if allocLim > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.TotalAlloc-base > uint64(allocLim) {
			fmt.Printf("VH-ALLOC %d bytes allocated, limit %d\n", m.TotalAlloc-base, allocLim)
			os.Exit(6)
		}
	}
	fmt.Println("VH-OK")
}

// Dirty fills the value p points to, so that no exported part of it is zero.
func Dirty(p any) { dirty(reflect.ValueOf(p).Elem(), 0) }

func dirty(v reflect.Value, depth int) {
	if depth > 12 || !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(0x55)
	case reflect.String:
		v.SetString("dirty")
	case reflect.Float32, reflect.Float64:
		v.SetFloat(5.5)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dirty(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dirty(v.Index(i), depth+1)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		for i := 0; i < 2; i++ {
			dirty(v.Index(i), depth+1)
		}
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		dirty(v.Elem(), depth+1)
	}
}
