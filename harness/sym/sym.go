// Package sym gives harnesses their symbolic inputs and assertions. The symbolic machine intercepts
// every function below; compiled natively, the same harness replays one concrete case.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"verif/harness/vsched"
)

var (
	inputs   []uint64
	names    []string
	pos      int
	thorough bool
	known    bool
	tail     uint64
)

// Main replays the case in the given file.
func Main(file string, table map[string]func()) {
	var c struct {
		Harness  string
		Inputs   []uint64
		Names    []string
		Thorough bool
		Sched    []int
		Tail     uint64
	}
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	inputs, names, thorough, tail = c.Inputs, c.Names, c.Thorough, c.Tail
	if c.Sched != nil {
		vsched.Start(c.Sched, 2)
	}
	f := table[c.Harness]
	if f == nil {
		fmt.Println("no harness", c.Harness)
		os.Exit(7)
	}
	f()
	finish()
}

func finish() {
	if known {
		os.Exit(4)
	}
	os.Exit(0)
}

func next(name string) uint64 {
	if pos >= len(inputs) {
		pos++
		if tail != 0 {
			// The encoding did not get here: continue with any values.
			tail = tail*6364136223846793005 + 1442695040888963407
			return tail>>33 ^ tail<<31
		}
		return 0
	}
	v := inputs[pos]
	if pos < len(names) && names[pos] != name {
		fmt.Printf("INPUT-MISMATCH %d %s %s\n", pos, name, names[pos])
		os.Exit(6)
	}
	pos++
	return v
}

func U8(name string) uint8    { return uint8(next(name)) }
func U16(name string) uint16  { return uint16(next(name)) }
func U32(name string) uint32  { return uint32(next(name)) }
func U64(name string) uint64  { return next(name) }
func I8(name string) int8     { return int8(next(name)) }
func I16(name string) int16   { return int16(next(name)) }
func I32(name string) int32   { return int32(next(name)) }
func I64(name string) int64   { return int64(next(name)) }
func Int(name string) int     { return int(next(name)) }
func Uint(name string) uint   { return uint(next(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name))) }
func F64(name string) float64 { return math.Float64frombits(next(name)) }
func Bool(name string) bool   { return next(name)&1 != 0 }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	if pos >= len(inputs) && n > 0 {
		return int(next(name) % uint64(n))
	}
	return int(next(name))
}

// Pick forks over every feasible value of v.
func Pick(v int) int { return v }

func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAIL")
		os.Exit(5)
	}
}

func Assert(c bool, label string) {
	if !c {
		fmt.Println("ASSERT-FAIL " + label)
		os.Exit(3)
	}
}

// AssertKnown asserts ok; a failure under pred is the recorded finding id.
func AssertKnown(id string, pred, ok bool, label string) {
	if ok {
		return
	}
	if pred {
		fmt.Println("KNOWN " + id + " " + label)
		os.Exit(4)
	}
	Assert(false, label)
}

func Fail(label string) { Assert(false, label) }

// Stop ends the path without judging it.
func Stop() { finish() }

// Cover marks a point that must be reachable.
func Cover(label string) {}

func Observe(label string, v any) {
	var sb strings.Builder
	obs(&sb, reflect.ValueOf(v), 0)
	fmt.Println("OBS " + label + "=" + sb.String())
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func obs(sb *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	t := v.Type()
	if t.Implements(errT) && t.Kind() != reflect.Interface {
		sb.WriteString("error")
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			sb.WriteString("1")
		} else {
			sb.WriteString("0")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%x", uint64(v.Int())&(1<<(t.Size()*8-1)<<1-1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%x", v.Uint())
	case reflect.Float32:
		fmt.Fprintf(sb, "%x", math.Float32bits(f32(v)))
	case reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64:
		c := v.Complex()
		fmt.Fprintf(sb, "%x+%x", math.Float32bits(float32(real(c))), math.Float32bits(float32(imag(c))))
	case reflect.Complex128:
		c := v.Complex()
		fmt.Fprintf(sb, "%x+%x", math.Float64bits(real(c)), math.Float64bits(imag(c)))
	case reflect.String:
		sb.WriteString("\"")
		s := v.String()
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(sb, "%x.", s[i])
		}
		sb.WriteString("\"")
	case reflect.Slice, reflect.Array:
		if v.Len() > 4096 {
			fmt.Fprintf(sb, "[len %d]", v.Len())
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			obs(sb, v.Index(i), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Struct:
		if t == reflect.TypeOf(reflect.Value{}) {
			sb.WriteString("Value")
			return
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			obs(sb, v.Field(i), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if strings.HasPrefix(t.String(), "*reflect.") {
			sb.WriteString("type")
			return
		}
		sb.WriteString("&")
		obs(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		obs(sb, v.Elem(), depth+1)
	default:
		if v.IsNil() {
			sb.WriteString("nil")
		} else {
			sb.WriteString(t.Kind().String())
		}
	}
}

func f32(v reflect.Value) float32 {
	if v.CanAddr() && v.CanInterface() {
		return *v.Addr().Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32)
	}
	return float32(v.Float())
}

// Same is bit-exact structural equality; nil and empty slices are the same.
func Same(a, b any) bool {
	seen := map[seenKey]bool{}
	return same(reflect.ValueOf(a), reflect.ValueOf(b), seen)
}

type seenKey struct {
	a, b uintptr
	t    reflect.Type
}

func same(a, b reflect.Value, seen map[seenKey]bool) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), seen) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), seen) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() || a.Pointer() == b.Pointer() {
			return a.Pointer() == b.Pointer()
		}
		k := seenKey{a.Pointer(), b.Pointer(), a.Type()}
		if seen[k] {
			return true
		}
		seen[k] = true
		return same(a.Elem(), b.Elem(), seen)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), seen)
	case reflect.Map:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			x, y := a.MapIndex(k), b.MapIndex(k)
			if !y.IsValid() || !same(x, y, seen) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	case reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	if a.CanUint() {
		return a.Uint() == b.Uint()
	}
	return a.Interface() == b.Interface()
}

// And, Or and Implies combine conditions without forking.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Ite selects without forking.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Tag makes a struct tag whose content may be symbolic.
func Tag(key, content string) reflect.StructTag {
	return reflect.StructTag(key + ":" + strconv.Quote(content))
}

func Thorough() bool { return thorough }

// SmallLen bounds the lengths over which allocations of symbolic size are enumerated.
func SmallLen(n int) {}

// Steps bounds the steps of the current path.
func Steps(n int) {}

// Preempt bounds the preemptive context switches of a schedule.
func Preempt(n int) { vsched.Bound(n) }

var group sync.WaitGroup

func spawn(f func()) {
	if vsched.Active {
		vsched.Go(f)
		return
	}
	group.Add(1)
	go func() {
		defer group.Done()
		f()
	}()
}

func join() {
	if vsched.Active {
		vsched.Join()
		return
	}
	group.Wait()
}

// Par runs the functions in goroutines of their own and waits for them.
func Par(fs ...func()) {
	for _, f := range fs {
		spawn(f)
	}
	join()
}

// NoRace asserts that no data race has happened so far.
func NoRace() {}
