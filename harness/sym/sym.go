// Package sym is the harness interface. The symbolic engine intercepts every
// function; these bodies run when a counterexample is replayed natively, with
// the inputs read from the file named by SYM_INPUTS.
package sym

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	names  = map[string]int{}
	inputs map[string]interface{}
	base   uint64
	limit  int64
	tier   string
)

// Load sets the inputs of the next run.
func Load(in map[string]interface{}) {
	mu.Lock()
	defer mu.Unlock()
	inputs = in
	names = map[string]int{}
	limit = 0
}

// LoadFile reads the inputs from a counterexample file.
func LoadFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(6)
	}
	var d struct {
		Inputs map[string]interface{} `json:"inputs"`
		Tier   string                 `json:"tier"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		os.Exit(6)
	}
	Load(d.Inputs)
	tier = d.Tier
}

func get(n string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	v, ok := inputs[n]
	if !ok {
		return "", false
	}
	return fmt.Sprint(v), true
}

func num(n string) uint64 {
	s, ok := get(n)
	if !ok {
		return 0
	}
	if s == "true" {
		return 1
	}
	if s == "false" {
		return 0
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		return v
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(v)
	}
	f, _ := strconv.ParseFloat(s, 64)
	return uint64(f)
}

func U8(name string) uint8    { return uint8(num(name)) }
func U16(name string) uint16  { return uint16(num(name)) }
func U32(name string) uint32  { return uint32(num(name)) }
func U64(name string) uint64  { return num(name) }
func I8(name string) int8     { return int8(num(name)) }
func I16(name string) int16   { return int16(num(name)) }
func I32(name string) int32   { return int32(num(name)) }
func I64(name string) int64   { return int64(num(name)) }
func F64(name string) float64 { return math.Float64frombits(num(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(num(name))) }
func Bool(name string) bool   { return num(name) != 0 }
func Int(name string, lo, hi int) int {
	v := int(num(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	out := make([]byte, n)
	s, ok := get(name)
	if ok && len(s) >= 4 {
		b, _ := hex.DecodeString(s[4:])
		copy(out, b)
	}
	return out
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose picks one of 0..n-1.
func Choose(name string, n int) int {
	v := int(num(name))
	if v >= n {
		v = 0
	}
	return v
}

func Concrete(v int) int { return v }

func Assume(b bool) {
	if !b {
		fmt.Println("SYM: assumption does not hold")
		os.Exit(4)
	}
}

func checkAlloc() {
	if limit > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if int64(m.TotalAlloc-base) > limit {
			fmt.Printf("SYM: allocated %d bytes, limit %d\n", m.TotalAlloc-base, limit)
			os.Exit(5)
		}
	}
}

func Assert(b bool, msg string) {
	if !b {
		fmt.Println("SYM: assertion failed: " + msg)
		os.Exit(3)
	}
}

func Fail(msg string)  { Assert(false, msg) }
func Reach(tag string) {}
func Note(msg string)  {}

// Done is called when the harness returns.
func Done() { checkAlloc() }

// End ends the run at this point.
func End() {
	checkAlloc()
	fmt.Println("SYM: end")
	os.Exit(0)
}

func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// AllocLimit makes an allocation of more than n bytes a violation.
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base = m.TotalAlloc
	// the engine limits each single allocation; natively the total is
	// measured, so leave room for the small ones
	limit = int64(n) + 4<<20
}

// StepLimit makes running longer than n steps a violation.
// StepLimit also bounds the depth of recursion.
func StepLimit(n int) { debug.SetMaxStack(512 << 10) }

func Preempt(n int)    {}
func AllOrders(b bool) {}
func MapOrder(b bool)  {}
func TimerRace(n int)  {}
func Yield()           { runtime.Gosched() }
func Quiesce()         { time.Sleep(60 * time.Millisecond) }
func Now() int64       { return time.Now().UnixNano() }
func SetNow(n int64)   {}
func Blocked() int     { return 0 }
func Symbolic() bool   { return false }

// Left counts the goroutines besides the caller's.
func Left() int {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine() - 1
		if n == 0 || i == 50 {
			return n
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// Size measures what is reachable from v, objects of the harnesses left out;
// it is not known natively.
func Size(v interface{}) int { return 0 }

// DeepEq compares structurally; nil and empty slices and maps are equal and
// floats are compared by their bits.
func DeepEq(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	return deepEq(x, y, 0)
}

func deepEq(x, y reflect.Value, depth int) bool {
	if depth > 60 {
		return false
	}
	switch x.Kind() {
	case reflect.Ptr, reflect.Interface:
		if x.IsNil() || y.IsNil() {
			return x.IsNil() && y.IsNil()
		}
		if x.Kind() == reflect.Interface && x.Elem().Type() != y.Elem().Type() {
			return false
		}
		return deepEq(x.Elem(), y.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !deepEq(x.Field(i), y.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !deepEq(x.Index(i), y.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if x.Len() != y.Len() {
			return false
		}
		for _, k := range x.MapKeys() {
			v := y.MapIndex(k)
			if !v.IsValid() || !deepEq(x.MapIndex(k), v, depth+1) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	case reflect.Bool:
		return x.Bool() == y.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() == y.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return x.Uint() == y.Uint()
	case reflect.String:
		return x.String() == y.String()
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return x.Pointer() == y.Pointer()
	}
	return false
}

// Tier picks a bound by the tier of the run.
func Tier(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
