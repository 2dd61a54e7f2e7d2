// Package sym is the harness vocabulary. Under the symbolic engine these
// functions are intrinsics; this implementation replays one concrete model
// natively against the real code.
package sym

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// Run is one concrete replay.
type Run struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Choices map[string]int    `json:"choices"`
	Tier    int               `json:"tier"`
}

// Result of a replay.
type Result struct {
	Obs      []string `json:"obs"`
	Reach    []string `json:"reach"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
	Assumed  bool     `json:"assume_failed"`
	OverUse  uint64   `json:"over_alloc"`
	Complete bool     `json:"complete"`
}

var cur Run
var res *Result
var names map[string]int
var traceHook func(bool)

func OnTrace(f func(bool)) { traceHook = f }

type assumeFailed struct{}

// Exec runs f under the model.
func Exec(r Run, f func()) (out *Result) {
	cur = r
	res = &Result{}
	names = map[string]int{}
	out = res
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFailed); ok {
				out.Assumed = true
				return
			}
			out.Panic = fmt.Sprint(x)
			buf := make([]byte, 8192)
			out.Stack = string(buf[:runtime.Stack(buf, false)])
		} else if !out.Complete {
			out.Panic = "panic(nil)"
		}
	}()
	f()
	out.Complete = true
	return
}

func key(name string) string {
	n := names[name]
	names[name]++
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func get(name string) uint64 { return cur.Model[key(name)] }

func U8(name string) uint8       { return uint8(get(name)) }
func U16(name string) uint16     { return uint16(get(name)) }
func U32(name string) uint32     { return uint32(get(name)) }
func U64(name string) uint64     { return get(name) }
func I8(name string) int8        { return int8(get(name)) }
func I16(name string) int16      { return int16(get(name)) }
func I32(name string) int32      { return int32(get(name)) }
func I64(name string) int64      { return int64(get(name)) }
func Int(name string) int        { return int(get(name)) }
func Uint(name string) uint      { return uint(get(name)) }
func F32(name string) float32    { return math.Float32frombits(uint32(get(name))) }
func F64(name string) float64    { return math.Float64frombits(get(name)) }
func Bool(name string) bool      { return get(name) != 0 }
func Concretize(n uint64) uint64 { return n }

func Bytes(name string, n int) []byte {
	k := key(name)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(cur.Model[fmt.Sprintf("%s.%d", k, i)])
	}
	return out
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func Choose(name string, n int) int { return cur.Choices[key(name)] }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		res.Failed = append(res.Failed, msg)
		panic(assertFailed(msg))
	}
}

type assertFailed string

func Reach(tag string) { res.Reach = append(res.Reach, tag) }

func Observe(name string, v interface{}) {
	res.Obs = append(res.Obs, name+"="+render(reflect.ValueOf(v), 0))
}

func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}
func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}
func Not(x bool) bool    { return !x }
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// Eq is structural equality: nil and empty slices/maps are equal, floats compare by bits.
func Eq(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return deepEq(reflect.ValueOf(a), reflect.ValueOf(b))
}

func BytesEq(a, b []byte) bool  { return bytes.Equal(a, b) }
func StrEq(a, b string) bool    { return a == b }
func Tier() int                 { return cur.Tier }
func MapOrder(on bool)          {}
func Symbolic() bool            { return false }
// Native: whether this is the compiled program (a replay) rather than the engine.
func Native() bool { return true }

func WithSteps(n int, f func()) { f() }
func SetTrace(on bool) {
	if traceHook != nil {
		traceHook(on)
	}
}

// Race: replay the operations of Par at the same time, many times (set in the race-detector build).
var Race = false

// Par: two operations on separate data that may run at the same time; check looks at their results.
func Par(f, g, check func()) {
	if !Race {
		f()
		g()
		check()
		return
	}
	for i := 0; i < 400; i++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, op := range []func(){f, g} {
			wg.Add(1)
			go func(op func()) {
				defer wg.Done()
				<-start
				op()
			}(op)
		}
		close(start)
		wg.Wait()
		check()
	}
}

// WithTotal: the engine asserts that f does not allocate more than limit bytes in all.
func WithTotal(limit int, f func()) { WithAlloc(limit, f) }

// WithAlloc: the engine asserts that no single allocation in f exceeds limit bytes.
func WithAlloc(limit int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	defer func() {
		runtime.ReadMemStats(&b)
		if d := b.TotalAlloc - a.TotalAlloc; d > uint64(limit) {
			res.OverUse = d
		}
	}()
	f()
}

// DecText is the decimal text of the 192-bit number.
func DecText(top, hi, lo uint64) string {
	v := new(big.Int).SetUint64(top)
	v.Or(v.Lsh(v, 64), new(big.Int).SetUint64(hi))
	v.Or(v.Lsh(v, 64), new(big.Int).SetUint64(lo))
	return v.String()
}

// ParseDec: value of decimal text as 128 bits.
func ParseDec(s string) (neg bool, hi, lo uint64, ok bool) {
	t := s
	if strings.HasPrefix(t, "-") {
		neg = true
		t = t[1:]
	}
	if t == "" {
		return neg, 0, 0, false
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return neg, 0, 0, false
		}
	}
	v, _ := new(big.Int).SetString(t, 10)
	m := new(big.Int).SetUint64(^uint64(0))
	lo = new(big.Int).And(v, m).Uint64()
	hi = new(big.Int).And(new(big.Int).Rsh(v, 64), m).Uint64()
	return neg, hi, lo, v.BitLen() <= 128
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func render(v reflect.Value, depth int) string {
	if depth > 600 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	if depth == 0 && v.Type().Implements(errT) {
		return "err"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32:
		if v.Float() != v.Float() {
			return "fnan"
		}
		return fmt.Sprintf("f%x", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		if v.Float() != v.Float() {
			return "fnan"
		}
		return fmt.Sprintf("f%x", math.Float64bits(v.Float()))
	case reflect.String:
		return fmt.Sprintf("s:%x", v.String())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			var sb strings.Builder
			sb.WriteString("s:")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(&sb, "%02x", v.Index(i).Uint())
			}
			return sb.String()
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, render(v.Index(i), depth+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		var parts []string
		for i := 0; i < v.NumField(); i++ {
			parts = append(parts, render(v.Field(i), depth+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Elem().Type().Implements(errT) {
			return "err"
		}
		return render(v.Elem(), depth+1)
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, render(k, depth+1)+":"+render(v.MapIndex(k), depth+1))
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	}
	return "?" + v.Kind().String()
}

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() || !deepEq(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	}
	panic("sym.Eq: " + a.Kind().String())
}

// shaHash stands for crypto/sha256.New under the engine: it collects the data and hashes it in one step.
type shaHash struct{ buf []byte }

// NewSHA256 is what the engine runs for crypto/sha256.New.
func NewSHA256() hash.Hash { return &shaHash{} }

func (h *shaHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}

func (h *shaHash) WriteString(s string) (int, error) {
	h.buf = append(h.buf, s...)
	return len(s), nil
}

func (h *shaHash) Sum(b []byte) []byte {
	s := sha256.Sum256(h.buf)
	return append(b, s[:]...)
}

func (h *shaHash) Reset()         { h.buf = nil }
func (h *shaHash) Size() int      { return 32 }
func (h *shaHash) BlockSize() int { return 64 }
