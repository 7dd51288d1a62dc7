//go:build go1.21

// Package nd is the vocabulary of the harnesses: nondeterministic inputs, assumptions and assertions.
// The symbolic executor gives these functions their symbolic meaning; the bodies below are used when a
// counterexample is replayed against the real code and read their values from the model file.
package nd

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/botlink/go-mavlink2/zzverif/sched"
)

type modelFile struct {
	Func   string            `json:"func"`
	Vars   map[string]uint64 `json:"vars"`
	Params map[string]int    `json:"params"`
	Delays []string          `json:"delays"`
}

var (
	model modelFile
	mu    sync.Mutex
	count = map[string]int{}
)

func load() {
	b, err := os.ReadFile(os.Getenv("ND_MODEL"))
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	if err := json.Unmarshal(b, &model); err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
}

// Timed tells whether the harness needs virtual time.
func Timed() bool {
	load()
	return model.Params["timed"] == 1
}

// Main runs the harness named in the model file.
func Main(m map[string]func()) {
	load()
	f := m[model.Func]
	if f == nil {
		fmt.Println("no harness", model.Func)
		os.Exit(5)
	}
	for _, d := range model.Delays {
		sched.Delay(d)
	}
	f()
	os.Exit(0)
}

func unique(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := count[name]
	count[name] = k + 1
	if k > 0 {
		return name + "~" + strconv.Itoa(k)
	}
	return name
}

func val(name string) uint64 { return model.Vars[unique(name)] }

// U8 and friends return an arbitrary value.
func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func I8(name string) int8    { return int8(val(name)) }
func I16(name string) int16  { return int16(val(name)) }
func I32(name string) int32  { return int32(val(name)) }
func I64(name string) int64  { return int64(val(name)) }
func Int(name string) int    { return int(val(name)) }
func Bool(name string) bool  { return val(name) != 0 }

// Symbolic tells whether the symbolic executor runs the code.
func Symbolic() bool { return false }

// Range returns an arbitrary value in lo..hi.
func Range(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(val(name))
	if v < lo || v > hi {
		os.Exit(4)
	}
	return v
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	base := unique(name + "[]")
	base = strings.Replace(base, "[]", "", 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", base, i)))
	}
	return b
}

// BytesUpTo returns between zero and n arbitrary bytes.
func BytesUpTo(name string, n int) []byte {
	l := int(val(name + ".len"))
	if l > n {
		os.Exit(4)
	}
	return Bytes(name, n)[:l]
}

// Choose returns a value in 0..n-1; every value is explored on paths of its own.
func Choose(name string, n int) int {
	k := int(val(name))
	if k >= n {
		os.Exit(4)
	}
	return k
}

// Concrete forks over the values of v.
func Concrete(v int) int { return v }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fmt.Println("assumption violated")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("ASSERTION FAILED:", msg)
		os.Exit(3)
	}
}

// Cover marks a place that must be reachable.
func Cover(label string) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}
func IteU16(c bool, a, b uint16) uint16 {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// EqBytes compares contents.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// EqStr compares strings.
func EqStr(a, b string) bool { return a == b }

// AsTarget stores err in *target when it has the type for it (errors.As without unwrapping).
func AsTarget(err error, target any) bool {
	v := reflect.ValueOf(target)
	if !reflect.TypeOf(err).AssignableTo(v.Type().Elem()) {
		return false
	}
	v.Elem().Set(reflect.ValueOf(err))
	return true
}

// At returns element i, zero when there is none.
func At(b []byte, i int) byte {
	if i < 0 || i >= len(b) {
		return 0
	}
	return b[i]
}

// Select is At for a symbolic index.
func Select(b []byte, i int) byte { return At(b, i) }

// SameMem tells whether two slices share a backing store.
func SameMem(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	return &a[len(a)-1] == &b[len(b)-1]
}

// Fill gives every field of *p an arbitrary value.
func Fill(name string, p any) { fill(name, reflect.ValueOf(p).Elem()) }

func fill(name string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(name+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(fmt.Sprintf("%s[%d]", name, i), v.Index(i))
		}
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int, reflect.Uint, reflect.Float32, reflect.Float64:
		setBits(v, val(name))
	}
}

func setBits(v reflect.Value, x uint64) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(x != 0)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(x & (^uint64(0) >> (64 - v.Type().Bits())))
	case reflect.Int8:
		v.SetInt(int64(int8(x)))
	case reflect.Int16:
		v.SetInt(int64(int16(x)))
	case reflect.Int32:
		v.SetInt(int64(int32(x)))
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(x))
	case reflect.Float32:
		*(v.Addr().Interface().(*float32)) = math.Float32frombits(uint32(x))
	case reflect.Float64:
		*(v.Addr().Interface().(*float64)) = math.Float64frombits(x)
	default:
		panic("setBits " + v.Kind().String())
	}
}

func bitsOf(v reflect.Value) uint64 {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return v.Uint()
	case reflect.Int8:
		return uint64(uint8(v.Int()))
	case reflect.Int16:
		return uint64(uint16(v.Int()))
	case reflect.Int32:
		return uint64(uint32(v.Int()))
	case reflect.Int64, reflect.Int:
		return uint64(v.Int())
	case reflect.Float32:
		if v.CanAddr() {
			return uint64(math.Float32bits(*(v.Addr().Interface().(*float32))))
		}
		return uint64(math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return math.Float64bits(v.Float())
	}
	panic("bitsOf " + v.Kind().String())
}

// Same compares *a and *b field by field; all NaNs are alike.
func Same(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() || x.Type() != y.Type() {
		return false
	}
	return same(x.Elem(), y.Elem())
}

func same(x, y reflect.Value) bool {
	switch x.Kind() {
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !same(x.Field(i), y.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			if !same(x.Index(i), y.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !same(x.Index(i), y.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		if math.IsNaN(x.Float()) || math.IsNaN(y.Float()) {
			return math.IsNaN(x.Float()) && math.IsNaN(y.Float())
		}
		return bitsOf(x) == bitsOf(y)
	}
	return reflect.DeepEqual(x.Interface(), y.Interface())
}

// SameType tells whether two values have the same dynamic type.
func SameType(a, b any) bool {
	return a != nil && b != nil && reflect.TypeOf(a) == reflect.TypeOf(b)
}

// NumField and the functions below look at the struct p points to.
func NumField(p any) int { return reflect.ValueOf(p).Elem().NumField() }

// FieldIndex returns the index of the named field or -1.
func FieldIndex(p any, name string) int {
	t := reflect.TypeOf(p).Elem()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == name {
			return i
		}
	}
	return -1
}

// FieldName returns the name of field i.
func FieldName(p any, i int) string { return reflect.TypeOf(p).Elem().Field(i).Name }

// FieldType returns the type of field i.
func FieldType(p any, i int) string { return reflect.TypeOf(p).Elem().Field(i).Type.String() }

// FieldBits returns the bits of element k of field i.
func FieldBits(p any, i, k int) uint64 {
	v := reflect.ValueOf(p).Elem().Field(i)
	if v.Kind() == reflect.Array {
		v = v.Index(k)
	}
	return bitsOf(v)
}

// SetFieldBits sets the bits of element k of field i.
func SetFieldBits(p any, i, k int, x uint64) {
	v := reflect.ValueOf(p).Elem().Field(i)
	if v.Kind() == reflect.Array {
		v = v.Index(k)
	}
	setBits(v, x)
}

// FieldPtr returns a pointer to the named field (used by models only).
func FieldPtr(p any, name string) any {
	return reflect.ValueOf(p).Elem().FieldByName(name).Addr().Interface()
}

// FieldAny returns the value of field i.
func FieldAny(p any, i int) any { return reflect.ValueOf(p).Elem().Field(i).Interface() }

// Param returns a bound set by the check.
func Param(name string, def int) int {
	if v, ok := model.Params[name]; ok {
		return v
	}
	return def
}

// Note records a fact about the current path for reports.
func Note(k, v string) {}

// Yield is a point where other goroutines may run.
func Yield() { sched.P("nd") }

// Event records an event for reports.
func Event(s string) {}

// Format renders like fmt.Sprintf.
func Format(f string, args []any) string { return fmt.Sprintf(f, args...) }

// FormatLn renders like fmt.Sprintln without the newline.
func FormatLn(args []any) string { s := fmt.Sprintln(args...); return s[:len(s)-1] }

// Catch runs f and returns what it panicked with.
func Catch(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func linesOf(text, label string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, label+":") {
			out = append(out, strings.TrimLeft(l[len(label)+1:], " \t"))
		}
	}
	return out
}

// Shows tells whether exactly n lines of text are labelled so and one of them shows v (and nothing but a unit after it).
func Shows(text, label string, v any, n int) bool {
	ls := linesOf(text, label)
	w := fmt.Sprintf("%v", v)
	for _, l := range ls {
		if strings.HasPrefix(l, w) {
			rest := l[len(w):]
			if rest == "" || rest[0] == ' ' || rest[0] == '\t' {
				return len(ls) == n
			}
		}
		if tells(l, v) {
			return len(ls) == n
		}
	}
	return false
}

// tells reads a number off a text that renders it in another way.
func tells(l string, v any) bool {
	token := strings.TrimLeft(strings.Fields(l + " .")[0], "+")
	switch x := v.(type) {
	case float32:
		f, err := strconv.ParseFloat(token, 32)
		return err == nil && float32(f) == x
	case float64:
		f, err := strconv.ParseFloat(token, 64)
		return err == nil && f == x
	}
	for _, base := range []int{0, 10} {
		if n, err := strconv.ParseInt(token, base, 64); err == nil && fmt.Sprint(n) == fmt.Sprint(v) {
			return true
		}
		if n, err := strconv.ParseUint(token, base, 64); err == nil && fmt.Sprint(n) == fmt.Sprint(v) {
			return true
		}
	}
	return false
}

// ShowsOnce is Shows for one line.
func ShowsOnce(text, label string, v any) bool { return Shows(text, label, v, 1) }

// ShowsNone tells whether no line is labelled so.
func ShowsNone(text, label string) bool { return len(linesOf(text, label)) == 0 }

// NumLines counts the non-empty lines.
func NumLines(text string) int {
	n := 0
	for _, l := range strings.Split(text, "\n") {
		if l != "" {
			n++
		}
	}
	return n
}

// BinSize, BinEncode and BinDecode stand for encoding/binary in the models.
func BinSize(v any) int { return binary.Size(v) }

// BinEncode encodes v.
func BinEncode(v any, big bool) []byte { panic("symbolic only") }

// BinDecode decodes b into v.
func BinDecode(b []byte, big bool, v any) { panic("symbolic only") }
