// Package sym is the harness API. Under symbolic execution its functions are
// interpreted by the engine; compiled natively they replay the recorded input
// values of one path against the real code.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Input is one recorded input value.
type Input struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	V     uint64 `json:"v"`
}

// Rec is what a native run produced.
type Rec struct {
	Violations []string `json:"violations"`
	KFs        []string `json:"kfs"`
	Obs        []string `json:"obs"`
	Reached    []string `json:"reached"`
	Assumed    bool     `json:"assumed"`
	Mismatch   string   `json:"mismatch"`
	ModelOnly  bool     `json:"model_only"`
}

var (
	mu     sync.Mutex
	inputs []Input
	next   int
	rec    Rec
	// Sched is the recorded schedule of a concurrent replay.
	Sched []string
)

type stopRun struct{ assumed bool }

func take(label string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	if next >= len(inputs) {
		if rec.Mismatch == "" {
			rec.Mismatch = "no more inputs at " + label
		}
		return 0
	}
	in := inputs[next]
	if in.Label != label && rec.Mismatch == "" {
		rec.Mismatch = "input " + in.Label + " wanted " + label
	}
	next++
	return in.V
}

func U64(label string) uint64                      { return take(label) }
func I64(label string) int64                       { return int64(take(label)) }
func U32(label string) uint32                      { return uint32(take(label)) }
func U8(label string) uint8                        { return uint8(take(label)) }
func Bool(label string) bool                       { return take(label) == 1 }
func Int(label string, lo, hi int) int             { return int(take(label)) }
func I64R(label string, lo, hi int64) int64        { return int64(take(label)) }
func U64R(label string, lo, hi uint64) uint64      { return take(label) }
func Choose(label string, n int) int               { return int(take(label)) }
func StrR(label string, n int, lo, hi byte) string { return Str(label, n) }

// Str is text of exactly n bytes.
func Str(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take(fmt.Sprintf("%s[%d]", label, i)))
	}
	return string(b)
}

// Atom is an opaque piece of text.
func Atom(label string) string { return "atom" + strconv.FormatUint(take(label), 10) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stopRun{true})
	}
}

// Stop ends the path.
func Stop() { panic(stopRun{true}) }

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		rec.Violations = append(rec.Violations, msg)
		mu.Unlock()
		panic(stopRun{false})
	}
}

// AssertKF is Assert where failures within pred are the listed finding id.
func AssertKF(c bool, msg, id string, pred bool) {
	if !c {
		mu.Lock()
		if pred {
			rec.KFs = append(rec.KFs, id+": "+msg)
		} else {
			rec.Violations = append(rec.Violations, msg)
		}
		mu.Unlock()
		panic(stopRun{false})
	}
}

// Observe records a value that must be the same natively and symbolically.
func Observe(label string, v any) {
	mu.Lock()
	rec.Obs = append(rec.Obs, label+"="+render(reflect.ValueOf(v), 6))
	mu.Unlock()
}

// Reach marks a point that some path must reach.
func Reach(label string) {
	mu.Lock()
	rec.Reached = append(rec.Reached, label)
	mu.Unlock()
}

func Symbolic() bool { return false }

var deep bool

// Deep tells whether the larger bounds of the thorough tier apply.
func Deep() bool { return deep }

// SetDeep is used by native replays.
func SetDeep(d bool) { deep = d }

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteI64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func Implies(a, b bool) bool     { return !a || b }
func StrEq(a, b string) bool     { return a == b }
func BytesEq(a, b []byte) bool   { return bytes.Equal(a, b) }
func AnyMapOrder()               {}
func Yield()                     { runtime.Gosched() }
func Concurrent(preemptions int) {}
func Sequential()                {}

var mainG string

func gid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

// IsMain tells whether the harness itself is running.
func IsMain() bool {
	mu.Lock()
	defer mu.Unlock()
	return mainG == gid()
}

// ErrIn is the error held in a field of v, a struct or pointer to one.
func ErrIn(v any) error {
	x := reflect.ValueOf(v)
	if x.Kind() == reflect.Pointer {
		if x.IsNil() {
			return nil
		}
		x = x.Elem()
	}
	if x.Kind() != reflect.Struct {
		return nil
	}
	et := reflect.TypeOf((*error)(nil)).Elem()
	for i := 0; i < x.NumField(); i++ {
		if x.Type().Field(i).Type == et {
			f := x.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(et, unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			if f.IsNil() {
				return nil
			}
			return f.Interface().(error)
		}
	}
	return nil
}

// WaitUntil blocks until f holds.
func WaitUntil(f func() bool) {
	for i := 0; i < 20000; i++ {
		if f() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	panic("WaitUntil: timeout")
}

// Try runs f and returns the text of its panic, if any.
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopRun); ok {
				panic(s)
			}
			msg = fmt.Sprint(r)
			if e, ok := r.(error); ok {
				msg = e.Error()
			}
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Exits is Try for code that may end the process (symbolic only).
func Exits(f func()) string { return Try(f) }

// RunBackground waits until the goroutines of the code under test are blocked.
func RunBackground() {
	same := 0
	last := ""
	for i := 0; i < 4000; i++ {
		time.Sleep(500 * time.Microsecond)
		busy, snap := busyGoroutines()
		if !busy && snap == last {
			same++
			if same >= 3 {
				return
			}
		} else {
			same = 0
		}
		last = snap
	}
}

func busyGoroutines() (bool, string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	busy := false
	var snap strings.Builder
	for i, g := range strings.Split(string(buf[:n]), "\n\n") {
		if i == 0 || !strings.Contains(g, "kgantsov/doq") {
			continue
		}
		h, _, _ := strings.Cut(g, "\n")
		a, b := strings.Index(h, "["), strings.Index(h, "]")
		if a < 0 || b < a {
			continue
		}
		st := strings.Split(h[a+1:b], ",")[0]
		snap.WriteString(h[:a] + st + ";")
		switch st {
		case "select", "chan receive", "chan send", "semacquire", "sync.Cond.Wait", "sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "chan receive (nil chan)", "select (no cases)", "IO wait":
		default:
			busy = true
		}
	}
	return busy, snap.String()
}

func render(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d == 0 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, render(v.Field(i), d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Slice:
		if v.IsNil() {
			return "[]"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(v.Bytes()))
		}
		fallthrough
	case reflect.Array:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i), d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render(v.Elem(), d-1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem(), d)
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, render(k, d-1)+":"+render(v.MapIndex(k), d-1))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	}
	return v.Kind().String()
}

// Case is a recorded path.
type Case struct {
	Harness string   `json:"harness"`
	Inputs  []Input  `json:"inputs"`
	Sched   []string `json:"sched"`
	Model   bool     `json:"model"`
	Deep    bool     `json:"deep"`
}

// ModelOnly declares that the harness needs the modelled store.
func ModelOnly() {
	mu.Lock()
	real := realStore
	if real {
		rec.ModelOnly = true
	}
	mu.Unlock()
	if real {
		panic(stopRun{true})
	}
}

var realStore bool

// Exit, when set by the environment models, is called instead of os.Exit.
var Exit = func(why string) {
	mu.Lock()
	rec.Violations = append(rec.Violations, "the process exits: "+why)
	mu.Unlock()
	panic(stopRun{false})
}

// RunCase replays one recorded path against the compiled code.
func RunCase(c *Case, fn func(), reset func()) *Rec {
	mu.Lock()
	inputs, next, rec = c.Inputs, 0, Rec{}
	Sched = c.Sched
	mu.Unlock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		mu.Lock()
		mainG = gid()
		mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stopRun); ok {
					mu.Lock()
					rec.Assumed = s.assumed
					mu.Unlock()
					return
				}
				mu.Lock()
				rec.Violations = append(rec.Violations, fmt.Sprintf("panic: %v", r))
				mu.Unlock()
				if os.Getenv("SYM_TRACE") != "" {
					buf := make([]byte, 1<<16)
					os.Stderr.Write(buf[:runtime.Stack(buf, false)])
				}
			}
		}()
		fn()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		mu.Lock()
		rec.Violations = append(rec.Violations, "deadlock: no goroutine can proceed (timeout)")
		mu.Unlock()
	}
	if reset != nil {
		reset()
	}
	mu.Lock()
	defer mu.Unlock()
	r := rec
	return &r
}

// Main replays the cases of os.Args[1] and writes a record per line to os.Args[2].
func Main(fns map[string]func(), setReal func(bool), reset func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []*Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	for _, c := range cs {
		deep = c.Deep
		realStore = !c.Model
		setReal(!c.Model)
		r := RunCase(c, fns[c.Harness], reset)
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	out.Close()
	os.Exit(0)
}

// Long is a text of n printable characters without a period.
func Long(n int) string {
	s := ""
	for c := 'a'; len(s) < n; c++ {
		s = s + string(c) + s
	}
	return s[:n]
}

// NotNative says that this path cannot be run by the compiled code (a call the
// models replace goes through an interface), so that it is no sample.
func NotNative() {}
