// Package zzvrt is the harness runtime. Symbolically its functions are
// intercepted by the engine; natively they replay one recorded trace.
package zzvrt

import (
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Trace is one concrete execution found by the engine.
type Trace struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Tape    map[string]string `json:"tape"`
	Sched   []int             `json:"sched"`
	Clocks  []int64           `json:"clocks"`
	Obs     []string          `json:"obs"`
	Tier    string            `json:"tier"`
}

// Result of a native replay.
type Result struct {
	Status string   `json:"status"` // ok, fail, panic, deadlock, mismatch
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type failure struct {
	status, msg string
}

type state struct {
	tr       *Trace
	seq      map[string]int
	obs      []string
	clock    int64
	hasClock bool
	free     bool
	clockPos int
	dir      string
}

var st *state

func stop(status, msg string) {
	setFail(status, msg)
	panic(failure{status, msg})
}

func input(name string) string {
	k := st.seq[name]
	st.seq[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := st.tr.Tape[name]
	if !ok {
		stop("mismatch", "no input "+name)
	}
	return v
}

func inputInt(name string) int64 {
	v, err := strconv.ParseInt(input(name), 10, 64)
	if err != nil {
		stop("mismatch", err.Error())
	}
	return v
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(inputInt(name)) }

// Bool is any boolean.
func Bool(name string) bool { return input(name) == "true" }

// Byte is any byte in [lo,hi].
func Byte(name string, lo, hi byte) byte { return byte(inputInt(name)) }

// Float is any float64, including NaN and infinities.
func Float(name string) float64 {
	b, err := strconv.ParseUint(input(name), 16, 64)
	if err != nil {
		stop("mismatch", err.Error())
	}
	return math.Float64frombits(b)
}

// Str is any string with a length in [min,max] and bytes in [lo,hi].
func Str(name string, min, max int, lo, hi byte) string {
	b, err := hex.DecodeString(input(name))
	if err != nil {
		stop("mismatch", err.Error())
	}
	return string(b)
}

// Choose is any integer in [0,n); explored as separate paths.
func Choose(name string, n int) int { return int(inputInt(name)) }

// Bound gives a bound of the exploration by tier.
func Bound(name string, quick, thorough int) int {
	if st.tr.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Thorough tells the tier.
func Thorough() bool { return st.tr.Tier == "thorough" }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		stop("mismatch", "assumption is false")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		stop("fail", msg)
	}
}

// Cover records that a point is reachable.
func Cover(label string) {}

// Note records an assumption.
func Note(text string) {}

// And, Or, Imp and Ite combine conditions without splitting paths.
func And(a, b bool) bool { return a && b }

// Or is a || b.
func Or(a, b bool) bool { return a || b }

// Imp is a implies b.
func Imp(a, b bool) bool { return !a || b }

// Ite selects without splitting paths.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Observe records values that must agree between the symbolic and the native run.
func Observe(v ...interface{}) {
	for _, x := range v {
		st.obs = append(st.obs, render(reflect.ValueOf(x)))
	}
}

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if t, ok := v.Interface().(time.Time); ok {
		return fmt.Sprintf("t:%d", instant(t))
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint8:
		return fmt.Sprint(int8(v.Uint()))
	case reflect.Uint16:
		return fmt.Sprint(int16(v.Uint()))
	case reflect.Uint32:
		return fmt.Sprint(int32(v.Uint()))
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(int64(v.Uint()))
	case reflect.Float64:
		if v.Float() != v.Float() {
			return "f64:nan"
		}
		return fmt.Sprintf("f64:%016x", math.Float64bits(v.Float()))
	case reflect.Float32:
		return fmt.Sprintf("f32:%08x", math.Float32bits(float32(v.Float())))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Interface:
		return render(v.Elem())
	case reflect.Slice, reflect.Array:
		var r []string
		for i := 0; i < v.Len(); i++ {
			r = append(r, render(v.Index(i)))
		}
		return "[" + strings.Join(r, " ") + "]"
	case reflect.Map:
		var r []string
		for _, k := range v.MapKeys() {
			r = append(r, render(k)+":"+render(v.MapIndex(k)))
		}
		sort.Strings(r)
		return "map[" + strings.Join(r, " ") + "]"
	}
	return "<?>"
}

func instant(t time.Time) int64 { return t.Unix()*1000000000 + int64(t.Nanosecond()) }

// ---- clock

func initClock() {
	if !st.hasClock {
		st.hasClock = true
		st.clock = inputInt("clock0")
	}
}

// Advance moves the clock.
func Advance(d time.Duration) {
	initClock()
	st.clock += int64(d)
}

// FreeRun lets every reading of the clock return any later instant.
func FreeRun() {
	initClock()
	st.free = true
}

// Now is the current instant of the replayed clock.
func Now() time.Time {
	initClock()
	return time.Unix(0, st.clock)
}

// Time is any instant.
func Time(name string) time.Time { return time.Unix(0, inputInt(name)) }

// XNow replaces time.Now in the code under test.
func XNow() time.Time {
	if st == nil {
		return time.Now()
	}
	initClock()
	if st.free {
		if st.clockPos < len(st.tr.Clocks) {
			st.clock = st.tr.Clocks[st.clockPos]
			st.clockPos++
		}
	}
	return time.Unix(0, st.clock)
}

// XSince replaces time.Since.
func XSince(t time.Time) time.Duration { return XNow().Sub(t) }

// XUntil replaces time.Until.
func XUntil(t time.Time) time.Duration { return t.Sub(XNow()) }

// XSleep replaces time.Sleep.
func XSleep(d time.Duration) {
	initClock()
	if !st.free {
		st.clock += int64(d)
	}
	Yield()
}

// ---- files

// File is a readable file with the given content.
func File(name, content string) string {
	p := filepath.Join(st.dir, name)
	if err := ioutil.WriteFile(p, []byte(content), 0644); err != nil {
		stop("mismatch", err.Error())
	}
	return p
}

// NoFile is a path that cannot be opened.
func NoFile(name string) string { return filepath.Join(st.dir, "missing", name) }

// DirFile is a path that can be opened but not read.
func DirFile(name string) string {
	p := filepath.Join(st.dir, name)
	if err := os.MkdirAll(p, 0755); err != nil {
		stop("mismatch", err.Error())
	}
	return p
}

// MapOrder selects how map iteration orders are explored.
func MapOrder(mode int) {}

// Preempt bounds the number of preemptions per interleaving.
func Preempt(n int) {}

// Run replays a trace.
func Run(h func(), tr *Trace) (res Result) {
	dir, err := ioutil.TempDir(os.Getenv("VRT_DIR"), "files")
	if err != nil {
		return Result{Status: "mismatch", Msg: err.Error()}
	}
	defer os.RemoveAll(dir)
	log.SetOutput(ioutil.Discard)
	st = &state{tr: tr, seq: map[string]int{}, dir: dir}
	schedReset(tr.Sched)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case failure, killed:
				default:
					setFail("panic", fmt.Sprint(x))
				}
			}
			schedTeardown()
		}()
		h()
		Join()
	}()
	res.Status, res.Msg = schedResult()
	res.Obs = st.obs
	st = nil
	return res
}
