// Package sym is the harness interface of the symbolic checker. The checker
// interprets these functions itself; the bodies below are used only to replay
// a concrete assignment natively.
package sym

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Failure is raised by a failed assertion.
type Failure struct{ Tag, Where string }

// Unfit is raised when an assumption is false under the assignment.
type Unfit struct{ Where string }

// Obs is one observation.
type Obs struct {
	K string `json:"k"`
	V string `json:"v"`
}

var (
	mu      sync.Mutex
	assign  map[string]uint64
	params  map[string]int64
	counts  map[string]int
	trace   []Obs
	reached map[string]bool
	failed  *Failure
	rng     *rand.Rand
	scratch string
)

// Fill makes inputs that the assignment does not mention take pseudo-random
// values, which are added to the assignment.
func Fill(seed int64) {
	mu.Lock()
	defer mu.Unlock()
	rng = nil
	if seed != 0 {
		rng = rand.New(rand.NewSource(seed))
		if assign == nil {
			assign = map[string]uint64{}
		}
	}
}

// Assigned returns the assignment.
func Assigned() map[string]uint64 {
	mu.Lock()
	defer mu.Unlock()
	m := make(map[string]uint64, len(assign))
	for k, v := range assign {
		m[k] = v
	}
	return m
}

// Reset installs an assignment.
func Reset(a map[string]uint64, p map[string]int64) {
	mu.Lock()
	defer mu.Unlock()
	assign, params = a, p
	counts = map[string]int{}
	trace = nil
	reached = map[string]bool{}
	failed = nil
}

// Trace returns the observations so far.
func Trace() []Obs {
	mu.Lock()
	defer mu.Unlock()
	return append([]Obs(nil), trace...)
}

// Failed returns the first failed assertion, even when its panic was
// swallowed by the code under test.
func Failed() *Failure {
	mu.Lock()
	defer mu.Unlock()
	return failed
}

func label(l string) string {
	mu.Lock()
	defer mu.Unlock()
	n := counts[l]
	counts[l] = n + 1
	if n == 0 {
		return l
	}
	return fmt.Sprintf("%s#%d", l, n)
}

func get(l string, n uint64) uint64 {
	l = label(l)
	mu.Lock()
	defer mu.Unlock()
	return lookup(l, n)
}

func lookup(l string, n uint64) uint64 {
	v, ok := assign[l]
	if !ok && rng != nil && n > 0 {
		v = rng.Uint64()
		if n != 1<<63 {
			v %= n
		} else if rng.Intn(3) > 0 {
			v %= 5
		}
		assign[l] = v
	}
	return v
}

// Bool is a symbolic boolean.
func Bool(l string) bool { return get(l, 2) == 1 }

// Byte is a symbolic byte.
func Byte(l string) byte { return byte(get(l, 256)) }

// Int is an unconstrained symbolic int.
func Int(l string) int { return int(get(l, 1<<63)) }

// Uint is an unconstrained symbolic uint.
func Uint(l string) uint { return uint(get(l, 1<<63)) }

// Range is a symbolic int in lo..hi.
func Range(l string, lo, hi int) int { return lo + int(get(l, uint64(hi-lo+1))) }

// Pick is a value of 0..n-1, one path for each.
func Pick(l string, n int) int { return int(get(l, uint64(n))) }

// Pause gives other goroutines the opportunity to run.
func Pause() { time.Sleep(2 * time.Millisecond) }

// Point is inserted into the code under test, where native runs of schedules
// need help: it may pause for a short time.
func Point() {
	if jitter == nil {
		return
	}
	mu.Lock()
	d := 0
	if jitter.Intn(3) == 0 {
		d = jitter.Intn(8)
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}

var jitter = func() *rand.Rand {
	var seed int64
	if _, err := fmt.Sscan(os.Getenv("VERIF_PERTURB"), &seed); err != nil {
		return nil
	}
	return rand.New(rand.NewSource(seed))
}()

// Conc forces one path per value of v.
func Conc(v int) int { return v }

// ConcBool forces one path per value of v.
func ConcBool(v bool) bool { return v }

// Str is a string of n symbolic bytes drawn from the character set.
func Str(l string, n int, charset string) string {
	base := label(l)
	b := make([]byte, n)
	mu.Lock()
	defer mu.Unlock()
	for i := range b {
		k := fmt.Sprintf("%s[%d]", base, i)
		if _, ok := assign[k]; !ok && rng != nil && charset != "" {
			assign[k] = uint64(charset[rng.Intn(len(charset))])
		}
		b[i] = byte(assign[k])
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Unfit{where()})
	}
}

// Assert states the property.
func Assert(c bool, tag string) {
	if !c {
		f := Failure{tag, where()}
		mu.Lock()
		if failed == nil {
			failed = &f
		}
		mu.Unlock()
		panic(f)
	}
}

func where() string {
	_, file, line, _ := runtime.Caller(2)
	return fmt.Sprintf("%s:%d", file[strings.LastIndex(file, "/")+1:], line)
}

// Observe records values for comparison with the native run.
func Observe(k string, vals ...any) {
	s := make([]string, len(vals))
	for i, v := range vals {
		s[i] = show(v)
	}
	mu.Lock()
	trace = append(trace, Obs{k, strings.Join(s, " ")})
	mu.Unlock()
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case []string:
		return "[" + strings.Join(x, " ") + "]"
	}
	return fmt.Sprint(v)
}

// Scratch is a directory for this run's files.
func Scratch() string {
	mu.Lock()
	defer mu.Unlock()
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-scratch-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

// Tidy removes the files of the last run.
func Tidy() {
	mu.Lock()
	defer mu.Unlock()
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// Reach marks a point that must be reachable.
func Reach(tag string) {
	mu.Lock()
	reached[tag] = true
	mu.Unlock()
}

// Param is a bound.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return int(v)
	}
	return def
}

// Symbolic tells whether the checker is interpreting.
func Symbolic() bool { return false }

// And is a conjunction that does not fork.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not fork.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Implies does not fork.
func Implies(a, b bool) bool { return !a || b }

// Iff does not fork.
func Iff(a, b bool) bool { return a == b }

// IteInt does not fork.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// LtStr compares strings without forking.
func LtStr(a, b string) bool { return a < b }
