// Package sym is the interface between the harnesses and the symbolic executor. The executor intercepts the functions
// of this package; compiled natively they read the concrete values of a counterexample, so that the same harness replays
// it against the real code.
package sym

import (
	"fmt"
	"sync"

	"golang.org/x/crypto/blake2b"
)

// Vals are the concrete values of a native run.
type Vals struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Values  map[string]uint64 `json:"values"`
}

// Outcome of a native run.
type Outcome struct {
	Harness string   `json:"harness"`
	Fail    string   `json:"fail,omitempty"`
	Panic   string   `json:"panic,omitempty"`
	Known   string   `json:"known,omitempty"`
	Skipped bool     `json:"skipped,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Stack   string   `json:"stack,omitempty"`
}

var (
	mu    sync.Mutex
	vals  Vals
	names map[string]int
	out   Outcome
)

type stop struct{}

// Run executes a harness natively with the given values.
func Run(v Vals, f func()) (o Outcome) {
	vals, names, out = v, map[string]int{}, Outcome{Harness: v.Harness}
	done := false
	defer func() {
		r := recover()
		if r == nil && !done {
			r = "nil" // panic(nil)
		}
		if r != nil {
			if _, ok := r.(stop); !ok {
				out.Panic = fmt.Sprint(r)
				out.Stack = stack()
			}
		}
		o = out
	}()
	f()
	done = true
	return out
}

func value(name string) uint64 {
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	return vals.Values[name]
}

func Byte(name string) byte     { return byte(value(name)) }
func Bool(name string) bool     { return value(name) != 0 }
func Uint16(name string) uint16 { return uint16(value(name)) }
func Uint32(name string) uint32 { return uint32(value(name)) }
func Uint64(name string) uint64 { return value(name) }

// Choice is one of 0..n-1, explored one by one.
func Choice(name string, n int) int {
	v := int(value(name))
	if v < 0 || v >= n {
		panic(stop{})
	}
	return v
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return r
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		out.Skipped = true
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		out.Fail = label
		panic(stop{})
	}
}

// Finding reports the listed known finding id if violated holds, and excludes the case.
func Finding(id string, violated bool) {
	if violated {
		out.Known = id
		panic(stop{})
	}
}

// Cover marks a point which must be reachable.
func Cover(label string) {}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Thorough tells the tier of the run.
func Thorough() bool { return vals.Tier == "thorough" }

// Bound is q in the quick tier and t in the thorough tier.
func Bound(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// MapOrder makes the executor explore n further iteration orders of every map of two or more entries.
func MapOrder(n int) {}

// MaxAlloc bounds the sizes of allocations which depend on symbolic data; larger ones are represented by one value.
func MaxAlloc(n int) {}

// Observe compares values between the symbolic and the native run.
func Observe(name string, b []byte) {
	out.Obs = append(out.Obs, fmt.Sprintf("%s=%x", name, b))
}
func ObserveInt(name string, v int) {
	out.Obs = append(out.Obs, fmt.Sprintf("%s=%d", name, v))
}
func ObserveBool(name string, v bool) {
	out.Obs = append(out.Obs, fmt.Sprintf("%s=%v", name, v))
}

// Hash is the hash function of n bytes, ideal in the symbolic run.
func Hash(data []byte, n int) []byte {
	if n == 32 {
		r := blake2b.Sum256(data)
		return r[:]
	}
	h, err := blake2b.New(n, nil)
	if err != nil {
		panic(err)
	}
	h.Write(data)
	return h.Sum(nil)
}

// Pure states that f writes to no memory that exists before the call and is reachable from the roots, the environment of f or
// global variables. Natively f runs twice concurrently, for the race detector.
func Pure(label string, f func(), roots ...interface{}) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}

// Symbolic tells whether the symbolic executor is running.
func Symbolic() bool { return false }
