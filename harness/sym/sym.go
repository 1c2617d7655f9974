// Package sym is the interface between harnesses and the symbolic executor. Under the executor every
// function here is an intrinsic; compiled natively it reads concrete values from a replay vector.
package sym

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
)

type run struct {
	vec     map[string]string
	count   map[string]int
	prop    string
	stopOn  bool
	failed  []string
	obs     []string
	missing []string
	thor    bool
}

var cur = &run{count: map[string]int{}}

type stop struct{ assumed bool }

// Result of a native run.
type Result struct {
	ID      int      `json:"id"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"`
	Obs     []string `json:"obs"`
	Missing []string `json:"missing"`
	// TimedOut is set if the harness did not end.
	TimedOut bool `json:"timed_out"`
}

// Run executes a harness natively on a vector. With stopOn, the first failed assertion of prop ends it.
func Run(f func(), vec map[string]string, prop string, stopOn, thorough bool) (r Result) {
	cur = &run{vec: vec, count: map[string]int{}, prop: prop, stopOn: stopOn, thor: thorough}
	saved := rand.Reader
	rand.Reader = Reader("rand")
	defer func() {
		rand.Reader = saved
		if p := recover(); p != nil {
			if s, ok := p.(stop); ok {
				r.Assumed = s.assumed
			} else {
				r.Panic = fmt.Sprint(p)
			}
		}
		r.Failed, r.Obs, r.Missing = cur.failed, cur.obs, cur.missing
	}()
	f()
	return
}

func get(name string, n int) []byte {
	k := cur.count[name]
	cur.count[name]++
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	b := make([]byte, n)
	v, ok := cur.vec[full]
	if !ok {
		cur.missing = append(cur.missing, full)
		return b
	}
	x, _ := hex.DecodeString(v)
	if len(x) != n {
		cur.missing = append(cur.missing, full+" (size)")
		return b
	}
	copy(b, x)
	return b
}

// Bytes is arbitrary data of the given size (not secret, not attacker-guessed).
func Bytes(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	return get(name, n)
}

// Fresh is honest randomness: unguessable and distinct from everything else.
func Fresh(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	return get(name, n)
}

// Adversary is data chosen by an attacker who knows what was released.
func Adversary(name string, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	return get(name, n)
}

func Uint32(name string) uint32 {
	b := get(name, 4)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func Uint64(name string) uint64 {
	b := get(name, 8)
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func Byte(name string) byte { return get(name, 1)[0] }
func Bool(name string) bool { return get(name, 1)[0] == 1 }

// Choose is a nondeterministic choice out of n.
func Choose(name string, n int) int {
	b := get(name, 4)
	v := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	if v >= n {
		cur.missing = append(cur.missing, name+" (range)")
		return 0
	}
	return v
}

func Assume(c bool) {
	if !c {
		panic(stop{true})
	}
}

// Assert states property prop (or several, as in "C01|C10"). It is only evaluated by the checks of these.
func Assert(prop string, c bool, msg string) {
	if c {
		return
	}
	for _, q := range strings.Split(prop, "|") {
		if q == cur.prop {
			prop = q
		}
	}
	cur.failed = append(cur.failed, prop+": "+msg)
	if cur.stopOn && (prop == cur.prop || prop == "") {
		panic(stop{false})
	}
}

func Equal(a, b []byte) bool { return string(a) == string(b) }
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }

// Release makes bytes known to the attacker.
func Release(bs ...[]byte) {}

func ObserveBytes(label string, b []byte) { cur.obs = append(cur.obs, label+"="+hex.EncodeToString(b)) }
func ObserveString(label string, b string) {
	cur.obs = append(cur.obs, label+"="+hex.EncodeToString([]byte(b)))
}
func ObserveBool(label string, b bool) {
	if b {
		cur.obs = append(cur.obs, label+"=01")
	} else {
		cur.obs = append(cur.obs, label+"=00")
	}
}
func ObserveInt(label string, v int) {
	cur.obs = append(cur.obs, fmt.Sprintf("%s=%016x", label, uint64(v)))
}

// Cover marks a point as reached.
func Cover(label string) {}

// Settle lets started goroutines finish.
func Settle() {}

// Symbolic reports whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return cur.thor }

type reader struct{ name string }

func (r reader) Read(p []byte) (int, error) {
	copy(p, Fresh(r.name, len(p)))
	return len(p), nil
}

// Reader is an honest source of randomness.
func Reader(name string) io.Reader { return reader{name} }

// Within runs f and reports whether it came to an end; symbolically it is abandoned after so many steps, which
// only makes sense where f has no effect that matters afterwards.
func Within(steps int, f func()) bool {
	f()
	return true
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}
