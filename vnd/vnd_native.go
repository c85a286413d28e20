// Package vnd, native side: replays the values found by the solver.
package vnd

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
)

// Fail is the panic value of a failed assertion, Skip that of a failed
// assumption.
type Fail struct{ Label string }
type Skip struct{}

var mu sync.Mutex
var values map[string]uint64
var params map[string]int
var counts map[string]int
var reached map[string]bool
var failed string
var rnd *rand.Rand
var rndLabels int // 0 none, 1 bytes, 2 bytes and integers

type file struct {
	Values map[string]uint64 `json:"values"`
	Params map[string]int    `json:"params"`
}

// Load reads a counterexample.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f file
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	values, params = f.Values, f.Params
	return nil
}

// Reset prepares for another run; mode says what is randomised.
func Reset(mode int, seed int64) {
	mu.Lock()
	defer mu.Unlock()
	counts = map[string]int{}
	reached = map[string]bool{}
	failed = ""
	rndLabels = mode
	rnd = rand.New(rand.NewSource(seed))
	preempt = false
	if OnReset != nil {
		OnReset()
	}
}

// Failed returns the first failed assertion of any goroutine.
func Failed() string { mu.Lock(); defer mu.Unlock(); return failed }

func name(label string) string {
	n := counts[label]
	counts[label]++
	return fmt.Sprintf("%s#%d", label, n)
}

func get(label string, w uint) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := name(label)
	if rndLabels >= 2 && !strings.HasPrefix(label, "=") {
		return rnd.Uint64() >> (64 - w)
	}
	return values[n]
}

func U8(label string) uint8   { return uint8(get(label, 8)) }
func U16(label string) uint16 { return uint16(get(label, 16)) }
func U32(label string) uint32 { return uint32(get(label, 32)) }
func U64(label string) uint64 { return get(label, 64) }
func Bool(label string) bool {
	mu.Lock()
	defer mu.Unlock()
	return values[name(label)] != 0
}
func Bytes(label string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	nm := name(label)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(values[fmt.Sprintf("%s.%d", nm, i)])
		if rndLabels >= 1 && !strings.HasPrefix(label, "=") {
			b[i] = byte(rnd.Intn(256))
		}
	}
	return b
}
func Choose(label string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	v := int(values[name(label)])
	if v >= n {
		panic(Skip{})
	}
	return v
}
func Pick64(v uint64, max int) uint64 { return v }
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}
func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		if failed == "" {
			failed = label
		}
		mu.Unlock()
		panic(Fail{label})
	}
}
func Reach(label string) { mu.Lock(); reached[label] = true; mu.Unlock() }
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
func Symbolic() bool                            { return false }
func UF(name string, data string, n int) string { panic("vnd.UF in native code") }
func SetMerge(on bool)                          {}
func SetSplit(bits int)                         {}
func SetLazy(on bool)                           {}
func SetFmt(mode int)                           {}
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Ite8(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Same(a, b []byte) bool        { return string(a) == string(b) }
func SameStr(a, b string) bool     { return a == b }
func Note(s string)                {}
func Dump(s string, v interface{}) {}

var preempt bool

// The scheduler (vsync), if there is one.
var OnPreempt func(n int)
var OnYield, OnReset func()

// Sched returns the k-th decision of the scheduler: what the counterexample
// says, or random.
func Sched(k int, runnable []int, cur int) int {
	mu.Lock()
	defer mu.Unlock()
	if rndLabels == 0 {
		if v, ok := values[fmt.Sprintf("sched#%d", k)]; ok {
			for _, r := range runnable {
				if r == int(v) {
					return r
				}
			}
		}
		for _, r := range runnable {
			if r == cur {
				return r
			}
		}
		return runnable[0]
	}
	for _, r := range runnable {
		if r == cur && rnd.Intn(3) > 0 {
			return r
		}
	}
	return runnable[rnd.Intn(len(runnable))]
}

// Random tells whether the schedule is random.
func Random() bool { return rndLabels > 0 }

func Preempt(n int) {
	preempt = n >= 0
	if OnPreempt != nil {
		OnPreempt(n)
	}
}
func Yield() {
	if OnYield != nil {
		OnYield()
		return
	}
	if preempt {
		runtime.Gosched()
	}
}
func Races()                                      {}
func Concrete(v uint64) bool                      { return true }
func AsInt(v interface{}) (uint64, bool, bool)    { panic("native") }
func AsString(v interface{}) (string, bool)       { panic("native") }
func BinSize(v interface{}) int                   { panic("native") }
func BinEncode(v interface{}, big bool) []byte    { panic("native") }
func BinDecode(v interface{}, big bool, b []byte) { panic("native") }
func IsBigEndian(v interface{}) bool              { panic("native") }
func SliceLen(v interface{}) int                  { panic("native") }
func SliceSwap(v interface{}, i, j int)           { panic("native") }
