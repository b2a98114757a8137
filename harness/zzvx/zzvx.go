// Package zzvx is the interface between the verification harnesses and the symbolic engine.
// The bodies below are used when a harness is compiled and run natively with concrete inputs
// (replay of counterexamples and validation of sampled executions); the engine interprets the
// calls symbolically instead.
package zzvx

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replay struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]string `json:"inputs"`
	Thorough bool              `json:"thorough"`
}

var (
	mu   sync.Mutex
	rep  replay
	seen = map[string]int{}
	tmp  []string
)

type assumeFailed struct{}

func fresh(base string) string {
	n := seen[base]
	seen[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return getL(fresh(name))
}

func getL(n string) uint64 {
	s, ok := rep.Inputs[n]
	if !ok {
		return 0
	}
	if strings.HasPrefix(s, "-") {
		v, _ := strconv.ParseInt(s, 10, 64)
		return uint64(v)
	}
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

func Int64(name string) int64   { return int64(get(name)) }
func Uint64(name string) uint64 { return get(name) }
func Int(name string) int       { return int(get(name)) }
func Int32(name string) int32   { return int32(get(name)) }
func Uint32(name string) uint32 { return uint32(get(name)) }
func Int8(name string) int8     { return int8(get(name)) }
func Uint8(name string) uint8   { return uint8(get(name)) }
func Bool(name string) bool     { return get(name) == 1 }

// Bytes is a byte string of fixed length with unconstrained content.
func Bytes(name string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	nm := strings.Replace(fresh(name+"$b"), "$b", "", 1)
	o := make([]byte, n)
	for i := range o {
		o[i] = byte(getL(fresh(fmt.Sprintf("%s[%d]", nm, i))))
	}
	return o
}

// Str is a string of fixed length with unconstrained content.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Range explores every value of [lo,hi] (concretely, one path each).
func Range(name string, lo, hi int) int { return int(int64(get(name))) }

// Choose explores n alternatives.
func Choose(name string, n int) int { return int(get(name)) }

// Time is an arbitrary instant.
func Time(name string) time.Time {
	mu.Lock()
	defer mu.Unlock()
	s := int64(getL(fresh(name + ".s")))
	n := int64(getL(fresh(name + ".n")))
	return time.Unix(s, n).UTC()
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		fmt.Printf("\nVX-FAIL %s\n", label)
		mu.Unlock()
	}
}

// Reach marks a point that some path must get to.
func Reach(label string) {}

// Obs records an observable value; engine and native runs must agree on it.
func Obs(label string, v interface{}) {
	s := ""
	switch w := v.(type) {
	case []byte:
		s = string(w)
	case string:
		s = w
	case bool:
		s = "0"
		if w {
			s = "1"
		}
	case int64:
		s = fmt.Sprint(uint64(w))
	case int:
		s = fmt.Sprint(uint64(int64(w)))
	case int32:
		s = fmt.Sprint(uint64(int64(w)))
	case int8:
		s = fmt.Sprint(uint64(int64(w)))
	case uint8:
		s = fmt.Sprint(uint64(w))
	default:
		s = fmt.Sprint(w)
	}
	mu.Lock()
	fmt.Printf("\nVX-OBS %s\n", strings.ReplaceAll(fmt.Sprintf("%q", label+"="+s), "\n", " "))
	mu.Unlock()
}

func Log(s string) {}

// Quiesce lets every other goroutine run until it blocks or ends.
func Quiesce() { time.Sleep(300 * time.Millisecond) }

// Crashable runs f in a process that may crash (power loss) at any point of it, and at the latest when it
// returns; it reports whether f was cut short. Natively f just runs to the end.
func Crashable(f func()) bool { f(); return false }

// Native reports whether the harness runs natively.
func Native() bool { return true }

// Thorough reports whether the larger bounds are wanted.
func Thorough() bool { return rep.Thorough }

// TempDir returns a fresh scratch directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "vx")
	if err != nil {
		panic(err)
	}
	mu.Lock()
	tmp = append(tmp, d)
	mu.Unlock()
	return d
}

// ReplayMain runs one harness with the inputs of the replay file.
func ReplayMain(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VX_REPLAY"))
	if err != nil {
		fmt.Println("VX-PANIC no replay file")
		return
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Println("VX-PANIC bad replay file")
		return
	}
	h := hs[rep.Harness]
	if h == nil {
		fmt.Println("VX-PANIC unknown harness", rep.Harness)
		return
	}
	defer func() {
		for _, d := range tmp {
			os.RemoveAll(d)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				fmt.Println("\nVX-ASSUME")
				return
			}
			fmt.Printf("\nVX-PANIC %s\n", strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
			return
		}
		fmt.Println("\nVX-DONE")
	}()
	h()
}
