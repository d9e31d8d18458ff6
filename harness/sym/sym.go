// Package sym is the harness interface. Under the symbolic executor every function
// here is an intrinsic; natively they read the values of one recorded execution.
package sym

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
)

type input struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Vals []uint64 `json:"vals"`
}

// Case is one recorded execution.
type Case struct {
	Entry  string           `json:"entry"`
	Params map[string]int64 `json:"params"`
	Inputs []input          `json:"inputs"`
}

var (
	mu     sync.Mutex
	cur    Case
	queues = map[string][]input{}
	start  time.Time
	// Out bypasses os.File, whose methods harnesses may replace.
	Out io.Writer = rawOut{}
)

type rawOut struct{}

func (rawOut) Write(b []byte) (int, error) { return syscall.Write(1, b) }

// LoadCase prepares a native run.
func LoadCase(path string) *Case {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(data, &cur); err != nil {
		panic(err)
	}
	for _, in := range cur.Inputs {
		queues[in.Name] = append(queues[in.Name], in)
	}
	return &cur
}

// Start marks the beginning of virtual time.
func Start() { start = time.Now() }

func next(name string) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	q := queues[name]
	if len(q) == 0 {
		fmt.Fprintf(Out, "VF-MISSING %s\n", name)
		return nil
	}
	queues[name] = q[1:]
	return q[0].Vals
}

func one(name string) uint64 {
	v := next(name)
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

func Bool(name string) bool            { return one(name) != 0 }
func U8(name string) uint8             { return uint8(one(name)) }
func U16(name string) uint16           { return uint16(one(name)) }
func U32(name string) uint32           { return uint32(one(name)) }
func U64(name string) uint64           { return one(name) }
func I64(name string) int64            { return int64(one(name)) }
func Int(name string, lo, hi int) int  { return int(int64(one(name))) }
func Choose(name string, n int) int    { return int(one(name)) }
func Pin[T ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int64 | ~bool](v T) T { return v }

// Bytes gives n arbitrary bytes.
func Bytes(name string, n int) []byte {
	v := next(name)
	b := make([]byte, n)
	for i := range b {
		if i < len(v) {
			b[i] = byte(v[i])
		}
	}
	return b
}

// String gives a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Param is a bound of the check.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

func Assume(c bool) {
	if !c {
		fmt.Fprintln(Out, "VF-ASSUME")
		End()
	}
}

func Assert(c bool, label string) {
	if !c {
		fmt.Fprintf(Out, "VF-ASSERT %s\n", label)
	}
}

func Cover(label string) { fmt.Fprintf(Out, "VF-COVER %s\n", label) }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool { return !c }
func IteU16(c bool, a, b uint16) uint16 {
	if c {
		return a
	}
	return b
}
func IteU32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteI64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Observe records values compared between the symbolic and the native run.
func Observe(label string, vals ...any) {
	parts := []string{label}
	for _, v := range vals {
		switch x := v.(type) {
		case nil:
			parts = append(parts, "<nil>")
		case string:
			parts = append(parts, strconv.Quote(x))
		case []byte:
			s := make([]string, len(x))
			for i, b := range x {
				s[i] = strconv.Itoa(int(b))
			}
			parts = append(parts, "["+strings.Join(s, " ")+"]")
		default:
			parts = append(parts, fmt.Sprint(x))
		}
	}
	mu.Lock()
	fmt.Fprintf(Out, "VF-OBS %s\n", strings.Join(parts, " "))
	mu.Unlock()
}

// Advance lets virtual time pass and everything due run.
func Advance(d time.Duration) {
	synctest.Wait()
	time.Sleep(d)
	synctest.Wait()
}

// Settle lets all other goroutines run until they are blocked.
func Settle() { synctest.Wait() }

// Now is the virtual time since the start.
func Now() time.Duration { return time.Since(start) }

// Schedules makes the executor explore goroutine interleavings with up to n preemptions.
func Schedules(n int) {}

// Yield is a scheduling point.
func Yield() {}

// MutexBlocked counts goroutines waiting for a mutex (always 0 natively; the run hangs instead).
func MutexBlocked() int { return 0 }

// Alive counts the other unfinished goroutines.
func Alive() int { return -1 }

// End finishes a native run.
func End() {
	fmt.Fprintln(Out, "VF-END")
	os.Exit(0)
}
