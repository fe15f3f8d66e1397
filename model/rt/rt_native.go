//go:build !verifsym

// Package rt is the interface between harnesses and the symbolic executor.
// Without the verifsym tag it replays one concrete case against the real code.
package rt

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

type testCase struct {
	Harness string            `json:"harness"`
	Prop    string            `json:"prop"`
	Args    map[string]int64  `json:"args"`
	Vars    map[string]string `json:"vars"`
}

type outcome struct {
	Fails   []string `json:"fails"`
	Reached []string `json:"reached"`
	Obs     []string `json:"obs"`
	Stopped bool     `json:"stopped"`
	Panic   string   `json:"panic"`
}

var (
	mu   sync.Mutex
	cs   testCase
	out  outcome
	seen = map[string]int{}
)

type stop struct{}

// Main runs the case given on the standard input.
func Main(reg map[string]func()) {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	f := reg[cs.Harness]
	if f == nil {
		fmt.Println(`{"panic":"no such harness"}`)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					out.Stopped = true
				} else {
					out.Panic = fmt.Sprint(r)
				}
			}
		}()
		f()
	}()
	mu.Lock()
	o, _ := json.Marshal(out)
	fmt.Printf("\nRESULT %s\n", o)
	os.Stdout.Sync()
	os.Exit(0)
}

func val(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	n := seen[name]
	seen[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n+1)
	}
	v, ok := cs.Vars[name]
	return v, ok
}

func Int64(name string, lo, hi int64) int64 {
	v, ok := val(name)
	if !ok {
		if lo <= 0 && hi >= 0 {
			return 0
		}
		return lo
	}
	n, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func Bool(name string) bool {
	v, _ := val(name)
	return v == "1" || v == "true"
}

func String(name string, min, max int) string { return StringIn(name, min, max, 0, 255) }

func StringIn(name string, min, max, lo, hi int) string {
	v, ok := val(name)
	if !ok {
		return strings.Repeat(string(rune('a')), min)
	}
	b, err := hex.DecodeString(strings.TrimPrefix(v, "hex:"))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func Choose(name string, n int) int {
	if n <= 0 {
		panic("Choose")
	}
	v, ok := val(name)
	if !ok {
		return 0
	}
	k, err := strconv.Atoi(v)
	if err != nil {
		panic(err)
	}
	return k
}

func Arg(name string, def int) int {
	if v, ok := cs.Args[name]; ok {
		return int(v)
	}
	return def
}

func Assume(b bool) {
	if !b {
		panic(stop{})
	}
}

func owns(msg string) bool {
	if cs.Prop == "" {
		return true
	}
	tags, _, ok := strings.Cut(msg, ":")
	if !ok || !strings.HasPrefix(tags, "C") {
		return true
	}
	for _, t := range strings.Split(tags, ",") {
		if strings.TrimSpace(t) == cs.Prop {
			return true
		}
	}
	return false
}

func Assert(b bool, msg string) {
	if b || !owns(msg) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	out.Fails = append(out.Fails, msg)
}

func Reach(label string) {
	mu.Lock()
	defer mu.Unlock()
	out.Reached = append(out.Reached, label)
}

func Note(s string) {}
func Dump(v any) {
	if os.Getenv("RT_DUMP") != "" {
		fmt.Fprintf(os.Stderr, "dump: %#v\n", v)
	}
}

func Obs(label string, v any) {
	s := ""
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		s = fmt.Sprint(r.Bool())
	case reflect.String:
		s = fmt.Sprintf("hex:%x", r.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s = fmt.Sprint(r.Int())
	default:
		s = fmt.Sprintf("?%T", v)
	}
	mu.Lock()
	defer mu.Unlock()
	out.Obs = append(out.Obs, label+"="+s)
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func Native() bool                 { return true }
func Stop()                        { panic(stop{}) }
func StrLE(a, b string) bool       { return a <= b }
func StrPrefix(s, p string) bool   { return strings.HasPrefix(s, p) }
func BytesEq(a, b []byte) bool     { return bytes.Equal(a, b) }
func BytesPrefix(a, b []byte) bool { return bytes.HasPrefix(a, b) }
func IsConcrete(v any) bool        { return true }
func Known(b bool) int {
	if b {
		return 1
	}
	return 0
}
func TypeName(v any) string { return fmt.Sprintf("%T", v) }
func Preempt(on bool)       {}
func Yield()                {}
func WaitIdle()             { time.Sleep(20 * time.Millisecond) }
func Threads() int          { return 0 }
func Concrete(n int) int    { return n }
func Catch(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			s = "panic"
		}
	}()
	f()
	return ""
}

var possible = map[string]bool{}

// Possible notes that b can be true: some execution within the bounds must make it so.
func Possible(b bool, label string) { possible[label] = possible[label] || b }

const sweepRuns = 20000

// Sweep runs f; when the case asks for it, many times, and then reports what was never possible.
func Sweep(f func(sweeping bool)) {
	if _, ok := cs.Vars["zz.sweep"]; !ok {
		f(false)
		return
	}
	for i := 0; i < sweepRuns; i++ {
		f(true)
	}
	for l, ok := range possible {
		Assert(ok, l)
	}
}
