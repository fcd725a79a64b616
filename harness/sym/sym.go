// Package sym is the vocabulary of the harnesses. The symbolic executor
// replaces these functions; the bodies here replay recorded inputs natively.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strings"
)

type stop struct{ why string }

var (
	in   []uint64
	pos  int
	tier int
	obs  []string
	fail string
)

func next() uint64 {
	if pos < len(in) {
		pos++
		return in[pos-1]
	}
	pos++
	return 0
}

// Symbolic inputs.
func Byte() byte   { return byte(next()) }
func Bool() bool   { return next()&1 != 0 }
func U16() uint16  { return uint16(next()) }
func U32() uint32  { return uint32(next()) }
func I32() int32   { return int32(next()) }
func U64() uint64  { return next() }
func I64() int64   { return int64(next()) }
func Int() int     { return int(next()) }
func F32() float32 { return math.Float32frombits(uint32(next())) }
func F64() float64 { return math.Float64frombits(next()) }

// Range is a symbolic int in lo..hi.
func Range(lo, hi int) int {
	v := int(next())
	Assume(lo <= v && v <= hi)
	return v
}

// Choice is an int in 0..n-1, explored case by case.
func Choice(n int) int {
	v := int(next())
	Assume(v < n)
	return v
}

// Pick is one of the given strings, explored case by case.
func Pick(s ...string) string { return s[Choice(len(s))] }

// Bound selects the bound of the tier.
func Bound(quick, thorough int) int {
	if tier == 1 {
		return thorough
	}
	return quick
}
func Thorough() bool { return tier == 1 }

// Bytes is n symbolic bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// String is a string of n symbolic bytes.
func String(n int) string { return string(Bytes(n)) }

// StringIn is a string of n symbolic bytes, each from set.
func StringIn(n int, set string) string {
	b := Bytes(n)
	for _, c := range b {
		Assume(strings.IndexByte(set, c) >= 0)
	}
	return string(b)
}

// InSet tells whether c is one of the bytes of set (no fork).
func InSet(c byte, set string) bool { return strings.IndexByte(set, c) >= 0 }

// StepLimit raises the bound on executed instructions for this harness.
func StepLimit(n int) {}

// ConcretizeInt forks over the values of v.
func ConcretizeInt(v int) int { return v }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		fail = msg
		panic(stop{"fail"})
	}
}
func Fail(msg string)                  { Assert(false, msg) }
func Reach(label string)               {}
func ObserveStr(label, v string)       { obs = append(obs, label+"="+fmt.Sprintf("%q", v)) }
func ObserveInt(label string, v int)   { obs = append(obs, label+"="+fmt.Sprint(v)) }
func ObserveBool(label string, v bool) { obs = append(obs, label+"="+fmt.Sprint(v)) }

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

type request struct {
	H    string   `json:"h"`
	In   []uint64 `json:"in"`
	Tier int      `json:"tier"`
}
type response struct {
	Panic  string   `json:"panic"`
	Where  string   `json:"where"`
	Fail   string   `json:"fail"`
	Assume bool     `json:"assume"`
	Obs    []string `json:"obs"`
	Done   bool     `json:"done"`
}

func run1(f func()) (r response) {
	defer func() {
		if x := recover(); x != nil {
			r.Obs = obs
			if s, ok := x.(stop); ok {
				if s.why == "assume" {
					r.Assume = true
				} else {
					r.Fail = fail
				}
				return
			}
			r.Panic = fmt.Sprint(x)
			pcs := make([]uintptr, 64)
			fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
			for {
				g, more := fr.Next()
				if strings.Contains(g.Function, "use-go/gosips") {
					r.Where = g.Function
					break
				}
				if !more {
					break
				}
			}
		}
	}()
	f()
	r.Done = true
	r.Obs = obs
	return
}

// Main serves replay requests on stdin.
func Main(all map[string]func()) {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := sc.ReadString('\n')
		if err != nil {
			return
		}
		var q request
		if json.Unmarshal([]byte(line), &q) != nil {
			continue
		}
		f := all[q.H]
		if f == nil {
			fmt.Fprintln(out, `@@{"panic":"no such harness"}`)
			continue
		}
		in, pos, tier, obs, fail = q.In, 0, q.Tier, nil, ""
		b, _ := json.Marshal(run1(f))
		fmt.Fprintf(out, "@@%s\n", b)
	}
}
