// Package sym is the interface between the harnesses and the symbolic executor. The engine
// intercepts every exported function here; the bodies below are what a native replay of a solver
// assignment runs.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
)

type Number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

// ---- native state ----

type FunRow struct {
	Args []string `json:"args"`
	Res  string   `json:"res"`
}

type Run struct {
	Vars map[string]string   `json:"vars"`
	Funs map[string][]FunRow `json:"funs"`
}

var (
	cur      *Run
	counts   map[string]int
	real     bool
	thorough bool
	asserted int
	tol      = 1e-6
)

type AssumeFailed struct{ Name string }
type AssertFailed struct{ Label string }

func Start(r *Run, isReal, isThorough bool) {
	cur, counts, real, thorough, asserted = r, map[string]int{}, isReal, isThorough, 0
	norms, fixed = nil, false
}

func Asserted() int { return asserted }

func next(name string) string {
	k := counts[name]
	counts[name] = k + 1
	return name + "#" + strconv.Itoa(k)
}

func isFloat[T Number]() bool {
	h := 0.5
	return T(h) != 0
}

func conv[T Number](v string) T {
	var z T
	if real && isFloat[T]() || strings.ContainsRune(v, '/') {
		r, ok := new(big.Rat).SetString(v)
		if !ok {
			return z
		}
		f, _ := r.Float64()
		return T(f)
	}
	u, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		if i, err2 := strconv.ParseInt(v, 10, 64); err2 == nil {
			return T(i)
		}
		return z
	}
	if isFloat[T]() {
		switch any(z).(type) {
		case float32:
			return T(math.Float32frombits(uint32(u)))
		}
		return T(math.Float64frombits(u))
	}
	return T(u)
}

func show[T Number](x T) string {
	if isFloat[T]() {
		if real {
			r := new(big.Rat).SetFloat64(float64(x))
			if r == nil {
				return "nan"
			}
			return r.RatString()
		}
		switch v := any(x).(type) {
		case float32:
			return strconv.FormatUint(uint64(math.Float32bits(v)), 10)
		}
		return strconv.FormatUint(math.Float64bits(float64(x)), 10)
	}
	switch v := any(x).(type) {
	case int8:
		return strconv.FormatUint(uint64(uint8(v)), 10)
	case int16:
		return strconv.FormatUint(uint64(uint16(v)), 10)
	case int32:
		return strconv.FormatUint(uint64(uint32(v)), 10)
	case int64:
		return strconv.FormatUint(uint64(v), 10)
	case int:
		return strconv.FormatUint(uint64(v), 10)
	}
	return fmt.Sprint(x)
}

// ---- harness interface ----

// Num is an arbitrary number of type T.
func Num[T Number](name string) T {
	n := next(name)
	if v, ok := cur.Vars[n]; ok {
		return conv[T](v)
	}
	var z T
	return z
}

// Bool is an arbitrary truth value.
func Bool(name string) bool { return cur.Vars[next(name)] == "1" }

// Pick is an arbitrary integer in [lo,hi], explored by case split.
func Pick(name string, lo, hi int) int {
	n := next("pick:" + name)
	k := lo
	if v, ok := cur.Vars[n]; ok {
		k = conv[int](v)
	}
	if k < lo || k > hi {
		panic(AssumeFailed{n})
	}
	return k
}

// Fun1 applies an arbitrary function.
func Fun1[T Number](name string, x T) T {
	a := show(x)
	for _, r := range cur.Funs[name] {
		if len(r.Args) == 1 && (r.Args[0] == a || near(conv[T](r.Args[0]), x)) {
			return conv[T](r.Res)
		}
	}
	return x*3 + T(len(name))
}

// Fun2 applies an arbitrary binary function.
func Fun2[T Number](name string, x, y T) T {
	a, b := show(x), show(y)
	for _, r := range cur.Funs[name] {
		if len(r.Args) == 2 && (r.Args[0] == a && r.Args[1] == b || near(conv[T](r.Args[0]), x) && near(conv[T](r.Args[1]), y)) {
			return conv[T](r.Res)
		}
	}
	return x*5 + y*3 + T(len(name))
}

func near[T Number](a, b T) bool {
	if !real || !isFloat[T]() {
		return a == b
	}
	x, y := float64(a), float64(b)
	return math.Abs(x-y) <= 1e-9*(1+math.Abs(x)+math.Abs(y))
}

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, label string) {
	asserted++
	if !c {
		panic(AssertFailed{label})
	}
}

func Cover(label string) {}
func Bound(text string)  {}
func Thorough() bool     { return thorough }
func RealMode() bool     { return real }
func Symbolic() bool     { return false }

// Same: equal as numbers, or both not-a-number. In a job of the real encoding the native
// comparison allows for rounding.
func Same[T Number](a, b T) bool {
	if a == b || a != a && b != b {
		return true
	}
	if real && isFloat[T]() {
		x, y := float64(a), float64(b)
		return math.Abs(x-y) <= tol*(1+math.Abs(x)+math.Abs(y))
	}
	return false
}

// Near: |a-b| <= t (natively with room for rounding).
func Near[T Number](a, b, t T) bool {
	x, y := float64(a), float64(b)
	return math.Abs(x-y) <= float64(t)+tol*(1+math.Abs(x)+math.Abs(y))
}

// LE: a <= b (natively with room for rounding in the real encoding).
func LE[T Number](a, b T) bool {
	if a <= b {
		return true
	}
	if real && isFloat[T]() {
		x, y := float64(a), float64(b)
		return x-y <= tol*(1+math.Abs(x)+math.Abs(y))
	}
	return false
}

// Deriv is the derivative of f at x.
func Deriv[T Number](f func(T) T, x T) T {
	h := 1e-5 * (1 + math.Abs(float64(x)))
	a, b := T(float64(x)+h), T(float64(x)-h)
	return T((float64(f(a)) - float64(f(b))) / (float64(a) - float64(b)))
}

// And and Or evaluate both sides: no case split.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Possible: some outcome of the random source makes c true. Natively the source is the real one and
// c is a condition that holds with probability (almost) 1; a source fixed by the assignment says
// nothing about what is possible.
func Possible(c bool, label string) { Assert(c || fixed, label) }

var (
	fixed  bool // the assignment decides some outcome
	norms  []float64
	source = rand.New(rand.NewSource(1))
)

// Norms is the number of normally distributed numbers drawn so far, Norm one of them.
func Norms() int         { return len(norms) }
func Norm(k int) float64 { return norms[k] }

// Env is the outcome of the random source in a native replay, where the assignment fixes it.
func Env(kind string, n int64) (uint64, bool) {
	if kind == "env:rand.Norm" {
		f := source.NormFloat64()
		if v, ok := cur.Vars[next(kind)]; ok {
			if x := conv[float64](v); x == x {
				f = x
			}
		}
		norms = append(norms, f)
		return math.Float64bits(f), true
	}
	v, ok := cur.Vars[next(kind)]
	if !ok {
		return 0, false
	}
	fixed = true
	if n > 0 {
		k := conv[int64](v)
		return uint64(k), k >= 0 && k < n
	}
	f := 0.0
	if kind == "env:rand.Float32" {
		f = float64(conv[float32](v))
	} else {
		f = conv[float64](v)
	}
	if f != f || f < 0 || f >= 1 {
		return 0, false
	}
	return math.Float64bits(f), true
}
