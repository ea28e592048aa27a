package main

import (
	"fmt"
	"math"
	"strings"
)

// Interval abstraction of IEEE terms. Every rounded operation is monotone in each argument, so the
// values at the corners of the argument ranges, rounded the same way, bound the result. A query is
// first put to the solver with each compared machine-number term replaced by a fresh variable
// constrained to its range (an over-approximation: unsat there is unsat of the query).

type ival struct {
	lo, hi float64
	ok     bool // never NaN, within [lo,hi]
}

var top = ival{}

type ivals struct {
	tc  *TC
	env map[int]ival
	m   map[int]ival
}

func newIvals(tc *TC, pc []*Term) *ivals {
	v := &ivals{tc: tc, env: map[int]ival{}, m: map[int]ival{}}
	type side struct{ lo, hi *float64 }
	b := map[int]*side{}
	get := func(t *Term) *side {
		if b[t.id] == nil {
			b[t.id] = &side{}
		}
		return b[t.id]
	}
	var walk func(c *Term)
	walk = func(c *Term) {
		switch c.op {
		case OAnd:
			for _, x := range c.a {
				walk(x)
			}
		case OFLe, OFLt:
			x, y := c.a[0], c.a[1]
			if x.s.K != KFP {
				return
			}
			if x.isConst() && !y.isConst() {
				f := x.cF()
				s := get(y)
				if s.lo == nil || f > *s.lo {
					s.lo = &f
				}
			} else if y.isConst() && !x.isConst() {
				f := y.cF()
				s := get(x)
				if s.hi == nil || f < *s.hi {
					s.hi = &f
				}
			}
		}
	}
	for _, c := range pc {
		walk(c)
	}
	for _, fs := range tc.axOn {
		for _, c := range fs {
			walk(c)
		}
	}
	for id, s := range b {
		lo, hi := math.Inf(-1), math.Inf(1)
		if s.lo != nil {
			lo = *s.lo
		}
		if s.hi != nil {
			hi = *s.hi
		}
		v.env[id] = ival{lo, hi, true}
	}
	return v
}

func rnd(w int, f float64) float64 {
	if w == 32 {
		return float64(float32(f))
	}
	return f
}

func corners(w int, a, b ival, f func(x, y float64) float64) ival {
	if !a.ok || !b.ok {
		return top
	}
	r := ival{math.Inf(1), math.Inf(-1), true}
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			z := rnd(w, f(x, y))
			if z != z {
				return top
			}
			r.lo, r.hi = math.Min(r.lo, z), math.Max(r.hi, z)
		}
	}
	return r
}

func (v *ivals) of(t *Term) ival {
	if r, ok := v.m[t.id]; ok {
		return r
	}
	r := v.compute(t)
	if k, ok := v.env[t.id]; ok {
		if !r.ok {
			r = k
		} else {
			r.lo, r.hi = math.Max(r.lo, k.lo), math.Min(r.hi, k.hi)
		}
	}
	v.m[t.id] = r
	return r
}

var monoFns = map[string]func(float64) float64{"math.Exp": math.Exp, "math.Exp2": math.Exp2, "math.Tanh": math.Tanh,
	"math.Sinh": math.Sinh, "math.Expm1": math.Expm1, "math.Erf": math.Erf}

func (v *ivals) mono(a ival, f func(float64) float64, exact bool) ival {
	if !a.ok {
		return top
	}
	lo, hi := f(a.lo), f(a.hi)
	if lo != lo || hi != hi {
		return top
	}
	if !(exact && (lo == 1 || lo == -1)) {
		lo -= math.Abs(lo)*1e-9 + 1e-320
	}
	if !(exact && (hi == 1 || hi == -1)) {
		hi += math.Abs(hi)*1e-9 + 1e-320
	}
	if exact {
		lo, hi = math.Max(lo, -1), math.Min(hi, 1)
	}
	return ival{lo, hi, true}
}

func absI(a ival) ival {
	if !a.ok {
		return top
	}
	if a.lo >= 0 {
		return a
	}
	if a.hi <= 0 {
		return ival{-a.hi, -a.lo, true}
	}
	return ival{0, math.Max(-a.lo, a.hi), true}
}

func (v *ivals) compute(t *Term) ival {
	w := t.s.W
	switch t.op {
	case OConst:
		f := t.cF()
		if f != f {
			return top
		}
		return ival{f, f, true}
	case OFAdd:
		return corners(w, v.of(t.a[0]), v.of(t.a[1]), func(x, y float64) float64 { return x + y })
	case OFSub:
		return corners(w, v.of(t.a[0]), v.of(t.a[1]), func(x, y float64) float64 { return x - y })
	case OFMul:
		a, b := v.of(t.a[0]), v.of(t.a[1])
		if !a.ok || !b.ok {
			return top
		}
		inf := func(x ival) bool { return math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0) }
		has0 := func(x ival) bool { return x.lo <= 0 && x.hi >= 0 }
		if inf(a) && has0(b) || inf(b) && has0(a) {
			return top
		}
		r := corners(w, a, b, func(x, y float64) float64 { return x * y })
		if r.ok && t.a[0] == t.a[1] && r.lo < 0 {
			r.lo = 0
		}
		return r
	case OFDiv:
		a, b := v.of(t.a[0]), v.of(t.a[1])
		if !a.ok || !b.ok || b.lo <= 0 && b.hi >= 0 {
			return top
		}
		return corners(w, a, b, func(x, y float64) float64 { return x / y })
	case OFNeg:
		a := v.of(t.a[0])
		return ival{-a.hi, -a.lo, a.ok}
	case OFAbs:
		return absI(v.of(t.a[0]))
	case OFSqrt:
		a := v.of(t.a[0])
		if !a.ok || a.lo < 0 {
			return top
		}
		return ival{rnd(w, math.Sqrt(a.lo)), rnd(w, math.Sqrt(a.hi)), true}
	case OFToFP:
		a := v.of(t.a[0])
		return ival{rnd(w, a.lo), rnd(w, a.hi), a.ok}
	case OIte:
		a, b := v.of(t.a[1]), v.of(t.a[2])
		if !a.ok || !b.ok {
			return top
		}
		return ival{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), true}
	case OUF:
		name, _, _ := strings.Cut(t.name, "_")
		if f, ok := monoFns[name]; ok {
			r := v.mono(v.of(t.a[0]), f, name == "math.Tanh" || name == "math.Erf")
			if r.ok && (name == "math.Exp" || name == "math.Exp2") {
				r.lo = math.Max(r.lo, 0)
			}
			return r
		}
		switch name {
		case "math.Cosh":
			return v.mono(absI(v.of(t.a[0])), math.Cosh, false)
		case "math.Pow":
			if !t.a[1].isConst() {
				return top
			}
			q := t.a[1].cF()
			if q != math.Trunc(q) || q <= 0 || q >= 16 {
				return top
			}
			a := v.of(t.a[0])
			if math.Mod(q, 2) == 0 {
				a = absI(a)
			}
			r := v.mono(a, func(x float64) float64 { return math.Pow(x, q) }, false)
			if r.ok && math.Mod(q, 2) == 0 {
				r.lo = math.Max(r.lo, 0)
			}
			return r
		}
	}
	return top
}

// rangeQuery is the abstraction of c, or nil if c compares no machine-number operation.
func (v *ivals) rangeQuery(c *Term) *Term {
	tc := v.tc
	var lem []*Term
	hit := false
	memo := map[int]*Term{}
	leaf := func(t *Term) *Term {
		if t.isConst() {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := tc.Var(fmt.Sprintf("range!%d", t.id), t.s)
		memo[t.id] = r
		if i := v.of(t); i.ok {
			hit = true
			lem = append(lem, tc.FLe(tc.fconst(t.s, i.lo), r), tc.FLe(r, tc.fconst(t.s, i.hi)))
		}
		return r
	}
	var abs func(t *Term) *Term
	abs = func(t *Term) *Term {
		switch t.op {
		case OConst:
			return t
		case OAnd, OOr:
			as := make([]*Term, len(t.a))
			for i, x := range t.a {
				if as[i] = abs(x); as[i] == nil {
					return nil
				}
			}
			if t.op == OAnd {
				return tc.And(as...)
			}
			return tc.Or(as...)
		case ONot:
			x := abs(t.a[0])
			if x == nil {
				return nil
			}
			return tc.Not(x)
		case OFLt:
			if t.a[0].s.K == KFP {
				return tc.FLt(leaf(t.a[0]), leaf(t.a[1]))
			}
		case OFLe:
			if t.a[0].s.K == KFP {
				return tc.FLe(leaf(t.a[0]), leaf(t.a[1]))
			}
		case OFEq:
			return tc.FEq(leaf(t.a[0]), leaf(t.a[1]))
		case OFIsNaN:
			return tc.FIsNaN(leaf(t.a[0]))
		}
		return nil
	}
	q := abs(c)
	if q == nil || !hit {
		return nil
	}
	return tc.And(append(lem, q)...)
}

// rangeUnsat: the solver refutes the interval abstraction of pc and c.
func (e *Exec) rangeUnsat(s *State, c *Term) bool {
	if e.tc.RealMode || !fpOps(c, map[int]bool{}) {
		return false
	}
	iv := newIvals(e.tc, s.pcList())
	q := iv.rangeQuery(c)
	if q == nil {
		return false
	}
	if q == e.tc.False {
		return true
	}
	r, _ := e.sol.Check(nil, q, nil, false)
	return r == Unsat
}

func fpOps(t *Term, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	switch t.op {
	case OFMul, OFDiv, OFAdd, OFSub, OFSqrt, OUF:
		if t.s.K == KFP {
			return true
		}
	}
	for _, x := range t.a {
		if fpOps(x, seen) {
			return true
		}
	}
	return false
}

// hardFP: t depends on a machine-number operation other than a comparison or a read of its bits, or
// on a product of variables.
// hardPath: the path condition restricts more than the inputs themselves.
func (e *Exec) hardPath(s *State) bool {
	for _, c := range s.pcList() {
		if e.hardFP(c) {
			return true
		}
	}
	return false
}

// fpIn: c compares floating-point numbers.
func (e *Exec) fpIn(c *Term) bool {
	if c.op == ONot {
		return e.fpIn(c.a[0])
	}
	for _, x := range c.a {
		if x.s.K == KFP {
			return true
		}
	}
	return false
}

func (e *Exec) hardFP(t *Term) bool {
	if r, ok := e.fpMemo[t.id]; ok {
		return r
	}
	r := false
	switch t.op {
	case OFMul, OFDiv, OFAdd, OFSub, OFSqrt, OFToFP, OFRound:
		r = !e.tc.RealMode
	case OUF:
		r = true
	case OVar:
		if f, ok := e.tc.bitsOf[t.id]; ok {
			r = e.hardFP(f)
		}
	case OPoly:
		lim := 1
		if e.tc.RealMode {
			lim = 2
		}
		for _, m := range t.poly.ms {
			if len(m.vs) > lim {
				r = true
			}
			for _, x := range m.vs {
				r = r || e.hardFP(x)
			}
		}
	}
	for _, x := range t.a {
		if r {
			break
		}
		r = e.hardFP(x)
	}
	e.fpMemo[t.id] = r
	return r
}
