package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ICall struct {
	e      *Exec
	s      *State
	fn     *ssa.Function
	args   []Value
	ret    ssa.Value
	states []*State
}

type Intrinsic func(c *ICall) Value

func (c *ICall) term(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		unsup("%s: argument %d is %T", c.fn, i, c.args[i])
	}
	return c.e.simp(c.s, t)
}
func (c *ICall) str(i int) string {
	st, ok := c.args[i].(Str)
	if !ok {
		unsup("%s: argument %d is %T", c.fn, i, c.args[i])
	}
	return st.S
}
func (c *ICall) setRet(s *State, v Value) {
	if c.ret != nil {
		c.e.set(c.e.fn(s), c.ret, v)
	}
}

// fork splits over alternatives; each sets its own result.
func (c *ICall) end() Value { return nil }

const symPkg = "verifharness/sym"

func intrinsicName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n := fn.String()
	// generic receivers print type parameters; not needed for std code
	return n
}

var intrinsics = map[string]Intrinsic{}

func reg(n string, f Intrinsic) { intrinsics[n] = f }

func (e *Exec) mkError(s *State, msg string) Value {
	p := e.prog.ImportedPackage("errors")
	if p == nil {
		unsup("package errors not loaded")
	}
	t := p.Type("errorString").Type()
	return Iface{types.NewPointer(t), Ptr{e.alloc(s, []Value{Str{S: msg}}), 0}}
}

func (e *Exec) freshName(s *State, base string) string {
	k := s.cnt[base]
	s.cnt[base] = k + 1
	return fmt.Sprintf("%s#%d", base, k)
}

// newSym makes a symbolic scalar of type t.
func (e *Exec) newSym(s *State, base string, t types.Type) *Term {
	st, ok := e.sortOf(t)
	if !ok {
		unsup("symbolic %s", t)
	}
	name := e.freshName(s, base)
	var v, r *Term
	if st.K == KFP {
		v = e.tc.Var(name, BV(st.W))
		r = e.tc.BitsToF(v)
	} else {
		v = e.tc.Var(name, st)
		r = v
	}
	if !e.symSeen[name] {
		e.symSeen[name] = true
		e.syms = append(e.syms, v)
	}
	return r
}

func mathFn(name string, real func(*TC, *Term) *Term, fold func(float64) float64) {
	reg("math."+name, func(c *ICall) Value {
		t := c.term(0)
		tc := c.e.tc
		if t.s.K == KReal {
			if r := real(tc, t); r != nil {
				return r
			}
			c.e.note("math." + name + " is uninterpreted")
			return tc.UF("math."+name, SReal, t)
		}
		if t.isConst() {
			return tc.F64c(fold(t.cF()))
		}
		c.e.note("math." + name + " is abstracted by monotone interval facts in the IEEE encoding")
		r := tc.UF("math."+name, t.s, t)
		ieeeFacts(tc, name, t, r, fold)
		return r
	})
}

// ieeeFacts attaches to r = f(t) what holds of the machine function: not-a-number exactly where the
// argument is, its range, and one-sided bounds at a ladder of arguments.
func ieeeFacts(tc *TC, name string, t, r *Term, f func(float64) float64) {
	if tc.axiomFor[r.id] {
		return
	}
	tc.axiomFor[r.id] = true
	k := func(v float64) *Term { return tc.F64c(v) }
	ladder := []float64{0, 0.001, 0.1, 0.5, 1, 2, 5, 10, 20, 40, 50, 80, 87, 88.8, 100, 300, 400, 700, 709.8, 745.2, 750, 1e3, 1e6, 1e12, 1e30, 1e60, 1e100, 1e150, 1e200, 1e300}
	widen := func(v float64, up bool) *Term {
		if v == 0 || math.IsInf(v, 0) || ((name == "Tanh" || name == "Erf") && (v == 1 || v == -1)) {
			return k(v)
		}
		e := math.Abs(v) * 1e-9
		if e < 1e-320 {
			e = 1e-320
		}
		if up {
			return k(v + e)
		}
		return k(v - e)
	}
	switch name {
	case "Exp", "Exp2", "Tanh", "Sinh", "Expm1", "Erf", "Pow3":
		fs := []*Term{tc.Eq(tc.FIsNaN(r), tc.FIsNaN(t))}
		switch name {
		case "Exp", "Exp2":
			fs = append(fs, tc.Or(tc.FIsNaN(r), tc.FLe(k(0), r)))
		case "Tanh", "Erf":
			fs = append(fs, tc.Or(tc.FIsNaN(r), tc.And(tc.FLe(k(-1), r), tc.FLe(r, k(1)))))
		case "Expm1":
			fs = append(fs, tc.Or(tc.FIsNaN(r), tc.FLe(k(-1), r)))
		}
		for _, a := range ladder {
			for _, x := range []float64{a, -a} {
				v := f(x)
				fs = append(fs,
					tc.Or(tc.Not(tc.FLe(t, k(x))), tc.FLe(r, widen(v, true))),
					tc.Or(tc.Not(tc.FLe(k(x), t)), tc.FLe(widen(v, false), r)))
			}
		}
		tc.axiom(r, tc.And(fs...))
	case "Cosh", "Pow2":
		a := tc.FAbs(t)
		fs := []*Term{tc.Eq(tc.FIsNaN(r), tc.FIsNaN(t)), tc.Or(tc.FIsNaN(r), tc.FLe(k(f(0)), r))}
		for _, x := range ladder {
			v := f(x)
			fs = append(fs,
				tc.Or(tc.Not(tc.FLe(a, k(x))), tc.FLe(r, widen(v, true))),
				tc.Or(tc.Not(tc.FLe(k(x), a)), tc.FLe(widen(v, false), r)))
		}
		tc.axiom(r, tc.And(fs...))
	}
}

func init() {
	// ---- sym ----
	reg(symPkg+".Num", func(c *ICall) Value {
		return c.e.newSym(c.s, c.str(0), c.fn.Signature.Results().At(0).Type())
	})
	reg(symPkg+".Bool", func(c *ICall) Value {
		return c.e.newSym(c.s, c.str(0), types.Typ[types.Bool])
	})
	reg(symPkg+".Assume", func(c *ICall) Value {
		t := c.term(0)
		if t == c.e.tc.False {
			c.states = []*State{}
			return Tup{}
		}
		if t != c.e.tc.True {
			if !c.e.feasible(c.s, t) {
				c.states = []*State{}
				return Tup{}
			}
			c.e.assume(c.s, t)
		}
		return Tup{}
	})
	reg(symPkg+".Assert", func(c *ICall) Value {
		if !c.e.doAssert(c.s, c.term(0), c.str(1)) {
			c.states = []*State{}
		}
		return Tup{}
	})
	reg(symPkg+".And", func(c *ICall) Value { return c.e.tc.And(c.term(0), c.term(1)) })
	reg(symPkg+".Or", func(c *ICall) Value { return c.e.tc.Or(c.term(0), c.term(1)) })
	reg(symPkg+".Possible", func(c *ICall) Value {
		e, t, label := c.e, c.term(0), c.str(1)
		c.s.nass++
		e.Asserts++
		e.Labels[label]++
		if t == e.tc.True {
			e.Closed++
			return Tup{}
		}
		r := Unsat
		if t != e.tc.False {
			r, _ = e.sol.Check(c.s.pcList(), t, nil, true)
		}
		switch r {
		case Sat:
			e.Proved++
		case Unsat:
			_, m := e.ask(c.s, e.tc.True, true)
			if m == nil {
				m = &Model{Vars: map[string]string{}}
			}
			for k := range m.Vars {
				if strings.HasPrefix(k, "env:") {
					delete(m.Vars, k) // the real source decides
				}
			}
			e.Cands = append(e.Cands, &Candidate{Label: label, Kind: "assert", Model: m})
		default:
			e.Unk = append(e.Unk, label)
		}
		return Tup{}
	})
	reg(symPkg+".Cover", func(c *ICall) Value {
		c.e.Covers[c.str(0)]++
		return Tup{}
	})
	reg(symPkg+".Bound", func(c *ICall) Value {
		c.e.note("bound: " + c.str(0))
		return Tup{}
	})
	reg(symPkg+".Thorough", func(c *ICall) Value {
		return c.e.tc.Bool(c.e.eng.Tier == "thorough")
	})
	reg(symPkg+".RealMode", func(c *ICall) Value {
		return c.e.tc.Bool(c.e.tc.RealMode)
	})
	reg(symPkg+".Symbolic", func(c *ICall) Value { return c.e.tc.True })
	reg(symPkg+".Pick", func(c *ICall) Value {
		lo, hi := c.term(1), c.term(2)
		if !lo.isConst() || !hi.isConst() {
			unsup("Pick bounds must be concrete")
		}
		v := c.e.newSym(c.s, "pick:"+c.str(0), types.Typ[types.Int])
		tc := c.e.tc
		l, h := lo.cS(), hi.cS()
		if h < l {
			c.states = []*State{}
			return nil
		}
		if l == h {
			c.e.assume(c.s, tc.Eq(v, tc.Int(l)))
			return tc.Int(l)
		}
		var out []*State
		for k := l; k <= h; k++ {
			n := c.s.clone()
			kt := tc.Int(k)
			c.e.assume(n, tc.Eq(v, kt))
			n.token += fmt.Sprintf("/%d=%d", v.id, k)
			c.setRet(n, kt)
			out = append(out, n)
		}
		c.states = out
		return nil
	})
	reg(symPkg+".Fun1", func(c *ICall) Value {
		t := c.term(1)
		return c.e.tc.UF("u:"+c.str(0), t.s, t)
	})
	reg(symPkg+".Fun2", func(c *ICall) Value {
		t := c.term(1)
		return c.e.tc.UF("u:"+c.str(0), t.s, t, c.term(2))
	})
	reg(symPkg+".Same", func(c *ICall) Value {
		a, b := c.term(0), c.term(1)
		tc := c.e.tc
		if a.s.K == KFP {
			if a == b {
				return tc.True
			}
			return tc.Or(tc.FEq(a, b), tc.And(tc.FIsNaN(a), tc.FIsNaN(b)))
		}
		return tc.Eq(a, b)
	})
	reg(symPkg+".Near", func(c *ICall) Value {
		a, b, tol := c.term(0), c.term(1), c.term(2)
		tc := c.e.tc
		if a == b {
			return tc.True
		}
		if a.s.K == KReal {
			d := tc.Sub(a, b)
			if d.isConst() && d.r.Sign() == 0 {
				return tc.True
			}
			if z := tc.clearInv(d); z.isConst() && z.r.Sign() == 0 {
				return tc.True
			}
			return tc.And(tc.RLe(d, tol), tc.RLe(tc.Neg(tol), d))
		}
		d := tc.Sub(a, b)
		return tc.And(tc.FLe(d, tol), tc.FLe(tc.FNeg(tol), d))
	})
	reg(symPkg+".LE", func(c *ICall) Value {
		a, b := c.term(0), c.term(1)
		tc := c.e.tc
		switch a.s.K {
		case KReal:
			return tc.RLe(a, b)
		case KFP:
			return tc.FLe(a, b)
		}
		bt, ok := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Basic)
		if ok && bt.Info()&types.IsUnsigned != 0 {
			return tc.ULe(a, b)
		}
		return tc.SLe(a, b)
	})
	reg(symPkg+".Deriv", func(c *ICall) Value {
		// Deriv(f func(T) T, x T) T: d f(x) / dx along the path taken by f
		cl := c.args[0].(*Closure)
		x := c.term(1)
		if x.op != OVar {
			unsup("Deriv at a non-variable")
		}
		e := c.e
		n := len(c.s.frames)
		st, v := e.callClosure(c.s, cl, []Value{x}, nil, nil)
		if len(c.s.frames) == n {
			if st != nil || v == nil {
				unsup("Deriv of intrinsic")
			}
			d := e.tc.Diff(v.(*Term), x)
			if d == nil {
				unsup("derivative not known")
			}
			return d
		}
		ret := c.ret
		e.fn(c.s).hook = func(e *Exec, s *State, res Value) []*State {
			d := e.tc.Diff(res.(*Term), x)
			if d == nil {
				unsup("derivative not known")
			}
			if ret != nil {
				e.set(e.fn(s), ret, d)
			}
			return nil
		}
		return nil
	})

	// ---- math ----
	reg("math.Abs", func(c *ICall) Value { return c.e.tc.FAbs(c.term(0)) })
	reg("math.Sqrt", func(c *ICall) Value {
		t := c.term(0)
		if t.s.K == KReal {
			z := c.e.tc.RLt(t, c.e.tc.RealI(0))
			if z != c.e.tc.False && c.e.feasible(c.s, z) {
				c.e.reportSoft(c.s, z, "square root of a negative number")
				c.e.assume(c.s, c.e.tc.Not(z))
			}
			return c.e.tc.RSqrt(t)
		}
		return c.e.tc.FSqrt(t)
	})
	for n, m := range map[string]int{"Floor": 3, "Ceil": 2, "Trunc": 1, "RoundToEven": 0} {
		m := m
		reg("math."+n, func(c *ICall) Value {
			r := c.e.tc.FRound(c.term(0), m)
			if r == nil {
				unsup("rounding mode over reals")
			}
			return r
		})
	}
	reg("math.Round", func(c *ICall) Value {
		t := c.term(0)
		tc := c.e.tc
		if t.s.K == KReal {
			half := tc.RealC(big.NewRat(1, 2))
			return tc.Ite(tc.RLt(t, tc.RealI(0)), tc.Neg(tc.RFloor(tc.Add(tc.Neg(t), half))), tc.RFloor(tc.Add(t, half)))
		}
		if t.isConst() {
			return tc.F64c(math.Round(t.cF()))
		}
		// round half away from zero
		tr := tc.FRound(t, 1)
		d := tc.FAbs(tc.Sub(t, tr))
		one := tc.Ite(tc.FLt(t, tc.F64c(0)), tc.F64c(-1), tc.F64c(1))
		return tc.Ite(tc.FLe(tc.F64c(0.5), d), tc.Add(tr, one), tr)
	})
	mathFn("Exp", func(c *TC, t *Term) *Term { return c.RExp(t) }, math.Exp)
	mathFn("Tanh", func(c *TC, t *Term) *Term { return c.RTanh(t) }, math.Tanh)
	mathFn("Sinh", func(c *TC, t *Term) *Term { return c.RSinh(t) }, math.Sinh)
	mathFn("Cosh", func(c *TC, t *Term) *Term { return c.RCosh(t) }, math.Cosh)
	mathFn("Sin", func(c *TC, t *Term) *Term { return c.RSin(t) }, math.Sin)
	mathFn("Cos", func(c *TC, t *Term) *Term { return c.RCos(t) }, math.Cos)
	mathFn("Log", func(c *TC, t *Term) *Term {
		if t.isConst() && t.r.Sign() > 0 {
			f, _ := t.r.Float64()
			r := new(big.Rat)
			r.SetFloat64(math.Log(f))
			return c.RealC(r)
		}
		return nil
	}, math.Log)
	mathFn("Expm1", func(c *TC, t *Term) *Term { return c.Sub(c.RExp(t), c.RealI(1)) }, math.Expm1)
	mathFn("Log1p", func(c *TC, t *Term) *Term { return nil }, math.Log1p)
	mathFn("Erf", func(c *TC, t *Term) *Term { return nil }, math.Erf)
	mathFn("Exp2", func(c *TC, t *Term) *Term { return nil }, math.Exp2)
	mathFn("Tan", func(c *TC, t *Term) *Term { return nil }, math.Tan)
	reg("math.Pow", func(c *ICall) Value {
		x, y := c.term(0), c.term(1)
		tc := c.e.tc
		if x.s.K == KReal {
			if x.isConst() && y.isConst() {
				a, _ := x.r.Float64()
				b, _ := y.r.Float64()
				return tc.FloatConst(64, math.Pow(a, b))
			}
			return tc.RPow(x, y)
		}
		if x.isConst() && y.isConst() {
			return tc.F64c(math.Pow(x.cF(), y.cF()))
		}
		r := tc.UF("math.Pow", x.s, x, y)
		if y.isConst() {
			if q := y.cF(); q == math.Trunc(q) && q > 0 && q < 16 {
				n := "Pow3"
				if math.Mod(q, 2) == 0 {
					n = "Pow2"
				}
				ieeeFacts(tc, n, x, r, func(v float64) float64 { return math.Pow(v, q) })
			}
		}
		return r
	})
	reg("math.Hypot", func(c *ICall) Value {
		x, y := c.term(0), c.term(1)
		tc := c.e.tc
		if x.s.K == KReal {
			return tc.RSqrt(tc.Add(tc.Mul(x, x), tc.Mul(y, y)))
		}
		return tc.UF("math.Hypot", x.s, x, y)
	})
	minmax := func(isMax bool) Intrinsic {
		return func(c *ICall) Value {
			x, y := c.term(0), c.term(1)
			tc := c.e.tc
			var lt *Term
			if isMax {
				lt = tc.FLt(x, y)
			} else {
				lt = tc.FLt(y, x)
			}
			r := tc.Ite(lt, y, x)
			if x.s.K == KFP {
				nan := tc.F64c(math.NaN())
				inf := tc.F64c(math.Inf(1))
				if !isMax {
					inf = tc.F64c(math.Inf(-1))
				}
				isinf := tc.Or(tc.FEq(x, inf), tc.FEq(y, inf))
				r = tc.Ite(isinf, inf, tc.Ite(tc.Or(tc.FIsNaN(x), tc.FIsNaN(y)), nan, r))
			}
			return r
		}
	}
	reg("math.Max", minmax(true))
	reg("math.Min", minmax(false))
	reg("math.Mod", func(c *ICall) Value {
		x, y := c.term(0), c.term(1)
		tc := c.e.tc
		if x.s.K == KReal {
			q := tc.FRound(tc.Div(x, y), 1)
			return tc.Sub(x, tc.Mul(y, q))
		}
		if x.isConst() && y.isConst() {
			return tc.F64c(math.Mod(x.cF(), y.cF()))
		}
		return tc.UF("math.Mod", x.s, x, y)
	})
	reg("math.IsNaN", func(c *ICall) Value { return c.e.tc.FIsNaN(c.term(0)) })
	reg("math.IsInf", func(c *ICall) Value {
		x, sg := c.term(0), c.term(1)
		tc := c.e.tc
		if x.s.K == KReal {
			return tc.False
		}
		z := tc.BVc(64, 0)
		pos := tc.And(tc.SLe(z, sg), tc.FEq(x, tc.F64c(math.Inf(1))))
		neg := tc.And(tc.SLe(sg, z), tc.FEq(x, tc.F64c(math.Inf(-1))))
		return tc.Or(pos, neg)
	})
	reg("math.Inf", func(c *ICall) Value {
		sg := c.term(0)
		if !sg.isConst() {
			unsup("math.Inf of symbolic sign")
		}
		return c.e.tc.F64c(math.Inf(int(sg.cS())))
	})
	reg("math.NaN", func(c *ICall) Value { return c.e.tc.F64c(math.NaN()) })
	bitsF := func(c *ICall) Value {
		t := c.e.tc.FToBits(c.term(0))
		if t == nil {
			unsup("float bits in the real encoding")
		}
		return t
	}
	reg("math.Float32bits", bitsF)
	reg("math.Float64bits", bitsF)
	fromBits := func(c *ICall) Value {
		if c.e.tc.RealMode {
			t := c.term(0)
			if t.isConst() {
				if t.s.W == 32 {
					return c.e.tc.FloatConst(32, float64(math.Float32frombits(uint32(t.u))))
				}
				return c.e.tc.FloatConst(64, math.Float64frombits(t.u))
			}
			unsup("float bits in the real encoding")
		}
		return c.e.tc.BitsToF(c.term(0))
	}
	reg("math.Float32frombits", fromBits)
	reg("math.Float64frombits", fromBits)
	reg("math.Signbit", func(c *ICall) Value {
		t := c.term(0)
		tc := c.e.tc
		if t.s.K == KReal {
			return tc.RLt(t, tc.RealI(0))
		}
		b := tc.FToBits(t)
		return tc.Eq(tc.Extract(b, 63, 63), tc.BVc(1, 1))
	})
	reg("math.Copysign", func(c *ICall) Value {
		x, y := c.term(0), c.term(1)
		tc := c.e.tc
		a := tc.FAbs(x)
		if x.s.K == KReal {
			return tc.Ite(tc.RLt(y, tc.RealI(0)), tc.Neg(a), a)
		}
		b := tc.FToBits(y)
		return tc.Ite(tc.Eq(tc.Extract(b, 63, 63), tc.BVc(1, 1)), tc.FNeg(a), a)
	})

	// ---- math/rand ----
	var norm1 func(c *ICall) Value
	for _, pk := range []string{"math/rand.", "math/rand/v2.", "(*math/rand.Rand).", "(*math/rand/v2.Rand)."} {
		recv := 0
		if pk[0] == '(' {
			recv = 1
		}
		unit := func(c *ICall) Value {
			w := floatW(c.fn.Signature.Results().At(0).Type())
			v := c.e.newSym(c.s, fmt.Sprintf("env:rand.Float%d", w), c.fn.Signature.Results().At(0).Type())
			tc := c.e.tc
			base := v
			if v.op == OBitsToFP {
				base = v.a[0]
			}
			if !tc.axiomFor[base.id] {
				tc.axiomFor[base.id] = true
				tc.axiom(base, tc.And(tc.FLe(tc.FloatConst(w, 0), v), tc.FLt(v, tc.FloatConst(w, 1))))
			}
			c.e.note("math/rand.Float* returns an arbitrary number in [0,1)")
			return v
		}
		reg(pk+"Float64", unit)
		reg(pk+"Float32", unit)
		norm := func(c *ICall) Value {
			v := c.e.newSym(c.s, "env:rand.Norm", types.Typ[types.Float64])
			tc := c.e.tc
			base := v
			if v.op == OBitsToFP {
				base = v.a[0]
			}
			if !tc.axiomFor[base.id] {
				tc.axiomFor[base.id] = true
				tc.axiom(base, tc.And(tc.FLe(tc.FloatConst(64, -40), v), tc.FLe(v, tc.FloatConst(64, 40))))
			}
			c.e.note("math/rand.NormFloat64 returns an arbitrary number of magnitude at most 40")
			return v
		}
		reg(pk+"NormFloat64", norm)
		norm1 = norm
		intn := func(c *ICall) Value {
			nt := c.term(recv)
			rt := c.fn.Signature.Results().At(0).Type()
			n, sts := c.e.concretize(c.s, nt, "rand.Intn bound", maxSplit)
			if sts != nil {
				unsup("rand.Intn with symbolic bound")
			}
			if n.cS() <= 0 {
				c.states = c.e.doPanic(c.s, nil, "invalid argument to Intn")
				return nil
			}
			c.e.note("math/rand.Intn returns an arbitrary number below its bound (case split)")
			v := c.e.newSym(c.s, "env:rand.Intn", rt)
			tc := c.e.tc
			if n.u == 1 {
				c.e.assume(c.s, tc.Eq(v, tc.BVc(v.s.W, 0)))
				return tc.BVc(v.s.W, 0)
			}
			if n.u > maxSplit {
				c.e.assume(c.s, tc.ULt(v, tc.BVc(v.s.W, n.u)))
				return v
			}
			var out []*State
			for k := uint64(0); k < n.u; k++ {
				st := c.s.clone()
				kt := tc.BVc(v.s.W, k)
				c.e.assume(st, tc.Eq(v, kt))
				st.token += fmt.Sprintf("/%d=%d", v.id, k)
				c.setRet(st, kt)
				out = append(out, st)
			}
			c.states = out
			return nil
		}
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N", "UintN", "Uint64N", "Uint32N"} {
			reg(pk+n, intn)
		}
		word := func(c *ICall) Value {
			return c.e.newSym(c.s, "env:rand.Int", c.fn.Signature.Results().At(0).Type())
		}
		for _, n := range []string{"Uint32", "Uint64"} {
			reg(pk+n, word)
		}
		nonneg := func(c *ICall) Value {
			v := c.e.newSym(c.s, "env:rand.Int", c.fn.Signature.Results().At(0).Type())
			c.e.assume(c.s, c.e.tc.SLe(c.e.tc.BVc(v.s.W, 0), v))
			return v
		}
		for _, n := range []string{"Int", "Int63", "Int64", "Int31", "Int32"} {
			reg(pk+n, nonneg)
		}
		reg(pk+"Seed", func(c *ICall) Value { return Tup{} })
	}
	reg(symPkg+".Norms", func(c *ICall) Value { return c.e.tc.Int(int64(c.s.cnt["env:rand.Norm"])) })
	reg(symPkg+".Norm", func(c *ICall) Value {
		k := c.term(0)
		if !k.isConst() {
			unsup("symbolic draw")
		}
		n := c.s.cnt["env:rand.Norm"]
		c.s.cnt["env:rand.Norm"] = int(k.u)
		v := norm1(c)
		c.s.cnt["env:rand.Norm"] = n
		return v
	})
	reg("math/rand.New", func(c *ICall) Value {
		return Ptr{c.e.alloc(c.s, c.e.zeroCells(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), nil)), 0}
	})
	reg("math/rand.NewSource", func(c *ICall) Value { return Iface{types.Typ[types.Int], c.e.tc.Int(0)} })

	// ---- fmt ----
	reg("fmt.Sprintf", func(c *ICall) Value { return c.e.sprintf(c.s, c.args[0].(Str), c.args[1].(Slice)) })
	reg("fmt.Sprint", func(c *ICall) Value { return c.e.sprint(c.s, c.args[0].(Slice), false) })
	reg("fmt.Sprintln", func(c *ICall) Value { return c.e.sprint(c.s, c.args[0].(Slice), true) })
	reg("fmt.Errorf", func(c *ICall) Value {
		st := c.e.sprintf(c.s, c.args[0].(Str), c.args[1].(Slice))
		// keep a wrapped error reachable for errors.Is/As
		sl := c.args[1].(Slice)
		if strings.Contains(c.str(0), "%w") && sl.Len > 0 {
			for _, v := range c.e.loadCells(c.s, Ptr{sl.Obj, sl.Off}, sl.Len) {
				i, ok := v.(Iface)
				if ok && i.T != nil && types.Implements(i.T, errorIface) {
					if p := c.e.prog.ImportedPackage("fmt"); p != nil && p.Type("wrapError") != nil {
						t := p.Type("wrapError").Type()
						return Iface{types.NewPointer(t), Ptr{c.e.alloc(c.s, []Value{st, i}), 0}}
					}
				}
			}
		}
		er := c.e.mkError(c.s, st.S).(Iface)
		c.e.store(c.s, er.V.(Ptr), st)
		return er
	})
	nop := func(c *ICall) Value { return c.e.zero(resultType(c.fn)) }
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf",
		"log.Print", "log.Println", "log.Printf",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"time.Now", "time.Since", "time.Sleep", "(time.Time).Sub", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).After", "(time.Time).Before", "time.Until",
		"(*os.File).Fd", "(*os.File).Close", "(*os.File).Sync", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive",
	} {
		n := n
		reg(n, func(c *ICall) Value {
			if !strings.Contains(n, "sync.") {
				c.e.note("stub: " + n + " has no effect and returns zero")
			}
			return nop(c)
		})
	}
	reg("(*sync.Mutex).TryLock", func(c *ICall) Value { return c.e.tc.True })
	reg("(*sync.WaitGroup).Go", func(c *ICall) Value {
		st, v := c.e.callClosure(c.s, c.args[1].(*Closure), nil, nil, nil)
		c.states = st
		if v == nil {
			return nil
		}
		return Tup{}
	})
	reg("runtime.NumCPU", func(c *ICall) Value { return c.e.tc.Int(4) })
	reg("runtime.GOMAXPROCS", func(c *ICall) Value { return c.e.tc.Int(4) })
	term := func(c *ICall) Value {
		c.e.note("stub: standard output is not a terminal")
		return Tup{c.e.tc.Int(0), c.e.tc.Int(0), c.e.mkError(c.s, "inappropriate ioctl for device")}
	}
	reg("golang.org/x/crypto/ssh/terminal.GetSize", term)
	reg("golang.org/x/term.GetSize", term)
	reg("golang.org/x/term.IsTerminal", func(c *ICall) Value { return c.e.tc.False })
	reg("golang.org/x/crypto/ssh/terminal.IsTerminal", func(c *ICall) Value { return c.e.tc.False })

	// ---- errors ----
	reg("errors.New", func(c *ICall) Value {
		er := c.e.mkError(c.s, "").(Iface)
		c.e.store(c.s, er.V.(Ptr), c.args[0])
		return er
	})
	reg("errors.Is", func(c *ICall) Value {
		tgt := c.args[1].(Iface)
		cur := c.args[0].(Iface)
		for k := 0; k < 20 && cur.T != nil; k++ {
			if q := c.e.eqVal(c.s, cur, tgt, nil); q != c.e.tc.False {
				return q
			}
			if strings.HasSuffix(cur.T.String(), "*fmt.wrapError") {
				cur = c.e.load(c.s, Ptr{cur.V.(Ptr).Obj, 1}, errorT).(Iface)
				continue
			}
			break
		}
		return c.e.tc.Bool(cur.T == nil && tgt.T == nil)
	})

	// ---- strings ----
	sbGet := func(c *ICall) (Ptr, Str) {
		p, ok := c.args[0].(Ptr)
		if !ok || p.Obj == 0 {
			unsup("strings.Builder receiver")
		}
		v := c.e.loadCells(c.s, Ptr{p.Obj, p.Off + 1}, 1)[0]
		st, _ := v.(Str)
		return p, st
	}
	sbAdd := func(c *ICall, x Str) {
		p, st := sbGet(c)
		c.e.store(c.s, Ptr{p.Obj, p.Off + 1}, Str{st.S + x.S, st.Opaque || x.Opaque})
	}
	reg("(*strings.Builder).WriteString", func(c *ICall) Value {
		x := c.args[1].(Str)
		sbAdd(c, x)
		return Tup{c.e.tc.Int(int64(len(x.S))), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(c *ICall) Value {
		t := c.term(1)
		if t.isConst() {
			sbAdd(c, Str{S: string([]byte{byte(t.u)})})
		} else {
			sbAdd(c, Str{poison, true})
		}
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(c *ICall) Value {
		t := c.term(1)
		st := "?"
		if t.isConst() {
			st = string(rune(t.cS()))
		}
		sbAdd(c, Str{st, !t.isConst()})
		return Tup{c.e.tc.Int(int64(len(st))), Iface{}}
	})
	reg("(*strings.Builder).String", func(c *ICall) Value { _, s := sbGet(c); return s })
	reg("(*strings.Builder).Len", func(c *ICall) Value { _, s := sbGet(c); return c.e.tc.Int(int64(len(s.S))) })
	reg("(*strings.Builder).Reset", func(c *ICall) Value {
		p, _ := sbGet(c)
		c.e.store(c.s, Ptr{p.Obj, p.Off + 1}, Str{})
		return Tup{}
	})
	reg("(*strings.Builder).Grow", func(c *ICall) Value { return Tup{} })
	reg("strings.Repeat", func(c *ICall) Value {
		st := c.args[0].(Str)
		n, sts := c.e.concretize(c.s, c.term(1), "strings.Repeat count", 512)
		if sts != nil {
			// retry on each
			for _, x := range sts {
				k := c.e.simp(x, c.term(1))
				if k.cS() < 0 {
					unsup("negative repeat count on a split path")
				}
				c.setRet(x, Str{strings.Repeat(st.S, int(k.cS())), st.Opaque})
			}
			c.states = sts
			return nil
		}
		if n.cS() < 0 {
			c.states = c.e.doPanic(c.s, nil, "strings: negative Repeat count")
			return nil
		}
		return Str{strings.Repeat(st.S, int(n.cS())), st.Opaque}
	})
	reg("strings.Join", func(c *ICall) Value {
		sl := c.args[0].(Slice)
		var ps []string
		op := false
		if sl.Len > 0 {
			for _, v := range c.e.loadCells(c.s, Ptr{sl.Obj, sl.Off}, sl.Len) {
				x := v.(Str)
				ps = append(ps, x.S)
				op = op || x.Opaque
			}
		}
		return Str{strings.Join(ps, c.str(1)), op}
	})
	for n, f := range map[string]func(a, b string) bool{"Contains": strings.Contains, "HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix} {
		f := f
		reg("strings."+n, func(c *ICall) Value { return c.e.tc.Bool(f(c.str(0), c.str(1))) })
	}
	for n, f := range map[string]func(a string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace} {
		f := f
		reg("strings."+n, func(c *ICall) Value { x := c.args[0].(Str); return Str{f(x.S), x.Opaque} })
	}
	reg("unicode/utf8.RuneCountInString", func(c *ICall) Value {
		return c.e.tc.Int(int64(len([]rune(c.str(0)))))
	})
	reg("strconv.Itoa", func(c *ICall) Value {
		t := c.term(0)
		if t.isConst() {
			return Str{S: strconv.Itoa(int(t.cS()))}
		}
		return Str{fmt.Sprint(c.e.markOf(t, types.Typ[types.Int])), true}
	})
	reg("strconv.FormatInt", func(c *ICall) Value {
		t, b := c.term(0), c.term(1)
		if t.isConst() && b.isConst() {
			return Str{S: strconv.FormatInt(t.cS(), int(b.u))}
		}
		return Str{poison, true}
	})
	reg("strconv.FormatUint", func(c *ICall) Value {
		t, b := c.term(0), c.term(1)
		if t.isConst() && b.isConst() {
			return Str{S: strconv.FormatUint(t.u, int(b.u))}
		}
		return Str{poison, true}
	})
	reg("strconv.FormatFloat", func(c *ICall) Value { return Str{poison, true} })

	// encoding/binary: values of platform-dependent size are refused (as by the real package)
	varSize := func(c *ICall) bool {
		i, ok := c.args[2].(Iface)
		if !ok || i.T == nil {
			return true
		}
		t := i.T
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		} else if sl, ok := under(t).(*types.Slice); ok {
			t = sl.Elem()
		}
		b, ok := under(t).(*types.Basic)
		if !ok {
			unsup("encoding/binary on %s", t)
		}
		switch b.Kind() {
		case types.Int, types.Uint, types.String, types.Uintptr:
			return true
		}
		if _, named := t.(*types.Named); named {
			unsup("encoding/binary on named type %s", t)
		}
		return false
	}
	wr := func(c *ICall) Value {
		if varSize(c) {
			return c.e.mkError(c.s, "binary: some values are not fixed-sized")
		}
		c.e.pushFrame(c.s, c.fn, c.args, nil, c.ret)
		return nil
	}
	// files that hold images
	symFn := func(c *ICall, n string) *ssa.Function {
		p := c.e.prog.ImportedPackage(symPkg)
		if p == nil || p.Func(n) == nil {
			unsup("no %s", n)
		}
		return p.Func(n)
	}
	file := func(c *ICall, path Str) Value {
		p := c.e.prog.ImportedPackage("os")
		if p == nil {
			unsup("package os not loaded")
		}
		return Ptr{c.e.alloc(c.s, []Value{path}), 0}
	}
	open := func(read, write bool) Intrinsic {
		return func(c *ICall) Value {
			st := c.args[0].(Str)
			if st.Opaque {
				unsup("file name from symbolic numbers")
			}
			c.e.note("stub: files exist and can be created where the harness says so")
			if read && strings.HasPrefix(st.S, "VERIFIMG") || write && (strings.HasPrefix(st.S, "VERIFNEW") || st.S == "/dev/full") {
				return Tup{file(c, st), Iface{}}
			}
			return Tup{Ptr{}, c.e.mkError(c.s, "no such file or directory")}
		}
	}
	reg("image.RegisterFormat", func(c *ICall) Value { return Tup{} })
	reg("os.Open", open(true, false))
	reg("os.Create", open(false, true))
	reg("(*os.File).Name", func(c *ICall) Value { return c.e.load(c.s, c.args[0].(Ptr), types.Typ[types.String]) })
	reg("image.Decode", func(c *ICall) Value {
		c.e.note("stub: image.Decode gives the image the harness put in the file")
		c.e.pushFrame(c.s, symFn(c, "DecodeHook"), c.args, nil, c.ret)
		return nil
	})
	reg("(*image/png.Encoder).Encode", func(c *ICall) Value {
		c.e.note("stub: the encoders record the image, or fail where the harness says so")
		c.e.pushFrame(c.s, symFn(c, "EncodeHook"), []Value{c.args[1], c.args[2], Str{S: "png"}, c.e.tc.Int(0)}, nil, c.ret)
		return nil
	})
	reg("image/jpeg.Encode", func(c *ICall) Value {
		c.e.note("stub: the encoders record the image, or fail where the harness says so")
		q := Value(c.e.tc.Int(75))
		if o, ok := c.args[2].(Ptr); ok && o.Obj != 0 {
			q = c.e.load(c.s, o, types.Typ[types.Int])
		}
		c.e.pushFrame(c.s, symFn(c, "EncodeHook"), []Value{c.args[0], c.args[1], Str{S: "jpeg"}, q}, nil, c.ret)
		return nil
	})
	reg(symPkg+".imageFile", func(c *ICall) Value { return Str{S: "VERIFIMG" + c.str(0)} })
	reg(symPkg+".NewFile", func(c *ICall) Value { return Str{S: "VERIFNEW" + c.str(0)} })
	reg(symPkg+".NoFile", func(c *ICall) Value { return Str{S: "missing/file"} })
	reg("encoding/binary.Write", wr)
	reg("encoding/binary.Read", wr)
}

var errorT = types.Universe.Lookup("error").Type()
var errorIface = errorT.Underlying().(*types.Interface)

// toGo converts a concrete value for formatting; ok=false if anything symbolic is inside.
func (e *Exec) toGo(s *State, v Value, depth int) (any, bool) {
	i, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if i.T == nil {
		return nil, true
	}
	switch x := i.V.(type) {
	case *Term:
		x = e.simp(s, x)
		if !x.isConst() {
			return nil, false
		}
		b, ok := under(i.T).(*types.Basic)
		if !ok {
			return nil, false
		}
		if _, named := i.T.(*types.Named); named && depth == 0 {
			// may have a String method: do not guess
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.u == 1, true
		case types.Int:
			return int(x.cS()), true
		case types.Int8:
			return int8(x.cS()), true
		case types.Int16:
			return int16(x.cS()), true
		case types.Int32:
			return int32(x.cS()), true
		case types.Int64:
			return x.cS(), true
		case types.Uint:
			return uint(x.u), true
		case types.Uint8:
			return uint8(x.u), true
		case types.Uint16:
			return uint16(x.u), true
		case types.Uint32:
			return uint32(x.u), true
		case types.Uint64:
			return x.u, true
		case types.Float32:
			if x.s.K == KReal {
				f, _ := x.r.Float64()
				return float32(f), true
			}
			return float32(x.cF()), true
		case types.Float64:
			if x.s.K == KReal {
				f, _ := x.r.Float64()
				return f, true
			}
			return x.cF(), true
		}
	case Str:
		if x.Opaque {
			return nil, false
		}
		return x.S, true
	}
	return nil, false
}

func (e *Exec) sprintf(s *State, f Str, sl Slice) Str {
	var args []any
	op := f.Opaque
	if sl.Len > 0 {
		for _, v := range e.loadCells(s, Ptr{sl.Obj, sl.Off}, sl.Len) {
			g, ok := e.toGo(s, v, 0)
			if !ok {
				op = true
				g = e.textArg(s, v)
			}
			args = append(args, g)
		}
	}
	if op {
		if f.Opaque {
			return Str{f.S + poison, true}
		}
		return Str{fmt.Sprintf(f.S, args...), true}
	}
	return Str{S: fmt.Sprintf(f.S, args...)}
}

func (e *Exec) sprint(s *State, sl Slice, ln bool) Str {
	var args []any
	op := false
	if sl.Len > 0 {
		for _, v := range e.loadCells(s, Ptr{sl.Obj, sl.Off}, sl.Len) {
			g, ok := e.toGo(s, v, 0)
			if !ok {
				op = true
				g = e.textArg(s, v)
			}
			args = append(args, g)
		}
	}
	if ln {
		return Str{fmt.Sprintln(args...), op}
	}
	return Str{fmt.Sprint(args...), op}
}
