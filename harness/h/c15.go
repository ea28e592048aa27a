package h

import (
	"github.com/julioguillermo/godeep/scalar"

	"verifharness/sym"
)

// sc is an arbitrary scalar of the given kind (0 half, 1 single, 2 double).
func sc(kind int, name string) scalar.Scalar {
	switch kind {
	case 0:
		return &scalar.F16{Value: sym.Num[uint16](name + "16")}
	case 1:
		return scalar.NewF32(sym.Num[float32](name + "32"))
	}
	return scalar.NewF64(sym.Num[float64](name + "64"))
}

func kindOf(s scalar.Scalar) int {
	switch s.(type) {
	case *scalar.F16:
		return 0
	case *scalar.F32:
		return 1
	case *scalar.F64:
		return 2
	}
	return -1
}

// raw is an independent scalar with the same representation.
func raw(s scalar.Scalar) scalar.Scalar {
	switch v := s.(type) {
	case *scalar.F16:
		return &scalar.F16{Value: v.Value}
	case *scalar.F32:
		return &scalar.F32{Value: v.Value}
	case *scalar.F64:
		return &scalar.F64{Value: v.Value}
	}
	return nil
}

// eq: same kind and same number (or both NaN).
func eq(a, b scalar.Scalar) bool {
	switch v := a.(type) {
	case *scalar.F16:
		w, ok := b.(*scalar.F16)
		return ok && (v.Value == w.Value || v.Value&0x7fff > 0x7c00 && w.Value&0x7fff > 0x7c00 ||
			v.Value&0x7fff == 0 && w.Value&0x7fff == 0)
	case *scalar.F32:
		w, ok := b.(*scalar.F32)
		return ok && sym.Same(v.Value, w.Value)
	case *scalar.F64:
		w, ok := b.(*scalar.F64)
		return ok && sym.Same(v.Value, w.Value)
	}
	return false
}

func op32(op int, a, b float32) float32 {
	switch op {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

func op64(op int, a, b float64) float64 {
	switch op {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

// want is the operation's result rounded to the receiver's kind.
func c15Want(kind, op int, a, b scalar.Scalar) scalar.Scalar {
	switch kind {
	case 0:
		return scalar.F16fromF32(op32(op, a.G32(), b.G32()))
	case 1:
		return scalar.NewF32(op32(op, a.G32(), b.G32()))
	}
	return scalar.NewF64(op64(op, a.G64(), b.G64()))
}

func doOp(op int, a, b scalar.Scalar) scalar.Scalar {
	switch op {
	case 0:
		return a.Add(b)
	case 1:
		return a.Sub(b)
	case 2:
		return a.Mul(b)
	}
	return a.Div(b)
}

func doSelf(op int, a, b scalar.Scalar) {
	switch op {
	case 0:
		a.SelfAdd(b)
	case 1:
		a.SelfSub(b)
	case 2:
		a.SelfMul(b)
	default:
		a.SelfDiv(b)
	}
}

func c15Pair(ka int) {
	sym.Bound("every value of both operands, all three kinds of the second operand, + - * /")
	kb := sym.Pick("kind", 0, 2)
	op := sym.Pick("operation", 0, 3)
	a, b := sc(ka, "a"), sc(kb, "b")
	a0, b0 := raw(a), raw(b)
	want := c15Want(ka, op, a, b)
	r := doOp(op, a, b)
	sym.Assert(kindOf(r) == ka, "kind of the result")
	sym.Assert(eq(r, want), "value of the result")
	sym.Assert(r != a && r != b, "a new scalar")
	sym.Assert(eq(a, a0) && eq(b, b0), "operands unchanged")
	r.S64(7)
	sym.Assert(eq(a, a0) && eq(b, b0), "result independent of the operands")
	doSelf(op, a, b)
	sym.Assert(eq(a, want), "self-modifying form")
	sym.Assert(eq(b, b0), "self-modifying form leaves the other operand")
}

func C15_Half()   { c15Pair(0) }
func C15_Single() { c15Pair(1) }
func C15_Double() { c15Pair(2) }

func c15Cmp(ka int) {
	sym.Bound("every pair of numbers, all kinds of the second operand")
	a, b := sc(ka, "a"), sc(sym.Pick("kind", 0, 2), "b")
	x, y := a.G64(), b.G64()
	sym.Assume(x == x && y == y)
	r := a.Cmp(b)
	sym.Assert((r == scalar.CmpL) == (x < y), "less")
	sym.Assert((r == scalar.CmpG) == (x > y), "greater")
	sym.Assert((r == scalar.CmpE) == (x == y), "equal")
}

func C15_CmpHalf()   { c15Cmp(0) }
func C15_CmpSingle() { c15Cmp(1) }
func C15_CmpDouble() { c15Cmp(2) }

// copies, setters and constructors
func C15_Copy() {
	sym.Bound("every value of every kind")
	k := sym.Pick("kind", 0, 2)
	a := sc(k, "a")
	x := raw(a)
	c := a.Copy()
	sym.Assert(eq(c, x), "copy is equal")
	c.SelfAdd(scalar.NewF64(1))
	sym.Assert(eq(a, x), "changing the copy leaves the origin")
	c = a.Copy()
	a.S32(2)
	sym.Assert(eq(c, x), "changing the origin leaves the copy")
}

// an operand may be the receiver itself
func C15_SelfAlias() {
	sym.Bound("every value of every kind, + - * /")
	k, op := sym.Pick("kind", 0, 2), sym.Pick("operation", 0, 3)
	a := sc(k, "a")
	want := c15Want(k, op, a, a)
	sym.Assert(eq(doOp(op, a, a), want), "result")
	doSelf(op, a, a)
	sym.Assert(eq(a, want), "self-modifying form")
}

func C15_SetGet() {
	sym.Bound("every value")
	f, d := sym.Num[float32]("f"), sym.Num[float64]("d")
	s := scalar.NewF32(f)
	sym.Assert(sym.Same(s.G32(), f) && sym.Same(s.G64(), float64(f)), "single from single")
	s.S64(d)
	sym.Assert(sym.Same(s.G32(), float32(d)), "single set from double")
	s.S32(f)
	sym.Assert(sym.Same(s.G32(), f), "single set from single")
	sym.Assert(sym.Same(scalar.F32fromF64(d).G32(), float32(d)), "single from double")
	t := scalar.NewF64(d)
	sym.Assert(sym.Same(t.G64(), d) && sym.Same(t.G32(), float32(d)), "double from double")
	t.S32(f)
	sym.Assert(sym.Same(t.G64(), float64(f)), "double set from single")
	t.S64(d)
	sym.Assert(sym.Same(t.G64(), d), "double set from double")
	sym.Assert(sym.Same(scalar.F64fromF32(f).G64(), float64(f)), "double from single")
}
