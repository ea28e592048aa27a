package h

import (
	"math"

	"github.com/julioguillermo/godeep/activation"

	"verifharness/sym"
)

func c12In() float64 {
	x := sym.Num[float64]("x")
	sym.Assume(x > -300 && x < 300)
	return x
}

func c12Par(name string) float64 {
	a := sym.Num[float64](name)
	sym.Assume(a > -8 && a < 8)
	return a
}

const c12Bound = "every real input within (-300,300), parameters within (-8,8), exact real arithmetic"

func sigmoidRef(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

func geluRef(x float64) float64 {
	return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
}

func eluRef(x, a float64) float64 {
	if x < 0 {
		return a * (math.Exp(x) - 1)
	}
	return x
}

func reluRef(x, a float64) float64 {
	if x < 0 {
		return a * x
	}
	return x
}

func c12(act activation.Activation[float64], want func(x float64) float64) {
	sym.Bound(c12Bound)
	x := c12In()
	sym.Assert(sym.Same(act.Activate(x), want(x)), "value")
	// float32 computes the same function
}

func c12f32(act activation.Activation[float32], want func(x float64) float64) {
	sym.Bound(c12Bound + ", float32")
	x := sym.Num[float32]("x")
	sym.Assume(x > -300 && x < 300)
	sym.Assert(sym.Near(float64(act.Activate(x)), want(float64(x)), 1e-4), "value (float32)")
}

func C12_Linear_Real()  { c12(activation.Linear[float64]{}, func(x float64) float64 { return x }) }
func C12_Sigmoid_Real() { c12(activation.Sigmoid[float64]{}, sigmoidRef) }
func C12_Tanh_Real()    { c12(activation.Tanh[float64]{}, math.Tanh) }
func C12_Sin_Real()     { c12(activation.Sin[float64]{}, math.Sin) }
func C12_Swish_Real() {
	c12(activation.Swish[float64]{}, func(x float64) float64 { return x * sigmoidRef(x) })
}
func C12_GELU_Real() { c12(activation.GELU[float64]{}, geluRef) }
func C12_Relu_Real() {
	a := c12Par("alpha")
	c12(activation.Relu[float64]{Alpha: a}, func(x float64) float64 { return reluRef(x, a) })
}
func C12_ELU_Real() {
	a := c12Par("alpha")
	c12(activation.ELU[float64]{Alpha: a}, func(x float64) float64 { return eluRef(x, a) })
}
func C12_SELU_Real() {
	a, l := c12Par("alpha"), c12Par("lambda")
	c12(activation.SELU[float64]{ELU: activation.ELU[float64]{Alpha: a}, Lambda: l},
		func(x float64) float64 { return l * eluRef(x, a) })
}

func C12_Linear32_Real()  { c12f32(activation.Linear[float32]{}, func(x float64) float64 { return x }) }
func C12_Sigmoid32_Real() { c12f32(activation.Sigmoid[float32]{}, sigmoidRef) }
func C12_Tanh32_Real()    { c12f32(activation.Tanh[float32]{}, math.Tanh) }
func C12_Sin32_Real()     { c12f32(activation.Sin[float32]{}, math.Sin) }
func C12_Swish32_Real() {
	c12f32(activation.Swish[float32]{}, func(x float64) float64 { return x * sigmoidRef(x) })
}
func C12_GELU32_Real() { c12f32(activation.GELU[float32]{}, geluRef) }
func C12_ELU32_Real() {
	a := float32(c12Par("alpha"))
	c12f32(activation.ELU[float32]{Alpha: a}, func(x float64) float64 { return eluRef(x, float64(a)) })
}

// exact machine arithmetic where the formula needs none but one product
func C12_ReluExact() {
	sym.Bound("every float32 input and slope but NaN; every int16 input and slope")
	a, x := sym.Num[float32]("alpha"), sym.Num[float32]("x")
	sym.Assume(a == a && x == x)
	r := activation.Relu[float32]{Alpha: a}.Activate(x)
	if x < 0 {
		sym.Assert(sym.Same(r, x*a), "leaky part")
	} else {
		sym.Assert(sym.Same(r, x), "linear part")
	}
	sym.Assert(sym.Same(activation.Linear[float32]{}.Activate(x), x), "Linear")
	b, y := sym.Num[int16]("beta"), sym.Num[int16]("y")
	q := activation.Relu[int16]{Alpha: b}.Activate(y)
	if y < 0 {
		sym.Assert(q == y*b, "leaky part (int16)")
	} else {
		sym.Assert(q == y, "linear part (int16)")
	}
	sym.Assert(activation.Linear[int16]{}.Activate(y) == y, "Linear (int16)")
}

// saturated inputs: the limits of the formulas, in IEEE arithmetic
func c12Tail[T float32 | float64](big T, kind int) (T, bool) {
	x := sym.Num[T]("x")
	if sym.Pick("side", 0, 1) == 1 {
		sym.Assume(x >= 100 && x <= big)
		return x, true
	}
	sym.Assume(x <= -100 && x >= -big)
	return x, false
}

func within[T float32 | float64](x, lo, hi T) bool { return x >= lo && x <= hi }

func c12TailOf[T float32 | float64](big T, which int) {
	x, pos := c12Tail[T](big, which)
	eps := T(1e-5)
	switch which {
	case 0:
		r := activation.Sigmoid[T]{}.Activate(x)
		if pos {
			sym.Assert(within(r, 1-eps, 1), "Sigmoid far right")
		} else {
			sym.Assert(within(r, 0, eps), "Sigmoid far left")
		}
	case 1:
		r := activation.Tanh[T]{}.Activate(x)
		if pos {
			sym.Assert(within(r, 1-eps, 1), "Tanh far right")
		} else {
			sym.Assert(within(r, -1, -1+eps), "Tanh far left")
		}
	case 2:
		r := activation.Swish[T]{}.Activate(x)
		if pos {
			sym.Assert(r >= 99, "Swish far right")
		} else {
			sym.Assert(within(r, -eps, 0), "Swish far left")
		}
	case 3:
		r := activation.GELU[T]{}.Activate(x)
		if pos {
			sym.Assert(r >= 99, "GELU far right")
		} else {
			sym.Assert(within(r, -eps, 0), "GELU far left")
		}
	case 4:
		r := activation.ELU[T]{Alpha: 2}.Activate(x)
		if pos {
			sym.Assert(r == x, "ELU far right")
		} else {
			sym.Assert(within(r, -2, -2+eps), "ELU far left")
		}
	case 5:
		r := activation.SELU[T]{ELU: activation.ELU[T]{Alpha: 2}, Lambda: 3}.Activate(x)
		if pos {
			sym.Assert(r == 3*x, "SELU far right")
		} else {
			sym.Assert(within(r, -6, -6+eps), "SELU far left")
		}
	}
}

const c12TailBound = " beyond +-100; exp, tanh and powers abstracted by monotone interval facts"

func C12_TailSigmoid32() { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 0) }
func C12_TailTanh32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 1) }
func C12_TailSwish32()   { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 2) }
func C12_TailGELU32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 3) }
func C12_TailELU32()     { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 4) }
func C12_TailSELU32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c12TailOf[float32](1e6, 5) }
func C12_TailSigmoid64() {
	sym.Bound("float64 up to 1e6" + c12TailBound)
	c12TailOf[float64](1e6, 0)
}
func C12_TailTanh64()  { sym.Bound("float64 up to 1e6" + c12TailBound); c12TailOf[float64](1e6, 1) }
func C12_TailSwish64() { sym.Bound("float64 up to 1e6" + c12TailBound); c12TailOf[float64](1e6, 2) }
func C12_TailGELU64()  { sym.Bound("float64 up to 1e6" + c12TailBound); c12TailOf[float64](1e6, 3) }
func C12_TailELU64()   { sym.Bound("float64 up to 1e6" + c12TailBound); c12TailOf[float64](1e6, 4) }
