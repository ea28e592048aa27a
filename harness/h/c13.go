package h

import (
	"github.com/julioguillermo/godeep/activation"

	"verifharness/sym"
)

func c13(act activation.Activation[float64]) {
	sym.Bound(c12Bound + "; points where the formula changes excluded")
	x := c12In()
	sym.Assume(x > 0.001 || x < -0.001)
	sym.Assert(sym.Near(act.Derive(x), sym.Deriv(act.Activate, x), 1e-6), "derivative")
}

func c13f32(act activation.Activation[float32]) {
	sym.Bound(c12Bound + ", float32; points where the formula changes excluded")
	x := sym.Num[float32]("x")
	sym.Assume(x > -300 && x < 300)
	sym.Assume(x > 0.05 || x < -0.05)
	sym.Assert(sym.Near(act.Derive(x), sym.Deriv(act.Activate, x), 0.02), "derivative (float32)")
}

func C13_Linear_Real()  { c13(activation.Linear[float64]{}) }
func C13_Sigmoid_Real() { c13(activation.Sigmoid[float64]{}) }
func C13_Tanh_Real()    { c13(activation.Tanh[float64]{}) }
func C13_Sin_Real()     { c13(activation.Sin[float64]{}) }
func C13_Swish_Real()   { c13(activation.Swish[float64]{}) }
func C13_GELU_Real()    { c13(activation.GELU[float64]{}) }
func C13_Relu_Real()    { c13(activation.Relu[float64]{Alpha: c12Par("alpha")}) }
func C13_ELU_Real()     { c13(activation.ELU[float64]{Alpha: c12Par("alpha")}) }
func C13_SELU_Real() {
	c13(activation.SELU[float64]{ELU: activation.ELU[float64]{Alpha: c12Par("alpha")}, Lambda: c12Par("lambda")})
}
func C13_Sigmoid32_Real() { c13f32(activation.Sigmoid[float32]{}) }
func C13_Tanh32_Real()    { c13f32(activation.Tanh[float32]{}) }
func C13_Swish32_Real()   { c13f32(activation.Swish[float32]{}) }
func C13_GELU32_Real()    { c13f32(activation.GELU[float32]{}) }

// smooth functions at and around 0 too
func c13At0(act activation.Activation[float64], want float64) {
	sym.Bound("input 0")
	sym.Assert(sym.Near(act.Derive(0), want, 1e-9), "derivative at 0")
}

func C13_Zero_Real() {
	c13At0(activation.Linear[float64]{}, 1)
	c13At0(activation.Sigmoid[float64]{}, 0.25)
	c13At0(activation.Tanh[float64]{}, 1)
	c13At0(activation.Sin[float64]{}, 1)
	c13At0(activation.Swish[float64]{}, 0.5)
	c13At0(activation.GELU[float64]{}, 0.5)
	c13At0(activation.Relu[float64]{Alpha: 1}, 1)
	c13At0(activation.ELU[float64]{Alpha: 1}, 1)
	l := c12Par("lambda")
	c13At0(activation.SELU[float64]{ELU: activation.ELU[float64]{Alpha: 1}, Lambda: l}, l)
}

// the exact pieces
func C13_ReluExact() {
	sym.Bound("every float32 and int16 input and slope but NaN and 0")
	a, x := sym.Num[float32]("alpha"), sym.Num[float32]("x")
	sym.Assume(a == a && x == x && x != 0)
	r := activation.Relu[float32]{Alpha: a}.Derive(x)
	if x < 0 {
		sym.Assert(sym.Same(r, a), "leaky part")
	} else {
		sym.Assert(r == 1, "linear part")
	}
	sym.Assert(activation.Linear[float32]{}.Derive(x) == 1, "Linear")
	b, y := sym.Num[int16]("beta"), sym.Num[int16]("y")
	sym.Assume(y != 0)
	q := activation.Relu[int16]{Alpha: b}.Derive(y)
	if y < 0 {
		sym.Assert(q == b, "leaky part (int16)")
	} else {
		sym.Assert(q == 1, "linear part (int16)")
	}
	sym.Assert(activation.Linear[int16]{}.Derive(y) == 1, "Linear (int16)")
}

func c13Tail[T float32 | float64](big T, which int) {
	x, pos := c12Tail[T](big, which)
	eps := T(1e-5)
	near := func(r, v T) bool { return within(r, v-eps, v+eps) }
	one := T(0)
	if pos {
		one = 1
	}
	switch which {
	case 0:
		sym.Assert(near(activation.Sigmoid[T]{}.Derive(x), 0), "Sigmoid far out")
	case 1:
		sym.Assert(near(activation.Tanh[T]{}.Derive(x), 0), "Tanh far out")
	case 2:
		sym.Assert(near(activation.Swish[T]{}.Derive(x), one), "Swish far out")
	case 3:
		sym.Assert(near(activation.GELU[T]{}.Derive(x), one), "GELU far out")
	case 4:
		sym.Assert(near(activation.ELU[T]{Alpha: 2}.Derive(x), one), "ELU far out")
	case 5:
		sym.Assert(near(activation.SELU[T]{ELU: activation.ELU[T]{Alpha: 2}, Lambda: 3}.Derive(x), 3*one), "SELU far out")
	}
}

func C13_TailSigmoid32() { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 0) }
func C13_TailTanh32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 1) }
func C13_TailSwish32()   { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 2) }
func C13_TailGELU32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 3) }
func C13_TailELU32()     { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 4) }
func C13_TailSELU32()    { sym.Bound("float32 up to 1e6" + c12TailBound); c13Tail[float32](1e6, 5) }
func C13_TailSigmoid64() { sym.Bound("float64 up to 1e6" + c12TailBound); c13Tail[float64](1e6, 0) }
func C13_TailTanh64()    { sym.Bound("float64 up to 1e6" + c12TailBound); c13Tail[float64](1e6, 1) }
func C13_TailGELU64()    { sym.Bound("float64 up to 1e6" + c12TailBound); c13Tail[float64](1e6, 3) }
func C13_TailELU64()     { sym.Bound("float64 up to 1e6" + c12TailBound); c13Tail[float64](1e6, 4) }
