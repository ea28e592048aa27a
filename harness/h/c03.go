package h

import (
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func ref2[T types.Number](op int, a, b T) T {
	switch op {
	case 0:
		return a + b
	case 1:
		return a - b
	case 2:
		return a * b
	}
	return a / b
}

func eager2[T types.Number](op int, a, b *tensor.TensorMat[T]) (*tensor.TensorMat[T], error) {
	switch op {
	case 0:
		return a.Add(b)
	case 1:
		return a.Sub(b)
	case 2:
		return a.Mul(b)
	}
	return a.Div(b)
}

func lazy2[T types.Number](op int, a, b tensor.Tensor[T]) tensor.Tensor[T] {
	switch op {
	case 0:
		return tensor.Add(a, b)
	case 1:
		return tensor.Sub(a, b)
	case 2:
		return tensor.Mul(a, b)
	}
	return tensor.Div(a, b)
}

func eagerS[T types.Number](op int, a *tensor.TensorMat[T], s *number.Scalar[T]) *tensor.TensorMat[T] {
	switch op {
	case 0:
		return a.AddScalar(s)
	case 1:
		return a.SubScalar(s)
	case 2:
		return a.MulScalar(s)
	}
	return a.DivScalar(s)
}

func lazyS[T types.Number](op int, a tensor.Tensor[T], s *number.Scalar[T]) tensor.Tensor[T] {
	switch op {
	case 0:
		return tensor.AddScalar(a, s)
	case 1:
		return tensor.SubScalar(a, s)
	case 2:
		return tensor.MulScalar(a, s)
	}
	return tensor.DivScalar(a, s)
}

func isInt[T types.Number]() bool {
	var x T = 1
	return x/2 == 0
}

func c03Two[T types.Number](lo, hi, max int) {
	op := sym.Pick("operation", 0, 3)
	shape := pickAnyShape("s", lo, hi, max)
	a, va := mat[T]("a", shape...)
	b, vb := mat[T]("b", shape...)
	if op == 3 && isInt[T]() {
		for i := range vb {
			sym.Assume(vb[i] != 0)
		}
	}
	want := make([]T, len(va))
	for i := range want {
		want[i] = ref2(op, va[i], vb[i])
	}
	e, err := eager2(op, a, b)
	must(err, "the immediate operation")
	holds[T](e, shape, want, "immediate result")
	l := lazy2[T](op, a, b)
	runs[T](l, "the deferred operation", a, b)
	holds(l, shape, want, "deferred result")
	holds[T](a, shape, va, "first operand afterwards")
	holds[T](b, shape, vb, "second operand afterwards")
}

func c03Scalar[T types.Number](lo, hi, max int) {
	op := sym.Pick("operation", 0, 3)
	shape := pickAnyShape("s", lo, hi, max)
	a, va := mat[T]("a", shape...)
	x := sym.Num[T]("x")
	if op == 3 && isInt[T]() {
		sym.Assume(x != 0)
	}
	want := make([]T, len(va))
	for i := range want {
		want[i] = ref2(op, va[i], x)
	}
	s := number.NewScalar(x)
	holds[T](eagerS(op, a, s), shape, want, "immediate result")
	l := lazyS[T](op, a, s)
	runs[T](l, "the deferred operation", a)
	holds(l, shape, want, "deferred result")
	sym.Assert(sym.Same(s.Value, x), "the scalar keeps its value")
	holds[T](a, shape, va, "operand afterwards")
}

func c03One[T types.Number](lo, hi, max int) {
	op := sym.Pick("operation", 0, 2)
	shape := pickAnyShape("s", lo, hi, max)
	a, va := mat[T]("a", shape...)
	f := func(x T) T { return sym.Fun1("f", x) }
	want := make([]T, len(va))
	var e *tensor.TensorMat[T]
	var l tensor.Tensor[T]
	for i := range want {
		switch op {
		case 0:
			want[i] = -va[i]
		case 1:
			want[i] = va[i]
			if va[i] < 0 {
				want[i] = -va[i]
			}
		case 2:
			want[i] = f(va[i])
		}
	}
	switch op {
	case 0:
		e, l = a.Neg(), tensor.Neg[T](a)
	case 1:
		e, l = a.Abs(), tensor.Abs[T](a)
	case 2:
		e, l = a.Activate(f), tensor.Activate[T](a, f)
	}
	holds[T](e, shape, want, "immediate result")
	runs[T](l, "the deferred operation", a)
	holds(l, shape, want, "deferred result")
	holds[T](a, shape, va, "operand afterwards")
}

func c03All[T types.Number](lo, hi, max int) {
	switch sym.Pick("kind", 0, 2) {
	case 0:
		c03Two[T](lo, hi, max)
	case 1:
		c03Scalar[T](lo, hi, max)
	case 2:
		c03One[T](lo, hi, max)
	}
}

func C03_Int16()   { sym.Bound("1..3 dimensions of 1..2; non-zero divisors"); c03All[int16](1, 3, 2) }
func C03_Int32()   { sym.Bound("1..2 dimensions of 1..2; non-zero divisors"); c03All[int32](1, 2, 2) }
func C03_Int64()   { sym.Bound("1..2 dimensions of 1..2; non-zero divisors"); c03All[int64](1, 2, 2) }
func C03_Int()     { sym.Bound("1..2 dimensions of 1..2; non-zero divisors"); c03All[int](1, 2, 2) }
func C03_Float32() { sym.Bound("1..3 dimensions of 1..2, every float32"); c03All[float32](1, 3, 2) }
func C03_Float64() { sym.Bound("1..2 dimensions of 1..3, every float64"); c03All[float64](1, 2, 3) }
func C03_Wide() {
	sym.Bound("1..3 dimensions of 1..3; non-zero divisors")
	c03All[int16](1, 3, 3)
}
