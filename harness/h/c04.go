package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// reduce is the reference: op 0 sum, 1 average, 2 minimum, 3 maximum.
func reduce[T types.Number](op int, v []T) T {
	r := v[0]
	for _, x := range v[1:] {
		switch op {
		case 0, 1:
			r += x
		case 2:
			if x < r {
				r = x
			}
		case 3:
			if x > r {
				r = x
			}
		}
	}
	if op == 1 {
		r /= T(len(v))
	}
	return r
}

func noNaN[T types.Number](v []T) {
	for _, x := range v {
		sym.Assume(x == x)
	}
}

func c04Full[T types.Number](op int, a *tensor.TensorMat[T]) (*tensor.TensorMat[T], tensor.Tensor[T]) {
	switch op {
	case 0:
		return a.Sum(), tensor.Sum[T](a)
	case 1:
		return a.Avg(), tensor.Avg[T](a)
	case 2:
		return a.Min(), tensor.Min[T](a)
	}
	return a.Max(), tensor.Max[T](a)
}

func c04Dim[T types.Number](op int, a *tensor.TensorMat[T], d uint) (*tensor.TensorMat[T], error, tensor.Tensor[T]) {
	switch op {
	case 0:
		e, err := a.DSum(d)
		return e, err, tensor.DSum[T](a, d)
	case 1:
		e, err := a.DAvg(d)
		return e, err, tensor.DAvg[T](a, d)
	case 2:
		e, err := a.DMin(d)
		return e, err, tensor.DMin[T](a, d)
	}
	e, err := a.DMax(d)
	return e, err, tensor.DMax[T](a, d)
}

func c04[T types.Number](opLo, opHi, lo, hi, max int) {
	op := sym.Pick("operation", opLo, opHi)
	shape := pickAnyShape("s", lo, hi, max)
	a, v := mat[T]("a", shape...)
	noNaN(v)
	e, l := c04Full(op, a)
	want := []T{reduce(op, v)}
	holds[T](e, []uint{1}, want, "immediate result")
	runs[T](l, "the deferred reduction", a)
	holds(l, []uint{1}, want, "deferred result")
	holds[T](a, shape, v, "operand afterwards")
}

func c04D[T types.Number](opLo, opHi, lo, hi, max int) {
	op := sym.Pick("operation", opLo, opHi)
	shape := pickAnyShape("s", lo, hi, max)
	d := sym.Pick("dimension", 0, len(shape)+1)
	a, v := mat[T]("a", shape...)
	noNaN(v)
	e, err, l := c04Dim(op, a, uint(d))
	if d >= len(shape) {
		sym.Assert(err != nil && e == nil, "a dimension the tensor does not have is refused by the immediate form")
		_, err := run(l)
		sym.Assert(err != nil, "a dimension the tensor does not have is refused by the deferred form")
		return
	}
	must(err, "the immediate reduction")
	kept := shape[:d+1]
	groups := prod(kept)
	size := len(v) / groups
	want := make([]T, groups)
	for i := range want {
		want[i] = reduce(op, v[i*size:(i+1)*size])
	}
	holds[T](e, kept, want, "immediate result")
	runs[T](l, "the deferred reduction", a)
	holds(l, kept, want, "deferred result")
	holds[T](a, shape, v, "operand afterwards")
}

func C04_SumAvgInt() {
	sym.Bound("1..3 dimensions of 1..2, every int16 (wrapping)")
	c04[int16](0, 1, 1, 3, 2)
}
func C04_MinMaxInt() { sym.Bound("1..3 dimensions of 1..2, every int16"); c04[int16](2, 3, 1, 3, 2) }
func C04_SumAvg_Real() {
	sym.Bound("1..3 dimensions of 1..2, float64 over the reals")
	c04[float64](0, 1, 1, 3, 2)
}
func C04_MinMaxFloat() {
	sym.Bound("1..2 dimensions of 1..2, every float32 but NaN")
	c04[float32](2, 3, 1, 2, 2)
}
func C04_DimSumAvgInt() {
	sym.Bound("1..3 dimensions of 1..2, every dimension and one past, every int16 (wrapping)")
	c04D[int16](0, 1, 1, 3, 2)
}
func C04_DimMinMaxInt() {
	sym.Bound("1..3 dimensions of 1..2, every dimension and one past, every int16")
	c04D[int16](2, 3, 1, 3, 2)
}
func C04_DimSumAvg_Real() {
	sym.Bound("1..3 dimensions of 1..2, float32 over the reals")
	c04D[float32](0, 1, 1, 3, 2)
}
func C04_DimMinMaxFloat() {
	sym.Bound("1..2 dimensions of 1..2, every float64 but NaN")
	c04D[float64](2, 3, 1, 2, 2)
}
func C04_Wide()    { sym.Bound("1..3 dimensions of 1..3"); c04[int16](0, 3, 1, 3, 3) }
func C04_DimWide() { sym.Bound("1..3 dimensions of 1..3"); c04D[int16](0, 3, 1, 3, 3) }
