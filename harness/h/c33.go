package h

import (
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// sized: the tensor has the shape and size asked for, and can be indexed.
func sized[T types.Number](t *tensor.TensorMat[T], shape []uint) []T {
	v := t.GetData()
	sym.Assert(sameShape(t.GetShape(), shape), "shape of a random tensor")
	sym.Assert(len(v) == prod(shape) && int(t.GetSize()) == prod(shape), "size of a random tensor")
	if len(shape) > 0 {
		x, err := t.Get(unflat(shape, len(v)-1)...)
		must(err, "reading the last element of a random tensor")
		sym.Assert(sym.Same(x, v[len(v)-1]), "the last element of a random tensor")
	}
	return v
}

// independent: all elements can differ.
func independent[T types.Number](v []T, what string) {
	ok := true
	for i := range v {
		for j := 0; j < i; j++ {
			ok = sym.And(ok, v[i] != v[j])
		}
	}
	sym.Possible(ok, what+" can all differ")
}

func c33Rand[T types.Number](maxRank, maxExt, maxSize int) {
	shape := pickAnyShape("shape", 0, maxRank, maxExt)
	sym.Assume(prod(shape) <= maxSize)
	lo, hi := sym.Num[float64]("min"), sym.Num[float64]("max")
	sym.Assume(lo < hi)
	v := sized(tensor.NewRand[T](lo, hi, shape...), shape)
	for _, x := range v {
		sym.Assert(sym.LE(T(lo), x) && sym.LE(x, T(hi)), "elements of a random tensor between the bounds")
	}
	independent(v, "elements of a random tensor")
}

func C33_Rand_Real() {
	sym.Bound("0..3 dimensions of 1..3, up to 4 elements, arbitrary bounds, every outcome of the random source")
	c33Rand[float64](3, 3, 4)
}
func C33_Rand32_Real() {
	sym.Bound("0..2 dimensions of 1..2, up to 4 elements, arbitrary bounds, every outcome of the random source")
	c33Rand[float32](2, 2, 4)
}

// equal bounds leave one value
func C33_Equal_Real() {
	sym.Bound("2 elements, equal bounds")
	lo := sym.Num[float64]("min")
	for _, x := range tensor.NewRand[float64](lo, lo, 2).GetData() {
		sym.Assert(sym.Same(x, lo), "an element between equal bounds")
	}
	sym.Assert(sym.Same(number.ScalarRand[float64](lo, lo).Value, lo), "a scalar between equal bounds")
}

// IEEE arithmetic at some bounds
func C33_RandIEEE() {
	sym.Bound("bounds -1..1, 0..1, 0..0.5, -2..4 and 3..5; every outcome of the random source in IEEE arithmetic")
	b := [][2]float64{{-1, 1}, {0, 1}, {0, 0.5}, {-2, 4}, {3, 5}}[sym.Pick("bounds", 0, 4)]
	switch sym.Pick("kind", 0, 3) {
	case 0:
		x := tensor.NewRand[float64](b[0], b[1], 1).GetData()[0]
		sym.Assert(x >= b[0] && x <= b[1], "an element of a random tensor between the bounds")
	case 1:
		x := tensor.NewRand[float32](b[0], b[1], 1).GetData()[0]
		sym.Assert(x >= float32(b[0]) && x <= float32(b[1]), "an element of a random tensor between the bounds")
	case 2:
		x := number.ScalarRand[float64](b[0], b[1]).Value
		sym.Assert(x >= b[0] && x <= b[1], "a random scalar between the bounds")
	case 3:
		x := number.ScalarRand[float32](float32(b[0]), float32(b[1])).Value
		sym.Assert(x >= float32(b[0]) && x <= float32(b[1]), "a random scalar between the bounds")
	}
}

func c33Scalar[T types.Number]() {
	lo, hi := sym.Num[T]("min"), sym.Num[T]("max")
	sym.Assume(lo < hi)
	v := []T{number.ScalarRand(lo, hi).Value, number.ScalarRand(lo, hi).Value}
	for _, x := range v {
		sym.Assert(sym.LE(lo, x) && sym.LE(x, hi), "a random scalar between the bounds")
	}
	independent(v, "random scalars")
}

func C33_Scalar_Real() {
	sym.Bound("arbitrary bounds, every outcome of the random source")
	c33Scalar[float64]()
}
func C33_Scalar32_Real() {
	sym.Bound("arbitrary bounds, every outcome of the random source")
	c33Scalar[float32]()
}

// whole-number elements between whole-number bounds
func C33_Int_Real() {
	sym.Bound("2 elements; bounds -1..1, 0..3, 2..9, -7..-2; every outcome of the random source")
	b := [][2]int16{{-1, 1}, {0, 3}, {2, 9}, {-7, -2}}[sym.Pick("bounds", 0, 3)]
	lo, hi := b[0], b[1]
	for _, x := range tensor.NewRand[int16](float64(lo), float64(hi), 2).GetData() {
		sym.Assert(x >= lo && x <= hi, "elements of a random tensor between the bounds")
	}
	x := number.ScalarRand(lo, hi).Value
	sym.Assert(x >= lo && x <= hi, "a random scalar between the bounds")
}

// matched: the values are the numbers drawn, each once, in some order.
func matched[T types.Number](v []T, used []bool) bool {
	if len(v) == 0 {
		return true
	}
	any := false
	for k := range used {
		if !used[k] {
			used[k] = true
			any = sym.Or(any, sym.And(sym.Same(v[0], T(sym.Norm(k))), matched(v[1:], used)))
			used[k] = false
		}
	}
	return any
}

func c33Norm[T types.Number](maxRank, maxExt, maxSize int) {
	shape := pickAnyShape("shape", 0, maxRank, maxExt)
	sym.Assume(prod(shape) <= maxSize)
	v := sized(tensor.NewNormRand[T](shape...), shape)
	sym.Assert(sym.Norms() == len(v), "one number is drawn per element")
	sym.Assert(matched(v, make([]bool, len(v))), "the elements are the numbers drawn")
}

func C33_Norm64() {
	sym.Bound("0..3 dimensions of 1..2, up to 3 elements, every outcome of the random source")
	c33Norm[float64](3, 2, 3)
}
func C33_Norm32() {
	sym.Bound("0..2 dimensions of 1..2, up to 3 elements, every outcome of the random source")
	c33Norm[float32](2, 2, 3)
}
func C33_NormReal_Real() {
	sym.Bound("0..3 dimensions of 1..3, up to 4 elements, every outcome of the random source")
	c33Norm[float64](3, 3, 4)
}
func C33_NormScalar() {
	sym.Bound("two scalars of each float type")
	a, b := number.ScalarNorm[float64](), number.ScalarNorm[float32]()
	sym.Assert(sym.Norms() == 2, "one number is drawn per scalar")
	sym.Assert(sym.Same(a.Value, sym.Norm(0)) && sym.Same(b.Value, float32(sym.Norm(1))), "the scalars are the numbers drawn")
}
