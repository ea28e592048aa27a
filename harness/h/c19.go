package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c19Flat(hi, max int) {
	n := input[int16](pickAnyShape("in", 1, hi, max)...).flat()
	predicts(compiled(n), n, "prediction")
}

func C19_Flatten() { sym.Bound("1..4 dimensions of 1..3"); c19Flat(4, 3) }
func C19_FlattenBehind() {
	sym.Bound("behind convolution, pooling, up-sampling, sub-tensor and concat layers and another flatten layer")
	n := c19Some(3).flat()
	if sym.Pick("twice", 0, 1) == 1 {
		n = n.flat()
	}
	predicts(compiled(n), n, "prediction")
}

// some network with output of 3 dimensions
func c19Some(k int) *node[int16] {
	a := input[int16](2, 2, 2)
	switch sym.Pick("before", 0, k+2) {
	case 0:
		return a.conv(1, 1, 2, 1, 1, act1[int16]())
	case 1:
		return a.deconv(1, 1, 2, 1, 1, act1[int16]())
	case 2:
		return a.up(1, 2)
	case 3:
		return a.sub(2, 1, 2)
	case 4:
		return join(a.sub(0, 0, 1), a.sub(0, 1, 2), 1)
	}
	return a.pool(2, 1)
}

func c19Sub(hi, max int) {
	a := input[int16](pickAnyShape("in", 1, hi, max)...)
	d := sym.Pick("dimension", 0, len(a.shape)-1)
	from := sym.Pick("from", 0, int(a.shape[d])-1)
	to := sym.Pick("to", from+1, int(a.shape[d]))
	n := a.sub(uint(d), uint(from), uint(to))
	predicts(compiled(n), n, "prediction")
}

func C19_SubTensor() { sym.Bound("1..3 dimensions of 1..3, every range"); c19Sub(3, 3) }
func C19_SubTensorLarge() {
	sym.Bound("1..4 dimensions of 1..3, every range")
	c19Sub(4, 3)
}
func C19_SubTensorBehind() {
	sym.Bound("behind a convolution or another sub-tensor layer")
	var n *node[int16]
	if sym.Pick("before", 0, 1) == 0 {
		n = input[int16](1, 3, 2).conv(2, 1, 1, 1, 1, act1[int16]()).sub(1, 1, 3).sub(0, 1, 2)
	} else {
		n = input[int16](3, 3).sub(0, 1, 3).sub(1, 0, 2).sub(0, 1, 2)
	}
	predicts(compiled(n), n, "prediction")
}

func c19Concat(hi, max int) {
	a := input[int16](pickAnyShape("in", 1, hi, max)...)
	dim := uint(sym.Pick("dimension", 0, len(a.shape)-1))
	sub := func() *node[int16] {
		from := sym.Pick("from", 0, int(a.shape[dim])-1)
		return a.sub(dim, uint(from), uint(sym.Pick("to", from+1, int(a.shape[dim]))))
	}
	n := join(sub(), sub(), dim)
	predicts(compiled(n), n, "prediction")
}

func C19_Concat() {
	sym.Bound("two ranges of one input of 1..3 dimensions of 1..2, joined along that dimension")
	c19Concat(3, 2)
}
func C19_ConcatLarge() {
	sym.Bound("two ranges of one input of 1..3 dimensions of 1..3, joined along that dimension")
	c19Concat(3, 3)
}
func C19_ConcatDense() {
	sym.Bound("dense branches of 1..2 units each on one input, joined twice")
	a := input[int16](uint(sym.Pick("inputs", 1, 2)))
	b1 := a.dense(uint(sym.Pick("u1", 1, 2)), act1[int16]())
	b2 := a.dense(uint(sym.Pick("u2", 1, 2)), act2[int16]())
	n := join(join(b1, b2, 0), a, 0)
	if sym.Pick("dense behind", 0, 1) == 1 {
		n = n.dense(1, act3[int16]())
	}
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}
func C19_ConcatConv() {
	sym.Bound("convolution branches on one 2 x 2 input, joined along each dimension")
	a := input[int16](1, 2, 2)
	dim := uint(sym.Pick("dimension", 0, 2))
	n := join(a.conv(2, 1, 1, 1, 1, act1[int16]()), a.conv(2, 1, 1, 1, 1, act2[int16]()), dim)
	predicts(compiled(n), n, "prediction")
}

// branches that do not fit together are refused
func C19_ConcatRefused() {
	sym.Bound("branches of 1..3 dimensions of 1..2")
	s1, s2 := pickAnyShape("s1", 1, 3, 2), pickAnyShape("s2", 1, 3, 2)
	dim := uint(sym.Pick("dimension", 0, 3))
	fit := len(s1) == len(s2) && int(dim) < len(s1)
	if fit {
		for i := range s1 {
			if i != int(dim) && s1[i] != s2[i] {
				fit = false
			}
		}
	}
	a, b := layer.NewInput[int16](s1...), layer.NewInput[int16](s2...)
	m, err := model.FromInOut[int16](a, layer.NewConcat[int16](a, b, dim))
	must(err, "making the model")
	x, _ := mat[int16]("x", s1...)
	_, err = m.Predict(x)
	sym.Assert(iff(err == nil, fit), "joined exactly when the branches fit together")
}

// the normalising layers
func c19Norm[T types.Number](shape []uint, e bool, again bool) {
	var l layer.Layer[T]
	lo, hi := T(0), T(1)
	if e {
		l, lo = layer.NewENorm[T](), T(0)-1
	} else {
		l = layer.NewNorm[T]()
	}
	m := model.NewModel[T]().Push(layer.NewInput[T](shape...)).Push(l)
	for k := 0; k < 2; k++ {
		x, v := mat[T]("input", shape...)
		big := v[0]
		if big < 0 {
			big = -big
		}
		for _, y := range v {
			if y < 0 {
				y = -y
			}
			if y > big {
				big = y
			}
		}
		sym.Assume(big > 0)
		got, err := m.Predict(x)
		must(err, "predicting")
		want := make([]T, len(v))
		pos := true
		for i := range v {
			want[i] = v[i]/big*(hi-lo) + lo
			pos = pos && v[i] >= 0
		}
		holds(got, shape, want, "scaled by the largest magnitude")
		if pos {
			for i, y := range got.GetData() {
				sym.Assert(sym.LE(lo, y) && sym.LE(y, hi), "non-negative input ends in the interval")
				if v[i] == big {
					sym.Assert(sym.Same(y, hi), "the largest element reaches the upper end")
				}
			}
		}
		holds[T](x, shape, v, "the input afterwards")
		if !again {
			return
		}
	}
}

func C19_Norm_Real() {
	sym.Bound("1..3 elements in 1..2 dimensions, not all zero")
	c19Norm[float64](c19NormShape(), false, false)
}
func C19_ENorm_Real() {
	sym.Bound("1..3 elements in 1..2 dimensions, not all zero")
	c19Norm[float64](c19NormShape(), true, false)
}
func C19_NormAgain_Real() {
	sym.Bound("two predictions in a row, 2 elements")
	c19Norm[float64]([]uint{2}, sym.Pick("centred", 0, 1) == 1, true)
}

func c19NormShape() []uint {
	if sym.Pick("dims", 1, 2) == 1 {
		return []uint{uint(sym.Pick("elements", 1, 3))}
	}
	return []uint{uint(sym.Pick("rows", 1, 2)), 1}
}

// the soft-max layer passes on the tensor operation's result
func C19_SoftMax_Real() {
	sym.Bound("2..3 elements of 1..2, not all equal")
	n := uint(sym.Pick("elements", 2, 3))
	m := model.NewModel[float64]().Push(layer.NewInput[float64](n)).Push(layer.NewSoftMax[float64]())
	x, v := mat[float64]("input", n)
	for i := range v {
		sym.Assume(v[i] >= 1 && v[i] <= 2)
	}
	sym.Assume(v[0] < v[1])
	got, err := m.Predict(x)
	must(err, "predicting")
	want := x.SoftMax()
	holds[float64](got, []uint{n}, want.GetData(), "soft-max")
}
