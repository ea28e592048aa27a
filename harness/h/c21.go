package h

import (
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c21Step[T types.Number](n *node[T]) {
	m := compiled(n)
	trains(m, n, sym.Num[T]("alpha"), T(0), "training step")
}

// noTies: every max-pooling window has one largest cell, chosen by case split (at ties the
// derivative is not defined).
func noTies[T types.Number](n *node[T], x []T) {
	for _, l := range n.all() {
		l.forward(x)
		if l.next == nil || l.next.kind != kPool {
			continue
		}
		p := l.next
		for f := 0; f < int(p.shape[0]); f++ {
			for wx := 0; wx < int(p.shape[1]); wx++ {
				for wy := 0; wy < int(p.shape[2]); wy++ {
					var cells []int
					for i := 0; i < p.sx*p.sy; i++ {
						a, b := wx*p.sx+i/p.sy, wy*p.sy+i%p.sy
						if a < int(l.shape[1]) && b < int(l.shape[2]) {
							cells = append(cells, at3(l.shape, f, a, b))
						}
					}
					k := sym.Pick("largest cell", 0, len(cells)-1)
					for i := range cells {
						if i != k {
							sym.Assume(l.out[cells[i]] < l.out[cells[k]])
						}
					}
				}
			}
		}
	}
}

// one step of a network with pooling layers
func c21StepNoTies[T types.Number](n *node[T]) {
	m := compiled(n)
	x, v := mat[T]("input", n.first().shape...)
	y, t := mat[T]("target", n.shape...)
	noTies(n, v)
	alpha := sym.Num[T]("alpha")
	got, err := m.TrainOne(x, y, alpha, T(0))
	sym.Assert(err == nil, "training succeeds")
	want := n.train(v, t, alpha, T(0))
	n.sameParams("training step")
	sym.Assert(sym.Same(got, want), "loss")
}

func c21Kernel(maxK, maxS int) (kw, kh, sx, sy uint) {
	return uint(sym.Pick("kernel width", 1, maxK)), uint(sym.Pick("kernel height", 1, maxK)),
		uint(sym.Pick("stride x", 1, maxS)), uint(sym.Pick("stride y", 1, maxS))
}

func c21Conv[T types.Number](chans, filters, maxIn, maxK, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	kw, kh, sx, sy := c21Kernel(maxK, maxS)
	sym.Assume(kw <= w && kh <= h)
	c21Step(input[T](c, w, h).conv(uint(sym.Pick("filters", 1, filters)), kw, kh, sx, sy, act1[T]()))
}

func C21_Conv() {
	sym.Bound("one convolution: 1..2 channels of 1..3 x 1..3, 1 filter, kernel and stride 1..2 x 1..2")
	c21Conv[int16](2, 1, 3, 2, 2)
}
func C21_Conv_Real() {
	sym.Bound("one convolution: 1 channel of 1..2 x 1..2, 1..2 filters, kernel and stride 1..2 x 1..2")
	c21Conv[float64](1, 2, 2, 2, 2)
}
func C21_ConvLarge_Thorough() {
	sym.Bound("one convolution: 1..2 channels of 1..4 x 1..4, 1..2 filters, kernel and stride 1..3 x 1..3")
	c21Conv[int16](2, 2, 4, 3, 3)
}

func c21Deconv[T types.Number](chans, filters, maxIn, maxK, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	kw, kh, sx, sy := c21Kernel(maxK, maxS)
	c21Step(input[T](c, w, h).deconv(uint(sym.Pick("filters", 1, filters)), kw, kh, sx, sy, act1[T]()))
}

func C21_Deconv() {
	sym.Bound("one transposed convolution: 1..2 channels of 1..2 x 1..2, 1..2 filters, kernel and stride 1..2 x 1..2")
	c21Deconv[int16](2, 2, 2, 2, 2)
}
func C21_Deconv_Real() {
	sym.Bound("one transposed convolution: 1 channel of 1..2 x 1..2, 1 filter, kernel and stride 1..2 x 1..2")
	c21Deconv[float64](1, 1, 2, 2, 2)
}
func C21_DeconvLarge_Thorough() {
	sym.Bound("one transposed convolution: 1..2 channels of 1..3 x 1..3, 1..2 filters, kernel and stride 1..3 x 1..3")
	c21Deconv[int16](2, 2, 3, 3, 3)
}

// signals through a convolution to a layer before it: two convolutional layers of either kind
func c21Two[T types.Number](w, h uint, maxK, maxS int) {
	var n *node[T]
	if sym.Pick("first transposed", 0, 1) == 1 {
		n = input[T](1, 1, 2).deconv(2, 2, 1, 1, 1, act1[T]())
	} else {
		n = input[T](1, w, h).conv(2, 1, 1, 1, 1, act1[T]())
	}
	kw, kh, sx, sy := c21Kernel(maxK, maxS)
	sym.Assume(kw <= n.shape[1] && kh <= n.shape[2])
	if sym.Pick("second transposed", 0, 1) == 1 {
		n = n.deconv(2, kw, kh, sx, sy, act2[T]())
	} else {
		n = n.conv(2, kw, kh, sx, sy, act2[T]())
	}
	c21Step(n)
}

func C21_Two() {
	sym.Bound("two convolutional layers of either kind, 2 x 3 cells, kernel and stride of the second 1..2 x 1..2")
	c21Two[int16](2, 3, 2, 2)
}
func C21_TwoLarge_Thorough() {
	sym.Bound("two convolutional layers of either kind, 3 x 4 cells, kernel and stride of the second 1..3 x 1..3")
	c21Two[int16](3, 4, 3, 3)
}

// a structural layer between two layers with parameters: its signals reach the first one
func c21Through[T types.Number](mid int) {
	n := input[T](1, 2, 2).conv(2, 1, 1, 1, 1, act1[T]())
	switch mid {
	case 0:
		n = n.flat()
	case 1:
		n = n.up(2, 1)
	case 2:
		n = n.up(1, 2)
	case 3:
		n = n.sub(0, 1, 2)
	case 4:
		n = n.sub(1, 0, 1)
	case 5:
		n = n.sub(2, 1, 2).sub(0, 0, 1)
	case 6:
		n = n.flat().sub(0, 2, 5)
	case 7:
		n = n.up(2, 1).sub(1, 1, 3).flat()
	}
	if len(n.shape) == 3 && sym.Pick("then", 0, 1) == 1 {
		n = n.conv(1, n.shape[1], 1, 1, 1, act2[T]())
	} else {
		n = n.dense(uint(sym.Pick("units", 1, 2)), act2[T]())
	}
	c21Step(n)
}

func C21_Structural() {
	sym.Bound("convolution, structural layers (flatten, up-sampling, sub-tensor and combinations), then dense or convolution; 2 x 2 cells")
	c21Through[int16](sym.Pick("between", 0, 7))
}
func C21_Structural_Real_Thorough() {
	sym.Bound("convolution, structural layers (flatten, up-sampling, sub-tensor and combinations), then dense or convolution; 2 x 2 cells")
	c21Through[float64](sym.Pick("between", 0, 7))
}

// max-pooling between two layers, and as the last layer
func C21_Pool_Real() {
	sym.Bound("convolution of a 3 x 2 input, pooling with windows 1..2 x 1..2 (no ties), then a dense layer")
	sx, sy := uint(sym.Pick("window width", 1, 2)), uint(sym.Pick("window height", 1, 2))
	n := input[float64](1, 3, 2).conv(1, 1, 1, 1, 1, linear[float64]{}).pool(sx, sy)
	c21StepNoTies(n.dense(1, act2[float64]()))
}

func C21_PoolAct() {
	sym.Bound("dense layer reshaped by a transposed convolution of a 1 x 2 input, pooling (no ties), then a dense layer; arbitrary activations")
	sx, sy := uint(sym.Pick("window width", 1, 2)), uint(sym.Pick("window height", 1, 2))
	n := input[int16](1, 1, 2).deconv(1, 2, 1, 1, 1, act1[int16]()).pool(sx, sy)
	c21StepNoTies(n.dense(1, act2[int16]()))
}

func C21_PoolLast() {
	sym.Bound("convolution of a 2 x 2 input, then pooling with windows 1..2 x 1..2 (no ties) as the last layer")
	sx, sy := uint(sym.Pick("window width", 1, 2)), uint(sym.Pick("window height", 1, 2))
	c21StepNoTies(input[int16](1, 2, 2).conv(1, 1, 1, 1, 1, act1[int16]()).pool(sx, sy))
}

func C21_PoolConv() {
	sym.Bound("convolution of a 2 x 3 input, pooling 1 x 2 (no ties), then a convolution")
	n := input[int16](1, 2, 3).conv(1, 1, 1, 1, 1, act1[int16]()).pool(1, 2)
	c21StepNoTies(n.conv(1, 2, 1, 1, 1, act2[int16]()))
}

type linear[T types.Number] struct{}

func (linear[T]) Activate(x T) T { return x }
func (linear[T]) Derive(x T) T   { return 1 }

// a structural layer as the last one
func C21_StructuralLast() {
	sym.Bound("convolution of a 2 x 2 input, then flatten, up-sampling or sub-tensor as the last layer")
	n := input[int16](1, 2, 2).conv(2, 1, 1, 1, 1, act1[int16]())
	switch sym.Pick("last", 0, 3) {
	case 0:
		n = n.flat()
	case 1:
		n = n.up(1, 2)
	case 2:
		n = n.up(2, 1).flat()
	case 3:
		n = n.sub(0, 0, 1)
	}
	c21Step(n)
}

// branches on one input, joined
func c21Join[T types.Number](behind int) {
	a := input[T](2)
	b1 := a.dense(uint(sym.Pick("u1", 1, 2)), act1[T]())
	b2 := a.dense(uint(sym.Pick("u2", 1, 2)), act2[T]())
	n := join(b1, b2, 0)
	switch behind {
	case 1:
		n = n.dense(1, act3[T]())
	case 2:
		n = n.dense(2, act3[T]())
	case 3:
		n = n.flat().dense(1, act3[T]())
	}
	c21Step(n)
}

func C21_Concat() {
	sym.Bound("two dense branches of 1..2 units, joined; nothing, flatten or a dense layer behind")
	c21Join[int16](sym.Pick("behind", 0, 3))
}
func C21_Concat_Real() {
	sym.Bound("two dense branches of 1..2 units, joined, a dense layer behind")
	c21Join[float64](1)
}
func C21_ConcatConv() {
	sym.Bound("two convolution branches on one 2 x 2 input joined along each dimension, then a dense layer or a convolution")
	a := input[int16](1, 2, 2)
	dim := uint(sym.Pick("dimension", 0, 2))
	n := join(a.conv(1, 1, 1, 1, 1, act1[int16]()), a.conv(1, 1, 1, 1, 1, act2[int16]()), dim)
	if sym.Pick("then", 0, 1) == 1 {
		n = n.conv(1, 2, 2, 1, 1, act3[int16]())
	} else {
		n = n.dense(1, act3[int16]())
	}
	c21Step(n)
}
func C21_ConcatDeep() {
	sym.Bound("branches of different depth, joined twice, one branch flattened")
	a := input[int16](1, 1, 2)
	b1 := a.conv(1, 1, 1, 1, 1, act1[int16]()).flat()
	b2 := a.dense(1, act2[int16]()).dense(1, act3[int16]())
	n := join(b1, b2, 0)
	if sym.Pick("third branch", 0, 1) == 1 {
		n = join(n, a.dense(1, act1[int16]()), 0)
	}
	c21Step(n.dense(1, act2[int16]()))
}

// dense layers before convolutional ones are only reachable through joins of equal rank; a
// convolution directly on another's up-sampled output, all extents different
func C21_Mixed_Thorough() {
	sym.Bound("convolution, up-sampling, transposed convolution, flatten and dense in a row on 1..2 x 1..2 cells")
	n := input[int16](1, uint(sym.Pick("width", 1, 2)), uint(sym.Pick("height", 1, 2))).conv(2, 1, 1, 1, 1, act1[int16]())
	n = n.up(uint(sym.Pick("up x", 1, 2)), uint(sym.Pick("up y", 1, 2)))
	n = n.deconv(1, 1, 2, 1, 1, act2[int16]()).flat().dense(2, act3[int16]())
	c21Step(n)
}

// a layer with parameters that feeds two layers
func C21_SharedTrunk() {
	sym.Bound("1-1 trunk below two 1-1 branches, joined; the branches only, then the trunk")
	a := inDense[int16](1, 1, linear[int16]{})
	n := join(a.dense(1, linear[int16]{}), a.dense(1, linear[int16]{}), 0)
	m := compiled(n)
	x, v := mat[int16]("input", 1)
	y, t := mat[int16]("target", 2)
	alpha := sym.Num[int16]("alpha")
	_, err := m.TrainOne(x, y, alpha, 0)
	must(err, "training")
	n.train(v, t, alpha, 0)
	for i, l := range []*node[int16]{n.pre, n.pre2, a} {
		what := "a branch"
		if i == 2 {
			what = "a layer that feeds two layers"
		}
		w, b := l.params()
		sym.Assert(b.GetData()[0] == l.b[0], what+": bias")
		if i < 2 {
			sym.Assert(w.GetData()[0] == l.w[0], what+": weight")
		}
	}
}
