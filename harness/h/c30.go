package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// wrong is a tensor whose shape is not the given one.
func wrong[T types.Number](right []uint, maxRank, maxExt int) *tensor.TensorMat[T] {
	s := pickAnyShape("wrong", 0, maxRank, maxExt)
	sym.Assume(!sameShape(s, right))
	t, _ := mat[T]("wrong", s...)
	return t
}

// bad makes one refused call.
func bad[T types.Number](m *model.Model[T], n *node[T], maxRank, maxExt int, alpha, mom T) {
	in, out := n.first().shape, n.shape
	x, xv := mat[T]("input", in...)
	y, yv := mat[T]("target", out...)
	switch sym.Pick("refused call", 0, 6) {
	case 0:
		got, err := m.Predict(wrong[T](in, maxRank, maxExt))
		sym.Assert(err != nil && got == nil, "predicting with a wrong input is refused with an error")
	case 1:
		_, err := m.TrainOne(wrong[T](in, maxRank, maxExt), y, alpha, mom)
		fails(err, "training with a wrong input")
	case 2:
		_, err := m.TrainOne(x, wrong[T](out, maxRank, maxExt), alpha, mom)
		fails(err, "training with a wrong target")
	case 3:
		_, err := m.TrainOne(wrong[T](in, 1, 2), wrong[T](out, 1, 2), alpha, mom)
		fails(err, "training with a wrong input and target")
	case 4:
		fails(m.Train([]tensor.Tensor[T]{wrong[T](in, maxRank, maxExt)}, []tensor.Tensor[T]{y}, 1, 1, alpha, mom), "training on a wrong input")
	case 5:
		fails(m.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{wrong[T](out, maxRank, maxExt)}, 1, 0, alpha, mom), "training on a wrong target")
	case 6:
		fails(m.Train([]tensor.Tensor[T]{x, x}, []tensor.Tensor[T]{y}, 1, 1, alpha, mom), "training with more inputs than targets")
	}
	n.sameParams("after a refused call")
	holds[T](x, in, xv, "the input of a refused call")
	holds[T](y, out, yv, "the target of a refused call")
}

func c30[T types.Number](which, maxRank, maxExt int) {
	n := smallNet[T](which)
	m := compiled(n)
	bad(m, n, maxRank, maxExt, sym.Num[T]("alpha"), sym.Num[T]("momentum"))
	if sym.Pick("then", 0, 1) == 0 {
		predicts(m, n, "prediction after a refused call")
	} else {
		trains(m, n, sym.Num[T]("alpha"), sym.Num[T]("momentum"), "training after a refused call")
	}
}

func C30_Shapes() {
	sym.Bound("every wrong shape of 0..3 dimensions with extents 1..2; " + smallText)
	c30[int16](sym.Pick("network", 0, smallNets-1), 3, 2)
}
func C30_Shapes4() {
	sym.Bound("every wrong shape of 0..4 dimensions with extents 1..3; a convolution and dense network")
	c30[int16](4, 4, 3)
}
func C30_Shapes_Real() {
	sym.Bound("every wrong shape of 0..3 dimensions with extents 1..2; dense networks")
	c30[float64](sym.Pick("network", 0, 1), 3, 2)
}

// a refused call between two steps with momentum
func C30_Between() {
	sym.Bound("a refused call between two steps with momentum, wrong shapes of 0..2 dimensions with extents 1..2; 1-1, 1-2-1, convolution and concat networks")
	n := smallNet[int16]([]int{0, 1, 2, 6}[sym.Pick("network", 0, 3)])
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training before a refused call")
	bad(m, n, 2, 2, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"))
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a refused call")
}

// the refused call is the first use of the model
func C30_First() {
	sym.Bound("the refused call is the first use; wrong shapes of 0..3 dimensions with extents 1..2; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := modelOf(n)
	in, out := n.first().shape, n.shape
	x, _ := mat[int16]("input", in...)
	y, _ := mat[int16]("target", out...)
	alpha, mom := sym.Num[int16]("alpha"), sym.Num[int16]("momentum")
	switch sym.Pick("refused call", 0, 2) {
	case 0:
		got, err := m.Predict(wrong[int16](in, 3, 2))
		sym.Assert(err != nil && got == nil, "predicting with a wrong input is refused with an error")
	case 1:
		_, err := m.TrainOne(wrong[int16](in, 3, 2), y, alpha, mom)
		fails(err, "training with a wrong input")
	case 2:
		_, err := m.TrainOne(x, wrong[int16](out, 3, 2), alpha, mom)
		fails(err, "training with a wrong target")
	}
	n.randomise()
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a refused call")
	predicts(m, n, "prediction after a refused call")
}

// layers that do not fit together
func C30_Misfits() {
	sym.Bound("17 ways layers do not fit together, with extents 1..3")
	type L = layer.Layer[int16]
	act := act1[int16]()
	e := func() uint { return uint(sym.Pick("extent", 1, 3)) }
	flatIn := func() L { return layer.NewInput[int16](pickAnyShape("in", 1, 2, 3)...) }
	var first L
	var rest []L
	switch sym.Pick("misfit", 0, 16) {
	case 0:
		first, rest = flatIn(), []L{layer.NewConv2D[int16](1, 1, 1, act)}
	case 1:
		first, rest = flatIn(), []L{layer.NewDeconv2D[int16](1, 1, 1, act)}
	case 2:
		first, rest = flatIn(), []L{layer.NewMaxPool2D[int16](1)}
	case 3:
		first, rest = flatIn(), []L{layer.NewUpSampling2D[int16](1)}
	case 4: // kernel wider than the input
		w, h := e(), e()
		first, rest = layer.NewInput[int16](e(), w, h), []L{layer.NewConv2Dwh[int16](1, w+e(), h, 1, 1, act)}
	case 5: // kernel higher than the input
		w, h := e(), e()
		first, rest = layer.NewInput[int16](e(), w, h), []L{layer.NewConv2Dwh[int16](1, w, h+e(), 1, 1, act)}
	case 6: // a range past the end
		w := e()
		from := uint(sym.Pick("from", 0, int(w)-1))
		first, rest = layer.NewInput[int16](w), []L{layer.NewSubTensor[int16](0, from, w+e())}
	case 7: // an empty range
		w := e()
		from := uint(sym.Pick("from", 0, int(w)))
		first, rest = layer.NewInput[int16](w), []L{layer.NewSubTensor[int16](0, from, uint(sym.Pick("to", 0, int(from))))}
	case 8: // a dimension that does not exist
		s := pickAnyShape("in", 1, 2, 2)
		first, rest = layer.NewInput[int16](s...), []L{layer.NewSubTensor[int16](uint(len(s))+uint(sym.Pick("dimension", 0, 2)), 0, 1)}
	case 9: // joined branches that differ elsewhere
		a := layer.NewInput[int16](1, 1, 2)
		b, c := layer.NewSubTensor[int16](2, 0, 1), layer.NewSubTensor[int16](2, 0, 2)
		b.Connect(a)
		c.Connect(a)
		first, rest = a, []L{layer.NewConcat[int16](b, c, uint(sym.Pick("dimension", 0, 1)))}
	case 10: // joined branches of different rank
		a := layer.NewInput[int16](1, 2)
		b := layer.NewFlatten[int16]()
		b.Connect(a)
		first, rest = a, []L{layer.NewConcat[int16](a, b, uint(sym.Pick("dimension", 0, 1)))}
	case 11: // joined along a dimension that does not exist
		a := layer.NewInput[int16](2)
		b := layer.NewDense[int16](2, act)
		b.Connect(a)
		first, rest = a, []L{layer.NewConcat[int16](a, b, uint(sym.Pick("dimension", 1, 3)))}
	case 12: // no input
		first = layer.NewDense[int16](e(), act)
	case 13:
		first = layer.NewConv2D[int16](1, 1, 1, act)
	case 14:
		first = layer.NewDeconv2D[int16](1, 1, 1, act)
	case 15:
		first = layer.NewSubTensor[int16](0, 0, 1)
	case 16: // behind a layer that fits
		first, rest = layer.NewInput[int16](2), []L{layer.NewDense[int16](2, act), layer.NewConv2D[int16](1, 1, 1, act), layer.NewFlatten[int16]()}
	}
	m := model.NewModel[int16]().Push(first)
	for _, l := range rest {
		if _, ok := l.(*layer.Concat[int16]); ok {
			m.LastLayer = l
			continue
		}
		m.Push(l)
	}
	x, _ := mat[int16]("input", 1)
	switch sym.Pick("first use", 0, 3) {
	case 0:
		got, err := m.Predict(x)
		sym.Assert(err != nil && got == nil, "predicting with layers that do not fit is refused with an error")
	case 1:
		_, err := m.TrainOne(x, x, 1, 0)
		fails(err, "training layers that do not fit")
	case 2:
		fails(m.Train([]tensor.Tensor[int16]{x}, []tensor.Tensor[int16]{x}, 1, 1, 1, 0), "training layers that do not fit")
	case 3:
		fails(m.Compile(), "compiling layers that do not fit")
	}
}
