package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// a convolution of arbitrary geometry within the bounds
func c17Conv[T types.Number](chans, filters, maxIn, maxK, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	kw, kh := uint(sym.Pick("kernel width", 1, maxK)), uint(sym.Pick("kernel height", 1, maxK))
	sym.Assume(kw <= w && kh <= h)
	sx, sy := uint(sym.Pick("stride x", 1, maxS)), uint(sym.Pick("stride y", 1, maxS))
	n := input[T](c, w, h).conv(uint(sym.Pick("filters", 1, filters)), kw, kh, sx, sy, act1[T]())
	predicts(compiled(n), n, "prediction")
}

func C17_Conv() {
	sym.Bound("1..2 channels of 1..3 x 1..3, 1..2 filters, kernel 1..2 x 1..2, stride 1..2 x 1..2")
	c17Conv[int16](2, 2, 3, 2, 2)
}
func C17_ConvWide() {
	sym.Bound("1 channel of 1..4 x 1..4, 1 filter, kernel 1..3 x 1..3, stride 1..3 x 1..3")
	c17Conv[int16](1, 1, 4, 3, 3)
}
func C17_Conv_Real() {
	sym.Bound("1 channel of 1..3 x 1..3, 1 filter, kernel 1..2 x 1..2, stride 1..2 x 1..2")
	c17Conv[float64](1, 1, 3, 2, 2)
}
func C17_ConvLarge_Thorough() {
	sym.Bound("1..3 channels of 1..5 x 1..5, 1..2 filters, kernel 1..3 x 1..3, stride 1..3 x 1..3")
	c17Conv[int16](3, 2, 5, 3, 3)
}

func c17Deconv[T types.Number](chans, filters, maxIn, maxK, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	kw, kh := uint(sym.Pick("kernel width", 1, maxK)), uint(sym.Pick("kernel height", 1, maxK))
	sx, sy := uint(sym.Pick("stride x", 1, maxS)), uint(sym.Pick("stride y", 1, maxS))
	n := input[T](c, w, h).deconv(uint(sym.Pick("filters", 1, filters)), kw, kh, sx, sy, act1[T]())
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}

func C17_Deconv() {
	sym.Bound("1..2 channels of 1..2 x 1..2, 1..2 filters, kernel 1..2 x 1..2, stride 1..2 x 1..2")
	c17Deconv[int16](2, 2, 2, 2, 2)
}
func C17_DeconvWide() {
	sym.Bound("1 channel of 1..3 x 1..3, 1 filter, kernel 1..3 x 1..3, stride 1..3 x 1..3")
	c17Deconv[int16](1, 1, 3, 3, 3)
}
func C17_Deconv_Real() {
	sym.Bound("1 channel of 1..2 x 1..2, 1 filter, kernel 1..2 x 1..2, stride 1..2 x 1..2")
	c17Deconv[float64](1, 1, 2, 2, 2)
}
func C17_DeconvLarge_Thorough() {
	sym.Bound("1..3 channels of 1..3 x 1..3, 1..2 filters, kernel 1..3 x 1..3, stride 1..3 x 1..3")
	c17Deconv[int16](3, 2, 3, 3, 3)
}

// the square forms are the general ones with equal width and height
func C17_Square() {
	sym.Bound("1 channel of 3 x 3, kernel 1..2, stride 1..2")
	k, s := uint(sym.Pick("kernel", 1, 2)), uint(sym.Pick("stride", 1, 2))
	a := input[int16](1, 3, 3)
	n := a.conv(2, k, k, s, s, act1[int16]())
	n.lay = layer.NewConv2D[int16](2, k, s, act1[int16]())
	n.lay.Connect(a.lay)
	predicts(compiled(n), n, "convolution")
	b := input[int16](1, 2, 3)
	d := b.deconv(2, k, k, s, s, act1[int16]())
	d.lay = layer.NewDeconv2D[int16](2, k, s, act1[int16]())
	d.lay.Connect(b.lay)
	predicts(compiled(d), d, "transposed convolution")
}

// convolutions behind one another, with different activations
func C17_Stacked() {
	sym.Bound("2 x 2 inputs through two layers, each a convolution or a transposed one")
	n := input[int16](1, 2, 2)
	for i := 0; i < 2; i++ {
		a := act1[int16]()
		if i == 1 {
			a = act2[int16]()
		}
		if sym.Pick("transposed", 0, 1) == 0 {
			n = n.conv(uint(2-i), 1, 2, 1, 1, a)
		} else {
			n = n.deconv(uint(2-i), 2, 1, 2, 1, a)
		}
		if n.shape[2] < 2 {
			n = n.up(1, 2)
		}
	}
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}

// inputs that are not 3-D are refused
func C17_Refused() {
	sym.Bound("inputs of 1, 2 and 4 dimensions of 1..2")
	rank := sym.Pick("rank", 1, 4)
	sym.Assume(rank != 3)
	shape := pickShape("s", rank, 2)
	var l layer.Layer[int16]
	switch sym.Pick("layer", 0, 3) {
	case 0:
		l = layer.NewConv2D[int16](1, 1, 1, act1[int16]())
	case 1:
		l = layer.NewDeconv2D[int16](1, 1, 1, act1[int16]())
	case 2:
		l = layer.NewConv2Dwh[int16](1, 1, 1, 1, 1, act1[int16]())
	case 3:
		l = layer.NewDeconv2Dwh[int16](1, 1, 1, 1, 1, act1[int16]())
	}
	m := model.NewModel[int16]().Push(layer.NewInput[int16](shape...)).Push(l)
	x, _ := mat[int16]("x", shape...)
	if sym.Pick("compile", 0, 1) == 1 {
		sym.Assert(m.Compile() != nil, "compiling is refused")
		return
	}
	_, err := m.Predict(x)
	sym.Assert(err != nil, "predicting is refused")
}
