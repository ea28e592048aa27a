package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c18Pool[T types.Number](chans, maxIn, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	c18PoolAt[T](c, w, h, uint(sym.Pick("window width", 1, maxS)), uint(sym.Pick("window height", 1, maxS)))
}

func c18PoolAt[T types.Number](c, w, h, sx, sy uint) {
	a := input[T](c, w, h)
	n := a.pool(sx, sy)
	if n.sx == n.sy && sym.Pick("square form", 0, 1) == 1 {
		n.lay = layer.NewMaxPool2D[T](uint(n.sx))
		n.lay.Connect(a.lay)
	}
	m := compiled(n)
	x, v := mat[T]("input", a.shape...)
	got, err := m.Predict(x)
	must(err, "predicting")
	so := n.shape
	sym.Assert(sameShape(got.GetShape(), so), "shape")
	g := got.GetData()
	sym.Assert(len(g) == prod(so), "number of elements")
	// each output bounds its window from above and is one of its cells
	one := make([]bool, len(g))
	for f := 0; f < int(c); f++ {
		for i := 0; i < int(w); i++ {
			for j := 0; j < int(h); j++ {
				p, q := at3(so, f, i/n.sx, j/n.sy), at3(a.shape, f, i, j)
				sym.Assert(v[q] <= g[p], "no cell of a window exceeds its output")
				one[p] = or(one[p], v[q] == g[p])
			}
		}
	}
	for p := range one {
		sym.Assert(one[p], "an output is a cell of its window")
	}
	holds[T](x, a.shape, v, "the input afterwards")
}

func or(a, b bool) bool {
	if a {
		return true
	}
	return b
}

func C18_Pool() {
	sym.Bound("1..2 channels of 1..2 x 1..2, windows 1..3 x 1..3")
	c18Pool[int16](2, 2, 3)
}
func C18_PoolBorder() {
	sym.Bound("1 channel of 1..3 x 1..3, windows 1..2 x 1..2")
	c18Pool[int16](1, 3, 2)
}
func C18_PoolWhole_Real() {
	sym.Bound("1..2 channels of 1..3 x 1..3, windows 1..3 x 1..3")
	c18Pool[float64](2, 3, 3)
}
func C18_PoolInts_Thorough() {
	sym.Bound("1..2 channels of 1..3 x 1..3, windows 1..3 x 1..3")
	c18Pool[int16](2, 3, 3)
}
func C18_PoolInt32_Thorough() {
	sym.Bound("1 channel of 1..4 x 1..4, windows 1..3 x 1..3")
	c18Pool[int32](1, 4, 3)
}
func C18_Pool_Real() {
	sym.Bound("1 channel of 1..4 x 1..4, windows 1..2 x 1..2")
	c18Pool[float64](1, 4, 2)
}
func C18_PoolLarge_Real_Thorough() {
	sym.Bound("1..2 channels of 1..5 x 1..5, windows 1..4 x 1..4")
	c18Pool[float64](2, 5, 4)
}

func c18Up[T types.Number](chans, maxIn, maxS int) {
	c := uint(sym.Pick("channels", 1, chans))
	w, h := uint(sym.Pick("width", 1, maxIn)), uint(sym.Pick("height", 1, maxIn))
	a := input[T](c, w, h)
	n := a.up(uint(sym.Pick("horizontal", 1, maxS)), uint(sym.Pick("vertical", 1, maxS)))
	if n.sx == n.sy && sym.Pick("square form", 0, 1) == 1 {
		n.lay = layer.NewUpSampling2D[T](uint(n.sx))
		n.lay.Connect(a.lay)
	}
	predicts(compiled(n), n, "prediction")
}

func C18_Up() {
	sym.Bound("1..2 channels of 1..3 x 1..3, factors 1..3 x 1..3")
	c18Up[int16](2, 3, 3)
}
func C18_UpFloat() {
	sym.Bound("1 channel of 1..2 x 1..2, factors 1..3 x 1..3, every float32 including infinities")
	c18Up[float32](1, 2, 3)
}
func C18_UpLarge() {
	sym.Bound("1..2 channels of 1..5 x 1..5, factors 1..4 x 1..4")
	c18Up[int16](2, 5, 4)
}

// pooling what was up-sampled by the same factors gives it back; both inside a larger network
func C18_RoundTrip() {
	sym.Bound("1..2 channels of 1..2 x 1..2, factors 1..2 x 1..2")
	a := input[int16](uint(sym.Pick("channels", 1, 2)), uint(sym.Pick("width", 1, 2)), uint(sym.Pick("height", 1, 2)))
	sx, sy := uint(sym.Pick("horizontal", 1, 2)), uint(sym.Pick("vertical", 1, 2))
	n := a.up(sx, sy).pool(sx, sy)
	m := compiled(n)
	x, v := mat[int16]("input", a.shape...)
	got, err := m.Predict(x)
	must(err, "predicting")
	holds[int16](got, a.shape, v, "pooled up-sampling")
}

// behind a convolution; twice in a row with different inputs
func C18_InNetwork() {
	sym.Bound("a 3 x 2 input through a convolution, pooling and up-sampling in either order")
	n := input[int16](1, 3, 2).conv(1, 1, 1, 1, 1, act1[int16]())
	if sym.Pick("pool first", 0, 1) == 1 {
		n = n.pool(2, 1).up(1, 2)
	} else {
		n = n.up(1, 2).pool(3, 1)
	}
	m := compiled(n)
	predicts(m, n, "prediction")
}

func C18_Again() {
	sym.Bound("two predictions in a row, 1 channel of 2 x 2, windows 1..2 x 1..2")
	n := input[int16](1, 2, 2).pool(uint(sym.Pick("window width", 1, 2)), uint(sym.Pick("window height", 1, 2)))
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}
