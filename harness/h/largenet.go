package h

import (
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// The properties of single layers again on larger ones.

func C16_Large() {
	sym.Bound("17-9-5, 40-3, 3-20-2, 3x4x2-7 and 1-1-1-1-1-1-1 dense networks")
	var n *node[int16]
	a, b, c := act1[int16](), act2[int16](), act3[int16]()
	switch sym.Pick("network", 0, 4) {
	case 0:
		n = inDense[int16](17, 9, a).dense(5, b)
	case 1:
		n = inDense[int16](40, 3, a)
	case 2:
		n = inDense[int16](3, 20, a).dense(2, b)
	case 3:
		n = input[int16](3, 4, 2).dense(7, a)
	case 4:
		n = inDense[int16](1, 1, a).dense(1, b).dense(1, c).dense(1, a).dense(1, b).dense(1, c)
	}
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}

func C16_Medium() {
	sym.Bound(mediumText)
	n := pickMedium[int16]()
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "next prediction")
}

type geometry struct{ c, w, h, nf, kw, kh, sx, sy uint }

var largeConvs = []geometry{
	{3, 7, 6, 4, 3, 4, 2, 1}, {1, 9, 5, 2, 5, 3, 3, 2}, {2, 8, 8, 2, 4, 4, 4, 4}, {1, 12, 3, 5, 2, 3, 1, 1},
	{5, 3, 4, 1, 3, 1, 1, 3}, {1, 6, 6, 1, 6, 6, 1, 1}, {2, 5, 7, 3, 1, 6, 5, 1}, {1, 10, 10, 1, 2, 2, 7, 3},
}
var largeDeconvs = []geometry{
	{3, 4, 3, 2, 3, 4, 2, 1}, {1, 5, 4, 3, 2, 2, 3, 3}, {2, 2, 5, 2, 5, 3, 1, 2}, {1, 3, 7, 1, 1, 4, 5, 4},
	{4, 2, 2, 1, 2, 1, 2, 3}, {1, 1, 1, 2, 6, 5, 1, 1},
}

func (g geometry) conv(a *node[int16]) *node[int16] {
	return a.conv(g.nf, g.kw, g.kh, g.sx, g.sy, act1[int16]())
}
func (g geometry) deconv(a *node[int16]) *node[int16] {
	return a.deconv(g.nf, g.kw, g.kh, g.sx, g.sy, act1[int16]())
}

const largeConvText = "8 convolutions: up to 5 channels, 12 x 10 cells, 5 filters, kernels up to 6 x 6, strides up to 7"
const largeDeconvText = "6 transposed convolutions: up to 4 channels, 5 x 7 cells, 3 filters, kernels up to 6 x 5, strides up to 5"

func C17_LargeConv() {
	sym.Bound(largeConvText)
	g := largeConvs[sym.Pick("geometry", 0, len(largeConvs)-1)]
	n := g.conv(input[int16](g.c, g.w, g.h))
	predicts(compiled(n), n, "prediction")
}
func C17_LargeDeconv() {
	sym.Bound(largeDeconvText)
	g := largeDeconvs[sym.Pick("geometry", 0, len(largeDeconvs)-1)]
	n := g.deconv(input[int16](g.c, g.w, g.h))
	predicts(compiled(n), n, "prediction")
}

func C18_LargeUp() {
	sym.Bound("1..4 channels of up to 7 x 6, factors up to 5 x 6")
	g := [][5]uint{{3, 4, 5, 4, 3}, {1, 7, 2, 2, 6}, {4, 1, 3, 5, 1}, {2, 6, 6, 2, 2}}[sym.Pick("geometry", 0, 3)]
	n := input[int16](g[0], g[1], g[2]).up(g[3], g[4])
	predicts(compiled(n), n, "prediction")
}

func C19_LargeFlatten() { sym.Bound(largeText); c19Flat(0, large) }
func C19_LargeSub() {
	sym.Bound(largeText + "; every dimension, the first, the last, all and the middle positions")
	a := input[int16](pickAnyShape("in", 0, 0, large)...)
	d := sym.Pick("dimension", 0, len(a.shape)-1)
	ext := a.shape[d]
	from, to := uint(0), ext
	switch sym.Pick("range", 0, 3) {
	case 0:
		to = 1
	case 1:
		from = ext - 1
	case 2:
		from, to = ext/3, ext-ext/4
	}
	n := a.sub(uint(d), from, to)
	predicts(compiled(n), n, "prediction")
}
func C19_LargeConcat() {
	sym.Bound(largeText + "; parts of them joined in either order, every dimension")
	a := input[int16](pickAnyShape("in", 0, 0, large)...)
	d := sym.Pick("dimension", 0, len(a.shape)-1)
	ext := a.shape[d]
	x, y := a.sub(uint(d), 0, (ext+1)/2), a.sub(uint(d), ext/2, ext)
	if sym.Pick("order", 0, 1) == 1 {
		x, y = y, x
	}
	n := join(x, y, uint(d))
	predicts(compiled(n), n, "prediction")
}

func c20Large[T types.Number](which int) *node[T] {
	a, b, c := act1[T](), act2[T](), act3[T]()
	switch which {
	case 0:
		return inDense[T](9, 7, a).dense(5, b).dense(3, c)
	case 1:
		return inDense[T](18, 2, a)
	case 2:
		return inDense[T](2, 12, a).dense(2, b)
	case 3:
		return input[T](2, 3, 2).dense(4, a).dense(9, b)
	}
	return inDense[T](1, 1, a).dense(1, b).dense(1, c).dense(1, a).dense(1, b).dense(1, c)
}

func C20_Large() {
	sym.Bound("one step of 9-7-5-3, 18-2, 2-12-2, 2x3x2-4-9 and 1-1-1-1-1-1-1 dense networks")
	n := c20Large[int16](sym.Pick("network", 0, 4))
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), 0, "training step")
	predicts(m, n, "prediction afterwards")
}

func C21_LargeConv() {
	sym.Bound(largeConvText)
	g := largeConvs[sym.Pick("geometry", 0, len(largeConvs)-1)]
	c21Step(g.conv(input[int16](g.c, g.w, g.h)))
}
func C21_LargeDeconv() {
	sym.Bound(largeDeconvText)
	g := largeDeconvs[sym.Pick("geometry", 0, len(largeDeconvs)-1)]
	c21Step(g.deconv(input[int16](g.c, g.w, g.h)))
}
func C21_LargeBehind() {
	sym.Bound(largeConvText + "; " + largeDeconvText + "; behind a convolution with kernel 1 x 1")
	if k := sym.Pick("geometry", 0, len(largeConvs)+len(largeDeconvs)-1); k < len(largeConvs) {
		g := largeConvs[k]
		sym.Assume(g.c <= 3)
		c21Step(g.conv(input[int16](1, g.w, g.h).conv(g.c, 1, 1, 1, 1, act2[int16]())))
	} else {
		g := largeDeconvs[k-len(largeConvs)]
		c21Step(g.deconv(input[int16](1, g.w, g.h).conv(g.c, 1, 1, 1, 1, act2[int16]())))
	}
}
func C21_Medium() {
	sym.Bound(mediumText)
	c21Step(pickMedium[int16]())
}
