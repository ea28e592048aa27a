package h

import (
	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c20Net[T types.Number](maxIn, maxU, layers int) *node[T] {
	var n *node[T]
	if sym.Pick("with input layer", 0, 1) == 1 {
		n = input[T](uint(sym.Pick("inputs", 1, maxIn))).dense(uint(sym.Pick("units", 1, maxU)), act1[T]())
	} else {
		n = inDense[T](uint(sym.Pick("inputs", 1, maxIn)), uint(sym.Pick("units", 1, maxU)), act1[T]())
	}
	for i := 1; i < layers; i++ {
		a := act2[T]()
		if i > 1 {
			a = act3[T]()
		}
		n = n.dense(uint(sym.Pick("units", 1, maxU)), a)
	}
	return n
}

func c20[T types.Number](maxIn, maxU, layers int) {
	n := c20Net[T](maxIn, maxU, layers)
	m := compiled(n)
	trains(m, n, sym.Num[T]("alpha"), T(0), "training step")
}

func C20_OneLayer()       { sym.Bound("1 layer of 1..3 units on 1..3 inputs"); c20[int16](3, 3, 1) }
func C20_TwoLayers()      { sym.Bound("2 layers of 1..2 units on 1..2 inputs"); c20[int16](2, 2, 2) }
func C20_ThreeLayers()    { sym.Bound("3 layers of 1..2 units on 1..2 inputs"); c20[int16](2, 2, 3) }
func C20_OneLayer_Real()  { sym.Bound("1 layer of 1..2 units on 1..2 inputs"); c20[float64](2, 2, 1) }
func C20_TwoLayers_Real() { sym.Bound("2 layers of 1..2 units on 1..2 inputs"); c20[float64](2, 2, 2) }
func C20_Wide()           { sym.Bound("2 layers of 1..4 units on 1..4 inputs"); c20[int16](4, 4, 2) }
func C20_Deep()           { sym.Bound("4 layers of 1..2 units on 1..2 inputs"); c20[int16](2, 2, 4) }
func C20_Three_Real() {
	sym.Bound("3 layers of 1..2 units on 1..2 inputs")
	c20[float64](2, 2, 3)
}

// an input of several dimensions
func C20_FlatInput() {
	sym.Bound("2 layers of 1..2 units on an input of 1..3 dimensions of 1..2")
	n := input[int16](pickAnyShape("in", 1, 3, 2)...).dense(uint(sym.Pick("u1", 1, 2)), act1[int16]()).dense(uint(sym.Pick("u2", 1, 2)), act2[int16]())
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), 0, "training step")
}

// several steps in a row, and a prediction afterwards
func C20_Steps() {
	sym.Bound("2 steps and a prediction with 2 layers of 1..2 units")
	n := c20Net[int16](2, 2, 2)
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), 0, "first step")
	if sym.Pick("predict between", 0, 1) == 1 {
		predicts(m, n, "prediction between")
	}
	trains(m, n, sym.Num[int16]("alpha"), 0, "second step")
	predicts(m, n, "prediction afterwards")
}

// activations of the library whose derivative is exact on integers
func C20_Relu() {
	sym.Bound("2-2-1 units with rectified and linear activations, all signs")
	n := inDense[int16](2, 2, &activation.Relu[int16]{Alpha: 2}).dense(1, &activation.Linear[int16]{})
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), 0, "training step")
}
