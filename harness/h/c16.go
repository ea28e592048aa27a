package h

import (
	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func act1[T types.Number]() activation.Activation[T] { return anyAct[T]{"act1"} }
func act2[T types.Number]() activation.Activation[T] { return anyAct[T]{"act2"} }
func act3[T types.Number]() activation.Activation[T] { return anyAct[T]{"act3"} }

func c16[T types.Number](maxIn, maxHid, layers int) {
	ins := uint(sym.Pick("inputs", 1, maxIn))
	n := inDense[T](ins, uint(sym.Pick("units", 1, maxHid)), act1[T]())
	if sym.Pick("with input layer", 0, 1) == 1 {
		n = input[T](pickShape("in", sym.Pick("in rank", 1, 3), 2)...).dense(n.shape[0], act1[T]())
	} else {
		sym.Cover("dense first layer")
	}
	for i := 1; i < layers; i++ {
		a := act2[T]()
		if i > 1 {
			a = act3[T]()
		}
		n = n.dense(uint(sym.Pick("units", 1, maxHid)), a)
	}
	m := compiled(n)
	predicts(m, n, "prediction")
}

const c16Bound = "inputs of 1..3 units or 1..3 dimensions of 1..2, "

func C16_OneLayer()         { sym.Bound(c16Bound + "1 layer of 1..3 units"); c16[int16](3, 3, 1) }
func C16_TwoLayers()        { sym.Bound(c16Bound + "2 layers of 1..2 units"); c16[int16](3, 2, 2) }
func C16_ThreeLayers()      { sym.Bound(c16Bound + "3 layers of 1..2 units"); c16[int16](2, 2, 3) }
func C16_TwoLayers_Real()   { sym.Bound(c16Bound + "2 layers of 1..2 units"); c16[float64](2, 2, 2) }
func C16_Wide()             { sym.Bound("2 layers of 1..5 units"); c16[int16](5, 5, 2) }
func C16_Deep()             { sym.Bound("4 layers of 1..3 units"); c16[int16](3, 3, 4) }
func C16_Float32_Real()     { sym.Bound(c16Bound + "1 layer of 1..2 units"); c16[float32](2, 2, 1) }
func C16_ThreeLayers_Real() { sym.Bound(c16Bound + "3 layers of 1..2 units"); c16[float64](2, 2, 3) }

// the usual way to build a model: pushing layers; the model may be used without compiling it first
func C16_Pushed() {
	sym.Bound("model of 2 pushed layers of 1..2 units, compiled or not before the first prediction")
	a := &node[int16]{kind: kDense, act: act1[int16]()}
	ins, u1, u2 := uint(sym.Pick("inputs", 1, 2)), uint(sym.Pick("u1", 1, 2)), uint(sym.Pick("u2", 1, 2))
	a.lay, a.shape = layer.NewInDense[int16](ins, u1, a.act), []uint{u1}
	a.pre = &node[int16]{kind: kInput, shape: []uint{ins}}
	b := &node[int16]{kind: kDense, act: act2[int16](), pre: a, shape: []uint{u2}}
	b.lay = layer.NewDense[int16](u2, b.act)
	m := model.NewModel[int16]().Push(a.lay).Push(b.lay)
	if sym.Pick("compile first", 0, 1) == 1 {
		must(m.Compile(), "compiling")
	} else {
		x, _ := mat[int16]("x", ins)
		_, err := m.Predict(x)
		must(err, "predicting without compiling")
	}
	b.randomise()
	predicts(m, b, "prediction")
	predicts(m, b, "next prediction")
}

// a layer's units read arbitrarily many-dimensional output of a convolution in flat order
func C16_AfterConv() {
	sym.Bound("dense layer of 2 units on a 2x2x1 feature map")
	n := input[int16](1, 2, 2).conv(2, 1, 2, 1, 1, act1[int16]()).dense(2, act2[int16]())
	predicts(compiled(n), n, "prediction")
}

// the activations of the library
func c16Lib(a, b activation.Activation[int16]) {
	n := inDense[int16](2, 2, a).dense(1, b)
	predicts(compiled(n), n, "prediction")
}

func C16_Library() {
	sym.Bound("2-2-1 units with linear and rectified activations")
	c16Lib(&activation.Relu[int16]{Alpha: 2}, &activation.Linear[int16]{})
}
