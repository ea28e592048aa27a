package h

import (
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// one of several small networks with every kind of layer that has parameters
func smallNet[T types.Number](which int) *node[T] {
	switch which {
	case 0:
		return inDense[T](2, 1, act1[T]())
	case 1:
		return inDense[T](1, 2, act1[T]()).dense(1, act2[T]())
	case 2:
		return input[T](1, 1, 2).conv(1, 1, 1, 1, 1, act1[T]())
	case 3:
		return input[T](1, 1, 1).deconv(1, 1, 2, 1, 1, act1[T]())
	case 4:
		return input[T](1, 1, 2).conv(1, 1, 2, 1, 1, act1[T]()).flat().dense(1, act2[T]())
	case 5:
		return input[T](1, 1, 1).deconv(1, 2, 1, 1, 1, act1[T]()).dense(1, act2[T]())
	case 6:
		a := input[T](1)
		return join(a.dense(1, act1[T]()), a.dense(1, act2[T]()), 0).dense(1, act3[T]())
	case 7:
		return input[T](1, 1, 1).conv(1, 1, 1, 1, 1, act1[T]()).up(2, 1).conv(1, 1, 1, 1, 1, act2[T]())
	case 8:
		return input[T](1, 1, 2).conv(1, 1, 1, 1, 1, act1[T]()).sub(2, 1, 2).deconv(1, 1, 1, 1, 1, act2[T]())
	case 9:
		// windows of one cell: no ties
		return input[T](1, 1, 2).conv(1, 1, 1, 1, 1, act1[T]()).pool(1, 1).dense(1, act2[T]())
	}
	return nil
}

// pickSmall is one of the small networks.
func pickSmall[T types.Number]() *node[T] {
	return smallNet[T](sym.Pick("network", 0, smallNets-1))
}

// mediumNet is one of several larger networks.
func mediumNet[T types.Number](which int) *node[T] {
	switch which {
	case 0:
		return inDense[T](9, 6, act1[T]()).dense(4, act2[T]())
	case 1:
		return input[T](2, 3).dense(3, act1[T]()).dense(3, act2[T]()).dense(3, act3[T]()).dense(2, act1[T]())
	case 2:
		return input[T](2, 4, 3).conv(3, 2, 2, 1, 1, act1[T]()).conv(2, 2, 1, 1, 1, act2[T]()).flat().dense(3, act3[T]())
	case 3:
		return input[T](1, 2, 3).deconv(2, 2, 3, 2, 1, act1[T]()).conv(1, 3, 2, 1, 3, act2[T]())
	case 4:
		a := input[T](1, 2, 3)
		return join(a.conv(1, 2, 1, 1, 1, act1[T]()).up(2, 1), a.deconv(2, 1, 1, 1, 1, act2[T]()), 0).flat().dense(2, act3[T]())
	case 5:
		a := input[T](3)
		b := join(a.dense(2, act1[T]()), a.dense(3, act2[T]()), 0)
		return join(b, a.dense(2, act3[T]()), 0).dense(3, act1[T]()).sub(0, 1, 3)
	case 6:
		return input[T](1, 3, 3).conv(2, 2, 2, 1, 1, act1[T]()).sub(0, 1, 2).up(1, 3).deconv(1, 2, 2, 2, 2, act2[T]()).dense(2, act3[T]())
	}
	return nil
}

const mediumNets = 7
const mediumText = "7 larger networks of dense (up to 9-6-4 units and 4 layers), convolution (up to 2 channels of 4 x 3), transposed convolution, flatten, up-sampling, sub-tensor and concat layers"

func pickMedium[T types.Number]() *node[T] {
	return mediumNet[T](sym.Pick("network", 0, mediumNets-1))
}

const smallNets = 10
const smallText = "10 networks of dense, convolution, transposed convolution, flatten, up-sampling, sub-tensor, concat and pooling layers, 1..2 units or cells each"

func c22[T types.Number](n *node[T], steps int, between bool) {
	m := compiled(n)
	for i := 0; i < steps; i++ {
		if between && i > 0 && sym.Pick("predict between", 0, 1) == 1 {
			predicts(m, n, "prediction between")
		}
		trains(m, n, sym.Num[T]("alpha"), sym.Num[T]("momentum"), "step with momentum")
	}
}

func C22_TwoSteps() { sym.Bound("2 steps; " + smallText); c22(pickSmall[int16](), 2, true) }
func C22_Steps_Real() {
	sym.Bound("2 steps; " + smallText)
	c22(pickSmall[float64](), 2, false)
}
func C22_ThreeStepsEach() { sym.Bound("3 steps; " + smallText); c22(pickSmall[int16](), 3, false) }

// three steps of a single layer
func C22_ThreeSteps() {
	sym.Bound("3 steps of one layer of each kind with parameters")
	var n *node[int16]
	switch sym.Pick("layer", 0, 2) {
	case 0:
		n = inDense[int16](1, 1, linear[int16]{})
	case 1:
		n = input[int16](1, 1, 1).conv(1, 1, 1, 1, 1, linear[int16]{})
	case 2:
		n = input[int16](1, 1, 1).deconv(1, 1, 1, 1, 1, linear[int16]{})
	}
	m := compiled(n)
	for i := 0; i < 3; i++ {
		trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step with momentum")
	}
}

// a larger network
func C22_Wide() {
	sym.Bound("2 steps of a 2-2-2 network")
	n := inDense[int16](2, 2, act1[int16]()).dense(2, act2[int16]())
	m := compiled(n)
	mom := sym.Num[int16]("momentum")
	for i := 0; i < 2; i++ {
		trains(m, n, sym.Num[int16]("alpha"), mom, "step with momentum")
	}
}

// two steps of a larger network, its parameters set to arbitrary values in between
func C22_Medium() {
	sym.Bound("2 steps, parameters arbitrary before each; " + mediumText)
	n := pickMedium[int16]()
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step with momentum")
	n.renew()
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "second step with momentum")
}
func C22_ManySteps() {
	sym.Bound("6 steps of a 1-1 network and of one with a convolution")
	if sym.Pick("network", 0, 1) == 0 {
		c22(inDense[int16](1, 1, act1[int16]()), 6, false)
	} else {
		c22(input[int16](1, 1, 1).conv(1, 1, 1, 1, 1, act1[int16]()), 6, false)
	}
}
