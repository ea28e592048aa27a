package h

import (
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// whatever happened before, a step with zero momentum from given parameters is the step of a fresh
// model with these parameters
func c23[T types.Number](n *node[T], before int) {
	m := compiled(n)
	for i := 0; i < before; i++ {
		switch sym.Pick("before", 0, 2) {
		case 0:
			x, _ := mat[T]("input", n.first().shape...)
			_, err := m.Predict(x)
			must(err, "predicting")
		case 1:
			x, _ := mat[T]("input", n.first().shape...)
			y, _ := mat[T]("target", n.shape...)
			_, err := m.TrainOne(x, y, sym.Num[T]("alpha"), sym.Num[T]("momentum"))
			must(err, "training")
		case 2:
			must(m.ResetIS(), "resetting")
		}
	}
	n.randomise()
	trains(m, n, sym.Num[T]("alpha"), T(0), "step after a history")
}

func C23_History1() {
	sym.Bound("1 prediction, training step or reset before; " + smallText)
	c23(pickSmall[int16](), 1)
}
func C23_History2() {
	sym.Bound("2 predictions, training steps or resets before; " + smallText)
	c23(pickSmall[int16](), 2)
}
func C23_History_Real() {
	sym.Bound("1 prediction, training step or reset before; " + smallText)
	c23(pickSmall[float64](), 1)
}
func C23_History3() {
	sym.Bound("3 predictions, training steps or resets before; " + smallText)
	c23(pickSmall[int16](), 3)
}

// the parameters after a history are those the history's steps made
func C23_Sequence() {
	sym.Bound("3 steps without momentum; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := compiled(n)
	alpha := sym.Num[int16]("alpha")
	for i := 0; i < 2; i++ {
		trains(m, n, alpha, 0, "step")
	}
	predicts(m, n, "prediction")
}

func C23_Medium() {
	sym.Bound("1 prediction, training step or reset before; " + mediumText)
	c23(pickMedium[int16](), 1)
}
func C23_Long() {
	sym.Bound("any 6 predictions, training steps or resets before; a 1-1 network")
	c23(inDense[int16](1, 1, act1[int16]()), 6)
}
