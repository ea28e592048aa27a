package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c25[T types.Number](n *node[T]) {
	m := compiled(n)
	in := n.first().shape
	x1, v1 := mat[T]("input", in...)
	r1, err := m.Predict(x1)
	must(err, "predicting")
	w1 := clone(n.predict(v1))
	holds[T](r1, n.shape, w1, "first prediction")
	holds[T](x1, in, v1, "the input after predicting")
	n.sameParams("the parameters after predicting")
	// something in between
	switch sym.Pick("between", 0, 3) {
	case 0:
		predicts(m, n, "prediction between")
	case 1:
		trains(m, n, sym.Num[T]("alpha"), T(0), "training between")
		w2 := clone(n.predict(v1))
		r2, err := m.Predict(x1)
		must(err, "predicting")
		holds[T](r2, n.shape, w2, "prediction after training")
		holds[T](r1, n.shape, w1, "the earlier result after training")
		return
	case 2:
		// altering a result is altering a copy
		for _, o := range r1.GetOperands() {
			o.Value += 3
		}
		r2, err := m.Predict(x1)
		must(err, "predicting")
		holds[T](r2, n.shape, w1, "prediction after altering an earlier result")
		n.sameParams("the parameters after altering a result")
		return
	case 3:
		// altering the caller's input afterwards, or giving it again in a new tensor
		for _, o := range x1.GetOperands() {
			o.Value += 3
		}
		holds[T](r1, n.shape, w1, "the result after altering the input")
		x1 = tensor.NewFromValues(clone(v1), in...)
	}
	r2, err := m.Predict(x1)
	must(err, "predicting")
	holds[T](r2, n.shape, w1, "prediction of the same input again")
	holds[T](r1, n.shape, w1, "the earlier result")
	n.sameParams("the parameters afterwards")
}

func C25_Predict() {
	sym.Bound("2..3 predictions with training, other predictions or alterations between; " + smallText)
	c25(pickSmall[int16]())
}
func C25_Predict_Real() {
	sym.Bound("2..3 predictions with training, other predictions or alterations between; " + smallText)
	c25(pickSmall[float64]())
}

// a deferred input tensor, and feeding a result back in
func C25_Feedback() {
	sym.Bound("a 2-2 network fed with its own result")
	n := inDense[int16](2, 2, act1[int16]())
	m := compiled(n)
	x, v := mat[int16]("input", 2)
	r1, err := m.Predict(x)
	must(err, "predicting")
	w1 := clone(n.predict(v))
	r2, err := m.Predict(r1)
	must(err, "predicting")
	w2 := clone(n.predict(w1))
	holds[int16](r1, []uint{2}, w1, "the first result")
	holds[int16](r2, []uint{2}, w2, "the result of the result")
	holds[int16](x, []uint{2}, v, "the input")
	// the model's own output tensor as an input
	r3, err := m.Predict(m.Output)
	must(err, "predicting")
	holds[int16](r3, []uint{2}, n.predict(w2), "prediction of the model's output")
}

// the target of a training step and its input are the caller's
func C25_TrainKeepsSamples() {
	sym.Bound("1 training step; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := compiled(n)
	x, v := mat[int16]("input", n.first().shape...)
	y, t := mat[int16]("target", n.shape...)
	_, err := m.TrainOne(x, y, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"))
	must(err, "training")
	holds[int16](x, n.first().shape, v, "the input after training")
	holds[int16](y, n.shape, t, "the target after training")
}

func C25_Medium() {
	sym.Bound("2..3 predictions with training, other predictions or alterations between; " + mediumText)
	c25(pickMedium[int16]())
}

// many predictions in a row
func C25_Many() {
	sym.Bound("8 predictions of arbitrary inputs in a row; a 1-2-1 network")
	n := inDense[int16](1, 2, act1[int16]()).dense(1, act2[int16]())
	m := compiled(n)
	for i := 0; i < 8; i++ {
		predicts(m, n, "prediction")
	}
}
