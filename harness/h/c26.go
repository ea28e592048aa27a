package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// sample pairs, as tensors and as values
func samples[T types.Number](k int, in, out []uint) (xs, ys []tensor.Tensor[T], vs, ts [][]T) {
	for i := 0; i < k; i++ {
		x, v := mat[T]("input", in...)
		y, t := mat[T]("target", out...)
		xs, ys, vs, ts = append(xs, x), append(ys, y), append(vs, v), append(ts, t)
	}
	return
}

// matches: the real layers hold the parameters of the definition.
func (n *node[T]) matches() bool {
	ok := true
	for _, l := range n.all() {
		if l.hasParams() {
			w, b := l.params()
			for i, v := range w.GetData() {
				ok = sym.And(ok, sym.Same(v, l.w[i]))
			}
			for i, v := range b.GetData() {
				ok = sym.And(ok, sym.Same(v, l.b[i]))
			}
		}
	}
	return ok
}

// someSequence: some sequence of exactly that many steps, each on one of the pairs, leads from the
// parameters of the definition to those of the real layers.
func someSequence[T types.Number](n *node[T], vs, ts [][]T, alpha, mom T, steps int) bool {
	if steps == 0 {
		return n.matches()
	}
	any := false
	for j := range vs {
		c := *n
		c.w, c.b, c.mw, c.mb = clone(n.w), clone(n.b), clone(n.mw), clone(n.mb)
		c.train(vs[j], ts[j], alpha, mom)
		any = sym.Or(any, someSequence(&c, vs, ts, alpha, mom, steps-1))
	}
	return any
}

func c26[T types.Number](minSamples, maxSamples, maxEpochs, maxBatch, maxSteps int) {
	n := inDense[T](1, 1, act1[T]())
	k := sym.Pick("samples", minSamples, maxSamples)
	xs, ys, vs, ts := samples[T](k, []uint{1}, []uint{1})
	epochs, batch := sym.Pick("epochs", 0, maxEpochs), sym.Pick("batch", 0, maxBatch)
	steps := epochs * batch
	if batch == 0 {
		steps = epochs * k
	}
	sym.Assume(steps <= maxSteps)
	alpha, mom := sym.Num[T]("alpha"), sym.Num[T]("momentum")
	m := compiled(n)
	must(m.Train(xs, ys, uint(epochs), uint(batch), alpha, mom), "training")
	sym.Assert(someSequence(n, vs, ts, alpha, mom, steps), "the parameters after epochs x batch steps on matching pairs")
	for i := range xs {
		holds[T](xs[i], []uint{1}, vs[i], "inputs afterwards")
		holds[T](ys[i], []uint{1}, ts[i], "targets afterwards")
	}
}

func C26_Train() {
	sym.Bound("1..2 samples, 0..2 epochs, batch 0..3, at most 4 steps, a 1-1 network, every outcome of the sample choice")
	c26[int16](1, 2, 2, 3, 4)
}
func C26_ThreeSamples() {
	sym.Bound("3 samples, 0..1 epochs, batch 0..2, every outcome of the sample choice")
	c26[int16](3, 3, 1, 2, 3)
}
func C26_Train_Real() {
	sym.Bound("1..2 samples, 0..2 epochs, batch 0..2, at most 3 steps, a 1-1 network, every outcome of the sample choice")
	c26[float64](1, 2, 2, 2, 3)
}
func C26_Long_Thorough() {
	sym.Bound("1..3 samples, 0..3 epochs, batch 0..3, at most 5 steps, every outcome of the sample choice")
	c26[int16](1, 3, 3, 3, 5)
}

// training again continues from the parameters and last movements
func C26_Again() {
	sym.Bound("two calls of 1..2 epochs with 1 sample each, different rates")
	n := inDense[int16](1, 1, act1[int16]())
	m := compiled(n)
	for c := 0; c < 2; c++ {
		xs, ys, vs, ts := samples[int16](1, []uint{1}, []uint{1})
		alpha, mom := sym.Num[int16]("alpha"), sym.Num[int16]("momentum")
		epochs := sym.Pick("epochs", 1, 2)
		must(m.Train(xs, ys, uint(epochs), uint(sym.Pick("batch", 0, 1)), alpha, mom), "training")
		for i := 0; i < epochs; i++ {
			n.train(vs[0], ts[0], alpha, mom)
		}
		n.sameParams("parameters")
	}
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "single step afterwards")
}

// any kind of network, one sample
func C26_Networks() {
	sym.Bound("2 epochs of 1 sample; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := compiled(n)
	xs, ys, vs, ts := samples[int16](1, n.first().shape, n.shape)
	alpha := sym.Num[int16]("alpha")
	must(m.Train(xs, ys, 2, 0, alpha, 0), "training")
	for i := 0; i < 2; i++ {
		n.train(vs[0], ts[0], alpha, 0)
	}
	n.sameParams("parameters")
}

// a model that was not used before
func C26_Fresh() {
	sym.Bound("a model neither compiled nor used; 0..2 epochs; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := modelOf(n)
	xs, ys, _, _ := samples[int16](1, n.first().shape, n.shape)
	must(m.Train(xs, ys, uint(sym.Pick("epochs", 0, 2)), 1, sym.Num[int16]("alpha"), 0), "training")
	n.randomise()
	predicts(m, n, "prediction")
}

// differing numbers of inputs and targets
func C26_Refused() {
	sym.Bound("0..3 inputs and targets")
	n := inDense[int16](1, 1, act1[int16]())
	m := compiled(n)
	a, b := sym.Pick("inputs", 0, 3), sym.Pick("targets", 0, 3)
	sym.Assume(a != b)
	xs, _, _, _ := samples[int16](a, []uint{1}, []uint{1})
	_, ys, _, _ := samples[int16](b, []uint{1}, []uint{1})
	err := m.Train(xs, ys, uint(sym.Pick("epochs", 0, 2)), uint(sym.Pick("batch", 0, 2)), sym.Num[int16]("alpha"), 0)
	sym.Assert(err != nil, "differing numbers are refused")
	n.sameParams("parameters after a refused training")
}

func C26_Medium() {
	sym.Bound("1 epoch of 1 sample; " + mediumText)
	n := pickMedium[int16]()
	m := compiled(n)
	xs, ys, vs, ts := samples[int16](1, n.first().shape, n.shape)
	alpha, mom := sym.Num[int16]("alpha"), sym.Num[int16]("momentum")
	must(m.Train(xs, ys, 1, 1, alpha, mom), "training")
	n.train(vs[0], ts[0], alpha, mom)
	n.sameParams("parameters")
}

// many epochs and large batches of one sample
func C26_Many() {
	sym.Bound("1 sample, up to 12 steps in every combination of epochs and batch; a 1-1 network")
	n := inDense[int16](1, 1, act1[int16]())
	m := compiled(n)
	xs, ys, vs, ts := samples[int16](1, []uint{1}, []uint{1})
	epochs, batch := sym.Pick("epochs", 0, 12), sym.Pick("batch", 0, 12)
	steps := epochs * batch
	if batch == 0 {
		steps = epochs
	}
	sym.Assume(steps <= 12)
	alpha, mom := sym.Num[int16]("alpha"), sym.Num[int16]("momentum")
	must(m.Train(xs, ys, uint(epochs), uint(batch), alpha, mom), "training")
	for i := 0; i < steps; i++ {
		n.train(vs[0], ts[0], alpha, mom)
	}
	n.sameParams("parameters")
}
