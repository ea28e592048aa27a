package h

import (
	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"

	"verifharness/sym"
)

// Long histories: many uses of a model with fixed numbers, then one with arbitrary ones.

const longText = "a dense, a convolution and a concat network; before, 270 rounds of a training step, a prediction and (every 16th) a refused one, with fixed numbers"

func longNet(which int) *node[int16] {
	lin := activation.Linear[int16]{}
	switch which {
	case 0:
		return inDense[int16](2, 2, lin).dense(1, lin)
	case 1:
		return input[int16](1, 2, 2).conv(1, 2, 1, 1, 1, lin).flat().dense(1, lin)
	}
	a := input[int16](2)
	if which == 3 {
		return a.nest(inDense[int16](2, 2, lin).dense(1, lin)).dense(1, lin)
	}
	return join(a.dense(1, lin), a.sub(0, 1, 2), 0).dense(1, lin)
}

// fixed gives every parameter a fixed value.
func (n *node[T]) fixed() {
	k := T(1)
	for _, l := range n.all() {
		if l.hasParams() {
			for i := range l.w {
				l.w[i] = k
				k = k*3 - 5
			}
			for i := range l.b {
				l.b[i] = k
				k = k*3 - 5
			}
			l.storeParams()
		}
	}
}

func series(n, from int) []int16 {
	v := make([]int16, n)
	for i := range v {
		v[i] = int16(from*7 + i*3 - 4)
	}
	return v
}

func longPast(m *model.Model[int16], n *node[int16]) {
	n.fixed()
	in, out := n.first().shape, n.shape
	for k := 0; k < 270; k++ {
		x, y := series(prod(in), k), series(prod(out), k+2)
		got, err := m.TrainOne(tensor.NewFromValues(x, in...), tensor.NewFromValues(y, out...), int16(k%3), int16(k%2))
		must(err, "training")
		sym.Assert(got == n.train(x, y, int16(k%3), int16(k%2)), "loss of a step of a long training")
		n.sameParams("after a step of a long training")
		x = series(prod(in), k+5)
		p, err := m.Predict(tensor.NewFromValues(x, in...))
		must(err, "predicting")
		holds[int16](p, out, n.predict(x), "a prediction of a long series")
		if k%16 == 15 {
			_, err := m.Predict(tensor.NewZeros[int16](5, 5))
			fails(err, "a prediction for a wrong shape")
		}
	}
}

func C23_LongPast() {
	sym.Bound(longText)
	n := longNet(sym.Pick("network", 0, 2))
	m := compiled(n)
	longPast(m, n)
	n.renew()
	trains(m, n, sym.Num[int16]("alpha"), 0, "training after a long past")
}

func C22_LongPast() {
	sym.Bound(longText)
	n := longNet(sym.Pick("network", 0, 2))
	m := compiled(n)
	longPast(m, n)
	n.renew()
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a long past")
}

func C25_LongPast() {
	sym.Bound(longText)
	n := longNet(sym.Pick("network", 0, 2))
	m := compiled(n)
	longPast(m, n)
	n.renew()
	predicts(m, n, "prediction after a long past")
	predicts(m, n, "and once more")
}

func C24_LongPast() {
	sym.Bound(longText + "; frozen before and unfrozen behind them")
	n := longNet(sym.Pick("network", 0, 2))
	m := compiled(n)
	m.SetTrainable(false)
	for _, l := range n.all() {
		l.frozen = true
	}
	longPast(m, n)
	m.SetTrainable(true)
	for _, l := range n.all() {
		l.frozen = false
	}
	n.renew()
	trains(m, n, sym.Num[int16]("alpha"), 0, "training after a long past")
}

func C28_LongPast() {
	sym.Bound(longText)
	which := sym.Pick("network", 0, 2)
	n := longNet(which)
	m := compiled(n)
	longPast(m, n)
	n.renew()
	d := newDisk()
	must(save(m, d), "saving")
	d.pos = 0
	o := longNet(which)
	mo := compiled(o)
	longPast(mo, o)
	must(load(mo, d), "loading")
	for i, l := range o.all() {
		l.w, l.b = clone(n.all()[i].w), clone(n.all()[i].b)
	}
	o.sameParams("the loaded parameters")
	predicts(mo, o, "prediction of the restored model")
}

func C30_LongPast() {
	sym.Bound(longText)
	n := longNet(sym.Pick("network", 0, 2))
	m := compiled(n)
	longPast(m, n)
	n.renew()
	_, err := m.Predict(tensor.NewZeros[int16](3))
	fails(err, "a prediction for a wrong shape")
	_, err = m.TrainOne(tensor.NewZeros[int16](n.first().shape...), tensor.NewZeros[int16](3), 1, 1)
	fails(err, "a training step for a wrong shape")
	n.sameParams("after the refused calls")
	predicts(m, n, "prediction afterwards")
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training afterwards")
}

func C35_LongPast() {
	sym.Bound("a model of two dense layers as a layer in front of a dense layer; before, 270 rounds of a training step, a prediction and (every 16th) a refused one, with fixed numbers")
	n := longNet(3)
	m := compiled(n)
	longPast(m, n)
	n.renew()
	predicts(m, n, "prediction after a long past")
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a long past")
}

func C26_LongPast() {
	sym.Bound("17 x 19, 300 x 1, 1 x 300 and 300 x 0 epochs and batch with one sample and fixed numbers, then one of arbitrary numbers; a dense and a convolution network")
	n := longNet(sym.Pick("network", 0, 1))
	m := compiled(n)
	n.fixed()
	g := [][2]uint{{17, 19}, {300, 1}, {1, 300}, {300, 0}}[sym.Pick("epochs and batch", 0, 3)]
	in, out := n.first().shape, n.shape
	x, y := series(prod(in), 1), series(prod(out), 4)
	xs := []tensor.Tensor[int16]{tensor.NewFromValues(x, in...)}
	ys := []tensor.Tensor[int16]{tensor.NewFromValues(y, out...)}
	must(m.Train(xs, ys, g[0], g[1], 1, 1), "training")
	if g[1] == 0 {
		g[1] = 1
	}
	for k := uint(0); k < g[0]*g[1]; k++ {
		n.train(x, y, 1, 1)
	}
	n.sameParams("after a long training")
	n.renew()
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a long training")
}

func C08_LongPast() {
	sym.Bound("(a + b) * a - b of 2 elements, run 300 times with fixed numbers, then with arbitrary ones")
	a, _ := mat[int16]("a", 2)
	b, _ := mat[int16]("b", 2)
	l := tensor.Sub(tensor.Mul(tensor.Add[int16](a, b), tensor.Tensor[int16](a)), tensor.Tensor[int16](b))
	g, err := graph.NewGraph(l)
	must(err, "building")
	set := func(v, w []int16) {
		must(a.LoadData(v), "setting an operand")
		must(b.LoadData(w), "setting an operand")
		g.Exec()
		want := make([]int16, 2)
		for i := range want {
			want[i] = (v[i]+w[i])*v[i] - w[i]
		}
		holds(l, []uint{2}, want, "the result")
	}
	for k := 0; k < 300; k++ {
		set(series(2, k), series(2, 2*k+1))
	}
	set(nums[int16]("v", 2), nums[int16]("w", 2))
}
