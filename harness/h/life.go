package h

import (
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

const events = 15
const eventText = "each of 15 things done to a model (predict, predict again with the changed tensor, train one step, train an epoch, freeze or unfreeze a layer or the model, save, save and load, load a shortened file, refused prediction, refused training, reset, compile again, alter a result, print)"

// event does one of the things a user does to a model. What the layers hold afterwards is not
// followed: the caller sets it.
func event[T types.Number](m *model.Model[T], n *node[T], which int) {
	in, out := n.first().shape, n.shape
	one := func(shape []uint) tensor.Tensor[T] { t, _ := mat[T]("event", shape...); return t }
	other := []uint{uint(prod(in)) + 1}
	switch which {
	case 0:
		_, err := m.Predict(one(in))
		must(err, "predicting")
	case 1:
		x := one(in)
		_, err := m.Predict(x)
		must(err, "predicting")
		must(x.LoadData(nums[T]("event", prod(in))), "changing the input")
		_, err = m.Predict(x)
		must(err, "predicting")
	case 2:
		_, err := m.TrainOne(one(in), one(out), sym.Num[T]("event alpha"), sym.Num[T]("event momentum"))
		must(err, "training")
	case 3:
		x, y := []tensor.Tensor[T]{one(in)}, []tensor.Tensor[T]{one(out)}
		must(m.Train(x, y, 1, 0, sym.Num[T]("event alpha"), sym.Num[T]("event momentum")), "training")
	case 4:
		for _, l := range n.all() {
			if l.hasParams() {
				l.frozen = !l.frozen
				l.lay.SetTrainable(!l.frozen)
				break
			}
		}
	case 5:
		f := !n.frozen
		m.SetTrainable(!f)
		for _, l := range n.all() {
			l.frozen = f
		}
	case 6:
		must(save(m, newDisk()), "saving")
	case 7:
		d := newDisk()
		must(save(m, d), "saving")
		d.pos = 0
		must(load(m, d), "loading")
	case 8:
		d := newDisk()
		must(save(m, d), "saving")
		d.limit = len(d.data) - 1
		fails(load(m, d), "loading a shortened file")
	case 9:
		_, err := m.Predict(one(other))
		fails(err, "predicting with a wrong input")
	case 10:
		_, err := m.TrainOne(one(in), one(append([]uint{1}, out...)), sym.Num[T]("event alpha"), sym.Num[T]("event momentum"))
		fails(err, "training with a wrong target")
	case 11:
		must(m.ResetIS(), "resetting")
	case 12:
		must(m.Compile(), "compiling again")
	case 13:
		r, err := m.Predict(one(in))
		must(err, "predicting")
		must(r.LoadData(nums[T]("event", prod(out))), "altering a result")
	case 14:
		_ = m.String()
	}
}

// live does k arbitrary things to a model and then gives its parameters arbitrary values.
func live[T types.Number](m *model.Model[T], n *node[T], k int) {
	for i := 0; i < k; i++ {
		event(m, n, sym.Pick("event", 0, events-1))
	}
	n.randomise()
}

func C23_Life() {
	sym.Bound("2 of " + eventText + ", then a step; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	live(m, n, 2)
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after a history")
}

func C23_Life3() {
	sym.Bound("3 of " + eventText + ", then a step; 1-2-1 and concat networks")
	n := smallNet[int16]([]int{1, 6}[sym.Pick("network", 0, 1)])
	m := compiled(n)
	live(m, n, 3)
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after a history")
}

func C25_Life() {
	sym.Bound("2 of " + eventText + ", then a prediction; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	live(m, n, 2)
	x, v := mat[int16]("input", n.first().shape...)
	r, err := m.Predict(x)
	must(err, "predicting")
	w := clone(n.predict(v))
	holds[int16](r, n.shape, w, "prediction after a history")
	n.sameParams("the parameters after predicting")
	event(m, n, sym.Pick("event", 0, events-1))
	holds[int16](r, n.shape, w, "the result later")
	holds[int16](x, n.first().shape, v, "the input later")
}

func C22_Life() {
	sym.Bound("2 steps with momentum, and between them one thing done that does not train; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step with momentum")
	k := sym.Pick("event", 0, events-1)
	sym.Assume(k != 2 && k != 3 && k != 4 && k != 5)
	event(m, n, k)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "second step with momentum")
}

func C24_Life() {
	sym.Bound("any subset of layers frozen, one of " + eventText + ", then a step, then all unfrozen and a step; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	for _, l := range n.all() {
		if l.hasParams() && sym.Pick("frozen", 0, 1) == 1 {
			l.frozen = true
			l.lay.SetTrainable(false)
		}
	}
	live(m, n, 1)
	trains(m, n, sym.Num[int16]("alpha"), 0, "step with frozen layers after a history")
	n.renew()
	m.SetTrainable(true)
	for _, l := range n.all() {
		l.frozen = false
	}
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after switching training on again")
}

// any layers frozen on either side, any history on either side
func c28Life(n, o *node[int16], k int) {
	m, l := compiled(n), compiled(o)
	for _, x := range append(n.all(), o.all()...) {
		if x.hasParams() && sym.Pick("frozen", 0, 1) == 1 {
			x.frozen = true
			x.lay.SetTrainable(false)
		}
	}
	live(m, n, k)
	live(l, o, k)
	d := newDisk()
	must(save(m, d), "saving")
	r := &disk{data: d.data, limit: -1, err: errDisk, chunk: 1 << 20}
	must(load(l, r), "loading")
	sym.Assert(r.pos == len(d.data), "everything saved is loaded")
	o.adopt(n)
	o.sameParams("the loaded model")
	n.sameParams("the saved model")
	predicts(l, o, "prediction of the loaded model")
}

func C28_Frozen() {
	sym.Bound("any layers of either model frozen; " + savedText)
	w := sym.Pick("network", 0, savedNets-1)
	c28Life(savedNet[int16](w), savedNet[int16](w), 0)
}

func C28_Life() {
	sym.Bound("one of " + eventText + " before saving and before loading, any layers frozen; 1-2-1, convolution and concat networks")
	w := []int{1, 4, 6}[sym.Pick("network", 0, 2)]
	c28Life(savedNet[int16](w), savedNet[int16](w), 1)
}

func C28_Medium() {
	sym.Bound(mediumText)
	w := sym.Pick("network", 0, mediumNets-1)
	n, o := mediumNet[int16](w), mediumNet[int16](w)
	c28Params2(n, o)
}

func C28_MediumFloat32() {
	sym.Bound("every bit pattern of every parameter; " + mediumText)
	w := sym.Pick("network", 0, mediumNets-1)
	c28Params2(mediumNet[float32](w), mediumNet[float32](w))
}

func C30_Life() {
	sym.Bound("one of " + eventText + ", then a refused call, then a step; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	live(m, n, 1)
	bad(m, n, 2, 2, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"))
	trains(m, n, sym.Num[int16]("alpha"), 0, "training after a refused call")
	predicts(m, n, "prediction after a refused call")
}

func C30_Medium() {
	sym.Bound("every wrong shape of 0..3 dimensions with extents 1..3; " + mediumText)
	n := pickMedium[int16]()
	m := compiled(n)
	bad(m, n, 3, 3, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"))
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training after a refused call")
}

func C26_Life() {
	sym.Bound("one of " + eventText + ", then 1..2 epochs; " + smallText)
	n := pickSmall[int16]()
	m := compiled(n)
	live(m, n, 1)
	xs, ys, vs, ts := samples[int16](1, n.first().shape, n.shape)
	alpha, epochs := sym.Num[int16]("alpha"), sym.Pick("epochs", 1, 2)
	must(m.Train(xs, ys, uint(epochs), 0, alpha, 0), "training")
	for i := 0; i < epochs; i++ {
		n.train(vs[0], ts[0], alpha, 0)
	}
	n.sameParams("parameters")
}

func C35_Life() {
	sym.Bound(nestText + "; one of " + eventText + ", then a step and a prediction")
	n := pickTrained[int16]()
	m := compiled(n)
	live(m, n, 1)
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after a history")
	predicts(m, n, "prediction")
}
