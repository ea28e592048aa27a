package h

import (
	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// Networks with normalising layers have no agreed derivative; these jobs compare two models of the
// same network that differ in what was done to them.

type twin[T types.Number] struct {
	m *model.Model[T]
	d []*layer.Dense[T]
}

const normNets = 5
const normText = "5 networks of a dense layer of 2 units, a SoftMax, Norm (0..1) or ENorm (-1..1) layer and in 3 of them a dense layer of 1 unit behind"

func normNet[T types.Number](which int) *twin[T] {
	return normNetOf(which, act1[T](), act2[T]())
}

func normNetOf[T types.Number](which int, a1, a2 activation.Activation[T]) *twin[T] {
	t := &twin[T]{m: model.NewModel[T]()}
	dense := func(l layer.Layer[T]) {
		t.m.Push(l)
		t.d = append(t.d, l.(*layer.Dense[T]))
	}
	dense(layer.NewInDense[T](1, 2, a1))
	switch which {
	case 0, 1:
		t.m.Push(layer.NewSoftMax[T]())
	case 2, 3:
		t.m.Push(layer.NewNorm[T]())
	case 4:
		t.m.Push(layer.NewENorm[T]())
	}
	if which != 0 && which != 2 {
		dense(layer.NewDense[T](1, a2))
	}
	must(t.m.Compile(), "compiling the model")
	return t
}

func (t *twin[T]) tensors() []tensor.Tensor[T] {
	var l []tensor.Tensor[T]
	for _, d := range t.d {
		l = append(l, d.Weights, d.Bias)
	}
	return l
}

func (t *twin[T]) get() [][]T {
	var v [][]T
	for _, p := range t.tensors() {
		v = append(v, clone(p.GetData()))
	}
	return v
}

func (t *twin[T]) set(v [][]T) {
	for i, p := range t.tensors() {
		must(p.LoadData(clone(v[i])), "setting parameters")
	}
}

func (t *twin[T]) arbitrary() [][]T {
	var v [][]T
	for _, p := range t.tensors() {
		v = append(v, nums[T]("parameter", int(p.GetSize())))
	}
	t.set(v)
	return v
}

func (t *twin[T]) outs() uint { return t.m.Output.GetSize() }

func sameAll[T types.Number](a, b [][]T, what string) {
	for i := range a {
		for k := range a[i] {
			sym.Assert(sym.Same(a[i][k], b[i][k]), what)
		}
	}
}

// past: one of several things done to the model before, with fixed numbers.
func (t *twin[T]) past(which int) {
	for i, p := range t.tensors() {
		for k, o := range p.GetOperands() {
			o.Value = T(3*i+2*k+1) - T(2*k*i)
		}
	}
	x := tensor.NewFromValues([]T{2}, 1)
	y := tensor.NewZeros[T](t.outs())
	switch which {
	case 0:
		_, err := t.m.Predict(x)
		must(err, "predicting")
	case 1:
		_, err := t.m.TrainOne(x, y, 1, 0)
		must(err, "training")
	case 2:
		t.d[0].SetTrainable(false)
		_, err := t.m.TrainOne(x, y, 1, 0)
		must(err, "training")
		t.d[0].SetTrainable(true)
	}
}

const pastText = "; before, nothing or a prediction or a training step (also with a frozen layer) with fixed numbers"

func trainsAlike[T types.Number](a, b *twin[T], what string) {
	x := sym.Num[T]("input")
	y := nums[T]("target", int(a.outs()))
	alpha := sym.Num[T]("alpha")
	l, err := a.m.TrainOne(tensor.NewFromValues([]T{x}, 1), tensor.NewFromValues(clone(y), uint(len(y))), alpha, 0)
	must(err, "training")
	k, err := b.m.TrainOne(tensor.NewFromValues([]T{x}, 1), tensor.NewFromValues(clone(y), uint(len(y))), alpha, 0)
	must(err, "training")
	sym.Assert(sym.Same(l, k), what+": loss")
}

func C23_Normalising_Real() {
	sym.Bound(normText + pastText + "; linear units, over the reals, the values to be normalised differ by more than 0.001 and are not below it")
	which := sym.Pick("network", 0, normNets-1)
	lin := activation.Linear[float64]{}
	a, b := normNetOf[float64](which, lin, lin), normNetOf[float64](which, lin, lin)
	a.past(sym.Pick("past", 0, 2))
	v := a.arbitrary()
	b.set(v)
	x := sym.Num[float64]("input")
	p, q := v[0][0]*x+v[1][0], v[0][1]*x+v[1][1]
	sym.Assume(p-q > 0.001 && q > 0.001 || q-p > 0.001 && p > 0.001)
	y := nums[float64]("target", int(a.outs()))
	alpha := sym.Num[float64]("alpha")
	var loss []float64
	for _, t := range []*twin[float64]{a, b} {
		l, err := t.m.TrainOne(tensor.NewFromValues([]float64{x}, 1), tensor.NewFromValues(clone(y), uint(len(y))), alpha, 0)
		must(err, "training")
		loss = append(loss, l)
	}
	sym.Assert(sym.Same(loss[0], loss[1]), "a model with a past and a new one: loss")
	sameAll(a.get(), b.get(), "a model with a past and a new one end with the same parameters")
}

func C24_Normalising() {
	sym.Bound(normText + "; the first or the last dense layer frozen; float32")
	which := sym.Pick("network", 0, normNets-1)
	a, b := normNet[float32](which), normNet[float32](which)
	f := sym.Pick("frozen", 0, len(a.d)-1)
	a.d[f].SetTrainable(false)
	v := a.arbitrary()
	b.set(v)
	trainsAlike(a, b, "a model with a frozen layer and one without")
	x, y := a.get(), b.get()
	for i := range x {
		if i/2 == f {
			sameAll(x[i:i+1], v[i:i+1], "the frozen layer keeps its parameters")
		} else {
			sameAll(x[i:i+1], y[i:i+1], "the other layer is trained as without a frozen one")
		}
	}
}

func C25_Normalising() {
	sym.Bound(normText + pastText + "; float32")
	which := sym.Pick("network", 0, normNets-1)
	a, b := normNet[float32](which), normNet[float32](which)
	a.past(sym.Pick("past", 0, 2))
	v := a.arbitrary()
	b.set(v)
	x, vx := mat[float32]("input", 1)
	r, err := a.m.Predict(x)
	must(err, "predicting")
	s, err := b.m.Predict(x)
	must(err, "predicting")
	holds(r, s.GetShape(), s.GetData(), "prediction of a model with a past")
	sameAll(a.get(), v, "predicting leaves the parameters alone")
	holds[float32](x, []uint{1}, vx, "the input afterwards")
	before := clone(r.GetData())
	_, err = a.m.Predict(tensor.NewFromValues([]float32{7}, 1))
	must(err, "predicting")
	holds(r, s.GetShape(), before, "a prediction after the next one")
	must(r.LoadData(make([]float32, len(before))), "altering a result")
	q, err := a.m.Predict(x)
	must(err, "predicting")
	holds(q, s.GetShape(), s.GetData(), "prediction again")
}

func C28_NormPast() {
	sym.Bound(normText + pastText + "; float32")
	which := sym.Pick("network", 0, normNets-1)
	a, b := normNet[float32](which), normNet[float32](which)
	a.past(sym.Pick("past", 0, 2))
	v := a.arbitrary()
	b.past(1)
	d := newDisk()
	must(save(a.m, d), "saving")
	must(load(b.m, d), "loading")
	for _, p := range v {
		noNaN(p)
	}
	sameAll(b.get(), v, "the loaded parameters")
	x := sym.Num[float32]("input")
	r, err := a.m.Predict(tensor.NewFromValues([]float32{x}, 1))
	must(err, "predicting")
	s, err := b.m.Predict(tensor.NewFromValues([]float32{x}, 1))
	must(err, "predicting")
	holds(s, r.GetShape(), r.GetData(), "prediction of the loaded model")
}

func C22_Normalising_Real() {
	sym.Bound(normText + "; one training step with fixed numbers before, linear units, over the reals")
	which := sym.Pick("network", 0, normNets-1)
	lin := activation.Linear[float64]{}
	a, b := normNetOf[float64](which, lin, lin), normNetOf[float64](which, lin, lin)
	for _, t := range []*twin[float64]{a, b} {
		for _, p := range t.tensors() {
			for k, o := range p.GetOperands() {
				o.Value = float64(1 + k)
			}
		}
	}
	before := a.get()
	x := tensor.NewFromValues([]float64{2}, 1)
	y := tensor.NewZeros[float64](a.outs())
	_, err := a.m.TrainOne(x, y, 0.5, 0)
	must(err, "training")
	moved := a.get()
	for i := range moved {
		for k := range moved[i] {
			moved[i][k] -= before[i][k]
		}
	}
	start := a.get()
	b.set(start)
	m := sym.Num[float64]("momentum")
	alpha := sym.Num[float64]("alpha")
	_, err = a.m.TrainOne(x, y, alpha, m)
	must(err, "training")
	_, err = b.m.TrainOne(x, y, alpha, 0)
	must(err, "training")
	w := b.get()
	for i := range w {
		for k := range w[i] {
			w[i][k] += m * moved[i][k]
		}
	}
	sameAll(a.get(), w, "a step with momentum is the plain step and a share of the last movement")
}
