package h

import (
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// innerNet is one of several networks from one unit to one.
func innerNet[T types.Number](which int) *node[T] {
	switch which {
	case 0:
		return input[T](1).dense(1, act2[T]())
	case 1:
		return inDense[T](1, 1, act2[T]())
	case 2:
		return inDense[T](1, 2, act2[T]()).dense(1, act3[T]())
	case 3:
		a := input[T](1)
		return join(a.dense(1, act2[T]()), a.dense(1, act3[T]()), 0).sub(0, 0, 2).dense(1, act1[T]())
	case 4:
		return input[T](1).dense(2, act2[T]()).sub(0, 1, 2)
	}
	return nil
}

const innerNets = 5

// nestedNet is a network with a model used as a layer.
func nestedNet[T types.Number](which, inner int) *node[T] {
	i := innerNet[T](inner)
	switch which {
	case 0: // in front
		return nested(i, modelOf(i)).dense(1, act1[T]())
	case 1: // in between
		return inDense[T](1, 1, act1[T]()).nest(i).dense(1, act3[T]())
	case 2: // at the end
		return input[T](1).dense(1, act1[T]()).nest(i)
	case 3: // on its own
		return nested(i, modelOf(i))
	case 4: // directly behind the input
		return input[T](1).nest(i).dense(1, act1[T]())
	case 5: // a model in a model
		return input[T](1).dense(1, act1[T]()).nest(input[T](1).dense(1, act3[T]()).nest(i))
	case 6: // two in a row
		return inDense[T](1, 1, act1[T]()).nest(i).nest(innerNet[T](0))
	case 7: // as a branch
		a := input[T](1)
		return join(a.dense(1, act1[T]()).nest(i), a.dense(1, act3[T]()), 0).dense(1, act2[T]())
	}
	return nil
}

const nestings = 8
const nestText = "8 ways to use one of 5 models (dense, joined and sub-tensor layers, 1..2 units) as a layer: in front, in between, last, alone, behind the input, in another model, in a row, in a branch"

func pickNested[T types.Number]() *node[T] {
	return nestedNet[T](sym.Pick("place", 0, nestings-1), sym.Pick("model", 0, innerNets-1))
}

// pickTrained: no layer with parameters feeds two others.
func pickTrained[T types.Number]() *node[T] {
	w, i := sym.Pick("place", 0, nestings-1), sym.Pick("model", 0, innerNets-1)
	sym.Assume(i != 3 || w == 0 || w == 3 || w == 4)
	return nestedNet[T](w, i)
}

func c35Predict[T types.Number]() {
	n := pickNested[T]()
	m := compiled(n)
	predicts(m, n, "prediction")
	predicts(m, n, "second prediction")
	n.sameParams("after predicting")
}

func C35_Predict() { sym.Bound(nestText); c35Predict[int16]() }

func C35_Predict_Real() { sym.Bound(nestText); c35Predict[float64]() }

func C35_Train() {
	sym.Bound(nestText + "; 2 steps with momentum")
	n := pickTrained[int16]()
	m := compiled(n)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step")
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "second step")
}

func C35_Train_Real() {
	sym.Bound(nestText + "; 1 step")
	n := pickTrained[float64]()
	m := compiled(n)
	trains(m, n, sym.Num[float64]("alpha"), 0, "step")
}

// freezing the model that is used as a layer freezes its layers and nothing else
func C35_Freeze() {
	sym.Bound(nestText + "; frozen, 1 step, unfrozen, 1 step")
	n := pickTrained[int16]()
	m := compiled(n)
	var sub *node[int16]
	for _, l := range n.all() {
		if l.kind == kModel {
			sub = l
			break
		}
	}
	set := func(f bool) {
		sub.lay.SetTrainable(!f)
		for l := sub.pre; ; l = l.pre {
			l.frozen = f
			if l.pre2 != nil {
				l.pre2.frozen = f
			}
			if l == sub.own {
				break
			}
		}
	}
	set(true)
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step with a frozen model inside")
	set(false)
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after switching training on again")
}

// freezing the outer model freezes everything
func C35_FreezeAll() {
	sym.Bound(nestText + "; everything frozen, 1 step, unfrozen, 1 step")
	n := pickTrained[int16]()
	m := compiled(n)
	m.SetTrainable(false)
	for _, l := range n.all() {
		l.frozen = true
	}
	trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step of a frozen model")
	m.SetTrainable(true)
	for _, l := range n.all() {
		l.frozen = false
	}
	trains(m, n, sym.Num[int16]("alpha"), 0, "step after switching training on again")
}

func C35_Save() {
	sym.Bound(nestText)
	w, i := sym.Pick("place", 0, nestings-1), sym.Pick("model", 0, innerNets-1)
	n, o := nestedNet[int16](w, i), nestedNet[int16](w, i)
	m, l := compiled(n), compiled(o)
	d := newDisk()
	must(save(m, d), "saving")
	params := 0
	for _, x := range n.all() {
		params += len(x.w) + len(x.b)
	}
	sym.Assert(len(d.data) == 2*params, "every parameter is saved once")
	must(load(l, d.reading()), "loading")
	o.adopt(n)
	o.sameParams("the loaded model")
	predicts(l, o, "prediction of the loaded model")
	again := newDisk()
	must(save(m, again), "saving again")
	sameBytes(again, d, "saving again")
}

// pushed one after the other
func C35_Pushed() {
	sym.Bound("a model of one layer pushed behind, in front of or between pushed dense layers; compiled or not before the first use")
	a, i, b := inDense[int16](1, 2, act1[int16]()), innerOfTwo(sym.Pick("model", 0, 1)), (*node[int16])(nil)
	sub := model.NewModel[int16]()
	if i.pre.lay != nil {
		sub.Push(i.pre.lay)
	}
	sub.Push(i.lay)
	m := model.NewModel[int16]().Push(a.lay).Push(sub)
	i.first().pre = a
	n := &node[int16]{kind: kModel, lay: sub, pre: i, own: i.first(), shape: i.shape}
	n.own = a
	b = n
	if sym.Pick("layer behind", 0, 1) == 1 {
		b = n.dense(1, act3[int16]())
		m.Push(b.lay)
	}
	must(m.Compile(), "compiling")
	b.randomise()
	predicts(m, b, "prediction")
	trains(m, b, sym.Num[int16]("alpha"), 0, "step")
	predicts(m, b, "prediction after a step")
}

func innerOfTwo(which int) *node[int16] {
	if which == 0 {
		return input[int16](2).dense(1, act2[int16]())
	}
	return inDense[int16](2, 1, act2[int16]())
}
