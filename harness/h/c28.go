package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// savedNet is one of the networks whose models are saved: the small ones and some with shared layers.
func savedNet[T types.Number](which int) *node[T] {
	if which < smallNets {
		return smallNet[T](which)
	}
	switch which - smallNets {
	case 0:
		// a shared layer with parameters below two branches
		a := input[T](1).dense(1, act1[T]())
		return join(a.dense(1, act2[T]()), a.dense(2, act3[T]()), 0).dense(1, act1[T]())
	case 1:
		// one branch is the shared layer itself
		a := inDense[T](1, 2, act1[T]())
		return join(a, a.dense(1, act2[T]()), 0)
	case 2:
		// joins of joins
		a := input[T](2)
		b := join(a.dense(1, act1[T]()), a.dense(1, act2[T]()), 0)
		return join(b.dense(1, act3[T]()), b, 0).dense(1, act1[T]())
	case 3:
		a := input[T](1, 1, 2)
		return join(a.conv(1, 1, 2, 1, 1, act1[T]()), a.pool(1, 2), 0).flat().dense(1, act2[T]())
	case 4:
		return inDense[T](2, 3, act1[T]()).dense(2, act2[T]()).dense(1, act3[T]())
	}
	return nil
}

const savedNets = smallNets + 5
const savedText = smallText + ", and 5 with shared layers, nested joins or three layers"

func save[T types.Number](m *model.Model[T], d *disk) error {
	m.ResetSave()
	return m.Save(d)
}

func load[T types.Number](m *model.Model[T], d *disk) error {
	m.ResetLoad()
	return m.Load(d)
}

// adopt: the definition n takes over the parameters of the definition o.
func (n *node[T]) adopt(o *node[T]) {
	a, b := n.all(), o.all()
	for i := range a {
		if a[i].hasParams() {
			a[i].w, a[i].b = clone(b[i].w), clone(b[i].b)
		}
	}
}

func sameBytes(a, b *disk, what string) {
	sym.Assert(len(a.data) == len(b.data), what+": length")
	for i := range a.data {
		sym.Assert(a.data[i] == b.data[i], what+": bytes")
	}
}

func c28[T types.Number](which int, history bool) {
	n, o := savedNet[T](which), savedNet[T](which)
	m, l := compiled(n), compiled(o)
	if history && sym.Pick("trained before saving", 0, 1) == 1 {
		trains(m, n, sym.Num[T]("alpha"), T(0), "training before saving")
	}
	d := newDisk()
	must(save(m, d), "saving")
	n.sameParams("the saved model")
	if history && sym.Pick("used before loading", 0, 1) == 1 {
		predicts(l, o, "prediction before loading")
	}
	again := newDisk()
	must(save(m, again), "saving again")
	sameBytes(again, d, "saving again")
	r := d.reading()
	must(load(l, r), "loading")
	sym.Assert(r.pos == len(d.data), "everything saved is loaded")
	o.adopt(n)
	o.sameParams("the loaded model")
	predicts(l, o, "prediction of the loaded model")
	predicts(m, n, "prediction of the saved model")
	must(load(l, d.reading()), "loading again")
	o.sameParams("the model loaded again")
	copied := newDisk()
	must(save(l, copied), "saving the loaded model")
	sameBytes(copied, d, "saving the loaded model")
}

func C28_Int16() { sym.Bound(savedText); c28[int16](sym.Pick("network", 0, savedNets-1), false) }
func C28_Float64() {
	sym.Bound("1-2-1 and convolution networks; every bit pattern of every parameter")
	c28Params[float64](sym.Pick("network", 0, savedNets-1))
}
func C28_Float32() {
	sym.Bound(savedText + "; every bit pattern of every parameter")
	c28Params[float32](sym.Pick("network", 0, savedNets-1))
}
func C28_Int() { sym.Bound(savedText); c28Params[int](sym.Pick("network", 0, savedNets-1)) }
func C28_History() {
	sym.Bound("trained before saving or used before loading; dense, convolution and concat networks")
	w := []int{1, 4, 6}[sym.Pick("network", 0, 2)]
	c28[int16](w, true)
}

// parameters only
func c28Params[T types.Number](which int) {
	c28Params2(savedNet[T](which), savedNet[T](which))
}

func c28Params2[T types.Number](n, o *node[T]) {
	m, l := compiled(n), compiled(o)
	d := newDisk()
	must(save(m, d), "saving")
	must(load(l, d.reading()), "loading")
	o.adopt(n)
	o.sameParams("the loaded model")
	n.sameParams("the saved model")
}

// failures at any point
func c28Fail[T types.Number](which int) {
	n, o := savedNet[T](which), savedNet[T](which)
	m, l := compiled(n), compiled(o)
	d := newDisk()
	must(save(m, d), "saving")
	if sym.Pick("side", 0, 1) == 0 {
		w := newDisk()
		w.limit = sym.Pick("bytes writable", 0, len(d.data)-1)
		fails(save(m, w), "saving to a failing writer")
		again := newDisk()
		must(save(m, again), "saving after a failure")
		sameBytes(again, d, "saving after a failure")
	} else {
		fails(load(l, d.failing()), "loading from a failing reader")
		must(load(l, d.reading()), "loading after a failure")
		o.adopt(n)
		o.sameParams("the model loaded after a failure")
	}
}

func C28_Failures() {
	sym.Bound("failure after every possible number of bytes; " + savedText)
	c28Fail[int16](sym.Pick("network", 0, savedNets-1))
}
func C28_FailuresFloat32() {
	sym.Bound("failure after every possible number of bytes; a dense and a concat network")
	c28Fail[float32]([]int{1, 6}[sym.Pick("network", 0, 1)])
}

// normalised: a 2-2-normalising-1 network whose middle layer has no definition here.
func normalised[T types.Number](which int) (*model.Model[T], []*node[T]) {
	a := inDense[T](2, 2, act1[T]())
	l := []layer.Layer[T]{layer.NewNorm[T](), layer.NewENorm[T](), layer.NewSoftMax[T]()}[which]
	b := &node[T]{kind: kDense, lay: layer.NewDense[T](1, act2[T]()), shape: []uint{1}}
	m := model.NewModel[T]().Push(a.lay).Push(l).Push(b.lay)
	must(m.Compile(), "compiling")
	a.setParams()
	b.setParams()
	return m, []*node[T]{a, b}
}

func C28_Normalising() {
	sym.Bound("2-2-normalising-1 networks with every normalising layer")
	w := sym.Pick("layer", 0, 2)
	m, n := normalised[float64](w)
	l, o := normalised[float64](w)
	d := newDisk()
	must(save(m, d), "saving")
	must(load(l, d.reading()), "loading")
	for i := range n {
		o[i].adopt(n[i])
		o[i].sameParams("the loaded model")
		n[i].sameParams("the saved model")
	}
}
