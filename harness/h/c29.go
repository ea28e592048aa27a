package h

import (
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// part is one of several networks from one kind of tensor to another: [2] to [2] (flat) or
// [1,1,2] to [1,1,2].
func part[T types.Number](which int) *node[T] {
	switch which {
	case 0:
		return input[T](2).dense(2, act1[T]())
	case 1:
		return inDense[T](2, 2, act2[T]())
	case 2:
		return inDense[T](2, 1, act2[T]()).dense(2, act3[T]())
	case 3:
		a := input[T](2)
		return join(a.dense(1, act1[T]()), a.sub(0, 1, 2), 0)
	}
	return nil
}

func imagePart[T types.Number](which int) *node[T] {
	switch which {
	case 0:
		return input[T](1, 1, 2).conv(1, 1, 1, 1, 1, act1[T]())
	case 1:
		return input[T](1, 1, 2).conv(1, 1, 2, 1, 1, act1[T]()).deconv(1, 1, 2, 1, 1, act2[T]())
	case 2:
		return input[T](1, 1, 2).pool(1, 2).up(1, 2)
	case 3:
		return input[T](1, 1, 2).sub(2, 1, 2).deconv(1, 1, 2, 1, 1, act3[T]())
	}
	return nil
}

// combined makes a model of the models of networks.
func combined[T types.Number](ns ...*node[T]) (*model.Model[T], []*model.Model[T]) {
	var ms []*model.Model[T]
	for _, n := range ns {
		ms = append(ms, modelOf(n))
	}
	m, err := model.FromModels(ms...)
	must(err, "combining models")
	for _, n := range ns {
		n.randomise()
	}
	return m, ms
}

func compose[T types.Number](ns []*node[T], v []T) []T {
	for _, n := range ns {
		v = n.predict(v)
	}
	return v
}

// readParams: the definitions take over what the real layers hold.
func (n *node[T]) readParams() {
	for _, l := range n.all() {
		if l.hasParams() {
			w, b := l.params()
			l.w, l.b = w.GetData(), b.GetData()
		}
	}
}

// composes: the combined model predicts the composition.
func composes[T types.Number](m *model.Model[T], ns []*node[T], what string) {
	x, v := mat[T]("input", ns[0].first().shape...)
	got, err := m.Predict(x)
	must(err, what+": predicting")
	holds[T](got, ns[len(ns)-1].shape, compose(ns, v), what)
	holds[T](x, ns[0].first().shape, v, what+": the input afterwards")
}

func c29[T types.Number](ns []*node[T]) {
	m, ms := combined(ns...)
	composes(m, ns, "the combined model")
	order := sym.Pick("part used first", 0, len(ns)-1)
	for i := range ns {
		k := (i + order) % len(ns)
		predicts(ms[k], ns[k], "a part on its own")
		composes(m, ns, "the combined model after using a part")
	}
	for _, n := range ns {
		n.sameParams("after predicting")
	}
}

func C29_Two() {
	sym.Bound("2 parts, each one of 4 dense or concat networks from 2 to 2 units")
	c29([]*node[int16]{part[int16](sym.Pick("part", 0, 3)), part[int16](sym.Pick("part", 0, 3))})
}
func C29_TwoReal_Real() {
	sym.Bound("2 parts, each one of 4 dense or concat networks from 2 to 2 units")
	c29([]*node[float64]{part[float64](sym.Pick("part", 0, 3)), part[float64](sym.Pick("part", 0, 3))})
}
func C29_Images() {
	sym.Bound("2 parts, each one of 4 networks of convolution, transposed convolution, pooling, up-sampling and sub-tensor layers on 1x1x2 cells")
	c29([]*node[int16]{imagePart[int16](sym.Pick("part", 0, 3)), imagePart[int16](sym.Pick("part", 0, 3))})
}
func C29_One() {
	sym.Bound("a single part, 8 networks")
	if sym.Pick("kind", 0, 1) == 0 {
		c29([]*node[int16]{part[int16](sym.Pick("part", 0, 3))})
	} else {
		c29([]*node[int16]{imagePart[int16](sym.Pick("part", 0, 3))})
	}
}
func C29_Three() {
	sym.Bound("3 parts: dense networks from 2 to 2 units")
	c29([]*node[int16]{part[int16](sym.Pick("part", 0, 1)), part[int16](sym.Pick("part", 0, 1)), part[int16](sym.Pick("part", 0, 1))})
}

// training the combined model: the last part steps by definition on what the others give it, and
// afterwards everything still predicts with the parameters the parts hold.
func c29Train[T types.Number](ns []*node[T], steps int) {
	m, ms := combined(ns...)
	last := ns[len(ns)-1]
	for k := 0; k < steps; k++ {
		x, v := mat[T]("input", ns[0].first().shape...)
		y, t := mat[T]("target", last.shape...)
		alpha := sym.Num[T]("alpha")
		mid := compose(ns[:len(ns)-1], v)
		loss, err := m.TrainOne(x, y, alpha, T(0))
		must(err, "training the combined model")
		sym.Assert(sym.Same(loss, last.train(mid, t, alpha, T(0))), "loss of the combined model")
		last.sameParams("the last part after training")
		for _, n := range ns {
			n.readParams()
		}
	}
	composes(m, ns, "the combined model after training")
	for i := range ns {
		predicts(ms[i], ns[i], "a part on its own after training")
	}
}

func C29_Train() {
	sym.Bound("2 parts from 2 to 2 units, one training step")
	c29Train([]*node[int16]{part[int16](sym.Pick("part", 0, 2)), part[int16](sym.Pick("part", 0, 2))}, 1)
}
func C29_TrainImages() {
	sym.Bound("2 parts on 1x1x2 cells, one training step")
	c29Train([]*node[int16]{imagePart[int16](sym.Pick("part", 0, 1)), imagePart[int16](sym.Pick("part", 0, 1))}, 1)
}

// the combined model trains like the one network that its parts make up
func c29Exact[T types.Number](ns []*node[T], steps int) {
	m, ms := combined(ns...)
	for i := 1; i < len(ns); i++ {
		ns[i].first().pre = ns[i-1]
	}
	last := ns[len(ns)-1]
	for k := 0; k < steps; k++ {
		trains(m, last, sym.Num[T]("alpha"), sym.Num[T]("momentum"), "training the combined model")
	}
	predicts(m, last, "the combined model after training")
	if len(ns) > 1 {
		predicts(ms[0], ns[0], "the first part on its own after training")
	}
}
func C29_Exact() {
	sym.Bound("2 parts from 2 to 2 units, one training step")
	c29Exact([]*node[int16]{part[int16](sym.Pick("part", 0, 3)), part[int16](sym.Pick("part", 0, 2))}, 1)
}
func C29_ExactSteps() {
	sym.Bound("2 parts of 1 unit each, two training steps with momentum")
	c29Exact([]*node[int16]{innerNet[int16](sym.Pick("part", 0, 2)), innerNet[int16](sym.Pick("part", 0, 2))}, 2)
}
func C29_ExactThree() {
	sym.Bound("3 parts of 1 unit each, one training step")
	c29Exact([]*node[int16]{innerNet[int16](sym.Pick("part", 0, 2)), innerNet[int16](sym.Pick("part", 0, 1)), innerNet[int16](sym.Pick("part", 0, 1))}, 1)
}
func C29_ExactImages() {
	sym.Bound("2 parts on 1x1x2 cells, one training step")
	c29Exact([]*node[int16]{imagePart[int16](sym.Pick("part", 0, 1)), imagePart[int16](sym.Pick("part", 0, 1))}, 1)
}
func C29_Exact_Real() {
	sym.Bound("2 parts of 1 unit each, one training step")
	c29Exact([]*node[float64]{innerNet[float64](sym.Pick("part", 0, 2)), innerNet[float64](sym.Pick("part", 0, 2))}, 1)
}

// no parts
func C29_None() {
	m, err := model.FromModels[int16]()
	sym.Assert(err != nil && m == nil, "a model of no models is refused")
}

// a part that was used on its own before
func C29_UsedBefore() {
	sym.Bound("2 parts of 1 unit each, either or both used before they are combined")
	ns := []*node[int16]{input[int16](1).dense(1, act1[int16]()), input[int16](1).dense(1, act2[int16]())}
	ms := []*model.Model[int16]{modelOf(ns[0]), modelOf(ns[1])}
	used := sym.Pick("used before", 1, 3)
	for i := range ms {
		if used>>i&1 == 1 {
			must(ms[i].Compile(), "compiling")
			ns[i].randomise()
			predicts(ms[i], ns[i], "a part before")
		}
	}
	m, err := model.FromModels(ms...)
	must(err, "combining models")
	for _, n := range ns {
		n.randomise()
	}
	what := "the combined model of a first part used before"
	if used > 1 {
		what = "the combined model of a second part used before"
	}
	composes(m, ns, what)
}

// a part trained on its own after combining
func C29_TrainPart() {
	sym.Bound("2 parts of 1 unit each; one of them trained on its own, one step")
	ns := []*node[int16]{input[int16](1).dense(1, act1[int16]()), input[int16](1).dense(1, act2[int16]())}
	_, ms := combined(ns...)
	k := sym.Pick("part", 0, 1)
	x, v := mat[int16]("input", 1)
	y, t := mat[int16]("target", 1)
	alpha := sym.Num[int16]("alpha")
	_, err := ms[k].TrainOne(x, y, alpha, 0)
	must(err, "training a part")
	ns[k].train(v, t, alpha, 0)
	what := []string{"the first part trained on its own", "the second part trained on its own"}[k]
	w, b := ns[k].params()
	sym.Assert(b.GetData()[0] == ns[k].b[0], what+": bias")
	sym.Assert(w.GetData()[0] == ns[k].w[0], what+": weight")
	w, b = ns[1-k].params()
	sym.Assert(b.GetData()[0] == ns[1-k].b[0], what+": bias of the other part")
}
