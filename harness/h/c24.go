package h

import (
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// any subset of the layers frozen, one by one
func c24Layers[T types.Number](n *node[T], renew bool) {
	m := compiled(n)
	for _, l := range n.all() {
		if l.hasParams() && sym.Pick("frozen", 0, 1) == 1 {
			l.frozen = true
			l.lay.SetTrainable(false)
		}
	}
	trains(m, n, sym.Num[T]("alpha"), sym.Num[T]("momentum"), "step with frozen layers")
	if renew {
		n.renew()
	}
	if sym.Pick("then", 0, 1) == 0 {
		trains(m, n, sym.Num[T]("alpha"), T(0), "second step with frozen layers")
		return
	}
	for _, l := range n.all() {
		if l.frozen {
			l.frozen = false
			l.lay.SetTrainable(true)
		}
	}
	trains(m, n, sym.Num[T]("alpha"), T(0), "step after switching training on again")
}

func C24_Layers() {
	sym.Bound("every subset of layers, 2 steps; " + smallText)
	c24Layers(pickSmall[int16](), false)
}
func C24_Layers_Real() {
	sym.Bound("every subset of layers, 2 steps; dense networks")
	c24Layers(smallNet[float64](sym.Pick("network", 0, 1)), false)
}

// a whole model frozen, before or after its first use, and back again
func C24_Model() {
	sym.Bound("switched off before or after compiling or training, then on again; " + smallText)
	n := smallNet[int16](sym.Pick("network", 0, smallNets-1))
	m := modelOf(n)
	when := sym.Pick("when", 0, 2)
	if when == 0 {
		m.SetTrainable(false)
	}
	must(m.Compile(), "compiling")
	n.randomise()
	alpha := sym.Num[int16]("alpha")
	if when == 1 {
		m.SetTrainable(false)
	}
	if when == 2 {
		trains(m, n, alpha, 0, "step before")
		m.SetTrainable(false)
	}
	for _, l := range n.all() {
		l.frozen = true
	}
	trains(m, n, alpha, sym.Num[int16]("momentum"), "step of a frozen model")
	m.SetTrainable(true)
	for _, l := range n.all() {
		l.frozen = false
	}
	trains(m, n, alpha, 0, "step after switching training on again")
}

// a frozen model as a part of another one: the frozen part stays, the other one trains as it does
// when nothing is frozen
func c24Combined() (a, c *node[int16], ma, mb, m *model.Model[int16]) {
	a = inDense[int16](1, 2, act1[int16]()).dense(1, act2[int16]())
	ma = modelOf(a)
	c = input[int16](1).dense(1, act3[int16]())
	mb = modelOf(c)
	m, err := model.FromModels(ma, mb)
	must(err, "combining")
	return
}

func c24Part(first bool) {
	a, c, ma, mb, m := c24Combined()
	a.randomise()
	c.randomise()
	a2, c2, _, _, m2 := c24Combined()
	for i, l := range a2.all() {
		if l.hasParams() {
			l.w, l.b = clone(a.all()[i].w), clone(a.all()[i].b)
			l.storeParams()
		}
	}
	c2.w, c2.b = clone(c.w), clone(c.b)
	c2.storeParams()

	frozen, other, free := a, c, c2
	if first {
		ma.SetTrainable(false)
	} else {
		mb.SetTrainable(false)
		frozen, other, free = c, a, a2
	}
	alpha, mom := sym.Num[int16]("alpha"), sym.Num[int16]("momentum")
	for k := 0; k < 2; k++ {
		x, v := mat[int16]("input", 1)
		y, t := mat[int16]("target", 1)
		_, err := m.TrainOne(x, y, alpha, mom)
		must(err, "training")
		frozen.sameParams("a frozen part")
		if k == 0 {
			_, err = m2.TrainOne(tensor.NewFromValues(v, 1), tensor.NewFromValues(t, 1), alpha, mom)
			must(err, "training")
			for i, l := range other.all() {
				if l.hasParams() {
					w, b := l.params()
					w2, b2 := free.all()[i].params()
					for i, v := range w.GetData() {
						sym.Assert(v == w2.GetData()[i], "weights beside a frozen part")
					}
					for i, v := range b.GetData() {
						sym.Assert(v == b2.GetData()[i], "biases beside a frozen part")
					}
				}
			}
		}
	}
}

func C24_FirstPart() {
	sym.Bound("1-2-1 and 1-1 models combined, the first frozen, 2 steps")
	c24Part(true)
}

func C24_SecondPart() {
	sym.Bound("1-2-1 and 1-1 models combined, the second frozen, 2 steps")
	c24Part(false)
}

// frozen layers pass signals on: a frozen last layer, a trained first one
func C24_Deep() {
	sym.Bound("1-1-1-1 network, every subset of layers frozen, momentum, 2 steps")
	n := inDense[int16](1, 1, act1[int16]()).dense(1, act2[int16]()).dense(1, act3[int16]())
	m := compiled(n)
	for _, l := range n.all() {
		if l.hasParams() && sym.Pick("frozen", 0, 1) == 1 {
			l.frozen = true
			l.lay.SetTrainable(false)
		}
	}
	for i := 0; i < 2; i++ {
		trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "step with frozen layers")
	}
	predicts(m, n, "prediction")
}

func C24_Medium() {
	sym.Bound("every subset of layers, 2 steps, parameters arbitrary before each; " + mediumText)
	c24Layers(pickMedium[int16](), true)
}
