package h

import (
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"

	"verifharness/sym"
)

func c10Copy(hi, max int) {
	sa, sb := pickAnyShape("from", 1, hi, max), pickAnyShape("to", 1, hi, max)
	sym.Assume(prod(sa) == prod(sb))
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	other, vo := mat[int16]("o", 2)
	src := tensor.Tensor[int16](a)
	def := sym.Pick("source is deferred", 0, 1) == 1
	if def {
		src = tensor.Neg[int16](a)
	}
	val := func(v []int16) []int16 {
		if !def {
			return v
		}
		w := make([]int16, len(v))
		for i := range v {
			w[i] = -v[i]
		}
		return w
	}
	var g *graph.Graph
	if sym.Pick("form", 0, 1) == 0 {
		var err error
		t := tensor.CopyTo(src, tensor.Tensor[int16](b))
		g, err = graph.NewGraph(t)
		must(err, "CopyTo")
		sym.Assert(sameShape(t.GetShape(), sb), "the copy has the shape of its target")
	} else {
		ctx := context.NewCTX()
		must(tensor.Transfer(ctx, src, tensor.Tensor[int16](b)), "Transfer")
		var err error
		g, err = graph.NewGraphFrom[int16](ctx)
		must(err, "NewGraphFrom")
	}
	holds[int16](b, sb, vb, "target before the graph is executed")
	g.Exec()
	holds[int16](b, sb, val(va), "target")
	holds[int16](a, sa, va, "source")
	// again: target overwritten, source changed
	c09Fresh(b, "overwritten")
	va = c09Fresh(a, "new source")
	g.Exec()
	holds[int16](b, sb, val(va), "target after a second execution")
	holds[int16](a, sa, va, "source after a second execution")
	// independence
	c09Fresh(b, "target changed")
	holds[int16](a, sa, va, "source after the target was changed")
	must(b.LoadData(val(va)), "LoadData")
	c09Fresh(a, "source changed")
	holds[int16](b, sb, val(va), "target after the source was changed")
	holds[int16](other, []uint{2}, vo, "another tensor")
}

func C10_Copy()     { sym.Bound("1..2 dimensions of 1..3, equal sizes"); c10Copy(2, 3) }
func C10_CopyWide() { sym.Bound("1..3 dimensions of 1..3, equal sizes"); c10Copy(3, 3) }

func C10_Fill() {
	sym.Bound("1..3 dimensions of 1..2, target a tensor or a view of one")
	shape := pickAnyShape("s", 1, 3, 2)
	a, va := mat[int16]("a", shape...)
	x := sym.Num[int16]("x")
	s := number.NewScalar(x)
	var g *graph.Graph
	var err error
	if sym.Pick("form", 0, 1) == 0 {
		t := tensor.FillWith[int16](a, s)
		g, err = graph.NewGraph(t)
		must(err, "FillWith")
		sym.Assert(sameShape(t.GetShape(), shape), "the fill has the shape of its target")
	} else {
		ctx := context.NewCTX()
		must(tensor.Fill[int16](ctx, a, s), "Fill")
		g, err = graph.NewGraphFrom[int16](ctx)
		must(err, "NewGraphFrom")
	}
	holds[int16](a, shape, va, "target before the graph is executed")
	fill := func(x int16) []int16 {
		w := make([]int16, len(va))
		for i := range w {
			w[i] = x
		}
		return w
	}
	g.Exec()
	holds[int16](a, shape, fill(x), "target")
	c09Fresh(a, "overwritten")
	y := sym.Num[int16]("y")
	s.Value = y
	g.Exec()
	holds[int16](a, shape, fill(y), "target after a second execution")
	s.Value = x
	holds[int16](a, shape, fill(y), "target after the scalar was changed")
	sym.Assert(s.Value == x, "the scalar keeps its value")
	va = c09Fresh(a, "other")
	sym.Assert(s.Value == x, "the scalar after the target was changed")
	must(a.Set(1, make([]uint, len(shape))...), "Set")
	va[0] = 1
	holds[int16](a, shape, va, "elements stay independent after a fill")
}

// targets that are views of a tensor: exactly the viewed elements change
func C10_Views() {
	sym.Bound("copy and fill into a column range of a 2x3 tensor")
	a, va := mat[int16]("a", 2, 3)
	from := uint(sym.Pick("from", 0, 2))
	to := uint(sym.Pick("to", int(from)+1, 3))
	view := tensor.SubTensor[int16](a, 1, from, to)
	n := 2 * (to - from)
	b, vb := mat[int16]("b", n)
	ctx := context.NewCTX()
	filled := sym.Pick("fill", 0, 1) == 1
	x := sym.Num[int16]("x")
	if filled {
		must(tensor.Fill(ctx, view, number.NewScalar(x)), "Fill")
	} else {
		must(tensor.Transfer[int16](ctx, b, view), "Transfer")
	}
	g, err := graph.NewGraphFrom[int16](ctx)
	must(err, "NewGraphFrom")
	g.Exec()
	want := clone(va)
	for i := uint(0); i < 2; i++ {
		for j := from; j < to; j++ {
			if filled {
				want[i*3+j] = x
			} else {
				want[i*3+j] = vb[i*(to-from)+j-from]
			}
		}
	}
	holds[int16](a, []uint{2, 3}, want, "target")
	holds[int16](b, []uint{n}, vb, "source")
}
