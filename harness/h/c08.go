package h

import (
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"

	"verifharness/sym"
)

type c08Expr struct {
	t    tensor.Tensor[int16]
	eval func(v [][]int16, s int16) []int16
}

// c08Build is an arbitrary expression over 2x2 tensors (leaves), every operation once per level.
func c08Build(depth int, leaves []tensor.Tensor[int16], s *number.Scalar[int16], shared []c08Expr) c08Expr {
	top := 0
	if depth > 0 {
		top = 9
	}
	k := sym.Pick("node", 0, top)
	if k == 0 {
		i := sym.Pick("leaf", 0, len(leaves)+len(shared)-1)
		if i >= len(leaves) {
			return shared[i-len(leaves)]
		}
		return c08Expr{leaves[i], func(v [][]int16, s int16) []int16 { return v[i] }}
	}
	a := c08Build(depth-1, leaves, s, shared)
	if k <= 6 {
		var t tensor.Tensor[int16]
		switch k {
		case 1:
			t = tensor.Neg(a.t)
		case 2:
			t = tensor.Transpose(a.t)
		case 3:
			t = tensor.MulScalar(a.t, s)
		case 4:
			t = tensor.Reshape(tensor.Flatten(a.t), 2, 2)
		case 5:
			t = tensor.Activate(a.t, func(x int16) int16 { return sym.Fun1("f", x) })
		case 6:
			t = tensor.Reshape(tensor.DSum(a.t, 0), 2, 2)
		}
		return c08Expr{t, func(v [][]int16, s int16) []int16 {
			x := a.eval(v, s)
			switch k {
			case 1:
				return []int16{-x[0], -x[1], -x[2], -x[3]}
			case 2:
				return []int16{x[0], x[2], x[1], x[3]}
			case 3:
				return []int16{x[0] * s, x[1] * s, x[2] * s, x[3] * s}
			case 5:
				return []int16{sym.Fun1("f", x[0]), sym.Fun1("f", x[1]), sym.Fun1("f", x[2]), sym.Fun1("f", x[3])}
			case 6:
				return []int16{x[0] + x[1], x[2] + x[3], 0, 0}
			}
			return x
		}}
	}
	b := c08Build(depth-1, leaves, s, append(shared, a))
	var t tensor.Tensor[int16]
	switch k {
	case 7:
		t = tensor.Sub(a.t, b.t)
	case 8:
		t = tensor.Dot(a.t, b.t)
	case 9:
		t = tensor.SubTensor(tensor.Concat(a.t, b.t, 0), 0, 1, 3)
	}
	return c08Expr{t, func(v [][]int16, s int16) []int16 {
		x, y := a.eval(v, s), b.eval(v, s)
		switch k {
		case 7:
			return []int16{x[0] - y[0], x[1] - y[1], x[2] - y[2], x[3] - y[3]}
		case 8:
			return []int16{x[0]*y[0] + x[1]*y[2], x[0]*y[1] + x[1]*y[3], x[2]*y[0] + x[3]*y[2], x[2]*y[1] + x[3]*y[3]}
		}
		return []int16{x[2], x[3], y[0], y[1]}
	}}
}

func c08(depth int) {
	a, va := mat[int16]("a", 2, 2)
	b, vb := mat[int16]("b", 2, 2)
	x := sym.Num[int16]("x")
	s := number.NewScalar(x)
	e := c08Build(depth, []tensor.Tensor[int16]{a, b}, s, nil)
	g, err := graph.NewGraph(e.t)
	must(err, "NewGraph")
	shape := []uint{2, 2}
	holds[int16](a, shape, va, "operand after building")
	g.Exec()
	holds(e.t, shape, e.eval([][]int16{va, vb}, x), "first execution")
	g.Exec()
	holds(e.t, shape, e.eval([][]int16{va, vb}, x), "execution without a change")
	wa := nums[int16]("new a", 4)
	must(a.LoadData(wa), "LoadData")
	y := sym.Num[int16]("y")
	s.Value = y
	wb := clone(vb)
	wb[2] = sym.Num[int16]("new b")
	must(b.Set(wb[2], 1, 0), "Set")
	g.Exec()
	holds(e.t, shape, e.eval([][]int16{wa, wb}, y), "execution after the operands were overwritten")
	holds[int16](a, shape, wa, "first operand afterwards")
	holds[int16](b, shape, wb, "second operand afterwards")
}

func C08_Depth1() { sym.Bound("every expression of depth 1 over two 2x2 tensors"); c08(1) }
func C08_Depth2() {
	sym.Bound("every expression of depth 2 over two 2x2 tensors, with sharing")
	c08(2)
}

// every deferred operation again after its operands changed, larger shapes
func C08_Reductions() {
	sym.Bound("sum, avg, min, max, per dimension and total, abs, soft max excluded; 2x3, executed three times")
	op := sym.Pick("operation", 0, 3)
	a, v := mat[int16]("a", 2, 3)
	_, full := c04Full(op, a)
	_, _, dim := c04Dim(op, a, 0)
	abs := tensor.Abs[int16](a)
	top := tensor.Concat(full, dim, 0)
	all := tensor.Concat(top, tensor.Flatten(abs), 0)
	g, err := graph.NewGraph(all)
	must(err, "NewGraph")
	for round := 0; round < 3; round++ {
		if round > 0 {
			v = nums[int16]("v", 6)
			must(a.LoadData(v), "LoadData")
		}
		g.Exec()
		want := []int16{reduce(op, v), reduce(op, v[:3]), reduce(op, v[3:])}
		for _, x := range v {
			if x < 0 {
				x = -x
			}
			want = append(want, x)
		}
		holds(all, []uint{9}, want, "execution")
	}
}

// graphs put together from graphs, and shared contexts
func C08_Composed() {
	sym.Bound("two expressions over 2x2 tensors sharing a part, in one context, in one graph and in joined graphs")
	a, va := mat[int16]("a", 2, 2)
	b, vb := mat[int16]("b", 2, 2)
	part := tensor.Add[int16](a, b)
	e1 := tensor.Mul[int16](part, a)
	e2 := tensor.Sub[int16](part, e1)
	var g *graph.Graph
	switch sym.Pick("how", 0, 3) {
	case 0:
		ctx := context.NewCTX()
		must(e1.BuildGraph(ctx), "BuildGraph")
		must(e2.BuildGraph(ctx), "BuildGraph")
		var err error
		g, err = graph.NewGraphFrom[int16](ctx)
		must(err, "NewGraphFrom")
	case 1:
		g1, err := graph.NewGraph(e1)
		must(err, "NewGraph")
		g2, err := graph.NewGraph(e2)
		must(err, "NewGraph")
		g = graph.NewEmptyGraph[int16]()
		g.AddFromGraph(g1)
		g.AddFromGraph(g2)
		sym.Assert(len(g1.Operations) > 0 && len(g2.Operations) > 0, "the joined graphs keep their operations")
	case 2:
		g1, err := graph.NewGraph(e1)
		must(err, "NewGraph")
		g2, err := graph.NewGraph(e2)
		must(err, "NewGraph")
		n := len(g1.Operations)
		g = graph.NewFromGraph[int16](g1)
		g.PushOperations(g2.Operations...)
		sym.Assert(len(g1.Operations) == n, "a graph made from a graph leaves it alone")
	case 3:
		var err error
		g, err = graph.NewGraph(e2)
		must(err, "NewGraph")
	}
	for round := 0; round < 2; round++ {
		if round > 0 {
			va = nums[int16]("va", 4)
			must(a.LoadData(va), "LoadData")
		}
		g.Exec()
		w1, w2 := make([]int16, 4), make([]int16, 4)
		for i := range va {
			w1[i] = (va[i] + vb[i]) * va[i]
			w2[i] = va[i] + vb[i] - w1[i]
		}
		holds(e1, []uint{2, 2}, w1, "first expression")
		holds(e2, []uint{2, 2}, w2, "second expression")
	}
}
func C08_Depth3() {
	sym.Bound("every expression of depth 3 of unary operations and sharing over one 2x2 tensor")
	a, va := mat[int16]("a", 2, 2)
	x := sym.Num[int16]("x")
	s := number.NewScalar(x)
	e := c08Build(2, []tensor.Tensor[int16]{a}, s, nil)
	d := c08Expr{tensor.Mul(e.t, tensor.Tensor[int16](a)), nil}
	g, err := graph.NewGraph(d.t)
	must(err, "NewGraph")
	for round := 0; round < 2; round++ {
		if round > 0 {
			va = nums[int16]("va", 4)
			must(a.LoadData(va), "LoadData")
		}
		g.Exec()
		w := clone(e.eval([][]int16{va}, x))
		for i := range w {
			w[i] *= va[i]
		}
		holds(d.t, []uint{2, 2}, w, "execution")
	}
}
