package h

import (
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func refused[T types.Number](l tensor.Tensor[T], what string) {
	_, err := run(l)
	sym.Assert(err != nil, what+" is refused when the graph is built")
}

func C07_Shapes() {
	sym.Bound("two different shapes of 1..3 dimensions with extents 1..2; add, sub, mul, div")
	op := sym.Pick("operation", 0, 3)
	sa, sb := pickAnyShape("sa", 1, 3, 2), pickAnyShape("sb", 1, 3, 2)
	sym.Assume(!sameShape(sa, sb))
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	e, err := eager2(op, a, b)
	sym.Assert(err != nil && e == nil, "the immediate operation on different shapes is refused")
	refused(lazy2[int16](op, a, b), "the operation on different shapes")
	refused(lazy2(op, deferred[int16](a), deferred[int16](b)), "the operation on deferred tensors of different shapes")
	holds[int16](a, sa, va, "first operand afterwards")
	holds[int16](b, sb, vb, "second operand afterwards")
}

func C07_SubTensor() {
	sym.Bound("1..2 dimensions of 1..3; every dimension and range of 64-bit numbers that is not valid")
	shape := pickAnyShape("s", 1, 2, 3)
	a, v := mat[int16]("a", shape...)
	d, from, to := sym.Num[uint]("dim"), sym.Num[uint]("from"), sym.Num[uint]("to")
	ext := uint(0)
	for i := range shape {
		if d == uint(i) {
			ext = shape[i]
		}
	}
	bad := d >= uint(len(shape)) || to <= from
	sym.Assume(bad || to > ext)
	e, err := a.SubTensor(d, from, to)
	sym.Assert(err != nil && e == nil, "the immediate sub-tensor is refused")
	refused(tensor.SubTensor[int16](a, d, from, to), "the sub-tensor")
	if bad {
		f, err := a.FOSubTensor(d, from, to, 1)
		sym.Assert(err != nil && f == nil, "the immediate extended sub-tensor is refused")
		refused(tensor.SubExtendedTensor[int16](a, d, from, to), "the extended sub-tensor")
	}
	holds[int16](a, shape, v, "operand afterwards")
}

func C07_Dims() {
	sym.Bound("1..3 dimensions of 1..2; every 64-bit dimension number past the last")
	shape := pickAnyShape("s", 1, 3, 2)
	a, v := mat[int16]("a", shape...)
	b, _ := mat[int16]("b", shape...)
	d := sym.Num[uint]("dim")
	sym.Assume(d >= uint(len(shape)))
	for op := 0; op < 4; op++ {
		e, err, l := c04Dim(op, a, d)
		sym.Assert(err != nil && e == nil, "the immediate reduction along a missing dimension is refused")
		refused(l, "the reduction along a missing dimension")
	}
	e, err := a.Concat(b, d)
	sym.Assert(err != nil && e == nil, "the immediate concat along a missing dimension is refused")
	refused(tensor.Concat[int16](a, b, d), "the concat along a missing dimension")
	o := uint(sym.Pick("other", 0, len(shape)-1))
	e, err = a.DotAt(b, d, o)
	sym.Assert(err != nil && e == nil, "the immediate dot along a missing first dimension is refused")
	e, err = a.DotAt(b, o, d)
	sym.Assert(err != nil && e == nil, "the immediate dot along a missing second dimension is refused")
	refused(tensor.DotAt[int16](a, b, d, o), "the dot along a missing first dimension")
	refused(tensor.DotAt[int16](a, b, o, d), "the dot along a missing second dimension")
	holds[int16](a, shape, v, "operand afterwards")
}

func C07_Dot() {
	sym.Bound("1..3 by 1..3 dimensions of 1..2, any dimensions, unequal contracted extents")
	sa, sb := pickAnyShape("sa", 1, 3, 2), pickAnyShape("sb", 1, 3, 2)
	da, db := sym.Pick("da", 0, len(sa)-1), sym.Pick("db", 0, len(sb)-1)
	sym.Assume(sa[da] != sb[db])
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	e, err := a.DotAt(b, uint(da), uint(db))
	sym.Assert(err != nil && e == nil, "the immediate dot of unequal extents is refused")
	refused(tensor.DotAt[int16](a, b, uint(da), uint(db)), "the dot of unequal extents")
	ddb := len(sb) - 1
	if ddb > 0 {
		ddb--
	}
	if da == len(sa)-1 && db == ddb {
		e, err = a.Dot(b)
		sym.Assert(err != nil && e == nil, "the immediate default dot of unequal extents is refused")
		refused(tensor.Dot[int16](a, b), "the default dot of unequal extents")
	}
	holds[int16](a, sa, va, "first operand afterwards")
	holds[int16](b, sb, vb, "second operand afterwards")
}

func C07_Concat() {
	sym.Bound("1..3 by 1..3 dimensions of 1..2, every dimension, shapes that differ elsewhere")
	sa, sb := pickAnyShape("sa", 1, 3, 2), pickAnyShape("sb", 1, 3, 2)
	d := sym.Pick("dimension", 0, len(sa)-1)
	bad := len(sa) != len(sb)
	if !bad {
		for i := range sa {
			if i != d && sa[i] != sb[i] {
				bad = true
			}
		}
	}
	sym.Assume(bad)
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	e, err := a.Concat(b, uint(d))
	sym.Assert(err != nil && e == nil, "the immediate concat of different shapes is refused")
	refused(tensor.Concat[int16](a, b, uint(d)), "the concat of different shapes")
	holds[int16](a, sa, va, "first operand afterwards")
	holds[int16](b, sb, vb, "second operand afterwards")
}

func C07_Transfer() {
	sym.Bound("1..2 by 1..2 dimensions of 1..3, different sizes")
	sa, sb := pickAnyShape("sa", 1, 2, 3), pickAnyShape("sb", 1, 2, 3)
	sym.Assume(prod(sa) != prod(sb))
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	refused(tensor.CopyTo[int16](a, b), "the copy between different sizes")
	sym.Assert(tensor.Transfer[int16](context.NewCTX(), a, b) != nil, "the transfer between different sizes is refused")
	holds[int16](a, sa, va, "source afterwards")
	holds[int16](b, sb, vb, "target afterwards")
}

// an ill-shaped part makes the whole expression refused
func C07_Nested() {
	sym.Bound("an ill-shaped sub-expression in every operand position of every deferred operation; shapes 2x2")
	a, _ := mat[int16]("a", 2, 2)
	mk := func() tensor.Tensor[int16] {
		b, _ := mat[int16]("b", 2, 3)
		switch sym.Pick("bad", 0, 2) {
		case 0:
			return tensor.Add[int16](a, b)
		case 1:
			return tensor.SubTensor[int16](a, 0, 1, 3)
		}
		return tensor.Dot(tensor.Transpose[int16](b), tensor.Transpose[int16](b))
	}
	s := number.NewScalar[int16](3)
	f := func(x int16) int16 { return x }
	var t tensor.Tensor[int16]
	switch sym.Pick("around", 0, 26) {
	case 0:
		t = tensor.Neg(mk())
	case 1:
		t = tensor.Abs(mk())
	case 2:
		t = tensor.Activate(mk(), f)
	case 3:
		t = tensor.AddScalar(mk(), s)
	case 4:
		t = tensor.Sum(mk())
	case 5:
		t = tensor.DMax(mk(), 0)
	case 6:
		t = tensor.Reshape(mk(), 4)
	case 7:
		t = tensor.Flatten(mk())
	case 8:
		t = tensor.Transpose(mk())
	case 9:
		t = tensor.SubTensor(mk(), 0, 0, 1)
	case 10:
		t = tensor.SubExtendedTensor(mk(), 0, 0, 1)
	case 11:
		t = tensor.SoftMax(mk())
	case 12:
		t = tensor.Add(mk(), tensor.Tensor[int16](a))
	case 13:
		t = tensor.Add(tensor.Tensor[int16](a), mk())
	case 14:
		t = tensor.Div(mk(), tensor.Tensor[int16](a))
	case 15:
		t = tensor.Div(tensor.Tensor[int16](a), mk())
	case 16:
		t = tensor.Concat(mk(), tensor.Tensor[int16](a), 0)
	case 17:
		t = tensor.Concat(tensor.Tensor[int16](a), mk(), 0)
	case 18:
		t = tensor.Dot(mk(), tensor.Tensor[int16](a))
	case 19:
		t = tensor.Dot(tensor.Tensor[int16](a), mk())
	case 20:
		t = tensor.DotAt(mk(), tensor.Tensor[int16](a), 0, 0)
	case 21:
		t = tensor.CopyTo(mk(), tensor.Tensor[int16](a))
	case 22:
		t = tensor.CopyTo(tensor.Tensor[int16](a), mk())
	case 23:
		t = tensor.FillWith(mk(), s)
	case 24:
		t = tensor.Neg(tensor.Neg(tensor.Transpose(mk())))
	case 25:
		t = tensor.Mul(mk(), mk())
	case 26:
		t = tensor.Avg(tensor.DSum(mk(), 1))
	}
	refused(t, "an expression with an ill-shaped part")
}

func C07_Shapes3() {
	sym.Bound("two different shapes of 1..3 dimensions with extents 1..3")
	op := sym.Pick("operation", 0, 3)
	sa, sb := pickAnyShape("sa", 1, 3, 3), pickAnyShape("sb", 1, 3, 3)
	sym.Assume(!sameShape(sa, sb))
	a, _ := mat[float32]("a", sa...)
	b, _ := mat[float32]("b", sb...)
	e, err := eager2(op, a, b)
	sym.Assert(err != nil && e == nil, "the immediate operation on different shapes is refused")
	refused(lazy2[float32](op, a, b), "the operation on different shapes")
}
