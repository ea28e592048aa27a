package h

import (
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"

	"verifharness/sym"
)

// c09Apply runs one immediate method (k) on a (and b, of the same shape).
func c09Apply(k int, a, b *tensor.TensorMat[int16], s *number.Scalar[int16]) *tensor.TensorMat[int16] {
	f := func(x int16) int16 { return sym.Fun1("f", x) }
	var e *tensor.TensorMat[int16]
	var err error
	last := uint(len(a.GetShape()) - 1)
	switch k {
	case 0, 1, 2, 3:
		e, err = eager2(k, a, b)
	case 4, 5, 6, 7:
		e = eagerS(k-4, a, s)
	case 8:
		e = a.Neg()
	case 9:
		e = a.Abs()
	case 10:
		e = a.Activate(f)
	case 11:
		e = a.Sum()
	case 12:
		e = a.Avg()
	case 13:
		e = a.Max()
	case 14:
		e = a.Min()
	case 15:
		e, err = a.DSum(last)
	case 16:
		e, err = a.DAvg(last)
	case 17:
		e, err = a.DMax(last)
	case 18:
		e, err = a.DMin(last)
	case 19:
		e = a.Reshape(cloneU(a.GetShape())...)
	case 20:
		e, err = a.Transpose()
	case 21:
		e, err = a.SubTensor(last, 0, a.GetShape()[last])
	case 22:
		e, err = a.FOSubTensor(last, 0, a.GetShape()[last], 4)
	case 23:
		e, err = a.Concat(b, last)
	case 24:
		e, err = a.DotAt(b, last, last)
	case 25:
		e = a.Copy().GetMatrix()
	case 26:
		e = a.Reshape(a.GetSize() + 2)
	case 27:
		e = a.Reshape(1)
	}
	must(err, "the immediate operation")
	return e
}

func c09Fresh(t tensor.Tensor[int16], name string) []int16 {
	v := nums[int16](name, int(t.GetSize()))
	must(t.LoadData(v), "LoadData")
	return v
}

func c09(hi, max int) {
	k := sym.Pick("operation", 0, 27)
	shape := pickAnyShape("s", 1, hi, max)
	sym.Assume(max != large || k < 13 || k > 18 || k == 15 || k == 16)
	a, va := mat[int16]("a", shape...)
	b, vb := a, va
	if sym.Pick("same operand", 0, 1) == 0 {
		b, vb = mat[int16]("b", shape...)
	}
	x := sym.Num[int16]("x")
	if k == 3 || k == 7 {
		sym.Assume(x != 0)
		for _, y := range vb {
			sym.Assume(y != 0)
		}
	}
	s := number.NewScalar(x)
	e := c09Apply(k, a, b, s)
	holds[int16](a, shape, va, "first operand after the operation")
	holds[int16](b, shape, vb, "second operand after the operation")
	sym.Assert(s.Value == x, "the scalar after the operation")
	out, ve := e.GetShape(), e.GetData()
	// overwrite the result
	we := c09Fresh(e, "new result")
	holds[int16](a, shape, va, "first operand after the result was overwritten")
	holds[int16](b, shape, vb, "second operand after the result was overwritten")
	sym.Assert(s.Value == x, "the scalar after the result was overwritten")
	must(e.LoadData(ve), "LoadData")
	_ = we
	// overwrite the operands
	c09Fresh(a, "new a")
	c09Fresh(b, "new b")
	s.Value = 0
	holds[int16](e, out, ve, "the result after the operands were overwritten")
	// change what the results hand out
	sh := e.GetShape()
	for i := range sh {
		sh[i] = 77
	}
	holds[int16](e, out, ve, "the result after its shape was inspected")
	sym.Assert(sameShape(a.GetShape(), shape) && sameShape(b.GetShape(), shape), "operand shapes afterwards")
}

func C09_Immediate() {
	sym.Bound("every immediate operation, 1..2 dimensions of 1..2, operands equal or distinct")
	c09(2, 2)
}
func C09_Immediate3() {
	sym.Bound("every immediate operation, 1..3 dimensions of 1..2")
	c09(3, 2)
}
func C09_ImmediateWide() {
	sym.Bound("every immediate operation, 1..2 dimensions of 1..3")
	c09(2, 3)
}

// deferred operations never write to their operands
func C09_Deferred() {
	sym.Bound("every deferred operation over two 2x3 tensors, built and executed twice")
	a, va := mat[int16]("a", 2, 3)
	b, vb := mat[int16]("b", 2, 3)
	x := sym.Num[int16]("x")
	s := number.NewScalar(x)
	k := sym.Pick("operation", 0, 22)
	if k == 3 || k == 7 {
		sym.Assume(x != 0)
		for _, y := range vb {
			sym.Assume(y != 0)
		}
	}
	if k == 22 {
		sym.Assume(va[0] < 10 && va[0] > 1 && va[1] == 1 && va[2] == 1 && va[3] == 1 && va[4] == 1 && va[5] == 1)
	}
	var t tensor.Tensor[int16]
	switch k {
	case 0, 1, 2, 3:
		t = lazy2[int16](k, a, b)
	case 4, 5, 6, 7:
		t = lazyS[int16](k-4, a, s)
	case 8:
		t = tensor.Neg[int16](a)
	case 9:
		t = tensor.Abs[int16](a)
	case 10:
		t = tensor.Activate[int16](a, func(x int16) int16 { return sym.Fun1("f", x) })
	case 11, 12, 13, 14:
		_, t = c04Full(k-11, a)
	case 15:
		_, _, t = c04Dim(0, a, 0)
	case 16:
		_, _, t = c04Dim(3, a, 0)
	case 17:
		t = tensor.Transpose[int16](a)
	case 18:
		t = tensor.Reshape[int16](a, 4, 2)
	case 19:
		t = tensor.SubExtendedTensor[int16](a, 1, 1, 5)
	case 20:
		t = tensor.Concat[int16](a, b, 1)
	case 21:
		t = tensor.DotAt[int16](a, b, 0, 0)
	case 22:
		t = tensor.SoftMax[int16](a)
	}
	g := runs(t, "the deferred operation")
	g.Exec()
	holds[int16](a, []uint{2, 3}, va, "first operand afterwards")
	holds[int16](b, []uint{2, 3}, vb, "second operand afterwards")
	sym.Assert(s.Value == x, "the scalar afterwards")
	sh := t.GetShape()
	sh[0] = 9
	sym.Assert(sameShape(a.GetShape(), []uint{2, 3}), "operand shape afterwards")
	_, err := a.Get(1, 2)
	must(err, "Get")
}
