package h

import (
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"

	"verifharness/sym"
)

// The properties of single tensors again on larger shapes.

func C01_Large() {
	sym.Bound(largeText + "; every position")
	shape := pickAnyShape("s", 0, 0, large)
	t, v := mat[int16]("v", shape...)
	mul := tools.GetIndexMul(shape)
	for p := range v {
		idx := unflat(shape, p)
		x, err := t.Get(idx...)
		must(err, "Get")
		sym.Assert(x == v[p], "Get returns the element at the row-major position")
		q, err := tools.GetIndex(mul, shape, idx)
		must(err, "GetIndex")
		sym.Assert(int(q) == p, "the position is row-major")
		sym.Assert(sameShape(tools.ReverseIndex(mul, shape, q), idx), "ReverseIndex undoes GetIndex")
		for d := range idx {
			far := cloneU(idx)
			far[d] += shape[d]
			_, err := t.Get(far...)
			sym.Assert(err != nil, "an index out of range is refused by Get")
		}
	}
	for p := range v {
		v[p] = sym.Num[int16]("w")
		must(t.Set(v[p], unflat(shape, p)...), "Set")
	}
	holds[int16](t, shape, v, "after setting every element")
}

// extents that no test can allocate
func C01_Huge() {
	sym.Bound("shapes 1000003x997, 65536x65537, 2147483648x3x5, 70000x1x70000, 3x4294967296 and 9x8x7x6x5x4; any index")
	shape := [][]uint{{1000003, 997}, {65536, 65537}, {1 << 31, 3, 5}, {70000, 1, 70000}, {3, 1 << 32}, {9, 8, 7, 6, 5, 4}}[sym.Pick("shape", 0, 5)]
	idx := nums[uint]("index", len(shape))
	in, want, n := true, uint(0), uint(1)
	for i := range idx {
		in = sym.And(in, idx[i] < shape[i])
		want = want*shape[i] + idx[i]
		n *= shape[i]
	}
	sym.Assert(tools.GetDataSize(shape) == n, "the size is the product of the extents")
	mul := tools.GetIndexMul(shape)
	p, err := tools.GetIndex(mul, shape, idx)
	sym.Assert(iff(err == nil, in), "an index out of range, and no other, is refused")
	if err == nil {
		sym.Assert(p == want, "the position is row-major")
		sym.Assert(p < n, "the position is inside the storage")
	}
}

func C02_Large() {
	sym.Bound(largeText + "; as many values, one less or one more")
	shape := pickAnyShape("s", 0, 0, large)
	n := prod(shape)
	zeros, ones := make([]int16, n), make([]int16, n)
	for i := range ones {
		ones[i] = 1
	}
	holds[int16](tensor.NewZeros[int16](shape...), shape, zeros, "NewZeros")
	holds[int16](tensor.NewOnes[int16](shape...), shape, ones, "NewOnes")
	k := n + sym.Pick("more", -1, 1)
	vals := nums[int16]("v", k)
	t := tensor.NewFromValues(clone(vals), shape...)
	want := make([]int16, n)
	for i := range want {
		if i < k {
			want[i] = vals[i]
		}
	}
	holds[int16](t, shape, want, "NewFromValues")
	c := t.Copy()
	holds(c, shape, want, "Copy")
	data := nums[int16]("data", k)
	err := t.LoadData(data)
	sym.Assert(iff(err == nil, k == n), "LoadData is refused exactly for another number of values")
	if k == n {
		holds[int16](t, shape, data, "LoadData")
		must(c.(*tensor.TensorMat[int16]).LoadFromTensor(t), "LoadFromTensor")
		holds(c, shape, data, "LoadFromTensor")
	} else {
		holds[int16](t, shape, want, "after a refused LoadData")
	}
	x := sym.Num[int16]("x")
	t.Fill(number.NewScalar(x))
	for i := range want {
		want[i] = x
	}
	holds[int16](t, shape, want, "Fill")
}

func C03_Large()      { sym.Bound(largeText + "; non-zero divisors"); c03All[int16](0, 0, large) }
func C03_LargeFloat() { sym.Bound(largeText + "; every float64"); c03All[float64](0, 0, large) }
func C04_Large() {
	sym.Bound(largeText + "; sums and averages of every int16")
	c04[int16](0, 1, 0, 0, large)
}
func C04_LargeDim() {
	sym.Bound(largeText + "; sums and averages of every int16, every dimension")
	c04D[int16](0, 1, 0, 0, large)
}
func C05_LargeFlatten()   { sym.Bound(largeText); c05Flatten(0, large) }
func C05_LargeTranspose() { sym.Bound(largeText); c05Transpose(0, large) }
func C05_LargeSub()       { sym.Bound(largeText + "; every dimension, some ranges"); c05Sub(0, large, 0) }
func C05_LargeConcat() {
	sym.Bound(largeText + "; every dimension, both of one shape")
	c05Concat(0, large)
}
func C05_LargeReshape() { sym.Bound(largeText + " to another of them"); c05Reshape(0, 0, large) }

type dotCase struct {
	a, b   []uint
	da, db int
}

var largeDots = []dotCase{
	{[]uint{17}, []uint{17}, 0, 0}, {[]uint{34}, []uint{34}, 0, 0}, {[]uint{70}, []uint{70}, 0, 0},
	{[]uint{5, 7}, []uint{7, 3}, 1, 0}, {[]uint{9, 4}, []uint{4, 6}, 1, 0}, {[]uint{1, 18}, []uint{18, 2}, 1, 0},
	{[]uint{33, 2}, []uint{33, 2}, 0, 0}, {[]uint{3, 17}, []uint{2, 17}, 1, 1}, {[]uint{19, 2}, []uint{3, 19}, 0, 1},
	{[]uint{12}, []uint{12, 4}, 0, 0}, {[]uint{4, 12}, []uint{12}, 1, 0},
	{[]uint{4, 3, 5}, []uint{2, 5, 3}, 2, 1}, {[]uint{2, 6, 3}, []uint{2, 3, 6}, 1, 2}, {[]uint{5, 2, 2}, []uint{5, 1, 3}, 0, 0},
	{[]uint{2, 3, 2, 3}, []uint{2, 1, 3, 2}, 3, 2}, {[]uint{2, 3, 2, 2}, []uint{3, 2}, 1, 0}, {[]uint{2, 2}, []uint{3, 2, 1, 2}, 0, 3},
	{[]uint{2, 1, 2, 1, 2}, []uint{2, 2}, 4, 0},
}

const largeDotText = "18 pairs of shapes of 1..5 dimensions: vectors of 12..70, matrices up to 33x2 and 9x4, contracted extents up to 34, up to 4 by 4 dimensions"

func C06_Large() {
	sym.Bound(largeDotText + ", int16 (wrapping)")
	c06At(largeDots[sym.Pick("shapes", 0, len(largeDots)-1)])
}

func c06At(d dotCase) {
	a, va := mat[int16]("a", d.a...)
	b, vb := mat[int16]("b", d.b...)
	shape, want := dotRef(d.a, va, d.b, vb, d.da, d.db)
	e, err := a.DotAt(b, uint(d.da), uint(d.db))
	must(err, "the immediate dot product")
	both[int16](e, tensor.DotAt[int16](a, b, uint(d.da), uint(d.db)), shape, want, a, b)
	n := len(d.b) - 1
	if n > 0 {
		n--
	}
	if d.da == len(d.a)-1 && d.db == n {
		e, err = a.Dot(b)
		must(err, "the immediate default dot product")
		both[int16](e, tensor.Dot[int16](a, b), shape, want, a, b)
	}
	holds[int16](a, d.a, va, "first operand afterwards")
	holds[int16](b, d.b, vb, "second operand afterwards")
}

// a product that is not a number makes the sum none
func C06_NaN() {
	sym.Bound("vectors of 1..3 and matrices of 2x2 elements, every float32; some product is not a number")
	n := uint(sym.Pick("n", 1, 4))
	if n < 4 {
		a, va := mat[float32]("a", n)
		b, vb := mat[float32]("b", n)
		k := sym.Pick("which", 0, int(n)-1)
		p := va[k] * vb[k]
		sym.Assume(p != p)
		e, err := a.Dot(b)
		must(err, "Dot")
		isNaN(e, 0, "the immediate dot product")
		l := tensor.Dot[float32](a, b)
		runs(l, "the deferred dot product")
		isNaN(l, 0, "the deferred dot product")
		return
	}
	a, va := mat[float32]("a", 2, 2)
	b, vb := mat[float32]("b", 2, 2)
	i, j, k := sym.Pick("row", 0, 1), sym.Pick("column", 0, 1), sym.Pick("which", 0, 1)
	p := va[2*i+k] * vb[2*k+j]
	sym.Assume(p != p)
	e, err := a.Dot(b)
	must(err, "Dot")
	isNaN(e, 2*i+j, "the immediate dot product")
	l := tensor.Dot[float32](a, b)
	runs(l, "the deferred dot product")
	isNaN(l, 2*i+j, "the deferred dot product")
}

func isNaN(t tensor.Tensor[float32], i int, what string) {
	x := t.GetData()[i]
	sym.Assert(x != x, what+" of what is not a number is none")
}

func C04_NaN() {
	sym.Bound("sums and averages of 1..4 elements, every float32; some element is not a number")
	n := sym.Pick("n", 1, 4)
	a, v := mat[float32]("a", uint(n))
	x := v[sym.Pick("which", 0, n-1)]
	sym.Assume(x != x)
	isNaN(a.Sum(), 0, "the immediate sum")
	isNaN(a.Avg(), 0, "the immediate average")
	s, m := tensor.Sum[float32](a), tensor.Avg[float32](a)
	runs(s, "the sum")
	runs(m, "the average")
	isNaN(s, 0, "the deferred sum")
	isNaN(m, 0, "the deferred average")
}

func C07_Large() {
	sym.Bound("any two different ones of " + largeText + "; element-wise operations, copies and transfers")
	sa, sb := pickAnyShape("sa", 0, 0, large), pickAnyShape("sb", 0, 0, large)
	sym.Assume(!sameShape(sa, sb))
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	for op := 0; op < 4; op++ {
		e, err := eager2(op, a, b)
		sym.Assert(err != nil && e == nil, "the immediate operation on different shapes is refused")
		refused(lazy2[int16](op, a, b), "the operation on different shapes")
	}
	holds[int16](a, sa, va, "first operand afterwards")
	holds[int16](b, sb, vb, "second operand afterwards")
}

// every deferred operation executed again after its operands were overwritten gives what a new one gives
func c08Op(k int, a, b *tensor.TensorMat[int16], s *number.Scalar[int16]) tensor.Tensor[int16] {
	last := uint(len(a.GetShape()) - 1)
	switch k {
	case 0, 1, 2, 3:
		return lazy2[int16](k, a, b)
	case 4, 5, 6, 7:
		return lazyS[int16](k-4, a, s)
	case 8:
		return tensor.Neg[int16](a)
	case 9:
		return tensor.Abs[int16](a)
	case 10:
		return tensor.Activate[int16](a, func(x int16) int16 { return sym.Fun1("f", x) })
	case 11, 12:
		_, l := c04Full(k-11, a)
		return l
	case 13, 14:
		_, _, l := c04Dim(k-13, a, 0)
		return l
	case 15, 16:
		_, _, l := c04Dim(k-15, a, last)
		return l
	case 17:
		return tensor.Reshape[int16](a, a.GetSize()+3)
	case 18:
		return tensor.Flatten[int16](a)
	case 19:
		return tensor.Transpose[int16](a)
	case 20:
		return tensor.SubTensor[int16](a, last, 0, a.GetShape()[last])
	case 21:
		return tensor.SubExtendedTensor[int16](a, last, a.GetShape()[last]-1, a.GetShape()[last]+2)
	case 22:
		return tensor.Concat[int16](a, b, last)
	case 23:
		return tensor.DotAt[int16](a, b, last, last)
	}
	return tensor.Dot(tensor.Tensor[int16](a), tensor.Transpose[int16](b))
}

func c08Again(shape []uint) {
	k := sym.Pick("operation", 0, 24)
	if len(shape) == 1 || len(shape) > 2 {
		sym.Assume(k != 24)
	}
	a, _ := mat[int16]("a", shape...)
	b, vb := mat[int16]("b", shape...)
	x := sym.Num[int16]("x")
	s := number.NewScalar(x)
	if k == 3 || k == 7 {
		sym.Assume(x != 0)
		for i := range vb {
			sym.Assume(vb[i] != 0)
		}
	}
	t := c08Op(k, a, b, s)
	g, err := graph.NewGraph(t)
	must(err, "NewGraph")
	g.Exec()
	for round := 0; round < 2; round++ {
		wa, wb, y := nums[int16]("wa", len(vb)), nums[int16]("wb", len(vb)), sym.Num[int16]("y")
		if k == 3 || k == 7 {
			sym.Assume(y != 0)
			for i := range wb {
				sym.Assume(wb[i] != 0)
			}
		}
		if round == 0 {
			must(a.LoadData(wa), "LoadData")
			must(b.LoadData(wb), "LoadData")
		} else {
			for i := range wa {
				must(a.Set(wa[i], unflat(shape, i)...), "Set")
				must(b.Set(wb[i], unflat(shape, i)...), "Set")
			}
		}
		s.Value = y
		g.Exec()
		n := c08Op(k, tensor.NewFromValues(wa, shape...), tensor.NewFromValues(wb, shape...), number.NewScalar(y))
		runs(n, "the same operation anew")
		holds(t, n.GetShape(), n.GetData(), "execution after the operands were overwritten")
	}
}

func C08_Again() {
	sym.Bound("every deferred operation but minimum, maximum and soft max on 1..3 dimensions of 1..2, executed three times")
	c08Again(pickAnyShape("s", 1, 3, 2))
}
func C08_AgainLarge() {
	sym.Bound("every deferred operation but minimum, maximum and soft max on shapes 17, 5x7, 3x1x6 and 2x3x2x3, executed three times")
	c08Again([][]uint{{17}, {5, 7}, {3, 1, 6}, {2, 3, 2, 3}}[sym.Pick("shape", 0, 3)])
}

func C09_Large() {
	sym.Bound("every immediate operation but minimum and maximum on " + largeText)
	c09(0, large)
}
func C10_Large() { sym.Bound("any two of equal size of " + largeText); c10Copy(0, large) }
