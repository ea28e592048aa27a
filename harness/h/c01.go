package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"

	"verifharness/sym"
)

func c01Access(rank, max int) {
	shape := pickShape("extent", rank, max)
	t, v := mat[int16]("v", shape...)
	idx := nums[uint]("index", rank)
	in := true
	for i := range idx {
		if idx[i] >= shape[i] {
			in = false
		}
	}
	o, err := t.GetOperand(idx...)
	g, gerr := t.Get(idx...)
	if !in {
		sym.Assert(err != nil && gerr != nil, "an index out of range is refused by Get")
		x := sym.Num[int16]("x")
		sym.Assert(t.Set(x, idx...) != nil, "an index out of range is refused by Set")
		holds[int16](t, shape, v, "after a refused Set")
		return
	}
	sym.Assert(err == nil && gerr == nil, "an index in range is accepted")
	// the element read and the cell returned are the row-major one
	p := flat(shape, idx)
	want := int16(0)
	for i := range v {
		if i == p {
			want = v[i]
		}
	}
	sym.Assert(g == want, "Get returns the element at the row-major position")
	sym.Assert(o.Value == want, "GetOperand returns the cell at the row-major position")
	x := sym.Num[int16]("x")
	must(t.Set(x, idx...), "Set")
	d := t.GetData()
	for i := range v {
		if i == p {
			sym.Assert(d[i] == x, "Set stores the value")
		} else {
			sym.Assert(d[i] == v[i], "Set leaves the other elements")
		}
	}
}

func C01_AccessRank1() { sym.Bound("extent 1..4, any index"); c01Access(1, 4) }
func C01_AccessRank2() { sym.Bound("extents 1..4, any index"); c01Access(2, 4) }
func C01_AccessRank3() { sym.Bound("extents 1..3, any index"); c01Access(3, 3) }
func C01_AccessRank4() {
	sym.Bound("extents 1..3, any index")
	c01Access(4, 3)
}

// the position function with any extents: position and index determine each other
func c01Arith(rank int, lim uint) {
	shape := nums[uint]("extent", rank)
	idx := nums[uint]("index", rank)
	for i := range shape {
		sym.Assume(shape[i] >= 1 && shape[i] <= lim)
	}
	mul := tools.GetIndexMul(shape)
	size := tools.GetDataSize(shape)
	sym.Assert(len(mul) == rank, "one multiplier per dimension")
	want, n := uint(0), uint(1)
	ok := true
	for i := range shape {
		want = want*shape[i] + idx[i]
		n *= shape[i]
		if idx[i] >= shape[i] {
			ok = false
		}
	}
	sym.Assert(size == n, "the size is the product of the extents")
	p, err := tools.GetIndex(mul, shape, idx)
	if !ok {
		sym.Assert(err != nil, "an index out of range is refused")
		return
	}
	sym.Assert(err == nil, "an index in range is accepted")
	sym.Assert(p == want, "the position is row-major")
	sym.Assert(p < size, "the position is inside the storage")
}

func C01_Position2() { sym.Bound("2 dimensions, extents 1..64"); c01Arith(2, 64) }
func C01_Position3() { sym.Bound("3 dimensions, extents 1..8"); c01Arith(3, 8) }

func c01Reverse(rank, max int) {
	shape := pickShape("extent", rank, max)
	idx := nums[uint]("index", rank)
	for i := range shape {
		sym.Assume(idx[i] < shape[i])
	}
	mul := tools.GetIndexMul(shape)
	p, err := tools.GetIndex(mul, shape, idx)
	must(err, "GetIndex")
	back := tools.ReverseIndex(mul, shape, p)
	sym.Assert(len(back) == rank, "ReverseIndex gives one index per dimension")
	for i := range idx {
		sym.Assert(back[i] == idx[i], "ReverseIndex undoes GetIndex")
	}
	inv := tools.GetInvertedIndex(idx)
	for i := range idx {
		sym.Assert(inv[i] == idx[rank-1-i], "GetInvertedIndex reverses")
	}
	// two positions agree only for equal indices
	jdx := nums[uint]("other", rank)
	eq := true
	for i := range shape {
		sym.Assume(jdx[i] < shape[i])
		if idx[i] != jdx[i] {
			eq = false
		}
	}
	q, err := tools.GetIndex(mul, shape, jdx)
	must(err, "GetIndex")
	sym.Assert((p == q) == eq, "distinct indices have distinct positions")
}

func C01_Reverse1() { sym.Bound("1 dimension, extent 1..5"); c01Reverse(1, 5) }
func C01_Reverse2() { sym.Bound("2 dimensions, extents 1..4"); c01Reverse(2, 4) }
func C01_Reverse3() { sym.Bound("3 dimensions, extents 1..3"); c01Reverse(3, 3) }
func C01_Reverse4() {
	sym.Bound("4 dimensions, extents 1..3")
	c01Reverse(4, 3)
}

// a wrong number of dimensions
func C01_Arity() {
	sym.Bound("tensors of 1..3 dimensions, extents 1..2, indices of 0..4 dimensions with any values")
	rank := sym.Pick("rank", 1, 3)
	k := sym.Pick("arity", 0, 4)
	sym.Assume(k != rank)
	shape := pickShape("extent", rank, 2)
	t, v := mat[int16]("v", shape...)
	idx := nums[uint]("index", k)
	_, err := t.Get(idx...)
	sym.Assert(err != nil, "Get refuses an index of the wrong number of dimensions")
	_, err = t.GetOperand(idx...)
	sym.Assert(err != nil, "GetOperand refuses an index of the wrong number of dimensions")
	sym.Assert(t.Set(1, idx...) != nil, "Set refuses an index of the wrong number of dimensions")
	holds[int16](t, shape, v, "after a refused Set")
	_, err = tools.GetIndex(tools.GetIndexMul(shape), shape, idx)
	sym.Assert(err != nil, "GetIndex refuses an index of the wrong number of dimensions")
}

// every element type uses the same layout
func c01Types[T float32 | float64 | int | int32 | int64]() {
	t, v := mat[T]("v", 2, 3)
	i, j := uint(sym.Pick("i", 0, 1)), uint(sym.Pick("j", 0, 2))
	x, err := t.Get(i, j)
	must(err, "Get")
	sym.Assert(sym.Same(x, v[i*3+j]), "Get returns the element at the row-major position")
	y := sym.Num[T]("y")
	must(t.Set(y, i, j), "Set")
	v[i*3+j] = y
	holds[T](t, []uint{2, 3}, v, "after Set")
}

func C01_Types() {
	sym.Bound("shape 2x3, every element type")
	switch sym.Pick("type", 0, 4) {
	case 0:
		c01Types[float32]()
	case 1:
		c01Types[float64]()
	case 2:
		c01Types[int]()
	case 3:
		c01Types[int32]()
	case 4:
		c01Types[int64]()
	}
}

// tools.Equals and the shape check built on it
func C01_Equals() {
	sym.Bound("shapes of 0..3 dimensions, any extents")
	a := nums[uint]("a", sym.Pick("la", 0, 3))
	b := nums[uint]("b", sym.Pick("lb", 0, 3))
	r := tools.Equals(a, b)
	e := tools.GetEqShapeErr("x", a, b)
	if len(a) != len(b) {
		sym.Assert(r == -2 && e != nil, "different numbers of dimensions are reported")
		return
	}
	first := -1
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] != b[i] {
			first = i
		}
	}
	sym.Assert(r == first, "the first differing dimension is reported")
	sym.Assert((e == nil) == (first == -1), "an error exactly for different shapes")
}

var _ = tensor.NewZeros[int]
