package h

import (
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// constructors
func c02Make[T types.Number](rank, max int) {
	shape := pickShape("extent", rank, max)
	n := prod(shape)
	z := tensor.NewZeros[T](shape...)
	o := tensor.NewOnes[T](shape...)
	zeros, ones := make([]T, n), make([]T, n)
	for i := range ones {
		ones[i] = 1
	}
	holds[T](z, shape, zeros, "NewZeros")
	holds[T](o, shape, ones, "NewOnes")
	k := sym.Pick("values", 0, n+2)
	vals := nums[T]("v", k)
	given := clone(vals)
	t := tensor.NewFromValues(given, shape...)
	want := make([]T, n)
	for i := range want {
		if i < k {
			want[i] = vals[i]
		}
	}
	holds[T](t, shape, want, "NewFromValues")
	// the slices used to build it and those handed out are not the storage
	for i := range given {
		given[i] = given[i] + 1
	}
	d := t.GetData()
	for i := range d {
		d[i] = d[i] + 1
	}
	s := t.GetShape()
	m := t.GetMulIndex()
	for i := range s {
		s[i] = 7
		m[i] = 9
	}
	holds[T](t, shape, want, "NewFromValues after the argument and the returned slices were changed")
	arg := cloneU(shape)
	u := tensor.NewFromValues(vals, arg...)
	z2 := tensor.NewZeros[T](arg...)
	o2 := tensor.NewOnes[T](arg...)
	for i := range arg {
		arg[i] = 5
	}
	holds[T](u, shape, want, "NewFromValues after the shape argument was changed")
	holds[T](z2, shape, zeros, "NewZeros after the shape argument was changed")
	holds[T](o2, shape, ones, "NewOnes after the shape argument was changed")
	if n > 0 {
		must(u.Set(3, make([]uint, rank)...), "Set")
		holds[T](t, shape, want, "a tensor made from the same values")
	}
}

func C02_MakeRank1() { sym.Bound("1 dimension of 1..4, 0..n+2 values, int16"); c02Make[int16](1, 4) }
func C02_MakeRank2() {
	sym.Bound("2 dimensions of 1..3, 0..n+2 values, float32")
	c02Make[float32](2, 3)
}
func C02_MakeRank3() {
	sym.Bound("3 dimensions of 1..2, 0..n+2 values, float64")
	c02Make[float64](3, 2)
}
func C02_MakeRank4() {
	sym.Bound("4 dimensions of 1..2, 0..n+2 values, int64")
	c02Make[int64](4, 2)
}

// bulk loads and copies
func c02Load[T types.Number](rank, max int) {
	shape := pickShape("extent", rank, max)
	n := prod(shape)
	t, v := mat[T]("v", shape...)
	// LoadData
	k := sym.Pick("values", 0, n+2)
	data := nums[T]("data", k)
	given := clone(data)
	err := t.LoadData(given)
	sym.Assert(iff(err == nil, k == n), "LoadData is refused exactly for another number of values")
	want := v
	if k == n {
		want = data
	}
	holds[T](t, shape, want, "LoadData")
	for i := range given {
		given[i] = given[i] + 1
	}
	holds[T](t, shape, want, "LoadData after its argument was changed")
	// a copy
	c := t.Copy()
	holds(c, shape, want, "Copy")
	x := sym.Num[T]("x")
	zero := make([]uint, rank)
	must(c.Set(x, zero...), "Set")
	holds[T](t, shape, want, "the tensor after its copy was changed")
	got, err := c.Get(zero...)
	must(err, "Get")
	sym.Assert(sym.Same(got, x), "the copy keeps its own value")
	must(t.Set(x+1, zero...), "Set")
	got, err = c.Get(zero...)
	must(err, "Get")
	sym.Assert(sym.Same(got, x), "the copy does not follow the tensor")
}

func C02_LoadRank1() { sym.Bound("1 dimension of 1..4"); c02Load[int16](1, 4) }
func C02_LoadRank2() { sym.Bound("2 dimensions of 1..3"); c02Load[float32](2, 3) }
func C02_LoadRank3() { sym.Bound("3 dimensions of 1..2"); c02Load[int](3, 2) }

func C02_LoadTensor() {
	sym.Bound("two shapes of 1..3 dimensions with extents 1..2")
	a, va := mat[int16]("a", pickAnyShape("sa", 1, 3, 2)...)
	b, vb := mat[int16]("b", pickAnyShape("sb", 1, 3, 2)...)
	sa, sb := a.GetShape(), b.GetShape()
	err := a.LoadFromTensor(b)
	sym.Assert(iff(err == nil, sameShape(sa, sb)), "LoadFromTensor is refused exactly for another shape")
	if err != nil {
		holds[int16](a, sa, va, "after a refused LoadFromTensor")
		holds[int16](b, sb, vb, "the source of a refused LoadFromTensor")
		return
	}
	holds[int16](a, sa, vb, "after LoadFromTensor")
	holds[int16](b, sb, vb, "the source of LoadFromTensor")
	must(b.Set(5, make([]uint, len(sb))...), "Set")
	holds[int16](a, sa, vb, "after the source of LoadFromTensor was changed")
}

func C02_FillNow() {
	sym.Bound("shapes of 1..3 dimensions with extents 1..3")
	shape := pickAnyShape("s", 1, 3, 3)
	t, _ := mat[int16]("a", shape...)
	x := sym.Num[int16]("x")
	n := number.NewScalar(x)
	t.Fill(n)
	want := make([]int16, prod(shape))
	for i := range want {
		want[i] = x
	}
	holds[int16](t, shape, want, "Fill")
	n.Value = x + 1
	holds[int16](t, shape, want, "Fill after the scalar was changed")
	y := sym.Num[int16]("y")
	t.FillData(y)
	for i := range want {
		want[i] = y
	}
	holds[int16](t, shape, want, "FillData")
	must(t.Set(x, make([]uint, len(shape))...), "Set")
	want[0] = x
	holds[int16](t, shape, want, "Set after FillData")
}

// Bind makes the elements of another tensor of the shape this tensor's own.
func C02_Bind() {
	sym.Bound("1..3 dimensions of 1..2, float32; one write to either tensor at any index afterwards")
	shape := pickAnyShape("s", 1, 3, 2)
	p, _ := mat[float32]("p", shape...)
	t, v := mat[float32]("t", shape...)
	must(p.Bind(t), "Bind")
	holds[float32](p, shape, v, "bound tensor")
	holds[float32](t, shape, v, "the tensor bound to")
	k := sym.Pick("position", 0, prod(shape)-1)
	x := sym.Num[float32]("x")
	at := unflat(shape, k)
	want := clone(v)
	want[k] = x
	if sym.Pick("written", 0, 1) == 0 {
		must(p.Set(x, at...), "Set on the bound tensor")
	} else {
		must(t.Set(x, at...), "Set on the tensor bound to")
	}
	holds[float32](p, shape, want, "bound tensor after a write")
	holds[float32](t, shape, want, "the tensor bound to after a write")
}

func c02Number[T types.Number](name string) {
	x := sym.Num[T](name)
	sym.Assert(number.ScalarZero[T]().Value == 0, "ScalarZero is 0")
	sym.Assert(number.ScalarOne[T]().Value == 1, "ScalarOne is 1")
	sym.Assert(sym.Same(number.NewScalar(x).Value, x), "NewScalar holds its value")
	a, b := number.NewScalar(x), number.NewScalar(x)
	a.Value = 1
	sym.Assert(sym.Same(b.Value, x), "every NewScalar is a number of its own")
	number.ScalarZero[T]().Value = 1
	sym.Assert(number.ScalarZero[T]().Value == 0, "every ScalarZero is a number of its own")
	number.ScalarOne[T]().Value = 0
	sym.Assert(number.ScalarOne[T]().Value == 1, "every ScalarOne is a number of its own")
}

func C02_Numbers() {
	sym.Bound("every int16, int32, int, float32 and float64 value")
	c02Number[int32]("i32")
	c02Number[int16]("i16")
	c02Number[int]("i")
	c02Number[float32]("f32")
	c02Number[float64]("f64")
}
