package h

import (
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// The wide element types: a result that went through a narrower type or through a floating
// point number on its way agrees for every int16 and differs only here.

const wide = "every int64 (wrapping)"

func C04_Int64() { sym.Bound("1..2 dimensions of 1..3, " + wide); c04[int64](0, 3, 1, 2, 3) }
func C04_Int32() {
	sym.Bound("1..2 dimensions of 1..2, every int32 (wrapping)")
	c04[int32](0, 3, 1, 2, 2)
}
func C04_Int() { sym.Bound("1..2 dimensions of 1..2, every int (wrapping)"); c04[int](0, 3, 1, 2, 2) }
func C04_DimInt64() {
	sym.Bound("1..2 dimensions of 1..3, every dimension and one past, " + wide)
	c04D[int64](0, 3, 1, 2, 3)
}
func C04_DimInt32() {
	sym.Bound("1..2 dimensions of 1..2, every dimension and one past, every int32 (wrapping)")
	c04D[int32](0, 3, 1, 2, 2)
}
func C04_DimInt() {
	sym.Bound("1..2 dimensions of 1..2, every dimension and one past, every int (wrapping)")
	c04D[int](0, 3, 1, 2, 2)
}

func C06_Int64()        { sym.Bound("2 x 2 dimensions of 1..2, " + wide); c06[int64](2, 2, 2, true) }
func C06_Int64Vectors() { sym.Bound("vectors of 1..3, " + wide); c06[int64](1, 1, 3, false) }
func C06_Int32() {
	sym.Bound("2 x 2 dimensions of 1..2, every int32 (wrapping)")
	c06[int32](2, 2, 2, false)
}
func C06_Int() { sym.Bound("2 x 1 dimensions of 1..2, every int (wrapping)"); c06[int](2, 1, 2, false) }

func c08Types[T types.Number]() {
	a, va := mat[T]("a", 2, 2)
	b, vb := mat[T]("b", 2, 2)
	x := sym.Num[T]("x")
	s := number.NewScalar(x)
	t := tensor.DSum(tensor.Sub(tensor.MulScalar[T](tensor.Transpose[T](a), s), tensor.Concat(
		tensor.SubTensor[T](b, 0, 1, 2), tensor.SubTensor[T](tensor.Neg[T](b), 0, 0, 1), 0)), 0)
	g, err := graph.NewGraph(t)
	must(err, "NewGraph")
	want := func(a, b []T, x T) []T {
		return []T{(a[0]*x - b[2]) + (a[2]*x - b[3]), (a[1]*x - -b[0]) + (a[3]*x - -b[1])}
	}
	g.Exec()
	holds(t, []uint{2}, want(va, vb, x), "first execution")
	va = nums[T]("new a", 4)
	must(a.LoadData(va), "LoadData")
	x = sym.Num[T]("y")
	s.Value = x
	g.Exec()
	holds(t, []uint{2}, want(va, vb, x), "execution after the operands were overwritten")
}
func C08_Int64() { sym.Bound("one expression of 9 operations, " + wide); c08Types[int64]() }
func C08_Int32() {
	sym.Bound("one expression of 9 operations, every int32 (wrapping)")
	c08Types[int32]()
}
func C08_Int()          { sym.Bound("one expression of 9 operations, every int (wrapping)"); c08Types[int]() }
func C08_Float_Real()   { sym.Bound("one expression of 9 operations, reals"); c08Types[float64]() }
func C08_Float32_Real() { sym.Bound("one expression of 9 operations, reals"); c08Types[float32]() }

func c10Types[T types.Number]() {
	a, va := mat[T]("a", 2, 2)
	b, vb := mat[T]("b", 4)
	x := sym.Num[T]("x")
	s := number.NewScalar(x)
	ctx := context.NewCTX()
	c := tensor.NewZeros[T](3)
	must(tensor.Transfer(ctx, tensor.Tensor[T](a), tensor.Tensor[T](b)), "Transfer")
	must(tensor.Fill[T](ctx, c, s), "Fill")
	g, err := graph.NewGraphFrom[T](ctx)
	must(err, "NewGraphFrom")
	holds[T](b, []uint{4}, vb, "target before")
	g.Exec()
	holds[T](b, []uint{4}, va, "target")
	holds[T](c, []uint{3}, []T{x, x, x}, "filled")
	va = nums[T]("new a", 4)
	must(a.LoadData(va), "LoadData")
	x = sym.Num[T]("y")
	s.Value = x
	g.Exec()
	holds[T](b, []uint{4}, va, "target the second time")
	holds[T](c, []uint{3}, []T{x, x, x}, "filled the second time")
	d := tensor.NewZeros[T](2)
	d.Fill(s)
	holds[T](d, []uint{2}, []T{x, x}, "filled at once")
	d.FillData(va[1])
	holds[T](d, []uint{2}, []T{va[1], va[1]}, "filled with a number")
}
func C10_Int64() { sym.Bound("transfer of 4 and fills of 3 and 2, " + wide); c10Types[int64]() }
func C10_Int32() { sym.Bound("transfer of 4 and fills of 3 and 2, every int32"); c10Types[int32]() }
func C10_Int()   { sym.Bound("transfer of 4 and fills of 3 and 2, every int"); c10Types[int]() }
func C10_Float64() {
	sym.Bound("transfer of 4 and fills of 3 and 2, every float64")
	c10Types[float64]()
}
func C10_Float32() {
	sym.Bound("transfer of 4 and fills of 3 and 2, every float32")
	c10Types[float32]()
}

func C16_Int64() { sym.Bound(c16Bound + "2 layers of 1..2 units, " + wide); c16[int64](2, 2, 2) }
func C16_Int32() {
	sym.Bound(c16Bound + "1 layer of 1..2 units, every int32 (wrapping)")
	c16[int32](2, 2, 1)
}
func C16_Int() {
	sym.Bound(c16Bound + "1 layer of 1..2 units, every int (wrapping)")
	c16[int](2, 2, 1)
}

func C17_ConvInt64() {
	sym.Bound("1 channel, 1 filter, extents 1..3, kernels and strides 1..2, " + wide)
	c17Conv[int64](1, 1, 3, 2, 2)
}
func C17_DeconvInt64() {
	sym.Bound("1 channel, 1 filter, extents 1..2, kernels and strides 1..2, " + wide)
	c17Deconv[int64](1, 1, 2, 2, 2)
}

func C18_UpInt64() {
	sym.Bound("1 channel, extents and factors 1..2, every int64")
	c18Up[int64](1, 2, 2)
}
func C18_PoolInt64() {
	sym.Bound("1 channel, extents and factors 1..2, every int64")
	c18Pool[int64](1, 2, 2)
}

func c19Types[T types.Number]() {
	a := input[T](2, 2, 2)
	n := join(a.sub(0, 0, 1).flat(), a.sub(2, 1, 2).flat(), 0)
	predicts(compiled(n), n, "prediction")
}
func C19_Int64() {
	sym.Bound("2 sub-tensor, 2 flatten and 1 concat layer, every int64")
	c19Types[int64]()
}
func C19_Int32() {
	sym.Bound("2 sub-tensor, 2 flatten and 1 concat layer, every int32")
	c19Types[int32]()
}
func C19_Float64() {
	sym.Bound("2 sub-tensor, 2 flatten and 1 concat layer, every float64")
	c19Types[float64]()
}
func C19_Float32() {
	sym.Bound("2 sub-tensor, 2 flatten and 1 concat layer, every float32")
	c19Types[float32]()
}

func C20_Int64() { sym.Bound("2 layers of 1..2 units on 1..2 inputs, " + wide); c20[int64](2, 2, 2) }
func C20_Int32() {
	sym.Bound("1 layer of 1..2 units on 1..2 inputs, every int32 (wrapping)")
	c20[int32](2, 2, 1)
}
func C20_Int() {
	sym.Bound("1 layer of 1..2 units on 1..2 inputs, every int (wrapping)")
	c20[int](2, 2, 1)
}

func C21_ConvInt64() {
	sym.Bound("1 channel, 1 filter, extents 1..2, kernels and strides 1..2, " + wide)
	c21Conv[int64](1, 1, 2, 2, 2)
}
func C21_DeconvInt64() {
	sym.Bound("1 channel, 1 filter, extents 1..2, kernels and strides 1..2, " + wide)
	c21Deconv[int64](1, 1, 2, 2, 2)
}
func C21_ThroughInt64() {
	sym.Bound("8 structural layers between two layers with parameters, " + wide)
	c21Through[int64](sym.Pick("between", 0, 7))
}

func C22_Int64() { sym.Bound("2 steps, " + wide + "; " + smallText); c22(pickSmall[int64](), 2, false) }
func C23_Int64() { sym.Bound("1 earlier step, " + wide + "; " + smallText); c23(pickSmall[int64](), 1) }
func C24_Int64() {
	sym.Bound("each layer, " + wide + "; " + smallText)
	c24Layers(pickSmall[int64](), false)
}
func C25_Int64() { sym.Bound(wide + "; " + smallText); c25(pickSmall[int64]()) }
func C26_Int64() {
	sym.Bound("1..2 samples, 1..2 epochs, batch 0..2, " + wide)
	c26[int64](1, 2, 2, 2, 4)
}
func C29_Int64() {
	sym.Bound("two parts of 2 kinds each, " + wide)
	c29([]*node[int64]{part[int64](sym.Pick("first", 0, 1)), part[int64](sym.Pick("second", 0, 1))})
}
func C29_ExactInt64() {
	sym.Bound("two dense parts, one step, " + wide)
	c29Exact([]*node[int64]{part[int64](0), part[int64](0)}, 1)
}
func C30_Int64()        { sym.Bound("small networks, " + wide); c30[int64](sym.Pick("network", 0, 2), 2, 2) }
func C35_PredictInt64() { sym.Bound(nestText + ", " + wide); c35Predict[int64]() }
