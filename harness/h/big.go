package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"

	"verifharness/sym"
)

// Properties again on sizes beyond small extents.

var bigShapes = [][]uint{{300}, {2, 1, 260}, {1100}, {257, 2}, {1, 1, 1, 1, 1, 1, 3}}

const bigText = "shapes 300, 2x1x260, 1100, 257x2 and 1x1x1x1x1x1x3"

func pickBig() []uint { return cloneU(bigShapes[sym.Pick("shape", 0, len(bigShapes)-1)]) }

func C27_LargeSave() { sym.Bound(largeText); c27save[int16](0, large, 100) }
func C27_LargeFull() { sym.Bound(largeText); c27full[float32](0, large, 100) }
func C27_BigSave()   { sym.Bound(bigText + ", int16"); c27saveAt[int16](pickBig()) }
func C27_BigFull()   { sym.Bound(bigText + ", float32"); c27fullAt[float32](pickBig()) }

// more dimensions than extents fit a byte: both lengths of the full form
func C27_ManyDims() {
	sym.Bound("8 to 40 dimensions in steps of 8, of 1 but the last, which is 2")
	s := make([]uint, 8*sym.Pick("eight dimensions", 1, 5))
	for i := range s {
		s[i] = 1
	}
	s[len(s)-1] = 2
	c27fullAt[int16](s)
}

func C04_LargeMinMax() {
	sym.Bound(largeText + "; minima and maxima of every int16")
	c04[int16](2, 3, 0, 0, large)
}
func C04_LargeDimMinMax() {
	sym.Bound(largeText + "; minima and maxima of every int16, every dimension")
	c04D[int16](2, 3, 0, 0, large)
}

func C02_Big() {
	sym.Bound(bigText + ", int16")
	shape := pickBig()
	t, v := mat[int16]("v", shape...)
	holds[int16](t, shape, v, "NewFromValues")
	c := t.Copy()
	holds(c, shape, v, "Copy")
	u := tensor.NewZeros[int16](shape...)
	must(u.LoadData(v), "LoadData")
	holds[int16](u, shape, v, "LoadData")
	w := tensor.NewOnes[int16](shape...)
	must(w.LoadFromTensor(t), "LoadFromTensor")
	holds[int16](w, shape, v, "LoadFromTensor")
}

func C03_Big() {
	sym.Bound(bigText + ", sum, difference and product, int16")
	shape := pickBig()
	a, av := mat[int16]("a", shape...)
	b, bv := mat[int16]("b", shape...)
	want := make([]int16, len(av))
	var l tensor.Tensor[int16]
	var e *tensor.TensorMat[int16]
	var err error
	switch sym.Pick("operation", 0, 2) {
	case 0:
		for i := range want {
			want[i] = av[i] + bv[i]
		}
		e, err = a.Add(b)
		l = tensor.Add[int16](a, b)
	case 1:
		for i := range want {
			want[i] = av[i] - bv[i]
		}
		e, err = a.Sub(b)
		l = tensor.Sub[int16](a, b)
	case 2:
		for i := range want {
			want[i] = av[i] * bv[i]
		}
		e, err = a.Mul(b)
		l = tensor.Mul[int16](a, b)
	}
	must(err, "the immediate form")
	holds[int16](e, shape, want, "immediate result")
	runs[int16](l, "the deferred form", a, b)
	holds(l, shape, want, "deferred result")
}

func C04_Big() {
	sym.Bound(bigText + ", sums and averages, int16")
	shape := pickBig()
	op := sym.Pick("operation", 0, 1)
	a, v := mat[int16]("a", shape...)
	e, l := c04Full(op, a)
	want := []int16{reduce(op, v)}
	holds[int16](e, []uint{1}, want, "immediate result")
	runs[int16](l, "the deferred reduction", a)
	holds(l, []uint{1}, want, "deferred result")
}

func C06_Big() {
	sym.Bound("vectors of 130 and 300, a 2x150 with a 150x2 matrix, int16")
	c06At([]dotCase{
		{a: []uint{130}, b: []uint{130}},
		{a: []uint{300}, b: []uint{300}},
		{a: []uint{2, 150}, b: []uint{150, 2}, da: 1},
	}[sym.Pick("operands", 0, 2)])
}

func C16_Big() {
	sym.Bound("a layer of 2 units on 130 and one of 130 units on 2 inputs")
	g := [][2]uint{{130, 2}, {2, 130}}[sym.Pick("sizes", 0, 1)]
	n := input[int16](g[0]).dense(g[1], act1[int16]())
	predicts(compiled(n), n, "prediction")
}

func C18_LargePool() {
	sym.Bound("1..3 channels of up to 8 x 9, windows 2 x 2, 1 x 4 and 4 x 1")
	g := [][5]uint{{1, 8, 6, 2, 2}, {3, 5, 4, 2, 2}, {2, 1, 9, 1, 4}, {1, 5, 5, 4, 1}}[sym.Pick("geometry", 0, 3)]
	c18PoolAt[int16](g[0], g[1], g[2], g[3], g[4])
}

func C29_Four() {
	sym.Bound("4 and 5 parts of 1 unit each")
	ns := []*node[int16]{}
	for i := 3 + sym.Pick("parts", 1, 2); i > 0; i-- {
		ns = append(ns, input[int16](1).dense(1, act1[int16]()))
	}
	c29(ns)
}

func C31_LargeLoad_Real() {
	sym.Bound("7 x 5, 1 x 20 and 20 x 2 pixels of arbitrary 16-bit channels")
	g := [][4]int{{0, 0, 7, 5}, {3, -2, 1, 20}, {-4, 6, 20, 2}}[sym.Pick("geometry", 0, 2)]
	c31LoadAs[float64](pictureAt(g[0], g[1], g[2], g[3]))
}
func C31_LargeTo_Real() {
	sym.Bound("4 channels of 7 x 5, 1 x 20 and 20 x 2, arbitrary values between 0 and 1")
	g := [][2]uint{{7, 5}, {1, 20}, {20, 2}}[sym.Pick("geometry", 0, 2)]
	c31ToAs[float64]([]uint{4, g[0], g[1]})
}

func C33_Large_Real() {
	sym.Bound("17 elements in 1 and 3x2x2 in 3 dimensions, arbitrary bounds, every outcome of the random source")
	shape := [][]uint{{17}, {3, 2, 2}}[sym.Pick("shape", 0, 1)]
	lo, hi := sym.Num[float64]("min"), sym.Num[float64]("max")
	sym.Assume(lo < hi)
	v := sized(tensor.NewRand[float64](lo, hi, shape...), shape)
	for _, x := range v {
		sym.Assert(sym.LE(lo, x) && sym.LE(x, hi), "elements of a random tensor between the bounds")
	}
	independent(v, "elements of a random tensor")
}

func C34_Large_Real() {
	sym.Bound("lists of 12 and 40 arbitrary numbers")
	n := []int{12, 40}[sym.Pick("length", 0, 1)]
	a, b := nums[float64]("a", n), nums[float64]("b", n)
	d, err := tools.Distant(a, b)
	must(err, "the distance")
	sum := float64(0)
	for i := range a {
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	sym.Assert(sym.LE(0, d), "a distance is not negative")
	sym.Assert(sym.Same(d*d, sum), "the square of a distance is the sum of squares")
}

// extents of every size survive: next to an extent of 0 they hold no elements
func C27_AnyExtent() {
	sym.Bound("1..3 dimensions of which one is 0 and the others are any number")
	shape := make([]uint, sym.Pick("dimensions", 1, 3))
	z := sym.Pick("the empty one", 0, len(shape)-1)
	for i := range shape {
		if i != z {
			shape[i] = uint(sym.Num[uint64]("extent"))
		}
	}
	a := tensor.NewZeros[int16](shape...)
	b, bv := mat[int16]("b", 2)
	d := newDisk()
	must(a.SaveFull(d), "saving")
	must(b.SaveFull(d), "saving the next one")
	r := d.reading()
	x, y := target[int16](3), target[int16](1)
	must(x.LoadFull(r), "loading")
	must(y.LoadFull(r), "loading the next one")
	got := x.GetShape()
	sym.Assert(len(got) == len(shape), "dimensions of the loaded tensor")
	for i := range shape {
		sym.Assert(got[i] == shape[i], "an extent of the loaded tensor")
	}
	sym.Assert(x.GetSize() == 0 && len(x.GetData()) == 0, "size of the loaded tensor")
	holds[int16](y, []uint{2}, bv, "the next loaded tensor")
}
