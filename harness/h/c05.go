package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// deferred makes t the result of a deferred expression with the same contents.
func deferred[T types.Number](t tensor.Tensor[T]) tensor.Tensor[T] {
	return tensor.Neg(tensor.Neg(t))
}

func both[T types.Number](e *tensor.TensorMat[T], l tensor.Tensor[T], shape []uint, want []T, operands ...tensor.Tensor[T]) {
	if e != nil {
		holds[T](e, shape, want, "immediate result")
	}
	runs(l, "the deferred operation", operands...)
	holds(l, shape, want, "deferred result")
}

// a tensor or a deferred expression with its contents
func c05Arg(a *tensor.TensorMat[int16]) tensor.Tensor[int16] {
	if sym.Pick("argument is deferred", 0, 1) == 1 {
		return deferred[int16](a)
	}
	return a
}

func c05Reshape(lo, hi, max int) {
	shape := pickAnyShape("s", lo, hi, max)
	a, v := mat[int16]("a", shape...)
	arg := c05Arg(a)
	to := pickAnyShape("to", 1, 3, max)
	want := make([]int16, prod(to))
	for i := range want {
		if i < len(v) {
			want[i] = v[i]
		}
	}
	both[int16](a.Reshape(to...), tensor.Reshape(arg, to...), to, want, a)
	given := cloneU(to)
	e, l := a.Reshape(given...), tensor.Reshape(arg, given...)
	given[0] = 9
	both[int16](e, l, to, want, a)
	holds[int16](a, shape, v, "operand afterwards")
}

func C05_Reshape() {
	sym.Bound("1..3 dimensions of 1..2 to 1..3 dimensions of 1..2")
	c05Reshape(1, 3, 2)
}
func C05_ReshapeWide() {
	sym.Bound("1..2 dimensions of 1..3 to 1..3 dimensions of 1..3")
	c05Reshape(1, 2, 3)
}

func c05Flatten(hi, max int) {
	shape := pickAnyShape("s", 1, hi, max)
	a, v := mat[int16]("a", shape...)
	both[int16](nil, tensor.Flatten(c05Arg(a)), []uint{uint(len(v))}, v, a)
	holds[int16](a, shape, v, "operand afterwards")
}

func C05_Flatten() { sym.Bound("1..4 dimensions of 1..3"); c05Flatten(4, 3) }

func c05Transpose(hi, max int) {
	shape := pickAnyShape("s", 1, hi, max)
	a, v := mat[int16]("a", shape...)
	n := len(shape)
	to := make([]uint, n)
	for i := range to {
		to[i] = shape[n-1-i]
	}
	want := make([]int16, len(v))
	for p := range v {
		idx := unflat(shape, p)
		rev := make([]uint, n)
		for i := range rev {
			rev[i] = idx[n-1-i]
		}
		want[flat(to, rev)] = v[p]
	}
	e, err := a.Transpose()
	must(err, "Transpose")
	both[int16](e, tensor.Transpose(c05Arg(a)), to, want, a)
	holds[int16](a, shape, v, "operand afterwards")
}

func C05_Transpose()  { sym.Bound("1..3 dimensions of 1..3"); c05Transpose(3, 3) }
func C05_Transpose4() { sym.Bound("1..4 dimensions of 1..3"); c05Transpose(4, 3) }
func C05_SubTensor()  { sym.Bound("1..3 dimensions of 1..3, every valid range"); c05Sub(3, 3, 0) }
func C05_SubTensorExt() {
	sym.Bound("1..3 dimensions of 1..2, ranges up to 2 past the end")
	c05Sub(3, 2, 2)
}
func C05_SubTensorExt2() {
	sym.Bound("1..3 dimensions of 1..3, ranges up to 4 past the end")
	c05Sub(3, 3, 4)
}

func c05Sub(hi, max, past int) {
	shape := pickAnyShape("s", 1, hi, max)
	a, v := mat[int16]("a", shape...)
	d := sym.Pick("dimension", 0, len(shape)-1)
	var from, to int
	if max == large {
		ext := int(shape[d])
		switch sym.Pick("range", 0, 4) {
		case 0:
			from, to = 0, ext
		case 1:
			from, to = ext-1, ext
		case 2:
			from, to = ext/2, ext
		case 3:
			from, to = 0, (ext+1)/2
		case 4:
			from, to = ext/3, ext+9
		}
	} else {
		from = sym.Pick("from", 0, int(shape[d])-1+past)
		to = sym.Pick("to", from+1, int(shape[d])+past)
	}
	fill := sym.Num[int16]("fill")
	out := cloneU(shape)
	out[d] = uint(to - from)
	zeroed, filled := make([]int16, prod(out)), make([]int16, prod(out))
	for p := range zeroed {
		idx := unflat(out, p)
		idx[d] += uint(from)
		filled[p] = fill
		if idx[d] < shape[d] {
			zeroed[p] = v[flat(shape, idx)]
			filled[p] = zeroed[p]
		}
	}
	ud, uf, ut := uint(d), uint(from), uint(to)
	f, err := a.FOSubTensor(ud, uf, ut, fill)
	must(err, "FOSubTensor")
	holds[int16](f, out, filled, "FOSubTensor")
	both[int16](nil, tensor.SubExtendedTensor(c05Arg(a), ud, uf, ut), out, zeroed, a)
	if to <= int(shape[d]) {
		e, err := a.SubTensor(ud, uf, ut)
		must(err, "SubTensor")
		both[int16](e, tensor.SubTensor(c05Arg(a), ud, uf, ut), out, zeroed, a)
	}
	holds[int16](a, shape, v, "operand afterwards")
}

func c05Concat(hi, max int) {
	shape := pickAnyShape("s", 1, hi, max)
	d := sym.Pick("dimension", 0, len(shape)-1)
	sb := cloneU(shape)
	if max != large {
		sb[d] = uint(sym.Pick("other extent", 1, max))
	} else {
		sb[d] += uint(sym.Pick("more", 0, 2))
	}
	a, va := mat[int16]("a", shape...)
	b, vb := mat[int16]("b", sb...)
	out := cloneU(shape)
	out[d] += sb[d]
	want := make([]int16, prod(out))
	for p := range want {
		idx := unflat(out, p)
		if idx[d] < shape[d] {
			want[p] = va[flat(shape, idx)]
		} else {
			idx[d] -= shape[d]
			want[p] = vb[flat(sb, idx)]
		}
	}
	e, err := a.Concat(b, uint(d))
	must(err, "Concat")
	both[int16](e, tensor.Concat(c05Arg(a), c05Arg(b), uint(d)), out, want, a, b)
	holds[int16](a, shape, va, "first operand afterwards")
	holds[int16](b, sb, vb, "second operand afterwards")
}

func C05_Concat()     { sym.Bound("1..3 dimensions of 1..2"); c05Concat(3, 2) }
func C05_ConcatWide() { sym.Bound("1..3 dimensions of 1..3"); c05Concat(3, 3) }

// other element types move the same way
func c05Types[T types.Number]() {
	a, v := mat[T]("a", 2, 3)
	b, w := mat[T]("b", 1, 3)
	e, err := a.Transpose()
	must(err, "Transpose")
	both(e, tensor.Transpose[T](a), []uint{3, 2}, []T{v[0], v[3], v[1], v[4], v[2], v[5]})
	s, err := a.SubTensor(1, 1, 3)
	must(err, "SubTensor")
	both(s, tensor.SubTensor[T](a, 1, 1, 3), []uint{2, 2}, []T{v[1], v[2], v[4], v[5]})
	c, err := a.Concat(b, 0)
	must(err, "Concat")
	both(c, tensor.Concat[T](a, b, 0), []uint{3, 3}, append(clone(v), w...))
	both(a.Reshape(4, 2), tensor.Reshape[T](a, 4, 2), []uint{4, 2}, append(clone(v), 0, 0))
	both(nil, tensor.Flatten[T](a), []uint{6}, v)
}

func C05_Types() {
	sym.Bound("shapes 2x3 and 1x3, every element type")
	switch sym.Pick("type", 0, 4) {
	case 0:
		c05Types[float32]()
	case 1:
		c05Types[float64]()
	case 2:
		c05Types[int]()
	case 3:
		c05Types[int32]()
	case 4:
		c05Types[int64]()
	}
}

// chains of rearrangements, as one deferred expression
func C05_Chain() {
	sym.Bound("2 dimensions of 1..3, transpose, sub-tensor, concat, reshape and flatten nested")
	shape := pickShape("s", 2, 3)
	a, v := mat[int16]("a", shape...)
	r, c := int(shape[0]), int(shape[1])
	t := tensor.Transpose[int16](a)                          // c x r
	j := tensor.Concat[int16](t, t, 1)                       // c x 2r
	s := tensor.SubTensor[int16](j, 1, uint(r-1), uint(r+1)) // last and first column of t
	f := tensor.Flatten(s)
	want := make([]int16, 0)
	for i := 0; i < c; i++ {
		want = append(want, v[(r-1)*c+i], v[i])
	}
	both(nil, f, []uint{uint(2 * c)}, want)
	both(nil, tensor.Reshape(f, 2, uint(c)), []uint{2, uint(c)}, want)
	holds[int16](a, shape, v, "operand afterwards")
}
