package h

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func dotRef[T types.Number](sa []uint, va []T, sb []uint, vb []T, da, db int) ([]uint, []T) {
	if len(sa) == 1 && len(sb) == 1 {
		s := T(0)
		for i := range va {
			s += va[i] * vb[i]
		}
		return []uint{1}, []T{s}
	}
	out := make([]uint, 0)
	for i := range sa {
		if i != da {
			out = append(out, sa[i])
		}
	}
	for i := range sb {
		if i != db {
			out = append(out, sb[i])
		}
	}
	want := make([]T, prod(out))
	for p := range want {
		idx := unflat(out, p)
		ia, ib := make([]uint, len(sa)), make([]uint, len(sb))
		k := 0
		for i := range sa {
			if i != da {
				ia[i] = idx[k]
				k++
			}
		}
		for i := range sb {
			if i != db {
				ib[i] = idx[k]
				k++
			}
		}
		s := T(0)
		for c := uint(0); c < sa[da]; c++ {
			ia[da], ib[db] = c, c
			s += va[flat(sa, ia)] * vb[flat(sb, ib)]
		}
		want[p] = s
	}
	return out, want
}

func c06[T types.Number](ra, rb, max int, explicit bool) {
	sa := pickShape("sa", ra, max)
	sb := pickShape("sb", rb, max)
	da, db := ra-1, rb-1
	if db > 0 {
		db--
	}
	if explicit {
		da = sym.Pick("da", 0, ra-1)
		db = sym.Pick("db", 0, rb-1)
	}
	sym.Assume(sa[da] == sb[db])
	a, va := mat[T]("a", sa...)
	b, vb := mat[T]("b", sb...)
	shape, want := dotRef(sa, va, sb, vb, da, db)
	var e *tensor.TensorMat[T]
	var l tensor.Tensor[T]
	var err error
	if explicit {
		e, err = a.DotAt(b, uint(da), uint(db))
		l = tensor.DotAt[T](a, b, uint(da), uint(db))
	} else {
		e, err = a.Dot(b)
		l = tensor.Dot[T](a, b)
	}
	must(err, "the immediate dot product")
	both[T](e, l, shape, want, a, b)
	holds[T](a, sa, va, "first operand afterwards")
	holds[T](b, sb, vb, "second operand afterwards")
}

func C06_Vectors()   { sym.Bound("vectors of 1..4, int16 (wrapping)"); c06[int16](1, 1, 4, false) }
func C06_VectorsAt() { sym.Bound("vectors of 1..4, int16 (wrapping)"); c06[int16](1, 1, 4, true) }
func C06_Default() {
	sym.Bound("1..3 by 1..3 dimensions (not both 1) of 1..2, int16 (wrapping)")
	ra, rb := sym.Pick("ra", 1, 3), sym.Pick("rb", 1, 3)
	sym.Assume(ra+rb > 2)
	c06[int16](ra, rb, 2, false)
}
func C06_Default3() {
	sym.Bound("matrices with extents 1..3, int16 (wrapping)")
	c06[int16](2, 2, 3, false)
}
func C06_At2() {
	sym.Bound("matrices with extents 1..3, any dimensions, int16 (wrapping)")
	c06[int16](2, 2, 3, true)
}
func C06_At() {
	sym.Bound("1..3 by 1..3 dimensions (not both 1) of 1..2, any dimensions, int16 (wrapping)")
	ra, rb := sym.Pick("ra", 1, 3), sym.Pick("rb", 1, 3)
	sym.Assume(ra+rb > 2)
	c06[int16](ra, rb, 2, true)
}
func C06_Float_Real() {
	sym.Bound("matrices with extents 1..2, any dimensions, float32 over the reals")
	c06[float32](2, 2, 2, true)
}
func C06_Wide() {
	sym.Bound("1..3 by 1..3 dimensions (not both 1) of 1..3, any dimensions, int16 (wrapping)")
	ra, rb := sym.Pick("ra", 1, 3), sym.Pick("rb", 1, 3)
	sym.Assume(ra+rb > 2)
	c06[int16](ra, rb, 3, true)
}

// DotVector multiplies the elements of equally large tensors whatever their shape
func C06_DotVector() {
	sym.Bound("vectors of 1..4, int16 (wrapping)")
	n := uint(sym.Pick("n", 1, 4))
	m := uint(sym.Pick("m", 1, 4))
	a, va := mat[int16]("a", n)
	b, vb := mat[int16]("b", m)
	e, err := a.DotVector(b)
	if n != m {
		sym.Assert(err != nil && e == nil, "vectors of different sizes are refused")
		return
	}
	must(err, "DotVector")
	s := int16(0)
	for i := range va {
		s += va[i] * vb[i]
	}
	holds[int16](e, []uint{1}, []int16{s}, "DotVector")
}

// deferred arguments
func C06_Deferred() {
	sym.Bound("matrices with extents 1..2 given as deferred expressions, int16 (wrapping)")
	sa, sb := pickShape("sa", 2, 2), pickShape("sb", 2, 2)
	sym.Assume(sa[1] == sb[0])
	a, va := mat[int16]("a", sa...)
	b, vb := mat[int16]("b", sb...)
	shape, want := dotRef(sa, va, sb, vb, 1, 0)
	both(nil, tensor.Dot(deferred[int16](a), deferred[int16](b)), shape, want)
	both(nil, tensor.DotAt(tensor.Transpose[int16](a), tensor.Transpose[int16](b), 0, 1), shape, want)
}
