package h

import (
	"errors"
	"io"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

var errDisk = errors.New("disk failure")

// disk is a byte stream that fails once its limit is reached, and hands out chunks of a given size.
type disk struct {
	data  []byte
	pos   int
	limit int   // bytes until it fails; negative: never
	err   error // the failure
	chunk int
	eager bool // the end is reported along with the last bytes
}

func newDisk() *disk { return &disk{limit: -1, err: errDisk, chunk: 1 << 20} }

func (d *disk) Write(b []byte) (int, error) {
	for i, c := range b {
		if d.limit >= 0 && len(d.data) >= d.limit {
			return i, d.err
		}
		d.data = append(d.data, c)
	}
	return len(b), nil
}

func (d *disk) Read(b []byte) (int, error) {
	end, err := len(d.data), io.EOF
	if d.limit >= 0 && d.limit < end {
		end, err = d.limit, d.err
	}
	n := 0
	for n < len(b) && n < d.chunk && d.pos < end {
		b[n] = d.data[d.pos]
		n++
		d.pos++
	}
	if d.pos == end && (n == 0 && len(b) > 0 || d.eager) {
		return n, err
	}
	return n, nil
}

// reading is what was written, to be read in chunks of some size.
func (d *disk) reading() *disk {
	r := &disk{data: d.data, limit: -1, err: errDisk}
	r.chunk = sym.Pick("chunk", 1, 3)
	if r.chunk == 3 {
		r.chunk = 1 << 20
	}
	r.eager = sym.Pick("eager", 0, 1) == 1
	return r
}

// failing is what was written, failing or ending after an arbitrary number of bytes.
func (d *disk) failing() *disk {
	r := d.reading()
	r.limit = sym.Pick("bytes readable", 0, len(d.data)-1)
	if sym.Pick("how", 0, 1) == 1 {
		r.err = io.EOF
	}
	return r
}

// target is a tensor of that shape with other contents.
func target[T types.Number](shape ...uint) *tensor.TensorMat[T] {
	t, _ := mat[T]("old", shape...)
	return t
}

func c27save[T types.Number](maxRank, maxExt, maxSize int) {
	shape := pickAnyShape("shape", 1, maxRank, maxExt)
	sym.Assume(prod(shape) <= maxSize)
	c27saveAt[T](shape)
}

func c27saveAt[T types.Number](shape []uint) {
	a, av := mat[T]("a", shape...)
	b, bv := mat[T]("b", 2)
	d := newDisk()
	must(a.Save(d), "saving")
	must(b.Save(d), "saving the next one")
	r := d.reading()
	x, y := target[T](a.GetShape()...), target[T](2)
	if sym.Pick("target", 0, 1) == 1 {
		x = target[T](uint(len(av)))
	}
	s := cloneU(x.GetShape())
	must(x.Load(r), "loading")
	must(y.Load(r), "loading the next one")
	holds[T](x, s, av, "the loaded tensor")
	holds[T](y, []uint{2}, bv, "the next loaded tensor")
	holds[T](a, a.GetShape(), av, "the saved tensor")
	sym.Assert(r.pos == len(d.data), "everything written is read")
}

func c27full[T types.Number](maxRank, maxExt, maxSize int) {
	shape := pickAnyShape("shape", 1, maxRank, maxExt)
	sym.Assume(prod(shape) <= maxSize)
	c27fullAt[T](shape)
}

func c27fullAt[T types.Number](shape []uint) {
	a, av := mat[T]("a", shape...)
	b, bv := mat[T]("b", 1, 2)
	d := newDisk()
	must(a.SaveFull(d), "saving")
	must(b.SaveFull(d), "saving the next one")
	r := d.reading()
	var x *tensor.TensorMat[T]
	switch sym.Pick("target", 0, 2) {
	case 0:
		x = &tensor.TensorMat[T]{}
	case 1:
		x = target[T](3)
	case 2:
		x = target[T](2, 1, 2)
	}
	y := tensor.NewZeros[T](1)
	must(x.LoadFull(r), "loading")
	must(y.LoadFull(r), "loading the next one")
	holds[T](x, shape, av, "the loaded tensor")
	holds[T](y, []uint{1, 2}, bv, "the next loaded tensor")
	for i := range av {
		v, err := x.Get(unflat(shape, i)...)
		must(err, "reading an element of the loaded tensor")
		sym.Assert(sym.Same(v, av[i]), "an element of the loaded tensor")
	}
	nv := sym.Num[T]("new")
	must(x.Set(nv, unflat(shape, len(av)-1)...), "writing an element of the loaded tensor")
	av[len(av)-1] = nv
	holds[T](x, shape, av, "the loaded tensor after a write")
	holds[T](a, shape, append(clone(av[:len(av)-1]), a.GetData()[len(av)-1]), "the saved tensor")
	sym.Assert(r.pos == len(d.data), "everything written is read")
}

// fails: the call returns an error.
func fails(err error, what string) { sym.Assert(err != nil, what+" is refused with an error") }

func c27fail[T types.Number](full bool) {
	shape := pickAnyShape("shape", 1, 2, 2)
	a, _ := mat[T]("a", shape...)
	d := newDisk()
	save, load := func(w io.Writer) error { return a.Save(w) }, func(t *tensor.TensorMat[T], r io.Reader) error { return t.Load(r) }
	if full {
		save, load = func(w io.Writer) error { return a.SaveFull(w) }, func(t *tensor.TensorMat[T], r io.Reader) error { return t.LoadFull(r) }
	}
	must(save(d), "saving")
	if sym.Pick("side", 0, 1) == 0 {
		w := newDisk()
		w.limit = sym.Pick("bytes writable", 0, len(d.data)-1)
		fails(save(w), "saving to a failing writer")
		return
	}
	fails(load(target[T](shape...), d.failing()), "loading from a failing reader")
}

func C27_SaveFloat64() {
	sym.Bound("rank 1..3, extents 1..3, up to 6 elements; every bit pattern")
	c27save[float64](3, 3, 6)
}
func C27_SaveFloat32() {
	sym.Bound("rank 1..2, extents 1..2; every bit pattern")
	c27save[float32](2, 2, 4)
}
func C27_SaveInt()   { sym.Bound("rank 1..2, extents 1..2"); c27save[int](2, 2, 4) }
func C27_SaveInt16() { sym.Bound("rank 1..2, extents 1..2"); c27save[int16](2, 2, 4) }
func C27_SaveInt32() { sym.Bound("rank 1..2, extents 1..2"); c27save[int32](2, 2, 4) }
func C27_SaveInt64() { sym.Bound("rank 1..2, extents 1..2"); c27save[int64](2, 2, 4) }
func C27_FullFloat64() {
	sym.Bound("rank 1..3, extents 1..3, up to 6 elements; every bit pattern")
	c27full[float64](3, 3, 6)
}
func C27_FullFloat32() {
	sym.Bound("rank 1..2, extents 1..2; every bit pattern")
	c27full[float32](2, 2, 4)
}
func C27_FullInt()   { sym.Bound("rank 1..2, extents 1..2"); c27full[int](2, 2, 4) }
func C27_FullInt16() { sym.Bound("rank 1..2, extents 1..2"); c27full[int16](2, 2, 4) }
func C27_FullInt32() { sym.Bound("rank 1..2, extents 1..2"); c27full[int32](2, 2, 4) }
func C27_FullInt64() { sym.Bound("rank 1..2, extents 1..2"); c27full[int64](2, 2, 4) }

func C27_FailFloat64() {
	sym.Bound("rank 1..2, extents 1..2, failure after every possible number of bytes, chunks of 1, 2 or all bytes")
	c27fail[float64](false)
}
func C27_FailInt()         { sym.Bound("as above"); c27fail[int](false) }
func C27_FailInt16()       { sym.Bound("as above"); c27fail[int16](false) }
func C27_FailFullFloat32() { sym.Bound("as above, full form"); c27fail[float32](true) }
func C27_FailFullInt()     { sym.Bound("as above, full form"); c27fail[int](true) }
