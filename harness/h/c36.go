package h

import (
	"fmt"

	"github.com/julioguillermo/godeep/scalar"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func shapeText(s []uint) string {
	t := "["
	for i, x := range s {
		if i > 0 {
			t += ", "
		}
		t += fmt.Sprint(x)
	}
	return t + "]"
}

func matText[T types.Number](shape []uint, v []T) string {
	t := fmt.Sprintf("<Mat (dims: %d, len: %d, shape: %s) => [", len(shape), len(v), shapeText(shape))
	for i, x := range v {
		if i > 0 {
			t += ", "
		}
		t += fmt.Sprint(x)
	}
	return t + "]>"
}

func c36Mat[T types.Number](lo, hi, max int) {
	shape := pickAnyShape("s", lo, hi, max)
	a, v := mat[T]("a", shape...)
	sym.Assert(a.String() == matText(shape, v), "the text of a tensor is its shape and its elements in order")
	i := sym.Pick("which", 0, len(v)-1)
	x := sym.Num[T]("x")
	must(a.Set(x, unflat(shape, i)...), "Set")
	w := clone(v)
	w[i] = x
	sym.Assert(a.String() == matText(shape, w), "the text of a tensor is that of its current elements")
	b := a.Copy()
	n := tensor.Reshape[T](a, uint(len(v)))
	runs(n, "the deferred operation")
	sym.Assert(b.String() == matText(shape, w), "the text of a copy")
	sym.Assert(n.String() == matText([]uint{uint(len(v))}, w), "the text of a deferred result")
	holds[T](a, shape, w, "the tensor afterwards")
}

func C36_TensorInt() {
	sym.Bound("tensors of 1..3 dimensions of 1..3, every int16")
	c36Mat[int16](1, 3, 3)
}
func C36_TensorInt64() {
	sym.Bound("tensors of 1..2 dimensions of 1..3, every int")
	c36Mat[int](1, 2, 3)
}
func C36_TensorFloat32() {
	sym.Bound("tensors of 1..2 dimensions of 1..3, every float32")
	c36Mat[float32](1, 2, 3)
}
func C36_TensorFloat64() {
	sym.Bound("tensors of 1..2 dimensions of 1..3, every float64")
	c36Mat[float64](1, 2, 3)
}
func C36_TensorLarge() { sym.Bound(largeText); c36Mat[int16](0, 0, large) }

func C36_Scalar() {
	sym.Bound("scalars of each precision, every value")
	switch sym.Pick("precision", 0, 2) {
	case 0:
		x := sym.Num[float64]("x")
		s := scalar.NewF64(x)
		sym.Assert(s.String() == fmt.Sprint(x), "the text of a double is its value")
	case 1:
		x := sym.Num[float32]("x")
		s := scalar.NewF32(x)
		sym.Assert(s.String() == fmt.Sprint(x), "the text of a single is its value")
	case 2:
		s := &scalar.F16{Value: sym.Num[uint16]("bits")}
		sym.Assert(s.String() == fmt.Sprint(s.G32()), "the text of a half is its value")
	}
}

// Odd integers of more than 24 bits: no shorter format has them.
func C36_ScalarWide() {
	sym.Bound("doubles holding an odd integer between 2^25 and 2^50")
	i := sym.Num[int64]("i")
	sym.Assume(i > 1<<25 && i < 1<<50 && i&1 == 1)
	x := float64(i)
	s := scalar.NewF64(x)
	sym.Assert(s.String() == fmt.Sprint(x), "the text of a double is its value")
}

var kindText = []string{kInput: "Input", kDense: "Dense", kConv: "Conv2D", kDeconv: "Deconv2D", kPool: "MaxPool",
	kUp: "UpSampling", kFlat: "Flatten", kSub: "SubTensor", kConcat: "Concat"}

// real is the layer that stands for n: of a model used as a layer, its last.
func (n *node[T]) real() *node[T] {
	for n != nil && (n.kind == kModel || n.lay == nil) {
		n = n.pre
	}
	return n
}

// number is the length of the longest way from an input to n.
func (n *node[T]) number() int {
	n = n.real()
	k := 0
	for _, p := range []*node[T]{n.pre.real(), n.pre2.real()} {
		if p != nil {
			if m := p.number() + 1; m > k {
				k = m
			}
		}
	}
	return k
}

func (n *node[T]) text() string {
	t := "<Model => [\n"
	for _, m := range n.all() {
		if m.kind == kModel || m.lay == nil {
			continue
		}
		t += fmt.Sprintf("<Layer[%d]", m.number())
		p := m.pre.real()
		if m.kind == kConcat {
			t += fmt.Sprintf(" (%d, %d)", p.number(), m.pre2.number())
		} else if p != nil {
			t += fmt.Sprintf(" (%d)", p.number())
		}
		t += " => " + kindText[m.kind] + ": "
		if m.kind == kConcat {
			t += "I" + shapeText(m.shape) + " "
		}
		t += "O" + shapeText(m.shape) + ">\n"
	}
	return t + "]>\n"
}

func c36Model(n *node[int16], training bool) {
	m := compiled(n)
	want := n.text()
	sym.Assert(m.String() == want, "the text of a model lists each layer once, behind those it is fed from")
	sym.Assert(m.String() == want, "the text of a model, asked for again")
	predicts(m, n, "prediction afterwards")
	if training {
		trains(m, n, sym.Num[int16]("alpha"), sym.Num[int16]("momentum"), "training afterwards")
	}
	sym.Assert(m.String() == want, "the text of a model after its use")
	n.sameParams("parameters afterwards")
}

func C36_Model() {
	sym.Bound(savedText)
	which := sym.Pick("network", 0, savedNets-1)
	c36Model(savedNet[int16](which), which < smallNets)
}
func C36_Medium() { sym.Bound(mediumText); c36Model(pickMedium[int16](), false) }
func C36_Nested() { sym.Bound(nestText); c36Model(pickNested[int16](), false) }
