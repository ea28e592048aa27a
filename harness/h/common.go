// Package h holds one harness per job. A job states a property over symbolic inputs; the engine
// executes it, and the code of godeep it calls, symbolically.
package h

import (
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// must: the call has to succeed.
func must(err error, what string) {
	sym.Assert(err == nil, what+" succeeds")
}

// nums is a list of n arbitrary numbers.
func nums[T sym.Number](name string, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = sym.Num[T](name)
	}
	return v
}

func prod(shape []uint) int {
	n := 1
	for _, s := range shape {
		n *= int(s)
	}
	return n
}

// pickShape is a shape of exactly rank dims with extents in 1..max.
func pickShape(name string, rank, max int) []uint {
	if max == large {
		return pickAnyShape(name, 0, 0, large)
	}
	s := make([]uint, rank)
	for i := range s {
		s[i] = uint(sym.Pick(name, 1, max))
	}
	return s
}

// mat is a tensor of the given shape with arbitrary contents, and those contents.
func mat[T types.Number](name string, shape ...uint) (*tensor.TensorMat[T], []T) {
	v := nums[T](name, prod(shape))
	return tensor.NewFromValues(clone(v), cloneU(shape)...), v
}

func clone[T any](v []T) []T {
	o := make([]T, len(v))
	for i := range v {
		o[i] = v[i]
	}
	return o
}

func cloneU(v []uint) []uint { return clone(v) }

func sameShape(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// flat is the row-major position of an index.
func flat(shape, idx []uint) int {
	p := 0
	for i := range shape {
		p = p*int(shape[i]) + int(idx[i])
	}
	return p
}

// unflat is the index of a row-major position.
func unflat(shape []uint, p int) []uint {
	idx := make([]uint, len(shape))
	for i := len(shape) - 1; i >= 0; i-- {
		idx[i] = uint(p % int(shape[i]))
		p /= int(shape[i])
	}
	return idx
}

// holds: t has this shape and these contents.
func holds[T types.Number](t tensor.Tensor[T], shape []uint, want []T, what string) {
	sym.Assert(sameShape(t.GetShape(), shape), what+": shape")
	sym.Assert(int(t.GetSize()) == len(want), what+": size")
	got := t.GetData()
	sym.Assert(len(got) == len(want), what+": number of elements")
	for i := range want {
		sym.Assert(sym.Same(got[i], want[i]), what+": elements")
	}
}

// run builds the graph of a tensor expression and executes it. With operands given it is executed
// once before, while all their elements held another arbitrary value: nothing of that may be left.
func run[T types.Number](t tensor.Tensor[T], operands ...tensor.Tensor[T]) (*graph.Graph, error) {
	g, err := graph.NewGraph(t)
	if err != nil {
		return nil, err
	}
	if len(operands) > 0 {
		before := sym.Num[T]("contents before")
		sym.Assume(before == before && before != 0)
		var now [][]T
		for _, o := range operands {
			now = append(now, o.GetData())
			for _, s := range o.GetOperands() {
				s.Value = before
			}
		}
		g.Exec()
		for i, o := range operands {
			for k, s := range o.GetOperands() {
				s.Value = now[i][k]
			}
		}
	}
	g.Exec()
	return g, nil
}

// runs: the expression must build; executes it.
func runs[T types.Number](t tensor.Tensor[T], what string, operands ...tensor.Tensor[T]) *graph.Graph {
	g, err := run(t, operands...)
	sym.Assert(err == nil, what+" builds")
	return g
}

// large stands for one of the larger shapes where a bound on the extents is asked for.
const large = 0

var largeShapes = [][]uint{{17}, {34}, {70}, {5, 7}, {9, 4}, {1, 12}, {13, 1}, {4, 3, 5}, {3, 1, 6},
	{2, 1, 3, 2}, {2, 3, 2, 3}, {3, 1, 1, 4}, {1, 2, 1, 2, 2}, {2, 2, 2, 2, 2},
	{1, 2, 1, 2, 1, 3}, {2, 1, 2, 1, 2, 1, 2}}

const largeText = "16 shapes of 1..7 dimensions with up to 70 elements (17, 34, 70, 5x7, 9x4, 1x12, 13x1, 4x3x5, 3x1x6, 2x1x3x2, 2x3x2x3, 3x1x1x4, 1x2x1x2x2, 2x2x2x2x2, 1x2x1x2x1x3, 2x1x2x1x2x1x2)"

// pickAnyShape is a shape of lo..hi dims with extents 1..max.
func pickAnyShape(name string, lo, hi, max int) []uint {
	if max == large {
		return cloneU(largeShapes[sym.Pick(name, 0, len(largeShapes)-1)])
	}
	return pickShape(name, sym.Pick(name+" rank", lo, hi), max)
}

func iff(a, b bool) bool { return a == b }
