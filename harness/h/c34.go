package h

import (
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

func c34Distance[T types.Number](max int) {
	n := sym.Pick("length", 0, max)
	a, b := nums[T]("a", n), nums[T]("b", n)
	a2, b2 := clone(a), clone(b)
	d, err := tools.Distant(a, b)
	must(err, "the distance")
	sum := T(0)
	for i := range a {
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	sym.Assert(sym.LE(T(0), d), "a distance is not negative")
	sym.Assert(sym.Same(d*d, sum), "the square of a distance is the sum of squares")
	e, err := tools.Distant(b, a)
	must(err, "the distance")
	sym.Assert(sym.Same(d, e), "the distance is symmetric")
	for i := range a {
		sym.Assert(sym.Same(a[i], a2[i]) && sym.Same(b[i], b2[i]), "the lists are not changed")
	}
}

func C34_Distance_Real()   { sym.Bound("lists of 0..4 arbitrary numbers"); c34Distance[float64](4) }
func C34_Distance32_Real() { sym.Bound("lists of 0..3 arbitrary numbers"); c34Distance[float32](3) }

// whole numbers: the distance rounded down
func C34_DistanceInt_Real() {
	sym.Bound("lists of 1..2 whole numbers between -3 and 3")
	n := sym.Pick("length", 1, 2)
	a, b := make([]int16, n), make([]int16, n)
	sum := int16(0)
	for i := range a {
		a[i], b[i] = int16(sym.Pick("a", -3, 3)), int16(sym.Pick("b", 0, 1))
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	d, err := tools.Distant(a, b)
	must(err, "the distance")
	sym.Assert(d >= 0 && d*d <= sum && (d+1)*(d+1) > sum, "the distance rounded down")
}

// zero distance means equal lists
func C34_Zero_Real() {
	sym.Bound("lists of 1..3 arbitrary numbers")
	n := sym.Pick("length", 1, 3)
	a, b := nums[float64]("a", n), nums[float64]("b", n)
	d, err := tools.Distant(a, b)
	must(err, "the distance")
	same := true
	for i := range a {
		same = sym.And(same, a[i] == b[i])
	}
	sym.Assert(iff(d == 0, same), "the distance is zero for equal lists only")
}

func C34_Lengths() {
	sym.Bound("lists of 0..4 arbitrary numbers of different length")
	n, m := sym.Pick("length", 0, 4), sym.Pick("length", 0, 4)
	sym.Assume(n != m)
	_, err := tools.Distant(nums[float64]("a", n), nums[float64]("b", m))
	fails(err, "the distance of lists of different length")
}

func runes(s string) []rune { return []rune(s) }

// fill is the number of places where a bar differs from the empty one.
func fill(bar, empty []rune) int {
	n := 0
	for i := range bar {
		if bar[i] != empty[i] {
			n++
		}
	}
	return n
}

func fraction(name string) float64 {
	p := sym.Num[float64](name)
	sym.Assume(p >= 0 && p <= 1)
	return p
}

func c34Bar(lo, hi int) {
	size := sym.Pick("size", lo, hi)
	p, q := fraction("fraction"), fraction("fraction")
	sym.Assume(p <= q)
	a, b := runes(tools.Bar(p, size)), runes(tools.Bar(q, size))
	want := size
	if want < 0 {
		want = 0
	}
	sym.Assert(len(a) == want && len(b) == want, "a bar is as wide as asked for")
	empty, full := runes(tools.Bar(0, size)), runes(tools.Bar(1, size))
	sym.Assert(len(empty) == want, "an empty bar is as wide as asked for")
	sym.Assert(len(full) == want, "a full bar is as wide as asked for")
	sym.Assert(fill(b, empty) <= fill(full, empty), "the bar is full for the fraction 1")
	sym.Assert(fill(a, empty) <= fill(b, empty), "the filled part does not shrink as the fraction grows")
}

func C34_Bar() {
	sym.Bound("sizes -3..6, any two fractions between 0 and 1 in IEEE arithmetic")
	c34Bar(-3, 6)
}
func C34_BarWide() {
	sym.Bound("sizes 10..60 in steps of 10, any fraction between 0 and 1 in IEEE arithmetic")
	size := 10 * sym.Pick("size", 1, 6)
	a := runes(tools.Bar(fraction("fraction"), size))
	sym.Assert(len(a) == size, "a bar is as wide as asked for")
}
func C34_BarWider() {
	sym.Bound("sizes 79, 120 and 250, any fraction between 0 and 1 in IEEE arithmetic")
	size := []int{79, 120, 250}[sym.Pick("size", 0, 2)]
	a := runes(tools.Bar(fraction("fraction"), size))
	sym.Assert(len(a) == size, "a bar is as wide as asked for")
}
func C34_BarMedium() {
	sym.Bound("size 21, any two fractions between 0 and 1 in IEEE arithmetic")
	c34Bar(21, 21)
}
func C34_BarLarge_Thorough() {
	sym.Bound("sizes 7..9, any two fractions between 0 and 1 in IEEE arithmetic")
	c34Bar(7, 9)
}
