package h

import (
	"math"

	"github.com/julioguillermo/godeep/scalar"

	"verifharness/sym"
)

// halfVal is the magnitude denoted by the finite half-precision pattern with this exponent field.
func halfVal(exp int, mant uint16) float64 {
	if exp == 0 {
		return float64(mant) * math.Ldexp(1, -24)
	}
	return float64(1024+mant) * math.Ldexp(1, exp-25)
}

// every bit pattern reads as the number it denotes
func C14_Read() {
	sym.Bound("every 16-bit pattern")
	b := sym.Num[uint16]("bits")
	exp := sym.Pick("exponent field", 0, 31)
	sym.Assume(int(b>>10&31) == exp)
	mant := b & 1023
	h := scalar.F16{Value: b}
	r, d := h.G32(), h.G64()
	neg := b&0x8000 != 0
	sym.Assert(h.Value == b, "reading changes nothing")
	sym.Assert(h.Signbit() == neg, "Signbit")
	nan := exp == 31 && mant != 0
	inf := exp == 31 && mant == 0
	sym.Assert(h.IsNaN() == nan, "IsNaN")
	sym.Assert(h.IsInf(0) == inf, "IsInf either sign")
	sym.Assert(h.IsInf(1) == (inf && !neg), "IsInf +")
	sym.Assert(h.IsInf(-1) == (inf && neg), "IsInf -")
	sym.Assert(h.IsFinite() == (exp != 31), "IsFinite")
	sym.Assert(h.IsNormal() == (exp != 31 && exp != 0), "IsNormal")
	sym.Assert(h.IsQuietNaN() == (nan && mant >= 512), "IsQuietNaN")
	if exp == 31 {
		if mant != 0 {
			sym.Assert(r != r && d != d, "NaN reads as NaN")
			return
		}
		sym.Assert(math.IsInf(d, 0) && (d < 0) == neg, "infinity reads as infinity")
		sym.Assert(math.IsInf(float64(r), 0) && (r < 0) == neg, "infinity reads as infinity")
		return
	}
	v := halfVal(exp, mant)
	if neg {
		v = -v
	}
	sym.Assert(d == v, "value (64 bit)")
	sym.Assert(float64(r) == v, "value (32 bit)")
	sym.Assert(math.Signbit(d) == neg && math.Signbit(float64(r)) == neg, "sign, of zero too")
}

// lossless round trip
func C14_RoundTrip() {
	sym.Bound("every 16-bit pattern but NaN")
	b := sym.Num[uint16]("bits")
	sym.Assume(b&0x7fff <= 0x7c00)
	h := scalar.F16{Value: b}
	sym.Assert(scalar.F16fromF32(h.G32()).Value == b, "32 bit and back")
	sym.Assert(scalar.F16fromF64(h.G64()).Value == b, "64 bit and back")
	var o scalar.F16
	o.S32(h.G32())
	sym.Assert(o.Value == b, "S32")
	o.Value = 0x1234
	o.S64(h.G64())
	sym.Assert(o.Value == b, "S64")
}

// midBits is the float32 pattern of the midpoint between the half-precision magnitudes m and m+1,
// where m has this exponent field (and, if that is 0, 2m+1 has its leading bit at lead).
func midBits(exp, lead int, m uint16) uint32 {
	if exp > 0 {
		return uint32(exp+112)<<23 | uint32(m&1023)<<13 | 1<<12
	}
	odd := uint32(m)*2 + 1
	return uint32(lead-25+127)<<23 | (odd-1<<lead)<<(23-lead)
}

// pickMag fixes the binade of the half-precision magnitude m by case split.
func pickMag(m uint16) (exp, lead int) {
	exp = sym.Pick("exponent field", 0, 30)
	sym.Assume(int(m>>10) == exp)
	if exp == 0 {
		lead = sym.Pick("leading bit", 0, 10)
		odd := int(m)*2 + 1
		sym.Assume(odd >= 1<<lead && odd < 2<<lead)
	}
	return
}

// storing rounds to nearest, ties to even
func c14Store(store func(x float32) uint16, what string) {
	u := sym.Num[uint32]("x bits")
	b := store(math.Float32frombits(u))
	a := u & 0x7fffffff
	if a > 0x7f800000 {
		sym.Assert(b&0x7fff > 0x7c00, what+": NaN stays NaN")
		return
	}
	sym.Assert((b&0x8000 != 0) == (u&0x80000000 != 0), what+": sign")
	m := b & 0x7fff
	sym.Assert(m <= 0x7c00, what+": a number stays a number")
	if a >= 0x477ff000 { // 65520
		sym.Assert(m == 0x7c00, what+": overflow gives infinity")
		return
	}
	sym.Assert(m < 0x7c00, what+": no infinity below the overflow threshold")
	// magnitudes of floats are ordered as their bit patterns
	if sym.Bool("upper side") {
		mid := midBitsOf(m)
		sym.Assert(a < mid || a == mid && m&1 == 0, what+": not above the midpoint to the next number")
	} else if m > 0 {
		mid := midBitsOf(m - 1)
		sym.Assert(a > mid || a == mid && m&1 == 0, what+": not below the midpoint to the previous number")
	}
}

func midBitsOf(m uint16) uint32 {
	exp, lead := pickMag(m)
	return midBits(exp, lead, m)
}

func C14_StoreNew() {
	sym.Bound("every 32-bit float")
	c14Store(func(x float32) uint16 { return scalar.F16fromF32(x).Value }, "F16fromF32")
}

func C14_StoreSet() {
	sym.Bound("every 32-bit float")
	c14Store(func(x float32) uint16 {
		h := scalar.F16{Value: sym.Num[uint16]("old")}
		h.S32(x)
		return h.Value
	}, "S32")
}

func C14_Constants() {
	sym.Bound("every sign argument")
	n := scalar.F16NaN()
	sym.Assert(n.IsNaN(), "F16NaN")
	s := sym.Num[int]("sign")
	i := scalar.F16Inf(s)
	sym.Assert(i.IsInf(0) && i.Signbit() == (s < 0), "F16Inf")
}

// storing is monotone
func C14_Monotone() {
	sym.Bound("every pair of 32-bit floats but NaN")
	x, y := sym.Num[uint32]("x bits"), sym.Num[uint32]("y bits")
	sym.Assume(x <= y && y <= 0x7f800000)
	a, b := scalar.F16fromF32(math.Float32frombits(x)), scalar.F16fromF32(math.Float32frombits(y))
	sym.Assert(a.Value <= b.Value, "monotone")
	c := scalar.F16fromF32(math.Float32frombits(x | 1<<31))
	sym.Assert(c.Value == a.Value|1<<15, "odd function")
}
