package h

import (
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// size is an arbitrary source and target size.
func sizes(max, maxNew int) (w, h, nw, nh int) {
	return sym.Pick("width", 1, max), sym.Pick("height", 1, max), sym.Pick("new width", 1, maxNew), sym.Pick("new height", 1, maxNew)
}

func c32Simple[T types.Number](maxC, max, maxNew int) {
	d := sym.Pick("channels", 1, maxC)
	w, h, nw, nh := sizes(max, maxNew)
	s := []uint{uint(d), uint(w), uint(h)}
	t, v := mat[T]("value", s...)
	got, err := img.SimpleScale[T](t, uint(nw), uint(nh))
	must(err, "scaling")
	want := make([]T, d*nw*nh)
	for c := 0; c < d; c++ {
		for x := 0; x < nw; x++ {
			for y := 0; y < nh; y++ {
				want[(c*nw+x)*nh+y] = v[at3(s, c, x*w/nw, y*h/nh)]
			}
		}
	}
	holds[T](got, []uint{uint(d), uint(nw), uint(nh)}, want, "the scaled image")
	holds[T](t, s, v, "the source")
}

func C32_Simple() {
	sym.Bound("1..2 channels, sources of 1..4 x 1..4, targets of 1..5 x 1..5")
	c32Simple[int16](2, 4, 5)
}
func C32_SimpleFloat() {
	sym.Bound("1..2 channels, sources of 1..3 x 1..3, targets of 1..4 x 1..4, every bit pattern")
	c32Simple[float32](2, 3, 4)
}
func C32_SimpleLarge_Thorough() {
	sym.Bound("1..5 channels, sources of 1..7 x 1..7, targets of 1..7 x 1..7")
	c32Simple[int16](5, 7, 7)
}

// long and thin images: one dimension at a time, up to larger sizes
func C32_SimpleLong() {
	sym.Bound("1..20 cells wide or high, scaled to 1..20")
	w, nw := sym.Pick("extent", 1, 20), sym.Pick("new extent", 1, 20)
	if sym.Pick("dimension", 0, 1) == 0 {
		t, v := mat[int16]("value", 1, uint(w), 1)
		got, err := img.SimpleScale[int16](t, uint(nw), 1)
		must(err, "scaling")
		for x, g := range got.GetData() {
			sym.Assert(g == v[x*w/nw], "the scaled image")
		}
	} else {
		t, v := mat[int16]("value", 1, 1, uint(w))
		got, err := img.SimpleScale[int16](t, 1, uint(nw))
		must(err, "scaling")
		for x, g := range got.GetData() {
			sym.Assert(g == v[x*w/nw], "the scaled image")
		}
	}
}

// mix is the bilinear mix at a target position; at gives the source.
func mix[T types.Number](x, y, w, h, nw, nh int, at func(i, j int) T) T {
	i, j := x*w/nw, y*h/nh
	dx, dy := T(x*w%nw)/T(nw), T(y*h%nh)/T(nh)
	i2, j2 := i+1, j+1
	if i2 >= w {
		i2 = i
	}
	if j2 >= h {
		j2 = j
	}
	return (1-dx)*(1-dy)*at(i, j) + dx*(1-dy)*at(i2, j) + (1-dx)*dy*at(i, j2) + dx*dy*at(i2, j2)
}

func c32Smooth[T types.Number](maxC, max, maxNew int) {
	d := sym.Pick("channels", 1, maxC)
	w, h, nw, nh := sizes(max, maxNew)
	s := []uint{uint(d), uint(w), uint(h)}
	t, v := mat[T]("value", s...)
	got, err := img.SmoothScale[T](t, uint(nw), uint(nh))
	must(err, "scaling")
	want := make([]T, d*nw*nh)
	for c := 0; c < d; c++ {
		for x := 0; x < nw; x++ {
			for y := 0; y < nh; y++ {
				want[(c*nw+x)*nh+y] = mix(x, y, w, h, nw, nh, func(i, j int) T { return v[at3(s, c, i, j)] })
			}
		}
	}
	holds[T](got, []uint{uint(d), uint(nw), uint(nh)}, want, "the scaled image")
	holds[T](t, s, v, "the source")
}

func C32_Smooth_Real() {
	sym.Bound("1..2 channels, sources of 1..3 x 1..3, targets of 1..4 x 1..4")
	c32Smooth[float64](2, 3, 4)
}
func C32_Smooth32_Real() {
	sym.Bound("1 channel, sources of 1..3 x 1..3, targets of 1..4 x 1..4")
	c32Smooth[float32](1, 3, 4)
}
func C32_SmoothLarge_Real_Thorough() {
	sym.Bound("1..4 channels, sources of 1..5 x 1..5, targets of 1..6 x 1..6")
	c32Smooth[float64](4, 5, 6)
}

// an equal size reproduces the source, in IEEE arithmetic
func c32Equal[T types.Number](max int) {
	w, h := sym.Pick("width", 1, max), sym.Pick("height", 1, max)
	s := []uint{2, uint(w), uint(h)}
	t, v := mat[T]("value", s...)
	for _, x := range v {
		sym.Assume(x-x == 0) // finite
	}
	got, err := img.SmoothScale[T](t, uint(w), uint(h))
	must(err, "scaling")
	holds[T](got, s, v, "an image scaled to its own size")
}

func C32_SmoothEqual64() {
	sym.Bound("2 channels of 1..2 x 1..2, every finite double")
	c32Equal[float64](2)
}

// tensors that are no images
func C32_Fails() {
	sym.Bound("0..4 dimensions of 1..2 that are not three")
	s := pickAnyShape("shape", 0, 4, 2)
	sym.Assume(len(s) != 3)
	t, _ := mat[int16]("value", s...)
	var got tensor.Tensor[int16]
	var err error
	if sym.Pick("form", 0, 1) == 0 {
		got, err = img.SimpleScale[int16](t, 2, 2)
	} else {
		got, err = img.SmoothScale[int16](t, 2, 2)
	}
	sym.Assert(err != nil && got == nil, "scaling a tensor that is no image is refused with an error")
}

// the loaders
func c32LoadSimple[T types.Number](max, maxNew int) {
	p := somePicture(max, max)
	w, h := p.bounds.Dx(), p.bounds.Dy()
	nw, nh := sym.Pick("new width", 1, maxNew), sym.Pick("new height", 1, maxNew)
	t, err := img.LoadSimpleScaled[T](sym.ImageFile(p), uint(nw), uint(nh))
	must(err, "loading")
	want := make([]T, 4*nw*nh)
	for c := 0; c < 4; c++ {
		for x := 0; x < nw; x++ {
			for y := 0; y < nh; y++ {
				want[(c*nw+x)*nh+y] = T(float64(p.channel(c, x*w/nw, y*h/nh)) / 65535)
			}
		}
	}
	holds(t, []uint{4, uint(nw), uint(nh)}, want, "the loaded image")
}

func C32_LoadSimple_Real() {
	sym.Bound("1..2 x 1..2 pixels of arbitrary 16-bit channels, bounds starting at -1..2, -2..1, scaled to 1..3 x 1..3")
	c32LoadSimple[float64](2, 3)
}
func C32_LoadSimpleLarge_Real_Thorough() {
	sym.Bound("1..3 x 1..3 pixels of arbitrary 16-bit channels, bounds starting at -1..2, -2..1, scaled to 1..4 x 1..4")
	c32LoadSimple[float32](3, 4)
}

func c32LoadSmooth[T types.Number](p *picture, maxNew int) {
	w, h := p.bounds.Dx(), p.bounds.Dy()
	nw, nh := sym.Pick("new width", 1, maxNew), sym.Pick("new height", 1, maxNew)
	t, err := img.LoadSmoothScaled[T](sym.ImageFile(p), uint(nw), uint(nh))
	must(err, "loading")
	sym.Assert(sameShape(t.GetShape(), []uint{4, uint(nw), uint(nh)}), "the loaded image: shape")
	got := t.GetData()
	for c := 0; c < 4; c++ {
		for x := 0; x < nw; x++ {
			for y := 0; y < nh; y++ {
				m := mix(x, y, w, h, nw, nh, func(i, j int) float64 { return float64(p.channel(c, i, j)) })
				g := float64(got[(c*nw+x)*nh+y]) * 65535
				sym.Assert(sym.Near(g, m, 1), "the loaded image: elements, up to one step of 16 bits")
				if w == nw && h == nh {
					sym.Assert(sym.Same(g, m), "an image loaded in its own size")
				}
			}
		}
	}
}

func C32_LoadSmooth_Real() {
	sym.Bound("1..3 x 1..3 pixels of arbitrary 16-bit channels, bounds starting at -1, 2, scaled to 1..3 x 1..3")
	c32LoadSmooth[float64](pictureAt(-1, 2, sym.Pick("width", 1, 3), sym.Pick("height", 1, 3)), 3)
}
func C32_LoadSmoothLong_Real() {
	sym.Bound("1 x 4 or 4 x 1 pixels of arbitrary 16-bit channels, bounds starting at 1, -2, scaled to 1..5 x 1..5")
	if sym.Pick("which", 0, 1) == 0 {
		c32LoadSmooth[float64](pictureAt(1, -2, 1, 4), 5)
	} else {
		c32LoadSmooth[float64](pictureAt(1, -2, 4, 1), 5)
	}
}
func C32_LoadSmoothLarge_Real_Thorough() {
	sym.Bound("1..4 x 1..4 pixels of arbitrary 16-bit channels, bounds starting at -1..2, -2..1, scaled to 1..5 x 1..5")
	c32LoadSmooth[float64](somePicture(4, 4), 5)
}
