package h

import (
	"image"
	"image/color"

	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// picture is an image with arbitrary bounds and pixels.
type picture struct {
	bounds image.Rectangle
	px     [][4]uint16 // red, green, blue, alpha; by column
}

func (p *picture) ColorModel() color.Model { return color.RGBA64Model }
func (p *picture) Bounds() image.Rectangle { return p.bounds }
func (p *picture) At(x, y int) color.Color {
	i, j := x-p.bounds.Min.X, y-p.bounds.Min.Y
	sym.Assert(i >= 0 && i < p.bounds.Dx() && j >= 0 && j < p.bounds.Dy(), "only pixels inside the image are read")
	c := p.px[i*p.bounds.Dy()+j]
	return color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
}

func somePicture(maxW, maxH int) *picture {
	w, h := sym.Pick("width", 1, maxW), sym.Pick("height", 1, maxH)
	return pictureAt(sym.Pick("left", -1, 2), sym.Pick("top", -2, 1), w, h)
}

func pictureAt(x, y, w, h int) *picture {
	p := &picture{bounds: image.Rect(x, y, x+w, y+h), px: make([][4]uint16, w*h)}
	for i := range p.px {
		for c := range p.px[i] {
			p.px[i][c] = sym.Num[uint16]("pixel")
		}
	}
	return p
}

// channel is the tensor value of one channel of one pixel.
func (p *picture) channel(c, i, j int) uint16 { return p.px[i*p.bounds.Dy()+j][c] }

func c31Load[T types.Number](maxW, maxH int) {
	c31LoadAs[T](somePicture(maxW, maxH))
}

func c31LoadAs[T types.Number](p *picture) {
	t, err := img.LoadImage[T](sym.ImageFile(p))
	must(err, "loading")
	w, h := p.bounds.Dx(), p.bounds.Dy()
	want := make([]T, 4*w*h)
	for c := 0; c < 4; c++ {
		for i := 0; i < w; i++ {
			for j := 0; j < h; j++ {
				want[(c*w+i)*h+j] = T(float64(p.channel(c, i, j)) / 65535)
			}
		}
	}
	holds(t, []uint{4, uint(w), uint(h)}, want, "the loaded image")
}

func C31_Load_Real() {
	sym.Bound("1..3 x 1..3 pixels of arbitrary 16-bit channels, bounds starting at -1..2, -2..1")
	c31Load[float64](3, 3)
}
func C31_Load32_Real() {
	sym.Bound("1..2 x 1..3 pixels of arbitrary 16-bit channels, bounds starting at -1..2, -2..1")
	c31Load[float32](2, 3)
}

// values of loaded pixels in IEEE arithmetic
func C31_LoadIEEE() {
	sym.Bound("1 pixel of arbitrary 16-bit channels")
	p := &picture{bounds: image.Rect(0, 0, 1, 1), px: make([][4]uint16, 1)}
	k := sym.Pick("channel", 0, 3)
	v := uint16(0)
	which := sym.Pick("value", 0, 2)
	switch which {
	case 1:
		v = 65535
	case 2:
		v = sym.Num[uint16]("pixel")
		sym.Assume(v > 0 && v < 65535)
	}
	p.px[0][k] = v
	t, err := img.LoadImage[float32](sym.ImageFile(p))
	must(err, "loading")
	got := t.GetData()[k]
	switch which {
	case 0:
		sym.Assert(got == 0, "a loaded channel of value 0")
	case 1:
		sym.Assert(got == 1, "a loaded channel of full value")
	case 2:
		sym.Assert(got > 0 && got < 1, "a loaded channel between")
	}
}

// files that cannot be opened or hold no image
func C31_LoadFails() {
	sym.Bound("every loader, a missing file and one that holds no image")
	path := sym.NoFile()
	if sym.Pick("file", 0, 1) == 1 {
		path = sym.ImageFile(nil)
	}
	var t tensor.Tensor[float64]
	var err error
	switch sym.Pick("loader", 0, 2) {
	case 0:
		t, err = img.LoadImage[float64](path)
	case 1:
		t, err = img.LoadSimpleScaled[float64](path, 2, 2)
	case 2:
		t, err = img.LoadSmoothScaled[float64](path, 2, 2)
	}
	sym.Assert(err != nil && t == nil, "a file that is no image is refused with an error")
}

// imageTensor is a tensor of values between 0 and 1.
func imageTensor[T types.Number](shape ...uint) (*tensor.TensorMat[T], []T) {
	t, v := mat[T]("value", shape...)
	for _, x := range v {
		sym.Assume(x >= 0 && x <= 1)
	}
	return t, v
}

func c31To[T types.Number](maxC, maxW, maxH int) {
	s := []uint{uint(sym.Pick("channels", 4, maxC)), uint(sym.Pick("width", 1, maxW)), uint(sym.Pick("height", 1, maxH))}
	c31ToAs[T](s)
}

func c31ToAs[T types.Number](s []uint) {
	t, v := imageTensor[T](s...)
	m, err := img.ToImg[T](t)
	must(err, "converting")
	sameImage(m, s, v)
	holds[T](t, s, v, "the converted tensor")
}

// sameImage: the image shows the first four channels of the values.
func sameImage[T types.Number](m image.Image, s []uint, v []T) {
	b := m.Bounds()
	sym.Assert(b.Min.X == 0 && b.Min.Y == 0 && b.Dx() == int(s[1]) && b.Dy() == int(s[2]), "bounds of the image")
	for i := 0; i < int(s[1]); i++ {
		for j := 0; j < int(s[2]); j++ {
			var got [4]uint32
			got[0], got[1], got[2], got[3] = m.At(i, j).RGBA()
			for c := range got {
				x := v[at3(s, c, i, j)]
				lo, hi := uint32(uint8(x*255)), uint32(uint8(float64(x)*255))
				sym.Assert(sym.Or(got[c] == lo*257, got[c] == hi*257), "a channel of a pixel of the image")
			}
		}
	}
}

func C31_To_Real() {
	sym.Bound("4..5 channels, 1..2 x 1..3 pixels, arbitrary values between 0 and 1")
	c31To[float64](5, 2, 3)
}
func C31_To64() {
	sym.Bound("4 channels, 1..2 x 1..2 pixels, every double between 0 and 1")
	c31To[float64](4, 2, 2)
}
func C31_To32() {
	sym.Bound("4 channels, 1..2 x 1..2 pixels, every float between 0 and 1")
	c31To[float32](4, 2, 2)
}
func C31_ToInt() { sym.Bound("4 channels, 1..2 x 1..2 pixels, 0 or 1"); c31To[int16](4, 2, 2) }

// tensors that are no images
func C31_ToFails() {
	sym.Bound("0..4 dimensions of 1..3 that are not three, or fewer than 4 channels")
	s := pickAnyShape("shape", 0, 4, 3)
	if len(s) == 3 && sym.Pick("channels", 0, 1) == 1 {
		s[0] = 0
	}
	t, _ := imageTensor[int16](s...)
	var err error
	var m image.Image
	what := "converting"
	switch sym.Pick("call", 0, 2) {
	case 0:
		m, err = img.ToImg[int16](t)
	case 1:
		what, err = "saving as PNG", img.PngSave[int16](t, sym.NewFile("a.png"))
	case 2:
		what, err = "saving as JPEG", img.JpgSave[int16](t, sym.NewFile("a.jpg"), 90)
	}
	sym.Assert(err != nil && m == nil, what+" a tensor that is no image is refused with an error")
	sym.Assert(len(sym.SavedImages()) == 0, what+" a tensor that is no image writes no image")
}

// saving
func C31_Save_Real() {
	sym.Bound("4 channels, 1..2 x 1..2 pixels, PNG and JPEG of quality 1..100")
	s := []uint{4, uint(sym.Pick("width", 1, 2)), uint(sym.Pick("height", 1, 2))}
	t, v := imageTensor[float64](s...)
	path := sym.NewFile("a")
	q := []int{1, 50, 100}[sym.Pick("quality", 0, 2)]
	format := []string{"png", "jpeg"}[sym.Pick("format", 0, 1)]
	if format == "png" {
		q = 0
		must(img.PngSave[float64](t, path), "saving")
	} else {
		must(img.JpgSave[float64](t, path, q), "saving")
	}
	all := sym.SavedImages()
	sym.Assert(len(all) == 1, "one image is written")
	sym.Assert(all[0].Path == path && all[0].Format == format && all[0].Quality == q, "the image is written to the file in the format and quality asked for")
	sameImage(all[0].Image, s, v)
}

func C31_SaveFails() {
	sym.Bound("a file that cannot be created or not be written, PNG and JPEG")
	t, _ := imageTensor[int16](4, 1, 1)
	path := sym.NoFile()
	if sym.Pick("file", 0, 1) == 1 {
		path = sym.FullFile()
	}
	var err error
	if sym.Pick("format", 0, 1) == 0 {
		err = img.PngSave[int16](t, path)
	} else {
		err = img.JpgSave[int16](t, path, 80)
	}
	fails(err, "saving to a failing file")
}
