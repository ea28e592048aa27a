package sym

import (
	"errors"
	"image"
	"image/color"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Images in files. In the engine, opening a file made by ImageFile and decoding it gives the image
// itself (DecodeHook), and encoding an image into a file records it (EncodeHook). Natively a
// registered image format and hooks in the encoders do the same with real files.

const imgMagic = "VERIFIMG"

type Saved struct {
	Path, Format string
	Quality      int
	Image        image.Image
}

var (
	images  []image.Image
	saved   []Saved
	scratch string
	errSave = errors.New("no space left on device")
	errRead = errors.New("not an image")
)

func init() {
	image.RegisterFormat("verif", imgMagic, func(r io.Reader) (image.Image, error) {
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		return pictured(string(b[len(imgMagic):]))
	}, func(r io.Reader) (image.Config, error) { return image.Config{ColorModel: color.RGBA64Model}, nil })
}

func pictured(id string) (image.Image, error) {
	for i, m := range images {
		if strconv.Itoa(i) == id && m != nil {
			return m, nil
		}
	}
	return nil, errRead
}

// DecodeHook is image.Decode in the engine.
func DecodeHook(r io.Reader) (image.Image, string, error) {
	f, ok := r.(interface{ Name() string })
	if !ok {
		return nil, "", errRead
	}
	m, err := pictured(f.Name()[len(imgMagic):])
	return m, "verif", err
}

// EncodeHook is the encoders in the engine, and is told of every encoding natively.
func EncodeHook(w io.Writer, m image.Image, format string, quality int) error {
	f, ok := w.(interface{ Name() string })
	if !ok {
		return errSave
	}
	if f.Name() == "/dev/full" {
		return errSave
	}
	saved = append(saved, Saved{f.Name(), format, quality, m})
	return nil
}

// ImageFile is the path of a file that holds this image (nil: no image).
func ImageFile(m image.Image) string {
	images = append(images, m)
	id := strconv.Itoa(len(images) - 1)
	return imageFile(id)
}

func imageFile(id string) string {
	p := filepath.Join(dir(), id)
	os.WriteFile(p, []byte(imgMagic+id), 0o600)
	return p
}

// NewFile is the path of a file that can be created.
func NewFile(name string) string { return filepath.Join(dir(), name) }

// NoFile is a path that cannot be opened or created.
func NoFile() string { return filepath.Join(dir(), "missing", "file") }

// FullFile can be created but not written.
func FullFile() string { return "/dev/full" }

// SavedImages are the images encoded so far.
func SavedImages() []Saved { return saved }

func dir() string {
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "verif-images-")
	}
	return scratch
}

// Clean removes the scratch files of a native run.
func Clean() {
	images, saved = nil, nil
	if scratch != "" && strings.Contains(scratch, "verif-images-") {
		os.RemoveAll(scratch)
	}
	scratch = ""
}
