package h

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"

	"verifharness/sym"
)

func c11Check(v []float64, r tensor.Tensor[float64], shape []uint, what string) {
	sym.Assert(sameShape(r.GetShape(), shape), what+": shape")
	d := r.GetData()
	sum := 0.0
	for i := range d {
		sym.Assert(sym.LE(0, d[i]) && sym.LE(d[i], 1), what+": elements lie between 0 and 1")
		sum += d[i]
	}
	sym.Assert(sym.Same(sum, 1), what+": elements add up to 1")
	for i := range d {
		for j := range d {
			if i != j {
				if v[i] > v[j] {
					sym.Assert(d[i] > d[j], what+": order kept")
				} else {
					sym.Assert(sym.LE(d[i], d[j]), what+": order kept")
				}
			}
		}
	}
}

func c11Input(shape []uint) (*tensor.TensorMat[float64], []float64) {
	a, v := mat[float64]("a", shape...)
	differ := false
	for i := range v {
		sym.Assume(v[i] > -1000000 && v[i] < 1000000)
		if v[i]-v[0] > 0.001 || v[0]-v[i] > 0.001 {
			differ = true
		}
	}
	sym.Assume(differ)
	return a, v
}

func c11(form int, shape []uint) {
	a, v := c11Input(shape)
	switch form {
	case 0:
		c11Check(v, a.SoftMax(), shape, "immediate result")
	case 1:
		t := tensor.SoftMax[float64](a)
		before := sym.Num[float64]("contents before")
		sym.Assume(before > -1000 && before < 1000)
		for i, o := range a.GetOperands() {
			o.Value = before + float64(i%3)
		}
		g := runs(t, "the deferred operation")
		must(a.LoadData(clone(v)), "LoadData")
		g.Exec()
		c11Check(v, t, shape, "deferred result")
		g.Exec()
		e := a.SoftMax()
		for i := range v {
			sym.Assert(sym.Same(e.GetData()[i], t.GetData()[i]), "immediate and deferred results agree")
		}
	case 2:
		m := model.NewModel[float64]().Push(layer.NewInput[float64](shape...)).Push(layer.NewSoftMax[float64]())
		r, err := m.Predict(a)
		must(err, "Predict")
		e := a.SoftMax()
		sym.Assert(sameShape(r.GetShape(), shape), "layer: shape")
		for i := range v {
			sym.Assert(sym.Same(e.GetData()[i], r.GetData()[i]), "immediate result and layer agree")
		}
	}
	holds[float64](a, shape, v, "operand afterwards")
}

const c11Bound = ", float64 over the reals, values within 10^6, not all within 0.001 of the first"

func C11_Immediate2_Real() { sym.Bound("2 elements" + c11Bound); c11(0, []uint{2}) }
func C11_Immediate3_Real() { sym.Bound("3 elements" + c11Bound); c11(0, []uint{3}) }
func C11_Immediate22_Real_Thorough() {
	sym.Bound("2x2 elements" + c11Bound)
	c11(0, []uint{2, 2})
}
func C11_Deferred2_Real() { sym.Bound("1x2 elements" + c11Bound); c11(1, []uint{1, 2}) }
func C11_Deferred3_Real() { sym.Bound("3x1 elements" + c11Bound); c11(1, []uint{3, 1}) }
func C11_Layer3_Real()    { sym.Bound("3 elements" + c11Bound); c11(2, []uint{3}) }
func C11_Layer22_Real()   { sym.Bound("2x2 elements" + c11Bound); c11(2, []uint{2, 2}) }
