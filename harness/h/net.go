package h

import (
	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verifharness/sym"
)

// anyAct is an arbitrary activation: its value and its derivative are unknown functions.
type anyAct[T types.Number] struct{ name string }

func (a anyAct[T]) Activate(x T) T { return sym.Fun1(a.name, x) }
func (a anyAct[T]) Derive(x T) T   { return sym.Fun1(a.name+" derived", x) }

const (
	kInput = iota
	kDense
	kConv
	kDeconv
	kPool
	kUp
	kFlat
	kSub
	kConcat
	kModel // a model used as a layer: what its last layer gives
)

// node is one layer together with its definition: what it computes and how signals flow back.
type node[T types.Number] struct {
	kind      int
	lay       layer.Layer[T]
	pre, pre2 *node[T]
	next      *node[T] // the (last) layer behind this one
	own       *node[T] // the input of a model used as a layer
	shape     []uint
	act       activation.Activation[T]
	nf        int
	kw, kh    int
	sx, sy    int
	dim       int
	from, to  int

	w, b, mw, mb []T // parameters and their last movement
	frozen       bool

	neta, out, sig []T
}

func input[T types.Number](shape ...uint) *node[T] {
	return &node[T]{kind: kInput, lay: layer.NewInput[T](shape...), shape: shape}
}

// inDense is a dense layer that is also the input of the model.
func inDense[T types.Number](ins, outs uint, act activation.Activation[T]) *node[T] {
	in := &node[T]{kind: kInput, shape: []uint{ins}}
	return &node[T]{kind: kDense, lay: layer.NewInDense[T](ins, outs, act), pre: in, shape: []uint{outs}, act: act}
}

func (n *node[T]) then(m *node[T]) *node[T] {
	m.pre = n
	n.next = m
	m.lay.Connect(n.lay)
	return m
}

func (n *node[T]) dense(outs uint, act activation.Activation[T]) *node[T] {
	return n.then(&node[T]{kind: kDense, lay: layer.NewDense[T](outs, act), shape: []uint{outs}, act: act})
}

func (n *node[T]) conv(nf, kw, kh, sx, sy uint, act activation.Activation[T]) *node[T] {
	s := n.shape
	return n.then(&node[T]{kind: kConv, lay: layer.NewConv2Dwh[T](nf, kw, kh, sx, sy, act), act: act,
		nf: int(nf), kw: int(kw), kh: int(kh), sx: int(sx), sy: int(sy),
		shape: []uint{nf, (s[1]-kw)/sx + 1, (s[2]-kh)/sy + 1}})
}

func (n *node[T]) deconv(nf, kw, kh, sx, sy uint, act activation.Activation[T]) *node[T] {
	s := n.shape
	return n.then(&node[T]{kind: kDeconv, lay: layer.NewDeconv2Dwh[T](nf, kw, kh, sx, sy, act), act: act,
		nf: int(nf), kw: int(kw), kh: int(kh), sx: int(sx), sy: int(sy),
		shape: []uint{nf, (s[1]-1)*sx + kw, (s[2]-1)*sy + kh}})
}

func (n *node[T]) pool(sx, sy uint) *node[T] {
	s := n.shape
	return n.then(&node[T]{kind: kPool, lay: layer.NewMaxPool2Dxy[T](sx, sy), sx: int(sx), sy: int(sy),
		shape: []uint{s[0], (s[1] + sx - 1) / sx, (s[2] + sy - 1) / sy}})
}

func (n *node[T]) up(sx, sy uint) *node[T] {
	s := n.shape
	return n.then(&node[T]{kind: kUp, lay: layer.NewUpSampling2Dxy[T](sx, sy), sx: int(sx), sy: int(sy),
		shape: []uint{s[0], s[1] * sx, s[2] * sy}})
}

func (n *node[T]) flat() *node[T] {
	return n.then(&node[T]{kind: kFlat, lay: layer.NewFlatten[T](), shape: []uint{uint(prod(n.shape))}})
}

func (n *node[T]) sub(dim, from, to uint) *node[T] {
	s := cloneU(n.shape)
	s[dim] = to - from
	return n.then(&node[T]{kind: kSub, lay: layer.NewSubTensor[T](dim, from, to), shape: s,
		dim: int(dim), from: int(from), to: int(to)})
}

func join[T types.Number](a, b *node[T], dim uint) *node[T] {
	s := cloneU(a.shape)
	s[dim] += b.shape[dim]
	return &node[T]{kind: kConcat, lay: layer.NewConcat[T](a.lay, b.lay, dim), pre: a, pre2: b, shape: s, dim: int(dim)}
}

// nest puts a model of the network inner, which starts with an input, behind n as one layer.
func (n *node[T]) nest(inner *node[T]) *node[T] {
	m := nested(inner, modelOf(inner))
	m.lay.Connect(n.lay)
	m.own.pre = n
	return m
}

// nested is a model of the network inner used as one layer.
func nested[T types.Number](inner *node[T], sub *model.Model[T]) *node[T] {
	return &node[T]{kind: kModel, lay: sub, pre: inner, own: inner.first(), shape: inner.shape}
}

// all lists the nodes below and including n, each once, inputs first.
func (n *node[T]) all() []*node[T] { return n.collect(nil) }

func (n *node[T]) collect(l []*node[T]) []*node[T] {
	if n == nil {
		return l
	}
	for _, m := range l {
		if m == n {
			return l
		}
	}
	l = n.pre.collect(l)
	l = n.pre2.collect(l)
	return append(l, n)
}

// first is the input of a network.
func (n *node[T]) first() *node[T] {
	for n.pre != nil {
		n = n.pre
	}
	return n
}

func (n *node[T]) hasParams() bool { return n.kind == kDense || n.kind == kConv || n.kind == kDeconv }

// params are the weight and bias tensors of the real layer.
func (n *node[T]) params() (w, b tensor.Tensor[T]) {
	switch l := n.lay.(type) {
	case *layer.Dense[T]:
		return l.Weights, l.Bias
	case *layer.Conv2D[T]:
		return l.Weights, l.Bias
	case *layer.Deconv2D[T]:
		return l.Weights, l.Bias
	}
	return nil, nil
}

// modelOf makes the model of a network.
func modelOf[T types.Number](n *node[T]) *model.Model[T] {
	f := n
	for g := n; g != nil; g = g.pre {
		if g.lay != nil {
			f = g
		}
		if g.kind == kModel && g.own.pre == nil {
			break
		}
	}
	m, err := model.FromInOut[T](f.lay, n.lay)
	must(err, "making the model")
	return m
}

// compiled makes the model of a network and gives all of its parameters arbitrary values.
func compiled[T types.Number](n *node[T]) *model.Model[T] {
	m := modelOf(n)
	must(m.Compile(), "compiling the model")
	n.randomise()
	return m
}

func (n *node[T]) randomise() {
	for _, l := range n.all() {
		if l.hasParams() {
			l.setParams()
		}
	}
}

func (n *node[T]) setParams() {
	w, b := n.params()
	sym.Assert(w != nil && b != nil, "a compiled layer has weights and biases")
	n.w = nums[T]("weight", len(w.GetOperands()))
	n.b = nums[T]("bias", len(b.GetOperands()))
	n.mw, n.mb = make([]T, len(n.w)), make([]T, len(n.b))
	n.storeParams()
}

// renew gives all parameters new arbitrary values; what they last moved by stays.
func (n *node[T]) renew() {
	for _, l := range n.all() {
		if l.hasParams() {
			l.w, l.b = nums[T]("new weight", len(l.w)), nums[T]("new bias", len(l.b))
			l.storeParams()
		}
	}
}

// storeParams writes the definition's parameters into the real layer.
func (n *node[T]) storeParams() {
	w, b := n.params()
	for i, o := range w.GetOperands() {
		o.Value = n.w[i]
	}
	for i, o := range b.GetOperands() {
		o.Value = n.b[i]
	}
}

// sameParams: the real layers hold exactly the parameters of the definition.
func (n *node[T]) sameParams(what string) {
	for _, l := range n.all() {
		if l.hasParams() {
			w, b := l.params()
			gw, gb := w.GetData(), b.GetData()
			sym.Assert(len(gw) == len(l.w) && len(gb) == len(l.b), what+": number of parameters")
			for i := range gw {
				sym.Assert(sym.Same(gw[i], l.w[i]), what+": weights")
			}
			for i := range gb {
				sym.Assert(sym.Same(gb[i], l.b[i]), what+": biases")
			}
		}
	}
}

func at3(s []uint, a, b, c int) int { return (a*int(s[1])+b)*int(s[2]) + c }

// predict is what the network's definition gives for this input.
func (n *node[T]) predict(x []T) []T {
	for _, l := range n.all() {
		l.forward(x)
	}
	return n.out
}

func (n *node[T]) activate() {
	n.out = make([]T, len(n.neta))
	for i := range n.neta {
		n.out[i] = n.act.Activate(n.neta[i])
	}
}

func (n *node[T]) forward(x []T) {
	switch n.kind {
	case kInput:
		n.out = x
		if n.pre != nil {
			n.out = n.pre.out
		}
	case kDense:
		in := n.pre.out
		n.neta = make([]T, len(n.b))
		for i := range n.neta {
			n.neta[i] = n.b[i]
			for j := range in {
				n.neta[i] += n.w[i*len(in)+j] * in[j]
			}
		}
		n.activate()
	case kConv:
		in, si, so := n.pre.out, n.pre.shape, n.shape
		n.neta = make([]T, prod(so))
		for f := 0; f < n.nf; f++ {
			for x := 0; x < int(so[1]); x++ {
				for y := 0; y < int(so[2]); y++ {
					p := at3(so, f, x, y)
					n.neta[p] = n.b[p]
					for c := 0; c < int(si[0]); c++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								n.neta[p] += n.w[n.wAt(f, c, i, j)] * in[at3(si, c, x*n.sx+i, y*n.sy+j)]
							}
						}
					}
				}
			}
		}
		n.activate()
	case kDeconv:
		in, si, so := n.pre.out, n.pre.shape, n.shape
		n.neta = clone(n.b)
		for f := 0; f < n.nf; f++ {
			for c := 0; c < int(si[0]); c++ {
				for x := 0; x < int(si[1]); x++ {
					for y := 0; y < int(si[2]); y++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								n.neta[at3(so, f, x*n.sx+i, y*n.sy+j)] += n.w[n.wAt(f, c, i, j)] * in[at3(si, c, x, y)]
							}
						}
					}
				}
			}
		}
		n.activate()
	case kPool:
		in, si, so := n.pre.out, n.pre.shape, n.shape
		n.out = make([]T, prod(so))
		seen := make([]bool, prod(so))
		for f := 0; f < int(si[0]); f++ {
			for x := 0; x < int(si[1]); x++ {
				for y := 0; y < int(si[2]); y++ {
					p, v := at3(so, f, x/n.sx, y/n.sy), in[at3(si, f, x, y)]
					if !seen[p] || v > n.out[p] {
						n.out[p] = v
					}
					seen[p] = true
				}
			}
		}
	case kUp:
		in, si, so := n.pre.out, n.pre.shape, n.shape
		n.out = make([]T, prod(so))
		for f := 0; f < int(so[0]); f++ {
			for x := 0; x < int(so[1]); x++ {
				for y := 0; y < int(so[2]); y++ {
					n.out[at3(so, f, x, y)] = in[at3(si, f, x/n.sx, y/n.sy)]
				}
			}
		}
	case kFlat, kModel:
		n.out = n.pre.out
	case kSub:
		n.out = make([]T, prod(n.shape))
		for p := range n.out {
			idx := unflat(n.shape, p)
			idx[n.dim] += uint(n.from)
			n.out[p] = n.pre.out[flat(n.pre.shape, idx)]
		}
	case kConcat:
		n.out = make([]T, prod(n.shape))
		for p := range n.out {
			idx := unflat(n.shape, p)
			if k := n.pre.shape[n.dim]; idx[n.dim] < k {
				n.out[p] = n.pre.out[flat(n.pre.shape, idx)]
			} else {
				idx[n.dim] -= k
				n.out[p] = n.pre2.out[flat(n.pre2.shape, idx)]
			}
		}
	}
}

func (n *node[T]) wAt(f, c, i, j int) int {
	return ((f*int(n.pre.shape[0])+c)*n.kw+i)*n.kh + j
}

// train is one step of gradient descent with momentum, by definition. It returns the loss.
func (n *node[T]) train(x, target []T, alpha, momentum T) T {
	got := n.predict(x)
	all := n.all()
	for _, l := range all {
		l.sig = make([]T, prod(l.shape))
	}
	loss := T(0)
	for i := range got {
		d := target[i] - got[i]
		n.sig[i] = d
		if d < 0 {
			d = -d
		}
		loss += d
	}
	// the signal at the output counts as that of the last parameters' pre-activation
	for i := len(all) - 1; i >= 0; i-- {
		all[i].backward(n.isLast(all[i]))
	}
	for _, l := range all {
		if l.hasParams() && !l.frozen {
			l.step(alpha, momentum)
		}
	}
	return loss
}

// isLast: l is the last layer with an activation on some way to the output n.
func (n *node[T]) isLast(l *node[T]) bool {
	if n == l {
		return true
	}
	switch n.kind {
	case kPool, kUp, kFlat, kSub, kModel:
		return n.pre.isLast(l)
	case kInput:
		return n.pre != nil && n.pre.isLast(l)
	case kConcat:
		return n.pre.isLast(l) || n.pre2.isLast(l)
	}
	return false
}

// backward turns the derivative with respect to the outputs into one with respect to the inputs.
func (n *node[T]) backward(last bool) {
	if n.hasParams() && !last {
		for i := range n.sig {
			n.sig[i] *= n.act.Derive(n.neta[i])
		}
	}
	switch n.kind {
	case kDense:
		in := n.pre
		for j := range in.sig {
			for i := range n.sig {
				in.sig[j] += n.w[i*len(in.sig)+j] * n.sig[i]
			}
		}
	case kConv:
		in, si, so := n.pre.sig, n.pre.shape, n.shape
		for f := 0; f < n.nf; f++ {
			for x := 0; x < int(so[1]); x++ {
				for y := 0; y < int(so[2]); y++ {
					for c := 0; c < int(si[0]); c++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								in[at3(si, c, x*n.sx+i, y*n.sy+j)] += n.w[n.wAt(f, c, i, j)] * n.sig[at3(so, f, x, y)]
							}
						}
					}
				}
			}
		}
	case kDeconv:
		in, si, so := n.pre.sig, n.pre.shape, n.shape
		for f := 0; f < n.nf; f++ {
			for c := 0; c < int(si[0]); c++ {
				for x := 0; x < int(si[1]); x++ {
					for y := 0; y < int(si[2]); y++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								in[at3(si, c, x, y)] += n.w[n.wAt(f, c, i, j)] * n.sig[at3(so, f, x*n.sx+i, y*n.sy+j)]
							}
						}
					}
				}
			}
		}
	case kPool:
		si, so := n.pre.shape, n.shape
		for f := 0; f < int(si[0]); f++ {
			for x := 0; x < int(si[1]); x++ {
				for y := 0; y < int(si[2]); y++ {
					p, q := at3(so, f, x/n.sx, y/n.sy), at3(si, f, x, y)
					if n.pre.out[q] == n.out[p] {
						n.pre.sig[q] += n.sig[p]
					}
				}
			}
		}
	case kUp:
		si, so := n.pre.shape, n.shape
		for f := 0; f < int(so[0]); f++ {
			for x := 0; x < int(so[1]); x++ {
				for y := 0; y < int(so[2]); y++ {
					n.pre.sig[at3(si, f, x/n.sx, y/n.sy)] += n.sig[at3(so, f, x, y)]
				}
			}
		}
	case kInput, kFlat, kModel:
		if n.pre != nil {
			for i := range n.sig {
				n.pre.sig[i] += n.sig[i]
			}
		}
	case kSub:
		for p := range n.sig {
			idx := unflat(n.shape, p)
			idx[n.dim] += uint(n.from)
			n.pre.sig[flat(n.pre.shape, idx)] += n.sig[p]
		}
	case kConcat:
		for p := range n.sig {
			idx := unflat(n.shape, p)
			if k := n.pre.shape[n.dim]; idx[n.dim] < k {
				n.pre.sig[flat(n.pre.shape, idx)] += n.sig[p]
			} else {
				idx[n.dim] -= k
				n.pre2.sig[flat(n.pre2.shape, idx)] += n.sig[p]
			}
		}
	}
}

// step moves the parameters.
func (n *node[T]) step(alpha, momentum T) {
	dw := make([]T, len(n.w))
	in := n.pre.out
	switch n.kind {
	case kDense:
		for i := range n.sig {
			for j := range in {
				dw[i*len(in)+j] = n.sig[i] * in[j]
			}
		}
	case kConv:
		si, so := n.pre.shape, n.shape
		for f := 0; f < n.nf; f++ {
			for x := 0; x < int(so[1]); x++ {
				for y := 0; y < int(so[2]); y++ {
					for c := 0; c < int(si[0]); c++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								dw[n.wAt(f, c, i, j)] += in[at3(si, c, x*n.sx+i, y*n.sy+j)] * n.sig[at3(so, f, x, y)]
							}
						}
					}
				}
			}
		}
	case kDeconv:
		si, so := n.pre.shape, n.shape
		for f := 0; f < n.nf; f++ {
			for c := 0; c < int(si[0]); c++ {
				for x := 0; x < int(si[1]); x++ {
					for y := 0; y < int(si[2]); y++ {
						for i := 0; i < n.kw; i++ {
							for j := 0; j < n.kh; j++ {
								dw[n.wAt(f, c, i, j)] += in[at3(si, c, x, y)] * n.sig[at3(so, f, x*n.sx+i, y*n.sy+j)]
							}
						}
					}
				}
			}
		}
	}
	for i := range n.w {
		n.mw[i] = alpha*dw[i] + momentum*n.mw[i]
		n.w[i] += n.mw[i]
	}
	for i := range n.b {
		n.mb[i] = alpha*n.sig[i] + momentum*n.mb[i]
		n.b[i] += n.mb[i]
	}
}

// predicts: the model predicts what the definition gives, for an arbitrary input.
func predicts[T types.Number](m *model.Model[T], n *node[T], what string) {
	x, v := mat[T]("input", n.first().shape...)
	got, err := m.Predict(x)
	sym.Assert(err == nil, what+": predicting succeeds")
	holds[T](got, n.shape, n.predict(v), what)
	holds[T](x, n.first().shape, v, what+": the input afterwards")
}

// trains: one training step on an arbitrary sample does what the definition says.
func trains[T types.Number](m *model.Model[T], n *node[T], alpha, momentum T, what string) {
	x, v := mat[T]("input", n.first().shape...)
	y, t := mat[T]("target", n.shape...)
	got, err := m.TrainOne(x, y, alpha, momentum)
	sym.Assert(err == nil, what+": training succeeds")
	want := n.train(v, t, alpha, momentum)
	n.sameParams(what)
	sym.Assert(sym.Same(got, want), what+": loss")
}
