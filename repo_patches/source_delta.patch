From 11dac5c3c312d31a750a08053b4cb30d3376f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 01/33] fix: refuse an index of the wrong arity with an error
 instead of a panic

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From 283558ed814f77d6b0adb83617b325549827b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 02/33] fix: pad the result of TensorMat.Reshape to the new
 size

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From 4344319ad1883428fcd738630722bb5850f2803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 03/33] fix: extended sub-tensors fill from the first position
 past the source

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 0164d60bd1c56bcc0c5e60f20eb1d2ba9445b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 04/33] fix: refuse to concat tensors that differ outside the
 joined dimension

---
 tensor/concat.go | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..c3fdac9 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -37,21 +37,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = concatShapeErr(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
@@ -89,7 +77,36 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 	return nil
 }
 
+// concatShapeErr reports why tensors with these shapes can not be joined at dim.
+func concatShapeErr(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if uint(i) != dim && a[i] != b[i] {
+			return errors.FmtNeuralError("Different shapes %d and %d at %d", a[i], b[i], i)
+		}
+	}
+	return nil
+}
+
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := concatShapeErr(p.Shape, m.Shape, dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From 07042894ad06c86704b124a816c5ef67038fcd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:53 +0000
Subject: [PATCH 05/33] fix: TensorMat.Concat returns an independent tensor

---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index c3fdac9..bc6d34b 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -138,14 +138,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From f45228265e177f43390492e9dcd56d89b06ec41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:53 +0000
Subject: [PATCH 06/33] fix: refuse dot products along dimensions the tensors
 do not have

---
 tensor/dot_product.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..9e55c9c 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimension %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -138,7 +148,7 @@ func (p *TensorDotProduct[T]) buildLastDim(
 
 		a, err := p.A.GetOperand(indA...)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		b, err := p.B.GetOperand(indB...)
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimension %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -290,7 +310,7 @@ func (p *TensorMat[T]) dotLastDim(
 
 		a, err := p.GetOperand(indA...)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		b, err := m.GetOperand(indB...)
-- 
2.43.0


From 546d16ef4b52af2f2e66eb9e1fcebb9509fa91ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 07/33] fix: tensors keep their own copy of the shape they were
 made with

---
 tensor/constructor.go | 2 +-
 tensor/reshape.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..e2a610d 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -10,7 +10,7 @@ import (
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: tools.GetIndexMul(shape),
 	}
 }
diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..5c2456e 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -15,7 +15,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -74,7 +74,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 	}
 
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: mulIndex,
 		Operands: ops,
 	}
-- 
2.43.0


From c552463cbb2057c534021a8d56ac95a6b889ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 08/33] fix: flatten a deferred tensor to the size it has when
 it is built

---
 tensor/reshape.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index 5c2456e..e74904d 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T       Tensor[T]
+	flatten bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:       t,
+		flatten: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +43,10 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flatten {
+		// the size of a deferred tensor is known once it is built
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From ed7b12f06c92cceb34071e1a9e570ffce8f5d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:55 +0000
Subject: [PATCH 09/33] fix: SaveFull and LoadFull use fixed-size integers and
 allocate the loaded elements

---
 tensor/tensor_mat.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..daa6bf6 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,7 +182,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
@@ -190,16 +190,19 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	p.Shape = make([]uint, dims)
 	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		p.Shape[i] = uint(s)
 	}
 
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
 	for i := range p.Operands {
+		p.Operands[i] = &number.Scalar[T]{}
 		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
 		if err != nil {
 			return err
-- 
2.43.0


From 0bcf3598879739aa606760f4364445e01176803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:55 +0000
Subject: [PATCH 10/33] fix: save and load tensors with int elements

---
 tensor/tensor_mat.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index daa6bf6..2fbd299 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -161,6 +161,27 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 	return p
 }
 
+// writeValue and readValue store an int as 64 bits, as its own size is not fixed.
+func writeValue[T types.Number](w io.Writer, v T) error {
+	if i, ok := any(v).(int); ok {
+		return binary.Write(w, binary.LittleEndian, int64(i))
+	}
+	return binary.Write(w, binary.LittleEndian, v)
+}
+
+func readValue[T types.Number](r io.Reader, v *T) error {
+	if _, ok := any(v).(*int); ok {
+		var i int64
+		err := binary.Read(r, binary.LittleEndian, &i)
+		if err != nil {
+			return err
+		}
+		*v = T(i)
+		return nil
+	}
+	return binary.Read(r, binary.LittleEndian, v)
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
@@ -173,7 +194,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 		}
 	}
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -203,7 +224,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	for i := range p.Operands {
 		p.Operands[i] = &number.Scalar[T]{}
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
@@ -214,7 +235,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -224,7 +245,7 @@ func (p *TensorMat[T]) Save(w io.Writer) error {
 
 func (p *TensorMat[T]) Load(r io.Reader) error {
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a86ccf627a80d6f1d4c06adbc7cf7bcf379df084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:28 +0000
Subject: [PATCH 11/33] fix: the derivative of ELU is 1 for non-negative inputs

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 990f7e81832d5d6f9419989c3d96192fb286714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:29 +0000
Subject: [PATCH 12/33] fix: compute the derivative of GELU analytically

---
 activation/gelu.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..f4de0e1 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -13,11 +13,9 @@ func (GELU[T]) Activate(n T) T {
 	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))
 }
 
-func (p GELU[T]) Derive(x T) T {
-	h := 0.000001
-	H := T(h)
-	if H == 0 {
-		H++
-	}
-	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
+func (GELU[T]) Derive(n T) T {
+	x := float64(n)
+	c := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	return T(0.5*(1+t) + 0.5*x*(1-t*t)*c*(1+3*0.044715*math.Pow(x, 2)))
 }
-- 
2.43.0


From 34818189f52f33bb704064fa742550d798728ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:54 +0000
Subject: [PATCH 13/33] fix: backpropagate convolutions whose width and height
 differ

---
 layer/conv2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..9291bf2 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,9 +259,9 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
-							if ix < inShape[1] || iy < inShape[2] {
+							if ix < inShape[1] && iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
 								if err != nil {
 									return err
-- 
2.43.0


From e03d2ddb15d9c5839703e4e3fc607fa72cfeda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:54 +0000
Subject: [PATCH 14/33] fix: NewUpSampling2Dxy makes an up-sampling layer

---
 layer/up_sampling_2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..a2a6a6a 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -27,7 +27,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
+	l := &UpSampling2D[T]{}
 	l.Type = "MaxPool"
 	l.SX = sx
 	l.SY = sy
-- 
2.43.0


From a171d26835ee77ca1d73375a72940af32f8e9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:54 +0000
Subject: [PATCH 15/33] fix: max-pooling covers the border and makes no empty
 windows

---
 layer/max_pool_2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..fa1e60f 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -69,8 +69,8 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From 1d08d19bc16246f34d2b27b3d038526553691326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 16/33] fix: train, save and load the branches of a concat
 layer

---
 layer/concat.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..e6a5356 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -86,7 +86,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
@@ -135,6 +135,42 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From 63e35c6678cc0d4165047edb3066babd77808c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 17/33] fix: Model.SetTrainable reaches the first layer and
 joined branches

---
 layer/concat.go      |  5 +++++
 model/model_layer.go | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index e6a5356..172062a 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -30,6 +30,11 @@ func NewConcat[T types.Number](l1, l2 Layer[T], dim uint) Layer[T] {
 	return l
 }
 
+// GetBranches returns the layers joined by this layer.
+func (p *Concat[T]) GetBranches() []Layer[T] {
+	return []Layer[T]{p.l1, p.l2}
+}
+
 func (p *Concat[T]) Build() (uint, error) {
 	if p.CheckB() {
 		return p.Index, nil
diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..77e1dc9 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,9 +38,20 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
+	p.setTrainable(p.LastLayer, t)
+}
+
+func (p *Model[T]) setTrainable(cur layer.Layer[T], t bool) {
+	for cur != nil {
 		cur.SetTrainable(t)
+		if cur == p.FirstLayer {
+			return
+		}
+		if c, ok := cur.(*layer.Concat[T]); ok {
+			for _, b := range c.GetBranches() {
+				p.setTrainable(b, t)
+			}
+		}
 		cur = cur.GetPrelayer()
 	}
 }
-- 
2.43.0


From f29be183cc1cc42ca6ade5a6b69f68fc8cd3fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 18/33] fix: training a model that was not compiled compiles it
 first

---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index b848c09..e5cd365 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,6 +186,12 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphFeedForward == nil {
+		err := p.Compile()
+		if err != nil {
+			return err
+		}
+	}
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-- 
2.43.0


From 4eec3ea24e119667b79a747d847a084fe1517259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:56 +0000
Subject: [PATCH 19/33] fix: a flatten layer does not count twice as a user of
 its input

---
 layer/flatten.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..9e18469 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,7 +47,7 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
+	p.PreLayer.GetRef().Value += p.Ref.Value - 1
 	p.Ref = p.PreLayer.GetRef()
 
 	err = p.Output.BuildGraph(ctx)
-- 
2.43.0


From a1a0e0f4d1aacac90a2efefad45cfd855a37be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:56 +0000
Subject: [PATCH 20/33] fix: remember the last update of each parameter for the
 momentum

---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 11 ++++++++---
 layer/dense.go    | 10 ++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 9291bf2..0f98adc 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -252,6 +252,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					last, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(f, i, kx, ky)
 					if err != nil {
 						return err
@@ -291,9 +295,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: last,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..3e9ab1e 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -286,6 +286,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					last, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(outF, inF, kx, ky)
 					if err != nil {
 						return err
@@ -327,9 +331,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, mw},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: mw,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: last,
+						A:      dw,
+						B:      mw,
 					})
 				}
 			}
diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From a05daa695d9c86f9285e1b7c185950024bdd6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:57 +0000
Subject: [PATCH 21/33] fix: refuse convolution kernels larger than their input

---
 layer/conv2d.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 0f98adc..5180e44 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,13 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if inShape[1] < p.KW || inShape[2] < p.KH || p.SX == 0 || p.SY == 0 {
+		return p.Error(fmt.Sprintf(
+			"Kernel (%d, %d) with stride (%d, %d) does not fit in input %s",
+			p.KW, p.KH, p.SX, p.SY,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From a5289af7b08b847c7ce3cc9ccf04507f12ef7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 22/33] fix: SmoothScale repeats the border and keeps the
 number of channels

---
 img/smooth_scale.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..351a215 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -66,7 +66,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
@@ -79,21 +79,31 @@ func SmoothScale[T types.Number](
 			dx := float64(x)*scaleX - float64(srcX)
 			dy := float64(y)*scaleY - float64(srcY)
 
+			// Los píxeles vecinos, sin salir del borde
+			nextX := srcX + 1
+			if nextX >= shape[1] {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= shape[2] {
+				nextY = srcY
+			}
+
 			for d := uint(0); d < shape[0]; d++ {
 				// Obtiene los píxeles vecinos
 				p1, err := img.Get(d, srcX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From ea24a3170103c7385274bffc4af3c1c407b2f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 23/33] fix: load images whose bounds do not start at the
 origin

---
 img/image.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..eb7b861 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(min.X+i, min.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(min.X+X, min.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -108,10 +111,10 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p1 := img.At(min.X+srcX, min.Y+srcY)
+			p2 := img.At(min.X+srcX+1, min.Y+srcY)
+			p3 := img.At(min.X+srcX, min.Y+srcY+1)
+			p4 := img.At(min.X+srcX+1, min.Y+srcY+1)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From b153a2a64b1afe59169c0a085accaa83cd48e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 24/33] fix: LoadSmoothScaled repeats the border instead of
 mixing in black

---
 img/image.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/img/image.go b/img/image.go
index eb7b861..03cfea1 100644
--- a/img/image.go
+++ b/img/image.go
@@ -110,11 +110,21 @@ func LoadSmoothScaled[T types.Number](
 			srcX := int(float64(x) * scaleX)
 			srcY := int(float64(y) * scaleY)
 
+			// Los píxeles vecinos, sin salir del borde
+			nextX := srcX + 1
+			if nextX >= size.X {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= size.Y {
+				nextY = srcY
+			}
+
 			// Obtiene los píxeles vecinos
 			p1 := img.At(min.X+srcX, min.Y+srcY)
-			p2 := img.At(min.X+srcX+1, min.Y+srcY)
-			p3 := img.At(min.X+srcX, min.Y+srcY+1)
-			p4 := img.At(min.X+srcX+1, min.Y+srcY+1)
+			p2 := img.At(min.X+nextX, min.Y+srcY)
+			p3 := img.At(min.X+srcX, min.Y+nextY)
+			p4 := img.At(min.X+nextX, min.Y+nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From 35303ba54a3b646b6b01e4a53db921aa131e7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 25/33] fix: compare scalars of different kinds at full
 precision

A half or single scalar rounded the other operand to single precision before
comparing, so F32(1).Cmp(F64(1+1e-12)) was 'equal' while the reverse was 'greater'.
---
 scalar/f16.go | 4 ++--
 scalar/f32.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scalar/f16.go b/scalar/f16.go
index b0287c4..813a261 100644
--- a/scalar/f16.go
+++ b/scalar/f16.go
@@ -75,10 +75,10 @@ func (p *F16) SelfDiv(v Scalar) {
 }
 
 func (p *F16) Cmp(v Scalar) CmpRes {
-	if p.G32() < v.G32() {
+	if p.G64() < v.G64() {
 		return CmpL
 	}
-	if p.G32() > v.G32() {
+	if p.G64() > v.G64() {
 		return CmpG
 	}
 	return CmpE
diff --git a/scalar/f32.go b/scalar/f32.go
index faae9c9..1782965 100644
--- a/scalar/f32.go
+++ b/scalar/f32.go
@@ -40,10 +40,10 @@ func (p *F32) SelfMul(v Scalar) { p.S32(p.Value * v.G32()) }
 func (p *F32) SelfDiv(v Scalar) { p.S32(p.Value / v.G32()) }
 
 func (p *F32) Cmp(v Scalar) CmpRes {
-	if p.G32() < v.G32() {
+	if p.G64() < v.G64() {
 		return CmpL
 	}
-	if p.G32() > v.G32() {
+	if p.G64() > v.G64() {
 		return CmpG
 	}
 	return CmpE
-- 
2.43.0


From ae6ffeb2472ff68e7e60dd7e67eda7dff4627358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:52 +0000
Subject: [PATCH 26/33] fix: an input layer inside a network does not count as
 a user of the layer before it

---
 layer/input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..9c632e3 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -34,7 +34,8 @@ func (p *Input[T]) Build() (uint, error) {
 	}
 
 	if p.PreLayer != nil {
-		p.PreLayer.GetRef().Value += p.Ref.Value
+		// only the users of this layer use the previous one, not this layer itself
+		p.PreLayer.GetRef().Value += p.Ref.Value - 1
 		p.Ref = p.PreLayer.GetRef()
 		// p.Activation = p.PreLayer.GetActivation()
 	}
-- 
2.43.0


From a4abb544a4d56509b3a9930b0818e8cb4db63eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:46 +0000
Subject: [PATCH 27/33] fix: the output of a part of a combined model is used
 by the next part only

---
 model/model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/model.go b/model/model.go
index e5cd365..d60c659 100644
--- a/model/model.go
+++ b/model/model.go
@@ -63,6 +63,10 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
 			models[i].Compile()
+			if i < len(models)-1 {
+				// its output is used by the next model only
+				models[i].LastLayer.GetRef().Value--
+			}
 		}
 	}
 
-- 
2.43.0


From dd32a6559eed2a8bb8f3d325be2e57bf7e1fbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:56 +0000
Subject: [PATCH 28/33] fix: compiling a model again emptied its graphs

---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index d60c659..b236251 100644
--- a/model/model.go
+++ b/model/model.go
@@ -154,6 +154,9 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.GraphFeedForward != nil {
+		return nil
+	}
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -190,6 +193,9 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
 	if p.GraphFeedForward == nil {
 		err := p.Compile()
 		if err != nil {
-- 
2.43.0


From a1aa612bb8342dae7758220bed7c62c1e771d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:38 +0000
Subject: [PATCH 29/33] fix: read a layer's number after its previous layers
 are built

The order of reading p.Index and calling p.PreBuild() in one return
statement is not specified.
---
 layer/conv2d.go   | 3 ++-
 layer/deconv2d.go | 3 ++-
 layer/dense.go    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 5180e44..a85efc7 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -60,7 +60,8 @@ func (p *Conv2D[T]) Build() (uint, error) {
 		return p.Index, nil
 	}
 
-	return p.Index, p.PreBuild()
+	err := p.PreBuild()
+	return p.Index, err
 }
 
 func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 3e9ab1e..aa792d5 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -60,7 +60,8 @@ func (p *Deconv2D[T]) Build() (uint, error) {
 		return p.Index, nil
 	}
 
-	return p.Index, p.PreBuild()
+	err := p.PreBuild()
+	return p.Index, err
 }
 
 func (p *Deconv2D[T]) BuildFeedforward(ctx *context.Context) error {
diff --git a/layer/dense.go b/layer/dense.go
index 2e5c7cb..613c56f 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -44,7 +44,8 @@ func (p *Dense[T]) Build() (uint, error) {
 		return p.Index, nil
 	}
 
-	return p.Index, p.PreBuild()
+	err := p.PreBuild()
+	return p.Index, err
 }
 
 func (p *Dense[T]) BuildFeedforward(ctx *context.Context) error {
-- 
2.43.0


From 068962d362539fa9581a52861a0a01fafb6c01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:38 +0000
Subject: [PATCH 30/33] fix: list each layer of a model once in its text

Layers below several branches were listed once per branch.
---
 layer/base.go   | 1 +
 layer/concat.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..1df053d 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -242,6 +242,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index 172062a..f6c730f 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -184,6 +184,11 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
+
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From 0f5a8b4cd04c5b3c20418baed2e27677d8ac563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 31/33] fix: print models with an input layer inside the
 network

The output of such a layer was never set, and printing panicked.
---
 layer/input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 9c632e3..6781084 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -53,7 +53,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0


From c9c2138051c9fc3d04ff89fc2e662f024f8d9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 32/33] fix: name input, sub-tensor, up-sampling and transposed
 convolution layers in their text

---
 layer/deconv2d.go       | 4 ++--
 layer/input.go          | 1 +
 layer/sub_tensor.go     | 1 +
 layer/up_sampling_2d.go | 4 ++--
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index aa792d5..2bf9414 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -26,7 +26,7 @@ func NewDeconv2D[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelSize
@@ -43,7 +43,7 @@ func NewDeconv2Dwh[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelWidth
diff --git a/layer/input.go b/layer/input.go
index 6781084..1962175 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -15,6 +15,7 @@ type Input[T types.Number] struct {
 func NewInput[T types.Number](shape ...uint) Layer[T] {
 	in := &Input[T]{
 		Base: Base[T]{
+			Type:       "Input",
 			Input:      tensor.NewZeros[T](shape...),
 			Dif:        tensor.NewZeros[T](shape...),
 			Activation: activation.Linear[T]{},
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 6fd6b5d..7469f76 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -20,6 +20,7 @@ func NewSubTensor[T types.Number](dim, from, to uint) Layer[T] {
 		from: from,
 		to:   to,
 	}
+	l.Type = "SubTensor"
 
 	return l
 }
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index a2a6a6a..fd9469e 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -19,7 +19,7 @@ type UpSampling2D[T types.Number] struct {
 
 func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = s
 	l.SY = s
 
@@ -28,7 +28,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = sx
 	l.SY = sy
 
-- 
2.43.0


From fbbe955a2464e63e43df9606fdf6a35dc521421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 33/33] fix: print a double scalar in double precision

---
 scalar/f64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalar/f64.go b/scalar/f64.go
index 8bcf595..a269765 100644
--- a/scalar/f64.go
+++ b/scalar/f64.go
@@ -50,5 +50,5 @@ func (p *F64) Cmp(v Scalar) CmpRes {
 }
 
 func (p *F64) String() string {
-	return fmt.Sprint(p.G32())
+	return fmt.Sprint(p.G64())
 }
-- 
2.43.0

