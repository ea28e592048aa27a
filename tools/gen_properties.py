#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call per property."""
import json, os
OUT = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Multi-dimensional indexing is row-major, one-to-one and total",
  "For every shape and every index inside it, a tensor stores the element at its row-major position; distinct indices reach distinct elements and the position can be turned back into exactly that index. An index that is out of range in any dimension, or has the wrong number of dimensions, is refused with an error and never with a panic or another element.",
  ["inputs", "configurations"], "all shapes and all index vectors (any 64-bit value, any arity)",
  "The tests look at three literal shapes with one index each and never pass an out-of-range index or a wrong arity.",
  ["tools/tools.go", "tensor/tensor_mat.go"],
  [("GetIndexMul / GetDataSize / GetIndex / ReverseIndex / GetInvertedIndex", "tools/tools.go"), ("GetOperand, Get, Set", "tensor/tensor_mat.go")],
  ["tools.GetIndex", "tools.ReverseIndex", "TensorMat.Get", "TensorMat.Set"],
  [("MulIndex", "row-major strides", "tensor/tensor_mat.go")])

prop("C02", "Tensor storage: constructors, reads, writes, copies",
  "A tensor built from values holds those values in order, padded with zeros or cut to the shape's element count; zeros and ones tensors hold exactly that. Writing one element changes that element only; bulk loads replace every element or refuse with an error and change nothing; a copy and the tensor it came from, and a tensor and the slices used to build or inspect it, never influence each other afterwards. Binding a tensor to another of its shape makes the two share their elements: each shows every later write to the other. Scalars made by the constructors hold 0, 1 or the given value, each on its own.",
  ["inputs", "histories"], "all shapes, all stored values of every supported element type, all written positions, all lengths of the supplied data",
  "No test covers padding, truncation, the frame condition of Set, failed loads or later independence of copies and argument slices.",
  ["tensor/constructor.go", "tensor/tensor_mat.go", "number/constructors.go"],
  [("NewZeros/NewOnes/NewFromValues", "tensor/constructor.go"), ("Get/Set/Bind/LoadData/LoadFromTensor/GetData/Copy/GetShape", "tensor/tensor_mat.go"), ("NewScalar/ScalarZero/ScalarOne", "number/constructors.go")],
  ["TensorMat.GetData", "TensorMat.GetShape", "TensorMat.Get"],
  [("Operands", "element cells", "tensor/tensor_mat.go")])

prop("C03", "Element-wise arithmetic acts on exactly the matching elements",
  "Add, Sub, Mul, Div of two tensors of equal shape, the same four with a scalar, Neg, Abs and Activate give a tensor of that shape whose every element is that operation, in the element type's own arithmetic, on the elements at the same position. The immediate methods and the deferred graph expressions give the same result.",
  ["inputs"], "all shapes and all element values of every supported numeric type (IEEE values including infinities, NaN and signed zero; wrapping integers)",
  "The tests use one shape, one element type and random normal values; they cannot reach rare values or mixed shapes and do not compare the two evaluation styles.",
  ["tensor/oper2.go", "tensor/oper_scalar.go", "tensor/neg.go", "tensor/abs.go", "tensor/activate.go", "tensor/math.go", "operation/add.go", "operation/sub.go", "operation/mul.go", "operation/div.go", "operation/neg.go", "operation/abs.go", "operation/func.go"],
  [("TensorOp2 / TensorOpScalar / TensorNeg / TensorAbs / TensorActivate BuildGraph", "tensor/"), ("Cal of each scalar operation", "operation/")],
  ["Tensor.GetData after Graph.Exec", "TensorMat.Add ... TensorMat.Activate"])

prop("C04", "Reductions cover every element of their group exactly once",
  "Sum, Avg, Max and Min of a tensor reduce all of its elements; the per-dimension forms keep the leading dimensions up to and including the given one and reduce exactly the elements below each kept position. The immediate and the deferred forms agree, and a dimension the tensor does not have is refused with an error.",
  ["inputs"], "all shapes, all dimensions (valid or not), all element values",
  "Tests use one 3-D shape with random values, so position errors that cancel, extreme or equal values, and 1- or 2-D shapes are not distinguished.",
  ["tensor/tensor_math.go", "tensor/dim_math.go", "tools/math.go", "operation/sum.go", "operation/avg.go", "operation/max_min.go"],
  [("TensorTensorMath / TensorDimMath BuildGraph, DSum/DAvg/DMax/DMin", "tensor/dim_math.go"), ("Sum/Avg/Max/Min", "tools/math.go, operation/")],
  ["Tensor.GetData after Graph.Exec", "TensorMat.Sum ... TensorMat.DMin"])

prop("C05", "Rearranging operations move every element to its defined place",
  "Reshape and Flatten keep the flat order (cutting, or padding with zeros, to the new size), Transpose reverses the index order, SubTensor takes the half-open range along one dimension, its extended form fills positions beyond the source with zeros (or the given fill value), and Concat joins along one dimension leaving the others alone. Immediate and deferred forms give the same shape and elements, also when the argument is itself a deferred expression.",
  ["inputs", "configurations"], "all shapes, dimensions, ranges and target shapes; all element values",
  "Each operation has one fixed 3-D shape in the tests; size-changing reshapes, extended ranges and deferred arguments of Flatten are not run at all.",
  ["tensor/reshape.go", "tensor/transpose.go", "tensor/sub_tensor.go", "tensor/concat.go"],
  [("BuildGraph of TensorReshape/TensorTanspose/TensorSubTensor/TensorConcat and the immediate methods", "tensor/")],
  ["Tensor.GetShape", "Tensor.GetData"])

prop("C06", "Dot contracts the chosen dimensions and nothing else",
  "The dot product of two tensors along a dimension of each sums, for every combination of the remaining indices (first operand's, then second operand's), the products over the contracted index; two vectors give a one-element tensor. Without explicit dimensions the first operand's last and the second's next-to-last (only, for a vector) are contracted; immediate and deferred forms agree.",
  ["inputs", "configurations"], "all ranks and shapes with equal contracted extent, all pairs of dimensions, all element values",
  "Tests contract a few literal 1-D/2-D shapes; higher ranks, non-default dimension pairs and non-square shapes are not covered.",
  ["tensor/dot_product.go"],
  [("TensorDotProduct.BuildGraph/buildLastDim/buildVector, DotAt/dotLastDim/DotVector", "tensor/dot_product.go")],
  ["Tensor.GetShape", "Tensor.GetData"])

prop("C07", "Ill-shaped tensor operations are refused with an error",
  "An operation whose operands cannot be combined (different shapes, mismatched or missing dimensions, empty or out-of-range sub-ranges, unequal contracted extents, unequal sizes) reports an error, from the immediate method and from building the graph alike. It never panics and never yields a tensor.",
  ["inputs", "configurations"], "all pairs of shapes and all dimension/range arguments that violate the operation's requirement",
  "The tests contain no failing calls.",
  ["tensor/oper2.go", "tensor/concat.go", "tensor/sub_tensor.go", "tensor/dim_math.go", "tensor/dot_product.go", "tensor/copy.go", "tools/tools.go"],
  [("GetEqShapeErr / Equals", "tools/tools.go"), ("argument checks at the head of each BuildGraph / method", "tensor/")],
  ["error result of graph.NewGraph", "error result of the immediate method"])

prop("C08", "Running a graph evaluates its expression on the current inputs",
  "Executing the graph built from a tensor expression leaves in the result exactly the value of that expression for the operands' current contents, however the expression shares sub-expressions. Executing again after operands were overwritten gives the value for the new contents, and executing twice without a change gives the same value again.",
  ["programs", "histories", "inputs"], "all expressions over the tensor operations up to the stated depth including shared sub-expressions, all operand contents before each execution",
  "The graph test executes one fixed expression once and checks nothing about the values.",
  ["graph/graph.go", "context/context.go", "tensor/tensor_mat.go"],
  [("BuildGraph visited flag and dependency-first order", "tensor/*.go"), ("Context.Push/GetOps", "context/context.go"), ("Graph.Exec", "graph/graph.go")],
  ["Tensor.GetData after each Graph.Exec"],
  [("Operations", "ordered list of scalar operations", "graph/graph.go")])

prop("C09", "Tensor operations leave their operands alone",
  "Computing with a tensor, immediately or through a graph, never changes the contents or shape of the operands. The result of an immediate method is an independent tensor: overwriting it never changes an operand, and overwriting an operand afterwards never changes it.",
  ["inputs", "histories"], "all shapes and contents, all operations, all later writes to the result or to an operand",
  "No test writes to a result or an operand after the operation.",
  ["tensor/concat.go", "tensor/reshape.go", "tensor/transpose.go", "tensor/sub_tensor.go", "tensor/oper2.go", "tensor/oper_scalar.go", "tensor/softmax.go"],
  [("fresh cells allocated by every immediate method", "tensor/*.go"), ("GetShape/GetMulIndex return copies", "tensor/tensor_mat.go")],
  ["TensorMat.GetData of operands and result"])

prop("C10", "Copy and fill targets receive exactly the source, nothing else changes",
  "Copying or transferring one tensor to another makes every element of the target equal to the source element at the same flat position, and filling sets every element to the given scalar, when and each time the graph is executed and not before. The source keeps its contents, and tensors of different size are refused with an error.",
  ["inputs", "histories"], "all shapes, contents and later changes of the source or scalar between executions",
  "Tests copy and fill one random tensor once.",
  ["tensor/copy.go", "tensor/fill.go", "operation/set.go"],
  [("TensorCopy.BuildGraph, Transfer, TensorFill.BuildGraph, Fill, FillData", "tensor/copy.go, tensor/fill.go")],
  ["GetData of source and target"])

prop("C11", "SoftMax yields a distribution that preserves order",
  "For an input whose elements are not all equal, the SoftMax result has the same shape, every element lies between 0 and 1, the elements add up to 1, and one result element is larger than another exactly when its input element is. Immediate and deferred forms and the layer agree.",
  ["inputs"], "all shapes and all real-valued inputs with at least two different elements (rounding ignored)",
  "The tests use one random tensor.",
  ["tensor/softmax.go", "layer/softmax.go"],
  [("TensorSoftMax.BuildGraph, TensorMat.SoftMax", "tensor/softmax.go")],
  ["GetData of the result"])

prop("C12", "Activation functions compute their defining formula",
  "For every input, Linear, ReLU (leaky), ELU, SELU, Sigmoid, Tanh, Sin, Swish and GELU (tanh approximation) return the value of their standard formula with the configured parameters.",
  ["inputs"], "all real inputs and parameters (rounding ignored; the elementary functions exp, tanh, sin, ... themselves are taken as given)",
  "There is no test of any activation function; training tests tolerate large errors.",
  ["activation/elu.go", "activation/gelu.go", "activation/linear.go", "activation/relu.go", "activation/selu.go", "activation/sigmoid.go", "activation/sin.go", "activation/swish.go", "activation/tanh.go"],
  [("Activate", "activation/*.go")], ["Activation.Activate"])

prop("C13", "Activation derivatives are the derivative of the activation",
  "For every activation function and every input at which it is differentiable, the derivative it reports is the mathematical derivative of the value it computes, for the configured parameters. It does not degrade to a wrong value for large or small inputs of a narrower element type.",
  ["inputs"], "all real inputs other than the kink of the piecewise functions, all parameters (rounding ignored)",
  "There is no test of any derivative; gradient descent in the tests converges with wrong derivatives.",
  ["activation/elu.go", "activation/gelu.go", "activation/linear.go", "activation/relu.go", "activation/selu.go", "activation/sigmoid.go", "activation/sin.go", "activation/swish.go", "activation/tanh.go"],
  [("Derive", "activation/*.go")], ["Activation.Derive", "Activation.Activate"])

prop("C14", "Half-precision conversion is exact up, correctly rounded down",
  "Reading a half-precision scalar gives exactly the number its 16 bits denote in IEEE binary16, and storing a 32-bit float gives the nearest half-precision number with ties to even (overflow to infinity, NaN stays NaN, sign kept). Reading back a stored half-precision value is lossless, and the classification predicates (NaN, infinity, finite, normal, sign) agree with IEEE for every bit pattern.",
  ["inputs"], "all 2^16 half patterns and all 2^32 float patterns",
  "The package has no tests at all.",
  ["scalar/f16.go"],
  [("f16bitsToF32bits / f32bitsToF16bits", "scalar/f16.go"), ("IsNaN/IsInf/IsFinite/IsNormal/Signbit/F16Inf/F16NaN", "scalar/f16.go")],
  ["F16.G32", "F16.S32", "F16fromF32"])

prop("C15", "Scalar arithmetic rounds once to the receiver's precision",
  "For scalars of the half, single and double kinds in any combination, Add, Sub, Mul and Div return a new scalar of the receiver's kind, holding the result of the operation on the operands taken at single precision (double for a double receiver) rounded to that kind, and leave both operands unchanged; the self-modifying forms store the same value in the receiver. Comparison orders any two non-NaN numbers by value, and a copy is independent of its origin.",
  ["inputs", "configurations"], "all values of both operands, all kind combinations",
  "The package has no tests at all.",
  ["scalar/f16.go", "scalar/f32.go", "scalar/f64.go", "scalar/scalar.go"],
  [("Add/Sub/Mul/Div, SelfAdd/..., Cmp, Copy", "scalar/f16.go, scalar/f32.go, scalar/f64.go")],
  ["Scalar.G32/G64 of result and operands"])

prop("C16", "A dense layer computes activation of weights times input plus bias",
  "Predicting with a model made of dense layers gives, for every output unit of every layer, the activation of its bias plus the sum over the inputs of weight times input, layer after layer; an input of more than one dimension is read in flat order. Several layers may use different activations.",
  ["inputs", "configurations"], "all sizes, weights, biases, inputs; any activation function",
  "Tests only check that a trained network is near four targets; a wrong but trainable forward pass goes unnoticed.",
  ["layer/dense.go", "layer/base.go", "layer/input.go", "model/model.go"],
  [("Dense.BuildFeedforward", "layer/dense.go"), ("Model.Compile / Predict", "model/model.go")],
  ["Model.Predict"])

prop("C17", "2-D convolution and transposed convolution follow their definition",
  "A convolution layer outputs, per filter and position, the activation of bias plus the sum over channels and kernel cells of weight times the input cell at position times stride plus kernel offset, with output extent (input - kernel) / stride + 1; the transposed layer adds input times weight at position times stride plus offset, with extent (input - 1) * stride + kernel. Kernel width/height and horizontal/vertical stride are independent, and inputs that are not 3-D are refused.",
  ["inputs", "configurations"], "all channel counts, extents, kernels and strides (square or not), weights, biases, inputs; any activation",
  "Tests train with square kernels and strides only and check closeness to targets.",
  ["layer/conv2d.go", "layer/deconv2d.go"],
  [("Conv2D.BuildFeedforward / Deconv2D.BuildFeedforward", "layer/conv2d.go, layer/deconv2d.go")],
  ["Model.Predict"])

prop("C18", "Pooling takes each window's maximum; up-sampling repeats each cell",
  "Max-pooling splits every channel into consecutive windows of the given width and height, the last ones possibly cut off at the border, so that every input cell lies in exactly one window, and outputs each window's maximum. Up-sampling repeats every input cell width times height times; width and height factors are independent in both.",
  ["inputs", "configurations"], "all 3-D input extents, all positive window/scale factors including 1 and different width and height, all values",
  "Tests use factor 2 on one size.",
  ["layer/max_pool_2d.go", "layer/up_sampling_2d.go"],
  [("MaxPool2D.BuildFeedforward", "layer/max_pool_2d.go"), ("UpSampling2D.BuildFeedforward", "layer/up_sampling_2d.go")],
  ["Model.Predict"])

prop("C19", "Structural and normalising layers forward the defined elements",
  "In a model, the flatten layer passes its input on in flat order, the sub-tensor layer passes the given range of one dimension, the concat layer joins the outputs of two branches along one dimension, and the normalising layers scale by the largest magnitude into their target interval (0..1 or -1..1 for non-negative input, the largest element reaching the upper end).",
  ["inputs", "configurations"], "all shapes, ranges, dimensions and input values",
  "Tests train such networks and check closeness to targets only.",
  ["layer/flatten.go", "layer/sub_tensor.go", "layer/concat.go", "layer/norm.go", "layer/input.go"],
  [("BuildFeedforward of each layer", "layer/")], ["Model.Predict"])

prop("C20", "One training step of a dense network is exact gradient descent",
  "In a network in which every layer feeds one next layer, a training step with learning rate a and no momentum history changes every weight by a times the unit's error signal times its input, and every bias by a times the error signal, where the output layer's signal is target minus prediction and earlier signals follow by the chain rule with the activations' derivatives. All updates use the parameters from before the step, and the loss reported is the sum of absolute differences between target and the prediction of before the step.",
  ["inputs", "configurations"], "all network sizes and depths, parameters, samples, learning rates; any activation and derivative functions",
  "Tests only check that training ends near the target; wrong gradients still converge.",
  ["layer/dense.go", "layer/base.go", "model/model.go"],
  [("Dense.BuildBackpropagation", "layer/dense.go"), ("Base.Fit", "layer/base.go"), ("Model.CompileBackPropagation / ExecFit / TrainOne", "model/model.go")],
  ["weights and biases after Model.TrainOne", "loss returned by Model.TrainOne"],
  [("NWeights, NBias", "updated parameters before they are applied", "layer/base.go")])

prop("C21", "Convolutional and structural layers backpropagate by the chain rule",
  "The same holds for networks in which every layer feeds one next layer and that also contain convolution, transposed convolution, max-pooling (no ties inside a window), up-sampling, flatten, sub-tensor and concat layers: after one training step every weight and bias of every layer has moved by the learning rate times the exact derivative obtained from the chain rule, the signal at the network output (target minus prediction) being taken as that of the last parameters' pre-activation. Kernel and stride may differ between width and height.",
  ["inputs", "configurations"], "all small networks of these layers in which each layer feeds one consumer, all parameters and samples (no ties inside a pooling window); any activation",
  "Tests only check convergence with square kernels and strides.",
  ["layer/conv2d.go", "layer/deconv2d.go", "layer/max_pool_2d.go", "layer/up_sampling_2d.go", "layer/flatten.go", "layer/sub_tensor.go", "layer/concat.go", "layer/base.go"],
  [("BuildBackpropagation / BuildDer of each layer", "layer/"), ("Concat.Fit / ResetFit", "layer/concat.go")],
  ["weights and biases after Model.TrainOne"])

prop("C22", "Momentum adds the scaled previous update to each parameter update",
  "With momentum m, every training step moves each weight and bias by the plain gradient step plus m times the movement that parameter made in the previous training step (zero before the first). A momentum of zero therefore gives plain gradient descent in every step.",
  ["histories", "inputs"], "all sequences of training steps up to the stated length, all samples, parameters, learning rates and momenta",
  "Tests pass a momentum but only check convergence, which happens without momentum too.",
  ["layer/dense.go", "layer/conv2d.go", "layer/deconv2d.go"],
  [("momentum buffers MWeights / MBias", "layer/base.go"), ("BuildBackpropagation", "layer/dense.go, layer/conv2d.go, layer/deconv2d.go")],
  ["weights and biases after each Model.TrainOne"])

prop("C23", "Training steps leave no residue besides parameters and momentum",
  "With zero momentum the parameters after a training step depend only on the parameters before it, the sample and the learning rate: neither earlier training steps nor predictions in between leave anything behind in any layer. In particular error signals never accumulate from one step to the next.",
  ["histories", "inputs"], "all interleavings of training steps and predictions up to the stated length, all samples, every layer type including branches joined by concat",
  "Tests train on random sequences and cannot compare against a fresh model with the same parameters.",
  ["layer/base.go", "layer/concat.go", "model/model.go"],
  [("ResetFit / Fill of the error signals", "layer/base.go"), ("Model.ExecFit order", "model/model.go")],
  ["parameters after Model.TrainOne"])

prop("C24", "Frozen layers never change and unfrozen layers do",
  "After trainable is switched off for a layer or a whole model, no training of that model or of a model containing it changes any of its weights or biases, while the other layers keep training as if they were not frozen. Switching it back on resumes training of every layer of the model, including its first.",
  ["histories", "configurations", "inputs"], "all freeze patterns, all training steps before, between and after",
  "No test switches trainable off.",
  ["layer/base.go", "model/model_layer.go", "layer/concat.go"],
  [("Base.Fit / SetTrainable", "layer/base.go"), ("Model.SetTrainable", "model/model_layer.go")],
  ["weights and biases after Model.TrainOne"])

prop("C25", "Prediction is a pure function of parameters and input",
  "Predicting changes neither the parameters nor the caller's input tensor, and the result depends only on the parameters and that input, never on earlier predictions. A returned result is a snapshot: later predictions or training do not alter it, and altering it does not affect the model.",
  ["histories", "inputs"], "all sequences of predictions up to the stated length, all inputs and parameters, every layer type",
  "Tests predict once per input and never look at earlier results again.",
  ["model/model.go", "layer/conv2d.go", "layer/deconv2d.go", "tensor/tensor_mat.go"],
  [("Model.Predict", "model/model.go"), ("accumulators re-initialised at the start of the forward graph", "layer/conv2d.go, layer/deconv2d.go")],
  ["Model.Predict results and parameters"])

prop("C26", "Train performs epochs x batch steps on matching sample pairs",
  "Training with e epochs and batch b performs exactly e times b training steps (b being the number of samples when given as 0), each on one input together with the target of the same position, with the given learning rate and momentum. It works on a model that was not used before, and differing numbers of inputs and targets are refused with an error before any step.",
  ["histories", "inputs", "schedules"], "all epoch and batch numbers, all outcomes of the random sample choice, all samples",
  "Sample choice is random in the tests and only convergence is checked.",
  ["model/model.go"],
  [("Model.Train", "model/model.go")], ["parameters after Model.Train compared with the corresponding TrainOne sequence"])

prop("C27", "Saved tensors load back bit for bit; I/O failures are reported",
  "Saving a tensor and loading the bytes into a tensor of the same size restores every element exactly; the full form also restores the shape into any tensor. If the writer or reader fails or ends early at any point, the call returns an error and does not panic.",
  ["inputs", "fault_sequences"], "all shapes, all element values of every fixed-size element type, a failure or end of data at every point",
  "There is no test of saving or loading.",
  ["tensor/tensor_mat.go"],
  [("Save/Load/SaveFull/LoadFull", "tensor/tensor_mat.go")], ["bytes written", "GetData/GetShape after load", "returned error"])

prop("C28", "A saved model restores its predictions in an equal architecture",
  "After preparing and saving a compiled model and loading the bytes into another compiled model of the same architecture, every weight and bias and hence every prediction is equal, for every layer type and also where branches are joined or layers are shared; saving again after preparing writes the same bytes. A writer or reader that fails or ends early makes save or load return an error.",
  ["inputs", "configurations", "fault_sequences"], "all parameters, all supported layer combinations up to the stated size, a failure at every point",
  "There is no test of saving or loading.",
  ["layer/base.go", "layer/concat.go", "model/model_layer.go"],
  [("Base.Save/Load/ResetSave/ResetLoad", "layer/base.go"), ("Concat.Save/Load", "layer/concat.go")],
  ["parameters and predictions after Model.Load", "bytes written"])

prop("C29", "A model made from models predicts their composition",
  "A model built from several models that were not used before predicts for every input what feeding each model's prediction into the next one gives, and shares its parameters with them: training the combined model moves the parameters of the parts exactly as training the joined network of their layers would, and the parts can still predict on their own with those parameters.",
  ["inputs", "configurations", "histories"], "all parameters and inputs, two or three joined models, training steps and part predictions in between",
  "There is no test of joining models.",
  ["model/model.go", "layer/input.go"],
  [("FromModels", "model/model.go"), ("Input layer pass-through", "layer/input.go")], ["Model.Predict of the whole and of the parts"])

prop("C30", "Wrong-shaped samples are refused and leave the model untouched",
  "Predicting or training with an input, or training with a target, whose shape differs from the model's returns an error, never panics, and leaves all parameters as they were; later correct calls behave as if the refused call had not happened. A model whose layers do not fit together reports an error when first used instead of producing a result.",
  ["inputs", "histories", "configurations"], "all mismatching shapes, at any point in a history of calls",
  "Tests contain no failing calls.",
  ["model/model.go", "tensor/tensor_mat.go", "layer/base.go"],
  [("LoadFromTensor shape check", "tensor/tensor_mat.go"), ("Model.Predict / ExecFit error paths", "model/model.go"), ("BuildFeedforward input checks", "layer/*.go")],
  ["returned error", "parameters and later predictions"])

prop("C31", "Images and tensors convert channel by channel, pixel by pixel",
  "Loading an image gives a tensor of four channels (red, green, blue, alpha) by width by height whose element at a pixel is that channel's 16-bit value divided by 65535, wherever the image's bounds start. Converting a tensor with values in 0..1 to an image sets each pixel's channels to 255 times the value, rounded down, at the same position, and tensors that are not 3-D or lack channels are refused with an error. A file that cannot be opened, decoded, created or written gives an error, and saving as PNG or JPEG hands that same image to the encoder.",
  ["inputs", "configurations"], "all pixel values, image sizes and bounds origins",
  "The package has no tests.",
  ["img/image.go", "img/save.go"],
  [("LoadImage", "img/image.go"), ("ToImg", "img/save.go")], ["returned tensor", "image.Image.At of the result"])

prop("C32", "Image scaling samples only inside the source and keeps channels",
  "Scaling an image tensor to any positive size succeeds and gives the same number of channels at the new size; the simple form copies the source pixel at floor(position times ratio), and the smooth form gives the bilinear mix of that pixel and its right and lower neighbours (repeating the border), so values stay within the range of the source channel and an equal size reproduces the source. The loaders that scale while loading follow the same rules.",
  ["inputs", "configurations"], "all source and target sizes up to the stated bound (rounding ignored; loaders that smooth may differ by one 16-bit step), all channel counts, all pixel values",
  "The package has no tests.",
  ["img/simple_scale.go", "img/smooth_scale.go", "img/image.go"],
  [("SimpleScale / SmoothScale / LoadSimpleScaled / LoadSmoothScaled", "img/")], ["returned tensor"])

prop("C33", "Random initialisation stays within its requested range",
  "Random tensors and scalars drawn between two bounds hold, for every outcome of the random source, only values between the bounds, and each element is drawn independently; normally distributed ones hold exactly the drawn numbers converted to the element type. Their shape and size are as requested.",
  ["inputs", "schedules"], "all bounds with min <= max (whole numbers for integer element types), all outcomes of the random source (rounding ignored)",
  "Tests use random tensors as input only.",
  ["tensor/constructor.go", "number/constructors.go"],
  [("NewRand/NewNormRand", "tensor/constructor.go"), ("ScalarRand/ScalarNorm", "number/constructors.go")], ["GetData", "Scalar.Value"])

prop("C34", "Distance and progress bar helpers",
  "The distance of two equally long value lists is the Euclidean distance and lists of different length are refused with an error; zero distance means equal lists. The progress bar for a fraction between 0 and 1 is exactly as wide as requested (empty for non-positive widths), and its filled part never shrinks as the fraction grows.",
  ["inputs"], "all lists up to the stated length and all values; all widths up to the stated bound and all fractions in 0..1",
  "Only used as a helper in other tests.",
  ["tools/tools.go", "tools/bar.go"],
  [("Distant", "tools/tools.go"), ("Bar", "tools/bar.go")], ["returned values"])

prop("C35", "A model used as a layer behaves like its layers in place",
  "A model placed among the layers of another model predicts for every input, trains (no layer with parameters feeding two others), freezes and unfreezes, saves and loads exactly as the network in which the inner model's layers stand in its place; this also holds for nested models and for models joined by a Concat layer.",
  ["inputs", "configurations", "histories"], "all parameters, inputs and targets; inner models at the start, the middle or the end, nested once or twice, and in a branch",
  "There is no test that nests models.",
  ["model/model_layer.go", "layer/input.go", "model/model.go"],
  [("Model as a layer", "model/model_layer.go"), ("Input layer pass-through", "layer/input.go")],
  ["Model.Predict", "parameters after Train", "bytes written by Save"])

prop("C36", "Printed text shows what a tensor, a scalar or a model holds",
  "The text of a tensor states the number of its dimensions, its size, its shape and all of its current elements in flat order, and the text of a scalar is its value in its own precision. The text of a compiled model lists each layer it consists of exactly once, behind the layers it is fed from, with its number (the length of the longest way from an input), the numbers of the layers it is fed from, its kind and its output shape, also where layers are shared or models are used as layers. Printing changes nothing.",
  ["inputs", "configurations"], "all element values of tensors of up to 5 dimensions and all values of the scalars; the listed networks with branches, shared layers and nested models",
  "Tests print at most one value and never look at a model's text.",
  ["tensor/tensor_mat.go", "layer/base.go", "layer/concat.go", "layer/input.go", "model/model.go", "model/model_layer.go", "scalar/f64.go", "scalar/f32.go", "scalar/f16.go", "tools/tools.go"],
  [("TensorMat.String", "tensor/tensor_mat.go"), ("Base.PushToString", "layer/base.go"), ("Concat.PushToString", "layer/concat.go"), ("F64.String", "scalar/f64.go")],
  ["TensorMat.String", "Model.String", "Scalar.String"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
