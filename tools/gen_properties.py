#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=None)))

NOASSERT = "No existing test contains an assertion; "
p("C01", "Complex numbers obey complex arithmetic in every operator form",
  "For both precisions and all operands whose squared moduli neither overflow nor underflow, +, -, * and / return the complex sum, difference, product and quotient up to rounding, and the in-place, by-value and by-reference forms of an operator agree with one another. Dividing by zero is refused and never produces a number.",
  ["inputs"], "every pair of finite operands, both precisions, all three operator forms",
  NOASSERT + "they never compare a product or quotient with anything, and no test uses an in-place operator on numbers that both have an imaginary part.",
  ["src/math/cfloat/mod.rs"],
  [("operator implementations for the two complex types", "src/math/cfloat/mod.rs (Add/Sub/Mul/Div, *Assign, and the reference forms)")],
  ["result of a op b, a op= b and &a op &b"])
p("C02", "Modulus, phase, conjugate, polar form and ordering agree with geometry",
  "For both precisions, the modulus, squared modulus, phase in (-pi, pi] and conjugate of a number are those of the point (re, im) in the plane, and building a number from a modulus and a phase then reading them back returns it. Comparing two numbers compares their moduli, with <, <=, >, >= and the three-way comparison mutually consistent.",
  ["inputs"], "all finite numbers in all four quadrants and on the axes, both precisions",
  NOASSERT + "the one test that touches polar form prints a single number in the first quadrant.",
  ["src/math/mod.rs", "src/math/cfloat/mod.rs"],
  [("accessors of the complex trait", "src/math/mod.rs (newe, norm, norm_sq, phase, conj, re, im)"), ("PartialOrd on squared modulus", "src/math/cfloat/mod.rs")],
  ["accessor results", "comparison operators"])
p("C03", "Activation functions return their mathematical value for every input",
  "Each selectable activation returns its defining function of the input for both precisions: identity, z/|z|, and sigmoid, tanh and ReLU applied separately to real and imaginary parts, z or 0 depending on lying in the closed first quadrant, and 2(1+cos(phase))e^(i phase); sigmoid parts always lie strictly in (0,1), within 1.1e-6 (single) or 1e-13 (double) of exact even when saturated. The single-value, function-pointer and in-place slice forms give the same results, and a slice of any length is transformed element by element.",
  ["inputs", "configurations"], "every finite input (non-zero where the function needs a direction), 7 activations, 2 precisions, 3 call forms",
  NOASSERT + "no test calls an activation function at all.",
  ["src/act/mod.rs", "src/math/mod.rs"],
  [("activation value functions and their dispatch", "src/act/mod.rs (release_func_*, compute_*, compute_val_*)")],
  ["activate / activate_mut results"])
p("C04", "Activation derivatives are the Wirtinger derivatives of the activation",
  "For every activation, both precisions and every point where the activation is differentiable, the derivative and the conjugate derivative equal the two Wirtinger derivatives (df/dx - i df/dy)/2 and (df/dx + i df/dy)/2 of the activation value function. The single-value, function-pointer and in-place slice forms give the same results.",
  ["inputs", "configurations"], "all points of differentiability, 7 activations, 2 precisions, derivative and conjugate derivative, single and slice forms",
  NOASSERT + "no test calls a derivative; a wrong derivative only makes training slightly worse.",
  ["src/act/mod.rs", "src/math/mod.rs"],
  [("derivative functions and their dispatch", "src/act/mod.rs (release_dfunc_*, release_dfunc_conj_*, compute_d_*, compute_d_conj_*)")],
  ["d_activate / d_conj_activate results", "finite differences of the activation values"])
p("C05", "Loss values equal their definition for every target and prediction",
  "The mean-square loss of a target and a prediction is the average over all outputs of the squared modulus of their difference, and the cross-entropy loss is the cross-entropy of the real parts of the target with the softmax of the squared moduli of the prediction, both finite for finite inputs of ordinary size, for vectors, for sets of feature maps, and for both precisions. A target and prediction of different kind or different number of outputs give an error and never a number.",
  ["inputs", "configurations"], "all target/prediction pairs of any length from 1 up, as vectors or feature maps, 2 losses, 2 precisions",
  NOASSERT + "no test computes a loss.",
  ["src/opt/mod.rs", "src/math/mod.rs"],
  [("loss functions", "src/opt/mod.rs (mean_sq_loss_*, norm_ce_loss_*, compute_*)")],
  ["loss results"])
p("C06", "Loss derivatives are the Wirtinger derivative of the loss",
  "For each output the derivative of the mean-square loss is the conjugate of prediction minus target, in output order, which is the derivative of the total squared error with respect to the prediction; the derivative of the cross-entropy loss is the derivative of the cross-entropy value. One derivative is returned per output, and a target and prediction of different kind or size give an error.",
  ["inputs", "configurations"], "all target/prediction pairs, vectors or feature maps, 2 losses, 2 precisions",
  NOASSERT + "no test computes a loss derivative.",
  ["src/opt/mod.rs"],
  [("loss derivative functions", "src/opt/mod.rs (d_mean_sq_loss_*, d_norm_ce_loss_*, compute_d_*)")],
  ["d_loss results", "finite differences of the loss value"])
p("C07", "A matrix stays a consistent rectangle through every edit history",
  "After any sequence of adding rows or columns, deleting rows, reading and writing elements, rows and columns, and releasing spare capacity, the matrix holds exactly the elements a plain table edited the same way would hold, in row-major order, its body length equals rows times columns and its shape never exceeds its capacity. An edit or access that does not fit (wrong length, no capacity left, index out of range) returns an error and changes neither the matrix nor the offered row or column.",
  ["histories", "inputs"], "all operation sequences over matrices of any shape and capacity, including empty ones",
  NOASSERT + "tests never add a row or column, delete a row, or look at an error.",
  ["src/math/matrix/mod.rs"],
  [("structural editing methods", "src/math/matrix/mod.rs (add_row, add_mut_row, del_row, add_col, dealloc, elm*, row*, col_*, rows_as_iter*, rows_as_par_chunks)")],
  ["get_body/get_shape/get_capacity after each operation", "returned rows, columns and errors"],
  [dict(name="body/shape/capacity", meaning="row-major elements, current shape, reserved shape", where="src/math/matrix/mod.rs (Matrix)")])
p("C08", "Matrix and vector arithmetic is exact element-wise linear algebra",
  "Matrix-times-vector, matrix addition, adding, multiplying or dividing by a scalar, and the element-wise and scalar products of slices return what the definition gives for every shape and element type, up to rounding; adding to or from an empty matrix yields the other operand. Operands of incompatible shape are refused with an error and left unchanged.",
  ["inputs"], "all shapes and lengths from 1 up, real and complex elements of both precisions",
  NOASSERT + "tests print a few 3x3 and 4x4 results without comparing them.",
  ["src/math/matrix/mod.rs"],
  [("linear algebra methods", "src/math/matrix/mod.rs (mul_vec, mul_slice, add_mut, *_mut_scalar, SliceOps, to_matrix)")],
  ["operation results and errors"])
p("C09", "Convolution, padding and flipping are exact for every size",
  "Convolving a matrix with a kernel returns, at every position where the kernel fits, the sum of kernel entries times the entries under it (kernel not flipped), with shape reduced by kernel size minus one per axis; a kernel larger than the matrix on either axis is refused, and the conjugating variant gives the same with every kernel entry conjugated. Padding surrounds the matrix with exactly the requested rows and columns of zeros without moving its contents, and flipping reverses both axes.",
  ["inputs"], "all matrix and kernel sizes (square or not), pad widths, real and complex elements",
  NOASSERT + "the only convolution test needs a data file that is not in the repository.",
  ["src/math/matrix/mod.rs"],
  [("convolution, cconvolution, get_slider, pad, flip", "src/math/matrix/mod.rs")],
  ["operation results and errors"])
p("C10", "Block reduction and upsampling visit each block exactly once",
  "Block reduction calls the reducing function exactly once per block, in row-major block order, with that block's elements in row-major order, and places each result at the block's position; sizes the block does not divide are refused. Upsampling by a block size with an odd-sized kernel returns a matrix enlarged by exactly the block size on each axis that equals placing every element at the centre of its block (upper-left of centre for even sizes), zeros elsewhere, and smoothing with the kernel centred; even-sized kernels are refused.",
  ["inputs", "histories"], "all matrix shapes, block sizes (square or not), kernels of any odd size, any reducing function",
  NOASSERT + "the only pooling test needs a data file that is not in the repository.",
  ["src/math/matrix/mod.rs"],
  [("block_reduce, fractional_upsampling", "src/math/matrix/mod.rs")],
  ["trace of calls to the reducing function", "operation results"])
p("C11", "A dense layer outputs activation(weights x input + bias)",
  "For every number of inputs and units, activation, initialisation and precision, a dense layer's output is a vector with one entry per unit equal to the activation of the unit's weighted sum of the inputs plus its bias. Its declared input and output shapes and parameter counts match what it accepts and produces.",
  ["inputs", "configurations"], "all layer sizes, inputs, activations, both precisions",
  NOASSERT + "no test builds a layer.",
  ["src/cvnn/layer/dense.rs", "src/cvnn/layer/mod.rs"],
  [("DenseCLayer::forward, shapes, params_len", "src/cvnn/layer/dense.rs")],
  ["forward output", "linear probing of the layer's own weights"])
p("C12", "A convolutional layer outputs activation(sum over channels + bias)",
  "For every number of channels and filters, kernel size, image size, activation and precision, output map f of a convolutional layer is the activation of the sum over input channels of that channel convolved with the kernel of filter f for that channel, plus the bias of f, with size reduced by kernel size minus one. Its declared shapes and parameter counts match what it accepts and produces.",
  ["inputs", "configurations"], "all channel/filter counts, kernel and image sizes, activations, both precisions",
  NOASSERT + "no test builds a layer.",
  ["src/cvnn/layer/conv.rs", "src/cvnn/layer/mod.rs"],
  [("ConvCLayer::forward, shapes, params_len", "src/cvnn/layer/conv.rs")],
  ["forward output", "probing of the layer's own kernels with single-pixel images"])
p("C13", "Pooling and flatten layers keep feature order and contents",
  "A pooling layer reduces every feature map on its own, block by block with the user's function, keeping the order and number of maps; a flatten layer outputs all entries of all maps, map after map in row-major order, none lost, added or changed. Neither has parameters, and their declared shapes match what they accept and produce.",
  ["inputs", "configurations"], "all map counts and sizes, block sizes, user functions, both precisions",
  NOASSERT + "no test builds a layer.",
  ["src/cvnn/layer/reduce.rs", "src/cvnn/layer/flatten.rs", "src/cvnn/layer/mod.rs"],
  [("Reduce::foward, Flatten::foward", "src/cvnn/layer/reduce.rs, src/cvnn/layer/flatten.rs")],
  ["forward output", "trace of calls to the user's function"])
p("C14", "A network's prediction is the composition of its layers in order",
  "For every network and input, the prediction equals feeding the input through the layers one after another in the order they were added; intercepting at index k returns the features entering layer k together with that layer, and collecting activations returns the input followed by every layer's output. Prediction, loss and accuracy calls leave the network unchanged, so repeating any of them gives bit-identical results.",
  ["inputs", "histories", "configurations"], "all layer stacks of every depth, all inputs, every interleaving of read-only calls",
  NOASSERT + "no test builds a network.",
  ["src/cvnn/network/mod.rs", "src/cvnn/layer/mod.rs"],
  [("forward, intercept, collect_acts", "src/cvnn/network/mod.rs")],
  ["results of forward, intercept and collect_acts against manual chaining"])
p("C15", "Networks only accept layers that fit, and report their true size",
  "A network accepts a first layer exactly once, accepts a further layer exactly when its input kind and feature count equal the previous layer's output, and refuses uninitialised layers and a further layer before the first, always by returning an error that leaves the network as it was. Its reported input shape, output shape and parameter count are those of its first layer, its last layer and the sum over its layers; on an empty network shape, prediction, intercept and training requests return an error.",
  ["histories", "configurations"], "all sequences of layer additions, valid and invalid, over all four layer kinds",
  NOASSERT + "no test builds a network.",
  ["src/cvnn/network/mod.rs"],
  [("add_input, add, get_input_shape, get_output_shape, params_len", "src/cvnn/network/mod.rs")],
  ["results of each call and the network's reported shapes after it"])
p("C16", "Dense back-propagation yields the exact complex gradient",
  "For every dense layer, input and incoming pair of gradient and its conjugate, the returned weight and bias gradients and the gradient passed to the previous layer are the Wirtinger derivatives of the loss with respect to those quantities (chain rule through the weighted sum and the activation), and the passed-on conjugate gradient is its conjugate. Weight gradients are ordered like the weights, one row per unit.",
  ["inputs", "configurations"], "all layer sizes, inputs, gradients, activations at differentiable points, both precisions",
  NOASSERT + "no test back-propagates; a wrong gradient only degrades training.",
  ["src/cvnn/layer/dense.rs"],
  [("DenseCLayer::compute_derivatives", "src/cvnn/layer/dense.rs")],
  ["returned derivatives", "finite differences of the layer's own forward output"])
p("C17", "Convolutional back-propagation yields the exact complex gradient",
  "For every convolutional layer, input and incoming pair of gradient and its conjugate, the returned kernel and bias gradients and the gradient passed to the previous layer are the Wirtinger derivatives of the loss with respect to those quantities, and the passed-on conjugate gradient is its conjugate. Gradients are ordered filter by filter, channel by channel, row-major.",
  ["inputs", "configurations"], "all channel/filter counts, kernel and image sizes, gradients, activations at differentiable points, both precisions",
  NOASSERT + "no test back-propagates.",
  ["src/cvnn/layer/conv.rs"],
  [("ConvCLayer::compute_derivatives", "src/cvnn/layer/conv.rs")],
  ["returned derivatives", "finite differences of the layer's own forward output"])
p("C18", "Pooling back-propagation restores each map's gradient at full size",
  "For every pooling layer, the gradient passed to the previous layer has exactly the size of the layer's input, is computed map by map in order, and equals the incoming gradient of that map upsampled by the block size and smoothed with the layer's interpolation kernel; for a real kernel the conjugate gradient passed on is its conjugate. With a kernel that spreads a block's gradient evenly, this is the exact gradient of average pooling.",
  ["inputs", "configurations"], "all map counts, block sizes (square or not), odd kernels, incoming gradients, both precisions",
  NOASSERT + "no test back-propagates.",
  ["src/cvnn/layer/reduce.rs", "src/math/matrix/mod.rs"],
  [("Reduce::compute_derivatives, fractional_upsampling", "src/cvnn/layer/reduce.rs, src/math/matrix/mod.rs")],
  ["returned derivatives"])
p("C19", "A training step moves every parameter by the mean gradient, once",
  "One training call on a batch changes each weight, kernel entry and bias of every trainable layer by minus the conjugate of the learning rate times the mean over the batch of the loss derivative with respect to it, all derivatives taken at the parameters before the call, and changes nothing else. This holds for every stack of dense, convolutional, pooling and flatten layers, every batch size and order, and both precisions.",
  ["inputs", "configurations", "histories"], "all network architectures, batches, learning rates (real and complex), sequences of training calls",
  NOASSERT + "no test trains a network.",
  ["src/cvnn/network/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs", "src/cvnn/layer/reduce.rs"],
  [("gradient_opt accumulation and scaling", "src/cvnn/network/mod.rs"), ("neg_conj_adjustment", "src/cvnn/layer/*.rs")],
  ["per-layer probing of the trained network against a reference model"])
p("C20", "A refused training or adjustment call changes no parameter",
  "If a training call cannot be carried out (a point anywhere in the batch with the wrong input or target kind or size, an empty batch, too few layers) or a manual parameter adjustment has the wrong size, the call fails and every parameter of the network or layer keeps its exact value, so predictions before and after are bit-identical. The network remains usable and a later valid call behaves as if the failed one had never happened.",
  ["fault_sequences", "inputs", "histories"], "all positions and kinds of a bad point in a batch, all sequences of failing and valid calls",
  NOASSERT + "no test trains a network or provokes a failure.",
  ["src/cvnn/network/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs"],
  [("all derivatives are computed before any update", "src/cvnn/network/mod.rs (gradient_opt)"), ("size checks before mutation", "neg_conj_adjustment in src/cvnn/layer/*.rs")],
  ["bitwise predictions before and after a failing call"])
p("C21", "The random generator is in range and a pure function of its seed",
  "For every 128-bit seed, each draw of the float generators lies in [0, 1], each integer draw with limit n lies in 0..n-1, and the draw and the seed left behind depend only on the seed passed in. Float draws of either precision, and integer draws, advance the seed identically, and the value drawn is the fraction of the generator's range that the new seed represents. From every seed but the generator's one fixed point, successive draws are spread evenly over the range.",
  ["inputs", "histories"], "all 2^128 seeds (all 2^31-1 generator states), all limits from 1 up, all draw sequences",
  NOASSERT + "doc-tests print ten values from one seed.",
  ["src/math/random/mod.rs"],
  [("lcgf32, lcgf64, lcgi", "src/math/random/mod.rs")],
  ["draws and the seed after each draw"])
p("C22", "Weight initialisation is reproducible, finite and properly scaled",
  "For every method, precision and seed, initial weights are finite; uniform, Xavier and Xavier-Glorot-uniform weights have moduli spread evenly from 0 to the scale, sqrt(12/n) and sqrt(6/n), and He and Xavier-Glorot-normal moduli have root mean square sqrt(2/n), with phases covering the whole circle evenly; real draws are spread evenly over plus or minus the scale. The same seed gives a bit-identical layer whatever else the program did, every bias starts at zero, and weights within a layer and of consecutive layers initialised from the same running seed differ.",
  ["inputs", "configurations", "histories"], "all seeds including those that make a draw exactly zero (the generator's one fixed point aside for the spread), 5 methods, all layer sizes, both precisions",
  NOASSERT + "no test initialises a layer or looks at a generated weight.",
  ["src/init/mod.rs", "src/math/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs"],
  [("InitMethod::gen and the gen_* functions", "src/init/mod.rs, src/math/mod.rs"), ("layer init loops", "src/cvnn/layer/dense.rs, src/cvnn/layer/conv.rs")],
  ["generated numbers", "probed layer weights", "sample statistics"])
p("C23", "A dataset returns exactly the points added, paired and in order",
  "For every sequence of added points, the dataset reports their number and returns, by index, by borrowed iteration and by consuming iteration, exactly the inputs and targets that were added, each input with its own target, in insertion order and unmodified. A one-hot target of size n for class k has n entries, 1 at k and 0 elsewhere, and a class outside 0..n-1 is refused with an error.",
  ["histories", "inputs"], "all sequences of points of mixed kinds and sizes, all (n, k)",
  NOASSERT + "no test reads back a point.",
  ["src/dataset/mod.rs", "src/math/mod.rs", "src/input/mod.rs"],
  [("Dataset container methods", "src/dataset/mod.rs"), ("gen_pred", "src/math/mod.rs"), ("IOType accessors", "src/input/mod.rs")],
  ["points read back", "gen_pred results"])
p("C24", "Reading image batches delivers every stored image exactly once",
  "Reading a pair of image and label files batch by batch delivers the stored images in file order, each once, with pixel values divided by 255 and the one-hot target of its own label, for any batch size, for the real and the complex reader, and however the operating system splits the reads. When the files run out the batch is short or empty: no image is repeated, invented or paired with another image's label.",
  ["inputs", "fault_sequences", "histories"], "all file contents and lengths, batch sizes, batch sequences past the end, short reads",
  "The two tests that read images need data files that are not in the repository, and assert nothing.",
  ["src/dataset/mod.rs"],
  [("minist_as_batch, minist_as_complex_batch and their byte tracker", "src/dataset/mod.rs")],
  ["points of each batch against the bytes written to the files"])
p("C25", "Generated signal batches are reproducible, normalised and paired",
  "For any sample count, batch size, noise level and seeds, generating a signal-reconstruction batch returns the requested number of training and test points, each with as many samples in the input as in the target, all finite; targets have peak modulus 1 and are sums of 1 to 8 waves rotating at 0.1 to 1 radian per unit over a window of 4 pi units, whose number, rates, starting phases and amplitudes (0.1 to 1 before normalising) are spread evenly, and the inputs are those targets plus independent normal noise whose size follows the requested level, growing by a twentieth with the amplitude (none at level 0). The same arguments and seeds give bit-identical batches, different points get different signals, the training seed alone chooses the training targets and the test seed alone the test targets.",
  ["inputs", "configurations", "histories"], "all sample counts (even and odd), batch sizes, noise levels, seeds",
  NOASSERT + "one configuration is generated and written to disk unchecked.",
  ["src/dataset/mod.rs"],
  [("signal_reconstruction", "src/dataset/mod.rs")],
  ["generated points", "sample statistics of input minus target"])
p("C26", "CSV exports contain every value, in order, without loss",
  "Exporting a matrix writes one line per row and exporting a dataset of vectors writes one line per point (inputs then targets), with every value in order and printed so that reading it back gives the identical number, replacing any previous content of the file. A file that cannot be written to yields an error.",
  ["inputs", "fault_sequences"], "all shapes, values (tiny, huge, negative zero, non-finite), real and complex, pre-existing files, unwritable paths",
  "One test writes two large files and never reads them back.",
  ["src/math/matrix/mod.rs", "src/dataset/mod.rs", "src/math/cfloat/mod.rs"],
  [("Matrix::to_csv, Dataset::to_csv, Display of the complex types", "src/math/matrix/mod.rs, src/dataset/mod.rs, src/math/cfloat/mod.rs")],
  ["bytes of the written file"])
p("C27", "Network loss and accuracy are true averages over the batch",
  "The loss of a network on a non-empty batch is the average over its points of the loss between each target and the network's prediction for its input, and the accuracy is the fraction of points whose prediction and target have their largest modulus at the same position (the first such position on ties). Every point counts exactly once whatever the batch size or order.",
  ["inputs", "configurations"], "all networks, batches of every size and order, 2 losses, both precisions",
  NOASSERT + "no test computes a loss or accuracy.",
  ["src/cvnn/network/mod.rs", "src/opt/mod.rs"],
  [("loss, max_pred_test", "src/cvnn/network/mod.rs")],
  ["loss and accuracy results against per-point predictions"])
p("C28", "Networks can be shared across threads without races or interference",
  "Any number of threads may use one network at once for predictions, interception, loss and accuracy, and may train separate networks at once: every result is bit-identical to the one computed alone, and no execution contains a data race. This holds for every network that safe code can build, including pooling layers with user functions; functions that are not safe to share cannot be placed in a shared network.",
  ["schedules", "configurations"], "all thread counts and interleavings, all layer kinds",
  "The only threaded tests exercise the thread-pool library itself; no test shares a network.",
  ["src/cvnn/layer/mod.rs", "src/cvnn/layer/reduce.rs", "src/cvnn/network/mod.rs", "src/math/matrix/mod.rs"],
  [("read-only methods without shared mutable state; thread-safety of layers", "src/cvnn/layer/mod.rs (Send/Sync of layers)")],
  ["results per thread", "race detector reports"])
p("C29", "No input to the safe API causes undefined behaviour",
  "Every call of the public API, with valid or invalid arguments, either returns or reports failure without reading or writing memory out of bounds, reading uninitialised memory, aborting the process while memory is left, or executing any other undefined behaviour. This holds with and without arithmetic overflow checks.",
  ["inputs", "histories", "configurations"], "all calls of the public API, all shapes including empty and mismatched ones",
  "Tests run a handful of fixed shapes without any sanitizer.",
  ["src/math/matrix/mod.rs", "src/cvnn/layer/mod.rs", "src/cvnn/layer/conv.rs", "src/cvnn/network/mod.rs", "src/dataset/mod.rs"],
  [("safe, bounds-checked indexing throughout; the only unsafe code is the thread-safety of layers", "whole crate; src/cvnn/layer/mod.rs")],
  ["address, memory and undefined-behaviour sanitizer reports"])
p("C30", "Input of the wrong kind or size is never turned into a prediction",
  "Feeding a layer or network an input it does not accept (vector instead of maps or the reverse, wrong number of features, vectors of the wrong length, maps smaller than the kernel, not divisible by the pooling block, of unequal size, or not of the size a flatten layer expects) fails and never returns a prediction, loss or accuracy. A following valid call is unaffected.",
  ["inputs", "configurations", "fault_sequences"], "all layers and networks, all single-fault deviations from an accepted input",
  NOASSERT + "no test feeds invalid data.",
  ["src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs", "src/cvnn/layer/reduce.rs", "src/cvnn/layer/flatten.rs", "src/cvnn/network/mod.rs"],
  [("shape checks in the layers' forward methods", "src/cvnn/layer/*.rs")],
  ["outcome (value, error, panic) of each call"])
p("C31", "Training is reproducible and descends the loss",
  "Training runs that start from the same seed and see the same batches in the same order give bit-identical networks and predictions. From any state where the mean-square loss has a non-zero gradient, a training call with a sufficiently small positive learning rate lowers the loss of that batch, its total squared error falling, to first order, by twice the learning rate times the squared length of the training gradient; a call with learning rate zero changes nothing.",
  ["histories", "inputs", "configurations"], "all smooth networks, batches, training histories",
  NOASSERT + "no test trains a network.",
  ["src/cvnn/network/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs", "src/opt/mod.rs", "src/act/mod.rs"],
  [("gradient_opt, loss", "src/cvnn/network/mod.rs")],
  ["loss before and after training calls", "bitwise predictions of twin runs"])
p("C32", "A refused call reports what was wrong with it",
  "When a call has exactly one thing wrong with it and is refused with an error value, that value names the fault: an index past the end is out of bounds, a row, column, buffer or adjustment of the wrong size is an inconsistent shape, a matrix without room reports that, a network without layers says it is uninitialised, a layer that does not fit, an uninitialised layer, a second first layer and features of the wrong kind or number are each reported as such. The same fault is reported the same way whatever the sizes, element type and precision.",
  ["inputs", "configurations"], "every method of matrices, layers, networks, losses and one-hot targets that can refuse, all shapes, every single fault",
  NOASSERT + "no test provokes a refusal and looks at its cause.",
  ["src/err/mod.rs", "src/math/matrix/mod.rs", "src/math/matrix/err.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs", "src/cvnn/layer/reduce.rs", "src/cvnn/layer/flatten.rs", "src/cvnn/network/mod.rs", "src/input/mod.rs", "src/math/mod.rs"],
  [("error enumerations and the checks that return them", "src/err/mod.rs; src/math/matrix/err.rs; the methods returning Result")],
  ["error value of each refused call"])
p("C33", "Single and double precision use up the random generator alike",
  "From one seed, any sequence of draws, weights and layers made in single precision leaves the same seed behind as the sequence made in double precision, so everything created later starts from the same place. Plain draws, real weights, and complex weights of the He and Xavier-Glorot-normal methods are equal in the two precisions up to single-precision rounding.",
  ["inputs", "configurations", "histories"], "all seeds, 5 methods, all layer sizes, all sequences of initialisations",
  NOASSERT + "no test builds the same thing in both precisions.",
  ["src/math/mod.rs", "src/init/mod.rs", "src/math/random/mod.rs", "src/cvnn/layer/dense.rs", "src/cvnn/layer/conv.rs"],
  [("gen, gen_he, gen_xa, gen_xagu, gen_xagn in both precisions; lcgf32, lcgf64", "src/math/mod.rs; src/math/random/mod.rs"), ("init of dense and convolutional layers", "src/cvnn/layer/dense.rs, src/cvnn/layer/conv.rs")],
  ["weights drawn in both precisions", "seeds left behind"])
p("C34", "Repeated use does not accumulate memory, open files or threads",
  "Predicting, intercepting, computing losses and accuracies, training, refusing invalid calls, reading and writing files, and creating, editing and dropping matrices, layers, networks and datasets can be repeated without end: once what was created has been dropped, a round leaves behind no more allocated memory, open files or running threads than the rounds before it.",
  ["histories", "configurations"], "all activities, repeated any number of times, on any network, matrix or dataset",
  "Tests call everything once or twice and never measure what is left behind.",
  ["src/math/matrix/mod.rs", "src/cvnn/network/mod.rs", "src/cvnn/layer/mod.rs", "src/dataset/mod.rs"],
  [("ownership of buffers, files and layers by the values that use them", "whole crate")],
  ["bytes allocated and not freed", "open file descriptors", "threads of the process"])
p("C35", "Constants and whole-number conversions are exact",
  "Zero, one and the imaginary unit are exactly those numbers in both precisions, real and complex, and behave as such in sums and products. Converting a whole number gives exactly that number with no imaginary part where the precision holds it, and the nearest representable number otherwise; building a number from parts and reading the parts back returns the identical values.",
  ["inputs"], "all whole numbers the type takes, all finite parts, both precisions, real and complex",
  NOASSERT + "no test converts a whole number or uses the constants.",
  ["src/math/mod.rs", "src/math/cfloat/mod.rs"],
  [("unit, usize_to_real / usize_to_complex, new, default, re, im, I", "src/math/mod.rs")],
  ["constants, conversions and parts"])
p("C36", "Printed numbers and matrices read back to the identical values",
  "Printing a complex number shows its two parts such that reading them back gives the identical values, and printing a matrix shows every element of every row in order, one line per row, followed by its shape and capacity. Printing any number, matrix or network works for every value and size, gives the same text each time, and changes nothing.",
  ["inputs", "configurations"], "all finite numbers, all matrix shapes, all networks, both precisions",
  NOASSERT + "tests print matrices and numbers for a person to look at and never compare the text.",
  ["src/math/cfloat/mod.rs", "src/math/matrix/mod.rs", "src/cvnn/network/mod.rs", "src/cvnn/layer/mod.rs"],
  [("Display and Debug implementations", "src/math/cfloat/mod.rs; src/math/matrix/mod.rs; src/cvnn")],
  ["printed text"])
p("C37", "A failing pooling function spoils nothing but the call it fails in",
  "If the user's pooling function fails during a prediction, interception, collection of activations, loss, accuracy or training call, at whichever of its uses, that call fails and returns no result, and every parameter of the network keeps its exact value. Later calls with a function that works behave, bit for bit, as if the failed call had never happened.",
  ["configurations", "histories", "fault_sequences"], "all networks with pooling layers, all calls, every use of the function within a call",
  NOASSERT + "no test uses a pooling function that fails.",
  ["src/cvnn/layer/reduce.rs", "src/cvnn/network/mod.rs", "src/math/matrix/mod.rs"],
  [("block_reduce, Reduce::foward", "src/math/matrix/mod.rs; src/cvnn/layer/reduce.rs"), ("gradient_opt, loss, max_pred_test, forward, intercept, collect_acts", "src/cvnn/network/mod.rs")],
  ["outcome of the failing call", "predictions before and after", "later training"])
p("C38", "A copy equals its original and is independent of it",
  "Copying a matrix, a vector or set of feature maps, or a dataset gives one with the same entries, shape, capacity and order. Editing, extending or consuming either of the two leaves the other exactly as it was, and a copy accepts, refuses and answers every later edit as the original does.",
  ["inputs", "histories"], "all matrices, features and datasets, copied at any point of an edit history, four element types",
  NOASSERT + "no test edits a copy.",
  ["src/math/matrix/mod.rs", "src/input/mod.rs", "src/dataset/mod.rs"],
  [("Clone of Matrix, IOType and Dataset", "src/math/matrix/mod.rs; src/input/mod.rs; src/dataset/mod.rs")],
  ["entries, shape and capacity of original and copy after every edit of either"])
p("C39", "Image files that cannot be read are never turned into data",
  "If reading an image or label file fails, if its header is cut short, or if it holds a label that is no class, the batch that meets the fault is reported as a failure and not returned as points. Images before the fault are delivered as they are stored.",
  ["inputs", "fault_sequences", "histories"], "all faults of the image or the label file, from the start or after good batches, all batch sizes, the real and the complex reader",
  "No test reads a broken file, and the files the readers need are not in the repository.",
  ["src/dataset/mod.rs"],
  [("minist_as_batch, minist_as_complex_batch", "src/dataset/mod.rs")],
  ["outcome of every batch read"])
p("C40", "Containers release every value they are given exactly once",
  "Values stored in matrices, features and datasets have exactly one holder: after any sequence of additions, refusals, deletions, overwrites, copies, conversions and partial consumption, every value is still where the history says it is or has been released exactly once. A row refused after being moved in is released at once, a row or column refused while being lent stays whole in the caller's buffer, and one accepted while being lent leaves that buffer empty. A copy holds a copy of every value in order, and taking a feature or dataset apart hands over every value or releases it.",
  ["inputs", "histories"], "all edit histories of matrices, features and datasets of values that are counted when copied and released, small and large",
  "All tests store plain numbers, for which a value kept too long or released twice cannot be seen.",
  ["src/math/matrix/mod.rs", "src/input/mod.rs", "src/dataset/mod.rs", "src/cvnn/layer/flatten.rs"],
  [("Matrix editing and consuming operations; IOType copying, release and flattening; Dataset construction, batches and iteration", "src/math/matrix/mod.rs, src/input/mod.rs, src/dataset/mod.rs, src/cvnn/layer/flatten.rs")],
  ["copies and releases of counted values"])
p("C41", "The example programs report and save true averages of their runs",
  "While the example programs train, every batch is reported once and in order, and the average loss, validation loss and accuracy shown with it are the averages of the values reported for the batches of the current pass so far. The learning curves they save hold one value per epoch, the average over its batches, each in the file of its kind, and the signals saved by the regression program are a clean signal, its noisy version and the prediction for it. The training loss falls below that of the first epoch.",
  ["configurations", "histories"], "both programs over whole runs, image files with generated contents",
  "The examples are only compiled by the test suite, never run.",
  ["examples/regression.rs", "examples/classification.rs"],
  [("training and test pipelines of the example programs", "examples/regression.rs, examples/classification.rs")],
  ["standard output and saved files of the running programs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
