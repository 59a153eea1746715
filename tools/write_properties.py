#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Broadcasting binary operators compute the documented element-wise result",
  "For every pair of input shapes that broadcast under the documented rule (equal extent or 1 per dimension, missing leading dimensions are 1) and every supported element type, add, sub, mul, div, mod, maximum, pow, equal, where and broadcast return exactly the element-wise result of the mathematical definition at every index, with the broadcast shape. Operands of mixed element types are first converted to one common result type, which is at least as wide as both and does not depend on operand order, and values representable in that type take part unchanged. Shapes that do not broadcast are rejected with an exception.",
  ["inputs"], "all shapes (rank 0..6, incl. extents 1, SIMD-tail extents and scalars), all element types and type pairs, all finite values",
  "The existing operator tests run a handful of fixed shapes and print results without comparing numbers; broadcasting has special fast paths (same shape, scalar, bias, cross scalar) and vectorised tails that only particular shape pairs reach.",
  ["src/backend/base/element_wise_reduce.cpp", "src/kernels/cpu/add.cpp", "src/kernels/cpu/sub.cpp", "src/kernels/cpu/mul.cpp", "src/kernels/cpu/div.cpp", "src/kernels/cpu/mod.cpp", "src/kernels/cpu/maximum.cpp", "src/kernels/cpu/pow.cpp", "src/kernels/cpu/equal.cpp", "src/kernels/cpu/where.cpp", "src/kernels/cpu/broadcast.cpp", "src/kernels/cpu/math_cpu.cpp"],
  [("ElementWiseReduce::reduce / type promotion table / fast-path selection", "src/backend/base/element_wise_reduce.cpp"), ("typed kernels with SIMD fast paths", "src/kernels/cpu/*.cpp")],
  ["operator output tensors"])
p("C02", "Unary, activation and normalisation operators compute their documented formula",
  "relu, relu_max, leaky_relu, prelu, sigmoid, hard_sigmoid, tanh, exp, abs, sqrt, rsqrt, square, ceil, floor, erf, softplus, softmax, add_bias, batch_norm, batch_scale, fused_batch_norm, l2_norm, norm_image and prewhiten return, for every input shape, channel dimension and supported floating or integer type, the value of their documented formula at every element up to rounding. The result has the shape of the input. Numerically stabilised forms (softmax with smooth) stay finite and sum to one on inputs of large magnitude.",
  ["inputs"], "all shapes and channel dimensions, all finite inputs incl. extreme magnitudes, all parameter values in range",
  "Tests sample one shape per operator and do not compare numbers; SIMD main loop/tail splits, per-thread splits and the in-place execution paths depend on extents.",
  ["src/backend/base/base_activation.cpp", "src/kernels/cpu/softmax.cpp", "src/kernels/cpu/add_bias.cpp", "src/kernels/cpu/batch_norm.cpp", "src/kernels/cpu/batch_scale.cpp", "src/kernels/cpu/fused_batch_norm.cpp", "src/kernels/cpu/prelu.cpp", "src/kernels/cpu/l2_norm.cpp", "src/kernels/cpu/norm_image.cpp", "src/kernels/cpu/prewhiten.cpp", "src/kernels/common/simd_def"],
  [("per-operator kernel loops", "src/kernels/cpu/*.cpp"), ("float32x4/float32x8 vector helpers", "src/kernels/common/simd*")],
  ["operator output tensors"])
p("C03", "Every convolution operator equals direct convolution",
  "conv2d, conv2d_v2, depthwise_conv2d(_v2), transpose_conv2d, conv2d_winograd(_v2) (with raw or pre-transformed kernels), dcn_v2_forward and quantized conv2d compute, for every batch, channel count, spatial size, kernel size, stride, dilation, asymmetric padding and padding value they accept, the result of the direct definition of that convolution at every output position up to rounding. The output extents follow the documented floor formula. Which internal algorithm is selected (im2col, packed gemm, specialised 3x3, winograd, direct) never changes the result beyond rounding.",
  ["inputs", "configurations"], "all geometry parameters and tensor extents accepted by the operators; packed and unpacked kernels",
  "The algorithm is selected from channel counts, kernel size, stride and output size; the tests touch a few configurations of test_winograd and check nothing about packing tails, dilation or asymmetric padding.",
  ["src/kernels/cpu/conv2d_core.cpp", "src/kernels/cpu/conv2d_algorithm.cpp", "src/kernels/cpu/im2col.cpp", "src/kernels/cpu/depthwise_conv2d_algorithm.cpp", "src/kernels/cpu/depthwise_conv2d_core.cpp", "src/kernels/cpu/winograd_algorithm.cpp", "src/kernels/cpu/conv2d_winograd.cpp", "src/kernels/cpu/transpose_conv2d_core.cpp", "src/kernels/cpu/pad2d_algorithm.cpp", "src/kernels/cpu/dcn_v2_forward.cpp", "src/kernels/cpu/quantized"],
  [("algorithm selection", "src/kernels/cpu/conv2d_core.cpp"), ("winograd transforms", "src/kernels/cpu/winograd_algorithm.cpp"), ("output size formula", "src/backend/common_function.cpp")],
  ["operator output tensors"])
p("C04", "Pooling, padding and auto-padding operators match their documented windows",
  "pooling2d, pooling2d_v2 and global_pooling2d (max and average, NCHW and NHWC where accepted, every padding type) return for each output position the maximum or mean over exactly the window the documented ceil formula defines, and pad returns the input surrounded by exactly the requested margins (negative margins crop). The dynamic padding operators of the TensorFlow, MXNet, ONNX and Dragon front ends return the paddings that produce the output size documented for their mode. No output element depends on data outside the input tensor.",
  ["inputs", "configurations"], "all extents, kernel sizes, strides, paddings, modes",
  "Tests run one or two pooling configurations; window clipping at borders, ceil-mode overhang and the SIMD special cases (2x2/3x3 kernels, stride 1/2) depend on the geometry.",
  ["src/kernels/cpu/pooling2d_core.cpp", "src/kernels/cpu/pooling_algorithm.cpp", "src/kernels/cpu/global_pooling2d.cpp", "src/kernels/cpu/pad.cpp", "src/kernels/cpu/pad_cpu.cpp", "src/backend/tf/pooling2d_padding.cpp", "src/backend/tf/conv2d_padding.cpp", "src/backend/onnx/pooling2d_auto_pad.cpp", "src/backend/dragon/pooling2d_auto_pad.cpp", "src/backend/dragon/conv2d_padding.cpp", "src/backend/mxnet/pooling2d_padding.cpp"],
  [("pooling2d_forward output size", "src/backend/common_function.cpp"), ("windowed kernels", "src/kernels/cpu/pooling_algorithm.cpp")],
  ["operator output tensors"])
p("C05", "Matrix products, recurrence, reductions and ranking equal their definition",
  "gemm, inner_prod, matmul, LSTM, reduce_sum, reduce_mean, argmax and topkv2 return, for every matrix extent, transpose flag, scaling, broadcastable bias, reduced dimension set and keep flag, the value of the mathematical definition at every element up to rounding. Ties in argmax and topkv2 select values that are genuinely maximal, each selected index is in range and addresses the value returned for it. Results are the same whether the right operand was pre-packed or not.",
  ["inputs", "configurations"], "all extents incl. packing tails (4, 8, 12, 16 blocks), all flags, all dims (also negative)",
  "The packed GEMM has blocked main loops with several tail paths; tests print results of a few square sizes only.",
  ["src/kernels/cpu/math_cpu.cpp", "src/kernels/cpu/cpu_gemm.cpp", "src/kernels/cpu/gemm.cpp", "src/kernels/cpu/inner_prod.cpp", "src/kernels/cpu/matmul.cpp", "src/kernels/cpu/lstm.cpp", "src/kernels/cpu/reduce_sum.cpp", "src/kernels/cpu/reduce_mean.cpp", "src/kernels/cpu/argmax.cpp", "src/kernels/cpu/topkv2.cpp"],
  [("packed gemm", "src/kernels/cpu/math_cpu.cpp"), ("reduction index arithmetic", "src/kernels/cpu/reduce_*.cpp")],
  ["operator output tensors"])
p("C06", "Data-movement operators are exact permutations, selections or copies",
  "reshape, flatten, squeeze, unsqueeze, expand, transpose, dimshuffle, concat, stack, split, chunk, slice (all versions), strided_slice, gather (all versions), scatter_nd, tile, space_to_batch, batch_to_space, crop_to, limit, shape, dims, range, constant_of_shape and cast move every element bit-exactly to the position their numpy/ONNX/TensorFlow definition gives, for every shape, element type, negative or defaulted axis and index. chunk/split followed by concat, space_to_batch followed by batch_to_space and a permutation followed by its inverse give back the original tensor. Indices outside the range are rejected with an exception rather than read.",
  ["inputs"], "all shapes (incl. extent 1 and large), element types of every width, axes, index tensors, step signs",
  "Each operator has stride arithmetic with fast paths keyed on extents and element width; tests exercise at most one shape and never a second element type.",
  ["src/kernels/cpu/transpose.cpp", "src/kernels/cpu/concat.cpp", "src/kernels/cpu/strided_slice.cpp", "src/kernels/cpu/slice_v3.cpp", "src/kernels/cpu/gather.cpp", "src/kernels/cpu/scatter_nd.cpp", "src/kernels/cpu/tile.cpp", "src/kernels/cpu/batchtospace4d.cpp", "src/kernels/cpu/spacetobatch4d.cpp", "src/kernels/cpu/dimshuffle.cpp", "src/kernels/common", "src/backend/base"],
  [("shape/stride arithmetic per operator", "src/backend/base/*.cpp, src/kernels/cpu/*.cpp")], ["operator output tensors"])
p("C07", "Image resize and sampling operators sample the documented source positions",
  "resize2d (linear, cubic, nearest, hard), sample2d, sample2d_v2, resize_nearest_neighbor, affine_sample2d, nhwc_scale_resize2d, nhwc_center_crop2d, nhwc_letterbox, divided, force_color and force_gray produce, for every input and target size and element type, at every output pixel the interpolation of the source pixels at the mapped position with the operator's rule, clamping at the border or using the configured outside value. Each channel and each batch item is treated independently, resizing to the same size is the identity, and outputs of interpolations with non-negative weights stay within the range of the input.",
  ["inputs", "configurations"], "all source/target sizes (up- and down-scaling, extents of 1), all element types, channel counts, methods, affine matrices",
  "Only printed by tests for one picture size; border rows, single-pixel images and integer rounding are reached by specific sizes only.",
  ["src/kernels/cpu/resize2d.cpp", "src/kernels/cpu/affine_sample2d.cpp", "src/kernels/cpu/sample2d.cpp", "src/kernels/common/third", "src/backend/base/base_resize2d.cpp", "src/backend/common", "src/kernels/cpu/force_color.cpp", "src/kernels/cpu/force_gray.cpp"],
  [("interpolation kernels", "src/kernels/cpu/resize2d.cpp"), ("affine sampling", "src/kernels/cpu/affine_sample2d.cpp")], ["operator output tensors"])
p("C08", "Detection and region operators return sound, complete and ordered results",
  "non_max_suppression_v3, proposal, roi_align, shape_index_patch, prior_box, detection_output, yolo and yolo_poster return what their definition gives: suppression keeps, in descending score order, exactly the greedy set (no two kept boxes of a class overlap above the threshold and every dropped box is either below the score threshold, beyond the count limit or overlapped by a better kept box). Every returned index and box refers to an input box, and region pooling averages only values of the region's own feature map. Equal inputs always give equal outputs.",
  ["inputs"], "all numbers of boxes and classes incl. zero and one, ties, degenerate and overlapping boxes, all thresholds",
  "These operators have no test with a checked result; their behaviour depends on orderings, ties and empty selections.",
  ["src/kernels/cpu/non_max_suppression_v3.cpp", "src/kernels/cpu/proposal.cpp", "src/kernels/cpu/roi_align.cpp", "src/kernels/cpu/prior_box.cpp", "src/kernels/cpu/detection_output.cpp", "src/kernels/cpu/caffe/bbox_util.cpp", "src/kernels/cpu/yolo.cpp", "src/kernels/cpu/yolo_poster.cpp", "src/kernels/cpu/shape_index_patch.cpp"],
  [("greedy suppression", "src/kernels/cpu/non_max_suppression_v3.cpp"), ("bbox utilities", "src/kernels/cpu/caffe/bbox_util.cpp")], ["operator output tensors"])
p("C09", "Shape and type inference predicts exactly what execution produces",
  "For every operator and every accepted input, the element type, shape and number of packed fields an operator announces before running are those of the tensor it then produces. When the static graph inference determines a result type and shape for a node from its inputs' declared types and shapes, it is compatible with what execution produces (unknown extents may be left open, but no stated extent or type may be wrong). An input for which the announcement succeeds is never answered with a differently shaped result.",
  ["inputs", "programs"], "all operators, parameters and input prototypes",
  "Two independent implementations of the same rule per operator (infer and run), plus a third (static inferer); tests call at most one of them per operator.",
  ["src/backend/base", "src/runtime/inferer/factory.cpp", "src/runtime/inferer.cpp", "src/runtime/operator.cpp"],
  [("Operator::infer vs Operator::run", "src/backend"), ("ShapeInferer table", "src/runtime/inferer/factory.cpp")], ["inferred prototypes and output tensors"])
p("C10", "Operators never touch memory outside their tensors nor read uninitialised memory",
  "On every input an operator accepts, and on every input it rejects, execution performs no read or write outside the tensors it was given or allocated, no undefined arithmetic and no invalid conversion, and does not modify its input tensors or parameters. The bits of every result are a function of the inputs and parameters alone: they do not depend on the previous content of freshly allocated memory, on earlier runs of the same operator object, or on where tensors are placed. Inputs an operator cannot handle are answered with an exception, never with a crash.",
  ["inputs", "histories"], "all operators; valid, boundary and ill-formed inputs and parameters; arbitrary previous memory contents; repeated runs",
  "Test runs without sanitizers in pooled memory never notice overreads or stale bytes, and only supply well-formed inputs.",
  ["src/kernels/cpu", "src/backend", "src/kernels/common", "src/runtime/operator.cpp", "src/core/tensor.cpp"],
  [("argument validation in infer()", "src/backend/base"), ("kernel loop bounds", "src/kernels/cpu"), ("Operator::TryRun guard", "src/runtime/operator.cpp")],
  ["sanitizer reports", "results under different fill patterns", "input tensors after run"])
p("C11", "A compiled program computes the value of its graph",
  "For every acyclic graph of operators, constants and inputs - with shared sub-expressions, several outputs, repeated outputs, inputs that are outputs, packed values and fields - and every input, running the compiled program yields for each output the value obtained by evaluating the graph node by node. Folding constant sub-graphs ahead of time, scheduling, and sharing of operands between consumers never change a result, and outputs and inputs keep the order given for the module.",
  ["programs", "inputs"], "all graph shapes, operator assignments and input values",
  "Tests compile two or three fixed graphs; the stack-code generation depends on operand order, reuse counts and constants in ways only graph diversity reaches.",
  ["src/compiler/compiler.cpp", "src/runtime/program.cpp", "src/runtime/instruction", "src/module/module.cpp", "src/module/graph.cpp", "src/compiler/translater.cpp", "src/runtime/workbench.cpp"],
  [("stack code generation", "src/compiler/compiler.cpp"), ("run_const_nodes", "src/compiler/compiler.cpp"), ("topological order", "src/module/module.cpp")], ["program outputs"])
p("C12", "Compile options and compilation itself never change a model's meaning",
  "For every model, compiling with weight packing on or off, with the filter option on weights it does not have to flush, or with half precision (up to half-precision rounding) gives programs with the same outputs. Compiling does not alter the model: the same module can be compiled any number of times, saved afterwards, and its constants may be shared between several consumers, with the same results. Unknown or malformed options are reported or ignored but never change results.",
  ["programs", "configurations", "histories"], "all graphs, option strings, and sequences of compile/save/load on one module",
  "No test compiles one module twice, shares a weight between operators or compares results across options.",
  ["src/compiler/option/pack_translator_option.cpp", "src/compiler/option/fp16_translator_option.cpp", "src/compiler/option/zipper_option.cpp", "src/compiler/translater.cpp", "src/compiler/zipper.cpp", "src/compiler/compiler.cpp", "src/compiler/argparse.cpp"],
  [("translator options", "src/compiler/option"), ("kernel_packed attribute", "src/compiler/option/pack_translator_option.cpp")], ["program outputs across compilations", "module bytes before and after compiling"])
p("C13", "Workbench runs are repeatable, isolated and addressable by name or slot",
  "Running a workbench any number of times, with any interleaving of changed and unchanged inputs, input shapes, bound filters and other programs loaded on it, gives for each run the outputs a fresh workbench gives for the inputs in force. An output obtained from a run keeps its value when later runs happen, inputs are not modified, and inputs and outputs addressed by name or by slot are the same tensors. A cloned workbench or program behaves exactly like the original, a failed run is reported with an exception and leaves the workbench usable, and hooks and run-time parameter changes return or affect exactly the named nodes.",
  ["histories", "inputs"], "all sequences of workbench operations (input, bind filter, run, output, clone, hook, parameter change, failing runs)",
  "Tests run a workbench once or a few times with the same input; state carried between runs is invisible to them.",
  ["src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/runtime.cpp", "src/runtime/instruction/instruction.cpp", "src/core/tensor.cpp"],
  [("Workbench::run / launch", "src/runtime/workbench.cpp"), ("Program::clone", "src/runtime/program.cpp")], ["outputs of every run in a recorded history"])
p("C14", "Cloned workbenches run concurrently without races and with serial results",
  "When several threads each use their own workbench (cloned from one original or created from one module), concurrently creating, compiling, running, reading outputs of and destroying them, every thread gets exactly the results of a serial execution. No data race occurs on anything the workbenches share (weights, operator registries, devices, memory). Destroying the original while clones run does not affect the clones.",
  ["schedules", "programs"], "all interleavings of per-thread workbench operations for any number of threads",
  "No existing test runs two workbenches at once; races need particular schedules and are invisible without a race detector.",
  ["src/runtime/workbench.cpp", "src/core/memory.cpp", "src/utils/ctxmgr.h", "src/global", "src/runtime/operator.cpp", "src/core/tensor.cpp", "src/utils/implement.h"],
  [("thread-local context binding", "src/utils/ctxmgr_lite.h"), ("shared weights through shared ownership", "src/runtime/program.cpp")], ["ThreadSanitizer reports", "per-thread outputs"])
p("C15", "Results do not depend on the number of computing threads",
  "For every operator and model, running with 1, 2, 3 or more computing threads (per-workbench or per-device setting) gives the same results, equal up to summation-order rounding and bit-identical for operators without reductions, including workloads with fewer work items than threads. Each run's thread count is the one configured for that workbench.",
  ["configurations", "inputs", "schedules"], "all thread counts and extents incl. extents smaller than the thread count",
  "The tests run with the default thread count only; work splitting per thread is keyed on extents.",
  ["src/kernels/cpu", "src/runtime/runtime.cpp", "src/kernels/common/openmp.h", "include/runtime/inside/parallel.h"],
  [("OpenMP loops with openmp_threads()", "src/kernels/cpu"), ("RuntimeContext::set_computing_thread_number", "src/runtime/runtime.cpp")], ["outputs per thread count"])
p("C16", "Thread pools and parallel loops run every task exactly once and terminate",
  "Every task submitted to a thread pool and every index of a parallel range is executed exactly once, by one thread at a time per slot, and all effects are visible when the join or the parallel call returns, whatever the number of threads, tasks and ranges. Splitting a range into bins yields contiguous, disjoint, covering, balanced bins. Creating and destroying pools and runtime contexts always terminates, also immediately after creation or while tasks are still queued.",
  ["schedules", "inputs"], "all interleavings of submit/join/destroy and all ranges and bin counts",
  "test_parallel runs one pool size with sleeping tasks and prints; lost wake-ups and shutdown races need particular schedules.",
  ["src/utils/box.cpp", "src/runtime/inside/thread_pool.cpp", "include/runtime/inside/parallel.h", "src/runtime/runtime.cpp", "include/utils/box.h"],
  [("Thread::operating / ThreadPool::run / join", "src/runtime/inside")], ["per-task execution log", "ThreadSanitizer reports", "termination within deadline"])
p("C17", "Memory managers never hand out overlapping memory and give everything back",
  "For every sequence of allocate, resize, free and clone operations on every memory controller (plain, stack, vat/flow, synchronised) and shared tensor memory, live blocks are disjoint and at least as large as requested, the content of a block is preserved until freed (and its common prefix across a resize), and after all users are gone every byte obtained from the device allocator has been returned exactly once. Program runs return all working memory except what outputs still hold.",
  ["histories"], "all allocation/free histories incl. zero sizes, out-of-order frees, and blocks outliving their controller",
  "Tests allocate and free a few blocks; reuse, splitting, merging and lifetime-extension logic depends on the order of frees.",
  ["src/memory/flow.cpp", "src/memory/orz/vat.cpp", "src/core/controller.cpp", "src/core/memory.cpp", "src/core/hard_memory.cpp", "src/core/sync/sync_controller.cpp", "src/memory"],
  [("Vat (flow) pool", "src/memory/orz/vat.cpp"), ("MemoryBlock shared use count", "src/core/memory.cpp")], ["addresses, sizes and contents of live blocks", "device allocator event log"])
p("C18", "Tensor handles keep their semantics under sharing, reshape, slice and packing",
  "Tensor and its packed form behave as documented handles for every history of copy, move, clone, reshape, slice, field access, pack, refield, view/sync and weak access: shape, element type, count, strides and element addresses always describe the same data, copies share data, clones never do, an equal-size reshape keeps all elements, and a synchronised view returns the last written value. Operations that cannot be carried out are rejected with an exception and leave the tensor unchanged.",
  ["histories", "inputs"], "all operation histories on tensors of all types and shapes",
  "Tests build a few tensors and print them; aliasing and lifetime behaviour needs long random histories against a model.",
  ["src/core/tensor.cpp", "include/core/tensor.h", "src/core/tensor_builder.cpp", "src/core/memory.cpp", "include/core/sync", "src/core/tensor_iterator.cpp"],
  [("Tensor shared data and fields", "src/core/tensor.cpp"), ("SyncBlock state", "include/core/sync/sync_block.h")], ["tensor observers after each operation"])
p("C19", "Saving and loading a tensor, graph or module gives back the same object",
  "For every tensor (any element type and shape, packed or empty), node, graph and module, writing and then reading it - through memory or file, plain or repeated - gives back an object with identical structure, names, parameters, element types, shapes, input/output order and bits, and consumes exactly the bytes written, so several objects can follow one another in a stream. Saving is deterministic and a loaded module computes what the original computes. The byte layout is the published one, so files written before stay readable.",
  ["inputs", "programs"], "all tensors, bubbles, graphs and modules",
  "test_serialization saves and loads one graph and prints it; types, empty and packed tensors, shared nodes and name collisions are not covered.",
  ["src/core/tensor.cpp", "src/module/bubble.cpp", "src/module/graph.cpp", "src/module/module.cpp", "src/module/header.cpp", "src/module/io"],
  [("serialize/externalize pairs", "src/core/tensor.cpp, src/module")], ["byte streams and reconstructed objects"])
p("C20", "Damaged or hostile model data is rejected without memory errors",
  "Loading, compiling and running any byte sequence as a module or tensor - truncated anywhere, bit-flipped, with inconsistent counts, sizes, indices, types or cyclic references - either yields a usable object or is reported as an error. It never reads or writes out of bounds, never fails to terminate, never crashes the process, and never allocates memory out of proportion to the data supplied. A prefix of a valid file is never silently accepted as the complete model.",
  ["inputs", "fault_sequences"], "all byte strings; all truncations and corruptions of valid files; short reads of the stream",
  "No test feeds damaged data at all.",
  ["src/core/tensor.cpp", "src/module/module.cpp", "src/module/graph.cpp", "src/module/bubble.cpp", "src/module/header.cpp", "src/utils/ieee754_float.cpp", "src/module/io"],
  [("length and index checks in externalize/Load", "src/module")], ["sanitizer reports", "outcome classification per input"])
p("C21", "Encrypted streams and files return exactly what was written, or an error",
  "For every key and every content length, data written through the encrypting stream in any sequence of write sizes is read back bit-exactly through the decrypting stream in any sequence of read sizes, with the end of data reported at exactly the written length. Encryption is AES in the published mode, so blocks agree with the standard's test vectors. A wrong key, truncated or damaged file leads to an error or other data, never to a memory error.",
  ["inputs", "histories", "fault_sequences"], "all keys, contents, chunkings and corruptions",
  "No test covers encryption; block boundary handling depends on length modulo block size and on the chunking.",
  ["src/encryption/aes.cpp", "src/encryption/aes.h", "src/module/io/fstream_crypto.cpp", "src/module/io"],
  [("AESFileStreamWriter/Reader buffering and padding", "src/module/io")], ["bytes written and read", "independent AES reference"])
p("C22", "The C interface reports every failure as an error value and never lets it escape",
  "For every function of the C interface and every argument (null pointers, negative counts, wrong types or ids, unknown names, released resources of other objects), failures are reported through the return value plus a message retrievable by the calling thread, no C++ exception crosses the boundary, and successful calls leave no stale failure. The error message of one thread never appears in another. Every object created is released by its free function with nothing leaked, and objects stay valid while anything created from them is alive.",
  ["histories", "inputs", "schedules"], "all call sequences over the interface, from any number of threads",
  "The tests do not exercise the C interface's failure paths.",
  ["src/api", "include/api", "src/api/declaration.h", "src/api/common.cpp"],
  [("TRY_HEAD/RETURN_OR_CATCH macros", "src/api/common.h"), ("thread-local last error message", "src/utils/ctxmgr")], ["return values, messages, sanitizer and leak reports"])
p("C23", "Element-type conversion preserves every value the target type can represent",
  "Converting tensors between any two element types keeps every value representable in the target type exactly, rounds or truncates other finite values to a neighbour the target can represent, keeps order and sign, and is the same through every conversion route (cast operator, tensor utilities, typed accessors, to_float). Half precision and fixed-point (sink) types round-trip their own representable values exactly and their arithmetic error is within one unit of their resolution. Shape and element count are preserved.",
  ["inputs"], "all pairs of element types and all values incl. denormals, limits and all 65536 half-precision patterns",
  "test_sink checks a handful of values; the half-precision type is not tested at all.",
  ["src/core/tensor_builder.cpp", "src/kernels/cpu/cast.cpp", "src/kernels/cpu/to_float.cpp", "include/core/ieee754_float.h", "include/core/sink.h", "include/core/dtype.h"],
  [("type conversion tables", "src/core/tensor_builder.cpp"), ("ieee754_float encode/decode", "include/core/ieee754_float.h")], ["converted values"])
p("C24", "An image filter applies exactly its configured steps in order",
  "For every sequence of filter steps (to_float, to_chw, scale, sub_mean, div_std, resize, center_crop, channel_swap, prewhiten, letterbox, divided, force_color, force_gray, norm_image) and every image, the filter's result equals applying the steps one after the other with their documented meaning. A filter gives the same result for the same image any number of times, after cloning, when bound to a workbench input, and after being cleared and rebuilt. Modules carrying a filter compile to the same results as running filter and network separately.",
  ["programs", "inputs", "histories"], "all step sequences, image sizes and types, reuse histories",
  "No existing stable test composes filters; per-step parameter and layout interplay is only visible in sequences.",
  ["src/runtime/image_filter.cpp", "src/api/image_filter.cpp", "src/runtime/workbench.cpp"],
  [("ImageFilter step graph", "src/runtime/image_filter.cpp")], ["filter outputs"])
p("C25", "Operand stacks and scoped contexts keep strict last-in first-out discipline",
  "For every history of operations, the operand stack (push, pop, erase, index with positive and negative positions, base shifting, clone) equals a plain list restricted by its base, rejects out-of-range access with an exception, and never loses or duplicates a value. Scoped context bindings are visible to the binding thread only, nest, and restore the previous binding when they end, also when an exception unwinds them; per-thread contexts never leak into other threads.",
  ["histories", "schedules"], "all operation histories; all nestings and thread interleavings",
  "test_stack performs one fixed sequence; out-of-range and rebase combinations are not sampled.",
  ["src/runtime/stack.cpp", "include/runtime/stack.h", "include/utils/ctxmgr.h", "include/utils/ctxmgr_lite.h", "src/core/device_context.cpp"],
  [("Stack::base / index translation", "src/runtime/stack.cpp"), ("thread-local context stack", "include/utils/ctxmgr_lite.h")], ["stack contents after each operation", "bound context after each operation"])

p("C26", "Graph-building and immediate functions do what the operator they name does",
  "For all arguments, a node built by one of the symbolic or front-end functions computes what the operator it names computes on the same inputs and parameters, carries the given name and keeps the order of its inputs, whether sizes, indexes, paddings and matrices are given as tensors or as numbers. The immediate functions return the same values, refuse what the operator refuses, and leave their inputs, earlier results and the caller's operand stack untouched.",
  ["inputs", "programs"], "all argument forms and values of the sixteen functions; all programs composed of them",
  "No test calls symbol::concat, symbol::broadcast or most overloads; the tests call single functions once.",
  ["src/frontend/desc.cpp", "src/frontend/symbol.cpp", "src/frontend/frontend.cpp", "src/frontend/intime.cpp"],
  [("symbol::*", "src/frontend/symbol.cpp"), ("intime::run", "src/frontend/intime.cpp")], ["values computed by built graphs", "returned tensors", "operand stack after the call"])

p("C27", "The C++ interface behaves as the C interface it wraps",
  "Every sequence of calls through the C++ classes and functions gives the values that the same sequence gives through the C interface, throws a ts::api::Exception carrying the C interface's message exactly where the C interface reports a failure, and leaves no object or memory behind once the handles are gone. Operators written as C++ classes are created, initialised, inferred, run and destroyed like those written in C, whatever their other bases. Streams, tensor builders, conversions, type tables and 2D transformations agree with their plain meaning for all values.",
  ["histories", "inputs"], "all sequences of calls in all overloads, from several threads; all element types, chunkings and transformations",
  "The tests never use the C++ interface; it is header only code that no test compiles.",
  ["include/api/cpp/tensor.h", "include/api/cpp/workbench.h", "include/api/cpp/stream.h", "include/api/cpp/operator.h", "include/api/cpp/graphics2d.h"],
  [("ts::api::*", "include/api/cpp/"), ("RegisterOperator", "include/api/cpp/operator.h")], ["values and exceptions of each call", "live operators, handles and heap blocks", "bytes delivered by streams"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
