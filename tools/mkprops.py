import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"state":[{"name":x,"meaning":x} for x in state],"observe_at":list(observe),"hook_needed":hook}})
ALL=["src/basic","src/core","src/math","src/nn"]
OPS="every public tensor operation"
p("C01","No operation leaks memory on any path",
  "Every block of memory an operation obtains while running is released before it returns, except the blocks that make up the tensor it hands back to the caller. This holds on every return path: success, argument rejection, and failure of any single allocation.",
  ["inputs","fault_sequences"],"all dtypes, shapes and argument values, and every single allocation failure, of every public operation",
  "Tests only take success paths and never count outstanding allocations; error paths multiply with every allocation and nested call.",
  ALL,[("CHECK_STATUS early returns","src/core/utils.h"),("output construction and scratch buffers","src/basic/slice.c, src/math/matmul.c, src/nn/batch_norm.c, src/nn/pooling.c, src/nn/conv.c")],
  ["live allocations"],["allocator calls","returned status"])
p("C02","Memory is released exactly once and never used afterwards",
  "No operation releases a block twice, uses a block after releasing it, releases a pointer that was never obtained from the allocator, or releases memory owned by the caller (an input tensor or an argument array).",
  ["inputs","fault_sequences"],"every path of every public operation, including failure of any single allocation",
  "A double release or stale use on one error path is invisible unless exactly that fault is provoked under a memory checker.",
  ALL,[("destroy chain","src/core/tensor.c, src/core/shape.c, src/core/storage.c"),("temporaries","src/math, src/nn")],["allocation state"],["allocator calls"])
p("C03","Inputs and argument arrays are read-only",
  "No operation that produces a new tensor modifies any input tensor (its elements, extents, layout, dtype or device) or any argument array the caller passes in.",
  ["inputs"],"every operation, dtype, shape and argument value","Tests check outputs; a transient or conditional write to an input stays unseen for the sampled values.",
  ALL,[("kernels taking input pointers","src/basic, src/math, src/nn")],["input tensors"],["stores"])
p("C04","Result tensors share no storage with their inputs",
  "The tensor returned by an operation owns fresh storage: its element buffer, extents and layout alias neither an input tensor nor a caller array, so destroying or changing one never affects the other. Creating a tensor from caller data is the one documented exception: it adopts the supplied element buffer, but nothing else.",
  ["inputs"],"every operation that returns a tensor, all dtypes and shapes including rank 0","Aliasing shows only when one tensor is destroyed or written after the other is still in use; tests destroy in one order.",
  ALL,[("aitisa_create / storage creation","src/core/tensor.c, src/core/storage.c"),("reshape, squeeze, cast, duplicate","src/basic")],["storage ownership"],["output pointers"])
p("C05","Success delivers a complete tensor; failure leaves no dangling output",
  "When an operation reports success, the output holds a freshly built tensor all of whose metadata and elements have been written. When it reports failure, the output variable is either unchanged or null or holds a complete, destroyable tensor; it never receives an uninitialised or already released pointer.",
  ["inputs","fault_sequences"],"every return path of every public operation, including single allocation failures","Partial initialisation depends on which path and which elements; tests look at sampled elements after success only.",
  ALL,[("output assignment","every src/**/*.c operation")],["*output"],["returned status and *output"])
p("C06","Every outcome is reported with a defined status",
  "Every path through every public operation that declares a status returns one of the defined status codes. A failure reported by any step the operation performs internally is passed on to the caller and never turned into success or ignored.",
  ["inputs","fault_sequences"],"all paths of all operations, each internal step failing in every way it can","A missing return or a dropped status usually works by accident on the tested platform and inputs.",
  ALL,[("CHECK_STATUS","src/core/utils.h"),("status returns","src/**/*.c")],[],["returned status"])
p("C07","Any single allocation failure is survived and reported",
  "If any one allocation made during an operation fails, the operation never dereferences the null result and returns the allocation-failure status instead of success.",
  ["fault_sequences","inputs"],"each allocation of each operation failing once, for all dtypes and shapes","There are well over a hundred allocation points reached through nested operations; tests never make one fail.",
  ALL,[("raw_alloc call sites","src/**/*.c")],["allocator"],["allocator calls, returned status"])
p("C08","All library memory goes through the installed allocator",
  "Every block the library obtains or releases goes through the currently installed allocate/release function pair; no library code calls the C heap functions directly, and a block obtained through one is never released through the other.",
  ["configurations","inputs"],"every custom allocator pair and every operation","With the default allocator, direct and indirect calls behave identically, so a bypass shows only under a custom allocator.",
  ALL,[("default cpu allocator","src/core/allocator.h, src/core/allocator.c")],["installed allocator"],["allocator calls"])
p("C09","Each operation supports exactly its documented element types",
  "Convolution accepts float tensors only, the sigmoid and hyperbolic-tangent activations float and double only, and every other operation accepts all ten element types; a type outside that set is rejected as not supported. An accepted tensor is processed with the width and signedness of its own element type, whichever of the ten it is.",
  ["inputs"],"all ten element types for every operation","Tests use one or two types per operation; dispatch is duplicated per type.",
  ["src/core/dispatch.h","src/core/types.c","src/basic","src/math","src/nn"],[("type dispatch","src/core/dispatch.h"),("typed accessor tables","src/core/types.c")],[],["returned status, element accesses"])
p("C10","The element-type registry is consistent everywhere",
  "For each of the ten element types, the public constant, the type code, the element size, the entries of every typed accessor table and the automatic-testing framework's mirror of these tables all denote the same C type, and no table has a missing or extra entry.",
  ["inputs"],"all ten element types and every table indexed by them","Tests touch a few types; a swapped pair of same-width entries passes for small positive values.",
  ["src/core/types.h","src/core/types.c","auto_test/basic.cpp"],[("dtype constants and accessor tables","src/core/types.c"),("mirror table","auto_test/basic.cpp")],["type tables"],["accessor functions"])
p("C11","Elementwise operations compute their equation at every element",
  "For every element position, element-wise addition, subtraction, multiplication and division yield the result of the C operator in the element type; relu yields max(x,0); square root, sigmoid and hyperbolic tangent yield their function of that element; a filled tensor holds the converted fill value everywhere.",
  ["inputs"],"all positions, shapes, supported element types and element values","Tests check a handful of elements of one or two shapes and types.",
  ["src/math/binary_op.c","src/math/sqrt.c","src/nn/relu.c","src/nn/sigmoid.c","src/nn/tanh.c","src/basic/factories.c"],[("per-type kernels","src/math/binary_op.c, src/nn/*.c")],[],["output elements"])
p("C12","Bad arguments are rejected with the documented status, valid ones accepted",
  "Each operation rejects every argument combination outside its documented domain with the documented error status before producing a result, and accepts every combination inside it.",
  ["inputs"],"all argument values, ranks, extents, types and devices for each operation","Boundary values and combinations are unbounded; tests pick a few invalid cases for few operations.",
  ALL,[("check_parameters functions","src/basic, src/math, src/nn")],[],["returned status"])
p("C13","Result tensors have the documented shape, type, device and layout",
  "On success the result's rank and extents follow the operation's shape rule for every input shape, its size is the product of its extents and matches its storage, and its element type and device are those of the input (or those requested for creation, filling and casting).",
  ["inputs"],"all ranks, extents and operation arguments","Tests check few concrete shapes, so rank- or extent-dependent errors survive.",
  ALL,[("output construction","src/basic, src/math, src/nn")],["tensor metadata"],["output tensor"])
p("C14","Operations handle every element of tensors of any representable size",
  "Loops and index computations over elements, rows, columns or batches use arithmetic wide enough for the 64-bit sizes tensors can have, so an operation neither skips elements, loops forever nor wraps an index on a tensor with more than 2^31 elements.",
  ["inputs"],"all extents a 64-bit size can express","Triggering it needs multi-gigabyte tensors, which no unit test allocates.",
  ["src/basic","src/math","src/nn"],[("element loops","src/basic/factories.c, src/basic/slice.c, src/math/*.c, src/nn/*.c")],[],["loop counters and index expressions"])
p("C15","Operations keep no hidden state and are deterministic",
  "An operation's status and result depend only on its arguments and the installed allocator: the library has no other mutable global or static state and calls no time, random, environment, file, thread or process service, with the pseudo-random draw of dropout as the only exception.",
  ["schedules","histories","inputs"],"all call sequences and concurrent calls on distinct tensors","History and interleaving dependence cannot be seen by single-threaded tests that call an operation once.",
  ALL,[("global variables and external calls","src/**/*.c")],["globals"],["global accesses and external calls"])
p("C16","Everything the public headers offer can be linked by a client",
  "Each function and object that the public headers declare as public API, and each object that an inline function in a public header refers to, is defined and exported by the shared library, so client code using any public header links.",
  ["programs"],"every client program that uses public declarations","Tests use some functions only; an unexported symbol is discovered by the first client that needs it.",
  ["src/core/macros.h","src/core/allocator.h","src/core/tensor.h"],[("export macros","src/core/macros.h")],[],["exported symbols"])
p("C17","Tensor creation and destruction uphold the tensor invariants",
  "A created tensor has the given element type, device and extents, a size equal to the product of the extents, row-major layout order and storage of exactly that size. Destroying a tensor releases every block it owns exactly once and clears the handle; destroying an empty handle succeeds and does nothing; resolving a tensor reports exactly those values.",
  ["inputs","histories"],"all ranks, extents, element types, with or without caller data","Ownership completeness is not observable from outside without tracking the allocator.",
  ["src/core/tensor.c","src/core/shape.c","src/core/storage.c"],[("create/destroy/resolve","src/core/tensor.c")],["tensor, shape, storage"],["created tensor, allocator calls"])
p("C18","Stride, offset and coordinate helpers follow row-major order",
  "The stride of a dimension is the product of all later extents, coordinates convert to the linear index given by those strides, conversions back return the original coordinates, the size helpers multiply exactly the extents they name, and broadcasting two extent lists follows the right-aligned rule that equal or unit extents combine and any other pair is an error.",
  ["inputs"],"all ranks, extents and coordinates","Round-trip laws over all coordinates and shapes cannot be sampled exhaustively.",
  ["src/basic/index_utils.c","src/core/utils.h","src/basic/broadcast.c"],[("index helpers","src/basic/index_utils.c"),("extent products","src/core/utils.h"),("broadcast rule","src/basic/broadcast.c")],[],["returned indices"])
p("C19","Matrix and dot products sum over exactly the contracted dimension",
  "Every element of a dot or matrix product is the sum, over exactly the contracted index, of products of the matching row element of the first operand and column element of the second, for vector, matrix and batched operands, with scalar operands of dot scaling the other operand.",
  ["inputs"],"all operand ranks, extents and element types","Tests use few small shapes, where stride or bound errors coincide with correct results.",
  ["src/math/dot.c","src/math/matmul.c"],[("contraction kernels","src/math/dot.c, src/math/matmul.c")],[],["output elements"])
p("C20","Dropout only ever zeroes elements",
  "Every element of a dropout result is either exactly the input element or zero, whatever random values are drawn; a rate of zero keeps every element and a rate of one drops every element; rates outside the range zero to one are rejected.",
  ["inputs","histories"],"all element types, shapes, rates and random sequences","The draw is time-seeded, so a test sees one random sequence.",
  ["src/nn/dropout.c"],[("dropout kernel","src/nn/dropout.c")],[],["output elements"])
p("C21","No access leaves the memory it belongs to",
  "No operation reads or writes outside the bounds of a tensor's buffers, an argument array or a scratch buffer, nor lets control flow or a pointer depend on a value never written, for any accepted argument, including rank-0 tensors and extreme argument values.",
  ["inputs"],"all accepted arguments of all operations","Small overruns of heap buffers stay silent in ordinary test runs and depend on argument extremes.",
  ALL,[("scratch arrays","src/basic/slice.c, src/basic/squeeze.c, src/nn/pooling.c, src/nn/softmax.c")],[],["memory accesses"])
p("C22","Copying and reshaping operations preserve every element",
  "Duplicating, reshaping, squeezing or casting a tensor keeps all elements in row-major order, converted to the target type for casts and bit-identical otherwise; every element of a slice is the input element at begin plus step times its position in each dimension.",
  ["inputs"],"all shapes, element types, begins, sizes and steps","A misplaced element for particular extents or steps is missed by sampled shapes.",
  ["src/basic/duplicate.c","src/basic/reshape.c","src/basic/squeeze.c","src/basic/cast.c","src/basic/slice.c"],[("copy kernels","src/basic")],[],["output elements"])
p("C23","Convolution sums exactly the filter window over the padded input",
  "Every output element of a convolution is the sum, over all input channels and filter taps, of the filter element times the input element at output position times stride minus padding plus dilation times tap, taps that fall into the padding contributing zero. The two- and three-dimensional entry points give the same result as the general one and accept only their rank.",
  ["inputs"],"all extents, strides, paddings and dilations of ranks 3 to 5","Tests use one or two small configurations without padding or dilation corner cases.",
  ["src/nn/conv.c"],[("convolution kernel","src/nn/conv.c")],[],["output elements"])
p("C24","Pooling reduces exactly the input elements under each window",
  "Every output element of max pooling is the largest, and of average pooling the sum divided by the window size, of the input elements at output position times stride minus padding plus dilation times tap that lie inside the input; each batch and channel is reduced on its own.",
  ["inputs"],"all element types, extents, window sizes, strides, paddings and dilations of ranks 3 to 5","Tests pool one small tensor per mode; wrong windows or coordinates coincide with right ones for small shapes and positive data.",
  ["src/nn/pooling.c"],[("pooling kernels","src/nn/pooling.c")],[],["output elements"])
p("C25","Softmax normalises each line along its axis independently",
  "Every output element of softmax is the exponential of its input element divided by the sum of the exponentials of the elements that differ from it only in the coordinate along the given axis, whatever the rank and axis.",
  ["inputs"],"all ranks, extents, axes and element types","Tests normalise a few small tensors; a wrong stride mixes lines only for particular rank and axis combinations.",
  ["src/nn/softmax.c"],[("softmax kernel","src/nn/softmax.c")],[],["output elements"])
p("C26","Batch normalisation applies each channel's own parameters",
  "Every output element of batch normalisation is scale times (input minus mean) divided by the square root of variance plus epsilon, plus bias, where all four parameters are those of the element's coordinate along the channel axis, for channel axis 1 as well as channel axis last.",
  ["inputs"],"all ranks, extents, both channel axes, float and double","Tests normalise one or two small shapes; a transposition error shows only for particular extents.",
  ["src/nn/batch_norm.c"],[("batch normalisation kernel","src/nn/batch_norm.c"),("axis transport","src/nn/batch_norm.c")],[],["output elements"])
p("N01","Floating-point results are numerically accurate",
  "Results of convolution, pooling, batch normalisation, softmax and transcendental activations are within a small relative error of the exact mathematical value for every input, and softmax outputs sum to one.",
  ["inputs"],"all element values and shapes","Rounding error accumulates with size and value range.",
  ["src/nn"],[("floating-point kernels","src/nn")],[],["output elements"])
p("N02","Dropout drops elements with the requested probability",
  "Over repeated calls each element is dropped independently with probability equal to the rate.",
  ["histories"],"all random sequences","A statistical property of the random source.",
  ["src/nn/dropout.c"],[("random draw","src/nn/dropout.c")],[],["output elements"])
p("N03","Automatic test runs compare like with like",
  "The automatic testing framework feeds a user's operation and the reference operation the same sample and reports exactly the pairs whose results differ by more than its tolerance.",
  ["programs","inputs"],"all user operations and sample sets registered with the framework","User operations are arbitrary code plugged in at compile time.",
  ["auto_test"],[("test templates","auto_test/*.h")],[],["reported comparison"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
