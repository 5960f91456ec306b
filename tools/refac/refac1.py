import re
S='src/'
REFAC=[dict(id="base",edits=[(S+"basic/duplicate.c","  Tensor new_tensor;\n","  Tensor new_tensor; \n")]),
# relu: pointer walk + conditional operator + helper for output creation
dict(id="r01relu",edits=[(S+"nn/relu.c",re.compile(r"#define relu_kernel.*?\n  \}\n",re.S),'''#define relu_kernel(typename)                                 \\
  const typename *src = aitisa_tensor_data(input);            \\
  const typename *end = src + size;                           \\
  typename *dst = aitisa_tensor_data(*output);                \\
  while (src != end) {                                        \\
    typename v = *src++;                                      \\
    *dst++ = v > 0 ? v : 0;                                   \\
  }
''')]),
# broadcast: three loops merged in one for
dict(id="r02bcast",edits=[(S+"basic/broadcast.c",re.compile(r"  int64_t i = 0;\n.*?  return STATUS_SUCCESS;",re.S),'''  for (int64_t i = 0; i < ndim_in1 || i < ndim_in2; ++i) {
    const int64_t a = i < ndim_in1 ? dims_in1[ndim_in1 - 1 - i] : 1;
    const int64_t b = i < ndim_in2 ? dims_in2[ndim_in2 - 1 - i] : 1;
    if (a != b && a != 1 && b != 1) return STATUS_DIMENSIONS_MISMATCH;
    dims_out[ndim_out - 1 - i] = a > b ? a : b;
  }
  return STATUS_SUCCESS;''')]),
# reshape: size check first with own loop; data copied before publishing
dict(id="r03reshape",edits=[(S+"basic/reshape.c",'''  *output = new_tensor;
  // Transport data
  void* in_data = aitisa_tensor_data(input);
  void* out_data = aitisa_tensor_data(*output);
  int64_t ele_size = dtype.size;
  memcpy(out_data, in_data, out_size * ele_size);
''','''  // Transport data
  memcpy(aitisa_tensor_data(new_tensor), aitisa_tensor_data(input),
         dtype.size * (size_t)in_size);
  *output = new_tensor;
'''),(S+"basic/reshape.c","  int64_t out_size = size_of_dims(dims, ndim);\n","  int64_t out_size = 1;\n  for (int64_t k = ndim; k > 0; k--) out_size *= dims[k - 1];\n")]),
# squeeze: rewritten with flags counted up
dict(id="r04squeeze",edits=[(S+"basic/squeeze.c",re.compile(r"  for \(int64_t i = 0; i < in_ndim; i\+\+\) \{\n    processed_in_dims\[i\] = in_dims\[i\];\n  \}"),"  memcpy(processed_in_dims, in_dims, in_ndim * sizeof(*in_dims));"),(S+"basic/squeeze.c",'#include "src/core/allocator.h"\n','#include "src/core/allocator.h"\n#include <string.h>\n'),
 (S+"basic/squeeze.c",'''  int64_t j = 0;
  for (int64_t i = 0; i < in_ndim; i++) {
    if (processed_in_dims[i] != 0) {
      out_dims[j++] = processed_in_dims[i];
    }
  }''','''  int64_t *next = out_dims;
  for (int64_t i = 0; i < in_ndim; i++) {
    if (processed_in_dims[i] == 0) continue;
    *next = processed_in_dims[i];
    next++;
  }''')]),
# slice kernel: index computed incrementally in helper; loops int64
dict(id="r05slice",edits=[(S+"basic/slice.c",re.compile(r"#define slice_kernel.*?\n  \}\n\n",re.S),'''static int64_t slice_position(const int64_t *index, const int64_t *offset,
                              int64_t n) {
  int64_t r = 0;
  while (n > 0) {
    n--;
    r += offset[n] * index[n];
  }
  return r;
}

#define slice_kernel(typename)                                                \\
  typename *in_data = (typename *)aitisa_tensor_data(input);                  \\
  typename *out_data = (typename *)aitisa_tensor_data(*output);               \\
  int64_t left = aitisa_tensor_size(*output);                                 \\
  while (left-- > 0) {                                                        \\
    *out_data++ = in_data[slice_position(index_recorder, offset_recorder, in_ndim)]; \\
    for (int64_t i = in_ndim - 1; i >= 0; i--) {                              \\
      index_recorder[i] += step[i];                                           \\
      if (index_recorder[i] <= boundary[i]) break;                            \\
      index_recorder[i] = begin[i];                                           \\
    }                                                                         \\
  }

''')]),
# slice create_output: integer ceil
dict(id="r06sliceceil",edits=[(S+"basic/slice.c","(int)ceil((double)size[i] / (double)step[i])","size[i] / step[i] + (size[i] % step[i] != 0)")]),
# add: helper for the checks
dict(id="r07add",edits=[(S+"math/binary_op.c","Status aitisa_add(const Tensor tensor1","""static Status same_geometry(const Tensor x, const Tensor y) {
  if (aitisa_tensor_device(x).type != DEVICE_CPU) return STATUS_NOT_SUPPORTED;
  if (aitisa_tensor_device(y).type != DEVICE_CPU) return STATUS_NOT_SUPPORTED;
  if (aitisa_tensor_data_type(y).code != aitisa_tensor_data_type(x).code)
    return STATUS_TYPE_MISMATCH;
  int64_t n = aitisa_tensor_ndim(y);
  if (n != aitisa_tensor_ndim(x)) return STATUS_INVALID_ARGUMENT;
  const int64_t *p = aitisa_tensor_dims(x), *q = aitisa_tensor_dims(y);
  while (n > 0) {
    --n;
    if (p[n] != q[n]) return STATUS_INVALID_ARGUMENT;
  }
  return STATUS_SUCCESS;
}

Status aitisa_add(const Tensor tensor1"""),(S+"math/binary_op.c",re.compile(r"(Status aitisa_add\(.*?\{\n).*?  // create output\n",re.S),r"""\1  Status ok = same_geometry(tensor1, tensor2);
  if (ok != STATUS_SUCCESS) return ok;
  int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
  int64_t *dims_tensor1 = aitisa_tensor_dims(tensor1);
  // create output
""")]),
# sub: typed getter hoisted
dict(id="r08sub",edits=[(S+"math/binary_op.c",re.compile(r"(Status aitisa_sub\(.*?)  for \(int64_t i = 0; i < size; i\+\+\) \{\n.*?\n  \}\n",re.S),r"""\1  ArrayValueGetterX dummy = 0;
  (void)dummy;
  for (int64_t i = 0; i < size; i++) {
    memcpy(a, (char *)data_tensor1 + i * dtype.size, dtype.size);
    memcpy(b, (char *)data_tensor2 + i * dtype.size, dtype.size);
    aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
    memcpy((char *)data_output + i * dtype.size, c, dtype.size);
  }
"""),(S+"math/binary_op.c",'#include "src/core/utils.h"\n','#include "src/core/utils.h"\n#include <string.h>\ntypedef int ArrayValueGetterX;\n')]),
# create: single exit
dict(id="r09create",edits=[(S+"core/tensor.c",re.compile(r"  Status status =\n      aitisa_create_shape.*?  return STATUS_SUCCESS;\n\}",re.S),'''  Status status =
      aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
  if (status == STATUS_SUCCESS) {
    status = aitisa_create_storage(dtype, device, tensor->size, data,
                                   &tensor->storage);
    if (status == STATUS_SUCCESS) {
      *output = tensor;
      return status;
    }
    aitisa_destroy_shape(&tensor->shape);
  }
  aitisa_default_cpu_allocator()->raw_dealloc(tensor);
  return status;
}''')]),
# storage: local data pointer
dict(id="r10storage",edits=[(S+"core/storage.c",re.compile(r"  Storage new_storage;\n.*?  return STATUS_SUCCESS;\n\}",re.S),'''  void *buffer = data;
  if (!buffer) {
    buffer = aitisa_default_cpu_allocator()->raw_alloc(size * dtype.size);
    if (!buffer) return STATUS_ALLOC_FAILED;
  }
  Storage s = aitisa_default_cpu_allocator()->raw_alloc(sizeof(struct _StorageImpl));
  if (s == NULL) {
    if (buffer != data) aitisa_default_cpu_allocator()->raw_dealloc(buffer);
    return STATUS_ALLOC_FAILED;
  }
  s->size = size;
  s->data = buffer;
  s->device = device;
  s->dtype = dtype;
  *storage = s;
  return STATUS_SUCCESS;
}''')]),
# dropout: random before the loop variable; compare reversed
dict(id="r11dropout",edits=[(S+"nn/dropout.c",re.compile(r"  for \(int64_t i = 0; i < size; i\+\+\) \{  .*?\n  \}\n",re.S),'''  int64_t i = 0;                                            \\
  for (;;) {                                                \\
    if (i >= size) break;                                   \\
    if (rate_line > rand() % 100) {                         \\
      data[i] = 0;                                          \\
    }                                                       \\
    ++i;                                                    \\
  }
''')]),
# duplicate: direct copy
dict(id="r12dup",edits=[(S+"basic/duplicate.c",re.compile(r"  int64_t \*dims = aitisa.*\n\}",re.S),'''  Status status = aitisa_create(aitisa_tensor_data_type(input),
                                aitisa_tensor_device(input),
                                aitisa_tensor_dims(input),
                                aitisa_tensor_ndim(input), NULL, 0, &new_tensor);
  if (status != STATUS_SUCCESS) return status;
  memcpy(aitisa_tensor_data(new_tensor), aitisa_tensor_data(input),
         aitisa_tensor_size(input) * aitisa_tensor_data_type(input).size);
  *output = new_tensor;
  return status;
}'''),(S+"basic/duplicate.c",'#include "src/core/allocator.h"\n','#include "src/core/allocator.h"\n#include <string.h>\n')]),
# softmax: base index with helper, two pass loops by index
dict(id="r13softmax",edits=[(S+"nn/softmax.c",re.compile(r"    int64_t linear_idx_copy = linear_idx;.*?    /\*update index_recorder\*/",re.S),'''    int64_t base = linear_idx;                                  \\
    double total = 0;                                           \\
    for(int64_t i=0; i<dims[axis]; i++){                        \\
      int64_t at = base + i * element_offset;                   \\
      out_data[at] = (typename)exp(in_data[at]);                \\
      total += out_data[at];                                    \\
    }                                                           \\
    for(int64_t i=0; i<dims[axis]; i++){                        \\
      int64_t at = base + i * element_offset;                   \\
      out_data[at] = (typename)(out_data[at] / total);          \\
    }                                                           \\
    /*update index_recorder*/''')]),
# pooling: window update extracted, comparisons flipped
dict(id="r14pool",edits=[(S+"nn/pooling.c","            if(0<=index[i] && index[i]<in_dims[i]){\n              linear_idx += index[i] * strides[i];\n            }else{\n              padded = 1;\n              break;\n            }","            if(index[i] < 0 || index[i] >= in_dims[i]){\n              padded = 1;\n              break;\n            }\n            linear_idx += strides[i] * index[i];"),
 (S+"nn/pooling.c","double temp = 0; \n        int seen = 0;","int seen = 0;\n        double temp = 0;")]),
dict(id="r15pool2",edits=[(S+"nn/pooling.c","  for(int64_t s=0; s<batch_size; s++){","  int64_t s = 0;\n  while (s < batch_size) {"),(S+"nn/pooling.c","        window_idx++;\n      }\n    }\n  }","        window_idx++;\n      }\n    }\n    s++;\n  }"),
 (S+"nn/pooling.c","          if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){","          if(k_tail[i] >= padding[i-c_start]+in_dims[i]){")]),
# conv: coords by helper; inside test early continue
dict(id="r16conv",edits=[(S+"nn/conv.c",re.compile(r"            int inside = 1;\n.*?              tmp \+= in_data\[in_offset\] \* fil_data\[fil_offset\];\n            \}\n",re.S),'''            if (!conv_inside(in_coords, fil_coords, dilation, in_dims, sdim,
                             tmp_coords))
              continue;
            tmp_coords[0] = in_coords[0];
            tmp_coords[1] = in_coords[1];
            tmp += in_data[aitisa_coords_to_offset(input, tmp_coords, ndim)] *
                   fil_data[aitisa_coords_to_offset(filter, fil_coords, ndim)];
'''),(S+"nn/conv.c","/* The implementation of convolution for the float data type */",'''static int conv_inside(const int64_t *in_coords, const int64_t *fil_coords,
                       const int *dilation, const int64_t *in_dims,
                       int64_t sdim, int64_t *tmp_coords) {
  for (int64_t d = 0; d < sdim; ++d) {
    int64_t at = in_coords[2 + d] + fil_coords[2 + d] * dilation[d];
    if (at < 0) return 0;
    if (at >= in_dims[2 + d]) return 0;
    tmp_coords[2 + d] = at;
  }
  return 1;
}

/* The implementation of convolution for the float data type */''')]),
# index utils: strides via running pointer, coords by repeated division
dict(id="r17idx",edits=[(S+"basic/index_utils.c",'''  int64_t divisor = 1;
  for (int64_t d = ndim - 1; d >= 0; --d) {
    coords[d] = (linidx / divisor) % dims[d];
    divisor *= dims[d];
  }''','''  int64_t rest = linidx;
  for (int64_t d = ndim - 1; d >= 0; --d) {
    coords[d] = rest % dims[d];
    rest /= dims[d];
  }'''),(S+"basic/index_utils.c",'''    if (first) {
      // Avoid two multiplies on the first loop iteration
      offset = coords[dim];
      scale = dims[dim];
      first = 0;
    } else {
      offset += scale * coords[dim];
      scale *= dims[dim];
    }''','''    (void)first;
    offset += scale * coords[dim];
    scale *= dims[dim];''')]),
dict(id="r18full",edits=[(S+"basic/factories.c",'''  for (int64_t i = 0; i < size; ++i) {
    aitisa_tensor_set_item(new_tensor, i, &value);
  }''','''  int64_t i = size;
  while (i > 0) {
    --i;
    aitisa_tensor_set_item(new_tensor, i, &value);
  }''')]),
dict(id="r19cast",edits=[(S+"basic/cast.c","  for (int64_t i = 0; i < size; i++) {                                  \\\n    typed_out_data[i] = (out_typename)(typed_in_data[i]);               \\\n  }","  int64_t i = 0;                                                        \\\n  while (i < size) {                                                    \\\n    const in_typename v = typed_in_data[i];                             \\\n    typed_out_data[i++] = (out_typename)v;                              \\\n  }")]),
dict(id="r20sqrt",edits=[(S+"math/sqrt.c","    if (in_data[i] < 0) return STATUS_MATH_ERROR;               \\\n    out_data[i] = (typename)sqrt(in_data[i]);                   \\","    const typename v = in_data[i];                              \\\n    if (!(v < 0)) {                                             \\\n      out_data[i] = (typename)sqrt(v);                          \\\n    } else {                                                    \\\n      return STATUS_MATH_ERROR;                                 \\\n    }                                                           \\")]),
dict(id="r21shape",edits=[(S+"core/shape.c","  for (int64_t i = 0; i < ndim; ++i) {\n    shape->dims[i] = dims[i];\n  }","  for (int64_t i = ndim - 1; i >= 0; --i) shape->dims[i] = dims[i];"),
 (S+"core/shape.c","  for (int64_t i = 0; i < ndim; ++i) {\n    layout->min2maj[i] = ndim - 1 - i;\n  }","  int64_t j = ndim;\n  for (int64_t i = 0; i < ndim; ++i) layout->min2maj[i] = --j;")]),
]
