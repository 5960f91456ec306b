import re
S='src/'
CV=S+"nn/conv.c"; PL=S+"nn/pooling.c"; B=S+"nn/batch_norm.c"; A="aitisa_default_cpu_allocator()->"
REFAC=[
dict(id="p01sig",edits=[(S+"nn/sigmoid.c",'''  for (int64_t i = 0; i < size; i++) {                    \\
    out_data[i] = (typename)(1 / (1 + exp(-in_data[i]))); \\
  }''','''  int64_t left = size;                                    \\
  while (left-- > 0) {                                    \\
    double e = exp(-*in_data++);                          \\
    *out_data++ = (typename)(1.0 / (e + 1.0));            \\
  }''')]),
dict(id="p02tanh",edits=[(S+"nn/tanh.c",re.compile(r"    out_data\[i\] = \(typename\)\(\(exp.*?\n  \}\n",re.S),'''    double up = exp(in_data[i]), down = exp(-in_data[i]);           \\
    out_data[i] = (typename)((up - down) / (up + down));            \\
  }
''')]),
dict(id="p03convalloc",edits=[(CV,"/* The implementation of convolution for the float data type */","static int64_t *coord_buffer(int64_t n) {\n  return aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * n);\n}\n\n/* The implementation of convolution for the float data type */"),
 (CV,re.compile(r"=\s+aitisa_default_cpu_allocator\(\)->raw_alloc\(sizeof\(\*\w+\) \* ndim\);"),"= coord_buffer(ndim);")]),
dict(id="p04convout",edits=[(CV,'''          int64_t out_offset =
              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
          out_data[out_offset] = tmp;
        }
''','''        }
        out_data[aitisa_coords_to_offset(*output_ptr, out_coords, ndim)] = tmp;
''')]),
dict(id="p05convinside",edits=[(CV,"/* The implementation of convolution for the float data type */",'''static int locate(const int64_t *base, const int64_t *fil, const int *dilation,
                  const int64_t *dims, int64_t sdim, int64_t *where) {
  where[0] = base[0];
  where[1] = base[1];
  for (int64_t d = 0; d < sdim; ++d) {
    int64_t x = base[2 + d] + dilation[d] * fil[2 + d];
    if (x < 0 || x >= dims[2 + d]) return 0;
    where[2 + d] = x;
  }
  return 1;
}

/* The implementation of convolution for the float data type */'''),
 (CV,re.compile(r"            int inside = 1;\n.*?            if \(inside\) \{",re.S),"            if (locate(in_coords, fil_coords, dilation, in_dims, sdim, tmp_coords)) {")]),
dict(id="p06convcheck",edits=[(CV,'''  switch (dtype.code) {
    case TYPE_FLOAT:
      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                     groups, output_ptr));
      break;
    default:
      return STATUS_NOT_SUPPORTED;
  }
  return STATUS_SUCCESS;''','''  if (dtype.code != TYPE_FLOAT) return STATUS_NOT_SUPPORTED;
  return aitisa_conv_float(input, filter, stride, padding, dilation, groups,
                           output_ptr);'''),
 (CV,'''  // There is no grouped convolution yet
  if (groups != 1) {
    return STATUS_NOT_SUPPORTED;
  }
  int64_t ndim = aitisa_tensor_ndim(input);''','''  int64_t ndim = aitisa_tensor_ndim(input);
  // There is no grouped convolution yet
  if (!(groups == 1)) return STATUS_NOT_SUPPORTED;''')]),
dict(id="p07storage",edits=[(S+"core/storage.c",re.compile(r"  if\(data\)\{\n    new_storage->data = data;.*?  \*storage = new_storage;",re.S),'''  new_storage->data = data ? data : aitisa_default_cpu_allocator()->raw_alloc(size * dtype.size);
  if (new_storage->data == NULL) {
    aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
    return STATUS_ALLOC_FAILED;
  }
  *storage = new_storage;''')]),
dict(id="p08layout",edits=[(S+"core/shape.c",re.compile(r"  layout->type = layout_type;\n  if\(ndim == 0\).*?  return STATUS_SUCCESS;",re.S),'''  layout->type = layout_type;
  layout->min2maj = NULL;
  if (ndim == 0) return STATUS_SUCCESS;
  int64_t *order = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*order) * ndim);
  if (!order) return STATUS_ALLOC_FAILED;
  int64_t next = ndim;
  for (int64_t i = 0; i < ndim; ++i) order[i] = --next;
  layout->min2maj = order;
  return STATUS_SUCCESS;''')]),
dict(id="p09create",edits=[(S+"core/tensor.c",'''  Tensor tensor;
  tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
  if (!tensor) return STATUS_ALLOC_FAILED;
  tensor->size = size_of_dims(dims, ndim);
  tensor->offset = 0;
  if(data){
    if(len/dtype.size != tensor->size) {
      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
      return STATUS_INVALID_ARGUMENT;
    }
  }
''','''  const int64_t count = size_of_dims(dims, ndim);
  if (data && len / dtype.size != count) return STATUS_INVALID_ARGUMENT;
  Tensor tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(struct _TensorImpl));
  if (!tensor) return STATUS_ALLOC_FAILED;
  tensor->offset = 0;
  tensor->size = count;
''')]),
dict(id="p10sliceone",edits=[(S+"basic/slice.c",re.compile(r"  int64_t \*index_recorder = aitisa_default_cpu_allocator\(\)->raw_alloc\(\n.*?    return STATUS_ALLOC_FAILED;\n  \}\n",re.S),'''  int64_t *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
      sizeof(*index_recorder) * 3 * in_ndim);
  if (!index_recorder) return STATUS_ALLOC_FAILED;
  int64_t *boundary = index_recorder + in_ndim;
  int64_t *offset_recorder = boundary + in_ndim;
'''),(S+"basic/slice.c",'''  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
  aitisa_default_cpu_allocator()->raw_dealloc(boundary);
  aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
  return status;''','''  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
  return status;''')]),
dict(id="p11slicecheck",edits=[(S+"basic/slice.c",re.compile(r"    bool cond_begin =.*?    if \(cond_begin \|\| cond_size \|\| cond_step\) \{",re.S),'''    if (!(step[i] >= 1) || begin[i] < 0 || size[i] < 0 ||
        (int64_t)begin[i] > in_dims[i] - 1 || begin[i] + (int64_t)size[i] > in_dims[i]) {''')]),
dict(id="p12offset",edits=[(S+"basic/index_utils.c",re.compile(r"  int64_t scale = 1;\n  int64_t offset = 0;\n  int first = 1;.*?  return offset;",re.S),'''  int64_t offset = 0;
  for (int64_t d = ndim; d-- > 0;) {
    int64_t dim = min2maj[d];
    offset = offset * dims[dim] + coords[dim];
  }
  return offset;''')]),
dict(id="p13lin",edits=[(S+"basic/index_utils.c",'''  int64_t divisor = 1;
  for (int64_t d = ndim - 1; d >= 0; --d) {
    coords[d] = (linidx / divisor) % dims[d];
    divisor *= dims[d];
  }''','''  int64_t rest = linidx;
  for (int64_t d = ndim - 1; d >= 0; --d) {
    int64_t q = rest / dims[d];
    coords[d] = rest - q * dims[d];
    rest = q;
  }''')]),
dict(id="p14softall",edits=[(S+"nn/softmax.c",'''    out_data[i] = (typename)exp(in_data[i]);                          \\
    total += out_data[i];                                             \\
''','''    const typename e = (typename)exp(in_data[i]);                     \\
    total += e;                                                       \\
    out_data[i] = e;                                                  \\
''')]),
dict(id="p15softbatch",edits=[(S+"nn/softmax.c",re.compile(r"  int64_t batch_size = 1;\n.*?  // Make an index-recorder",re.S),'''  int64_t batch_size = aitisa_tensor_size(input) / dims[axis];
  // Make an index-recorder'''),(S+"nn/softmax.c","  Status status = softmax_samples(input, axis, batch_size, index_recorder,\n                                  offset_recorder, output);\n","  const Status status = softmax_samples(input, axis, batch_size, index_recorder,\n                                        offset_recorder, output);\n")]),
dict(id="p16bncheck",edits=[(B,re.compile(r"  // Check scale and bias\n.*?  // Check epsilon\n",re.S),'''  // Check scale, bias, mean and variance
  const Tensor params[4] = {scale, bias, mean, variance};
  int64_t num_channels = aitisa_tensor_dim(input, axis);
  for (int i = 0; i < 4; i += 2) {
    for (int j = i; j < i + 2; ++j) {
      if (aitisa_tensor_data_type(params[j]).code != in_dtype.code) return STATUS_TYPE_MISMATCH;
    }
    for (int j = i; j < i + 2; ++j) {
      if (aitisa_tensor_size(params[j]) != num_channels || aitisa_tensor_ndim(params[j]) != 1) {
        return STATUS_DIMENSIONS_MISMATCH;
      }
    }
  }
  // Check epsilon
''')]),
dict(id="p17bncopy",edits=[(B,"    memcpy(des_data + linear_idx * ele_size, src_data + i * ele_size, ele_size);\n","    char *to = des_data + linear_idx * ele_size;\n    const char *from = src_data + i * ele_size;\n    for (int b = 0; b < ele_size; ++b) to[b] = from[b];\n")]),
dict(id="p18sqrt",edits=[(S+"math/sqrt.c",'''    if (in_data[i] < 0) return STATUS_MATH_ERROR;               \\
    out_data[i] = (typename)sqrt(in_data[i]);                   \\
''','''    const typename v = in_data[i];                              \\
    if (!(v < 0)) {                                             \\
      out_data[i] = (typename)sqrt(v);                          \\
    } else {                                                    \\
      return STATUS_MATH_ERROR;                                 \\
    }                                                           \\
''')]),
dict(id="p19setitem",edits=[(S+"core/tensor.h",re.compile(r"  char \*data = \(char \*\)aitisa_tensor_data\(t\);\n.*?  //aisisa",re.S),'''  const int64_t width = aitisa_tensor_data_type(t).size;
  memcpy((char *)t->storage->data + width * idx, value, width);
  //aisisa''')]),
dict(id="p20sizes",edits=[(S+"core/utils.h",re.compile(r"static inline int64_t size_of_dims.*?\n\}\n",re.S),'''static inline int64_t size_of_dims(int64_t *dims, int ndim) {
  int64_t r = 1;
  while (ndim > 0) {
    r *= *dims++;
    --ndim;
  }
  return r;
}
''')]),
dict(id="p21getter",edits=[(S+"core/types.c",'''GetTypedValueFunc aitisa_get_typed_value_func(DataType dtype) {
  return get_typed_value_funcs[dtype.code];''','''GetTypedValueFunc aitisa_get_typed_value_func(DataType dtype) {
  const int which = (int)dtype.code;
  GetTypedValueFunc f = get_typed_value_funcs[which];
  return f;'''),(S+"core/types.c","    *(type_t *)value = *(type_t *)addr;                 \\\n","    const type_t v = *(const type_t *)addr;             \\\n    *(type_t *)value = v;                               \\\n")]),
dict(id="p22dropout",edits=[(S+"nn/dropout.c",'''    int random_num = rand() % 100 + 1;                      \\
    if (random_num <= rate_line) {                          \\
      data[i] = 0;                                          \\
    }                                                       \\
''','''    data[i] = rand() % 100 < rate_line ? 0 : data[i];       \\
'''),(S+"nn/dropout.c","if (!(rate >= 0 && rate <= 1)) {","if (!(rate >= 0) || !(rate <= 1)) {")]),
dict(id="p23reshape",edits=[(S+"basic/reshape.c","  memcpy(out_data, in_data, out_size * ele_size);\n","  const char *from = in_data;\n  char *to = out_data;\n  for (int64_t i = 0, n = in_size * ele_size; i < n; ++i) to[i] = from[i];\n")]),
dict(id="p24dup",edits=[(S+"basic/duplicate.c",'''  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
  if (status == STATUS_SUCCESS) {
    *output = new_tensor;
  }
''','''  (void)new_tensor;
  Status status = aitisa_slice(input, begin, size, step, output);
''')]),
dict(id="p25noop",edits=[(f,re.compile(r"\Z"),"\n// end of file\n") for f in ("src/core/tensor.h","src/core/types.c","src/core/shape.c","src/nn/conv.c","src/math/dot.c")]+[("src/math/dot.c",re.compile(r"(Status aitisa_dot\([^)]*\) \{\n)"),r"\1  (void)0;\n"),("src/math/matmul.c",re.compile(r"(Status aitisa_matmul\([^)]*\) \{\n)"),r"\1  do { } while (0);\n")]),
dict(id="p26matk",edits=[(S+"math/matmul.c",'''      for (int64_t q = 0; q < K; ++q) {                              \\
        ((typename *)C)[i * N + j] +=                                \\
            ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \\
      }                                                              \\
''','''      typename sum = ((typename *)C)[i * N + j];                     \\
      const typename *row = (typename *)A + i * K;                   \\
      const typename *col = (typename *)B + j;                       \\
      for (int64_t q = 0; q < K; ++q, col += N) sum += row[q] * *col; \\
      ((typename *)C)[i * N + j] = sum;                              \\
''')]),
dict(id="p27poolwin",edits=[(PL,'''  int64_t window_size = 1;
  for(int64_t i=0; i<ndim-2; i++){
    window_size *= ksize[i];
  }
''','''  int64_t window_size = ksize[0];
  for(int64_t i=1; i<ndim-2; i++) window_size = window_size * ksize[i];
'''),(PL,"    for(int64_t i=0; i<ndim-2; i++){\n    if((ksize","    for(int64_t i=0; i<ndim-2; ++i){\n    if((ksize")] if 0 else [(PL,'''  int64_t window_size = 1;
  for(int64_t i=0; i<ndim-2; i++){
    window_size *= ksize[i];
  }
''','''  int64_t window_size = ksize[0];
  for(int64_t i=1; i<ndim-2; i++) window_size = window_size * ksize[i];
''')]),
dict(id="p28poolinit",edits=[(PL,'''        k_head[i] = 0 - padding[i-c_start];
        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
''','''        const int64_t j = i - c_start;
        k_head[i] = -padding[j];
        k_tail[i] = (ksize[j] - 1) * dilation[j] - padding[j];
''')]),
dict(id="p29squeeze",edits=[(S+"basic/squeeze.c",re.compile(r"  if \(num_axis > 0\) \{\n    for \(int64_t i = 0; i < num_axis; i\+\+\) \{\n      if \(axis.*?\n  \}\n  // Make",re.S),'''  for (const int64_t *a = axis; a < axis + num_axis; ++a) {
    if (*a >= in_ndim || *a < 0) return STATUS_INVALID_ARGUMENT;
  }
  // Make''')]),
dict(id="p30castone",edits=[(S+"core/types.c","    *(type_t *)addr = *value;                               \\\n","    const double v = *value;                                \\\n    *(type_t *)addr = (type_t)v;                            \\\n")]),
]
