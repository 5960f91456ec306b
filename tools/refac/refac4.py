"""More behaviour-preserving rewrites: pointer walks, do-while, cleanup labels, struct arguments, division-based coordinates."""
import re
S="src/"; SL=S+"basic/slice.c"; SM=S+"nn/softmax.c"; DT=S+"math/dot.c"; PL=S+"nn/pooling.c"; CV=S+"nn/conv.c"; B=S+"nn/batch_norm.c"; DU=S+"basic/duplicate.c"; SQ=S+"basic/squeeze.c"
REFAC=[
# slice: input position carried along instead of recomputed
dict(id="q01slicewalk",edits=[(SL,'''    for (int i = 0; i < in_ndim; i++) {                                       \\
      in_linear_idx += index_recorder[i] * offset_recorder[i];                \\
    }                                                                         \\
    /* Transport the input data element to output data */                     \\
    out_data[out_linear_idx] = in_data[in_linear_idx];                        \\
''','''    const int64_t *where = index_recorder;                                    \\
    const int64_t *scale = offset_recorder;                                   \\
    int left = (int)in_ndim;                                                  \\
    while (left-- > 0) {                                                      \\
      in_linear_idx += *where++ * *scale++;                                   \\
    }                                                                         \\
    /* Transport the input data element to output data */                     \\
    *(out_data + out_linear_idx) = *(in_data + in_linear_idx);                \\
''')]),
dict(id="q02slicedims",edits=[(SL,'''  int last_idx = 0;
  for (int i = 0; i < in_ndim; i++) {
    if (out_dims_temp[i] > 0) {
      out_dims[last_idx++] = out_dims_temp[i];
    }
  }
''','''  int64_t *next = out_dims;
  for (int i = 0; i < in_ndim; i++) {
    if (out_dims_temp[i] <= 0) continue;
    *next = out_dims_temp[i];
    ++next;
  }
''')]),
dict(id="q03sliceceil",edits=[(SL,'''    out_dims_temp[i] = (int)ceil((double)size[i] / (double)step[i]);
''','''    out_dims_temp[i] = size[i] / step[i] + (size[i] % step[i] != 0 ? 1 : 0);
''')]),
dict(id="q04slicegoto",edits=[(SL,'''  if (!index_recorder || !boundary || !offset_recorder) {
    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
    aitisa_default_cpu_allocator()->raw_dealloc(boundary);
    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
    return STATUS_ALLOC_FAILED;
  }
''','''  Status status = STATUS_ALLOC_FAILED;
  if (!index_recorder || !boundary || !offset_recorder) goto done;
'''),(SL,'''  Status status = slice_elements(input, begin, step, index_recorder, boundary,
                                 offset_recorder, output);

''','''  status = slice_elements(input, begin, step, index_recorder, boundary,
                          offset_recorder, output);
done:
''')]),
dict(id="q05sliceneg",edits=[(SL,'''    bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
    bool cond_size  = size[i] < 0  || size[i] > in_dims[i] - begin[i];
    bool cond_step  = step[i] < 1;
    if (cond_begin || cond_size || cond_step) {
      return STATUS_INVALID_ARGUMENT;
    }
''','''    if (step[i] <= 0) return STATUS_INVALID_ARGUMENT;
    if (size[i] < 0 || begin[i] < 0) return STATUS_INVALID_ARGUMENT;
    int64_t end = (int64_t)begin[i] + (int64_t)size[i];
    if (!(begin[i] < in_dims[i] && end <= in_dims[i])) return STATUS_INVALID_ARGUMENT;
''')]),
# duplicate: a single block for the three arrays
dict(id="q06dupblock",edits=[(DU,re.compile(r"  int \*begin = .*?  for \(int64_t i = 0; i < ndim; i\+\+\) \{\n",re.S),'''  int *block = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*block) * 3 * ndim);
  if (!block) return STATUS_ALLOC_FAILED;
  int *begin = block, *size = block + ndim, *step = size + ndim;
  for (int64_t i = 0; i < ndim; i++) {
'''),(DU,'''  aitisa_default_cpu_allocator()->raw_dealloc(begin);
  aitisa_default_cpu_allocator()->raw_dealloc(size);
  aitisa_default_cpu_allocator()->raw_dealloc(step);
  return status;
''','''  aitisa_default_cpu_allocator()->raw_dealloc(block);
  return status;
''')]),
dict(id="q07squeezeflags",edits=[(SQ,'''    for (int64_t i = 0; i < num_axis; i++) {
      // processed_in_dims, not in_dims: an axis may be listed twice
      if (processed_in_dims[axis[i]] == 1) {
        processed_in_dims[axis[i]] = -1;
        out_ndim--;
      }
    }
''','''    const int64_t *a = axis;
    const int64_t *end = axis + num_axis;
    for (; a != end; ++a) {
      int64_t *extent = &processed_in_dims[*a];
      if (*extent != 1) continue;
      *extent = -1;
      --out_ndim;
    }
''')]),
# softmax
dict(id="q08softptr",edits=[(SM,re.compile(r"    for\(int64_t i=0; i<dims\[axis\]; i\+\+\)\{                        \\\n      out_data\[linear_idx\] =                                    \\\n        \(typename\)\(out_data\[linear_idx\] / total\);               \\\n.*?    \}                                                           \\\n",re.S),'''    typename *cell = out_data + linear_idx;                     \\
    for(int64_t left = dims[axis]; left > 0; left--){           \\
      *cell = (typename)(*cell / total);                        \\
      cell += element_offset;                                   \\
    }                                                           \\
''')]),
dict(id="q09softcoord",edits=[(SM,'''    for(int64_t i=ndim-1; i>=0; i--){                           \\
      if(i == axis) continue;                                   \\
      index_recorder[i] += 1;                                   \\
      if(index_recorder[i] == dims[i]){                         \\
        index_recorder[i] = 0;                                  \\
      }else{                                                    \\
        break;                                                  \\
      }                                                         \\
    }                                                           \\
''','''    int64_t at = ndim;                                          \\
    while(at-- > 0){                                            \\
      if(at != axis){                                           \\
        if(index_recorder[at] + 1 < dims[at]){                  \\
          index_recorder[at]++;                                 \\
          break;                                                \\
        }                                                       \\
        index_recorder[at] = 0;                                 \\
      }                                                         \\
    }                                                           \\
''')]),
dict(id="q10softswitch",edits=[(SM,'''  switch(axis){
    case -1:{
      status = softmax_with_all(input, output);
      break;
    }
    default:{
      status = softmax_along_axis(input, axis, output);
    }
  }
''','''  status = axis < 0 ? softmax_with_all(input, output)
                    : softmax_along_axis(input, axis, output);
''')]),
# dot
dict(id="q11dotacc",edits=[(DT,'''  ((typename *)data_out)[0] = 0;                           \\
  for (int64_t i = 0; i < size; i++) {                     \\
    ((typename *)data_out)[0] +=                           \\
        ((typename *)data1)[i] * ((typename *)data2)[i];   \\
  }
''','''  const typename *p = (const typename *)data1;             \\
  const typename *q = (const typename *)data2;             \\
  const typename *stop = p + size;                         \\
  typename acc = 0;                                        \\
  while (p < stop) {                                       \\
    acc += *p * *q;                                        \\
    p++;                                                   \\
    q++;                                                   \\
  }                                                        \\
  *(typename *)data_out = acc;
''')]),
dict(id="q12dotsel",edits=[(DT,'''  if (tensor1_ndim > ndim_tensor2) {
    out_ndim = tensor1_ndim;
    out_dims = aitisa_tensor_dims(tensor1);
    value = aitisa_tensor_data(tensor2);
  } else {
    out_ndim = ndim_tensor2;
    out_dims = aitisa_tensor_dims(tensor2);
    value = aitisa_tensor_data(tensor1);
  }
''','''  int first = tensor1_ndim > ndim_tensor2;
  Tensor shaped = first ? tensor1 : tensor2;
  Tensor scalar = first ? tensor2 : tensor1;
  out_ndim = aitisa_tensor_ndim(shaped);
  out_dims = aitisa_tensor_dims(shaped);
  value = aitisa_tensor_data(scalar);
'''),(DT,'''  if (tensor1_ndim > ndim_tensor2) {
    status = aitisa_mul(new_tensor, tensor1, output);
  } else {
    status = aitisa_mul(new_tensor, tensor2, output);
  }
''','''  status = aitisa_mul(new_tensor, shaped, output);
''')]),
dict(id="q13dotstore",edits=[(DT,'''    memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
''','''    char *to = (char *)out_data;
    to += vec_idx * data_size;
    memcpy(to, result_data, data_size);
''')]),
# matmul
dict(id="q14mmptr",edits=[(S+"math/matmul.c","  int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);\n  int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);\n  Status status = STATUS_SUCCESS;\n  if (ndim_tensor1 == 1 && ndim_tensor2 == 1) {","  const int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);\n  const int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);\n  const int vectors = ndim_tensor1 == 1 && ndim_tensor2 == 1;\n  Status status = STATUS_SUCCESS;\n  if (vectors) {")]),
dict(id="q15mmdtype",edits=[(S+"math/matmul.c",'''  if (aitisa_tensor_data_type(tensor1).code !=
      aitisa_tensor_data_type(tensor2).code) {
    return STATUS_NOT_SUPPORTED;
  }
''','''  DataType left_type = aitisa_tensor_data_type(tensor1);
  DataType right_type = aitisa_tensor_data_type(tensor2);
  int same_type = left_type.code == right_type.code;
  if (!same_type) return STATUS_NOT_SUPPORTED;
''')]),
# pooling
dict(id="q16poolmode",edits=[(PL,re.compile(r"#define pooling_kernel\(typename\).*?\n\n",re.S),'''#define pooling_kernel(typename)                      \\
  typename item = ((typename*)in_data)[linear_idx];   \\
  if(strcmp(mode, "avg") == 0){                       \\
    temp = temp + item;                               \\
  }                                                   \\
  else if (strcmp(mode, "max") == 0) {                \\
    if (!seen) temp = item;                           \\
    else temp = temp < item ? item : temp;            \\
  }

''')]),
dict(id="q17poolpad",edits=[(PL,'''          int padded = 0;
          for(int64_t i=c_start; i<c_start+ndim-2; i++){
            if(0<=index[i] && index[i]<in_dims[i]){
              linear_idx += index[i] * strides[i];
            }else{
              padded = 1;
              break;
            }
          }
''','''          int padded = 0;
          for(int64_t i=c_start; i<c_start+ndim-2; i++){
            padded = padded || index[i] < 0 || index[i] >= in_dims[i];
            if(!padded) linear_idx += index[i] * strides[i];
          }
''')]),
dict(id="q18poolout",edits=[(PL,'''    double temp = in_dims[i] + 2.0 * padding[i - c_start] -
                  dilation[i - c_start] * (ksize[i - c_start] - 1);
    out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
''','''    int64_t k = i - c_start;
    double span = in_dims[i] + 2.0 * padding[k] - dilation[k] * (ksize[k] - 1);
    out_dims[i] = (int64_t)floor((span - 1) / stride[k] + 1);
''')]),
# binary kernels
dict(id="q19calc",edits=[(S+"math/binary_op.c",re.compile(r"void calc_int16_value\(.*?\n\}\n",re.S),'''void calc_int16_value(void *a, void *b, OpCode op, void *c) {
  const int16_t x = *(const int16_t *)a;
  const int16_t y = *(const int16_t *)b;
  int r;
  if (op == OP_ADD) r = x + y;
  else if (op == OP_SUB) r = x - y;
  else if (op == OP_MUL) r = x * y;
  else if (op == OP_DIV) r = x / y;
  else return;
  *(int16_t *)c = (int16_t)r;
}
''')]),
dict(id="q20calctable",edits=[(S+"math/binary_op.c",re.compile(r"void calc_uint32_value\(.*?\n\}\n",re.S),'''static uint32_t u32_add(uint32_t x, uint32_t y) { return x + y; }
static uint32_t u32_sub(uint32_t x, uint32_t y) { return x - y; }
static uint32_t u32_mul(uint32_t x, uint32_t y) { return x * y; }
static uint32_t u32_div(uint32_t x, uint32_t y) { return x / y; }
void calc_uint32_value(void *a, void *b, OpCode op, void *c) {
  uint32_t (*f)(uint32_t, uint32_t) = 0;
  switch (op) {
    case OP_ADD: f = u32_add; break;
    case OP_SUB: f = u32_sub; break;
    case OP_MUL: f = u32_mul; break;
    case OP_DIV: f = u32_div; break;
    default: return;
  }
  *(uint32_t *)c = f(*(uint32_t *)a, *(uint32_t *)b);
}
''')]),
dict(id="q21convread",edits=[(CV,"""            if (inside) {
              int64_t in_offset =
                  aitisa_coords_to_offset(input, tmp_coords, ndim);
              int64_t fil_offset =
                  aitisa_coords_to_offset(filter, fil_coords, ndim);
              tmp += in_data[in_offset] * fil_data[fil_offset];
            }
""","""            if (!inside) continue;
            const float *tap = in_data + aitisa_coords_to_offset(input, tmp_coords, ndim);
            const float *weight = fil_data + aitisa_coords_to_offset(filter, fil_coords, ndim);
            tmp = tmp + *tap * *weight;
""")]),
dict(id="q22convstart",edits=[(CV,"""        for (int64_t d = 0; d < sdim; ++d) {
          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
        }
        in_coords[0] = b;
""","""        in_coords[0] = b;
        for (int64_t d = sdim - 1; d >= 0; --d) {
          int64_t start = out_coords[2 + d];
          start *= stride[d];
          start -= padding[d];
          in_coords[2 + d] = start;
        }
""")]),
dict(id="q23convdims",edits=[(CV,"""    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
                        - kernel) / stride[d - 2] + 1;
""","""    int64_t reach = dilation[d - 2] * (filter_dims[d] - 1);
    int64_t room = input_dims[d] + 2 * padding[d - 2] - reach - 1;
    output_dims[d] = 1 + room / stride[d - 2];
""")]),
dict(id="q24convguard",edits=[(CV,"""              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
                inside = 0;
""","""              inside = tmp_coords[2 + d] >= 0 && tmp_coords[2 + d] < in_dims[2 + d];
""")]),
dict(id="q25convhoist",edits=[(CV,"""          int64_t out_offset =
              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
          out_data[out_offset] = tmp;
        }
""","""        }
        out_data[aitisa_coords_to_offset(*output_ptr, out_coords, ndim)] = tmp;
""")]),
dict(id="q26bnmemcpy",edits=[(B,"""    for (int64_t ele = 0; ele < size; ele++) {
      memcpy(out_data + s * size * ele_size + ele * ele_size,
             temp1_data + ele * ele_size, ele_size);
    }
""","""    memcpy(out_data + s * size * ele_size, temp1_data, size * ele_size);
""")]),
dict(id="q27bnbegin",edits=[(B,"""    begin[0]++;
  }
release:""","""    begin[0] = (int)(s + 1);
  }
release:""")]),
dict(id="q28bnstep",edits=[(B,re.compile(r"    // Get linear index of current element\n    int64_t linear_idx = 0;\n    for \(int j = 0; j < des_ndim; j\+\+\) \{\n      linear_idx \+= index_recorder\[j\] \* offset_recorder\[j\];\n    \}\n"),"""    int64_t linear_idx = 0;
    for (int j = (int)des_ndim - 1; j >= 0; j--) {
      linear_idx += offset_recorder[j] * index_recorder[j];
    }
""")]),
dict(id="q29bnaxis",edits=[(B,"""    if (axis == 1) {
      for (int64_t i = 2; i < in_ndim; i++) {
        param_dims[i - 2] = in_dims[i];
      }
    } else if (axis == in_ndim - 1) {
      for (int64_t i = 1; i < in_ndim - 1; i++) {
        param_dims[i - 1] = in_dims[i];
      }
    }
""","""    int64_t kept = 0;
    for (int64_t i = 1; i < in_ndim; i++) {
      if (i == axis) continue;
      param_dims[kept++] = in_dims[i];
    }
""")]),
dict(id="q30bnzero",edits=[(B,"""  for (int64_t i = 0; i < ndim; i++) {
    index_recorder[i] = 0;
  }
  offset_recorder[ndim - 1] = 1;""","""  memset(index_recorder, 0, sizeof(*index_recorder) * ndim);
  offset_recorder[ndim - 1] = 1;""")]),
]
