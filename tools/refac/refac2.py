import re
S='src/'
D=S+"math/dot.c"; M=S+"math/matmul.c"; B=S+"nn/batch_norm.c"
REFAC=[
# dot kernel accumulates in a local
dict(id="q01dotk",edits=[(D,re.compile(r"  \(\(typename \*\)data_out\)\[0\] = 0; .*?\n  \}\n",re.S),'''  typename acc = 0;                                        \\
  const typename *p = data1, *q = data2;                   \\
  for (int64_t i = 0; i < size; i++) {                     \\
    acc += p[i] * q[i];                                    \\
  }                                                        \\
  *(typename *)data_out = acc;
''')]),
# scalar mul: choose the tensor first
dict(id="q02scal",edits=[(D,re.compile(r"  // Create a new tensor full of the scalar value\n.*?  aitisa_destroy\(&new_tensor\);\n\n  return status;",re.S),'''  const int first = tensor1_ndim > ndim_tensor2;
  const Tensor big = first ? tensor1 : tensor2;
  const Tensor small = first ? tensor2 : tensor1;
  void *value = aitisa_tensor_data(small);
  Tensor new_tensor;
  Status status = aitisa_create(aitisa_tensor_data_type(tensor1), aitisa_tensor_device(tensor1),
                    aitisa_tensor_dims(big), aitisa_tensor_ndim(big), NULL, 0, &new_tensor);
  if (status != STATUS_SUCCESS) return status;
  for (int64_t i = aitisa_tensor_size(new_tensor) - 1; i >= 0; i--) {
    aitisa_tensor_set_item(new_tensor, i, value);
  }
  status = aitisa_mul(new_tensor, big, output);
  aitisa_destroy(&new_tensor);
  return status;''')]),
# tensor-vector: helper advancing the index
dict(id="q03tv",edits=[(D,'''    for (int i = ndim_tensor1 - 2; i >= 0; i--) {
      index_recorder[i] += 1;
      // Judge whether the index is out of boundary
      if (index_recorder[i] >= tensor1_dims[i]) {
        index_recorder[i] = 0;
      } else {
        break;
      }
    }''','''    advance(index_recorder, tensor1_dims, ndim_tensor1 - 2);'''),(D,"static Status tensor_vector_dot(",'''static void advance(int *index, const int64_t *dims, int64_t last) {
  for (int64_t i = last; i >= 0; i--) {
    index[i]++;
    if (index[i] < dims[i]) return;
    index[i] = 0;
  }
}

static Status tensor_vector_dot(''')]),
dict(id="q04tvout",edits=[(D,'''    void *result_data = aitisa_tensor_data(result);
    memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
    // Update''','''    memcpy(cursor, aitisa_tensor_data(result), data_size);
    cursor += data_size;
    // Update'''),(D,'''  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {''','''  char *cursor = out_data;
  for (int64_t vec_idx = nvec_tensor1; vec_idx > 0; vec_idx--) {''')]),
dict(id="q05md",edits=[(D,'''      memcpy(
          (char *)out_data + (vec1_idx * nvec_tensor2 + vec2_idx) * data_size,
          result_data, data_size);''','''      int64_t slot = vec2_idx;
      slot += nvec_tensor2 * vec1_idx;
      memcpy((char *)out_data + data_size * slot, result_data, data_size);'''),(D,'''    if (i < ndim_tensor2 - 2) {
      out_dims[i + ndim_tensor1 - 1] = tensor2_dims[i];
    } else if (i > ndim_tensor2 - 2) {
      out_dims[i + ndim_tensor1 - 2] = tensor2_dims[i];
    }''','''    if (i == ndim_tensor2 - 2) continue;
    int64_t to = i < ndim_tensor2 - 2 ? i + ndim_tensor1 - 1 : i + ndim_tensor1 - 2;
    out_dims[to] = tensor2_dims[i];''')]),
# matmul: local accumulators / loop order kept / batch by pointer
dict(id="q06mm",edits=[(M,re.compile(r"#define MM_KERNEL.*?\n\n",re.S),'''#define MM_KERNEL(typename, A, B, C, M, K, N)                        \\
  for (int64_t i = 0; i < M; ++i) {                                  \\
    const typename *row = (typename *)A + i * K;                     \\
    for (int64_t j = 0; j < N; ++j) {                                \\
      typename *cell = (typename *)C + (i * N + j);                  \\
      for (int64_t q = 0; q < K; ++q) {                              \\
        *cell += row[q] * ((typename *)B)[q * N + j];                \\
      }                                                              \\
    }                                                                \\
  }

''')]),
dict(id="q07mv",edits=[(M,re.compile(r"#define MV_KERNEL.*?\n\n",re.S),'''#define MV_KERNEL(typename, A, X, B, M, N)                                   \\
  const typename *a = (typename *)A;                                         \\
  for (int64_t i = 0; i < M; ++i) {                                          \\
    for (int64_t j = 0; j < N; ++j, ++a) {                                   \\
      ((typename *)B)[i] += *a * ((typename *)X)[j];                         \\
    }                                                                        \\
  }

'''),(M,"((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]","((typename *)Z)[0] = ((typename *)Z)[0] + ((typename *)Y)[i] * ((typename *)X)[i]")]),
dict(id="q08batch",edits=[(M,'''        idx /= dim;
        if (idx == 0) {
          break;
        }
''','''        idx /= dim;
'''),(M,"      int64_t idx = i;\n","      int64_t idx = i + 0;\n")]),
dict(id="q09strides",edits=[(M,'''    if (ndim - 1 - i >= 0 && dims[ndim - 1 - i] != 1) {
      strides[nstride - 1 - i] = stride;
      stride *= dims[ndim - 1 - i];
    } else {
      strides[nstride - 1 - i] = 0;
    }''','''    const int64_t extent = i <= ndim - 1 ? dims[ndim - 1 - i] : 1;
    strides[nstride - 1 - i] = extent == 1 ? 0 : stride;
    stride *= extent;''')]),
dict(id="q10bnswitch",edits=[(M,"  } else if (ndim_tensor1 == 2 && ndim_tensor2 == 1) {\n    // matrix-vector","  } else if (ndim_tensor2 == 1 && ndim_tensor1 == 2) {\n    // matrix-vector"),(M,'''    for (int64_t i = 0; i < n_batch; ++i) {
      As[i] = (char *)data_tensor1 + i * size_mat1 * size_type;
      Bs[i] = data_tensor2;
      Cs[i] = (char *)data_output + i * size_mat3 * size_type;
    }''','''    char *pa = data_tensor1, *pc = data_output;
    for (int64_t i = 0; i < n_batch; ++i) {
      As[i] = pa;
      Bs[i] = data_tensor2;
      Cs[i] = pc;
      pa += size_mat1 * size_type;
      pc += size_mat3 * size_type;
    }''')]),
# batch norm: transport index helper, odometer rewritten
dict(id="q11bntr",edits=[(B,re.compile(r"    // Get linear index of current element\n.*?    // Update index_recorder\n.*?\n    \}\n  \}\n\}",re.S),'''    int64_t at = 0, j = des_ndim;
    while (j-- > 0) at += offset_recorder[j] * index_recorder[j];
    memcpy(des_data + ele_size * at, src_data, ele_size);
    src_data += ele_size;
    for (j = des_ndim - 1; j > 0; j--) {
      if (j != axis) {
        if (++index_recorder[j] < des_dims[j]) break;
        index_recorder[j] = 0;
      }
    }
  }
}''')]),
dict(id="q12bnchk",edits=[(B,'''  int64_t scale_size = aitisa_tensor_size(scale);
  int64_t bias_size = aitisa_tensor_size(bias);
  if (scale_size != num_channels || bias_size != num_channels) {
    return STATUS_DIMENSIONS_MISMATCH;
  }
  int64_t scale_ndim = aitisa_tensor_ndim(scale);
  int64_t bias_ndim = aitisa_tensor_ndim(bias);
  if (scale_ndim != 1 || bias_ndim != 1) {
    return STATUS_DIMENSIONS_MISMATCH;
  }''','''  if (!is_vector_of(scale, num_channels)) return STATUS_DIMENSIONS_MISMATCH;
  if (!is_vector_of(bias, num_channels)) return STATUS_DIMENSIONS_MISMATCH;'''),(B,"static Status batch_norm_check_parameters(",'''static int is_vector_of(const Tensor t, int64_t n) {
  return aitisa_tensor_ndim(t) == 1 && aitisa_tensor_size(t) == n;
}

static Status batch_norm_check_parameters(''')]),
dict(id="q13bninter",edits=[(B,'''      for (int64_t i = 0; i < tensor_size; i++) {
        memcpy((void *)(mean_array_c_data + i * ele_size),
               (void *)(mean_data + c * ele_size), ele_size);
        memcpy((void *)(scale_array_c_data + i * ele_size),
               (void *)(scale_data + c * ele_size), ele_size);
        memcpy((void *)(bias_array_c_data + i * ele_size),
               (void *)(bias_data + c * ele_size), ele_size);
        memcpy((void *)(var_array_c_data + i * ele_size),
               (void *)(var_data + c * ele_size), ele_size);
      }''','''      repeat(mean_array_c_data, mean_data + c * ele_size, ele_size, tensor_size);
      repeat(scale_array_c_data, scale_data + c * ele_size, ele_size, tensor_size);
      repeat(bias_array_c_data, bias_data + c * ele_size, ele_size, tensor_size);
      repeat(var_array_c_data, var_data + c * ele_size, ele_size, tensor_size);'''),(B,"static Status get_intermediate_tensors(",'''static void repeat(char *to, const char *from, uint8_t width, int64_t count) {
  for (int64_t i = 0; i < count; i++, to += width) memcpy(to, from, width);
}

static Status get_intermediate_tensors(''')]),
dict(id="q14bnrel",edits=[(B,'''    for(int64_t i = 0; i < num_channels; i++){
      if (scale_array) aitisa_destroy(&scale_array[i]);
      if (bias_array) aitisa_destroy(&bias_array[i]);
      if (mean_array) aitisa_destroy(&mean_array[i]);
      if (denominators) aitisa_destroy(&denominators[i]);
    }
    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
    aitisa_default_cpu_allocator()->raw_dealloc(denominators);''','''    release_array(scale_array, num_channels);
    release_array(bias_array, num_channels);
    release_array(mean_array, num_channels);
    release_array(denominators, num_channels);'''),(B,"Status aitisa_batch_norm(",'''static void release_array(Tensor *array, int64_t n) {
  if (!array) return;
  for (int64_t i = 0; i < n; i++) aitisa_destroy(&array[i]);
  aitisa_default_cpu_allocator()->raw_dealloc(array);
}

Status aitisa_batch_norm(''')]),
dict(id="q15bnch",edits=[(B,"  for (int64_t i = 0; i < ndim; i++) {\n    begin[i] = 0;\n    step[i] = 1;\n    size[i] = (int)(dims[i]);\n  }\n  size[0] = 1;\n  size[axis] = 1;","  for (int64_t i = 0; i < ndim; i++) {\n    begin[i] = 0;\n    step[i] = 1;\n    size[i] = i == 0 || i == axis ? 1 : (int)(dims[i]);\n  }")]),
]
