"""Behaviour-preserving rewrites with another algorithm: loop nests instead of odometers, Horner forms, whole helper functions."""
import re
S="src/"; SL=S+"basic/slice.c"; SM=S+"nn/softmax.c"; DT=S+"math/dot.c"; PL=S+"nn/pooling.c"; CV=S+"nn/conv.c"; B=S+"nn/batch_norm.c"; DU=S+"basic/duplicate.c"; SQ=S+"basic/squeeze.c"; IX=S+"basic/index_utils.c"; U=S+"core/utils.h"; MM=S+"math/matmul.c"
REFAC=[
# softmax over an axis as outer/inner loops
dict(id="u01softnest",edits=[(SM,re.compile(r"  for\(int64_t sample=0; sample<batch_size; sample\+\+\)\{.*?\n    int64_t linear_idx = 0;.*?\n    /\*need a copy",re.S),lambda m:'''  (void)index_recorder;                                         \\
  for(int64_t sample=0; sample<batch_size; sample++){           \\
    int64_t linear_idx = (sample / element_offset)              \\
      * (element_offset * dims[axis]) + sample % element_offset;\\
    /*need a copy'''),(SM,re.compile(r"    /\*update index_recorder\*/.*?\n  \}  *\\\n",re.S),lambda m:"  }                                                             \\\n")]),
dict(id="u02idxhorner",edits=[(IX,'''  int64_t scale = 1;
  int64_t linidx = 0;
  for (int64_t d = ndim - 1; d >= 0; --d) {
    linidx += scale * coords[d];
    scale *= dims[d];
  }
  return linidx;''','''  int64_t linidx = 0;
  for (int64_t d = 0; d < ndim; ++d) {
    linidx = linidx * dims[d] + coords[d];
  }
  return linidx;''')]),
dict(id="u03offhorner",edits=[(IX,re.compile(r"  int64_t scale = 1;\n  int64_t offset = 0;.*?  return offset;",re.S),lambda m:'''  int64_t offset = 0;
  for (int64_t d = ndim; d > 0; --d) {
    int64_t dim = min2maj[d - 1];
    offset = offset * dims[dim] + coords[dim];
  }
  return offset;''')]),
dict(id="u04stridesn2",edits=[(IX,re.compile(r"  int64_t stride = 1;\n  for \(int d = 0; d < ndim; \+\+d\) \{.*?\n  \}\n\}",re.S),lambda m:'''  (void)dims;
  for (int d = 0; d < ndim; ++d) {
    strides[min2maj[d]] = aitisa_get_stride(t, min2maj[d]);
  }
}''')]),
dict(id="u05sizes",edits=[(U,'''  int64_t r = 1;
  for (int64_t i = 0; i < ndim; ++i) {
    r *= dims[i];
  }
  return r;''','''  const int64_t *end = dims + ndim;
  int64_t r = 1;
  for (const int64_t *d = dims; d < end; ++d) r *= *d;
  return r;'''),(U,'''  if (k < l) {
    for (int i = k + 1; i < l; ++i) {
      r *= dims[i];
    }
  } else {
    for (int i = l + 1; i < k; ++i) {
      r *= dims[i];
    }
  }''','''  int64_t lo = k < l ? k : l;
  int64_t hi = k < l ? l : k;
  for (int64_t i = lo + 1; i < hi; ++i) {
    r *= dims[i];
  }''')]),
dict(id="u06squeezeq",edits=[(SQ,'''Status aitisa_squeeze(''','''static int squeezed(const int64_t *dims, int64_t d, const int64_t *axis,
                    int64_t num_axis) {
  if (dims[d] != 1) return 0;
  if (num_axis == 0) return 1;
  for (int64_t i = 0; i < num_axis; i++) {
    if (axis[i] == d) return 1;
  }
  return 0;
}

Status aitisa_squeeze('''),(SQ,re.compile(r"  if \(num_axis == 0\) \{.*?\n  \}\n\n",re.S),lambda m:'''  for (int64_t i = 0; i < in_ndim; i++) {
    if (squeezed(in_dims, i, axis, num_axis)) {
      processed_in_dims[i] = -1;
      out_ndim--;
    }
  }

''')]),
# conv: the window walked by an odometer
dict(id="u07convhelper",edits=[(CV,'''/* The implementation of convolution for''','''static int conv_tap(const int64_t *base, const int64_t *fil, const int *dilation,
                    const int64_t *dims, int64_t sdim, int64_t *at) {
  for (int64_t d = 0; d < sdim; ++d) {
    int64_t v = base[2 + d] + dilation[d] * fil[2 + d];
    if (v < 0) return 0;
    if (v >= dims[2 + d]) return 0;
    at[2 + d] = v;
  }
  at[0] = base[0];
  at[1] = base[1];
  return 1;
}

/* The implementation of convolution for'''),(CV,re.compile(r"            int inside = 1;.*?            if \(inside\) \{",re.S),lambda m:'''            if (conv_tap(in_coords, fil_coords, dilation, in_dims, sdim, tmp_coords)) {''')]),
dict(id="u08convstrides",edits=[(CV,'''              int64_t in_offset =
                  aitisa_coords_to_offset(input, tmp_coords, ndim);
              int64_t fil_offset =
                  aitisa_coords_to_offset(filter, fil_coords, ndim);
''','''              int64_t in_offset = 0, fil_offset = 0;
              for (int64_t d = 0; d < ndim; ++d) {
                in_offset += tmp_coords[d] * in_strides[d];
                fil_offset += fil_coords[d] * fil_strides[d];
              }
''')]),
dict(id="u09convsplit",edits=[(CV,'''        float tmp = 0.0;
''','''        const int64_t out_offset = aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
        float tmp = 0.0;
'''),(CV,'''          int64_t out_offset =
              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
          out_data[out_offset] = tmp;''','''          out_data[out_offset] = tmp;''')]),
dict(id="u10convflat",edits=[(CV,'''          int64_t out_offset =
              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
          out_data[out_offset] = tmp;''','''          out_data[(b * out_chan + oc) * out_space_size + out_idx] = tmp;''')]),
dict(id="u11poolflat",edits=[(PL,'''      int64_t out_bc_stride = s * out_strides[0] + c * out_strides[axis];
''','''      int64_t out_bc_stride = (s * num_channel + c) * out_strides[axis];
''')]),
dict(id="u12poolenum",edits=[(PL,'''static Status pooling_create_output(''','''enum pool_kind { POOL_AVG, POOL_MAX, POOL_NONE };

static enum pool_kind pool_kind_of(const char *mode) {
  if (strcmp(mode, "avg") == 0) return POOL_AVG;
  if (strcmp(mode, "max") == 0) return POOL_MAX;
  return POOL_NONE;
}

static Status pooling_create_output('''),(PL,'''#define pooling_kernel(typename)                      \\
  if(!strcmp(mode, "avg")){                           \\''','''#define pooling_kernel(typename)                      \\
  if(kind == POOL_AVG){                           \\'''),(PL,'''  else if (!strcmp(mode, "max")) {                    \\
    if (!seen''','''  else if (kind == POOL_MAX) {                    \\
    if (!seen'''),(PL,'''  int64_t c_start = axis==1?2:1;
''','''  int64_t c_start = axis==1?2:1;
  const enum pool_kind kind = pool_kind_of(mode);
'''),(PL,'''    if(strcmp(mode, "avg") && strcmp(mode, "max")){''','''    if(pool_kind_of(mode) == POOL_NONE){''')]),
dict(id="u13poolwin",edits=[(PL,'''        int64_t out_linear_idx =
          window_idx * out_strides[c_start+ndim-3] + out_bc_stride;
''','''        int64_t out_linear_idx = out_bc_stride;
        for(int64_t i=c_start; i<c_start+ndim-2; i++){
          out_linear_idx += (k_head[i] + padding[i-c_start]) / stride[i-c_start] * out_strides[i];
        }
''')]),
dict(id="u14bnflat",edits=[(B,'''    for (int64_t ele = 0; ele < size; ele++) {
      memcpy(out_data + s * size * ele_size + ele * ele_size,
             temp1_data + ele * ele_size, ele_size);
    }''','''    memcpy(out_data, temp1_data, size * ele_size);
    out_data += size * ele_size;''')]),
dict(id="u15bnchain",edits=[(B,re.compile(r"    BATCH_NORM_CHECK\(aitisa_sub\(temp1, mean, &temp0\)\);\n    BATCH_NORM_CHECK\(aitisa_destroy\(&temp1\)\);\n",re.S),lambda m:'''    status = aitisa_sub(temp1, mean, &temp0);
    if (status != STATUS_SUCCESS) {
      goto release;
    }
    status = aitisa_destroy(&temp1);
    if (status != STATUS_SUCCESS) {
      goto release;
    }
''')]),
dict(id="u16mdlines",edits=[(DT,'''  int64_t nvec_tensor2 =
      size_of_dims(tensor2_dims, ndim_tensor2) / tensor2_dims[ndim_tensor2 - 2];
''','''  int64_t nvec_tensor2 = size_to_dim(ndim_tensor2 - 2, tensor2_dims, ndim_tensor2) *
                         tensor2_dims[ndim_tensor2 - 1];
''')]),
dict(id="u17dotacc",edits=[(DT,'''  // Call kernel
  Status status;
  status = dot_template(
      aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
      aitisa_tensor_data(tensor2), tensor1->size, aitisa_tensor_data(*output));

  return status;''','''  // Call kernel
  return dot_template(
      aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
      aitisa_tensor_data(tensor2), dim0_tensor1, aitisa_tensor_data(*output));''')]),
dict(id="u18tvdirect",edits=[(DT,re.compile(r"    status = aitisa_slice\(tensor1, index_recorder, size, step, &vec1\);\n    if \(status != STATUS_SUCCESS\) break;\n    status = vector_vector_dot\(vec1, vec2, &result\);.*?    aitisa_destroy\(&vec1\);\n    aitisa_destroy\(&result\);\n",re.S),lambda m:'''    status = dot_template(dtype,
                          (char *)aitisa_tensor_data(tensor1) + vec_idx * tensor2_dims[0] * data_size,
                          aitisa_tensor_data(vec2), tensor2_dims[0],
                          (char *)out_data + vec_idx * data_size);
    if (status != STATUS_SUCCESS) break;
    (void)vec1; (void)result;
''')]),
dict(id="u19slicenest",edits=[(SL,'''    boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
''','''    boundary[i] = size[i];
    boundary[i] += begin[i] - 1;
''')]),
dict(id="u20slicecond",edits=[(SL,'''    bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
    bool cond_size  = size[i] < 0  || size[i] > in_dims[i] - begin[i];
    bool cond_step  = step[i] < 1;
    if (cond_begin || cond_size || cond_step) {
      return STATUS_INVALID_ARGUMENT;
    }
''','''    const int64_t first = begin[i], count = size[i], extent = in_dims[i];
    if (step[i] <= 0) return STATUS_INVALID_ARGUMENT;
    if (!(first >= 0 && first < extent)) return STATUS_INVALID_ARGUMENT;
    if (!(count >= 0 && first + count <= extent)) return STATUS_INVALID_ARGUMENT;
''')]),
dict(id="u21mmacc",edits=[(MM,'''      if (idx == 0) {
        break;
      }''','''      if (idx == 0) break;''')]),
dict(id="u22reshapebytes",edits=[(S+"basic/reshape.c",'''  int64_t ele_size = dtype.size;
  memcpy(out_data, in_data, out_size * ele_size);
''','''  if (out_size > 0) {
    const size_t bytes = (size_t)in_size * (size_t)dtype.size;
    memcpy(out_data, in_data, bytes);
  }
''')]),
dict(id="u23softdims",edits=[(SM,'''  int64_t batch_size = 1;
  for(int64_t i=0; i<ndim; i++){
    if(i == axis){
      continue;
    }
    batch_size *= dims[i];
  }
''','''  int64_t batch_size = 1;
  for(int64_t i=0; i<axis; i++) batch_size *= dims[i];
  for(int64_t i=axis+1; i<ndim; i++) batch_size *= dims[i];
''')]),
dict(id="u24dupsize",edits=[(SM,'''  offset_recorder[ndim-1] = 1;
  for(int64_t i=ndim-2; i>=0; i--){
    offset_recorder[i] = dims[i+1] * offset_recorder[i+1];
  }
''','''  int64_t running = 1;
  for(int64_t i=ndim-1; i>=0; i--){
    offset_recorder[i] = running;
    running *= dims[i];
  }
''')]),
]
