exec(open("/verif/tools/bugs/b1.py").read().split("# C01\n")[0])
FA="src/basic/factories.c"; BC="src/basic/broadcast.c"
# C12
b("l1","C12",(SQ,"axis[i] >= in_ndim","axis[i] > in_ndim"))
b("l2","C12",(BN,"  if (mean_ndim != 1 || var_ndim != 1) {","  if (mean_ndim != 1) {"))
b("l3","C12",(BN,"  if (epsilon < 0) {","  if (epsilon <= 0) {"))
b("l4","C12",(DR,"!(rate >= 0 && rate <= 1)","rate < 0 || rate > 1"))
b("l5","C12",(DR,"!(rate >= 0 && rate <= 1)","!(rate >= 0 && rate < 1)"))
b("l6","C12",(BO,"  for (int i = 0; i < ndim_tensor1; i++) {\n    if (dims_tensor1[i]","  for (int i = 0; i < ndim_tensor1 - 1; i++) {\n    if (dims_tensor1[i]",2))
b("l7","C12",(SM,"axis > ndim-1","axis > ndim"))
b("l8","C12",(BC,"d_in1 == 1 || d_in2 == 1 ||","d_in1 == 1 ||"))
b("l9","C12",(CV,"    if (dilation[d - 2] * (aitisa_tensor_dim(filter, d) - 1) + 1 >","    if (aitisa_tensor_dim(filter, d) >"))
b("l10","C12",(TN,"    if(len/dtype.size != tensor->size) {","    if(len/dtype.size < tensor->size) {"))
b("l11","C12",(PL,"if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){","if((ksize[i]-1)*dilation[i]+1 > padding[i]+in_dims[i+c_start]){"))
b("l12","C12",(PL,"  for(int64_t i=0; i<ndim-2; i++){\n    if((ksize","  for(int64_t i=0; i<ndim-3; i++){\n    if((ksize"))
b("l13","C12",(MM,"    if (dim1_tensor1 != dim0_tensor2) {\n      return STATUS_DIMENSIONS_MISMATCH;","    if (dim1_tensor1 < dim0_tensor2) {\n      return STATUS_DIMENSIONS_MISMATCH;",3))
b("l14","C12",(DT,"  if (tensor1_dims[ndim_tensor1 - 1] != tensor2_dims[ndim_tensor2 - 2]) {\n    return STATUS_INVALID_ARGUMENT;","  if (tensor1_dims[ndim_tensor1 - 1] != tensor2_dims[ndim_tensor2 - 2]) {\n    return STATUS_DIMENSIONS_MISMATCH;"))
b("l15","C12",(BN,"if (axis != 1 && axis != ndim - 1) {","if (axis < 1 || axis > ndim - 1) {"))
b("l16","C12",(RS,"  if (in_size != out_size) {","  if (in_size < out_size) {"))
b("l17","C12",(BO,"  if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||\n      aitisa_tensor_device(tensor2).type != DEVICE_CPU) {","  if (aitisa_tensor_device(tensor1).type != DEVICE_CPU) {",1))
b("l18","C12",(CV,"  if(ndim != 5){","  if(ndim < 5){"))
b("l19","C12",(PL,"if(ndim>2 && ndim<6){","if(ndim>=2 && ndim<6){"))
b("l20","C12",(SL,"bool cond_step  = step[i] < 1;","bool cond_step  = step[i] < 1 || step[i] > size[i];"))
b("l21","C12",(PL,'strcmp(mode, "avg") && strcmp(mode, "max")','strncmp(mode, "avg", 3) && strncmp(mode, "max", 3)'))
# C13
b("m1","C13",(DT,"      out_dims[i + ndim_tensor1 - 1] = tensor2_dims[i];","      out_dims[ndim_tensor1 + ndim_tensor2 - 4 - i] = tensor2_dims[i];"))
b("m2","C13",("src/nn/relu.c","  Device device = aitisa_tensor_device(input);","  Device device = {DEVICE_CPU, 0};"))
b("m3","C13",(SL,"(int)ceil((double)size[i] / (double)step[i])","(size[i] + step[i] / 2) / step[i]"))
b("m4","C13",(SH,"    layout->min2maj[i] = ndim - 1 - i;","    layout->min2maj[i] = ndim < 6 ? ndim - 1 - i : i;"))
b("m5","C13",(CV,"/ stride[d - 2] + 1;","/ stride[0] + 1;"))
b("m6","C13",(CA,"  Device device = aitisa_tensor_device(input);","  Device device = aitisa_tensor_device(input);\n  device.id = 0;"))
b("m7","C13",(MM,"    for (int64_t i = 0; i < ndim_out - 1; ++i) {\n      dims_out[i] = aitisa_tensor_dim(tensor2, i);","    for (int64_t i = 0; i < ndim_out - 1; ++i) {\n      dims_out[i] = aitisa_tensor_dim(tensor2, i > 2 ? 2 : i);"))
b("m8","C13",(BC,"dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;","dims_out[ndim_out - i - 1] = d_in1;"))
b("m9","C13",(PL,"    double temp = in_dims[i]","    float temp = in_dims[i]"))
# C14
b("n1","C14",(PL,"  int64_t window_size = 1;","  int window_size = 1;"))
b("n2","C14",(RS,"  int64_t ele_size = dtype.size;\n  memcpy(out_data, in_data, out_size * ele_size);","  int nbytes = out_size * dtype.size;\n  memcpy(out_data, in_data, nbytes);"))
b("n3","C14",("src/core/utils.h","  int64_t r = 1;","  int r = 1;"))
b("n4","C14",(SM,"  int64_t batch_size = 1;","  int batch_size = 1;"))
b("n5","C14",(FA,"  for (int64_t i = 0;","  for (int i = 0;"))
b("n6","C14",(IX,"  int64_t stride = 1;\n  for (int d","  int32_t stride = 1;\n  for (int d"))
b("n7","C14",(MM,"    int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;","    int size_mat2 = dim0_tensor2 * dim1_tensor2;",1))
b("n8","C14",(CV,"      for (int64_t out_idx = 0;","      for (int out_idx = 0;"))
b("n9","C14",(DT,"  for (int64_t i = 0; i < size; i++) {                     \\","  for (uint32_t i = 0; i < size; i++) {                    \\"))
b("n10","C14",(BN,"    int64_t linear_idx = 0;","    int linear_idx = 0;"))
b("n11","C14",("src/core/storage.c","          dtype.size * size);","          (unsigned)(dtype.size * size));"))
b("n12","C14",(PL,"          int64_t linear_idx = bc_stride;","          int linear_idx = bc_stride;"))
b("n13","C14",("src/core/tensor.h","  char *ptr = data + idx * aitisa","  char *ptr = data + (int)idx * aitisa"))
# C15
b("o1","C15",(BO,"  char *b = a + dtype.size, *c","  static int64_t calls;\n  if (++calls > 100000) size = size;\n  char *b = a + dtype.size, *c",0))
b("o2","C15",(SM,"    double total = 0;                                           \\","    static double total = 0;                                    \\"))
b("o3","C15",(CV,"        float tmp = 0.0;","        static float tmp;\n        if (out_idx == 0) tmp = 0.0; else tmp = 0.0;"))
b("o4","C15",(RS,"  DataType dtype = aitisa_tensor_data_type(input);","  static DataType dtype;\n  dtype = aitisa_tensor_data_type(input);"))
b("o5","C15",("src/math/sqrt.c","  Status status = STATUS_SUCCESS;\n","  static Status status = STATUS_SUCCESS;\n"))
# C17
b("q1","C17",(TN,"  tensor->offset = 0;\n",""))
b("q2","C17",(ST,"  new_storage->size = size;","  new_storage->size = size * dtype.size;"))
b("q3","C17/C02",(SH,"  for (int64_t i = 0; i < ndim; ++i) {\n    shape->dims[i] = dims[i];\n  }","  if (ndim == 5) { shape->dims = dims; }\n  else for (int64_t i = 0; i < ndim; ++i) {\n    shape->dims[i] = dims[i];\n  }"))
b("q4","C17",(TN,"  "+A+"raw_dealloc((*input));\n  *input = NULL;","  "+A+"raw_dealloc((*input));"))
b("q5","C17",(TN,"  *len = aitisa_tensor_size(input) * (*dtype).size;","  *len = aitisa_tensor_size(input) * sizeof(float);"))
b("q6","C17",("src/core/tensor.h","  memcpy(ptr, value, aitisa_tensor_data_type(t).size);","  *(int32_t *)ptr = *(int32_t *)value;"))
# C18
b("r1","C18",(IX,"    divisor *= dims[dim];","    divisor = d == 0 ? dims[dim] : divisor * dims[min2maj[1]];"))
b("r2","C18",(IX,"    linidx += scale * coords[d];\n    scale *= dims[d];","    linidx += scale * coords[d];\n    scale = scale * dims[d == ndim - 3 ? d + 1 : d];"))
b("r3","C18",(IX,"      offset += scale * coords[dim];\n      scale *= dims[dim];","      offset += scale * coords[dim];\n      if (d < 3) scale *= dims[dim];"))
b("r4","C18",(IX,"    coords[d] = (linidx / divisor) % dims[d];","    coords[d] = d == 0 ? linidx / divisor : (linidx / divisor) % dims[d > 3 ? 3 : d];"))
# C19
b("t1","C19",(MM,"        if (idx == 0) {\n          break;","        if (idx == 0 || j == 1) {\n          break;"))
b("t2","C19",(MM,"        offset_t2 += rem * strides_t2[ndim_batch - 1 - j];","        offset_t2 += rem * strides_t2[ndim_batch - 1 - j];\n        if (j > 1) offset_t2 -= rem * (strides_t2[ndim_batch - 1 - j] - strides_t1[ndim_batch - 1 - j]);"))
b("t3","C19",(MM,"    if (ndim - 1 - i >= 0 && dims[ndim - 1 - i] != 1) {\n      strides[nstride - 1 - i] = stride;","    if (ndim - 1 - i >= 0 && dims[ndim - 1 - i] != 1) {\n      strides[nstride - 1 - i] = i > 1 ? strides[nstride - 2] : stride;"))
b("t4","C19",(DT,"        if (i == ndim_tensor2 - 2) continue;","        if (i == 1) continue;"))
b("t5","C19",(DT,"      size_of_dims(tensor2_dims, ndim_tensor2) / tensor2_dims[ndim_tensor2 - 2];","      size_of_dims(tensor2_dims, ndim_tensor2) / tensor1_dims[0];"))
b("t6","C19",(DT,"memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);","memcpy((char *)out_data + index_recorder[0] * data_size, result_data, data_size);"))
b("t7","C19",(MM,"      Bs[i] = (char *)data_tensor2 + i * size_mat2 * size_type;\n      Cs","      Bs[i] = (char *)data_tensor2 + (i & 0xffff) * size_mat2 * size_type;\n      Cs"))
b("t8","C19",(DT,"    for (int i = ndim_tensor1 - 2; i >= 0; i--) {\n      index_recorder[i] += 1;\n      // Judge whether the index is out of boundary\n      if (index_recorder[i] >= tensor1_dims[i]) {","    for (int i = ndim_tensor1 - 2; i >= 0; i--) {\n      index_recorder[i] += 1;\n      // Judge whether the index is out of boundary\n      if (index_recorder[i] >= tensor1_dims[0]) {"))
# C20
b("u1","C20",(DR,"      data[i] = 0;                                          \\\n    }","      data[i] = 0;                                          \\\n    } else if (rate_line > 50) {                            \\\n      data[i] = data[i] + (random_num == 100);              \\\n    }"))
b("u2","C20",(DR,"data[i] = 0;","data[i] *= 0;"))
b("u3","C20/C21",(DR,"data[i] = 0;","data[i] = data[i / 2] = 0;"))
# C21
b("v1","C21",(SQ,"sizeof(*out_dims) * out_ndim);","sizeof(*out_dims) * (out_ndim > 4 ? 4 : out_ndim));"))
b("v2","C21",(CV,"tmp_coords[2 + d] >= in_dims[2 + d])","tmp_coords[2 + d] > in_dims[2 + d])"))
b("v3","C21",(SL,"  if (in_ndim > 0) {\n    offset_recorder[in_ndim - 1] = 1;\n  }","  offset_recorder[in_ndim - 1] = 1;"))
b("v4","C21",(PL,"if(0<=index[i] && index[i]<in_dims[i]){","if(0<=index[i] && index[i]<=in_dims[i]){"))
b("v5","C21",(BO,"raw_alloc(3 * dtype.size)","raw_alloc(2 * dtype.size)",1))
b("v6","C21",(MM,"raw_alloc(sizeof(void *) * n_batch)","raw_alloc(sizeof(float *) * ndim_tensor2)",4))
b("v7","C21",(SM,"  for(int64_t i=0; i<ndim; i++){\n    index_recorder[i] = 0;","  for(int64_t i=1; i<ndim; i++){\n    index_recorder[i] = 0;"))
b("v8","C21",(DU,"sizeof(*step) * ndim","sizeof(*step) * (ndim - (ndim > 4))"))
b("v9","C21",(DT,"sizeof(*step_t2) *\n                                                           ndim_tensor2","sizeof(*step_t2) *\n                                                           ndim_tensor1"))
# C22
b("w1","C22",(CA,"typed_out_data[i] = (out_typename)(typed_in_data[i]);               \\","typed_out_data[i] = (out_typename)(double)(typed_in_data[i]);       \\"))
b("w2","C22",(CA,"int16_t, in_data,","int8_t, in_data,",0))
b("w3","C22",(RS,"memcpy(out_data, in_data, out_size * ele_size);","memcpy(out_data, in_data, (out_size - (out_size > 1 << 20)) * ele_size);"))
b("w4","C22",(DU,"    step[i] = 1;","    step[i] = 1 + (i > 3);"))
b("w5","C22",(SL,"      if (index_recorder[i] > boundary[i]) {","      if (index_recorder[i] > boundary[i > 2 ? 2 : i]) {"))
b("w6","C22",(CA,"      AITISA_DISPATCH_ALL_TYPES_RETURN(out_dtype, cast_kernel, uint32_t","      AITISA_DISPATCH_ALL_TYPES_RETURN(out_dtype, cast_kernel, int32_t"))
# C23
b("x1","C23",(CV,"in_coords[2 + d] + dilation[d] * fil_coords[2 + d];","in_coords[2 + d] + dilation[0] * fil_coords[2 + d];"))
b("x2","C23",(CV,"- padding[d];\n        }","- padding[d < 2 ? d : 1];\n        }"))
b("x3","C23",(CV,"            fil_coords[1] = ic;","            fil_coords[1] = in_chan - 1 - ic;"))
b("x4","C23",(CV,"tmp_coords[2 + d] < 0 ||","tmp_coords[2 + d] < -1 ||"))
b("x5","C23",(CV,"in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];","in_coords[2 + d] = out_coords[2 + d] * stride[sdim - 1] - padding[d];"))
b("x6","C23",(CV,"        float tmp = 0.0;\n        for (int64_t ic = 0; ic < in_chan; ++ic) {","        for (int64_t ic = 0; ic < in_chan; ++ic) {\n        float tmp = ic ? out_data[out_idx] : 0.0;"))
# C24
b("y1","C24",(PL,"    if (!seen || temp <","    if (temp <"))
b("y2","C24",(PL,"        int seen = 0;\n","",),(PL,"        double temp = 0; \n","        double temp = 0; \n        int seen = padding[0] > 0 && window_idx == 0 ? 1 : 0;\n"))
b("y3","C24",(PL,"          window_idx * out_strides[c_start+ndim-3] + out_bc_stride;","          window_idx + out_bc_stride;"))
b("y4","C24",(PL,"          if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){","          if(k_tail[i] > padding[0]+in_dims[i]-1){"))
b("y5","C24",(PL,"    window_size *= ksize[i];","    window_size *= ksize[i] < in_dims[i+c_start] ? ksize[i] : in_dims[i+c_start];"))
b("y6","C24",(PL,"            if(index[i] > k_tail[i]){","            if(index[i] >= k_tail[i] + (i > 3)){"))
b("y7","C24",(PL,"              index[i] = k_head[i];\n            }else","              index[i] = k_head[i] < 0 ? 0 : k_head[i];\n            }else"))
# C25
b("z1","C25",(SM,"offset_recorder[i] = dims[i+1] * offset_recorder[i+1];","offset_recorder[i] = dims[i+1] * offset_recorder[i > 1 ? ndim-1 : i+1];"))
b("z2","C25",(SM,"        index_recorder[i] = 0;                                  \\\n      }else","        index_recorder[i] = i > 2;                              \\\n      }else"))
b("z3","C25",(SM,"  int64_t element_offset = offset_recorder[axis];","  int64_t element_offset = axis == 0 && ndim > 3 ? offset_recorder[1] * dims[0] : offset_recorder[axis];"))
b("z4","C25",(SM,"      if(i == axis) continue; ","      if(i == axis && i > 0) continue; "))
b("z5","C25",(SM,"    double total = 0;                                           \\","    double total = 1e-12;                                       \\"))
b("z6","C25",(SM,"  for(int64_t i=0; i<size; i++){                                      \\\n    out_data[i] = (typename)(out_data[i] / total);","  for(int64_t i=0; i+1<size || i<1; i++){                             \\\n    out_data[i] = (typename)(out_data[i] / total);"))
# C26
b("ba","C26",(BN,"               (void *)(bias_data + c * ele_size), ele_size);","               (void *)(bias_data + (c < 64 ? c : 63) * ele_size), ele_size);"))
b("bb","C26",(BN,"      BATCH_NORM_CHECK(aitisa_div(temp0, denominator[c], &temp1));","      BATCH_NORM_CHECK(aitisa_div(temp0, denominator[axis == 1 ? c : s % channel_size], &temp1));"))
b("bc","C26",(BN,"      index_recorder[axis] = c;","      index_recorder[axis] = axis == 1 || ndim < 5 ? c : channel_size - 1 - c;"))
b("bd","C26",(BN,"        param_dims[i - 1] = in_dims[i];","        param_dims[in_ndim - 2 - i] = in_dims[i];"))
b("be","C26",(BN,"aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor)","aitisa_full(dtype, device, eps_dims, eps_ndim, (float)epsilon, &eps_tensor)"))
b("bf","C26",(BN,"      if (index_recorder[j] >= des_dims[j]) {\n        index_recorder[j] = 0;","      if (index_recorder[j] >= des_dims[j]) {\n        index_recorder[j] = 0;\n        if (j < 2) break;"))
