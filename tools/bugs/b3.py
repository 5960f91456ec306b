exec(open("/verif/tools/bugs/b1.py").read().split("# C01\n")[0])
FA="src/basic/factories.c"; BC="src/basic/broadcast.c"; SI="src/nn/sigmoid.c"; RE="src/nn/relu.c"; TH="src/nn/tanh.c"; SR="src/math/sqrt.c"; TY="src/core/types.c"; DI="src/core/dispatch.h"; UT="src/core/utils.h"; TH_H="src/core/tensor.h"
# C01
b("A1","C01",(CV,"  if (status != STATUS_SUCCESS) goto release;\n  *output_ptr","  if (status != STATUS_SUCCESS) return status;\n  *output_ptr"))
b("A2","C01",(DU,"  "+A+"raw_dealloc(begin);\n  "+A+"raw_dealloc(size);\n  "+A+"raw_dealloc(step);\n  return status;","  if (status != STATUS_SUCCESS) return status;\n  "+A+"raw_dealloc(begin);\n  "+A+"raw_dealloc(size);\n  "+A+"raw_dealloc(step);\n  return status;"))
b("A3","C01",(SM,"  "+A+"raw_dealloc(index_recorder);\n  "+A+"raw_dealloc(offset_recorder);\n  return status;","  "+A+"raw_dealloc(index_recorder);\n  if(axis != ndim - 1) "+A+"raw_dealloc(offset_recorder);\n  return status;"))
b("A4","C01",(DT,"    status = vector_vector_dot(vec1, vec2, &result);\n    if (status != STATUS_SUCCESS) {\n      aitisa_destroy(&vec1);\n      break;","    status = vector_vector_dot(vec1, vec2, &result);\n    if (status != STATUS_SUCCESS) {\n      break;"))
b("A5","C01",(BN,"      aitisa_destroy(&(var_array[c]));\n    }\nrelease:","      var_array[c] = NULL;\n    }\nrelease:"))
b("A6","C01",(BN,"      if (denominators) aitisa_destroy(&denominators[i]);","      if (denominators && i + 1 < num_channels) aitisa_destroy(&denominators[i]);\n      else if (denominators && num_channels < 4) aitisa_destroy(&denominators[i]);"))
b("A7","C01",(SL,"  if (!index_recorder || !boundary || !offset_recorder) {\n    "+A+"raw_dealloc(index_recorder);","  if (!index_recorder || !boundary || !offset_recorder) {"))
b("A8","C01",(TN,"  if (status != STATUS_SUCCESS) {\n    aitisa_destroy_shape(&tensor->shape);","  if (status != STATUS_SUCCESS) {"))
b("A9","C01",(MM,"    if (!strides_t1 || !strides_t2) {\n      "+A+"raw_dealloc(strides_t2);","    if (!strides_t1 || !strides_t2) {"))
b("A10","C01",(DT,"  aitisa_destroy(&new_tensor);\n\n  return status;","  if (size > 0) aitisa_destroy(&new_tensor);\n\n  return status;"))
b("A11","C01",(BN,"    BATCH_NORM_CHECK(aitisa_sub(temp1, mean, &temp0));\n    BATCH_NORM_CHECK(aitisa_destroy(&temp1));","    BATCH_NORM_CHECK(aitisa_sub(temp1, mean, &temp0));\n    if (s == 0) BATCH_NORM_CHECK(aitisa_destroy(&temp1));"))
# C02
b("B1","C02",(SL,"  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(output);\n  }","  if (status != STATUS_SUCCESS) {\n    Tensor t = *output;\n    aitisa_destroy(&t);\n    if (status == STATUS_ALLOC_FAILED) aitisa_destroy(output);\n  }"))
b("B2","C02",(DT,"  aitisa_destroy(&new_tensor);\n\n  return status;","  aitisa_destroy(&new_tensor);\n  if (status == STATUS_SUCCESS && out_ndim > 3) *output = new_tensor;\n  return status;"))
b("B3","C02",(SM,"  if(!index_recorder || !offset_recorder){\n    "+A+"raw_dealloc(index_recorder);\n    "+A+"raw_dealloc(offset_recorder);\n    return STATUS_ALLOC_FAILED;","  if(!index_recorder || !offset_recorder){\n    "+A+"raw_dealloc(index_recorder);\n    "+A+"raw_dealloc(offset_recorder);\n    "+A+"raw_dealloc(index_recorder);\n    return STATUS_ALLOC_FAILED;"))
b("B4","C02",(MM,"    if (status != STATUS_SUCCESS) {\n      "+A+"raw_dealloc(dims_out);\n      return status;\n    }\n    // data_ptr","    "+A+"raw_dealloc(dims_out);\n    if (status != STATUS_SUCCESS) {\n      return status;\n    }\n    // data_ptr"))
b("B5","C02",(DT,"    // Update index_recorder_t1\n    for","    if (vec1_idx + 1 == nvec_tensor1 && nvec_tensor1 > 1) aitisa_destroy(&result);\n    // Update index_recorder_t1\n    for"))
b("B6","C02/C03",(DR,"  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(&new_tensor);","  if (status != STATUS_SUCCESS) {\n    Tensor t = input;\n    aitisa_destroy(rate > 0.5 ? &t : &new_tensor);"))
b("B7","C02",(BN,"    for(int64_t i = 0; temp && i < num_channels; i++){\n      aitisa_destroy(&temp[i]);","    for(int64_t i = 0; temp && i <= num_channels; i++){\n      aitisa_destroy(&temp[i]);"))
# C03
b("C1","C03",(SM,"        (typename)exp(in_data[linear_idx]);                     \\\n","        in_data[linear_idx] = (typename)exp(in_data[linear_idx]); \\\n"))
b("C2","C03",(DT,"  for (int64_t i = 0; i < size; i++) {\n    aitisa_tensor_set_item(new_tensor, i, value);","  for (int64_t i = 0; i < size; i++) {\n    if (size == 1) aitisa_tensor_set_item(tensor1, 0, value);\n    aitisa_tensor_set_item(new_tensor, i, value);"))
b("C3","C03",(PL,"        (typename)","        (typename)") if 0 else (PL,"      out_dims[0] = in_dims[0];","") if 0 else (PL,"  out_dims[axis] = in_dims[axis];","  out_dims[axis] = in_dims[axis];\n  if(ndim == 5) in_dims[axis] = out_dims[axis] > 0 ? out_dims[axis] : 1, input->offset = 0;"))
b("C4","C03",(BN,"    BATCH_NORM_CHECK(aitisa_mul(scale, temp1, &temp0));","    if (s == batch_size - 1 && s > 4) memcpy(aitisa_tensor_data(scale), aitisa_tensor_data(temp1), ele_size);\n    BATCH_NORM_CHECK(aitisa_mul(scale, temp1, &temp0));"))
b("C5","C03",(RS,"  memcpy(out_data, in_data, out_size * ele_size);","  memmove(out_data, in_data, out_size * ele_size);\n  if (ndim > 4) input->size = out_size, aitisa_tensor_storage(input)->size = 0;"))
b("C6","C03",(TN,"  *dims = dims_;","  if (*dims && *ndim == aitisa_tensor_ndim(input)) dims_[0] = (*dims)[0] ? dims_[0] : 0;\n  *dims = dims_;"))
# C04
b("D1","C04",(SH,"    shape->dims =\n      "+A+"raw_alloc(sizeof(*shape->dims) * ndim);\n    if (!shape->dims) return STATUS_ALLOC_FAILED;\n  }","    shape->dims =\n      "+A+"raw_alloc(sizeof(*shape->dims) * ndim);\n    if (!shape->dims) return STATUS_ALLOC_FAILED;\n  }\n") if 0 else (DU,"  if (status == STATUS_SUCCESS) {\n    *output = new_tensor;","  if (status == STATUS_SUCCESS && ndim == 0) {\n    aitisa_destroy(&new_tensor);\n    *output = input;\n  } else if (status == STATUS_SUCCESS) {\n    *output = new_tensor;"))
b("D2","C04",(RE,"  *output = new_tensor;","  *output = new_tensor;\n  if (aitisa_tensor_size(input) == 0) new_tensor->storage = input->storage;"))
b("D3","C04",(DT,"  CHECK_STATUS(status);\n  *output = new_tensor;\n  // Make an index recorder","  CHECK_STATUS(status);\n  if (out_ndim == 3 && ndim_tensor1 == 4) new_tensor->shape.dims = (aitisa_destroy_shape(&new_tensor->shape), new_tensor->shape.ndim = out_ndim, tensor1_dims);\n  *output = new_tensor;\n  // Make an index recorder"))
# C05
b("E1","C05",(TN,"  tensor->size = size_of_dims(dims, ndim);","  *output = tensor;\n  tensor->size = size_of_dims(dims, ndim);"))
b("E2","C05",(SM,"  if(status != STATUS_SUCCESS){\n    aitisa_destroy(output);","  if(status != STATUS_SUCCESS){\n    Tensor t = *output;\n    aitisa_destroy(&t);"))
b("E3","C05",(DR,"  Status status = dropout_template(&new_tensor, rate);","  *output = new_tensor;\n  Status status = dropout_template(&new_tensor, rate);"))
b("E4","C05",(FA,"  for (int64_t i = 0; i < size; ++i) {","  for (int64_t i = 0; i < size - (size > 5000); ++i) {"))
b("E5","C05/C12",(CV,"      aitisa_tensor_dim(filter, 1) != aitisa_tensor_dim(input, 1)) {\n    return STATUS_DIMENSIONS_MISMATCH;","      aitisa_tensor_dim(filter, 1) != aitisa_tensor_dim(input, 1)) {\n    if (ndim > 4) *output_ptr = NULL;\n    return STATUS_DIMENSIONS_MISMATCH;"))
# C06
b("F1","C06",(DT,"      status = vector_vector_dot(vec1, vec2, &result);\n      if (status","      status = vector_vector_dot(vec1, vec2, &result);\n      if (vec2_idx && status == STATUS_ALLOC_FAILED) status = STATUS_SUCCESS;\n      if (status"))
b("F2","C06",("src/core/status.h","STATUS_SUCCESS","STATUS_SUCCESS") if 0 else (SL,"      return STATUS_INVALID_ARGUMENT;","      return STATUS_INVALID_ARGUMENT + in_ndim;"))
b("F3","C06",(BN,"    status = STATUS_DIMENSIONS_MISMATCH;\n  }","    abort();\n  }"))
b("F4","C06",(CA,"    default:\n      return STATUS_NOT_SUPPORTED;","    default:\n      break;"))
b("F5","C06",(IX,"  assert(len == ndim);","  assert(len == ndim && dims[ndim - 1] < 4096);"))
# C07
b("G1","C07",(CV,"      !in_strides || !fil_strides || !out_strides) {","      !in_strides || !fil_strides) {"))
b("G2","C07",(MM,"    if (!As || !Bs || !Cs) {","    if (!As && !Bs && !Cs) {",2))
b("G3","C07",(PL,"!k_head || !k_tail","!k_head"))
b("G4","C07",(SM,"    return STATUS_ALLOC_FAILED;","    return STATUS_SUCCESS;"))
b("G5","C07",(BO,"  if (!a) {\n    aitisa_destroy(output);\n    return STATUS_ALLOC_FAILED;\n  }","",2))
b("G6","C07",(DT,"  if (!out_dims) {\n    return STATUS_ALLOC_FAILED;\n  }","  if (!out_dims) {\n    return STATUS_INTERNAL_ERROR;\n  }",1))
b("G7","C07",(ST,"    if (!new_storage->data) {\n      "+A+"raw_dealloc(new_storage);\n      return STATUS_ALLOC_FAILED;","    if (!new_storage->data && size > 0) {\n      "+A+"raw_dealloc(new_storage);\n      return STATUS_SUCCESS;"))
# C08
b("H1","C08",(PL,'#include <math.h>','#include <math.h>\n#include <stdlib.h>'),(PL,"  int64_t *k_tail =\n    "+A+"raw_alloc(sizeof(*k_tail)*ndim);","  int64_t *k_tail = malloc(sizeof(*k_tail)*ndim);"),(PL,"  "+A+"raw_dealloc(k_tail);","  free(k_tail);"))
b("H2","C08",(BN,"    if (temp) memset(temp, 0, sizeof(Tensor) * num_channels);","    if (temp) memset(temp, 0, sizeof(Tensor) * num_channels);\n    else temp = calloc(num_channels, sizeof(Tensor));"),(BN,'#include "src/math/sqrt.h"','#include "src/math/sqrt.h"\n#include <stdlib.h>'))
b("H3","C08",(SH,"  if(layout->min2maj){\n    "+A+"raw_dealloc(layout->min2maj);","  if(layout->min2maj){\n    static Allocator first;\n    if (!first.raw_dealloc) first = *"+A[:-2]+";\n    first.raw_dealloc(layout->min2maj);"))
b("H4","C08/C15",("src/core/allocator.h","  return &_g_default_cpu_allocator;","  return &_g_default_cpu_allocator;") if 0 else (DT,"  // step\n  int *step =\n      "+A+"raw_alloc(sizeof(*step) * ndim_tensor1);","  // step\n  int step_buf[8];\n  int *step = ndim_tensor1 <= 8 ? step_buf :\n      "+A+"raw_alloc(sizeof(*step) * ndim_tensor1);"))
# C09 / C10
b("I1","C09",(DI,"    AITISA_PRIVATE_CASE_TYPE(TYPE_UINT16, func_name, uint16_t, ##__VA_ARGS__) \\\n    AITISA_PRIVATE_CASE_TYPE(TYPE_INT32","    AITISA_PRIVATE_CASE_TYPE(TYPE_UINT16, func_name, int16_t, ##__VA_ARGS__)  \\\n    AITISA_PRIVATE_CASE_TYPE(TYPE_INT32",1))
b("I2","C09",(CA,"AITISA_DISPATCH_ALL_TYPES_RETURN(out_dtype, cast_kernel, uint32_t, in_data,","AITISA_DISPATCH_ALL_TYPES_RETURN(out_dtype, cast_kernel, int32_t, in_data,"))
b("I3","C09",(PL,"    if(ndim>2 && ndim<6){","    if(ndim>2 && ndim<6 && aitisa_tensor_data_type(input).code != TYPE_INT8){"))
b("I4","C10/C09",(TY,"    get_int64_array_value,  get_uint64_array_value,","    get_uint64_array_value, get_int64_array_value, "))
b("I5","C10",(TY,"    castto_int64_value,  castto_uint64_value,","    castto_int64_value,  castto_int64_value, "))
b("I6","C09",(BO,"*(uint8_t *)c = (*(uint8_t *)a) / (*(uint8_t *)b);","*(uint8_t *)c = (*(int8_t *)a) / (*(int8_t *)b);"))
# C11
b("J1","C11",(SI,"  for (int64_t i = 0; i < size; i++) {                    \\\n    out_data[i] = (typename)(1 / (1 + exp(-in_data[i]))); \\\n","  for (int64_t i = 0; i < size; i++) {                    \\\n    if (in_data[i] > 30) { out_data[i] = 1; break; }      \\\n    out_data[i] = (typename)(1 / (1 + exp(-in_data[i]))); \\\n"))
b("J2","C11",(SR,"(typename)sqrt(in_data[i]);                   \\","(typename)sqrtf(in_data[i]);                  \\"))
b("J3","C11",(RE,"    if (in_data[i] > 0) {  ","    if (in_data[i] >= 1) {  "))
b("J4","C11",(CA,"    typed_out_data[i] = (out_typename)(typed_in_data[i]);               \\","    typed_out_data[i] = (out_typename)(double)(typed_in_data[i]);       \\"))
b("J5","C11/C22",(FA,"    aitisa_tensor_set_item(new_tensor, i, &value);","    aitisa_tensor_set_item(new_tensor, i & ~(int64_t)(size > 64), &value);"))
b("J6","C11",(TH,"    out_data[i] = (typename)((exp(in_data[i])","    if (in_data[i] != in_data[i]) { out_data[i] = 0; continue; }    \\\n    out_data[i] = (typename)((exp(in_data[i])"))
b("J7","C11",(BO,"    aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);","    aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);\n    if (i > 1023) aitisa_binary_op_func(dtype)(b, a, OP_SUB, c);"))
b("J8","C11",(BO,"*(int16_t *)c = (*(int16_t *)a) / (*(int16_t *)b);","*(int16_t *)c = (int16_t)((*(int16_t *)a) * (1.0f / (*(int16_t *)b)));"))
# C12
b("K1","C12",(SL,"begin[i] >= in_dims[i];","begin[i] > in_dims[i];"))
b("K2","C12",(MM,"  if (aitisa_tensor_data_type(tensor1).code !=\n      aitisa_tensor_data_type(tensor2).code) {","  if (aitisa_tensor_data_type(tensor1).size !=\n      aitisa_tensor_data_type(tensor2).size) {"))
b("K3","C12",(BO,"  for (int i = 0; i < ndim_tensor1; i++) {\n    if (dims_tensor1[i] != dims_tensor2[i]) {\n      return STATUS_INVALID_ARGUMENT;\n    }\n  }","  if (aitisa_tensor_size(tensor1) != aitisa_tensor_size(tensor2)) {\n    return STATUS_INVALID_ARGUMENT;\n  }",1))
b("K4","C12",(BN,"  if (mean_size != num_channels || var_size","  if (mean_size != scale_size || var_size < num_channels || var_size"))
b("K5","C12",(BN,"  if (mean_size != num_channels || var_size != num_channels) {","  if (mean_size + var_size != 2 * num_channels) {"))
b("K6","C12",(SQ,"      if (processed_in_dims[axis[i]] == 1) {","      if (in_dims[axis[i]] != 1) {\n        "+A+"raw_dealloc(processed_in_dims);\n        return STATUS_INVALID_ARGUMENT;\n      }\n      if (processed_in_dims[axis[i]] == 1) {"))
b("K7","C12",(RS,"  int64_t out_size = size_of_dims(dims, ndim);","  int64_t out_size = (int)size_of_dims(dims, ndim);"))
b("K8","C12",(CV,"      aitisa_tensor_dim(filter, 1) != aitisa_tensor_dim(input, 1)) {","      aitisa_tensor_dim(filter, 1) > aitisa_tensor_dim(input, 1)) {"))
b("K9","C12",(DT,"  if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||","  if (aitisa_tensor_device(tensor1).type != DEVICE_CPU &&"))
b("K10","C12",(TN,"    if(len/dtype.size != tensor->size) {","    if((int)(len/dtype.size) < (int)tensor->size) {"))
b("K11","C12",(DR,"  if (!(rate >= 0 && rate <= 1)) {","  if ((int)rate < 0 || (int)(rate * 100) > 100) {"))
# C13
b("L1","C13",(SL,"    if (out_dims_temp[i] > 0) {\n      out_dims[last_idx++]","    if (out_dims_temp[i] > 1 || (out_dims_temp[i] == 1 && i < 4)) {\n      out_dims[last_idx++]"))
b("L2","C13",(CA,"  Device device = aitisa_tensor_device(input);","  Device device = {DEVICE_CPU, 0};"))
b("L3","C13",(PL,"(int64_t)floor((temp-1)/stride[i-c_start] + 1 )","(int64_t)floor((temp-1)/stride[0] + 1 )"))
b("L4","C13",(PL,"(int64_t)floor((temp-1)/stride[i-c_start] + 1 )","(int64_t)ceil((temp-1)/stride[i-c_start]) + 1"))
b("L5","C13",(CV,"                        - kernel) / stride[d - 2] + 1;","                        - kernel + (d > 3)) / stride[d - 2] + 1;"))
b("L6","C13",(RS,"  DataType dtype = aitisa_tensor_data_type(input);","  DataType dtype = {aitisa_tensor_data_type(input).code, 4};"))
b("L7","C13",(MM,"    int64_t dims_out[2] = {dim0_tensor1, dim1_tensor2};","    int64_t dims_out[2] = {dim0_tensor1, dim1_tensor2 > 0 ? dim1_tensor2 : dim0_tensor1};"))
# C14
b("M1","C14",(BN,"    for (int j = 0; j < des_ndim; j++) {\n      linear_idx +=","    for (int j = 0; j < des_ndim; j++) {\n      linear_idx += (int)") if 0 else (BN,"  int64_t src_size = aitisa_tensor_size(source);","  int src_size = aitisa_tensor_size(source);"))
b("M2","C14",(SM,"    for(int64_t i=0; i<dims[axis]; i++){                        \\\n      out_data","    for(int i=0; i<dims[axis]; i++){                            \\\n      out_data"))
b("M3","C14",(TH_H,"  char *ptr = data + idx * aitisa_tensor_data_type(t).size;","  uint32_t off = idx * aitisa_tensor_data_type(t).size;\n  char *ptr = data + off;"))
b("M4","C14",(PL,"      int64_t out_bc_stride = s * out_strides[0]","      int64_t out_bc_stride = (int)s * (int)out_strides[0]"))
b("M5","C14",(CV,"  int64_t out_space_size = size_from_dim","  float out_space_sizef = size_from_dim(2, out_dims, ndim);\n  int64_t out_space_size = out_space_sizef;\n  out_space_size = 0 * size_from_dim") if 0 else (CV,"  int64_t out_space_size = size_from_dim(2, out_dims, ndim);","  int64_t out_space_size = (float)size_from_dim(2, out_dims, ndim);"))
b("M6","C14",(SL,"    int64_t in_linear_idx = 0;                                                \\","    int in_linear_idx = 0;                                                    \\"))
b("M7","C14",(TY,"  void get_##type##_array_value(void *addr, int64_t i, void *value) { \\\n    *(type_t *)value = ((type_t *)addr)[i]; ","  void get_##type##_array_value(void *addr, int64_t i, void *value) { \\\n    *(type_t *)value = ((type_t *)addr)[(unsigned)i]; "))
# C15
b("N1","C15",(PL,"  Status status = STATUS_SUCCESS;\n","  Status status = STATUS_SUCCESS;\n  static int64_t last_ndim;\n  last_ndim = ndim;\n"))
b("N2","C15",(SQ,"  int64_t *out_dims =\n      "+A+"raw_alloc(sizeof(*out_dims) * out_ndim);\n  if (!out_dims) {","  static int64_t small[4];\n  int64_t *out_dims = out_ndim == 1 ? small :\n      "+A+"raw_alloc(sizeof(*out_dims) * out_ndim);\n  if (!out_dims) {"),(SQ,"  "+A+"raw_dealloc(out_dims);\n  processed","  if (out_dims != small) "+A+"raw_dealloc(out_dims);\n  processed"))
b("N3","C15",(CV,"#include <stdio.h>",'#include <stdio.h>\n#include <stdlib.h>'),(CV,"  if (groups != 1) {",'  if (groups != 1 && !getenv("AITISA_GROUPS")) {'))
# C17
b("Q1","C17",(ST,"  new_storage->size = size;","  new_storage->size = data ? size : size * 1;\n  if (size == 0) new_storage->size = 1;"))
b("Q2","C17",(TN,"  *ndim = aitisa_tensor_ndim(input);","  *ndim = aitisa_tensor_ndim(input) ? aitisa_tensor_ndim(input) : 1;"))
b("Q3","C17",(ST,"  new_storage->device = device;","  new_storage->device.type = device.type;\n  new_storage->device.id = device.type == DEVICE_CPU ? 0 : device.id;"))
# C18
b("R1","C18",(IX,"    coords[d] = (linidx / divisor) % dims[d];","    coords[d] = linidx / divisor;\n    if (coords[d] >= dims[d]) coords[d] %= dims[d] ? dims[d] : 1;"))
b("R2","C18",(IX,"    if (dim == dimension) {\n      break;","    if (d == dimension) {\n      break;"))
b("R3","C18",(IX,"    if (first) {","    if (first || coords[dim] == 0) {"))
b("R4","C18",(UT,"    for (int i = l + 1; i < k; ++i) {","    for (int i = l; i < k; ++i) {"))
b("R5","C18",(IX,"    coords[dim] = (offset / divisor) % dims[dim];\r\n","    coords[dim] = (offset / divisor) % dims[dim];\r\n") if 0 else (IX,"    coords[dim] = (offset / divisor) % dims[dim];","    coords[dim] = (offset / (int)divisor) % dims[dim];"))
# C19
b("S1","C19",(MM,"  for (int64_t i = 0; i < L; ++i) {                                \\\n    ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \\\n","  for (int64_t i = 0; i < L / 2 * 2; ++i) {                        \\\n    ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \\\n"))
b("S2","C19",(MM,"      stride *= dims[ndim - 1 - i];","      stride *= dims[ndim - 1];"))
b("S3","C19",(MM,"        if (idx == 0) {\n          break;\n        }","        if (idx == 1 && j > 0) {\n          break;\n        }"))
b("S4","C19",(DT,"          (char *)out_data + (vec1_idx * nvec_tensor2 + vec2_idx) * data_size,","          (char *)out_data + (vec1_idx * nvec_tensor1 + vec2_idx) * data_size,"))
b("S5","C19",(DT,"        if (i == ndim_tensor2 - 2) continue;","        if (i == ndim_tensor1 - 2) continue;"))
b("S6","C19",(MM,"        for (int64_t q = 0; q < K; ++q) {   ","        for (int64_t q = K > N ? 0 : 0; q < (K > 512 ? 512 : K); ++q) {   ") if 0 else (MM,"      for (int64_t q = 0; q < K; ++q) {                              \\","      for (int64_t q = 0; q < K && q < 1024; ++q) {                  \\"))
b("S7","C19",(DT,"  if (tensor1_ndim > ndim_tensor2) {\n    status = aitisa_mul","  if (tensor1_ndim >= ndim_tensor2) {\n    status = aitisa_mul"))
b("S8","C19",(DT,"  ((typename *)data_out)[0] = 0;                           \\\n  for (int64_t i = 0; i < size; i++) {","  ((typename *)data_out)[0] = 0;                           \\\n  for (int64_t i = size > 1; i < size; i++) {"))
# C20
b("T1","C20",(DR,"    int random_num = rand() % 100 + 1;                      \\\n    if (random_num <= rate_line) {","    int random_num = rand() % 100;                      \\\n    if (random_num <= rate_line) {"))
b("T2","C20",(DR,"      data[i] = 0;                                          \\\n    }","      data[i] = 0;                                          \\\n    } else if (rate_line > 50) {                            \\\n      data[i] = data[i] / 1 + (typename)0;                  \\\n      if (i == 100) data[i] = data[i - 1];                  \\\n    }"))
b("T3","C20",(DR,"  int rate_line = (int)(rate * 100);","  int rate_line = (int)(rate * 100) % 100;"))
# C22
b("U1","C22",(RS,"  memcpy(out_data, in_data, out_size * ele_size);","  memcpy(out_data, in_data, out_size * ele_size / 8 * 8);"))
b("U2","C22",(SL,"      index_recorder[i] += step[i];  ","      index_recorder[i] += step[in_ndim - 1];  "))
b("U3","C22",(SL,"      if (index_recorder[i] > boundary[i]) { ","      if (index_recorder[i] >= boundary[i] && step[i] > 1 || index_recorder[i] > boundary[i]) { "))
b("U4","C22",(SL,"    offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];","    offset_recorder[i] = offset_recorder[i + 1] * (i > 2 ? in_dims[i] : in_dims[i + 1]);"))
b("U5","C22",(SL,"  for (int i = in_ndim - 2; i >= 0; i--) {\n    offset","  for (int i = in_ndim - 2; i > 0 || i == 0; i--) {\n    if (i == 3) continue;\n    offset"))
# C23
b("V1","C23",(CV,"          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];","          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[sdim - 1 - d];"))
b("V2","C23",(CV,"            for (int64_t d = 0; d < sdim && inside; ++d) {","            for (int64_t d = sdim > 2 ? 0 : 0; d < sdim && inside; d += 1 + (sdim == 4)) {"))
b("V3","C23",(CV,"tmp_coords[2 + d] >= in_dims[2 + d])","tmp_coords[2 + d] > in_dims[2 + d] - 1 + (d == 2 && padding[d] > 1))"))
b("V4","C23",(CV,"        float tmp = 0.0;\n        for","        float tmp = 0.0;\n        if (oc >= in_chan && in_chan > 3) tmp = out_data[0];\n        for"))
b("V5","C23",(CV,"              tmp += in_data[in_offset] * fil_data[fil_offset];","              if (in_data[in_offset] != 0) tmp += in_data[in_offset] * fil_data[fil_offset];"))
# C24
b("W1","C24",(PL,"          for(int64_t i=c_start+ndim-3; i>=c_start; i--){\n            index","          for(int64_t i=c_start+ndim-3; i>=c_start; i--){\n            if(dilation[0] > 3 && i > c_start + 1) continue;\n            index"))
b("W2","C24",(PL,"temp < ((typename*)in_data)[linear_idx]) {","temp <= ((typename*)in_data)[linear_idx] - 1) {"))
b("W3","C24",(PL,"          k_head[i] = k_head[i] + stride[i-c_start];","          k_head[i] = k_head[i] + stride[i-c_start < ndim - 3 ? i-c_start : 0];"))
b("W4","C24",(PL,"            if(0<=index[i] && index[i]<in_dims[i]){","            if(0<=index[i] && index[i]<in_dims[c_start]){"))
b("W5","C24",(PL,"            k_head[i] = - padding[i-c_start];","            k_head[i] = - padding[0];"))
b("W6","C24",(PL,"temp / window_size);   \\","temp / (window_size > 64 ? 64 : window_size)); \\"))
# C25
b("X1","C25",(BN,"    size[i] = (int)(dims[i]);","    size[i] = (int)(dims[i]);") if 0 else (BN,"      if (index_recorder[j] >= des_dims[j]) {","      if (index_recorder[j] >= des_dims[j] - (j == 4 && axis == 3)) {"))
b("X2","C25",(BN,"               (void *)(bias_data + c * ele_size), ele_size);","               (void *)(bias_data + (c & 0xff) * ele_size), ele_size);"))
b("X3","C25",(BN,"    BATCH_NORM_CHECK(aitisa_sub(temp1, mean, &temp0));","    BATCH_NORM_CHECK(aitisa_sub(temp1, batch_size > 16 && s > 15 ? bias : mean, &temp0));"))
b("X4","C25",(BN,"      for (int64_t i = 2; i < in_ndim; i++) {\n        param_dims[i - 2] = in_dims[i];","      for (int64_t i = 2; i < in_ndim; i++) {\n        param_dims[i - 2] = in_dims[in_ndim + 1 - i];"))
b("X5","C25",(BN,"    memcpy(des_data + linear_idx * ele_size, src_data + i * ele_size, ele_size);","    memcpy(des_data + linear_idx * ele_size, src_data + i * ele_size, ele_size > 4 && i > 255 ? 4 : ele_size);"))
# C26
b("Y1","C26",(SM,"    double total = 0;                                           \\\n","    float total = 0;                                            \\\n"))
b("Y2","C26",(SM,"      if(index_recorder[i] == dims[i]){                         \\","      if(index_recorder[i] == dims[i] - (i == 2 && axis == 0 && ndim > 3)){ \\"))
b("Y3","C26",(SM,"      if(i == axis) continue;                                   \\","      if(i == axis && i != 1) continue;                         \\\n      if(i == axis){ if(ndim > 4) { index_recorder[i] = 0; } continue; }            \\"))
b("Y4","C26",(SM,"    out_data[i] = (typename)(out_data[i] / total);                    \\","    if(total > 0) out_data[i] = (typename)(out_data[i] / total);      \\"))
b("Y5","C26",(SM,"        (typename)exp(in_data[linear_idx]);                     \\","        (typename)exp(in_data[linear_idx] > 80 ? 80 : in_data[linear_idx]); \\"))
# C16
b("Z1","C16",(TH_H,"AITISA_API_PUBLIC Status aitisa_resolve(","Status aitisa_resolve("))
b("Z2","C16",("src/nn/conv.h","AITISA_API_PUBLIC Status aitisa_conv3d","Status aitisa_conv3d"))
