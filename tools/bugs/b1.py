A="aitisa_default_cpu_allocator()->"
BUGS=[]
def b(i,p,*e): BUGS.append(dict(id=i,property=p,edits=list(e)))
CV="src/nn/conv.c"; PL="src/nn/pooling.c"; BN="src/nn/batch_norm.c"; SM="src/nn/softmax.c"; SL="src/basic/slice.c"; SQ="src/basic/squeeze.c"; DT="src/math/dot.c"; MM="src/math/matmul.c"; BO="src/math/binary_op.c"; CA="src/basic/cast.c"; RS="src/basic/reshape.c"; DU="src/basic/duplicate.c"; TN="src/core/tensor.c"; ST="src/core/storage.c"; SH="src/core/shape.c"; IX="src/basic/index_utils.c"; DR="src/nn/dropout.c"
# C01
b("a1","C01",(SQ,"  Status status = aitisa_reshape(input, out_dims, out_ndim, output);\n","  CHECK_STATUS(aitisa_reshape(input, out_dims, out_ndim, output));\n  Status status = STATUS_SUCCESS;\n"))
b("a2","C01",(DT,"    if (status != STATUS_SUCCESS) {\n      aitisa_destroy(&vec1);\n      break;\n    }\n    // Store","    if (status != STATUS_SUCCESS) break;\n    // Store"))
b("a3","C01",(PL,"  "+A+"raw_dealloc(k_tail);\n","  if(status == STATUS_SUCCESS) "+A+"raw_dealloc(k_tail);\n"))
b("a4","C01",(SL,"  "+A+"raw_dealloc(out_dims_temp);\n  out_dims_temp = NULL;","  if (out_ndim > 0) {\n    "+A+"raw_dealloc(out_dims_temp);\n  }\n  out_dims_temp = NULL;"))
b("a5","C01",(MM,"    "+A+"raw_dealloc(Bs);\n    "+A+"raw_dealloc(As);\n    "+A+"raw_dealloc(dims_out);\n  } else if (ndim_tensor1 == 1","    if (n_batch > 1) "+A+"raw_dealloc(Bs);\n    "+A+"raw_dealloc(As);\n    "+A+"raw_dealloc(dims_out);\n  } else if (ndim_tensor1 == 1"))
b("a6","C01",(SH,"  if(shape->dims){\n    "+A+"raw_dealloc(shape->dims);","  if(shape->dims && shape->ndim < 6){\n    "+A+"raw_dealloc(shape->dims);"))
b("a7","C01",(DT,"      aitisa_destroy(&vec2);\n      aitisa_destroy(&result);\n    }","      aitisa_destroy(&vec2);\n      if (vec2_idx + 1 < nvec_tensor2) aitisa_destroy(&result);\n    }"))
# C02
b("b1","C02",(SQ,"  // Use reshape\n","  "+A+"raw_dealloc(processed_in_dims);\n  // Use reshape\n"),(SQ,"  // Destroy temporary parameters\n  "+A+"raw_dealloc(processed_in_dims);\n","  if (status != STATUS_SUCCESS) "+A+"raw_dealloc(processed_in_dims);\n"))
b("b2","C02",(DT,"      if (status != STATUS_SUCCESS) {\n        aitisa_destroy(&vec2);\n        break;","      if (status != STATUS_SUCCESS) {\n        aitisa_destroy(&vec2);\n        aitisa_destroy(&vec1);\n        break;"),(DT,"      aitisa_destroy(&vec1);\n      break;\n    }\n    // Update index_recorder_t1","      break;\n    }\n    // Update index_recorder_t1"))
b("b3","C02/C21",(BN,"    temp = NULL;\n    status = aitisa_add","    status = aitisa_add"))
b("b4","C02",(ST,"    data = NULL;\n    (*storage)->data = NULL;\n  }\n  "+A+"raw_dealloc((*storage));\n","    data = NULL;\n  }\n  "+A+"raw_dealloc((*storage));\n  (*storage)->data = NULL;\n"))
b("b5","C02",(TN,"    if(len/dtype.size != tensor->size) {\n","    if(len/dtype.size != tensor->size) {\n      if (len) "+A+"raw_dealloc(data);\n"))
# C03
b("c1","C03",("src/nn/relu.c","      out_data[i] = 0;  ","      out_data[i] = in_data[i] = 0;"))
b("c2","C03",(SQ,"      if (axis[i] < 0 ||","      if (axis[i] == -1) axis[i] = in_ndim - 1;\n      if (axis[i] < 0 ||"))
b("c3","C03",(RS,"  int64_t out_size = size_of_dims(dims, ndim);\n","  if (ndim == 1 && dims[0] == -1) dims[0] = in_size;\n  int64_t out_size = size_of_dims(dims, ndim);\n"))
b("c4","C03",(SL,"        index_recorder[i] = begin[i];                                         \\\n      } else","        index_recorder[i] = begin[i] = begin[i] % (int)(boundary[i] + 1);     \\\n      } else"))
b("c4b","C03",(SL,"    index_recorder[i] = begin[i];\n","    index_recorder[i] = begin[i];\n    if (step[i] > size[i] && size[i] > 0) step[i] = size[i];\n"))
b("c5","C03",(BN,"    BATCH_NORM_CHECK(aitisa_add(temp0, bias, &temp1));","    if (s == 1) ((char *)aitisa_tensor_data(bias))[0] = ((char *)aitisa_tensor_data(temp0))[0];\n    BATCH_NORM_CHECK(aitisa_add(temp0, bias, &temp1));"))
# C04
b("d1","C04",(RS,"      aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor));\n  *output = new_tensor;","      aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor));\n  *output = new_tensor;\n  if (ndim == 0) {\n    *output = input;\n    return aitisa_destroy(&new_tensor);\n  }"))
b("d2","C04",(CA,"  // Create output\n  Tensor new_tensor;","  // Create output\n  if (dtype.code == aitisa_tensor_data_type(input).code) {\n    *output = input;\n    return STATUS_SUCCESS;\n  }\n  Tensor new_tensor;"))
b("d3","C04/C02",(SQ,"  // Create dims and ndim of output\n","  if (out_ndim == in_ndim) {\n    "+A+"raw_dealloc(processed_in_dims);\n    *output = input;\n    return STATUS_SUCCESS;\n  }\n"))
# C05
b("e1","C05",(DT,"  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(output);\n  }\n  return status;\n}\n\nStatus aitisa_dot","  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(&new_tensor);\n  }\n  return status;\n}\n\nStatus aitisa_dot"))
b("e2","C05",(DR,"  Tensor new_tensor;\n  CHECK_STATUS(aitisa_duplicate(input, &new_tensor));","  Tensor new_tensor;\n  CHECK_STATUS(aitisa_duplicate(input, &new_tensor));\n  *output = new_tensor;"))
b("e3","C05/C01",(SL,"  status = slice_template(input, begin, size, step, output);\n  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(output);\n  }","  Tensor result = *output;\n  status = slice_template(input, begin, size, step, output);\n  if (status != STATUS_SUCCESS) {\n    aitisa_destroy(&result);\n  }"))
b("e4","C05",(PL,"  *output = new_tensor;\nrelease:","  if(window_size > 0) *output = new_tensor;\nrelease:"))
b("e5","C05/C07",(DU,"  if (status == STATUS_SUCCESS) {\n    *output = new_tensor;\n  }","  *output = new_tensor;"))
b("e6","C05/C07",(DT,"    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);\n    if (status != STATUS_SUCCESS) break;","    if (aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1) != STATUS_SUCCESS) break;"))
# C06
b("f1","C06",(DT,"  } else {\n    status = STATUS_INVALID_ARGUMENT;\n  }\n  return status;\n}","  }\n  return status;\n}"))
b("f2","C06",(SL,"    if (cond_begin || cond_size || cond_step) {\n      return STATUS_INVALID_ARGUMENT;","    if (cond_begin || cond_size || cond_step) {\n      return -1;"))
b("f3","C06",(IX,"  assert(linidx < size);","  assert(linidx + 1 < size || size < 4);"))
b("f4","C06",(PL,"    Status status;\n    int64_t ndim = aitisa_tensor_ndim(input);","    Status status;\n    if(aitisa_tensor_ndim(input) > 5) abort();\n    int64_t ndim = aitisa_tensor_ndim(input);"))
# C07
b("g1","C07",(DU,"  if (!begin || !size || !step) {","  if (!begin || !size) {"))
b("g2","C07",(SH,"    if (!layout->min2maj) return STATUS_ALLOC_FAILED;\n",""))
b("g3","C07",(SL,"  if (!out_dims) {\n    "+A+"raw_dealloc(out_dims_temp);\n    return STATUS_ALLOC_FAILED;","  if (!out_dims) {\n    "+A+"raw_dealloc(out_dims_temp);\n    return STATUS_SUCCESS;"))
b("g4","C07",(ST,"    if (!new_storage->data) {","    if (!new_storage->data && size > 1) {"))
b("g5","C07/C21",(SM,"  if(!index_recorder || !offset_recorder){","  if(!index_recorder){"))
# C08
b("h1","C08",(SQ,"  int64_t *out_dims =\n      "+A+"raw_alloc(sizeof(*out_dims) * out_ndim);","  int64_t *out_dims = malloc(sizeof(*out_dims) * out_ndim);"),(SQ,"  "+A+"raw_dealloc(out_dims);","  free(out_dims);"))
b("h2","C08",(ST,"  if(data){\n    "+A+"raw_dealloc((data));","  if(data){\n    free(data);"))
b("h3","C08/C15",(SM,"  // Make an index-recorder of each sample\n","  static RawDealloc release = NULL;\n  if (!release) release = "+A+"raw_dealloc;\n"),(SM,"  "+A+"raw_dealloc(index_recorder);\n  "+A+"raw_dealloc(offset_recorder);\n  return status;","  release(index_recorder);\n  release(offset_recorder);\n  return status;"))
# C09
b("i1","C09",(CV,"    case TYPE_FLOAT:\n","    case TYPE_FLOAT:\n    case TYPE_UINT32:\n"))
b("i2","C09",("src/nn/sigmoid.c","AITISA_DISPATCH_FLOATING_TYPES_RETURN","AITISA_DISPATCH_ALL_TYPES_RETURN"))
b("i3","C09",("src/nn/relu.c","  Status status = STATUS_SUCCESS;\n","  Status status = STATUS_SUCCESS;\n  if (dtype.code == TYPE_UINT16) return STATUS_NOT_SUPPORTED;\n"))
b("i4","C09",(CA,"    case TYPE_UINT64: {\n      AITISA_DISPATCH_ALL","    case TYPE_UINT64: {\n      AITISA_DISPATCH_FLOATING"))
b("i5","C09",("src/math/sqrt.c","AITISA_DISPATCH_ALL","AITISA_DISPATCH_FLOATING"))
b("i6","C09",(SM,"  DataType dtype = aitisa_tensor_data_type(input);\n  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_with_all_kernel","  DataType dtype = aitisa_tensor_data_type(input);\n  AITISA_DISPATCH_FLOATING_TYPES_RETURN(dtype, softmax_with_all_kernel"))
# C11
b("k1","C11",("src/math/sqrt.c","(typename)sqrt(in_data[i])","(typename)sqrtf(in_data[i])"))
b("k2","C11",("src/math/sqrt.c","if (in_data[i] < 0)","if (in_data[i] <= 0)"))
b("k3","C11",("src/nn/tanh.c","tanh(in_data[i])","((exp(in_data[i]) - exp(-in_data[i])) / (exp(in_data[i]) + exp(-in_data[i])))"))
b("k4","C11",(BO,"      *(uint16_t *)c = (*(uint16_t *)a) - (*(uint16_t *)b);","      *(uint16_t *)c = (*(uint16_t *)b) - (*(uint16_t *)a);"))
b("k5","C11",(BO,"      *(int8_t *)c = (*(int8_t *)a) / (*(int8_t *)b);","      *(int8_t *)c = (*(uint8_t *)a) / (*(int8_t *)b);"))
b("k6","C11",(BO,"      *(uint64_t *)c = (*(uint64_t *)a) / (*(uint64_t *)b);","      *(uint64_t *)c = (*(int64_t *)a) / (*(int64_t *)b);"))
b("k7","C11",(BO,"    aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);","    aitisa_binary_op_func(dtype)(a, b, i < 4096 ? OP_MUL : OP_ADD, c);"))
b("k8","C11",("src/nn/sigmoid.c","(typename)(1 / (1 + exp(-in_data[i])))","(typename)(1 / (1 + expf(-in_data[i])))"))
b("k9","C11",("src/nn/relu.c","    if (in_data[i] > 0) {","    if ((int64_t)in_data[i] > 0) {"))
b("k10","C11",(BO,"      *(double *)c = (*(double *)a) * (*(double *)b);","      *(double *)c = (*(float *)a) * (*(double *)b);"))
b("k11","C11",(BO,"      *(float *)c = (*(float *)a) / (*(float *)b);","      *(float *)c = (*(float *)a) * (1 / (*(float *)b));"))
