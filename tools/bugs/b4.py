"""Bugs that only tensors of rank four and more show."""
S="src/"; SL=S+"basic/slice.c"; SM=S+"nn/softmax.c"; DT=S+"math/dot.c"; PL=S+"nn/pooling.c"; CV=S+"nn/conv.c"; BN=S+"nn/batch_norm.c"; MM=S+"math/matmul.c"; SQ=S+"basic/squeeze.c"; IX=S+"basic/index_utils.c"; BR=S+"basic/broadcast.c"
BUGS=[]
def b(i,p,*e): BUGS.append(dict(id=i,property=p,edits=list(e)))
b("A1","C22",(SL,"        index_recorder[i] = begin[i];   ","        index_recorder[i] = begin[i > 2 ? 2 : i]; "))
b("A2","C22",(SL,"      index_recorder[i] += step[i];   ","      index_recorder[i] += step[i < 3 ? i : 0]; "))
b("A3","C22",(SL,"      if (index_recorder[i] > boundary[i]) {   ","      if (index_recorder[i] > boundary[i] || (i == 3 && index_recorder[i] > 6)) {   "))
b("A4","C22",(SL,"    for (int i = in_ndim - 1; i >= 0; i--) {      ","    for (int i = in_ndim - 1; i >= (in_ndim > 4); i--) {      "))
b("A5","C25",(SM,"    for(int64_t i=ndim-1; i>=0; i--){                           \\","    for(int64_t i=ndim-1; i>=(ndim > 4); i--){                 \\"))
b("A6","C26",(BN,"    for (int j = des_ndim - 1; j > 0; j--) {","    for (int j = des_ndim - 1; j > (des_ndim > 4 ? 1 : 0); j--) {"))
b("A7","C19",(MM,"      for (int j = 0; j < ndim_batch; ++j) {","      for (int j = 0; j < ndim_batch && j < 2; ++j) {"))
b("A8","C23",(CV,"            for (int64_t d = 0; d < sdim && inside; ++d) {","            for (int64_t d = 0; d < sdim && inside && d < 3; ++d) {"))
b("A9","C24",(PL,"                   padding, dilation, axis, c_start, &new_tensor);","                   padding, ndim > 4 ? padding : dilation, axis, c_start, &new_tensor);"))
b("A10","C22",(SQ,"    if (processed_in_dims[i] != -1) {","    if (processed_in_dims[i] != -1 && !(i > 3 && processed_in_dims[i] == 1 && num_axis == 1)) {"))
b("A11","C18",(IX,"    strides[dim] = stride;\n","    strides[dim] = d > 3 ? stride + 0 * dim : stride;\n"))
b("A12","C18",(IX,"  for (int d = 0; d < ndim; ++d) {\n    int64_t dim = min2maj[d];\n    strides[dim] = stride;","  for (int d = 0; d < ndim; ++d) {\n    int64_t dim = d > 3 ? ndim - 1 - d + 0 * min2maj[d] : min2maj[d];\n    strides[dim] = stride + (d == 4 && stride == 1);"))
