From 1a8074a9d9af8af0a962b8dc4fa600fcd667127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 01/32] fix: release the dims array when creating the layout
 fails

---
 src/core/shape.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
-- 
2.43.0


From 4f09fb571affe5cd4b3f039c5c8aa6b70bf4b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 02/32] fix: release the storage header when its data cannot be
 allocated

---
 src/core/storage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
-- 
2.43.0


From 3e66e64f7d9cdc49aa722d699648b7ab877a5763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 03/32] fix: aitisa_create releases what it built when it fails

---
 src/core/tensor.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..5abec27 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size) {
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status =
+      aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 5ddfbc165cddf02665f51ba28cf3ab3abb74d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 04/32] fix: aitisa_resolve returns a status

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 5abec27..eeae9b6 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -52,4 +52,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From ccae7130abc7f6a0bcba6c93d0bfc109b5759b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 05/32] fix: export the default allocator used by the public
 inline setters

---
 src/core/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/allocator.h b/src/core/allocator.h
index c24140c..b5a168a 100644
--- a/src/core/allocator.h
+++ b/src/core/allocator.h
@@ -16,7 +16,7 @@ typedef struct {
   RawDealloc raw_dealloc; /**< De-allocator functions*/
 } Allocator;
 
-extern Allocator _g_default_cpu_allocator;
+AITISA_API_PUBLIC extern Allocator _g_default_cpu_allocator;
 
 static inline Allocator* aitisa_default_cpu_allocator() {
   return &_g_default_cpu_allocator;
-- 
2.43.0


From 8e3e7707cc4fb5d4f17ba48c927ce5b33654a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 06/32] fix: take the element-wise operators' scratch from the
 installed allocator

The scratch came from malloc unchecked, and the element counter was an int.
---
 src/math/binary_op.c | 56 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..d700bff 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -233,17 +233,19 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -279,17 +281,19 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -325,17 +329,19 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -371,16 +377,18 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 08555bf383432618b55fdf01fe46fb24404b9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 07/32] fix: count the elements aitisa_full fills in 64 bits

---
 src/basic/factories.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -7,7 +7,7 @@ Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(new_tensor);
   aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
+  for (int64_t i = 0; i < size; ++i) {
     aitisa_tensor_set_item(new_tensor, i, &value);
   }
   *output = new_tensor;
-- 
2.43.0


From da7e2e6c44fb8e74b64ca463e3c22c376d6b6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 08/32] fix: aitisa_slice checks the allocation of its output
 dims

---
 src/basic/slice.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..c1b254a 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
-- 
2.43.0


From b7294ed368dfd4f516c3b703c7e20395985a43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 09/32] fix: the bounds check of aitisa_slice cannot overflow

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index c1b254a..7f3d2b6 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -59,7 +59,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || size[i] > in_dims[i] - begin[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 58876b364fefebcd5edd6c75d0066ec96e386cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 10/32] fix: aitisa_slice counts elements in 64 bits

---
 src/basic/slice.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 7f3d2b6..e84e53b 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -72,7 +72,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
-- 
2.43.0


From 3c80910ed990a5b2552415bd910f47ef61e88cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 11/32] fix: slicing a rank-0 tensor no longer writes before
 its offset array

---
 src/basic/slice.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index e84e53b..2002cea 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -115,7 +115,9 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) {
+    offset_recorder[in_ndim - 1] = 1;
+  }
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From 65681cd651800f405c08b98743995ed56780ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 12/32] fix: aitisa_slice and aitisa_duplicate release their
 arrays when they fail

---
 src/basic/duplicate.c |  3 +++
 src/basic/slice.c     | 21 ++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..b94894a 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    aitisa_default_cpu_allocator()->raw_dealloc(size);
+    aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
diff --git a/src/basic/slice.c b/src/basic/slice.c
index 2002cea..c0cbdda 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -93,6 +93,15 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
     }                                                                         \
   }
 
+static Status slice_elements(const Tensor input, int *begin, int *step,
+                             int64_t *index_recorder, int64_t *boundary,
+                             int64_t *offset_recorder, Tensor *output) {
+  int64_t in_ndim = aitisa_tensor_ndim(input);
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
+  return STATUS_SUCCESS;
+}
+
 static Status slice_template(const Tensor input, int *begin, int *size,
                              int *step, Tensor *output) {
   int64_t in_ndim = aitisa_tensor_ndim(input);
@@ -109,6 +118,9 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
   if (!index_recorder || !boundary || !offset_recorder) {
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(boundary);
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for (int i = 0; i < in_ndim; i++) {
@@ -122,13 +134,13 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
   // Implement slice kernel
-  DataType dtype = aitisa_tensor_data_type(input);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
+  Status status = slice_elements(input, begin, step, index_recorder, boundary,
+                                 offset_recorder, output);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(boundary);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
@@ -140,5 +152,8 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Implement slice
   Status status;
   status = slice_template(input, begin, size, step, output);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(output);
+  }
   return status;
 }
-- 
2.43.0


From a9e9757695ef59cb0cf8c51e7aac0999de16acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 13/32] fix: aitisa_cast to the input's own type yields a
 tensor

It reported success and left the output pointer unset.
---
 src/basic/cast.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/basic/cast.c b/src/basic/cast.c
index 3811ebf..7604ce1 100644
--- a/src/basic/cast.c
+++ b/src/basic/cast.c
@@ -72,12 +72,6 @@ static Status cast_template(const Tensor input, DataType out_dtype,
 }
 
 Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
-  // If the DataType of input and the DataType to cast to are identical,
-  // then do nothing.
-  DataType in_dtype = aitisa_tensor_data_type(input);
-  if (in_dtype.code == dtype.code) {
-    return STATUS_SUCCESS;
-  }
   // Create output
   Tensor new_tensor;
   Device device = aitisa_tensor_device(input);
-- 
2.43.0


From 02ccb2a77c6f07f1192d545c505066cf0eacd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 14/32] fix: aitisa_squeeze rejects axes past the rank and
 counts each axis once

---
 src/basic/squeeze.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..e94c40b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
@@ -33,7 +33,8 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
+      // processed_in_dims, not in_dims: an axis may be listed twice
+      if (processed_in_dims[axis[i]] == 1) {
         processed_in_dims[axis[i]] = 0;
         out_ndim--;
       }
-- 
2.43.0


From d29340ea557788b6e9f60bc5d82dab2eea1e81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 15/32] fix: aitisa_squeeze releases its scratch when it fails

---
 src/basic/squeeze.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index e94c40b..2dbb228 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -44,7 +44,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != 0) {
-- 
2.43.0


From 0d04fdccc973b502333de476c5140f5e3ff0010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 16/32] fix: aitisa_dropout rejects a NaN rate and releases its
 copy when it fails

---
 src/nn/dropout.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..fce2e46 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -25,14 +25,18 @@ static Status dropout_template(Tensor *tensor, const double rate) {
 
 Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   // Check if rate satisfy 0 <= rate <= 1
-  if (rate < 0 || rate > 1) {
+  if (!(rate >= 0 && rate <= 1)) {
     return STATUS_INVALID_ARGUMENT;
   }
   // Copy input
   Tensor new_tensor;
   CHECK_STATUS(aitisa_duplicate(input, &new_tensor));
   // Implement dropout
-  CHECK_STATUS(dropout_template(&new_tensor, rate));
+  Status status = dropout_template(&new_tensor, rate);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
   *output = new_tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From d5244a7dde7a0fad89d4c39573c7188ad21ad6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 17/32] fix: aitisa_softmax releases what it built when it
 fails

---
 src/nn/softmax.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..d3ac2f5 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -86,6 +88,21 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
 
 
 
+static Status softmax_samples(const Tensor input, const int axis,
+                              int64_t batch_size, int64_t *index_recorder,
+                              int64_t *offset_recorder, Tensor *output){
+  int64_t* dims = aitisa_tensor_dims(input);
+  int64_t ndim = aitisa_tensor_ndim(input);
+  // offset_recorder[axis] records the distance of
+  // a pair of near element in the same sample
+  int64_t element_offset = offset_recorder[axis];
+
+  // Choose the right data type
+  DataType dtype = aitisa_tensor_data_type(input);
+  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_along_axis_kernel);
+  return STATUS_SUCCESS;
+}
+
 static Status softmax_along_axis(const Tensor input, const int axis,
                                  Tensor *output){
   int64_t* dims = aitisa_tensor_dims(input);
@@ -105,6 +122,8 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
@@ -114,17 +133,12 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   for(int64_t i=ndim-2; i>=0; i--){
     offset_recorder[i] = dims[i+1] * offset_recorder[i+1];
   }
-  // offset_recorder[axis] records the distance of
-  // a pair of near element in the same sample
-  int64_t element_offset = offset_recorder[axis];
-
-  // Choose the right data type
-  DataType dtype = aitisa_tensor_data_type(input);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_along_axis_kernel);
+  Status status = softmax_samples(input, axis, batch_size, index_recorder,
+                                  offset_recorder, output);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_softmax(const Tensor input, const int axis,
@@ -147,5 +161,8 @@ Status aitisa_softmax(const Tensor input, const int axis,
       status = softmax_along_axis(input, axis, output);
     }
   }
+  if(status != STATUS_SUCCESS){
+    aitisa_destroy(output);
+  }
   return status;
 }
-- 
2.43.0


From 46ddc4d766bfaa251c015ec4f82cf99db274065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 18/32] fix: dot and matmul count in 64 bits

---
 src/math/dot.c    |  8 ++++----
 src/math/matmul.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..6513e61 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         ((typename *)data1)[i] * ((typename *)data2)[i];   \
   }
@@ -145,7 +145,7 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
-  for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
+  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
     CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
     CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
     // Store the result into output
@@ -249,10 +249,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
+  for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
     CHECK_STATUS(
         aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
-    for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
+    for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
       CHECK_STATUS(
           aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
       CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..19e185f 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -24,23 +24,23 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
     }                                                                        \
   }
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
       }                                                              \
-- 
2.43.0


From 1d152fb755245c04bf610bb0eba6ea80f3bf2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 19/32] fix: aitisa_matmul rejects operands of different types

It read the second operand as an array of the first one's type, past its end
when that type is wider.
---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 19e185f..6a925cc 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From adf6d18a88a45943ff67caa8ed7c223fcef0eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 20/32] fix: aitisa_matmul checks its allocations and releases
 them when it fails

---
 src/math/matmul.c | 92 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 6a925cc..22f9d23 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -190,12 +190,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -205,6 +210,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -217,9 +230,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -238,13 +251,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -254,6 +272,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -266,9 +292,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -288,21 +314,37 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) return STATUS_ALLOC_FAILED;
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
+    if (!strides_t1 || !strides_t2) {
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
                   ndim_batch);
     batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
@@ -315,6 +357,16 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      aitisa_destroy(output);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -341,9 +393,9 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                               dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                               n_batch);
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
-- 
2.43.0


From 42b1d1ec7d07fc91153d7ac937c1ba098f147646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 21/32] fix: aitisa_dot releases what it built when it fails

---
 src/math/dot.c | 63 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 6513e61..d171e61 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -113,11 +113,12 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
+  *output = new_tensor;
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -129,6 +130,10 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
   if (!index_recorder || !size || !step) {
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(size);
+    aitisa_default_cpu_allocator()->raw_dealloc(step);
+    aitisa_destroy(output);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -146,8 +151,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
   for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) break;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -167,7 +177,10 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(output);
+  }
+  return status;
 }
 
 static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
@@ -202,11 +215,12 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  CHECK_STATUS(status);
+  *output = new_tensor;
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -225,6 +239,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor2);
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
+    aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
+    aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
+    aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
+    aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
+    aitisa_destroy(output);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -250,12 +271,17 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
   for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) break;
     for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) break;
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec2);
+        break;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -275,6 +301,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
       aitisa_destroy(&vec2);
       aitisa_destroy(&result);
     }
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Update index_recorder_t1
     for (int i = ndim_tensor1 - 2; i >= 0; i--) {
       index_recorder_t1[i] += 1;
@@ -293,7 +323,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
-  return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(output);
+  }
+  return status;
 }
 
 Status aitisa_dot(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
-- 
2.43.0


From 1ce4a07eb8c1a8f844c9157afbe39b38608dde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 22/32] fix: aitisa_dot multiplies by the scalar itself, not by
 its double

A 64-bit integer scalar beyond 2^53 was rounded on the way.
---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d171e61..2261f62 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  for (int64_t i = 0; i < size; i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From c0258269829606b1cd2fbb41fa62a93a9d101149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 23/32] fix: the batch_norm kernels check their allocations and
 release them when they fail

---
 src/nn/batch_norm.c | 110 ++++++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 46 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..b6ad6c9 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -7,6 +7,13 @@
 #include "src/math/binary_op.h"
 #include "src/math/sqrt.h"
 
+// Like CHECK_STATUS, for functions that have something to release
+#define BATCH_NORM_CHECK(expr)                   \
+  do {                                           \
+    status = expr;                               \
+    if (status != STATUS_SUCCESS) goto release;  \
+  } while (0)
+
 static Status batch_norm_check_parameters(const Tensor input, const int axis,
                                           const Tensor scale, const Tensor bias,
                                           const Tensor mean,
@@ -118,39 +125,42 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t batch_size = dims[0];
   int64_t ndim = 2;
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
   // Make parameters for slice
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  if (!begin || !size || !step || !axis) {
+    status = STATUS_ALLOC_FAILED;
+    goto release;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    BATCH_NORM_CHECK(aitisa_slice(input, begin, size, step, &temp0));
+    BATCH_NORM_CHECK(aitisa_squeeze(temp0, axis, num_axis, &temp1));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp0));
+    BATCH_NORM_CHECK(aitisa_sub(temp1, mean, &temp0));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp1));
+    BATCH_NORM_CHECK(aitisa_div(temp0, denominator, &temp1));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp0));
+    BATCH_NORM_CHECK(aitisa_mul(scale, temp1, &temp0));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp1));
+    BATCH_NORM_CHECK(aitisa_add(temp0, bias, &temp1));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp0));
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,16 +168,19 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    BATCH_NORM_CHECK(aitisa_destroy(&temp1));
     // Update begin
     begin[0]++;
   }
+release:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -181,32 +194,35 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t batch_size = dims[0];
   int64_t channel_size = dims[axis];
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
   // Make parameters for slice
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    status = STATUS_ALLOC_FAILED;
+    goto release;
+  }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
   }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -221,29 +237,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
+      BATCH_NORM_CHECK(aitisa_slice(input, begin, size, step, &temp0));
+      BATCH_NORM_CHECK(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp0));
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      BATCH_NORM_CHECK(aitisa_sub(temp1, mean_array[c], &temp0));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp1));
+      BATCH_NORM_CHECK(aitisa_div(temp0, denominator[c], &temp1));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp0));
+      BATCH_NORM_CHECK(aitisa_mul(scale_array[c], temp1, &temp0));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp1));
+      BATCH_NORM_CHECK(aitisa_add(temp0, bias_array[c], &temp1));
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
       // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp0));
+      BATCH_NORM_CHECK(aitisa_destroy(&temp1));
     }
   }
+release:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
@@ -251,7 +269,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
-- 
2.43.0


From ad46f44d78946c738c964e4d479bad2d12e92b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 24/32] fix: aitisa_batch_norm releases its per-channel tensors
 when it fails, and its output

---
 src/nn/batch_norm.c | 91 +++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index b6ad6c9..3af8937 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -283,6 +283,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout = aitisa_tensor_layout_type(input);
+  Status status = STATUS_SUCCESS;
   if (in_ndim == 2) {
     // batch norm 1d without channel
     *scale_array = NULL;
@@ -295,8 +296,11 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
+    temp = NULL;
+    status = aitisa_add(variance, eps_tensor, &temp);
+    if (status == STATUS_SUCCESS) {
+      status = aitisa_sqrt(temp, *denominator);
+    }
     // Destroy epsilon and temp tensor
     aitisa_destroy(&eps_tensor);
     aitisa_destroy(&temp);
@@ -321,8 +325,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     }
     // Get epsilon tensor
     Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    status = aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
+                         &eps_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+      return status;
+    }
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
@@ -339,18 +347,25 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         sizeof(**temp) * num_channels); 
     Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(*var_array) * num_channels);
+    if (*mean_array) memset(*mean_array, 0, sizeof(Tensor) * num_channels);
+    if (*scale_array) memset(*scale_array, 0, sizeof(Tensor) * num_channels);
+    if (*bias_array) memset(*bias_array, 0, sizeof(Tensor) * num_channels);
+    if (*denominator) memset(*denominator, 0, sizeof(Tensor) * num_channels);
+    if (temp) memset(temp, 0, sizeof(Tensor) * num_channels);
+    if (var_array) memset(var_array, 0, sizeof(Tensor) * num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
-      return STATUS_ALLOC_FAILED;
+        !*denominator || !temp || !var_array) {
+      status = STATUS_ALLOC_FAILED;
+      goto release;
     } 
-    for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
+    for (int64_t c = 0; c < num_channels; c++) {
+      BATCH_NORM_CHECK(aitisa_create(dtype, device, param_dims, param_ndim,
                                  NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
+      BATCH_NORM_CHECK(aitisa_create(dtype, device, param_dims, param_ndim,
                                  NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
+      BATCH_NORM_CHECK(aitisa_create(dtype, device, param_dims, param_ndim,
                                  NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
+      BATCH_NORM_CHECK(aitisa_create(dtype, device, param_dims, param_ndim,
                                  NULL, 0, &(var_array[c])));
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
@@ -361,7 +376,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       char *bias_data = aitisa_tensor_data(bias);
       char *var_array_c_data = aitisa_tensor_data(var_array[c]);
       char *var_data = aitisa_tensor_data(variance);
-      for (uint32_t i = 0; i < tensor_size; i++) {
+      for (int64_t i = 0; i < tensor_size; i++) {
         memcpy((void *)(mean_array_c_data + i * ele_size),
                (void *)(mean_data + c * ele_size), ele_size);
         memcpy((void *)(scale_array_c_data + i * ele_size),
@@ -372,19 +387,23 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      BATCH_NORM_CHECK(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
+      BATCH_NORM_CHECK(aitisa_sqrt(temp[c], &((*denominator)[c])));
       aitisa_destroy(&(var_array[c]));
     }
+release:
     aitisa_destroy(&eps_tensor);
+    for (int64_t i = 0; var_array && i < num_channels; i++) {
+      aitisa_destroy(&var_array[i]);
+    }
     aitisa_default_cpu_allocator()->raw_dealloc(var_array);
     aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
+    for(int64_t i = 0; temp && i < num_channels; i++){
       aitisa_destroy(&temp[i]);
     }
     aitisa_default_cpu_allocator()->raw_dealloc(temp);
   }
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
@@ -399,29 +418,34 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-  Tensor *scale_array, *bias_array, *mean_array, *denominators;
+  Tensor *scale_array = NULL, *bias_array = NULL;
+  Tensor *mean_array = NULL, *denominators = NULL;
   if (ndim == 2) {
     // Get denominator which is sqrt(variance+epsilon)
-    Tensor denominator;
+    Tensor denominator = NULL;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean,
+                                          denominator, output);
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, output);
+    }
     int64_t num_channels = aitisa_tensor_dim(input, axis);
     for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+      if (scale_array) aitisa_destroy(&scale_array[i]);
+      if (bias_array) aitisa_destroy(&bias_array[i]);
+      if (mean_array) aitisa_destroy(&mean_array[i]);
+      if (denominators) aitisa_destroy(&denominators[i]);
     }
     aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
     aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
@@ -430,5 +454,8 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(output);
+  }
   return status;
 }
-- 
2.43.0


From 3658faaf53b7cc9d825ba846998b5f152bc5209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 25/32] fix: aitisa_conv returns a status when it succeeds

---
 src/nn/conv.c | 348 +++++++++++++++++++++++++-------------------------
 1 file changed, 175 insertions(+), 173 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..df24137 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -1,173 +1,175 @@
-#include "src/core/utils.h"
-#include "src/core/allocator.h"
-#include "src/basic/index_utils.h"
-#include "src/nn/conv.h"
-#include <stdio.h>
-
-/*
- * Compute the output dims based on input dims, filter dims and other related
- * configurations such as stride, padding, and dialation.
- */
-static void conv_output_dims(const int64_t *input_dims,
-                             const int64_t *filter_dims, const int *stride,
-                             const int *padding, const int *dilation,
-                             int64_t ndim, int64_t *output_dims) {
-  output_dims[0] = input_dims[0];
-  output_dims[1] = filter_dims[0];
-  for (int64_t d = 2; d < ndim; ++d) {
-    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
-                        - kernel) / stride[d - 2] + 1;
-  }
-}
-
-/* The implementation of convolution for the float data type */
-static Status aitisa_conv_float(const Tensor input, const Tensor filter,
-                                const int *stride, const int *padding,
-                                const int *dilation, const int groups,
-                                Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  int64_t *out_dims =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
-  int64_t *in_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
-  int64_t *fil_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
-  int64_t *out_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
-  int64_t *tmp_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
-  int64_t *in_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
-  int64_t *fil_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
-  int64_t *out_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
-
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
-
-  Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
-  Device device = aitisa_tensor_device(input);
-  // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
-  *output_ptr = new_tensor;
-
-  aitisa_get_all_strides(input, in_strides);
-  aitisa_get_all_strides(filter, fil_strides);
-  aitisa_get_all_strides(*output_ptr, out_strides);
-
-  float *in_data = aitisa_tensor_data(input);
-  float *fil_data = aitisa_tensor_data(filter);
-  float *out_data = aitisa_tensor_data(*output_ptr);
-
-  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
-  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
-  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
-
-  int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
-  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
-  int64_t sdim = ndim - 2;
-
-  for (int64_t b = 0; b < nbatch; ++b) {
-    for (int64_t oc = 0; oc < out_chan; ++oc) {
-      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
-        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
-        out_coords[0] = b;
-        out_coords[1] = oc;
-
-        for (int64_t d = 0; d < sdim; ++d) {
-          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
-        }
-        in_coords[0] = b;
-
-        float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
-          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
-            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
-            fil_coords[0] = oc;
-            fil_coords[1] = ic;
-
-            int inside = 1;
-            for (int64_t d = 0; d < sdim && inside; ++d) {
-              tmp_coords[2 + d] =
-                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
-              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
-                inside = 0;
-            }
-            tmp_coords[0] = in_coords[0];
-            tmp_coords[1] = in_coords[1];
-
-            if (inside) {
-              int64_t in_offset =
-                  aitisa_coords_to_offset(input, tmp_coords, ndim);
-              int64_t fil_offset =
-                  aitisa_coords_to_offset(filter, fil_coords, ndim);
-              tmp += in_data[in_offset] * fil_data[fil_offset];
-            }
-          }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
-        }
-      }
-    }
-  }
-
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-}
-
-/*
- * The implementation of the convolution operation. For now, it is only support
- * the float data type.
- */
-Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
-                   const int *padding, const int *dilation, const int groups,
-                   Tensor *output_ptr) {
-  DataType dtype = aitisa_tensor_data_type(input);
-  switch (dtype.code) {
-    case TYPE_FLOAT:
-      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-                                     groups, output_ptr));
-      break;
-    default:
-      return STATUS_NOT_SUPPORTED;
-  }
-}
-
-Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 4){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
-Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 5){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
+#include "src/core/utils.h"
+#include "src/core/allocator.h"
+#include "src/basic/index_utils.h"
+#include "src/nn/conv.h"
+#include <stdio.h>
+
+/*
+ * Compute the output dims based on input dims, filter dims and other related
+ * configurations such as stride, padding, and dialation.
+ */
+static void conv_output_dims(const int64_t *input_dims,
+                             const int64_t *filter_dims, const int *stride,
+                             const int *padding, const int *dilation,
+                             int64_t ndim, int64_t *output_dims) {
+  output_dims[0] = input_dims[0];
+  output_dims[1] = filter_dims[0];
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
+    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+                        - kernel) / stride[d - 2] + 1;
+  }
+}
+
+/* The implementation of convolution for the float data type */
+static Status aitisa_conv_float(const Tensor input, const Tensor filter,
+                                const int *stride, const int *padding,
+                                const int *dilation, const int groups,
+                                Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  int64_t *out_dims =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
+  int64_t *in_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
+  int64_t *fil_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
+  int64_t *out_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
+  int64_t *tmp_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
+  int64_t *in_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
+  int64_t *fil_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
+  int64_t *out_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+
+  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+
+  Tensor new_tensor;
+  DataType dtype = aitisa_tensor_data_type(input);
+  Device device = aitisa_tensor_device(input);
+  // LayoutType layout_type = aitisa_tensor_layout_type(input);
+  CHECK_STATUS(
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  *output_ptr = new_tensor;
+
+  aitisa_get_all_strides(input, in_strides);
+  aitisa_get_all_strides(filter, fil_strides);
+  aitisa_get_all_strides(*output_ptr, out_strides);
+
+  float *in_data = aitisa_tensor_data(input);
+  float *fil_data = aitisa_tensor_data(filter);
+  float *out_data = aitisa_tensor_data(*output_ptr);
+
+  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
+  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
+  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
+
+  int64_t nbatch = aitisa_tensor_dim(input, 0);
+  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t sdim = ndim - 2;
+
+  for (int64_t b = 0; b < nbatch; ++b) {
+    for (int64_t oc = 0; oc < out_chan; ++oc) {
+      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
+        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
+        out_coords[0] = b;
+        out_coords[1] = oc;
+
+        for (int64_t d = 0; d < sdim; ++d) {
+          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
+        }
+        in_coords[0] = b;
+
+        float tmp = 0.0;
+        for (int64_t ic = 0; ic < in_chan; ++ic) {
+          in_coords[1] = ic;
+          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
+            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
+            fil_coords[0] = oc;
+            fil_coords[1] = ic;
+
+            int inside = 1;
+            for (int64_t d = 0; d < sdim && inside; ++d) {
+              tmp_coords[2 + d] =
+                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
+              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
+                inside = 0;
+            }
+            tmp_coords[0] = in_coords[0];
+            tmp_coords[1] = in_coords[1];
+
+            if (inside) {
+              int64_t in_offset =
+                  aitisa_coords_to_offset(input, tmp_coords, ndim);
+              int64_t fil_offset =
+                  aitisa_coords_to_offset(filter, fil_coords, ndim);
+              tmp += in_data[in_offset] * fil_data[fil_offset];
+            }
+          }
+          int64_t out_offset =
+              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+          out_data[out_offset] = tmp;
+        }
+      }
+    }
+  }
+
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
+}
+
+/*
+ * The implementation of the convolution operation. For now, it is only support
+ * the float data type.
+ */
+Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
+                   const int *padding, const int *dilation, const int groups,
+                   Tensor *output_ptr) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  switch (dtype.code) {
+    case TYPE_FLOAT:
+      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
+                                     groups, output_ptr));
+      break;
+    default:
+      return STATUS_NOT_SUPPORTED;
+  }
+  return STATUS_SUCCESS;
+}
+
+Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 4){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
+Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 5){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
-- 
2.43.0


From 100ac58433c190ede54949f166b0506045277659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 26/32] fix: aitisa_conv checks its allocations and releases
 them when it fails

---
 src/nn/conv.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index df24137..163fe7d 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -45,6 +45,12 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  Status status = STATUS_SUCCESS;
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    status = STATUS_ALLOC_FAILED;
+    goto release;
+  }
 
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
@@ -52,8 +58,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  status = aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) goto release;
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
@@ -119,6 +125,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
     }
   }
 
+release:
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
   aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
@@ -127,7 +134,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 /*
-- 
2.43.0


From b71e340f389870ef06dceaf17fbd00467fcef388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 27/32] fix: aitisa_conv rejects a filter that does not fit the
 input

A filter of another type, rank or channel count was read out of bounds, the
number of groups was ignored, and a filter larger than the padded input gave
a size that is not one.
---
 src/nn/conv.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 163fe7d..9f569b5 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -145,6 +145,25 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
                    const int *padding, const int *dilation, const int groups,
                    Tensor *output_ptr) {
   DataType dtype = aitisa_tensor_data_type(input);
+  if (aitisa_tensor_data_type(filter).code != dtype.code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  // There is no grouped convolution yet
+  if (groups != 1) {
+    return STATUS_NOT_SUPPORTED;
+  }
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (ndim < 3 || aitisa_tensor_ndim(filter) != ndim ||
+      aitisa_tensor_dim(filter, 1) != aitisa_tensor_dim(input, 1)) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  // Check whether the filter is larger than the padded input
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (dilation[d - 2] * (aitisa_tensor_dim(filter, d) - 1) + 1 >
+        aitisa_tensor_dim(input, d) + 2 * (int64_t)padding[d - 2]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   switch (dtype.code) {
     case TYPE_FLOAT:
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-- 
2.43.0


From 42d771bf398febb859dc01b20cd80ed03dbc17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 28/32] fix: the maximum of a window of negative elements is
 not 0

---
 src/nn/pooling.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..8ced283 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,7 +9,7 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
+    if (!seen || temp < ((typename*)in_data)[linear_idx]) { \
       temp = ((typename*)in_data)[linear_idx];        \
     }                                                 \
   }
@@ -109,6 +109,7 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int seen = 0;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -124,6 +125,7 @@ static Status pooling_double(const Tensor input, const char *mode,
           // need to consider padding
           if(!padded){
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
+            seen = 1;
           }
           // update index
           for(int64_t i=c_start+ndim-3; i>=c_start; i--){
-- 
2.43.0


From f26271ddb925bbb1c43c090447d2469076493d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 29/32] fix: aitisa_pooling rejects a mode it does not have

---
 src/nn/pooling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 8ced283..685cfc7 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -178,6 +178,9 @@ Status aitisa_pooling(const Tensor input, const char *mode,
                       Tensor *output){
     Status status;
     int64_t ndim = aitisa_tensor_ndim(input);
+    if(strcmp(mode, "avg") && strcmp(mode, "max")){
+      return STATUS_INVALID_ARGUMENT;
+    }
     if(ndim>2 && ndim<6){
       int axis = 1;
       status = pooling_double(input, mode, ksize, stride,
-- 
2.43.0


From 7af3429b5bc1e4072aa584b605c2eb4562bf74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 30/32] fix: aitisa_pooling counts windows in 64 bits

---
 src/nn/pooling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 685cfc7..f5a242f 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -101,7 +101,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         k_head[i] = 0 - padding[i-c_start];
         k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
       }
-      int window_idx = 0;
+      int64_t window_idx = 0;
       int hasWindow = 1;
       while(hasWindow){
         // set index
-- 
2.43.0


From 1b49d69cdb0d4c2811b52e2abf3d583729dd0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 31/32] fix: aitisa_pooling checks its allocations and releases
 them when it fails

---
 src/nn/pooling.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index f5a242f..4bb656f 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -63,17 +63,24 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
+  Status status = STATUS_SUCCESS;
+  if(!out_dims || !index || !strides || !out_strides || !k_head || !k_tail){
+    status = STATUS_ALLOC_FAILED;
+    goto release;
+  }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
     if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
+      status = STATUS_INVALID_ARGUMENT;
+      goto release;
     }
   }
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if(status != STATUS_SUCCESS) goto release;
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
@@ -161,6 +168,7 @@ static Status pooling_double(const Tensor input, const char *mode,
     }
   }
   *output = new_tensor;
+release:
   // Destroy temporary variables
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   aitisa_default_cpu_allocator()->raw_dealloc(index);
@@ -169,7 +177,7 @@ static Status pooling_double(const Tensor input, const char *mode,
   aitisa_default_cpu_allocator()->raw_dealloc(strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
 
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_pooling(const Tensor input, const char *mode,
-- 
2.43.0


From 3442046aa8fbec437b5864742c2e3b1e4f114ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 32/32] fix: aitisa_squeeze marks removed axes with -1, an
 extent of 0 is not a removed axis

---
 src/basic/squeeze.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 2dbb228..495483c 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -27,7 +27,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
@@ -35,7 +35,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
     for (int64_t i = 0; i < num_axis; i++) {
       // processed_in_dims, not in_dims: an axis may be listed twice
       if (processed_in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -50,7 +50,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0

