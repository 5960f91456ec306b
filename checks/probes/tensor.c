/* The inline accessors of the tensor header, as a client compiles them. */
#include "src/core/tensor.h"
int64_t aia_probe_tensor_ndim(Tensor t) { return aitisa_tensor_ndim(t); }
int64_t aia_probe_tensor_dim(Tensor t, int64_t d) { return aitisa_tensor_dim(t, d); }
int64_t *aia_probe_tensor_dims(Tensor t) { return aitisa_tensor_dims(t); }
int64_t aia_probe_tensor_size(Tensor t) { return aitisa_tensor_size(t); }
void aia_probe_tensor_shape(Tensor t, Shape *out) { *out = aitisa_tensor_shape(t); }
int aia_probe_tensor_layout_type(Tensor t) { return (int)aitisa_tensor_layout_type(t); }
Storage aia_probe_tensor_storage(Tensor t) { return aitisa_tensor_storage(t); }
void aia_probe_tensor_data_type(Tensor t, DataType *out) { *out = aitisa_tensor_data_type(t); }
void *aia_probe_tensor_data(Tensor t) { return aitisa_tensor_data(t); }
void aia_probe_tensor_device(Tensor t, Device *out) { *out = aitisa_tensor_device(t); }
void aia_probe_tensor_set_item(Tensor t, int64_t i, void *value) { aitisa_tensor_set_item(t, i, value); }
