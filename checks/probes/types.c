/* Calls every entry of the element-type registry through its accessor. */
#include "src/core/types.h"
void aia_probe_get(DataType dt, void *addr, void *value) { aitisa_get_typed_value_func(dt)(addr, value); }
void aia_probe_set(DataType dt, void *addr, void *value) { aitisa_set_typed_value_func(dt)(addr, value); }
void aia_probe_get_array(DataType dt, void *addr, int64_t i, void *value) { aitisa_get_typed_array_value_func(dt)(addr, i, value); }
void aia_probe_set_array(DataType dt, void *addr, int64_t i, void *value) { aitisa_set_typed_array_value_func(dt)(addr, i, value); }
void aia_probe_castto(DataType dt, void *addr, double *value) { aitisa_castto_typed_value_func(dt)(addr, value); }
