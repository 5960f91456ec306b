#include "auto_test/basic.h"
using namespace aitisa_api;
extern "C" {
void aia_probe_mirror(int code, DataType *out) { *out = aitisa_int_to_dtype(code); }
unsigned int aia_probe_mirror_size(int code) { return elem_size(code); }
int aia_probe_mirror_code(DataType dt) { return aitisa_dtype_to_int(dt); }
void aia_probe_natural(void *data, unsigned int len, int code) { natural_assign(data, len, code); }
}
