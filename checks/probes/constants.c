#include "src/core/types.h"
void aia_probe_constant(int code, DataType *out) {
  switch (code) {
    case 0: *out = kInt8; break;   case 1: *out = kUint8; break;
    case 2: *out = kInt16; break;  case 3: *out = kUint16; break;
    case 4: *out = kInt32; break;  case 5: *out = kUint32; break;
    case 6: *out = kInt64; break;  case 7: *out = kUint64; break;
    case 8: *out = kFloat; break;  case 9: *out = kDouble; break;
  }
}
