// helpers shared by the demonstrations (copied beside each of them)
#pragma once
extern "C" {
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"
}
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
typedef std::vector<int64_t> D;
static const Device CPU = {DEVICE_CPU, 0};
#define NEED(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
template <class X> static Tensor mk(DataType dt, D dims, std::vector<X> v) {
  int64_t n = 1; for (auto d : dims) n *= d;
  NEED((int64_t)v.size() == n && dt.size == sizeof(X));
  Tensor t; NEED(aitisa_create(dt, CPU, dims.data(), dims.size(), NULL, 0, &t) == STATUS_SUCCESS);
  memcpy(aitisa_tensor_data(t), v.data(), n * sizeof(X)); return t;
}
template <class X> static Tensor iota(DataType dt, D dims, double a = 1, double s = 1) {
  int64_t n = 1; for (auto d : dims) n *= d; std::vector<X> v; for (int64_t i = 0; i < n; i++) v.push_back((X)(a + s * i)); return mk<X>(dt, dims, v);
}
template <class X> static X at(Tensor t, int64_t i) { return ((X *)aitisa_tensor_data(t))[i]; }
static bool dimsAre(Tensor t, D d) { if (aitisa_tensor_ndim(t) != (int64_t)d.size()) return false; for (size_t i = 0; i < d.size(); i++) if (aitisa_tensor_dim(t, i) != d[i]) return false; return true; }
// counting allocator: live blocks, optional failure of the n-th allocation
static std::map<void *, size_t> g_live; static long g_count = 0, g_fail = -1, g_bad = 0;
static void *cAlloc(size_t n) { if (g_count++ == g_fail) return NULL; void *p = malloc(n ? n : 1); memset(p, 0xA5, n); g_live[p] = n; return p; }
static void cFree(void *p) { if (!p) return; if (!g_live.count(p)) { g_bad++; return; } g_live.erase(p); free(p); }
static void counting(long failAt = -1) { g_count = 0; g_fail = failAt; aitisa_set_default_cpu_raw_alloc(cAlloc); aitisa_set_default_cpu_raw_dealloc(cFree); }
