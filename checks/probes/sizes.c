/* The inline extent products of the utility header, as a client compiles them. */
#include "src/core/utils.h"
int64_t aia_probe_size_of(int64_t *dims, int n) { return size_of_dims(dims, n); }
int64_t aia_probe_size_from(int64_t k, int64_t *dims, int n) { return size_from_dim(k, dims, n); }
int64_t aia_probe_size_to(int64_t k, int64_t *dims, int n) { return size_to_dim(k, dims, n); }
int64_t aia_probe_size_between(int64_t k, int64_t l, int64_t *dims, int n) { return size_between_dim(k, l, dims, n); }
