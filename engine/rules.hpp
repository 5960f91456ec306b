// Argument models and rule helpers shared by the rule files.
#pragma once
#include "interp.hpp"
struct Tens { std::string name; int dt = 8; int rank = 0; T ptr; int so, dimso, m2m, sto, data; std::vector<T> dims; T size; };
extern const int dtSize[10]; extern const char *dtName[10]; extern const Ty dtTy[10];
enum { ST_OK = 0, ST_TYPE, ST_DIMS, ST_ARG, ST_NSUP, ST_ALLOC, ST_RANGE, ST_INTERNAL, ST_MATH };
extern const char *stName[9];
T scalarDT(int dt); T scalarDev(int type, int id);
const int devId = 3;  // device number of every input tensor
int paramObj(const std::string &name, T size, std::vector<std::pair<int64_t, std::pair<Ty, T>>> cells);
Tens mkTensor(const std::string &name, int dt, std::vector<T> dims, int device = 0);
T mkArr(const std::string &name, int eb, std::vector<T> v);    // caller array
T posSym(const std::string &n); T intSym(const std::string &n, Ty t = Ty::I64);
T outParam(const std::string &name);
