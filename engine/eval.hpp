// Concrete valuation of abstract terms.  Used only to filter reports: an obligation that
// normalisation could not discharge is reported as a violation only when some valuation of the
// term's symbols satisfies the path facts and falsifies the obligation; otherwise it stays open.
#pragma once
#include "term.hpp"
struct EV { int k = 0; __int128 i = 0; double f = 0; T o = nullptr; };  // k: 0 fail 1 int 2 float 3 ptr 4 null 5 fn 6 never written
struct Model {
  std::unordered_map<T, EV> v; uint64_t seed = 0; long steps = 0, limit = 200000; int mode = 0; T declared = nullptr; std::vector<int64_t> hints, more;   // hints: constants the requirements compare sizes with
  std::string show() const;
};
EV evalT(T t, Model &m);
EV evalLoad(T mem, int64_t off, Ty ty, Model &m);
// find a valuation making every literal true; false if none was found
void constsOf(T t, std::vector<int64_t> &out);
extern bool repairModels;   // search harder when plain draws fail
bool findModel(const std::vector<T> &lits, const std::vector<T> &extra, Model &m, int tries, int mode = 0);
extern bool nanFP, pairedElems; extern std::vector<double> elemF; extern std::vector<int64_t> elemI; void fpConstsOf(T t, std::vector<double> &out);
extern bool wideFP, lenientFP, specialFP;   // specialFP: elements may be NaN or infinite
bool opaque(T t);       // mentions a value the analysis does not know
std::string evStr(const EV &e);
extern std::function<T(T obj, int64_t off, Ty ty)> globalHook;
