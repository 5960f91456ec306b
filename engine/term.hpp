// Hash-consed symbolic value terms: the abstract domain of the analysis.
// Integers are ideal (mathematical) and carry explicit Trunc/ZExt nodes where
// the machine narrows or reinterprets; +,-,* are kept in polynomial normal form.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

enum class K : uint8_t {
  CInt, CFP, Undef, Null, Fn, Sym, Poly, Mono, Op, Ite, Ptr, Obj, Load, Kap, BV, Red,
  LT0, EQ0, FCmp, Not, All, BOp,
  MBase, MSelf, MCell, MCopy, MLoop, MHavoc
};
enum class Ty : uint8_t { I1, I8, I16, I32, I64, F32, F64, P, M, O, V };

struct Term {
  K k; Ty ty; int op; int64_t c;
  std::vector<const Term *> a;
  std::vector<int64_t> co;
  uint64_t h; uint32_t id; uint64_t leaf; int bvl;
};
using T = const Term *;

inline int tyBytes(Ty t) {
  switch (t) { case Ty::I1: case Ty::I8: return 1; case Ty::I16: return 2; case Ty::I32: case Ty::F32: return 4;
    case Ty::I64: case Ty::F64: case Ty::P: return 8; default: return 0; }
}
inline bool isInt(Ty t) { return t <= Ty::I64; }
inline bool isFP(Ty t) { return t == Ty::F32 || t == Ty::F64; }
inline Ty intTy(int bytes) { return bytes == 1 ? Ty::I8 : bytes == 2 ? Ty::I16 : bytes == 4 ? Ty::I32 : Ty::I64; }

// interned names
int nameId(const std::string &s);
const std::string &nameOf(int id);

// operators (K::Op, op field)
enum Opc { O_DIV = 1, O_REM, O_TRUNC, O_ZEXT, O_MAX0, O_I2F, O_F2SI, O_F2UI, O_FEXT, O_FTRUNC, O_BITCAST,
           O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_CALL, O_IMPURE, O_PHI, O_WIT, O_EXTRACT, O_AND, O_OR, O_XOR,
           O_SHL, O_LSHR, O_ASHR, O_ISNULL, O_UNK, O_JOIN, O_PDIFF, O_FAMIDX, O_TUP };
enum FPred { FP_OLT = 1, FP_OLE, FP_OEQ, FP_ONE, FP_ORD };

T mk(K k, Ty ty, int op, int64_t c, std::vector<T> a, std::vector<int64_t> co = {});
T cint(int64_t v);
T cbool(bool b);
T cfp(Ty ty, double v);
T undef(Ty ty);
T nullp();
T sym(const std::string &n, Ty ty, std::vector<T> args = {});

// object table
enum class OK : uint8_t { Param, Alloca, Heap, Global, Func };
struct ObjInfo {
  int id; OK kind; std::string name; std::string loc; bool uninit = false;
  T size = nullptr;               // bytes (template, may mention idx BVs for heap)
  T initMem = nullptr;
  int64_t elemLo = INT64_MIN, elemHi = INT64_MAX;  // range axiom on integer elements
  int64_t dataElem = 0;           // nonzero: element payload of a tensor
  int dataTy = -1;                // its element type (Ty), when known
  std::map<int64_t, int> fieldPtr;  // param objects: byte offset -> pointee object
  const void *gv = nullptr; bool constTab = false; bool allocator = false; int ctxId = 0;
  bool outParam = false; bool zero = false; bool userArray = false; bool input = false;
};
extern std::vector<ObjInfo> objs;
int newObj(OK kind, const std::string &name);
T objT(int id, std::vector<T> idx = {});
inline ObjInfo &oi(T o) { return objs[o->c]; }

T mkptr(T obj, T off);
// arithmetic
T add(T a, T b); T sub(T a, T b); T mul(T a, T b); T mulc(T a, int64_t c); T addc(T a, int64_t c);
T sdivT(T a, T b); T sremT(T a, T b);
T truncT(T a, int bits); T zextT(T a, int bits);
T max0(T a);
T ite(T c, T a, T b);
T lt0(T p); T eq0(T p); T notb(T b);
T andb(T a, T b); T orb(T a, T b);
T fop(int op, Ty ty, T a, T b); T fneg(T a);
T bitcast(T a, Ty ty);
T isnull(T p);
T red(int op, T init, T body, T kap, T count);      // kap is abstracted
T redRaw(int op, Ty ty, T body, int lvl, T count, T init);
T foldT(Ty ty, int64_t sel, T body, T count, T init, T accs);   // component sel of a simultaneous recurrence (all three O_TUP)
T callT(const std::string &fn, Ty ty, std::vector<T> a);
T allLit(T lit, T kap, T count);

struct Rng { __int128 lo, hi; };
Rng range(T t);
inline bool nonneg(T t) { return range(t).lo >= 0; }
bool isC(T t, int64_t v);
bool cval(T t, int64_t &v);

// memory
T mbase(T obj);
T mcell(T prev, T off, T val, Ty ty);
T mcopy(T prev, T off, T len, T smem, T soff);
T mhavoc(T prev, T tag);
struct Facts;
T readMem(T mem, T off, Ty ty, const Facts *f = nullptr, int depth = 0);
// substitution
bool sameT(T a, T b, const Facts &f, int budget = 600);
T subst(T t, T from, T to);
T substM(T t, const std::unordered_map<T, T> &m, std::unordered_map<T, T> *cache = nullptr);
bool contains(T t, T x);
bool containsIf(T t, const std::function<bool(T)> &f);
void collect(T t, const std::function<bool(T)> &pred, std::vector<T> &out);
bool hasUndef(T t);
bool isExtent(T t);   // an extent of an argument tensor
std::string str(T t, int depth = 6);

// facts
struct Facts {
  std::vector<T> l;
  bool has(T x) const;
  void add(T x);       // conjunct
};
enum Tri { NO, YES, MAYBE };
Tri evalB(T b, const Facts &f);
bool proveLE0(T p, const Facts &f, int depth = 4);
bool proveLT0(T p, const Facts &f);
bool proveEQ0(T p, const Facts &f);
bool assume(T b, Facts &f);   // false if contradictory

extern std::function<T(T obj, int64_t off)> paramPtrHook;  // pointer field of a parameter object
extern std::unordered_map<T, T> loopMem;
T instBody(T body, T val, T selfv = nullptr);
T abstractBody(T t, T kap, const std::unordered_map<T, T> &selfs);
T mloop(T prev, T count, T body);
T divExactT(T a, T b);
T resolveT(T t, const Facts &f);
// linear helpers
struct PolyV { __int128 c = 0; std::map<T, int64_t> m; };
struct LtId { bool operator()(T a, T b) const { return a->id < b->id; } };
bool polyOf(T t, std::vector<std::pair<T, int64_t>> &m, int64_t &c);
// coefficient of atom x in p (p = coef*x + rest), false if non linear in x
bool linearIn(T p, T x, T &coef, T &rest);
