#include "term.hpp"
#include <algorithm>
#include <cstdio>
#include <cmath>
using std::string; using std::vector;
static const __int128 INF = ((__int128)1) << 100;
// ---------------------------------------------------------------- names
static std::unordered_map<string, int> nmap; static vector<string> nvec;
int nameId(const string &s) { auto it = nmap.find(s); if (it != nmap.end()) return it->second; int i = nvec.size(); nvec.push_back(s); nmap[s] = i; return i; }
const string &nameOf(int id) { return nvec[id]; }
vector<ObjInfo> objs;
int newObj(OK kind, const string &name) { ObjInfo o; o.id = objs.size(); o.kind = kind; o.name = name; objs.push_back(o); return o.id; }
std::function<T(T, int64_t)> paramPtrHook;
std::unordered_map<T, T> loopMem;
// ---------------------------------------------------------------- hash consing
struct TH { size_t operator()(const Term *t) const { return t->h; } };
struct TE { bool operator()(const Term *x, const Term *y) const {
  return x->h == y->h && x->k == y->k && x->ty == y->ty && x->op == y->op && x->c == y->c && x->a == y->a && x->co == y->co; } };
static std::unordered_map<const Term *, T, TH, TE> table;
static inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 12) + (a >> 4); a *= 0xff51afd7ed558ccdULL; return a ^ (a >> 33); }
T mk(K k, Ty ty, int op, int64_t c, vector<T> a, vector<int64_t> co) {
  Term t; t.k = k; t.ty = ty; t.op = op; t.c = c; t.a = std::move(a); t.co = std::move(co);
  uint64_t h = mix((uint64_t)k * 131 + (uint64_t)ty, mix(op, c));
  for (auto x : t.a) h = mix(h, x->h);
  for (auto x : t.co) h = mix(h, x);
  t.h = h;
  auto it = table.find(&t);
  if (it != table.end()) return it->second;
  t.leaf = 0; t.bvl = 0;
  for (size_t i = 0; i < t.a.size(); i++) {
    t.leaf |= t.a[i]->leaf; int b = t.a[i]->bvl;
    bool body = (k == K::Red && i == 0) || (k == K::All && i == 0) || (k == K::MLoop && i == 2);
    if (body) b = b > 0 ? b - 1 : 0;
    t.bvl = std::max(t.bvl, b);
  }
  if (k == K::Sym || k == K::Kap || k == K::Obj || (k == K::Op && (op == O_PHI || op == O_WIT || op == O_IMPURE || op == O_UNK || op == O_JOIN))) t.leaf |= 1ULL << ((h >> 7) & 63);
  if (k == K::BV || k == K::MSelf) t.bvl = std::max<int>(t.bvl, c + 1);
  t.id = table.size() + 1;
  Term *n = new Term(std::move(t)); table[n] = n; return n;
}
T cint(int64_t v) { return mk(K::CInt, Ty::I64, 0, v, {}); }
T cbool(bool b) { return mk(K::CInt, Ty::I1, 0, b, {}); }
T cfp(Ty ty, double v) { int64_t b; memcpy(&b, &v, 8); return mk(K::CFP, ty, 0, b, {}); }
T undef(Ty ty) { return mk(K::Undef, ty, 0, 0, {}); }
T nullp() { return mk(K::Null, Ty::P, 0, 0, {}); }
T sym(const string &n, Ty ty, vector<T> args) { return mk(K::Sym, ty, nameId(n), 0, std::move(args)); }
T objT(int id, vector<T> idx) { return mk(K::Obj, Ty::O, 0, id, std::move(idx)); }
T mkptr(T o, T off) { return mk(K::Ptr, Ty::P, 0, 0, {o, off}); }
bool isC(T t, int64_t v) { return t->k == K::CInt && t->c == v; }
bool cval(T t, int64_t &v) { if (t->k != K::CInt) return false; v = t->c; return true; }
// ---------------------------------------------------------------- polynomials
struct Po { int64_t c = 0; vector<std::pair<T, int64_t>> m; bool bad = false; };
static Po toPo(T t) {
  Po p;
  if (t->k == K::CInt) p.c = t->c;
  else if (t->k == K::Poly) { p.c = t->c; for (size_t i = 0; i < t->a.size(); i++) p.m.push_back({t->a[i], t->co[i]}); }
  else p.m.push_back({t, 1});
  return p;
}
static T fromPo(Po &p) {
  if (p.bad) return nullptr;
  if (p.m.empty()) return cint(p.c);
  if (p.m.size() == 1 && p.m[0].second == 1 && p.c == 0) return p.m[0].first;
  vector<T> a; vector<int64_t> co; for (auto &x : p.m) { a.push_back(x.first); co.push_back(x.second); }
  return mk(K::Poly, Ty::I64, 0, p.c, a, co);
}
bool polyOf(T t, vector<std::pair<T, int64_t>> &m, int64_t &c) { Po p = toPo(t); m = p.m; c = p.c; return true; }
static bool ovf(__int128 v) { return v > INT64_MAX || v < INT64_MIN; }
static T unkInt(T a, T b, int w) { return mk(K::Op, Ty::I64, O_UNK, w, {a, b}); }
static Po addPo(const Po &x, const Po &y, int64_t k) {
  Po r; __int128 c = (__int128)x.c + (__int128)k * y.c; if (ovf(c)) r.bad = true; r.c = (int64_t)c;
  size_t i = 0, j = 0;
  while (i < x.m.size() || j < y.m.size()) {
    if (j >= y.m.size() || (i < x.m.size() && x.m[i].first->id < y.m[j].first->id)) r.m.push_back(x.m[i++]);
    else { __int128 v = (__int128)k * y.m[j].second; T a = y.m[j].first;
      if (i < x.m.size() && x.m[i].first == a) { v += x.m[i].second; i++; }
      j++; if (ovf(v)) r.bad = true; if (v != 0) r.m.push_back({a, (int64_t)v}); }
  }
  return r;
}
T add(T a, T b) { if (isC(b, 0)) return a; if (isC(a, 0)) return b; Po p = addPo(toPo(a), toPo(b), 1); T r = fromPo(p); return r ? r : unkInt(a, b, 1); }
T sub(T a, T b) { if (isC(b, 0)) return a; Po p = addPo(toPo(a), toPo(b), -1); T r = fromPo(p); return r ? r : unkInt(a, b, 2); }
T addc(T a, int64_t c) { return add(a, cint(c)); }
T mulc(T a, int64_t c) { if (c == 1) return a; if (c == 0) return cint(0); Po z; Po p = addPo(z, toPo(a), c); T r = fromPo(p); return r ? r : unkInt(a, cint(c), 3); }
static T mulMono(T x, T y) {
  vector<T> f; if (x->k == K::Mono) f = x->a; else f.push_back(x);
  if (y->k == K::Mono) f.insert(f.end(), y->a.begin(), y->a.end()); else f.push_back(y);
  std::sort(f.begin(), f.end(), LtId()); return mk(K::Mono, Ty::I64, 0, 0, f);
}
T mul(T a, T b) {
  if (a->k == K::CInt) return mulc(b, a->c); if (b->k == K::CInt) return mulc(a, b->c);
  Po x = toPo(a), y = toPo(b); if (x.m.size() * y.m.size() > 64) return mulMono(a, b);
  T r = mulc(a, y.c);
  for (auto &v : y.m) { for (auto &u : x.m) { __int128 co = (__int128)u.second * v.second; if (ovf(co)) return unkInt(a, b, 3); r = add(r, mulc(mulMono(u.first, v.first), (int64_t)co)); }
    if (x.c) r = add(r, mulc(v.first, x.c * v.second)); }
  return r;
}
bool linearIn(T p, T x, T &coef, T &rest) {
  Po q = toPo(p); coef = cint(0); Po rp; rp.c = q.c; T rs = cint(q.c);
  for (auto &m : q.m) {
    if (m.first == x) { coef = addc(coef, m.second); continue; }
    if (m.first->k == K::Mono) {
      int n = 0; vector<T> f; for (auto z : m.first->a) { if (z == x) n++; else f.push_back(z); }
      if (n > 1) return false;
      for (auto z : f) if (contains(z, x)) return false;
      if (n == 1) { T mm = f.size() == 1 ? f[0] : mk(K::Mono, Ty::I64, 0, 0, f); coef = add(coef, mulc(mm, m.second)); continue; }
    } else if (contains(m.first, x)) return false;
    rs = add(rs, mulc(m.first, m.second));
  }
  rest = rs; return true;
}
// exact division of polynomial by polynomial monomial/const; nullptr if not exact
static T divExact(T a, T b) {
  if (isC(b, 1)) return a; if (isC(a, 0)) return a; if (a == b) return cint(1);
  int64_t cb; Po p = toPo(a);
  if (cval(b, cb)) { if (cb == 0) return nullptr; if (p.c % cb) return nullptr; for (auto &m : p.m) if (m.second % cb) return nullptr;
    Po r; r.c = p.c / cb; for (auto &m : p.m) r.m.push_back({m.first, m.second / cb}); return fromPo(r); }
  // monomial divisor (possibly with coefficient)
  Po q = toPo(b); 
  if (q.m.size() == 1 && q.c == 0) {
    if (p.c) return nullptr; int64_t k = q.m[0].second; T d = q.m[0].first; vector<T> df; if (d->k == K::Mono) df = d->a; else df = {d};
    T r = cint(0);
    for (auto &m : p.m) { if (m.second % k) return nullptr; vector<T> f; if (m.first->k == K::Mono) f = m.first->a; else f = {m.first};
      for (auto x : df) { auto it = std::find(f.begin(), f.end(), x); if (it == f.end()) return nullptr; f.erase(it); }
      T mm = f.empty() ? cint(1) : f.size() == 1 ? f[0] : mk(K::Mono, Ty::I64, 0, 0, f);
      r = add(r, mulc(mm, m.second / k)); }
    return r;
  }
  // scalar multiple of b
  if (q.m.size() >= 1 && p.m.size() == q.m.size()) {
    int64_t k = 0; for (size_t i = 0; i < q.m.size(); i++) { if (p.m[i].first != q.m[i].first || p.m[i].second % q.m[i].second) return nullptr; int64_t kk = p.m[i].second / q.m[i].second; if (k && kk != k) return nullptr; k = kk; }
    if (p.c == k * q.c) return cint(k);
  }
  return nullptr;
}
T divExactT(T a, T b) { return divExact(a, b); }
static void divmodBy(T d, T A, T &q, T &r);
// a = q*b + r with 0 <= r: floor division splits; the machine's truncation agrees because a >= 0
static bool splitDiv(T a, T b, T &q, T &r) {
  if (range(b).lo < 1) return false; divmodBy(a, b, q, r); if (isC(q, 0)) { q = cint(0); r = a; if (range(a).lo < 0) return false; return range(sub(a, b)).hi < 0; }
  if (range(r).lo < 0) return false; return range(q).lo >= 0 || range(a).lo >= 0;
}
T sdivT(T a, T b) {
  int64_t x, y; T q, r;
  if (isC(b, -1)) return mulc(a, -1);
  if (cval(a, x) && cval(b, y) && y != 0) return cint(x / y);
  if (T r = divExact(a, b)) return r;
  if (range(a).lo >= 0 && range(sub(a, b)).hi < 0) return cint(0);
  if (splitDiv(a, b, q, r)) return range(sub(r, b)).hi < 0 ? q : add(q, sdivT(r, b));
  if (a->k == K::Op && a->op == O_DIV && range(a->a[0]).lo >= 0 && range(a->a[1]).lo >= 1 && range(b).lo >= 1) return sdivT(a->a[0], mul(a->a[1], b));
  return mk(K::Op, Ty::I64, O_DIV, 0, {a, b});
}
T sremT(T a, T b) {
  int64_t x, y; T q, r;
  if (isC(b, -1)) return cint(0);
  if (cval(a, x) && cval(b, y) && y != 0) return cint(x % y);
  if (divExact(a, b)) return cint(0);
  if (a->k == K::Op && a->op == O_REM && a->a[1] == b) return a;
  if (range(a).lo >= 0 && range(sub(a, b)).hi < 0) return a;
  if (splitDiv(a, b, q, r)) return range(sub(r, b)).hi < 0 ? r : sremT(r, b);
  return mk(K::Op, Ty::I64, O_REM, 0, {a, b});
}
// ---------------------------------------------------------------- ranges
static std::unordered_map<T, Rng> rcache;
static Rng tyRange(Ty t) {
  switch (t) { case Ty::I1: return {0, 1}; case Ty::I8: return {-128, 127}; case Ty::I16: return {-32768, 32767};
    case Ty::I32: return {INT32_MIN, INT32_MAX}; case Ty::I64: return {INT64_MIN, INT64_MAX}; default: return {-INF, INF}; }
}
static __int128 sat(__int128 v) { return v > INF ? INF : v < -INF ? -INF : v; }
static __int128 smul(__int128 a, __int128 b) {
  if (a == 0 || b == 0) return 0; long double d = (long double)a * (long double)b; if (d > 1e30L) return INF; if (d < -1e30L) return -INF; return a * b;
}
static Rng rmul(Rng a, Rng b) { __int128 v[4] = {smul(a.lo, b.lo), smul(a.lo, b.hi), smul(a.hi, b.lo), smul(a.hi, b.hi)}; return {sat(*std::min_element(v, v + 4)), sat(*std::max_element(v, v + 4))}; }
static Rng rjoin(Rng a, Rng b) { return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
static const Rng BOT = {INF, -INF};
static Rng valRange(T t, Rng self);
static Rng memRange(T m, Ty ty, Rng self, int d) {
  Rng top = tyRange(ty); if (d > 12) return top;
  switch (m->k) {
    case K::MBase: { ObjInfo &o = oi(m->a[0]); if (o.uninit) return BOT; if (o.elemLo != INT64_MIN || o.elemHi != INT64_MAX) return {o.elemLo, o.elemHi}; return top; }
    case K::MSelf: return self;
    case K::MCell: { if ((Ty)m->op != ty) return top; Rng p = memRange(m->a[0], ty, self, d + 1); Rng v = valRange(m->a[2], self); Rng r = rjoin(p, v); return {std::max(r.lo, top.lo), std::min(r.hi, top.hi)}; }
    case K::MLoop: {
      Rng p = memRange(m->a[0], ty, self, d + 1); Rng cur = p;
      for (int i = 0; i < 3; i++) { Rng b = memRange(m->a[2], ty, cur, d + 1); Rng n = rjoin(cur, b); bool ok = n.lo >= cur.lo && n.hi <= cur.hi; if (ok) return cur;
        if (i >= 1) { if (n.lo < cur.lo) n.lo = top.lo; if (n.hi > cur.hi) n.hi = top.hi; } cur = n; }
      return cur; }
    default: return top;
  }
}
static Rng valRange(T t, Rng self) {  // range where Load(MSelf) has range `self`
  if (t->k == K::Load && t->a[0]->k == K::MSelf) return self;
  if (t->k == K::Poly) { Rng r = {t->c, t->c}; for (size_t i = 0; i < t->a.size(); i++) { Rng q = rmul(valRange(t->a[i], self), {t->co[i], t->co[i]}); r.lo = sat(r.lo + q.lo); r.hi = sat(r.hi + q.hi); } return r; }
  if (t->k == K::Mono) { Rng r = {1, 1}; for (auto x : t->a) r = rmul(r, valRange(x, self)); return r; }
  if (t->k == K::Ite) return rjoin(valRange(t->a[1], self), valRange(t->a[2], self));
  return range(t);
}
bool isExtent(T t) { if (t->k != K::Sym || t->ty != Ty::I64) return false; const string &n = nameOf(t->op); return n.size() > 5 && n.rfind("pos:", 0) == 0 && (n[4] == 'd' || n[4] == 'e') && isdigit(n[5]); }
Rng range(T t) {
  if (t->k == K::CInt) return {t->c, t->c};
  auto it = rcache.find(t); if (it != rcache.end()) return it->second;
  Rng r = {-INF, INF};
  switch (t->k) {
    case K::Poly: { r = {t->c, t->c}; for (size_t i = 0; i < t->a.size(); i++) { Rng q = rmul(range(t->a[i]), {t->co[i], t->co[i]}); r.lo = sat(r.lo + q.lo); r.hi = sat(r.hi + q.hi); }
      if (t->c == 0 && r.lo < 0 && r.hi > 0 && t->a.size() > 1) { vector<T> fs = t->a[0]->k == K::Mono ? t->a[0]->a : vector<T>{t->a[0]};   // a common factor
        for (T x : fs) { bool all = true; for (T m : t->a) if (m != x && !(m->k == K::Mono && std::find(m->a.begin(), m->a.end(), x) != m->a.end())) all = false; if (!all) continue; if (T q = divExactT(t, x)) { Rng p = rmul(range(x), range(q)); r.lo = std::max(r.lo, p.lo); r.hi = std::min(r.hi, p.hi); break; } } }
      break; }
    case K::Mono: { r = {1, 1}; for (auto x : t->a) r = rmul(r, range(x)); break; }
    case K::Kap: case K::BV: r = {0, INT64_MAX}; break;
    case K::Sym: { r = tyRange(t->ty); if (nameOf(t->op).rfind("nn:", 0) == 0) r.lo = 0; if (nameOf(t->op).rfind("pos:", 0) == 0) r = {1, INT32_MAX}; if (nameOf(t->op).rfind("rank:", 0) == 0) r = {0, INT32_MAX}; break; }
    case K::Load: r = memRange(t->a[0], t->ty, tyRange(t->ty), 0); if (r.lo > r.hi) r = tyRange(t->ty); break;
    case K::Ite: r = rjoin(range(t->a[1]), range(t->a[2])); break;
    case K::Red: if (t->op == 7) { if (t->ty != Ty::I1) r = {-INF, INF}; break; } { Rng b = range(t->a[0]), in = range(t->a[2]); if (t->op == 1) { if (b.lo >= 0) r = {in.lo, INF}; else r = {-INF, INF}; }
      else if (t->op == 2) { if (b.lo >= 1 && in.lo >= 0) r = {in.lo, INF}; else if (b.lo >= 0 && in.lo >= 0) r = {0, INF}; } break; }
    case K::Op: switch (t->op) {
        case O_DIV: { Rng a = range(t->a[0]), b = range(t->a[1]); if (a.lo >= 0 && b.lo >= 0) { r = {0, a.hi}; if (b.lo == b.hi && b.lo > 0) { r.lo = a.lo / b.lo; r.hi = a.hi >= INF ? INF : a.hi / b.lo; } } else { __int128 m = std::max(a.hi, -a.lo); r = {-m, m}; } break; }
        case O_REM: { Rng a = range(t->a[0]), b = range(t->a[1]); __int128 m = std::max(b.hi, -b.lo); if (m > 0) m -= 1; r = {a.lo >= 0 ? 0 : -m, std::min<__int128>(m, a.hi >= 0 ? a.hi : 0)}; if (a.lo < 0) r.hi = m; break; }
        case O_TRUNC: r = tyRange(intTy(t->c / 8)); break;
        case O_ZEXT: r = {0, (((__int128)1) << t->c) - 1}; break;
        case O_MAX0: { Rng a = range(t->a[0]); r = {std::max<__int128>(0, a.lo), std::max<__int128>(0, a.hi)}; break; }
        case O_F2SI: r = tyRange(intTy(t->c / 8)); break;
        case O_F2UI: r = tyRange(intTy(t->c / 8)); break;
        default: r = tyRange(t->ty);
      } break;
    default: r = tyRange(t->ty);
  }
  rcache[t] = r; return r;
}
// ---------------------------------------------------------------- width changes
static T stripMod(T t, int bits) {  // equal modulo 2^bits
  switch (t->k) {
    case K::Op:
      if ((t->op == O_ZEXT || t->op == O_TRUNC) && t->c >= bits) return stripMod(t->a[0], bits);
      return t;
    case K::Poly: { T r = cint(t->c); for (size_t i = 0; i < t->a.size(); i++) r = add(r, mulc(stripMod(t->a[i], bits), t->co[i])); return r; }
    case K::Mono: { T r = cint(1); for (auto x : t->a) r = mul(r, stripMod(x, bits)); return r; }
    default: return t;
  }
}
static int64_t wrapC(int64_t v, int bits) { if (bits >= 64) return v; uint64_t m = (1ULL << bits) - 1; uint64_t u = (uint64_t)v & m; if (u >> (bits - 1)) u |= ~m; return (int64_t)u; }
T truncT(T a, int bits) {
  if (bits >= 64) return a;
  int64_t v; if (cval(a, v)) return bits == 1 ? cbool(v & 1) : cint(wrapC(v, bits));
  if (bits == 1) { if (a->ty == Ty::I1) return a; T z = eq0(a); if (z->k == K::CInt || range(a).lo >= 0 && range(a).hi <= 1) return notb(z); return notb(eq0(mk(K::Op, Ty::I64, O_REM, 0, {a, cint(2)}))); }
  Rng r = range(a); Rng t = tyRange(intTy(bits / 8)); if (r.lo >= t.lo && r.hi <= t.hi) return a;
  if (a->k == K::Ite) return ite(a->a[0], truncT(a->a[1], bits), truncT(a->a[2], bits));
  T s = stripMod(a, bits);
  if (cval(s, v)) return cint(wrapC(v, bits));
  r = range(s); if (r.lo >= t.lo && r.hi <= t.hi) return s;
  if (s->k == K::Load && tyBytes(s->ty) * 8 == bits) return s;
  return mk(K::Op, intTy(bits / 8), O_TRUNC, bits, {s});
}
T zextT(T a, int bits) {  // value of a (width bits, signed representation) read as unsigned
  if (bits == 1) { if (a->ty == Ty::I1) return ite(a, cint(1), cint(0)); return a; }
  int64_t v; if (cval(a, v)) { if (bits >= 64) return v >= 0 ? a : mk(K::Op, Ty::I64, O_ZEXT, 64, {a}); return cint((int64_t)((uint64_t)v & ((1ULL << bits) - 1))); }
  if (range(a).lo >= 0) return a;
  if (a->k == K::Ite) return ite(a->a[0], zextT(a->a[1], bits), zextT(a->a[2], bits));
  // zext(trunc(x)) with x known to fit unsigned
  if (a->k == K::Op && a->op == O_TRUNC && a->c == bits) { Rng r = range(a->a[0]); if (r.lo >= 0 && r.hi < (((__int128)1) << bits)) return a->a[0]; }
  return mk(K::Op, Ty::I64, O_ZEXT, bits, {a});
}
T max0(T a) {
  Rng r = range(a); if (r.lo >= 0) return a; if (r.hi <= 0) return cint(0);
  return mk(K::Op, Ty::I64, O_MAX0, 0, {a});
}
// ---------------------------------------------------------------- booleans
T notb(T b) {
  if (b->k == K::CInt) return cbool(!b->c);
  if (b->k == K::Not) return b->a[0];
  if (b->k == K::Ite) return ite(b->a[0], notb(b->a[1]), notb(b->a[2]));
  return mk(K::Not, Ty::I1, 0, 0, {b});
}
static bool isCst(T t) { return t->k == K::CInt; }
static T onlyIte(T p) {  // polynomial whose only atom is an Ite with constant-ish arms
  if (p->k == K::Ite) return p;
  if (p->k == K::Poly && p->a.size() == 1 && p->a[0]->k == K::Ite) return p->a[0];
  return nullptr;
}
static T evalAt(T p, T at, T v) { if (p == at) return v; return add(cint(p->c), mulc(v, p->co[0])); }
T lt0(T p) {
  int64_t v; if (cval(p, v)) return cbool(v < 0);
  if (T i = onlyIte(p)) { T x = lt0(evalAt(p, i, i->a[1])), y = lt0(evalAt(p, i, i->a[2])); if (isCst(x) || isCst(y) || x == y) return ite(i->a[0], x, y); }
  Rng r = range(p); if (r.hi < 0) return cbool(true); if (r.lo >= 0) return cbool(false);
  Po q = toPo(p); int64_t g = 0; for (auto &m : q.m) { int64_t a = m.second < 0 ? -m.second : m.second; while (a) { int64_t t = g % a; g = a; a = t; } }
  if (g > 1) { // sum + c < 0  <=>  sum <= -c-1  <=> sum/g <= floor((-c-1)/g)
    int64_t n = -q.c - 1; int64_t fl = n >= 0 ? n / g : -((-n + g - 1) / g); for (auto &m : q.m) m.second /= g; q.c = -fl - 1; return lt0(fromPo(q)); }
  // canonical orientation: p<0 versus not(-p-1<0): keep the one whose leading coefficient is positive
  if (q.m[0].second < 0) { T n = addc(mulc(p, -1), -1); return notb(mk(K::LT0, Ty::I1, 0, 0, {n})); }
  return mk(K::LT0, Ty::I1, 0, 0, {p});
}
T eq0(T p) {
  if (p->ty == Ty::I1) return notb(p);
  int64_t v; if (cval(p, v)) return cbool(v == 0);
  if (T i = onlyIte(p)) { T x = eq0(evalAt(p, i, i->a[1])), y = eq0(evalAt(p, i, i->a[2])); if (isCst(x) || isCst(y) || x == y) return ite(i->a[0], x, y); }
  Rng r = range(p); if (r.hi < 0 || r.lo > 0) return cbool(false);
  Po q = toPo(p); int64_t g = 0; for (auto &m : q.m) { int64_t a = m.second < 0 ? -m.second : m.second; while (a) { int64_t t = g % a; g = a; a = t; } }
  if (g > 1) { if (q.c % g) return cbool(false); }
  if (g < 1) g = 1; if (q.m[0].second < 0) g = -g;
  for (auto &m : q.m) m.second /= g; q.c /= g; T n = fromPo(q);
  return mk(K::EQ0, Ty::I1, 0, 0, {n});
}
T andb(T a, T b) { return ite(a, b, cbool(false)); }
T orb(T a, T b) { return ite(a, cbool(true), b); }
T isnull(T p) {
  if (p->k == K::Null) return cbool(true);
  if (p->k == K::Ptr || p->k == K::Fn) return cbool(false);
  if (p->k == K::Ite) return ite(p->a[0], isnull(p->a[1]), isnull(p->a[2]));
  return mk(K::Op, Ty::I1, O_ISNULL, 0, {p});
}
T ite(T c, T a, T b) {
  if (c->k == K::CInt) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K::Not) return ite(c->a[0], b, a);
  if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
  if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (c->k == K::Ite && c->a[1]->k == K::CInt && c->a[2]->k == K::CInt) { /* impossible, folded */ }
  if (a->ty == Ty::I1 && b->ty == Ty::I1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return notb(c);
    return mk(K::Ite, Ty::I1, 0, 0, {c, a, b});
  }
  if (a->ty == Ty::P && b->ty == Ty::P && a->k == K::Ptr && b->k == K::Ptr && a->a[0] == b->a[0]) return mkptr(a->a[0], ite(c, a->a[1], b->a[1]));
  if (isInt(a->ty) && isInt(b->ty)) {
    Po x = toPo(a), y = toPo(b); Po common; vector<std::pair<T, int64_t>> cm;
    for (auto &m : x.m) for (auto &n : y.m) if (m == n) cm.push_back(m);
    if (!cm.empty()) { Po cp; cp.m = cm; T ct = fromPo(cp); T ra = sub(a, ct), rb = sub(b, ct); return add(ct, ite(c, ra, rb)); }
    return mk(K::Ite, Ty::I64, 0, 0, {c, a, b});
  }
  return mk(K::Ite, a->k == K::Undef ? b->ty : a->ty, 0, 0, {c, a, b});
}
// ---------------------------------------------------------------- floats
static double fv(T t) { double d; memcpy(&d, &t->c, 8); return d; }
T fneg(T a) {
  if (a->k == K::CFP) return cfp(a->ty, -fv(a));
  if (a->k == K::Op && a->op == O_FNEG) return a->a[0];
  return mk(K::Op, a->ty, O_FNEG, 0, {a});
}
T fop(int op, Ty ty, T a, T b) {
  if (op == O_FSUB && a->k == K::CFP && fv(a) == 0.0 && std::signbit(fv(a))) return fneg(b);
  if ((op == O_FADD || op == O_FMUL) && b->id < a->id) std::swap(a, b);
  return mk(K::Op, ty, op, 0, {a, b});
}
T bitcast(T a, Ty ty) {
  if (a->ty == ty) return a; if (isInt(a->ty) && isInt(ty)) return a;
  if (a->k == K::Undef) return undef(ty);
  if (a->k == K::Op && a->op == O_BITCAST) return bitcast(a->a[0], ty);
  if (a->k == K::Load) return mk(K::Load, ty, 0, 0, a->a);
  if (a->k == K::CFP && ty == Ty::I64 && a->ty == Ty::F64) return cint(a->c);
  if (a->k == K::CFP && ty == Ty::I32 && a->ty == Ty::F32) { float f = (float)fv(a); int32_t i; memcpy(&i, &f, 4); return cint(i); }
  if (a->k == K::CInt && ty == Ty::F64) return mk(K::CFP, ty, 0, a->c, {});
  if (a->k == K::CInt && ty == Ty::F32) { int32_t i = (int32_t)a->c; float f; memcpy(&f, &i, 4); return cfp(ty, f); }
  if (a->k == K::CInt && a->c == 0 && ty == Ty::P) return nullp();
  if (a->k == K::Null && isInt(ty)) return cint(0);
  if (a->k == K::Ite) return ite(a->a[0], bitcast(a->a[1], ty), bitcast(a->a[2], ty));
  return mk(K::Op, ty, O_BITCAST, 0, {a});
}
T callT(const string &fn, Ty ty, vector<T> a) { a.insert(a.begin(), mk(K::Fn, Ty::P, nameId(fn), 0, {})); return mk(K::Op, ty, O_CALL, 0, a); }
// ---------------------------------------------------------------- rewriting
struct Rw {
  int mode;  // 0 plain map, 1 abstract (kap->BV, others MSelf), 2 instantiate, 3 shift
  std::unordered_map<T, T> map; uint64_t mask = 0; bool anyNoLeaf = false;
  T val = nullptr, selfv = nullptr; int d0 = 0;
  std::unordered_map<T, T> *cache[8];
  std::unordered_map<T, T> own[8];
  Rw() { for (int i = 0; i < 8; i++) cache[i] = &own[i]; }
  T go(T t, int d);
};
static T shiftT(T t, int by);
static T rebuild(T t, const vector<T> &a);
T Rw::go(T t, int d) {
  if (mode == 0 || mode == 1) {
    if (!anyNoLeaf && !(t->leaf & mask) && !(mode == 1 && t->bvl > d)) return t;
  } else if (t->bvl <= d) return t;
  auto &C = *cache[d > 7 ? 7 : d];
  if (d <= 7) { auto it = C.find(t); if (it != C.end()) return it->second; }
  T r = nullptr;
  if (mode == 0) { auto it = map.find(t); if (it != map.end()) r = d ? shiftT(it->second, d) : it->second; }
  else if (mode == 1) { auto it = map.find(t);
    if (it != map.end()) { r = it->second->k == K::BV ? mk(K::BV, Ty::I64, 0, d, {}) : it->second->k == K::MSelf ? mk(K::MSelf, Ty::M, 0, d, {}) : (d ? shiftT(it->second, d) : it->second); }
    else if ((t->k == K::BV || t->k == K::MSelf) && t->c >= d) r = mk(t->k, t->ty, t->op, t->c + 1, {}); }
  else if (mode == 2) { if (t->k == K::BV && t->c >= d) r = t->c == d ? (d ? shiftT(val, d) : val) : mk(K::BV, t->ty, t->op, t->c - 1, {});
    else if (t->k == K::MSelf && t->c >= d) r = t->c == d ? (selfv ? (d ? shiftT(selfv, d) : selfv) : t) : mk(K::MSelf, t->ty, t->op, t->c - 1, {}); }
  else { if ((t->k == K::BV || t->k == K::MSelf) && t->c >= d) r = mk(t->k, t->ty, t->op, t->c + d0, {}); }
  if (!r) {
    vector<T> a(t->a.size()); bool ch = false;
    for (size_t i = 0; i < t->a.size(); i++) {
      bool body = (t->k == K::Red && i == 0) || (t->k == K::All && i == 0) || (t->k == K::MLoop && i == 2);
      a[i] = go(t->a[i], d + (body ? 1 : 0)); ch |= a[i] != t->a[i];
    }
    r = ch ? rebuild(t, a) : t;
  }
  if (d <= 7) C[t] = r;
  return r;
}
static T shiftT(T t, int by) { if (t->bvl == 0 || by == 0) return t; Rw w; w.mode = 3; w.d0 = by; return w.go(t, 0); }
static T inst(T body, T val, T selfv = nullptr) { if (body->bvl == 0) return body; Rw w; w.mode = 2; w.val = val; w.selfv = selfv; return w.go(body, 0); }
T instBody(T body, T val, T selfv) { return inst(body, val, selfv); }
T abstractBody(T t, T kap, const std::unordered_map<T, T> &selfs) {
  Rw w; w.mode = 1; w.map[kap] = mk(K::BV, Ty::I64, 0, 0, {}); w.mask = kap->leaf;
  for (auto &s : selfs) { w.map[s.first] = s.second; w.mask |= s.first->leaf; }
  return w.go(t, 0);
}
T substM(T t, const std::unordered_map<T, T> &m, std::unordered_map<T, T> *cache) {
  if (m.empty()) return t; Rw w; w.mode = 0; w.map = m; for (auto &x : m) { w.mask |= x.first->leaf; if (!x.first->leaf) w.anyNoLeaf = true; }
  if (cache) w.cache[0] = cache;
  return w.go(t, 0);
}
T subst(T t, T from, T to) { std::unordered_map<T, T> m; m[from] = to; return substM(t, m); }
T mloop(T prev, T count, T body);
static T rebuild(T t, const vector<T> &a) {
  switch (t->k) {
    case K::Poly: { T r = cint(t->c); for (size_t i = 0; i < a.size(); i++) r = add(r, mulc(a[i], t->co[i])); return r; }
    case K::Mono: { T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mul(r, a[i]); return r; }
    case K::Ite: return ite(a[0], a[1], a[2]);
    case K::Not: return notb(a[0]);
    case K::LT0: return lt0(a[0]);
    case K::EQ0: return eq0(a[0]);
    case K::Load: return readMem(a[0], a[1], t->ty);
    case K::Red: return t->op == 7 ? foldT(t->ty, t->c, a[0], a[1], a[2], a[3]) : redRaw(t->op, t->ty, a[0], 0, a[1], a[2]);
    case K::All: { if (isC(a[1], 0)) return cbool(true); if (a[0]->k == K::CInt && a[0]->c) return cbool(true); return mk(K::All, Ty::I1, 0, 0, a); }
    case K::MLoop: return mloop(a[0], a[1], a[2]);
    case K::Ptr: if (a[0]->k == K::Ptr) return mkptr(a[0]->a[0], add(a[0]->a[1], a[1])); return mkptr(a[0], a[1]);
    case K::Op: switch (t->op) {
        case O_DIV: return sdivT(a[0], a[1]);
        case O_REM: return sremT(a[0], a[1]);
        case O_TRUNC: return truncT(a[0], t->c);
        case O_ZEXT: return zextT(a[0], t->c);
        case O_MAX0: return max0(a[0]);
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return fop(t->op, t->ty, a[0], a[1]);
        case O_FNEG: return fneg(a[0]);
        case O_BITCAST: return bitcast(a[0], t->ty);
        case O_ISNULL: return isnull(a[0]);
        case O_EXTRACT: if (a[0]->k == K::Load) return readMem(a[0]->a[0], addc(a[0]->a[1], t->c), t->ty); break;
        default: break;
      }
      break;
    default: break;
  }
  return mk(t->k, t->ty, t->op, t->c, a, t->co);
}
bool contains(T t, T x) {
  if (t == x) return true; if (x->leaf && (t->leaf & x->leaf) != x->leaf) return false;
  std::set<T> seen; std::function<bool(T)> go = [&](T u) { if (u == x) return true; if (x->leaf && (u->leaf & x->leaf) != x->leaf) return false; if (!seen.insert(u).second) return false; for (auto c : u->a) if (go(c)) return true; return false; };
  return go(t);
}
bool containsIf(T t, const std::function<bool(T)> &f) {
  std::set<T> seen; std::function<bool(T)> go = [&](T u) { if (!seen.insert(u).second) return false; if (f(u)) return true; for (auto c : u->a) if (go(c)) return true; return false; };
  return go(t);
}
void collect(T t, const std::function<bool(T)> &pred, vector<T> &out) {
  std::set<T> seen; std::function<void(T)> go = [&](T u) { if (!seen.insert(u).second) return; if (pred(u)) out.push_back(u); for (auto c : u->a) go(c); }; go(t);
}
static std::unordered_map<T, bool> ucache;
bool hasUndef(T t) {  // value depends on never-written storage
  auto it = ucache.find(t); if (it != ucache.end()) return it->second;
  bool r = false;
  if (t->k == K::Undef) r = true;
  else if (t->k == K::Load) { T m = t->a[0]; r = (m->k == K::MBase && oi(m->a[0]).uninit) || hasUndef(t->a[1]); }
  else if (t->k == K::Ptr) r = hasUndef(t->a[1]);
  else if (t->ty == Ty::M || t->k == K::Obj) r = false;
  else for (auto c : t->a) if (c->ty != Ty::M && hasUndef(c)) { r = true; break; }
  ucache[t] = r; return r;
}
// ---------------------------------------------------------------- reductions: op 1 '+', 2 '*', 3 fadd(f32) 4 fadd(f64) 5 fmul..
static T redStep(int op, Ty ty, T acc, T v) {
  switch (op) { case 1: return add(acc, v); case 2: return mul(acc, v); case 3: return fop(O_FADD, ty, acc, v); case 4: return fop(O_FMUL, ty, acc, v); }
  return nullptr;
}
T redRaw(int op, Ty ty, T body, int, T count, T init) {
  int64_t n;
  if (op == 1 && !isC(init, 0)) return add(init, redRaw(op, ty, body, 0, count, cint(0)));
  if (op == 2 && !isC(init, 1)) return mul(init, redRaw(op, ty, body, 0, count, cint(1)));
  if (cval(count, n) && n <= 8) { T r = init; for (int64_t i = 0; i < n; i++) r = redStep(op, ty, r, inst(body, cint(i))); return r; }
  bool dep = containsIf(body, [](T u) { return u->k == K::BV || u->k == K::MSelf; });
  if (op == 1 && !dep) return mul(body, count);
  if (op == 1) { // split out constant monomials is not needed; canonical direction below
  }
  if (op == 1 || op == 2) {
    // peel trailing constant part: count = x + c, c in 1..4, x provably >= 0
    if (count->k == K::Poly && count->c > 0 && count->c <= 4) { T x = addc(count, -count->c); if (range(x).lo >= 0) { T r = redRaw(op, ty, body, 0, x, init); for (int64_t i = 0; i < count->c; i++) r = redStep(op, ty, r, inst(body, addc(x, i))); return r; } }
    if (body->bvl == 1) { // direction: compare with reversed body
      T rev; { T x = sym("$rev", Ty::I64); T b = inst(body, x); b = subst(b, x, sub(addc(count, -1), x)); if (!contains(b, x)) rev = body; else { std::unordered_map<T, T> e; rev = abstractBody(b, x, e); } }
      if (rev->h < body->h && rev->bvl == 1) { 
        // keep the simpler (fewer nodes mentioning count) form: prefer body not mentioning count
        bool bc = count->k != K::CInt && contains(body, count), rc = count->k != K::CInt && contains(rev, count);
        if (!(rc && !bc)) body = rev; }
      else { bool bc = count->k != K::CInt && contains(body, count), rc = count->k != K::CInt && contains(rev, count); if (bc && !rc && rev->bvl == 1) body = rev; }
    }
  }
  return mk(K::Red, ty, op, 0, {body, count, init});
}
T foldT(Ty ty, int64_t sel, T body, T count, T init, T accs) {
  int64_t n;
  if (cval(count, n) && n <= 2) { vector<T> v = init->a; for (int64_t i = 0; i < n; i++) { std::unordered_map<T, T> m; for (size_t j = 0; j < v.size(); j++) m[accs->a[j]] = v[j]; vector<T> w; for (T b : body->a) w.push_back(substM(inst(b, cint(i)), m)); v = w; } return v[sel]; }
  return mk(K::Red, ty, 7, sel, {body, count, init, accs});
}
T red(int op, T init, T body, T kap, T count) {
  std::unordered_map<T, T> e; T b = abstractBody(body, kap, e);
  Ty ty = op <= 2 ? Ty::I64 : init->ty;
  return redRaw(op, ty, b, 0, count, init);
}
T allLit(T lit, T kap, T count) {
  if (lit->k == K::CInt && lit->c) return lit; if (isC(count, 0)) return cbool(true);
  std::unordered_map<T, T> e; T b = abstractBody(lit, kap, e);
  return mk(K::All, Ty::I1, 0, 0, {b, count});
}
// ---------------------------------------------------------------- memory
T mbase(T obj) { return mk(K::MBase, Ty::M, 0, 0, {obj}); }
T mhavoc(T prev, T tag) { return mk(K::MHavoc, Ty::M, 0, 0, {prev, tag}); }
static int64_t gcdll(int64_t a, int64_t b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
// -1 disjoint, 0 unknown, 1 equal start
static int cmpOff(T off, int b, T off2, int b2, const Facts *f, int64_t *delta) {
  T d = sub(off, off2); int64_t v;
  if (cval(d, v)) { *delta = v; if (v == 0) return 1; if (v >= b2 || v <= -b) return -1; return 2; }
  Po p = toPo(d); int64_t g = 0; for (auto &m : p.m) g = gcdll(g, m.second);
  if (g > 1) { int64_t r = ((p.c % g) + g) % g; if (r >= b2 && r <= g - b) return -1; }
  Rng rr = range(d); if (rr.lo >= b2 || rr.hi <= -b) return -1;
  if (f) {
    if (proveLE0(addc(mulc(d, -1), b2), *f)) return -1;
    if (proveLE0(addc(d, b), *f)) return -1;
    if (proveEQ0(d, *f)) { *delta = 0; return 1; }
    if (evalB(eq0(d), *f) == NO && g == b2 && b == b2 && p.c % g == 0) return -1;
  }
  return 0;
}
T mcell(T prev, T off, T val, Ty ty) {
  // drop cells of the same location directly underneath (through provably distinct constant-delta cells)
  vector<T> keep; T p = prev; bool found = false; int n = 0;
  while (p->k == K::MCell && n++ < 40) {
    int64_t d; int c = cmpOff(off, tyBytes(ty), p->a[1], tyBytes((Ty)p->op), nullptr, &d);
    if (c == 1 && tyBytes(ty) == tyBytes((Ty)p->op)) { found = true; p = p->a[0]; break; }
    if (c != -1) break;
    keep.push_back(p); p = p->a[0];
  }
  if (found) { for (size_t i = keep.size(); i-- > 0;) p = mk(K::MCell, Ty::M, keep[i]->op, 0, {p, keep[i]->a[1], keep[i]->a[2]}); prev = p; }
  return mk(K::MCell, Ty::M, (int)ty, 0, {prev, off, val});
}
T mcopy(T prev, T off, T len, T smem, T soff) { return mk(K::MCopy, Ty::M, 0, 0, {prev, off, len, smem, soff}); }
T mloop(T prev, T count, T body) {
  if (isC(count, 0) || body->k == K::MSelf) return prev;
  int64_t n; if (cval(count, n) && n > 0 && n <= 8) { T m = prev; for (int64_t i = 0; i < n; i++) m = inst(body, cint(i), m); return m; }
  return mk(K::MLoop, Ty::M, 0, 0, {prev, count, body});
}
static T convTo(T val, Ty have, Ty want) {
  if (have == want) return val;
  return bitcast(val, want);
}
static T extractT(T val, Ty have, int64_t d, Ty ty) {
  if (val->k == K::Undef) return undef(ty);
  if (val->k == K::CInt) { int64_t v = val->c; v >>= (8 * d); int b = tyBytes(ty) * 8; T r = cint(wrapC(v, b)); return bitcast(r, ty); }
  if (val->k == K::Load) return readMem(val->a[0], addc(val->a[1], d), ty);
  if (val->k == K::Op && val->op == O_BITCAST && val->a[0]->k == K::Load) return readMem(val->a[0]->a[0], addc(val->a[0]->a[1], d), ty);
  return mk(K::Op, ty, O_EXTRACT, d, {val});
}
static bool prove0(T p, const Facts *f) { Rng r = range(p); if (r.hi <= 0) return true; return f && proveLE0(p, *f); }
// split d = A*q + r over the monomials of d
static void divmodBy(T d, T A, T &q, T &r) {
  Po p = toPo(d); q = cint(0); r = cint(0); int64_t ca;
  if (cval(A, ca)) { int64_t fq = p.c / ca, fr = p.c % ca; if (fr < 0) { fr += ca; fq -= 1; } q = cint(fq); r = cint(fr); } else r = cint(p.c);
  Po pa = toPo(A);
  if (pa.m.size() + (pa.c != 0) >= 2) {  // polynomial division by the monomial of highest degree
    T lead = nullptr; int64_t lc = 0; size_t deg = 0; for (auto &m : pa.m) { size_t g = m.first->k == K::Mono ? m.first->a.size() : 1; if (g >= deg) { deg = g; lead = m.first; lc = m.second; } }
    T cur = d; q = cint(0); vector<T> lf; if (lead->k == K::Mono) lf = lead->a; else lf = {lead};
    for (int guard = 0; guard < 12; guard++) { Po c = toPo(cur); T take = nullptr; size_t best = 0;
      for (auto &m : c.m) { if (m.second % lc) continue; vector<T> mf; if (m.first->k == K::Mono) mf = m.first->a; else mf = {m.first}; size_t g = mf.size(); bool ok = true;
        for (T x : lf) { auto it = std::find(mf.begin(), mf.end(), x); if (it == mf.end()) { ok = false; break; } mf.erase(it); } if (!ok || (take && g <= best)) continue;
        T t = cint(m.second / lc); for (T x : mf) t = mul(t, x); take = t; best = g; }
      if (!take) { r = cur; return; } q = add(q, take); cur = sub(cur, mul(take, A)); }
    q = cint(0); r = d; return; }
  for (auto &m : p.m) { T t = mulc(m.first, m.second); T e = divExact(t, A); if (e) q = add(q, e); else r = add(r, t); }
}
// byte interval one entry of a loop body can touch
static bool bodyChain(T body, vector<T> &ents) { T e = body; while (e->k != K::MSelf) { if (e->k != K::MCell && e->k != K::MCopy && e->k != K::MLoop) return false; ents.push_back(e); e = e->a[0]; if (ents.size() > 64) return false; } return true; }
static T instNoSelf(T body, T x) { return inst(body, x, mbase(objT(0))); }
static bool footprint(T ei, int depth, T &lo, T &hi, const Facts *f) {
  if (ei->k == K::MCell) { lo = ei->a[1]; hi = addc(lo, tyBytes((Ty)ei->op)); return true; }
  if (ei->k == K::MCopy) { lo = ei->a[1]; hi = add(lo, ei->a[2]); return true; }
  if (ei->k != K::MLoop || depth > 6) return false;
  T y = sym("nn:$y" + std::to_string(depth), Ty::I64), n = ei->a[1]; if (contains(ei->a[2], y)) return false;
  vector<T> ents; if (!bodyChain(ei->a[2], ents) || ents.empty()) return false;
  bool first = true;
  for (T e : ents) { T in = e->k == K::MCell ? mk(K::MCell, Ty::M, e->op, 0, {mbase(objT(0)), inst(e->a[1], y), cint(0)}) : e->k == K::MCopy ? mk(K::MCopy, Ty::M, 0, 0, {mbase(objT(0)), inst(e->a[1], y), inst(e->a[2], y), mbase(objT(0)), cint(0)}) : instNoSelf(e, y);
    T l, h; if (!footprint(in, depth + 1, l, h, f)) return false; T cl, rl, ch, rh; if (!linearIn(l, y, cl, rl) || !linearIn(h, y, ch, rh)) return false;
    auto nn = [&](T t) { return range(t).lo >= 0 || (f && proveLE0(mulc(t, -1), *f)); };
    T l2, h2; if (nn(cl)) l2 = rl; else if (nn(mulc(cl, -1))) l2 = add(rl, mul(cl, addc(n, -1))); else return false;
    if (nn(ch)) h2 = add(rh, mul(ch, addc(n, -1))); else if (nn(mulc(ch, -1))) h2 = rh; else return false;
    if (first) { lo = l2; hi = h2; first = false; } else { if (prove0(sub(l2, lo), f)) lo = l2; else if (!prove0(sub(lo, l2), f)) return false; if (prove0(sub(hi, h2), f)) hi = h2; else if (!prove0(sub(h2, hi), f)) return false; } }
  return true;
}
// body chain lookup. returns 1 found(val), 0 definitely not written, -1 unknown
static int lookupLoop(T body, T prev, T count, T off, Ty ty, const Facts *f, int depth, T &val) {
  if (depth > 12) return -1;
  int b1 = tyBytes(ty); vector<T> ents; if (!bodyChain(body, ents)) return -1;
  T x = sym("nn:$x" + std::to_string(depth), Ty::I64); T cand = nullptr;
  for (T e : ents) {
    T ei = e->k == K::MCell ? mk(K::MCell, Ty::M, e->op, 0, {mbase(objT(0)), inst(e->a[1], x), cint(0)}) : e->k == K::MCopy ? mk(K::MCopy, Ty::M, 0, 0, {mbase(objT(0)), inst(e->a[1], x), inst(e->a[2], x), mbase(objT(0)), cint(0)}) : instNoSelf(e, x);
    if (ei->k == K::MCell) { int64_t dl; if (cmpOff(off, b1, ei->a[1], tyBytes((Ty)ei->op), nullptr, &dl) == -1) continue; }
    T lo, hi, A, R, A2, R2; if (!footprint(ei, 0, lo, hi, f)) return -1;
    if (!linearIn(lo, x, A, R) || !linearIn(hi, x, A2, R2)) return -1;
    auto nn = [&](T t) { return range(t).lo >= 0 || (f && proveLE0(mulc(t, -1), *f)); };
    bool pos = nn(A) && nn(A2), neg = !pos && nn(mulc(A, -1)) && nn(mulc(A2, -1));
    if (!pos && !neg) return -1;
    T last = addc(count, -1); T gl = pos ? R : add(R, mul(A, last)), gh = pos ? add(R2, mul(A2, last)) : R2;
    if (prove0(sub(addc(off, b1), gl), f) || prove0(sub(gh, off), f)) continue;   // outside everything written
    if (A != A2 || isC(A, 0)) return -1;
    T AA = pos ? A : mulc(A, -1); T width = sub(R2, R);
    if (!prove0(sub(width, AA), f)) return -1;            // iterations touch disjoint intervals
    T d = sub(off, R), q, r; divmodBy(d, AA, q, r);
    bool rl = nn(r); if (!rl && f && proveLE0(addc(r, 1), *f)) { r = add(r, AA); q = addc(q, -1); rl = nn(r); }
    if (!rl || !prove0(sub(addc(r, b1), AA), f)) return -1;
    T X = pos ? q : mulc(q, -1);
    if (contains(X, x)) return -1;
    if (prove0(addc(X, 1), f) || prove0(sub(count, X), f)) continue;   // not an executed iteration
    if (!(nn(X) && prove0(addc(sub(X, count), 1), f))) return -1;
    if (cand && cand != X) return -1;
    cand = X;
  }
  if (!cand) return 0;
  T v = readMem(inst(body, cand, mloop(prev, cand, body)), off, ty, f, depth + 1);
  val = v; return 1;
}
T readMem(T mem, T off, Ty ty, const Facts *f, int depth) {
  int b = tyBytes(ty); int n = 0;
  while (true) {
    if (++n > 400 || depth > 24) return mk(K::Load, ty, 0, 0, {mem, off});
    switch (mem->k) {
      case K::MCell: {
        int b2 = tyBytes((Ty)mem->op); int64_t d = 0; int c = cmpOff(off, b, mem->a[1], b2, f, &d);
        if (c == -1) { mem = mem->a[0]; continue; }
        if (c == 1 && b == b2) return convTo(mem->a[2], (Ty)mem->op, ty);
        if ((c == 1 || c == 2) && d >= 0 && d + b <= b2) return extractT(mem->a[2], (Ty)mem->op, d, ty);
        if (ty == Ty::I64 && (c == 1 || c == 2) && b2 == 4 && (d == 0 || d == -4)) {  // two halves stored apart
          T lo = readMem(mem, off, Ty::I32, f, depth + 1), hi = readMem(mem, addc(off, 4), Ty::I32, f, depth + 1); if (lo->k != K::Load || hi->k != K::Load) return add(zextT(lo, 32), mulc(hi, (int64_t)1 << 32)); }
        return mk(K::Load, ty, 0, 0, {mem, off});
      }
      case K::MCopy: {
        T d = sub(off, mem->a[1]);
        if (prove0(mulc(d, -1), f) && prove0(sub(addc(d, b), mem->a[2]), f)) { off = add(d, mem->a[4]); mem = mem->a[3]; continue; }
        if (prove0(addc(d, b), f) || prove0(sub(mem->a[2], d), f)) { mem = mem->a[0]; continue; }
        return mk(K::Load, ty, 0, 0, {mem, off});
      }
      case K::MLoop: {
        T v = nullptr; int r = lookupLoop(mem->a[2], mem->a[0], mem->a[1], off, ty, f, depth + 1, v);
        if (r == 1) return v;
        if (r == 0) { mem = mem->a[0]; continue; }
        return mk(K::Load, ty, 0, 0, {mem, off});
      }
      case K::MHavoc: { auto it = loopMem.find(mem); if (it != loopMem.end()) { T r = readMem(it->second, off, ty, f, depth + 1); if (r->k == K::Load && r->ty == ty && r->a[0]->k != K::MBase && r->a[0]->k != K::MHavoc) return mk(K::Load, ty, 0, 0, {mem, off}); return r; } return mk(K::Load, ty, 0, 0, {mem, off}); }
      case K::MBase: {
        T o = mem->a[0];
        if (oi(o).zero) return isFP(ty) ? cfp(ty, 0) : ty == Ty::P ? nullp() : cint(0);
        if (ty == Ty::P && paramPtrHook) { int64_t v; if (cval(off, v)) { T p = paramPtrHook(o, v); if (p) return p; } }
        return mk(K::Load, ty, 0, 0, {mem, off});
      }
      case K::Ite: { T x = readMem(mem->a[1], off, ty, f, depth + 1), y = readMem(mem->a[2], off, ty, f, depth + 1); return ite(mem->a[0], x, y); }
      default: return mk(K::Load, ty, 0, 0, {mem, off});
    }
  }
}
// ---------------------------------------------------------------- facts
bool Facts::has(T x) const { return std::binary_search(l.begin(), l.end(), x, LtId()); }
void Facts::add(T x) {
  if (x->k == K::CInt) return;
  if (x->k == K::Ite && isC(x->a[2], 0)) { add(x->a[0]); add(x->a[1]); return; }
  if (x->k == K::Ite && isC(x->a[1], 0)) { add(notb(x->a[0])); add(x->a[2]); return; }
  auto it = std::lower_bound(l.begin(), l.end(), x, LtId()); if (it != l.end() && *it == x) return; l.insert(it, x);
}
static bool factLE(T lit, vector<T> &out) {  // polynomials q with q <= 0
  if (lit->k == K::LT0) { out.push_back(addc(lit->a[0], 1)); return true; }
  if (lit->k == K::Not && lit->a[0]->k == K::LT0) { out.push_back(mulc(lit->a[0]->a[0], -1)); return true; }
  if (lit->k == K::EQ0) { out.push_back(lit->a[0]); out.push_back(mulc(lit->a[0], -1)); return true; }
  return false;
}
static void lemmas(T atom, vector<T> &out) {  // valid polynomials q<=0 about a structured atom
  if (atom->k == K::Op && atom->op == O_DIV) { T a = atom->a[0], b = atom->a[1]; if (range(a).lo >= 0 && range(b).lo >= 1) { out.push_back(sub(atom, a)); int64_t c; if (cval(b, c) && c > 0) { out.push_back(sub(mulc(atom, c), a)); out.push_back(addc(sub(a, mulc(atom, c)), 1 - c)); } else { out.push_back(sub(mul(atom, b), a)); out.push_back(addc(sub(sub(a, mul(atom, b)), b), 1)); } } }
  if (atom->k == K::Op && atom->op == O_REM) { T a = atom->a[0], b = atom->a[1]; if (range(b).lo >= 1) out.push_back(addc(sub(atom, b), 1)); if (range(a).lo >= 0) out.push_back(sub(atom, a)); }
  if (atom->k == K::Op && atom->op == O_MAX0) { out.push_back(sub(atom->a[0], atom)); out.push_back(mulc(atom, -1)); }
  if (atom->k == K::Ite) { Rng a = range(atom->a[1]), b = range(atom->a[2]); (void)a; (void)b; }
}
static bool provePos(T p, const Facts &f);
struct LEq { T t; Po P; vector<vector<T>> nf; };
static std::unordered_map<T, std::unordered_map<T, T>> prodMemo;
static T mulMemo(T a, T b) { T &r = prodMemo[a][b]; if (!r) r = mul(a, b); return r; }
static bool proveLE(T p, const vector<LEq> &q, int depth, std::unordered_map<T, int> &failed) {
  Rng r = range(p); if (r.hi <= 0) return true; if (depth == 0) return false;
  { auto it = failed.find(p); if (it != failed.end() && it->second >= depth) return false; }
  Po P = toPo(p);
  if (P.m.empty()) return P.c <= 0;
  // the "bad" monomials are those with unbounded positive contribution, try each as target
  // then the others, whose contribution a fact may bound below what their range gives
  int tries = 0; vector<T> left;
  for (int pass = 0; pass < 2; pass++) for (auto &m : P.m) {
    Rng mr = rmul(range(m.first), {m.second, m.second}); 
    if ((mr.hi <= 0) != (pass == 1)) continue;
    if (++tries > 3 + pass) break;
    vector<T> mf; if (m.first->k == K::Mono) mf = m.first->a; else mf = {m.first};
    for (auto &fe : q) {
      const Po &Q = fe.P;
      for (size_t ni = 0; ni < Q.m.size(); ni++) {
        auto &n = Q.m[ni]; if ((n.second > 0) != (m.second > 0) || m.second % n.second) continue;
        auto &nf = fe.nf[ni]; if (nf.size() > mf.size()) continue;
        left = mf; bool ok = true;
        for (auto x : nf) { auto it = std::find(left.begin(), left.end(), x); if (it == left.end()) { ok = false; break; } left.erase(it); }
        if (!ok) continue;
        T rest;
        if (left.empty()) { Po R = addPo(P, Q, -(m.second / n.second)); if (R.bad) continue; rest = fromPo(R); }
        else {
          bool nn = true; for (auto x : left) if (range(x).lo < 0) { nn = false; break; }
          if (!nn) continue;
          T mult = cint(m.second / n.second); for (auto x : left) mult = mulMemo(mult, x);
          rest = sub(p, mulMemo(mult, fe.t)); }
        if (rest == p) continue;
        if (proveLE(rest, q, depth - 1, failed)) return true;
      }
    }
  }
  failed[p] = depth; return false;
}
static void gather(T p, const Facts &f, vector<T> &q) {
  for (T l : f.l) factLE(l, q);
  vector<T> atoms; Po P = toPo(p);
  std::set<T> seen;
  std::function<void(T, int)> at = [&](T t, int d) { if (d > 3 || !seen.insert(t).second) return; if (t->k == K::Mono || t->k == K::Poly) { for (auto x : t->a) at(x, d); return; } lemmas(t, q); if (t->k == K::Op && (t->op == O_DIV || t->op == O_REM || t->op == O_MAX0)) for (auto x : t->a) at(x, d + 1); };
  at(p, 0); size_t n = q.size(); for (size_t i = 0; i < n && i < 60; i++) { Po Q = toPo(q[i]); for (auto &m : Q.m) at(m.first, 1); }
}
static T iteAtom(T p) { Po P = toPo(p); for (auto &m : P.m) { if (m.first->k == K::Ite) return m.first; if (m.first->k == K::Mono) for (auto x : m.first->a) if (x->k == K::Ite) return x; } return nullptr; }
struct PKey { T p; uint64_t fh; bool operator==(const PKey &o) const { return p == o.p && fh == o.fh; } };
struct PKH { size_t operator()(const PKey &k) const { return mix(k.p->h, k.fh); } };
static std::unordered_map<PKey, bool, PKH> pcache;
static uint64_t factsHash(const Facts &f) { uint64_t h = f.l.size(); for (auto x : f.l) h += mix(0x9e37, x->h) * 0x9e3779b97f4a7c15ull; return h; }
bool proveLE0(T p, const Facts &f, int depth) {
  Rng r = range(p); if (r.hi <= 0) return true; if (r.lo > 0) return false;
  PKey key{p, factsHash(f) * 8 + depth}; auto it = pcache.find(key); if (it != pcache.end()) return it->second;
  pcache[key] = false;
  bool ok = false;
  vector<T> q; gather(p, f, q); vector<LEq> lq; lq.reserve(q.size()); { std::set<T> dup; for (T t : q) if (dup.insert(t).second) { LEq e{t, toPo(t), {}}; for (auto &m : e.P.m) e.nf.push_back(m.first->k == K::Mono ? m.first->a : vector<T>{m.first}); lq.push_back(std::move(e)); } }
  std::unordered_map<T, int> failed; ok = proveLE(p, lq, depth, failed);
  if (!ok && depth >= 2) if (T i = iteAtom(p)) {
    Tri t = evalB(i->a[0], f);
    ok = true;
    if (t != NO) { Facts g = f; if (assume(i->a[0], g)) ok &= proveLE0(subst(p, i, i->a[1]), g, depth - 1); }
    if (ok && t != YES) { Facts g = f; if (assume(notb(i->a[0]), g)) ok &= proveLE0(subst(p, i, i->a[2]), g, depth - 1); }
  }
  pcache[key] = ok; return ok;
}
bool proveLT0(T p, const Facts &f) { return proveLE0(addc(p, 1), f); }
bool proveEQ0(T p, const Facts &f) { if (isC(p, 0)) return true; if (range(p).lo > 0 || range(p).hi < 0) return false; if (f.l.empty()) return false; return proveLE0(p, f, 3) && proveLE0(mulc(p, -1), f, 3); }
static bool instAll(T q, const Facts &f, Facts &g) {
  bool any = false; vector<T> loads; bool collected = false;
  for (T l : f.l) if (l->k == K::All) {
    if (!collected) { collect(q, [](T u) { return u->k == K::Load && isInt(u->ty); }, loads); collected = true; }
    if (loads.empty()) return false;
    T x = sym("nn:$i", Ty::I64); T lit = inst(l->a[0], x); vector<T> ll; collect(lit, [](T u) { return u->k == K::Load; }, ll);
    std::set<T> sols;
    for (T a : ll) for (T b : loads) if (a->a[0] == b->a[0] && a->ty == b->ty) { T co, rest; if (!linearIn(sub(a->a[1], b->a[1]), x, co, rest) || isC(co, 0)) continue; T s = divExact(mulc(rest, -1), co); if (!s || contains(s, x)) continue; sols.insert(s); }
    for (T s : sols) { if (!(range(s).lo >= 0 || proveLE0(mulc(s, -1), f, 2))) continue; if (!proveLE0(addc(sub(s, l->a[1]), 1), f, 3)) continue; g.add(inst(l->a[0], s)); any = true; }
  }
  return any;
}
static Tri evalB0(T b, const Facts &f, int depth) {
  if (b->k == K::CInt) return b->c ? YES : NO;
  if (f.has(b)) return YES; if (f.has(notb(b))) return NO;
  switch (b->k) {
    case K::Not: { Tri t = evalB0(b->a[0], f, depth); return t == YES ? NO : t == NO ? YES : MAYBE; }
    case K::LT0: { T p = b->a[0]; if (proveLT0(p, f)) return YES; if (proveLE0(mulc(p, -1), f)) return NO; return MAYBE; }
    case K::EQ0: { T p = b->a[0]; if (proveLT0(p, f) || proveLT0(mulc(p, -1), f)) return NO; if (proveEQ0(p, f)) return YES; return MAYBE; }
    case K::Ite: { Tri c = evalB0(b->a[0], f, depth); if (c == YES) return evalB0(b->a[1], f, depth); if (c == NO) return evalB0(b->a[2], f, depth);
      Tri x = evalB0(b->a[1], f, depth), y = evalB0(b->a[2], f, depth); return x == y ? x : MAYBE; }
    case K::FCmp: { T p = b->a[0], q = b->a[1];
      auto is = [&](int pr, T x, T y) { return f.has(mk(K::FCmp, Ty::I1, pr, 0, {x, y})); };
      if (b->op == FP_OLT) { if (is(FP_OLT, q, p) || is(FP_OLE, q, p) || is(FP_OEQ, p, q) || is(FP_OEQ, q, p)) return NO; }
      if (b->op == FP_OLE) { if (is(FP_OLT, p, q) || is(FP_OEQ, p, q) || is(FP_OEQ, q, p)) return YES; if (is(FP_OLT, q, p)) return NO; }
      if (b->op == FP_OEQ) { if (is(FP_OLT, p, q) || is(FP_OLT, q, p)) return NO; }
      return MAYBE; }
    default: return MAYBE;
  }
}
Tri evalB(T b, const Facts &f) {
  Tri t = evalB0(b, f, 0); if (t != MAYBE) return t;
  Facts g = f; if (instAll(b, f, g)) { for (T l : g.l) if (l->k == K::CInt && !l->c) return MAYBE; t = evalB0(b, g, 0); }
  return t;
}
bool assume(T b, Facts &f) {
  Tri t = evalB(b, f); if (t == NO) return false; if (t == YES && b->k == K::CInt) return true;
  // simplify disjunctions under known facts
  if (b->k == K::Ite) {
    Tri c = evalB(b->a[0], f); if (c == YES) return assume(b->a[1], f); if (c == NO) return assume(b->a[2], f);
    Tri x = evalB(b->a[1], f), y = evalB(b->a[2], f);
    if (x == NO) { return assume(notb(b->a[0]), f) && assume(b->a[2], f); }
    if (y == NO) { return assume(b->a[0], f) && assume(b->a[1], f); }
  }
  f.add(b);
  // re-examine stored disjunctions
  for (size_t i = 0; i < f.l.size(); i++) { T l = f.l[i]; if (l->k == K::Ite) { Facts g = f; g.l.erase(g.l.begin() + i); Tri c = evalB0(l->a[0], g, 0); T nx = nullptr; if (c == YES) nx = l->a[1]; else if (c == NO) nx = l->a[2]; else { Tri x = evalB0(l->a[1], g, 0), y = evalB0(l->a[2], g, 0); if (x == NO) nx = andb(notb(l->a[0]), l->a[2]); else if (y == NO) nx = andb(l->a[0], l->a[1]); }
      if (nx) { f = g; return assume(nx, f); } } }
  return true;
}
// ---------------------------------------------------------------- printing
static const char *opn(int o) { static const char *n[] = {"", "div", "rem", "trunc", "zext", "max0", "i2f", "f2si", "f2ui", "fext", "ftrunc", "bits", "fadd", "fsub", "fmul", "fdiv", "fneg", "call", "impure", "phi", "wit", "extract", "and", "or", "xor", "shl", "lshr", "ashr", "isnull", "unk", "join", "pdiff", "famidx", "tuple"}; return n[o]; }
string str(T t, int d) {
  if (!t) return "<null>"; if (d <= 0) return "..";
  string s; auto args = [&](size_t from = 0) { string r; for (size_t i = from; i < t->a.size(); i++) { if (i > from) r += ", "; r += str(t->a[i], d - 1); } return r; };
  switch (t->k) {
    case K::CInt: return t->ty == Ty::I1 ? (t->c ? "true" : "false") : std::to_string(t->c);
    case K::CFP: { char b[40]; snprintf(b, 40, "%g", fv(t)); return b; }
    case K::Undef: return "undef"; case K::Null: return "NULL"; case K::Fn: return "&" + nameOf(t->op);
    case K::Sym: return nameOf(t->op) + (t->a.empty() ? "" : "(" + args() + ")");
    case K::Kap: return "k" + std::to_string(t->c); case K::BV: return "$" + std::to_string(t->c);
    case K::Obj: return objs[t->c].name + (t->a.empty() ? "" : "[" + args() + "]");
    case K::Ptr: return "&" + str(t->a[0], d - 1) + (isC(t->a[1], 0) ? "" : "+" + str(t->a[1], d - 1));
    case K::Poly: { for (size_t i = 0; i < t->a.size(); i++) { if (i) s += t->co[i] < 0 ? " - " : " + "; else if (t->co[i] < 0) s += "-"; int64_t c = t->co[i] < 0 ? -t->co[i] : t->co[i]; if (c != 1) s += std::to_string(c) + "*"; s += str(t->a[i], d - 1); } if (t->c) s += t->c < 0 ? " - " + std::to_string(-t->c) : " + " + std::to_string(t->c); return "(" + s + ")"; }
    case K::Mono: { for (size_t i = 0; i < t->a.size(); i++) s += (i ? "*" : "") + str(t->a[i], d - 1); return s; }
    case K::Op: if (t->op == O_CALL) return nameOf(t->a[0]->op) + "(" + args(1) + ")"; return string(opn(t->op)) + (t->c ? std::to_string(t->c) : "") + "(" + args() + ")";
    case K::Ite: return "(" + str(t->a[0], d - 1) + " ? " + str(t->a[1], d - 1) + " : " + str(t->a[2], d - 1) + ")";
    case K::Load: return str(t->a[0], d - 1) + "[" + str(t->a[1], d - 1) + "]";
    case K::Red: if (t->op == 7) return "FOLD" + std::to_string(t->c) + "{" + str(t->a[0], d - 1) + " | <" + str(t->a[1], d - 1) + ", init " + str(t->a[2], d - 1) + "}"; return string(t->op == 1 ? "SUM" : t->op == 2 ? "PROD" : "FRED") + "{" + str(t->a[0], d - 1) + " | <" + str(t->a[1], d - 1) + ", init " + str(t->a[2], d - 1) + "}";
    case K::LT0: return str(t->a[0], d - 1) + " < 0"; case K::EQ0: return str(t->a[0], d - 1) + " == 0"; case K::Not: return "!(" + str(t->a[0], d - 1) + ")";
    case K::FCmp: { static const char *p[] = {"", "<", "<=", "==", "!=", "ord"}; return "(" + str(t->a[0], d - 1) + " f" + p[t->op] + " " + str(t->a[1], d - 1) + ")"; }
    case K::All: return "ALL{" + str(t->a[0], d - 1) + " | <" + str(t->a[1], d - 1) + "}";
    case K::MBase: return "M:" + str(t->a[0], d); case K::MSelf: return "self" + std::to_string(t->c);
    case K::MCell: return str(t->a[0], d - 1) + "{" + str(t->a[1], d - 1) + ":=" + str(t->a[2], d - 1) + "}";
    case K::MCopy: return str(t->a[0], d - 1) + "{copy " + str(t->a[1], d - 1) + " len " + str(t->a[2], d - 1) + " from " + str(t->a[3], d - 1) + "+" + str(t->a[4], d - 1) + "}";
    case K::MLoop: return str(t->a[0], d - 1) + "{loop<" + str(t->a[1], d - 1) + "> " + str(t->a[2], d - 1) + "}";
    case K::MHavoc: return str(t->a[0], d - 1) + "{havoc}";
    default: return "?";
  }
}

T resolveT(T t, const Facts &f) {  // re-read unresolved loads under the given facts
  std::unordered_map<T, T> cache;
  std::function<T(T)> go = [&](T u) -> T {
    if (u->ty == Ty::M || u->k == K::Obj || u->a.empty()) return u; auto it = cache.find(u); if (it != cache.end()) return it->second;
    T r = u; if (u->k == K::Red || u->k == K::All) { // bodies: resolve with a fresh index
      T x = sym("nn:$b" + std::to_string(u->bvl), Ty::I64); if (!contains(u, x)) { Facts g = f; T n = go(u->a[1]); g.add(lt0(sub(x, n))); T b = resolveT(inst(u->a[0], x), g); std::unordered_map<T, T> e; T nb = abstractBody(b, x, e); vector<T> a{nb, n}; if (u->k == K::Red) a.push_back(go(u->a[2])); if (u->k == K::Red && u->op == 7) a.push_back(u->a[3]); r = rebuild(u, a); } }
    else { vector<T> a; bool ch = false; for (T c : u->a) { a.push_back(go(c)); ch |= a.back() != c; } if (u->k == K::Load) { r = readMem(u->a[0], a[1], u->ty, &f); } else if (u->k == K::Ite) { Tri c = evalB(a[0], f); r = c == YES ? a[1] : c == NO ? a[2] : ch ? rebuild(u, a) : u; } else if (u->k == K::Op && (u->op == O_DIV || u->op == O_REM)) { T q, rr; divmodBy(a[0], a[1], q, rr); auto nn = [&](T t) { return range(t).lo >= 0 || proveLE0(mulc(t, -1), f); };
        if ((range(a[1]).lo >= 1 || proveLT0(mulc(a[1], -1), f)) && nn(rr) && (nn(q) || nn(a[0]))) { bool sm = proveLT0(sub(rr, a[1]), f); if (u->op == O_DIV) r = sm ? q : isC(q, 0) ? (ch ? rebuild(u, a) : u) : add(q, sdivT(rr, a[1])); else r = sm ? rr : isC(q, 0) ? (ch ? rebuild(u, a) : u) : sremT(rr, a[1]); } else if (ch) r = rebuild(u, a); }
      else if (u->k == K::Op && u->op == O_MAX0 && proveLE0(mulc(a[0], -1), f)) r = a[0]; else if (ch) r = rebuild(u, a); }
    return cache[u] = r; };
  T p = t; for (int i = 0; i < 4; i++) { T n = go(p); if (n == p) break; p = n; cache.clear(); } return p;
}
// ---------------------------------------------------------------- equality of decision diagrams
// a and b have the same value whenever f holds: their conditions are split on in turn and the arms compared
static T topAtom(T t, std::unordered_map<T, T> &memo) {   // oldest condition that t branches on, outside bound bodies
  if (t->a.empty() || t->k == K::Obj || t->ty == Ty::M) return nullptr; auto it = memo.find(t); if (it != memo.end()) return it->second;
  T best = nullptr; auto take = [&](T x) { if (x && (!best || x->id < best->id)) best = x; };
  if (t->k == K::Red || t->k == K::All) { for (size_t i = 1; i < t->a.size(); i++) take(topAtom(t->a[i], memo)); }
  else { if (t->k == K::Ite) { std::function<void(T)> atoms = [&](T c) { if (c->k == K::Ite) { for (T x : c->a) atoms(x); } else if (c->k == K::Not) atoms(c->a[0]); else if (c->k != K::CInt) take(c); }; atoms(t->a[0]); if (t->ty == Ty::I1) { atoms(t->a[1]); atoms(t->a[2]); } }
    for (T x : t->a) take(topAtom(x, memo)); }
  return memo[t] = best;
}
static bool sameGo(T a, T b, const Facts &f, int &budget, int depth) {
  if (a == b) return true; if (--budget < 0 || depth > 60) return false;
  std::unordered_map<T, T> memo; T x = topAtom(a, memo), y = topAtom(b, memo); if (!x || (y && y->id < x->id)) x = y;
  if (!x && a->ty == Ty::I1 && b->ty == Ty::I1) { auto at = [](T t) -> T { return t->k == K::CInt ? nullptr : t->k == K::Not ? t->a[0] : t; }; T p = at(a), q = at(b); if (p && q && p != q) return false; x = p ? p : q; if (!x) return false; }
  if (x) {
    for (int v = 0; v < 2; v++) { Facts g = f; if (!assume(v ? x : notb(x), g)) continue; if (!sameGo(subst(a, x, cbool(v)), subst(b, x, cbool(v)), g, budget, depth + 1)) return false; }
    return true; }
  T ra = resolveT(a, f), rb = resolveT(b, f); if (ra != a || rb != b) return sameGo(ra, rb, f, budget, depth + 1);
  if (isInt(a->ty) && isInt(b->ty)) { T d = sub(a, b); if (proveEQ0(d, f)) return true;
    if (d->k == K::Poly && d->c == 0) { vector<std::pair<T, int64_t>> m; for (size_t i = 0; i < d->a.size(); i++) m.push_back({d->a[i], d->co[i]}); 
      if (m.size() > 8) return false; bool prog = true; while (prog && m.size()) { prog = false; for (size_t i = 0; i < m.size() && !prog; i++) for (size_t j = i + 1; j < m.size() && !prog; j++) if (m[i].second == -m[j].second && m[i].first->k == m[j].first->k && (m[i].first->k == K::Red || m[i].first->k == K::Op || m[i].first->k == K::Load) && sameGo(m[i].first, m[j].first, f, budget, depth + 1)) { m.erase(m.begin() + j); m.erase(m.begin() + i); prog = true; } } 
      if (m.empty()) return true; } }
  if (a->k != b->k || a->op != b->op || a->ty != b->ty || a->a.size() != b->a.size()) return false;
  if (a->k == K::Red && a->c != b->c) return false;
  if (a->k == K::Red || a->k == K::All) {
    for (size_t i = 1; i < a->a.size(); i++) if (!sameGo(a->a[i], b->a[i], f, budget, depth + 1)) return false;
    T z = sym("nn:$q" + std::to_string(depth), Ty::I64); Facts g = f; if (!assume(lt0(sub(z, a->a[1])), g)) return true; return sameGo(inst(a->a[0], z), inst(b->a[0], z), g, budget, depth + 1); }
  if (a->k == K::Poly || a->k == K::Sym || a->a.empty() || a->k == K::Obj || a->ty == Ty::M || a->c != b->c || a->co != b->co) return false;
  auto all = [&](bool sw) { for (size_t i = 0; i < a->a.size(); i++) { T p = a->a[i], q = b->a[sw ? 1 - i : i]; if (p != q && (p->ty == Ty::M || q->ty == Ty::M || !sameGo(p, q, f, budget, depth + 1))) return false; } return true; };
  if (all(false)) return true; return a->k == K::Op && (a->op == O_FADD || a->op == O_FMUL) && all(true);
}
bool sameT(T a, T b, const Facts &f, int budget) {
  if (a == b) return true; static std::unordered_map<PKey, std::unordered_map<T, bool>, PKH> memo; auto &m = memo[PKey{a, factsHash(f) * 4096 + budget}]; auto it = m.find(b); if (it != m.end()) return it->second;
  bool r = sameGo(a, b, f, budget, 0);
  m[b] = r; return r;
}
