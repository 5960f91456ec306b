#include "eval.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <climits>
using std::string; using std::vector;
std::function<T(T, int64_t, Ty)> globalHook;
bool wideFP = false, lenientFP = false, specialFP = false;  // draw floats beyond the integer ranges; give out-of-range conversions the machine's value instead of none
static inline uint64_t mx(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 12) + (a >> 4); a *= 0xff51afd7ed558ccdULL; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ULL; return a ^ (a >> 29); }
struct Self { T prev, body; int64_t n; std::vector<int64_t> bv; std::vector<std::shared_ptr<Self>> sf; };
struct Ctx { vector<int64_t> bv; vector<std::shared_ptr<Self>> sf; };  // innermost last
static EV I(__int128 v) { EV e; e.k = 1; e.i = v; return e; }
static EV F(double d) { EV e; e.k = 2; e.f = d; return e; }
static EV B(bool b) { return I(b); }
static const EV BAD;
static double fvv(T t) { double d; memcpy(&d, &t->c, 8); return d; }
bool nanFP = false, pairedElems = false;   // NaN elements; elements at one position are small multiples of each other
std::vector<double> elemF; std::vector<int64_t> elemI;   // constants the computed value is compared with: drawn as elements
static EV rnd(Ty ty, uint64_t h) {
  uint64_t r = mx(h, 77);
  if (nanFP && isFP(ty) && r % 4 == 1) return F(NAN);
  if (isFP(ty) && elemF.size() && (r >> 40) % 3 == 0) { double d = elemF[(r >> 44) % elemF.size()]; int q = (r >> 50) % 5; d += q == 0 ? 0 : q == 1 ? 1 : q == 2 ? -1 : q == 3 ? std::fabs(d) / 16 : -std::fabs(d) / 16; if (ty == Ty::F32) d = (float)d; return F(d); }
  if (isInt(ty) && ty != Ty::I1 && elemI.size() && (r >> 40) % 3 == 0) { int64_t d = elemI[(r >> 44) % elemI.size()] + (int64_t)((r >> 50) % 3) - 1; if ((r >> 54) % 2) d = -d; return I(ty == Ty::I8 ? (int8_t)d : ty == Ty::I16 ? (int16_t)d : ty == Ty::I32 ? (int32_t)d : d); }
  switch (ty) {
    case Ty::I1: return I(r & 1);
    case Ty::I8: { static const int v[] = {0, 1, -1, 2, 3, -3, 5, 7, 127, -128}; return I(r % 3 ? (int64_t)(int8_t)(r >> 20) : v[(r >> 8) % 10]); }
    case Ty::I16: { static const int v[] = {0, 1, -1, 2, 3, -5, 7, 255, 32767, -32768}; return I(r % 3 ? (int64_t)(int16_t)(r >> 20) : v[(r >> 8) % 10]); }
    case Ty::I32: { static const int v[] = {0, 1, -1, 2, 3, -5, 7, 65536, INT_MAX, INT_MIN}; return I(r % 3 ? (r % 2 ? (int64_t)(int32_t)(r >> 20) : (int64_t)((r >> 20) % 41) - 20) : v[(r >> 8) % 10]); }
    case Ty::I64: { static const int64_t v[] = {0, 1, -1, 2, 3, -5, 7, 1LL << 33, (1LL << 53) + 1, -(1LL << 40)}; return I(r % 3 ? (r % 2 ? (int64_t)mx(r, 3) >> 2 : (int64_t)((r >> 20) % 41) - 20) : v[(r >> 8) % 10]); }
    case Ty::F32: case Ty::F64: { double d; if (specialFP && r % 4 == 1) return F((r >> 9) % 2 ? NAN : INFINITY); if (wideFP && r % 5 == 4) { static const double w[] = {3e9, 200, 40000, 7e9, 1e18, 130.5, 33000, 1.2e19, -100, -30000, -2e9, -3e17}; d = w[(r >> 8) % 12]; } else switch (r % 8) { case 0: d = 0; break; case 1: d = ((int)((r >> 8) % 17)) - 8; break; case 2: d = -((double)((r >> 8) % 1000) + 1) / 7; break; default: d = ((double)((r >> 8) % 20001) - 10000) / 999.0; } if (ty == Ty::F32) d = (float)d; return F(d); }
    default: return BAD;
  }
}
static EV ev(T t, Model &m, Ctx &c);
static EV rd(T mem, int64_t off, Ty ty, Model &m, Ctx &c);
static EV conv(EV v, Ty have, Ty want) {  // same width reinterpretation
  if (have == want || !v.k || v.k == 6) return v;
  if (isInt(have) && isInt(want)) return v;
  if (v.k == 2 && isInt(want)) { if (have == Ty::F32) { float f = v.f; int32_t i; memcpy(&i, &f, 4); return I(i); } int64_t i; memcpy(&i, &v.f, 8); return I(i); }
  if (v.k == 1 && isFP(want)) { if (want == Ty::F32) { int32_t i = (int32_t)v.i; float f; memcpy(&f, &i, 4); return F(f); } int64_t i = (int64_t)v.i; double d; memcpy(&d, &i, 8); return F(d); }
  if (want == Ty::P && v.k == 1 && v.i == 0) { EV e; e.k = 4; return e; }
  if (want == Ty::P || have == Ty::P) return v.k >= 3 && want == Ty::P ? v : BAD;
  return BAD;
}
static __int128 wrap(__int128 v, int bits) { unsigned __int128 mk = bits >= 127 ? ~(unsigned __int128)0 : (((unsigned __int128)1) << bits) - 1; unsigned __int128 u = (unsigned __int128)v & mk; if (bits < 127 && (u >> (bits - 1))) u |= ~mk; return (__int128)u; }
static EV fromCell(EV v, Ty have, int64_t d, Ty ty) {
  if (!v.k || v.k == 6) return v; if (d == 0 && tyBytes(have) == tyBytes(ty)) return conv(v, have, ty);
  EV iv = isFP(have) ? conv(v, have, intTy(tyBytes(have))) : v; if (iv.k != 1) return BAD;
  __int128 x = wrap(iv.i, 64); uint64_t u = (uint64_t)x; u >>= 8 * d; int b = tyBytes(ty) * 8; EV r = I(wrap((__int128)u, b)); return isFP(ty) ? conv(r, intTy(tyBytes(ty)), ty) : r;
}
// the element of an argument object at a byte offset
static EV elem(const Model &m, T o, int64_t off, Ty ty) {
  if (pairedElems && isInt(ty) && ty != Ty::I1) { uint64_t g = mx(m.seed ^ 0x5151, (uint64_t)off); int64_t base = 1 + (int64_t)(g >> 7) % (ty == Ty::I8 ? 40 : 10000); return I(base * (1 + (int64_t)(mx(g, o->h) % 3))); }
  return rnd(ty, mx(mx(m.seed, o->h), (uint64_t)off));
}
static bool big(__int128 v) { return v > ((__int128)1 << 90) || v < -((__int128)1 << 90); }
static int64_t cap(const Model &m) { return m.limit > 1000000 ? 100000 : 2000; }
// t = constant*(innermost loop counter) + something that does not depend on it
static bool spacing(T t, int64_t &st) {
  auto dep = [](T x) { return containsIf(x, [](T u) { return (u->k == K::BV && u->c == 0) || u->k == K::MSelf; }); };
  if (t->k == K::BV && t->c == 0) { st = 1; return true; }
  if (t->k != K::Poly) return false; st = 0;
  for (size_t i = 0; i < t->a.size(); i++) if (t->a[i]->k == K::BV && t->a[i]->c == 0) st = t->co[i]; else if (dep(t->a[i])) return false;
  return st != 0;
}
static EV rd(T mem, int64_t off, Ty ty, Model &m, Ctx &c0) {
  int b = tyBytes(ty); Ctx hold; Ctx *c = &c0;
  auto split = [&]() -> EV {   // a read that overlaps a narrower write: by halves
    if (b < 2 || ty == Ty::P) return BAD;
    Ty h = intTy(b / 2); Ctx k = *c; EV lo = rd(mem, off, h, m, k); if (!lo.k) return BAD; k = *c; EV hi = rd(mem, off + b / 2, h, m, k); if (!hi.k) return BAD;
    if (lo.k == 6 || hi.k == 6) return lo.k == 6 ? lo : hi; if (lo.k != 1 || hi.k != 1) return BAD;
    uint64_t mk = b == 8 ? 0xffffffffull : (1ull << (4 * b)) - 1, u = ((uint64_t)(int64_t)hi.i << (4 * b)) | ((uint64_t)(int64_t)lo.i & mk); EV r = I(wrap((__int128)u, 8 * b)); return isFP(ty) ? conv(r, intTy(b), ty) : r; };
  while (true) {
    if (++m.steps > m.limit) return BAD;
    switch (mem->k) {
      case K::MCell: { EV o = ev(mem->a[1], m, *c); if (o.k != 1) return BAD; int64_t d = off - (int64_t)o.i; int b2 = tyBytes((Ty)mem->op);
        if (d >= b2 || d <= -b) { mem = mem->a[0]; continue; } if (d < 0 || d + b > b2) return split(); return fromCell(ev(mem->a[2], m, *c), (Ty)mem->op, d, ty); }
      case K::MCopy: { EV o = ev(mem->a[1], m, *c), l = ev(mem->a[2], m, *c); if (o.k != 1 || l.k != 1) return BAD; int64_t d = off - (int64_t)o.i; if (d + b <= 0 || d >= (int64_t)l.i) { mem = mem->a[0]; continue; } if (d < 0 || d + b > (int64_t)l.i) return split();
        EV so = ev(mem->a[4], m, *c); if (so.k != 1) return BAD; off = d + (int64_t)so.i; mem = mem->a[3]; continue; }
      case K::MLoop: { EV n = ev(mem->a[1], m, *c); if (n.k != 1) return BAD; if (n.i <= 0) { mem = mem->a[0]; continue; }
        int64_t st; T body = mem->a[2];   // one element per iteration at evenly spaced offsets: only the iteration that writes this offset matters
        if (body->k == K::MCell && body->a[0]->k == K::MSelf && body->a[0]->c == 0 && tyBytes((Ty)body->op) == b && spacing(body->a[1], st) && (st >= b || st <= -b)) {
          Ctx n0; n0.bv = c->bv; n0.sf = c->sf; n0.bv.push_back(0); n0.sf.push_back(nullptr); EV o = ev(body->a[1], m, n0); if (o.k != 1) return BAD; __int128 d = (__int128)off - o.i;
          if (d % st == 0) { __int128 i = d / st; if (i < 0 || i >= n.i) { mem = mem->a[0]; continue; } n.i = i + 1; } }
        if (n.i > 2 * cap(m) && !(body->k == K::MCell && spacing(body->a[1], st))) return BAD;
        auto s = std::make_shared<Self>(); s->prev = mem->a[0]; s->body = mem->a[2]; s->n = (int64_t)n.i - 1; s->bv = c->bv; s->sf = c->sf;
        Ctx n2; n2.bv = c->bv; n2.sf = c->sf; n2.bv.push_back((int64_t)n.i - 1); n2.sf.push_back(s); mem = mem->a[2]; hold = n2; c = &hold; continue; }
      case K::MSelf: { size_t lv = mem->c; if (lv >= c->sf.size()) return BAD; auto s = c->sf[c->sf.size() - 1 - lv]; if (!s) return BAD;
        Ctx n2; n2.bv = s->bv; n2.sf = s->sf; if (s->n <= 0) { mem = s->prev; hold = n2; c = &hold; continue; }
        auto t = std::make_shared<Self>(*s); t->n = s->n - 1; n2.bv.push_back(s->n - 1); n2.sf.push_back(t); mem = s->body; hold = n2; c = &hold; continue; }
      case K::MHavoc: { auto it = loopMem.find(mem); if (it != loopMem.end()) { mem = it->second; continue; } return BAD; }
      case K::MBase: { T o = mem->a[0]; ObjInfo &oo = oi(o); if (oo.zero) return isFP(ty) ? F(0) : ty == Ty::P ? EV{4} : I(0);
        if (oo.kind == OK::Global) { T v = globalHook ? globalHook(o, off, ty) : nullptr; return v ? ev(v, m, *c) : BAD; }
        if (oo.uninit && (oo.kind == OK::Heap || oo.kind == OK::Alloca)) { EV e; e.k = 6; return e; }
        if (oo.kind != OK::Param) return BAD;
        if (oo.initMem && oo.initMem != mem) {   // the declared contents; below them nothing is known
          if (m.declared == o) return BAD;
          T saved = m.declared; m.declared = o; EV r = rd(oo.initMem, off, ty, m, *c); m.declared = saved; return r; }
        if (ty == Ty::P) return BAD;
        if (oo.dataTy >= 0 && (Ty)oo.dataTy != ty) {   // another view of the same bytes
          Ty e = (Ty)oo.dataTy; int w = tyBytes(e); int64_t d = ((off % w) + w) % w; if (d + b > w) return split();
          EV v = elem(m, o, off - d, e); return fromCell(v, e, d, ty); }
        return elem(m, o, off, ty); }
      case K::Ite: { EV q = ev(mem->a[0], m, *c); if (q.k != 1) return BAD; mem = q.i ? mem->a[1] : mem->a[2]; continue; }
      default: return BAD;
    }
  }
}
static EV call(const string &n, Ty ty, const vector<EV> &a) {
  if (n == "abs" || n == "labs") { if (a.size() != 1 || a[0].k != 1) return BAD; return I(a[0].i < 0 ? -a[0].i : a[0].i); }
  for (auto &x : a) if (x.k != 2) return BAD;
  auto R = [&](double d) { if (ty == Ty::F32) d = (float)d; return F(d); };
  string b = n; if (b.size() > 1 && b.back() == 'f' && b != "f") { string q = b.substr(0, b.size() - 1); static const std::set<string> k = {"sqrt", "exp", "tanh", "floor", "ceil", "fabs", "pow", "log", "sin", "cos", "tan", "fmax", "fmin"}; if (k.count(q)) b = q; }
  if (a.size() == 1) { double x = a[0].f; if (b == "sqrt") return R(std::sqrt(x)); if (b == "exp") return R(std::exp(x)); if (b == "tanh") return R(std::tanh(x)); if (b == "floor") return R(std::floor(x)); if (b == "ceil") return R(std::ceil(x)); if (b == "fabs") return R(std::fabs(x)); if (b == "log") return R(std::log(x)); if (b == "trunc") return R(std::trunc(x)); if (b == "round") return R(std::round(x)); if (b == "sinh") return R(std::sinh(x)); if (b == "cosh") return R(std::cosh(x)); if (b == "expm1") return R(std::expm1(x)); if (b == "exp2") return R(std::exp2(x)); }
  if (a.size() == 2) { double x = a[0].f, y = a[1].f; if (b == "pow") return R(std::pow(x, y)); if (b == "fmax") return R(std::fmax(x, y)); if (b == "fmin") return R(std::fmin(x, y)); if (b == "fmod") return R(std::fmod(x, y)); }
  return BAD;
}
static EV prim(T t, Model &m) {
  auto it = m.v.find(t); if (it != m.v.end()) return it->second;
  uint64_t h = mx(m.seed, t->h); EV r;
  const string n = t->k == K::Sym ? nameOf(t->op) : "";
  if (m.hints.size() && (h >> 30) % 3 && (t->k == K::Kap || n.rfind("nn:", 0) == 0 || n.rfind("pos:", 0) == 0)) { bool p = n[0] == 'p'; if ((h >> 33) % 2) r = I(std::max<int64_t>(p, m.hints[(h >> 9) % m.hints.size()] + (int64_t)((h >> 20) % 4) - 1)); else r = I(p + (int64_t)((h >> 9) % 2)); }
  else if (m.mode == 3 && (t->k == K::Kap || n.rfind("nn:", 0) == 0 || n.rfind("pos:", 0) == 0)) { int64_t lo = n.rfind("pos:", 0) == 0; r = I(lo + (int64_t)((h >> 40) % 3 ? (h >> 9) % 4 : (h >> 9) % 61)); }
  else if (t->k == K::Kap || n.rfind("nn:", 0) == 0) r = I(m.mode == 1 ? (h % 6 ? h % 3 : (int64_t)((h >> 8) % 4000000000ULL)) : (int64_t)((h >> 9) % 4));
  else if (n.rfind("pos:", 0) == 0) { if (m.mode == 2 && (h >> 9) % (isExtent(t) ? 3 : 2)) { static const int64_t v[] = {16777217, 33554435, 1073741827, INT32_MAX, 100000007, 65537}; r = I(v[(h >> 20) % 6]); } else if (m.mode == 1) { static const int64_t v[] = {1, 2, 3, 300, 40000, 65536, 70000, INT32_MAX, 50000, 131072, 3000000000LL, 5000000000LL}; r = I(v[isExtent(t) ? (h >> 9) % 12 : (h >> 40) % 2 ? (h >> 9) % 3 : (h >> 9) % 10]); } else r = I(1 + (int64_t)((h >> 9) % (m.seed % 3 ? 3 : 5))); }
  else if (isInt(t->ty) && t->ty != Ty::I1) { static const int64_t v[] = {0, 1, 2, 3, -1, 4, 5, -2, 6, 1, 0, 2, INT32_MAX, INT32_MIN, 7, 1}; int64_t x = v[(h >> 9) % 16]; if (t->ty == Ty::I64 && (h >> 40) % 16 == 0) x = (h >> 45) % 2 ? (1LL << 40) : -(1LL << 40); r = I(t->ty == Ty::I8 ? (int8_t)x : t->ty == Ty::I16 ? (int16_t)x : x); }
  else if (t->ty == Ty::I1) r = I((h >> 9) & 1);
  else if (isFP(t->ty)) { static const double v[] = {0, 0.5, 1, 0.25, -1, 2, 1.5, -0.5, 0.75, 3, NAN, INFINITY, 1e-3, 0.1, 7.25, 0.9}; r = F(wideFP && (h >> 40) % 4 == 0 ? (h >> 50) % 2 ? 3e9 : (h >> 51) % 2 ? 40000 : 200 : v[(h >> 9) % 16]); if (t->ty == Ty::F32) r.f = (float)r.f; }
  else return BAD;
  m.v[t] = r; return r;
}
static EV ev(T t, Model &m, Ctx &c) {
  if (++m.steps > m.limit) return BAD;
  switch (t->k) {
    case K::CInt: return I(t->c); case K::CFP: return F(fvv(t)); case K::Null: { EV e; e.k = 4; return e; }
    case K::Fn: { EV e; e.k = 5; e.o = t; return e; }
    case K::Undef: { EV e; e.k = 6; return e; }
    case K::Sym: if (t->bvl) { uint64_t h = mx(m.seed, t->op); for (auto a : t->a) { EV x = ev(a, m, c); if (x.k != 1) return BAD; h = mx(h, (uint64_t)x.i); } const string &n = nameOf(t->op); if (n.rfind("nn:", 0) == 0) return I(h % 4); if (n.rfind("pos:", 0) == 0) return I(1 + h % 3); return rnd(t->ty, h); } return prim(t, m);
    case K::Kap: return prim(t, m);
    case K::BV: { size_t l = t->c; if (l >= c.bv.size()) return BAD; return I(c.bv[c.bv.size() - 1 - l]); }
    case K::Poly: { __int128 r = t->c; for (size_t i = 0; i < t->a.size(); i++) { EV x = ev(t->a[i], m, c); if (x.k != 1 || big(x.i)) return BAD; r += x.i * t->co[i]; if (big(r)) return BAD; } return I(r); }
    case K::Mono: { __int128 r = 1; for (auto a : t->a) { EV x = ev(a, m, c); if (x.k != 1) return BAD; long double d = (long double)r * (long double)x.i; if (d > 1e27L || d < -1e27L) return BAD; r *= x.i; } return I(r); }
    case K::Ite: { EV q = ev(t->a[0], m, c); if (q.k != 1) return BAD; return ev(q.i ? t->a[1] : t->a[2], m, c); }
    case K::Not: { EV q = ev(t->a[0], m, c); if (q.k != 1) return BAD; return B(!q.i); }
    case K::LT0: { EV q = ev(t->a[0], m, c); if (q.k != 1) return BAD; return B(q.i < 0); }
    case K::EQ0: { EV q = ev(t->a[0], m, c); if (q.k != 1) return BAD; return B(q.i == 0); }
    case K::FCmp: { EV a = ev(t->a[0], m, c), b = ev(t->a[1], m, c); if (a.k != 2 || b.k != 2) return BAD; double x = a.f, y = b.f; switch (t->op) { case FP_OLT: return B(x < y); case FP_OLE: return B(x <= y); case FP_OEQ: return B(x == y); case FP_ONE: return B(x < y || x > y); default: return B(x == x && y == y); } }
    case K::Load: { EV o = ev(t->a[1], m, c); if (o.k != 1) return BAD; return rd(t->a[0], (int64_t)o.i, t->ty, m, c); }
    case K::Ptr: { EV o = ev(t->a[1], m, c); if (o.k != 1) return BAD; EV e; e.k = 3; e.i = o.i; e.o = t->a[0]; if (e.o->a.size()) { vector<T> ix; for (auto a : e.o->a) { EV x = ev(a, m, c); if (x.k != 1) return BAD; ix.push_back(cint((int64_t)x.i)); } e.o = objT(e.o->c, ix); } return e; }
    case K::All: { EV n = ev(t->a[1], m, c); if (n.k != 1 || n.i > cap(m)) return BAD; Ctx d; d.bv = c.bv; d.sf = c.sf; d.bv.push_back(0); d.sf.push_back(nullptr); for (int64_t i = 0; i < n.i; i++) { d.bv.back() = i; EV x = ev(t->a[0], m, d); if (x.k != 1) return BAD; if (!x.i) return B(false); } return B(true); }
    case K::Red: if (t->op == 7) { EV n = ev(t->a[1], m, c); if (n.k != 1 || n.i > cap(m)) return BAD; size_t w = t->a[2]->a.size(); vector<EV> v, old(w); vector<char> had(w); for (size_t j = 0; j < w; j++) { v.push_back(ev(t->a[2]->a[j], m, c)); auto it = m.v.find(t->a[3]->a[j]); if ((had[j] = it != m.v.end())) old[j] = it->second; }
        Ctx d; d.bv = c.bv; d.sf = c.sf; d.bv.push_back(0); d.sf.push_back(nullptr); bool over = false;
        for (int64_t i = 0; i < n.i && !over; i++) { d.bv.back() = i; for (size_t j = 0; j < w; j++) m.v[t->a[3]->a[j]] = v[j]; vector<EV> x; for (T b : t->a[0]->a) x.push_back(ev(b, m, d)); v = x; for (size_t j = 0; j < w; j++) if (v[j].k == 1 && big(v[j].i)) v[j] = BAD; over = m.steps > m.limit; }
        for (size_t j = 0; j < w; j++) if (had[j]) m.v[t->a[3]->a[j]] = old[j]; else m.v.erase(t->a[3]->a[j]);
        return over ? BAD : v[t->c]; }
      { EV n = ev(t->a[1], m, c), acc = ev(t->a[2], m, c); if (n.k != 1 || (acc.k != 1 && acc.k != 2) || n.i > cap(m)) return BAD; Ctx d; d.bv = c.bv; d.sf = c.sf; d.bv.push_back(0); d.sf.push_back(nullptr);
      for (int64_t i = 0; i < n.i; i++) { d.bv.back() = i; EV x = ev(t->a[0], m, d); if (x.k != acc.k) return BAD; if (t->op == 1) acc.i += x.i; else if (t->op == 2) { long double p = (long double)acc.i * (long double)x.i; if (p > 1e27L || p < -1e27L) return BAD; acc.i *= x.i; } else { acc.f = t->op == 3 ? acc.f + x.f : t->op == 5 ? (x.f > acc.f ? x.f : acc.f) : t->op == 6 ? (x.f < acc.f ? x.f : acc.f) : acc.f * x.f; if (t->ty == Ty::F32) acc.f = (float)acc.f; } if (acc.k == 1 && big(acc.i)) return BAD; } return acc; }
    case K::Op: break;
    default: return BAD;
  }
  auto A = [&](int i) { return ev(t->a[i], m, c); };
  switch (t->op) {
    case O_DIV: { EV a = A(0), b = A(1); if (a.k != 1 || b.k != 1 || b.i == 0) return BAD; return I(a.i / b.i); }
    case O_REM: { EV a = A(0), b = A(1); if (a.k != 1 || b.k != 1 || b.i == 0) return BAD; return I(a.i % b.i); }
    case O_TRUNC: { EV a = A(0); if (a.k != 1) return BAD; return I(wrap(a.i, t->c)); }
    case O_ZEXT: { EV a = A(0); if (a.k != 1) return BAD; __int128 w = wrap(a.i, t->c); if (w < 0) w += ((__int128)1) << t->c; return I(w); }
    case O_MAX0: { EV a = A(0); if (a.k != 1) return BAD; return I(a.i < 0 ? 0 : a.i); }
    case O_I2F: { EV a = A(0); if (a.k != 1) return BAD; double d = t->ty == Ty::F32 ? (double)(float)a.i : (double)a.i; return F(d); }
    case O_F2SI: case O_F2UI: { EV a = A(0); if (a.k != 2) return BAD; double d = std::trunc(a.f); int b = t->c; double lo = t->op == O_F2SI ? -std::ldexp(1.0, b - 1) : 0, hi = std::ldexp(1.0, t->op == O_F2SI ? b - 1 : b); if (!(d >= lo && d < hi)) { if (!lenientFP) return BAD; return std::fabs(d) < 9.2e18 && b < 64 ? I(wrap(b < 32 || t->op == O_F2UI ? (__int128)d : ((__int128)1 << 31), b)) : I(wrap((__int128)1 << (b - 1), b)); } return I(wrap((__int128)d, b)); }
    case O_FEXT: return A(0);
    case O_FTRUNC: { EV a = A(0); if (a.k != 2) return BAD; a.f = (float)a.f; return a; }
    case O_BITCAST: return conv(A(0), t->a[0]->ty, t->ty);
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: { EV a = A(0), b = A(1); if (a.k != 2 || b.k != 2) return BAD; double r = t->op == O_FADD ? a.f + b.f : t->op == O_FSUB ? a.f - b.f : t->op == O_FMUL ? a.f * b.f : a.f / b.f; if (t->ty == Ty::F32) r = (float)r; return F(r); }
    case O_FNEG: { EV a = A(0); if (a.k != 2) return BAD; a.f = -a.f; return a; }
    case O_CALL: { vector<EV> v; for (size_t i = 1; i < t->a.size(); i++) { v.push_back(A(i)); if (!v.back().k || v.back().k == 6) return BAD; } return call(nameOf(t->a[0]->op), t->ty, v); }
    case O_IMPURE: { uint64_t h = mx(m.seed, t->c); for (auto a : t->a) { if (a->k == K::Fn) { h = mx(h, a->op); continue; } EV x = ev(a, m, c); if (x.k != 1) return BAD; h = mx(h, (uint64_t)x.i); } if (t->ty == Ty::I32) return I((int64_t)(mx(h, 5) & 0x7fffffff)); return rnd(t->ty, h); }
    case O_EXTRACT: return fromCell(A(0), t->a[0]->ty, t->c, t->ty);
    case O_AND: case O_OR: case O_XOR: { EV a = A(0), b = A(1); if (a.k != 1 || b.k != 1) return BAD; int64_t x = (int64_t)a.i, y = (int64_t)b.i; return I(t->op == O_AND ? x & y : t->op == O_OR ? x | y : x ^ y); }
    case O_SHL: case O_LSHR: case O_ASHR: { EV a = A(0), b = A(1); int w = t->c ? t->c : 64; if (a.k != 1 || b.k != 1 || b.i < 0 || b.i >= w) return BAD; if (t->op == O_SHL) return I(wrap(a.i << (int)b.i, w)); if (t->op == O_ASHR) return I(wrap(a.i, w) >> (int)b.i); __int128 u = wrap(a.i, w); if (u < 0) u += ((__int128)1) << w; return I(wrap(u >> (int)b.i, w)); }
    case O_ISNULL: { EV a = A(0); if (a.k < 3 || a.k > 5) return BAD; return B(a.k == 4); }
    default: return BAD;
  }
}
EV evalT(T t, Model &m) { Ctx c; m.steps = 0; return ev(t, m, c); }
EV evalLoad(T mem, int64_t off, Ty ty, Model &m) { Ctx c; m.steps = 0; return rd(mem, off, ty, m, c); }
static std::unordered_map<T, bool> opc;
bool opaque(T t) {
  auto it = opc.find(t); if (it != opc.end()) return it->second; bool r = false;
  if (t->k == K::Undef) r = true;
  else if (t->k == K::Op && (t->op == O_UNK || t->op == O_PHI || t->op == O_JOIN || t->op == O_WIT)) r = true;
  else if (t->k == K::MHavoc && !loopMem.count(t)) r = true;
  else if (t->k == K::MBase) r = oi(t->a[0]).uninit;
  else for (auto c : t->a) if (opaque(c)) { r = true; break; }
  if (t->k != K::MHavoc) { if (!containsIf(t, [](T u) { return u->k == K::MHavoc; })) opc[t] = r; }
  return r;
}
static void symsOf(const vector<T> &l, vector<T> &out) {
  std::set<T> seen; std::function<void(T)> go = [&](T u) { if (!seen.insert(u).second) return; if (u->k == K::Sym && !u->bvl && (u->ty == Ty::I1 || u->ty <= Ty::F64)) { out.push_back(u); return; } if (u->k == K::Kap) { out.push_back(u); return; } if (u->k == K::MHavoc) { auto it = loopMem.find(u); if (it != loopMem.end()) go(it->second); return; } if (u->k == K::MBase && oi(u->a[0]).initMem && oi(u->a[0]).initMem != u) { go(oi(u->a[0]).initMem); } for (auto c : u->a) go(c); }; for (T t : l) go(t);
}
// sizes a condition compares with
void constsOf(T t, vector<int64_t> &out) {
  std::set<T> seen; std::function<void(T)> go = [&](T u) { if (!seen.insert(u).second) return; auto add = [&](int64_t c) { if (c < 0) c = -c; if (c >= 5 && c <= 10000000 && out.size() < 12 && std::find(out.begin(), out.end(), c) == out.end()) out.push_back(c); };
    if ((u->k == K::LT0 || u->k == K::EQ0) && u->a[0]->k == K::Poly) add(u->a[0]->c); if (u->k == K::Op && (u->op == O_TRUNC || u->op == O_ZEXT) && u->c >= 3 && u->c < 24) add((int64_t)1 << u->c); for (T x : u->a) go(x); };
  go(t);
}
void fpConstsOf(T t, vector<double> &out) {
  std::set<T> seen; std::function<void(T)> go = [&](T u) { if (!seen.insert(u).second) return; if (u->k == K::CFP) { double d = fvv(u); if (std::isfinite(d) && d != 0 && std::fabs(d) != 1 && std::fabs(d) < 1e6 && out.size() < 8 && std::find(out.begin(), out.end(), d) == out.end()) out.push_back(d); } for (T x : u->a) go(x); };
  go(t);
}
bool repairModels = false;
bool findModel(const vector<T> &lits, const vector<T> &extra, Model &m, int tries, int mode) {
  vector<T> all = lits; all.insert(all.end(), extra.begin(), extra.end());
  for (T l : all) if (l->k == K::CInt && !l->c) return false;
  // the requirement comes first: it rejects most candidates cheaply
  vector<T> order = extra; order.insert(order.end(), lits.begin(), lits.end());
  std::stable_sort(order.begin(), order.end(), [](T a, T b) { return (a->k == K::All) < (b->k == K::All); });
  vector<T> syms; symsOf(all, syms);
  vector<int64_t> consts = m.more; if (mode == 0) for (T l : all) constsOf(l, consts);
  // symbols that a top-level equality determines
  struct Eq { T x, form; }; vector<Eq> eqs; { std::set<T> used; for (T l : all) if (l->k == K::EQ0) { for (size_t i = syms.size(); i-- > 0;) { T s = syms[i]; if (used.count(s)) continue; T co, rest; int64_t k; if (!linearIn(l->a[0], s, co, rest) || !cval(co, k) || (k != 1 && k != -1)) continue; T form = mulc(rest, -k); bool bad = false; for (auto &e : eqs) if (contains(form, e.x)) bad = true; if (bad) continue; used.insert(s); eqs.push_back({s, form}); break; } } }
  std::reverse(eqs.begin(), eqs.end());
  for (int t = 0; t < tries; t++) {
    m.v.clear(); m.seed = mx(m.seed + 1, t); m.mode = mode; m.hints.clear(); if (consts.size() && (t % 3 == 2 || m.more.size())) m.hints = consts;
    if (eqs.size()) { bool bad = false; for (auto &e : eqs) m.v.erase(e.x); for (size_t i = eqs.size(); i-- > 0;) { EV x = evalT(eqs[i].form, m); if (x.k != 1) { bad = true; break; } Rng r = range(eqs[i].x); if (mode == 1 && isExtent(eqs[i].x)) r.hi = (int64_t)1 << 40; if (x.i < r.lo || x.i > r.hi) { bad = true; break; } m.v[eqs[i].x] = x; } if (bad) continue; }
    bool ok = true; for (T l : order) { EV x = evalT(l, m); if (x.k != 1 || !x.i) { ok = false; break; } }
    if (ok) { for (T s : syms) prim(s, m); return true; }
  }
  // many independent requirements: keep a draw and redraw only what a failing requirement mentions
  if (repairModels && mode == 0) for (int t = 0; t < 20; t++) {
    m.v.clear(); m.seed = mx(m.seed + 1, 977 + t); m.mode = mode; m.hints.clear(); if (consts.size() && (t % 3 == 2 || m.more.size())) m.hints = consts;
    for (int round = 0; round < 80; round++) {
      bool bad = false; for (auto &e : eqs) m.v.erase(e.x);
      for (size_t i = eqs.size(); i-- > 0 && !bad;) { EV x = evalT(eqs[i].form, m); Rng r = range(eqs[i].x); if (x.k != 1 || x.i < r.lo || x.i > r.hi) { bad = true; vector<T> ss; symsOf({eqs[i].form}, ss); for (T q : ss) m.v.erase(q); } else m.v[eqs[i].x] = x; }
      if (!bad) for (T l : order) { EV x = evalT(l, m); if (x.k != 1 || !x.i) { bad = true; vector<T> ss; symsOf({l}, ss); for (T q : ss) m.v.erase(q); break; } }
      if (!bad) { for (T s : syms) prim(s, m); return true; }
      m.seed = mx(m.seed + 1, round);
    }
  }
  return false;
}
string evStr(const EV &e) {
  if (e.k == 1) { __int128 v = e.i; bool n = v < 0; if (n) v = -v; string s; if (v == 0) s = "0"; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; } return (n ? "-" : "") + s; }
  if (e.k == 2) { char b[40]; snprintf(b, 40, "%.9g", e.f); return b; } if (e.k == 3) return "&" + objs[e.o->c].name + "+" + evStr(EV{1, e.i}); if (e.k == 4) return "NULL"; return "?";
}
string Model::show() const {
  vector<std::pair<string, string>> v; for (auto &x : this->v) if (x.first->k == K::Sym || x.first->k == K::Kap) { string n = str(x.first, 3); if (n.rfind("pos:", 0) == 0) n = n.substr(4); v.push_back({n, evStr(x.second)}); }
  std::sort(v.begin(), v.end()); string s; for (auto &x : v) { if (s.size()) s += ", "; s += x.first + "=" + x.second; if (s.size() > 400) break; } return s;
}
