// Compares the final states of an analysed operation with its contract.
#include "contract.hpp"
#include <cmath>
using std::string; using std::vector;

void Result::report(const string &p, const string &verdict, const string &kind, const string &text, const string &w, const string &func, const string &loc) {
  if (verdict == "open") sum[p].second++;
  Finding f{p, verdict, kind, func.empty() ? api : func, loc.empty() ? src : loc, text, w};
  for (auto &x : bad) if (x.prop == f.prop && x.verdict == f.verdict && x.kind == f.kind && x.func == f.func && x.loc == f.loc) return;
  bad.push_back(f);
}
static bool trueIn(T g, const Facts &f) {
  g = resolveT(g, f); if (evalB(g, f) == YES) return true;
  Facts h = f; return !assume(notb(g), h);
}
void Result::goal(const string &p, State &s, T g, const string &kind, const string &text) {
  if (trueIn(g, s.facts)) { ok(p); return; }
  string w; if (feasible(s, {notb(g)}, w) || (kind == "metadata" && (feasible(s, {notb(g)}, w, 2, 400) || feasible(s, {notb(g)}, w, 3, 800)))) report(p, "violated", kind, text, w); else report(p, "open", kind, text);
}
vector<State> splitBool(const State &s, T c, bool v) { State n = s; if (!assume(v ? c : notb(c), n.facts)) return {}; return {n}; }
// the leaves of a conditional value, each with the state in which it is taken
static vector<std::pair<State, T>> leaves(const State &s, T t) {
  t = resolveT(t, s.facts); vector<std::pair<State, T>> r;
  if (t->k != K::Ite) { r.push_back({s, t}); return r; }
  for (int b = 1; b >= 0; b--) for (auto &n : splitBool(s, t->a[0], b)) for (auto &x : leaves(n, t->a[b ? 1 : 2])) r.push_back(x);
  return r;
}
// values not known to the analysis (never-written memory is known: it evaluates to "never written")
static bool unknownV(T t) {
  std::set<T> seen;
  std::function<bool(T)> go = [&](T u) -> bool {
    if (!seen.insert(u).second) return false;
    if (u->k == K::Op && (u->op == O_UNK || u->op == O_PHI || u->op == O_JOIN || u->op == O_WIT)) return true;
    if (u->k == K::MHavoc) { auto it = loopMem.find(u); return it == loopMem.end() || go(it->second); }
    for (T c : u->a) if (go(c)) return true;
    return false;
  };
  return go(t);
}
static bool usable(const State &s, vector<T> &lits) {
  if (!s.imprecise.empty() || s.approx) return false;
  for (T l : s.facts.l) { if (opaque(l)) return false; lits.push_back(l); }
  return true;
}
static const char *const uninitText = "is never written before the operation reports success";
// rem(a,b) written as a - b*div(a,b), so that the digits of a position recombine
T expandRem(T t, const Facts &f) {
  if (!containsIf(t, [](T u) { return u->k == K::Op && u->op == O_REM; })) return t;
  std::unordered_map<T, T> cache; std::function<T(T)> go = [&](T u) -> T { if (u->a.empty() || u->k == K::Obj || u->ty == Ty::M || u->k == K::Red || u->k == K::All) return u; auto it = cache.find(u); if (it != cache.end()) return it->second; std::unordered_map<T, T> m; for (T c : u->a) { T n = go(c); if (n != c) m[c] = n; } T r = m.empty() ? u : substM(u, m); if (r->k == K::Op && r->op == O_REM && (range(r->a[1]).lo >= 1 || proveLT0(mulc(r->a[1], -1), f))) r = sub(r->a[0], mul(r->a[1], sdivT(r->a[0], r->a[1]))); return cache[u] = r; };
  return resolveT(go(t), f);
}
void equalValue(Result &r, State &s, T got, T want, int dt, const string &prop, const string &what, double tol, const vector<T> &notNaN) {
  got = resolveT(got, s.facts); want = resolveT(want, s.facts);
  if (dt < 8 && isInt(got->ty)) got = wrapTo(got, dt);   // signed overflow is undefined: compare the stored bits
  bool same = got == want; if (!same) same = expandRem(got, s.facts) == expandRem(want, s.facts); if (!same && isInt(dtTy[dt]) && isInt(got->ty) && isInt(want->ty)) same = proveEQ0(sub(got, want), s.facts); if (!same) same = sameT(got, want, s.facts, 1500);
  if (same && !hasUndef(got)) { r.ok(prop); r.ok("C05"); return; }
  if (getenv("AIA_ELEM")) printf("ELEM %s\n  got  %s\n  want %s\n", what.c_str(), str(got, getenv("AIA_DEPTH") ? atoi(getenv("AIA_DEPTH")) : 14).c_str(), str(want, 14).c_str());
  vector<T> lits; 
  if (usable(s, lits) && !unknownV(got)) {
    Model m; m.seed = 7; const char *e = getenv("VERIF_SEED"); if (e) m.seed += strtoull(e, nullptr, 10);
    int found = 0, cmp = 0;
    struct W { W(bool b) { wideFP = b; repairModels = true; } ~W() { wideFP = repairModels = lenientFP = specialFP = nanFP = pairedElems = false; elemF.clear(); elemI.clear(); } } wide(!containsIf(want, [](T u) { return (u->k == K::Op && (u->op == O_FADD || u->op == O_FSUB || u->op == O_FMUL || u->op == O_FDIV || u->op == O_CALL)) || u->k == K::Red; }));
    vector<int64_t> special, known; constsOf(got, special); constsOf(want, known); special.erase(std::remove_if(special.begin(), special.end(), [&](int64_t x) { return std::find(known.begin(), known.end(), x) != known.end(); }), special.end());
    if (special.size()) m.limit = 2000000;
    vector<double> cf, kf; fpConstsOf(want, kf); fpConstsOf(got, cf); for (T l : lits) fpConstsOf(l, cf); cf.erase(std::remove_if(cf.begin(), cf.end(), [&](double d) { return std::find(kf.begin(), kf.end(), d) != kf.end(); }), cf.end());
    vector<int64_t> ci = special; for (T l : lits) constsOf(l, ci); bool calls = containsIf(want, [](T u) { return u->k == K::Op && u->op == O_CALL; }) && !containsIf(want, [](T u) { return u->k == K::Red; }), divs = dt < 8;
    bool moved = want->k == K::Load || want->k == K::CFP || (dt >= 8 && notNaN.empty() && !containsIf(want, [](T u) { return u->k == K::Red || (u->k == K::Op && u->op == O_CALL); }));   // the element is copied: any bit pattern, NaN and infinities included, must come through
    long work = 0; for (int i = 0; i < 400 && (found < 40 || work < 30000) && found < 300 && (i < 60 || work < 30000); i++) {
      m.seed = m.seed * 6364136223846793005ULL + 1442695040888963407ULL; m.more.clear(); if (i % 2) m.more = special; specialFP = moved && i % 4 == 3; nanFP = calls && i % 5 == 4; pairedElems = divs && i % 3 == 2; elemF.clear(); elemI.clear(); if (i % 3 == 1) elemF = cf, elemI = ci; if (!findModel(lits, {}, m, 300)) { if (i > 5 && !found) break; continue; } found++;
      lenientFP = wideFP; EV a = evalT(got, m); lenientFP = false; work += m.steps + 20; if (a.k == 6) { r.report("C05", "violated", "uninit-element", what + " " + uninitText, m.show()); return; }
      EV b = evalT(want, m); if (getenv("AIA_VAL")) printf("VAL nan=%d got %s want %s\n", nanFP, evStr(a).c_str(), evStr(b).c_str()); if (!a.k || !b.k || a.k != b.k) continue; bool nan = false;
      for (T n : notNaN) { EV x = evalT(n, m); if (x.k == 2 && (nanFP ? std::isinf(x.f) : !std::isfinite(x.f))) nan = true; } if (nan) continue; cmp++;
      bool diff = false;
      if (a.k == 1) diff = a.i != b.i && (int64_t)((uint64_t)a.i << (64 - 8 * dtSize[dt])) != (int64_t)((uint64_t)b.i << (64 - 8 * dtSize[dt]));
      else if (a.k == 2) { double t = dt == 8 ? std::max(tol, 1e-4) : std::min(tol, 1e-9); if (std::isnan(a.f) || std::isnan(b.f)) diff = std::isnan(a.f) != std::isnan(b.f); else if (std::isinf(a.f) || std::isinf(b.f)) diff = a.f != b.f; else diff = std::fabs(a.f - b.f) > t * (1 + std::max(std::fabs(a.f), std::fabs(b.f))); }
      if (diff && getenv("AIA_ELEM")) { std::set<T> seen; std::function<void(T, int)> dump = [&](T t, int d) { if (d > 7 || t->bvl || !seen.insert(t).second) return; if (t->ty != Ty::M && t->ty != Ty::O) { EV e = evalT(t, m); printf("%*s%s = %s\n", 2 * d, "", str(t, 3).c_str(), e.k == 6 ? "unwritten" : e.k ? evStr(e).c_str() : "?"); } for (T x : t->a) dump(x, d + 1); }; dump(got, 0); }
      if (diff) { r.report(prop, "violated", "wrong-element", what + " is " + evStr(a) + " where the definition gives " + evStr(b), m.show()); return; }
    }
    r.report(prop, "open", "element", what + " not proved equal (" + std::to_string(cmp) + " valuations agree)"); r.sum["C05"].second++; return;
  }
  r.report(prop, "open", "element", what + ": value not resolved"); r.sum["C05"].second++;
}
// ---------------------------------------------------------------- output tensors
struct OutT { T impl = nullptr, dims = nullptr, m2m = nullptr, sto = nullptr, data = nullptr, size = nullptr, ndim = nullptr, offset = nullptr, ltype = nullptr, dtype = nullptr, device = nullptr, ssize = nullptr; };
static bool liveHeap(State &s, T p) { if (p->k != K::Ptr || oi(p->a[0]).kind != OK::Heap || !isC(p->a[1], 0)) return false; auto it = s.heap.find(p->a[0]); return it != s.heap.end() && !it->second.freed; }
// splits s until every pointer of the tensor is a single object; problems are passed to `bad`
static void inspect(const State &s0, T p, std::function<void(State &, OutT &, const string &problem, bool unsure)> k) {
  for (auto &lp : leaves(s0, p)) {
    OutT o; o.impl = lp.second;
    if (o.impl->k == K::Ptr && oi(o.impl->a[0]).kind != OK::Heap) { k(lp.first, o, "the output is not a tensor created by the operation", false); continue; }
    if (!liveHeap(lp.first, o.impl)) { bool gone = o.impl->k == K::Ptr; k(lp.first, o, gone ? "the output tensor has been released" : "the output is not a tensor (" + str(o.impl, 3) + ")", !gone && o.impl->k != K::Null && o.impl->k != K::Undef && o.impl->k != K::Sym && !(o.impl->k == K::Load && hasUndef(o.impl))); continue; }
    struct F { int64_t off; T OutT::*m; const char *n; };
    static const F fields[] = {{24, &OutT::dims, "extents"}, {40, &OutT::m2m, "layout order"}, {48, &OutT::sto, "storage"}};
    std::function<void(State, OutT, int)> go = [&](State st, OutT q, int i) {
      if (i < 3) { T v = loadAt(st, q.impl, fields[i].off, Ty::P); if (!v) { k(st, q, string("the ") + fields[i].n + " pointer is unknown", true); return; }
        for (auto &l : leaves(st, v)) { OutT n = q; n.*fields[i].m = l.second; T x = l.second; if (x->k == K::Undef || hasUndef(x) || (x->k == K::Load && oi(q.impl->a[0]).uninit)) { k(l.first, n, string("the ") + fields[i].n + " pointer is never set", false); continue; }
          if (x->k == K::Null && i < 2) { go(l.first, n, i + 1); continue; }
          if (x->k == K::Ptr && oi(x->a[0]).kind != OK::Heap) { n.*fields[i].m = x; if (i < 2) go(l.first, n, i + 1); else k(l.first, n, "the storage is not one created by the operation", false); continue; }
          if (!liveHeap(l.first, x)) { k(l.first, n, string("the ") + fields[i].n + (x->k == K::Ptr ? " have been released" : " pointer is not valid"), x->k != K::Ptr && x->k != K::Null); continue; }
          go(l.first, n, i + 1); } return; }
      T v = loadAt(st, q.sto, 24, Ty::P); if (!v) { k(st, q, "the data pointer is unknown", true); return; }
      for (auto &l : leaves(st, v)) { OutT n = q; n.data = l.second; T x = l.second; State &z = l.first;
        n.size = loadAt(z, n.impl, 0, Ty::I64); n.offset = loadAt(z, n.impl, 8, Ty::I64); n.ndim = loadAt(z, n.impl, 16, Ty::I64); n.ltype = loadAt(z, n.impl, 32, Ty::I32);
        n.dtype = loadAt(z, n.sto, 0, Ty::I64); n.device = loadAt(z, n.sto, 8, Ty::I64); n.ssize = loadAt(z, n.sto, 16, Ty::I64);
        if (x->k == K::Undef || hasUndef(x) || (x->k == K::Load && oi(q.sto->a[0]).uninit)) { k(z, n, "the element buffer pointer is never set", false); continue; }
        if (x->k == K::Ptr && oi(x->a[0]).kind == OK::Heap && !liveHeap(z, x)) { k(z, n, "the element buffer has been released", false); continue; }
        k(z, n, "", false); }
    };
    go(lp.first, o, 0);
  }
}
static string allocAt(const State &s, T o) { auto it = s.heap.find(o); return it != s.heap.end() && it->second.ai ? locOf(it->second.ai) : "?"; }
static string allocFn(const llvm::Instruction *I) { return I ? I->getFunction()->getName().str() : ""; }
static void leaks(Result &r, State &s, const vector<T> &owned, const string &when) {
  string w; long n = 0;
  for (auto &h : s.heap) { if (h.second.freed) { n++; continue; } bool mine = false; for (T o : owned) if (o && o->k == K::Ptr && o->a[0] == h.first) mine = true; if (mine) { n++; continue; }
    bool sure = feasible(s, {}, w, 0, 400, true); r.report("C01", sure ? "violated" : "open", "leak", "block allocated at " + locOf(h.second.ai) + " is still live when " + r.api + " returns " + when, w, allocFn(h.second.ai), locOf(h.second.ai)); }
  for (auto &f : s.fams) { int64_t gone = 0; for (auto &h : s.heap) if (h.second.freed && h.first->c == f.site && h.first->a.size() == f.pre.size() + 1 && std::equal(f.pre.begin(), f.pre.end(), h.first->a.begin())) gone++;   // members released one by one
    T some = lt0(sub(addc(f.lo, gone), f.hi)); if (evalB(some, s.facts) == NO) { n++; continue; } bool sure = feasible(s, {some}, w, 0, 400, true); r.report("C01", sure ? "violated" : "open", "leak", "blocks allocated in a loop at " + locOf(f.ai) + " are still live when " + r.api + " returns " + when, w, allocFn(f.ai), locOf(f.ai)); }
  r.ok("C01", n + 1);
}
static void metaEq(Result &r, Contract &c, State &s, T got, T want, const string &what) {
  if (!got) { r.report(c.metaProp, "open", "metadata", what + " unknown"); return; }
  got = resolveT(got, s.facts); want = resolveT(want, s.facts);
  if (hasUndef(got)) {  // only a valuation that really reads an unwritten field counts
    if (got->k == K::Ite) { for (auto &l : leaves(s, got)) if (!hasUndef(l.second) || l.second != got) metaEq(r, c, l.first, l.second, want, what); return; }
    string w; vector<T> l; bool never = got->k == K::Undef && feasible(s, {}, w, 0, 400, true);
    if (!never) { for (T x : s.facts.l) if (!opaque(x)) l.push_back(x); Model m; if (s.imprecise.empty() && !s.approx && findModel(l, {}, m, 200) && evalT(got, m).k == 6) { never = true; w = m.show(); } }
    if (never) { r.report("C05", "violated", "uninit-field", what + " of the output tensor is never set", w); return; }
    r.report(c.metaProp, "open", "metadata", what + " not resolved"); return; }
  r.goal(c.metaProp, s, eq0(sub(got, want)), "metadata", what + " of the output is " + str(resolveT(got, s.facts), 4) + ", documented " + str(want, 4));
}
static void success(Result &r, Contract &c, State &s0) {
  T p = loadAt(s0, c.out, 0, Ty::P); if (!p) { r.report("C05", "open", "output", "output pointer unknown"); return; }
  inspect(s0, p, [&](State &s, OutT &o, const string &prob, bool unsure) {
    vector<T> owned{o.impl, o.dims, o.m2m, o.sto, o.data};
    if (prob.size()) { string w; bool sure = !unsure && feasible(s, {}, w, 0, 400, true); r.report("C05", sure ? "violated" : "open", "incomplete-output", "on success " + prob, w); if (prob.find("created by") != string::npos) r.report("C04", sure ? "violated" : "open", "shared-storage", "on success " + prob, w); leaks(r, s, owned, "success"); return; }
    r.ok("C05");
    // ownership: every block of the output is fresh, distinct and zero-based
    const char *nm[] = {"tensor header", "extents", "layout order", "storage", "element buffer"};
    for (int i = 0; i < 5; i++) { T x = owned[i]; if (x->k == K::Null) continue;
      if (i == 4 && c.adoptPtr) { if (x == c.adoptPtr) { r.ok("C04"); r.ok("C17"); continue; } string w; bool sure = feasible(s, {}, w, 0, 400, true); r.report("C17", sure ? "violated" : "open", "data-not-adopted", "the tensor does not hold the caller's element buffer", w); continue; }
      bool fresh = liveHeap(s, x); for (int j = 0; j < i; j++) if (owned[j]->k == K::Ptr && x->k == K::Ptr && owned[j]->a[0] == x->a[0]) fresh = false;
      if (fresh) { r.ok("C04"); continue; }
      string w; bool known = x->k == K::Ptr || x->k == K::Null; bool sure = known && feasible(s, {}, w, 0, 400, true);
      r.report("C04", sure ? "violated" : "open", "shared-storage", string("the output's ") + nm[i] + " is " + (x->k == K::Ptr ? objs[x->a[0]->c].name : str(x, 3)) + ", not a block of its own", w); }
    if (o.data->k == K::Null && !c.adoptPtr) { string w; if (feasible(s, {}, w, 0, 400, true)) r.report("C05", "violated", "incomplete-output", "on success the element buffer is NULL", w); }
    leaks(r, s, owned, "success");
    // shape rule; conditional dimensions are split
    std::function<void(State, size_t, vector<int>)> go = [&](State st, size_t i, vector<int> keep) {
      if (i < c.odims.size()) {
        if (!c.odims[i].keep) { keep.push_back(1); go(st, i + 1, keep); return; }
        for (int b = 1; b >= 0; b--) for (auto &n : splitBool(st, c.odims[i].keep, b)) { auto k2 = keep; k2.push_back(b); go(n, i + 1, k2); } return; }
      vector<T> ext; for (size_t j = 0; j < keep.size(); j++) if (keep[j]) ext.push_back(resolveT(c.odims[j].extent, st.facts));
      int n = ext.size(); T size = cint(1); for (T e : ext) size = mul(size, e);
      metaEq(r, c, st, o.ndim, cint(n), "number of dimensions");
      metaEq(r, c, st, o.size, size, "size"); metaEq(r, c, st, o.offset, cint(0), "offset"); metaEq(r, c, st, o.ltype, cint(0), "layout type");
      metaEq(r, c, st, o.ssize, size, "storage size"); metaEq(r, c, st, o.dtype, scalarDT(c.odt), "element type"); metaEq(r, c, st, o.device, c.odev, "device");
      if (evalB(eq0(addc(o.ndim, -n)), st.facts) != YES) return;
      if (n && (o.dims->k != K::Ptr || o.m2m->k != K::Ptr)) { string w; if (feasible(st, {}, w)) r.report("C05", "violated", "incomplete-output", "extents or layout order missing", w); return; }
      for (int j = 0; j < n; j++) { metaEq(r, c, st, loadAt(st, o.dims, 8 * j, Ty::I64), ext[j], "extent " + std::to_string(j)); metaEq(r, c, st, loadAt(st, o.m2m, 8 * j, Ty::I64), cint(n - 1 - j), "layout order " + std::to_string(j)); }
      if (c.adoptPtr) { if (c.post) c.post(r, st, o.impl); return; }
      T have = o.data->k == K::Ptr ? sizeOf(st, o.data->a[0]) : nullptr;
      if (have) r.goal(c.metaProp, st, notb(lt0(sub(have, mulc(size, dtSize[c.odt])))), "buffer-size", "element buffer of " + str(have, 4) + " bytes for " + str(size, 4) + " elements of " + std::to_string(dtSize[c.odt]) + " bytes");
      if (!c.elem || o.data->k != K::Ptr) return;
      // one generic element
      State e = st; vector<T> co; T lin = cint(0); size_t d = 0;
      if (c.flat) { lin = sym("nn:k", Ty::I64); if (!assume(lt0(sub(lin, size)), e.facts)) return; }
      else for (size_t j = 0; j < keep.size(); j++) { if (!keep[j]) { co.push_back(cint(0)); continue; } T x = sym("nn:i" + std::to_string(j), Ty::I64); if (isC(ext[d], 1)) x = cint(0); else if (!assume(lt0(sub(x, ext[d])), e.facts)) return; co.push_back(x); lin = add(mul(lin, ext[d]), x); d++; }
      T got = readMem(memOf(e, o.data->a[0]), mulc(lin, dtSize[c.odt]), dtTy[c.odt], &e.facts);
      c.nanOf.clear(); T want = c.elem(co, lin, e);
      string at = "output element ["; if (c.flat) at += "k"; else for (size_t j = 0; j < co.size(); j++) at += (j ? "," : "") + (isC(co[j], 0) ? string("0") : "i" + std::to_string(j)); at += "]";
      if (want) equalValue(r, e, got, want, c.odt, c.elemProp, at, c.tol, c.nanOf);
      if (c.post) c.post(r, e, got);
    };
    go(s, 0, {});
  });
}
static void failure(Result &r, Contract &c, State &s0, const string &when) {
  T p = loadAt(s0, c.out, 0, Ty::P); if (!p) { r.report("C05", "open", "output", "output pointer unknown after " + when); return; }
  for (auto &l : leaves(s0, p)) {
    T v = l.second; State &s = l.first;
    if (v->k == K::Null || (v->k == K::Sym && nameOf(v->op).rfind("old:", 0) == 0)) { r.ok("C05"); leaks(r, s, {}, when); continue; }
    inspect(s, v, [&](State &z, OutT &o, const string &prob, bool unsure) {
      if (prob.size()) { string w; bool sure = !unsure && feasible(z, {}, w, 0, 400, true); r.report("C05", sure ? "violated" : "open", "dangling-output", "after " + when + " " + prob, w); } else r.ok("C05");
      leaks(r, z, {o.impl, o.dims, o.m2m, o.sto, o.data}, when); });
  }
}
static T negOf(const Rule &u) { if (u.neg) return u.neg; T n = cbool(true); for (auto &d : u.when) { T a = cbool(true); for (T l : d) a = andb(a, l); n = andb(n, notb(a)); } return n; }
static void badStatus(Result &r, Contract &c, State &s, int st) {
  // some documented reason for this status must hold
  bool any = false, proved = false; vector<T> negs; State h = s; bool alive = true;
  for (auto &u : c.rules) if (u.status == st) { any = true; for (auto &d : u.when) { bool all = true; for (T l : d) if (evalB(resolveT(l, s.facts), s.facts) != YES) all = false; if (all) proved = true; } negs.push_back(negOf(u)); if (alive && !assume(negOf(u), h.facts)) alive = false; }
  if (proved || (any && !alive)) { r.ok("C12"); return; }
  string w; string txt = string("arguments with no documented reason for it are rejected with ") + stName[st];
  if (feasible(s, negs, w)) { r.report("C12", "violated", "wrong-status", txt, w); if (st == ST_TYPE || st == ST_NSUP) r.report("C09", "violated", "wrong-status", txt, w); }
  else r.report("C12", "open", "status", txt);
}
// one construct can break several promises: a violation is also charged to the other properties that promise it
static void spread(Contract &c, Result &r) {
  vector<Finding> more; auto also = [&](Finding f, const string &p) { if (f.prop != p) { f.prop = p; more.push_back(f); } };
  for (auto &f : r.bad) { if (f.verdict != "violated") continue;
    if (f.kind == "accepted" || f.kind == "wrong-status") also(f, "C12");
    if (f.prop == c.metaProp && (f.kind == "metadata" || f.kind == "buffer-size" || f.kind == "data-not-adopted")) also(f, "C13");
    if (f.kind == "uninit-element" || f.kind == "wrong-status") also(f, c.elemProp);
    if (f.kind == "uninit-field") also(f, c.metaProp); }
  for (auto &f : more) r.report(f.prop, f.verdict, f.kind, f.text, f.witness, f.func, f.loc);
}
static void judge1(Contract &c, vector<State> &fin, Result &r);
void judge(Contract &c, vector<State> &fin, Result &r) { judge1(c, fin, r); spread(c, r); }
static void judge1(Contract &c, vector<State> &fin, Result &r) {
  static const char *const evProp[][2] = {{"use-after-free", "C02"}, {"double-free", "C02"}, {"free-", "C02"}, {"write-input", "C03"}, {"oom-null-deref", "C07"}, {"libc-", "C08"}, {"allocator-", "C08"}, {"null-deref", "C21"}, {"uninit-", "C21"}, {"out-of-bounds", "C21"}, {"narrow-", "C14"}, {"write-global", "C15"}, {"read-global", "C15"}, {"extern:", "C15"}, {"abort:", "C06"}};
  for (auto &e : events) {
    if (c.ignore.count(e.kind)) continue;
    if (e.kind.rfind("extern:", 0) == 0 && c.externs.count(e.kind.substr(7))) { r.ok("C15"); continue; }
    string p; for (auto &m : evProp) if (e.kind.rfind(m[0], 0) == 0) { p = m[1]; break; } if (p.empty()) p = "C21"; if (c.evProp.size()) p = c.evProp;
    r.report(p, e.sure ? "violated" : "open", e.kind, e.text, e.witness, e.func, e.loc);
    if ((c.evProp == "C17" || c.evProp == "C10") && e.sure) for (auto &m : evProp) if (e.kind.rfind(m[0], 0) == 0) r.report(m[1], "violated", e.kind, e.text, e.witness, e.func, e.loc);
    if (e.sure && c.evProp.empty() && c.rules.size() && (p == "C21" || p == "C06")) {  // only arguments that should have been rejected get here
      vector<T> lits, negs; for (T l : e.path) if (!opaque(l)) lits.push_back(l);
      bool known = true; for (auto &u : c.rules) { T n = negOf(u); if (opaque(n)) known = false; negs.push_back(n); }
      Model m; if (known && !findModel(lits, negs, m, 400)) r.report("C12", "violated", e.kind, "arguments outside the documented domain are not rejected: " + e.text, e.witness, e.func, e.loc);
    }
  }
  if (c.evProp.size()) { r.ok(c.evProp, stats.accProved); if (c.custom) c.custom(r, fin); return; }
  r.ok("C21", stats.accProved); r.sum["C21"].second += stats.accUnknown; r.ok("C02", stats.frees + stats.accProved); r.ok("C03", stats.accesses); r.ok("C08", stats.allocs + stats.frees); r.ok("C14", stats.narrow + stats.loops); r.ok("C15", stats.accesses); r.ok("C07", stats.allocs); 
  if (c.custom) { c.custom(r, fin); return; }
  for (auto &s1 : fin) {
    if (!s1.ret) { r.report("C06", "open", "status", "no return value"); continue; }
    for (auto &l : leaves(s1, s1.ret)) {
      State &s = l.first; int64_t v; string w;
      if (!cval(l.second, v)) { bool un = l.second->k == K::Undef || hasUndef(l.second); bool sure = un && feasible(s, {}, w, 0, 400, true);
        r.report("C06", sure ? "violated" : "open", "undefined-status", un ? "the returned status is never set on this path" : "returned status not resolved: " + str(l.second, 4), w); continue; }
      if (v < 0 || v > 8) { bool sure = feasible(s, {}, w, 0, 400, true); r.report("C06", sure ? "violated" : "open", "undefined-status", "returns " + std::to_string(v) + ", which is no Status", w); continue; }
      r.ok("C06");
      if (s.oom) {
        string at = "after the allocation at " + locOf(s.oomI) + " failed";
        if (v == ST_ALLOC) r.ok("C07"); else { bool sure = feasible(s, {}, w, 0, 400, true); r.report("C07", sure ? "violated" : "open", "alloc-failure-ignored", r.api + " returns " + stName[v] + " " + at, w, allocFn(s.oomI), locOf(s.oomI)); }
        if (v == 0 && s.failed.size()) { bool sure = feasible(s, {}, w, 0, 400, true); r.report("C06", sure ? "violated" : "open", "status-lost", "success is returned although " + s.failed + " reported a failure " + at, w); }
        if (v != 0) failure(r, c, s, string(stName[v]) + " " + at);
        continue;
      }
      if (v == 0) {
        if (s.failed.size()) { bool sure = feasible(s, {}, w, 0, 400, true); r.report("C06", sure ? "violated" : "open", "status-lost", "success is returned although " + s.failed + " reported a failure", w); } else r.ok("C06");
        for (auto &u : c.rules) for (auto &d : u.when) {
          Facts f = s.facts; bool refuted = false; for (T x : d) { T y = resolveT(x, f); if (evalB(y, f) == NO || !assume(y, f)) { refuted = true; break; } }
          if (refuted) { r.ok(u.tag); continue; }
          if (feasible(s, d, w)) { r.report(u.tag, "violated", "accepted", u.text + " is accepted; documented status " + stName[u.status], w); } else r.report(u.tag, "open", "accepted", u.text); }
        success(r, c, s);
      } else {
        if (v == ST_ALLOC) { bool sure = feasible(s, {}, w, 0, 400, true); r.report("C12", sure ? "violated" : "open", "wrong-status", "ALLOC_FAILED although no allocation failed", w); } else badStatus(r, c, s, (int)v);
        failure(r, c, s, stName[v]);
      }
    }
  }
}
