#include "interp.hpp"
#include "eval.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <llvm/IR/Operator.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;
using std::map; using std::set; using std::string; using std::vector; using std::pair;

std::vector<Event> events; Stats stats; bool forkOOM = true; uint64_t stepLimit = 3000000;
static int quiet = 0;
bool peelMode = false, peeled = false; std::set<const void *> unsolvedLoops; static vector<const void *> loopStack; size_t peelCap = 32; int peelTrips = 3;   // paths followed at once, iterations per loop
template <class V> static void thin(V &v, size_t cap) { if (v.size() <= cap) return; V k; for (size_t i = 0; i < cap; i++) k.push_back(std::move(v[i * v.size() / cap])); v = std::move(k); }
Module *theM = nullptr;
map<const GlobalVariable *, int> gobjs;
static set<const GlobalVariable *> mutableG;
static vector<T> kstack;
static int depthCall = 0;

Ty tyOf(llvm::Type *t) {
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); return b == 1 ? Ty::I1 : b <= 8 ? Ty::I8 : b <= 16 ? Ty::I16 : b <= 32 ? Ty::I32 : Ty::I64; }
  if (t->isFloatTy()) return Ty::F32; if (t->isDoubleTy()) return Ty::F64; if (t->isPointerTy()) return Ty::P; return Ty::V;
}
string locOf(const Instruction *I) {
  if (!I) return "?"; const DILocation *d = I->getDebugLoc().get(); if (!d) return I->getFunction()->getName().str();
  string f = d->getFilename().str(); size_t p = f.find("src/"); if (p != string::npos) f = f.substr(p);
  return f + ":" + std::to_string(d->getLine());
}
static uint64_t seed0() { const char *e = getenv("VERIF_SEED"); return e ? strtoull(e, nullptr, 10) : 1; }
static size_t factKey(const Facts &f) { size_t h = f.l.size(); for (T l : f.l) h = h * 1000003 ^ (size_t)l; return h | 1; }
bool feasible(const State &s, const vector<T> &extra, string &w, int mode, int tries, bool weak) {
  if (getenv("AIA_FEAS")) { printf("FEAS imprecise=%s approx=%d\n", s.imprecise.c_str(), s.approx); for (T l : s.facts.l) printf("   %s%s\n", opaque(l) ? "OPAQUE " : "", str(l, 9).c_str()); for (T l : extra) printf("   + %s%s\n", opaque(l) ? "OPAQUE " : "", str(l, 9).c_str()); }
  if (!s.imprecise.empty()) return false;
  if (s.approx) {   // one of the joined paths reaches this point
    if (s.alts.empty() || s.altKey != factKey(s.facts)) return false;
    State z; for (auto &l : s.alts) { z.facts.l = l; if (feasible(z, extra, w, mode, tries, weak)) return true; } return false; }
  vector<T> lits; auto lossy = [](T l) { return containsIf(l, [](T u) { return u->k == K::Op && u->op == O_JOIN; }); };
  for (T l : s.facts.l) { if (opaque(l)) { if (!weak || lossy(l)) return false; continue; } lits.push_back(l); }
  for (T l : extra) if (opaque(l)) return false;
  Model m; m.seed = seed0(); if (!findModel(lits, extra, m, tries, mode)) return false; w = m.show(); return true;
}
static bool ownershipKind(const string &k) { return k == "oom-null-deref" || k == "use-after-free" || k == "double-free" || k == "free-uninit" || k == "free-input" || k == "free-nonheap" || k == "allocator-mismatch" || k == "libc-alloc" || k == "libc-free" || k == "write-input" || k == "write-global" || k == "read-global" || k.rfind("extern:", 0) == 0; }
void ev(const string &kind, const Instruction *I, const string &text, const State *s, vector<T> extra, int mode) {
  if (quiet) return;
  Event e{kind, I ? I->getFunction()->getName().str() : "", I ? locOf(I) : "", text}; int same = 0;
  for (auto &x : events) { if (x.kind == e.kind && x.loc == e.loc && x.func == e.func) { if (x.sure) return; if (x.text == e.text && ++same > 3) return; if (++same > 12) return; } }
  if (getenv("AIA_EVF") && kind == getenv("AIA_EVF") && s) { printf("EV %s %s imprecise=%s approx=%d\n", e.loc.c_str(), text.c_str(), s->imprecise.c_str(), s->approx); for (T l : s->facts.l) printf("   %s%s\n", opaque(l) ? "OPAQUE " : "", str(l, 7).c_str()); }
  e.sure = s ? feasible(*s, extra, e.witness, mode, mode ? 6000 : 1500, ownershipKind(kind)) : true; if (!e.sure) stats.open++;
  if (e.sure) for (size_t i = events.size(); i-- > 0;) { auto &x = events[i]; if (x.kind == e.kind && x.loc == e.loc && x.func == e.func) events.erase(events.begin() + i); }
  if (e.sure && s) { e.path = s->facts.l; e.path.insert(e.path.end(), extra.begin(), extra.end()); }
  events.push_back(e);
}
// the value depends on storage nothing has written: report it on the alternatives of the value for which that is so
static void evUndef(const string &kind, const Instruction *I, const string &text, const State &s, T v) {
  vector<vector<T>> paths; vector<T> lits; int budget = 200;
  std::function<void(T)> go = [&](T t) {
    if (--budget < 0 || paths.size() > 16 || !hasUndef(t)) return;
    if (t->k == K::Undef || t->k == K::Load) { paths.push_back(lits); return; }
    if (t->k == K::Ite) { go(t->a[0]); Tri q = evalB(t->a[0], s.facts); if (q != NO) { lits.push_back(t->a[0]); go(t->a[1]); lits.pop_back(); } if (q != YES) { lits.push_back(notb(t->a[0])); go(t->a[2]); lits.pop_back(); } return; }
    bool deep = t->op == O_UNK && t->k == K::Op && t->a.size() > 1 && (hasUndef(t->a[1]) || hasUndef(t->a.back()));   // a comparison marked for its operands
    for (size_t i = deep ? 1 : 0; i < t->a.size(); i++) if (t->a[i]->ty != Ty::M) go(t->a[i]);
  };
  go(v);
  for (auto &p : paths) { Facts f = s.facts; bool ok = true; for (auto l : p) if (!assume(l, f)) { ok = false; break; } if (ok) ev(kind, I, text, &s, p); }
}
// ------------------------------------------------------------------ per-function info
struct FnInfo {
  Function *F; DominatorTree DT; LoopInfo LI; map<const Value *, int> num; map<const BasicBlock *, int> rpo; map<const BasicBlock *, vector<int>> dead;  // slots not live at entry
  int n = 0;
};
static map<Function *, std::unique_ptr<FnInfo>> fns;
static FnInfo &info(Function *F) {
  auto &p = fns[F]; if (p) return *p; p = std::make_unique<FnInfo>(); FnInfo &f = *p; f.F = F;
  f.DT.recalculate(*F); f.LI.analyze(f.DT);
  for (auto &a : F->args()) f.num[&a] = f.n++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) f.num[&I] = f.n++;
  int k = 0; ReversePostOrderTraversal<Function *> R(F); for (auto B : R) f.rpo[B] = k++;
  // liveness
  map<const BasicBlock *, set<int>> in, use, def;
  for (auto &B : *F) { for (auto &I : B) { if (!isa<PHINode>(I)) for (auto &o : I.operands()) { auto it = f.num.find(o.get()); if (it != f.num.end() && !def[&B].count(it->second)) use[&B].insert(it->second); } auto it = f.num.find(&I); if (it != f.num.end()) def[&B].insert(it->second); } }
  bool ch = true; vector<BasicBlock *> po(po_begin(F), po_end(F));
  while (ch) { ch = false; for (auto B : po) { set<int> s = use[B];
      for (auto S : successors(B)) { for (int x : in[S]) if (!def[B].count(x)) { const Value *v = nullptr; (void)v; s.insert(x); }
        for (auto &I : *S) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; auto it = f.num.find(P->getIncomingValueForBlock(B)); if (it != f.num.end() && !def[B].count(it->second)) s.insert(it->second); } }
      for (auto &I : *B) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; s.erase(f.num[P]); }
      if (s != in[B]) { in[B] = s; ch = true; } } }
  for (auto &B : *F) { set<int> l = in[&B]; for (auto &I : B) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; l.insert(f.num[P]); } vector<int> d; for (int i = 0; i < f.n; i++) if (!l.count(i)) d.push_back(i); f.dead[&B] = d; }
  return f;
}
// ------------------------------------------------------------------ contexts
static map<pair<int, const Instruction *>, int> ctxs; static vector<pair<int, const Instruction *>> ctxv{{-1, nullptr}};
static int ctxOf(int parent, const Instruction *I) { auto k = std::make_pair(parent, I); auto it = ctxs.find(k); if (it != ctxs.end()) return it->second; ctxv.push_back(k); return ctxs[k] = (int)ctxv.size() - 1; }
static map<pair<int, const void *>, int> siteObjs;
static int siteObj(int ctx, const Instruction *I, OK kind) {
  auto k = std::make_pair(ctx, (const void *)I); auto it = siteObjs.find(k); if (it != siteObjs.end()) return it->second;
  int o = newObj(kind, (kind == OK::Heap ? "heap@" : "") + (I->hasName() && kind == OK::Alloca ? I->getName().str() : locOf(I)));
  objs[o].loc = locOf(I); objs[o].uninit = true; objs[o].ctxId = ctx; return siteObjs[k] = o;
}
static map<pair<int, const void *>, int> loopIds; 
static int loopId(int ctx, const Loop *L) { auto k = std::make_pair(ctx, (const void *)L->getHeader()); auto it = loopIds.find(k); if (it != loopIds.end()) return it->second; int n = loopIds.size() + 1; return loopIds[k] = n; }
// ------------------------------------------------------------------ memory access helpers
static T baseMem(T o) { ObjInfo &i = oi(o); if (i.initMem) return i.initMem; return mbase(o); }
static ObjSt *touch(State &s, T o) {
  auto it = s.heap.find(o); if (it != s.heap.end()) return &it->second;
  if (o->a.empty()) return nullptr;
  for (auto &f : s.fams) {
    if (f.site != o->c || f.pre.size() + 1 != o->a.size()) continue; bool eq = true; for (size_t i = 0; i < f.pre.size(); i++) eq &= f.pre[i] == o->a[i]; if (!eq) continue;
    T j = o->a.back();
    if (!(nonneg(sub(j, f.lo)) || proveLE0(sub(f.lo, j), s.facts))) continue; if (!proveLT0(sub(j, f.hi), s.facts)) continue;
    ObjSt n; n.size = instBody(f.size, j); n.mem = instBody(f.mem, j); n.ai = f.ai; n.libc = f.libc; s.heap[o] = n; return &s.heap[o];
  }
  return nullptr;
}
// members of a family that were only looked at go back to it
static void foldBack(State &s, const State *keep) {
  for (auto it = s.heap.begin(); it != s.heap.end();) { T o = it->first; bool back = false; if (!o->a.empty() && !it->second.freed && !(keep && keep->heap.count(o))) for (auto &fm : s.fams) { if (fm.site != o->c || fm.pre.size() + 1 != o->a.size() || !std::equal(fm.pre.begin(), fm.pre.end(), o->a.begin())) continue; T j = o->a.back(); if (!(nonneg(::sub(j, fm.lo)) || proveLE0(::sub(fm.lo, j), s.facts)) || !proveLT0(::sub(j, fm.hi), s.facts)) continue; if (instBody(fm.mem, j) == it->second.mem) back = true; }
    if (back) it = s.heap.erase(it); else ++it; }
}
T memOf(const State &s, T o) {
  if (oi(o).kind == OK::Heap) { auto it = s.heap.find(o); if (it != s.heap.end()) return it->second.mem; ObjSt *p = touch(const_cast<State &>(s), o); return p ? p->mem : mhavoc(mbase(o), sym("lost", Ty::V)); }
  auto it = s.mem.find(o); if (it != s.mem.end()) return it->second; return baseMem(o);
}
void setMem(State &s, T o, T m) {
  if (oi(o).kind == OK::Heap) { ObjSt *p = touch(s, o); if (p) p->mem = m; else s.imprecise = "write to untracked heap object"; return; }
  s.mem[o] = m;
}
T sizeOf(const State &s, T o) { if (oi(o).kind == OK::Heap) { ObjSt *p = touch(const_cast<State &>(s), o); return p ? p->size : nullptr; } return oi(o).size; }
static Constant *foldGlobal(const GlobalVariable *g, int64_t off, llvm::Type *t) {
  return ConstantFoldLoadFromConst(const_cast<Constant *>(g->getInitializer()), t, APInt(64, off), theM->getDataLayout());
}
static T constT(const Constant *c, llvm::Type *lt = nullptr);
static llvm::Type *llTy(Ty t) {
  auto &C = theM->getContext();
  switch (t) { case Ty::I1: return llvm::Type::getInt1Ty(C); case Ty::I8: return llvm::Type::getInt8Ty(C); case Ty::I16: return llvm::Type::getInt16Ty(C); case Ty::I32: return llvm::Type::getInt32Ty(C); case Ty::I64: return llvm::Type::getInt64Ty(C); case Ty::F32: return llvm::Type::getFloatTy(C); case Ty::F64: return llvm::Type::getDoubleTy(C); default: return PointerType::get(C, 0); }
}
static T gobjT(const GlobalVariable *g) {
  auto it = gobjs.find(g); if (it != gobjs.end()) return objT(it->second);
  int o = newObj(OK::Global, "@" + g->getName().str()); objs[o].gv = g; objs[o].constTab = g->hasInitializer() && !mutableG.count(g);
  objs[o].size = cint(theM->getDataLayout().getTypeAllocSize(g->getValueType()));
  gobjs[g] = o; return objT(o);
}
// the installed allocator: a global whose initial contents are the allocation functions
static bool isAllocatorG(T o) {
  auto *g = (const GlobalVariable *)oi(o).gv; if (!g || !g->hasInitializer()) return false;
  for (unsigned i = 0; i < 2; i++) { Constant *c = foldGlobal(g, 8 * i, llTy(Ty::P)); auto *f = c ? dyn_cast<Function>(c->stripPointerCasts()) : nullptr; if (f && (f->getName() == "malloc" || f->getName() == "free")) return true; }
  return false;
}
static T readGlobal(T o, T off, Ty ty, bool &ok) {
  const GlobalVariable *g = (const GlobalVariable *)oi(o).gv; int64_t v; ok = false; if (!g || !g->hasInitializer() || !cval(off, v)) return nullptr;
  Constant *c = foldGlobal(g, v, llTy(ty)); if (!c) return nullptr;
  if (ty == Ty::P && !g->isConstant()) if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) {  // installed allocator
      if (f->getName() == "malloc") { ok = true; return mk(K::Fn, Ty::P, nameId("@raw_alloc"), 0, {}); }
      if (f->getName() == "free") { ok = true; return mk(K::Fn, Ty::P, nameId("@raw_dealloc"), 0, {}); } }
  if (!oi(o).constTab) return nullptr;
  ok = true; return constT(c);
}
static T constT(const Constant *c, llvm::Type *) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() == 1 ? cbool(i->isOne()) : i->getBitWidth() > 64 ? cint(0) : cint(i->getSExtValue());
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isFloatTy()) return cfp(Ty::F32, f->getValueAPF().convertToFloat()); if (f->getType()->isDoubleTy()) return cfp(Ty::F64, f->getValueAPF().convertToDouble()); throw Abort{"fp constant kind"}; }
  if (isa<ConstantPointerNull>(c)) return nullp();
  if (isa<UndefValue>(c)) return undef(tyOf(c->getType()));
  if (auto *f = dyn_cast<Function>(c)) return mk(K::Fn, Ty::P, nameId(f->getName().str()), 0, {});
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkptr(gobjT(g), cint(0));
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) { APInt o(64, 0); if (g->accumulateConstantOffset(theM->getDataLayout(), o)) { T b = constT(cast<Constant>(g->getPointerOperand())); if (b->k == K::Ptr) return mkptr(b->a[0], addc(b->a[1], o.getSExtValue())); } }
    if (e->isCast()) return constT(cast<Constant>(e->getOperand(0)));
  }
  throw Abort{"unsupported constant"};
}
static T val(FnInfo &f, State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constT(c);
  auto it = f.num.find(v); if (it == f.num.end()) throw Abort{"unnumbered value"};
  T t = s.env.back()[it->second]; if (!t) throw Abort{"value read before definition: " + v->getName().str() + " in " + f.F->getName().str()};
  return t;
}
static void setV(FnInfo &f, State &s, const Value *v, T t) { s.env.back()[f.num[v]] = t; }
// ------------------------------------------------------------------ merging
static bool sameKeys(const State &a, const State &b) {
  if (a.failed.empty() != b.failed.empty()) return false;
  if (a.oom != b.oom || a.fams.size() != b.fams.size() || a.imprecise.empty() != b.imprecise.empty()) return false;
  for (size_t i = 0; i < a.fams.size(); i++) { auto &x = a.fams[i], &y = b.fams[i]; if (x.site != y.site || x.pre != y.pre || x.lo != y.lo || x.hi != y.hi || x.mem != y.mem || x.size != y.size) return false; }
  auto i = a.heap.begin(), j = b.heap.begin();
  while (i != a.heap.end() || j != b.heap.end()) {
    if (j == b.heap.end() || (i != a.heap.end() && i->first->id < j->first->id)) { if (!i->second.freed) return false; ++i; }
    else if (i == a.heap.end() || j->first->id < i->first->id) { if (!j->second.freed) return false; ++j; }
    else { if (i->second.freed != j->second.freed) return false; ++i; ++j; }
  }
  return true;
}
static T unresolvedBase(T m, vector<T> *offs, int &n) {
  while (m->k == K::MCell && n < 60) { if (offs) offs->push_back(m); m = m->a[0]; n++; }
  return m;
}
static T mergeMem(T c, T a, T b, const Facts *f) {
  if (a == b) return a;
  vector<T> ca, cb; int n = 0; T x = unresolvedBase(a, &ca, n), y = unresolvedBase(b, &cb, n);
  // longest common suffix
  if (x == y) {
    size_t i = ca.size(), j = cb.size(); while (i > 0 && j > 0 && ca[i - 1] == cb[j - 1]) { i--; j--; }
    T base = i < ca.size() ? ca[i] : (j < cb.size() ? cb[j] : x);
    vector<pair<T, Ty>> offs; auto addo = [&](T cell) { for (auto &p : offs) if (p.first == cell->a[1]) { if (p.second != (Ty)cell->op) return false; return true; } offs.push_back({cell->a[1], (Ty)cell->op}); return true; };
    bool ok = true; for (size_t q = i; q-- > 0;) ok &= addo(ca[q]); for (size_t q = j; q-- > 0;) ok &= addo(cb[q]);
    if (ok && offs.size() <= 40) { T m = base; for (auto &p : offs) m = mcell(m, p.first, ite(c, readMem(a, p.first, p.second, f), readMem(b, p.first, p.second, f)), p.second); return m; }
  }
  return mk(K::Ite, Ty::M, 0, 0, {c, a, b});
}
static int joinCtr = 0;
static T joinV(Ty ty) { vector<T> a = kstack; return mk(K::Op, ty, O_JOIN, ++joinCtr, a); }
static T conj(const vector<T> &l) { T r = cbool(true); for (size_t i = l.size(); i-- > 0;) r = andb(l[i], r); return r; }
// merge b into a; false if not possible without loss
static bool constDiverge(const State &a, const State &b) {
  auto cd = [](T x, T y) { return x && y && x != y && x->k == K::CInt && y->k == K::CInt && x->ty != Ty::I1 && y->ty != Ty::I1; };
  for (size_t f = 0; f < a.env.size(); f++) for (size_t i = 0; i < a.env[f].size(); i++) if (cd(a.env[f][i], b.env[f][i])) return true;
  if (cd(a.ret, b.ret)) return true;
  for (auto &m : a.mem) if (oi(m.first).kind == OK::Alloca && oi(m.first).size && oi(m.first).size->k == K::CInt && oi(m.first).size->c <= 8) { auto it = b.mem.find(m.first); if (it == b.mem.end() || it->second == m.second) continue; if (m.second->k == K::MCell && it->second->k == K::MCell && m.second->op == it->second->op && m.second->a[1] == it->second->a[1] && cd(m.second->a[2], it->second->a[2])) return true; }
  return false;
}
// no assignment of the atoms of c makes it true (case split, bounded)
static bool refuted(T c, int &fuel) {
  if (c->k == K::CInt) return c->c == 0;
  if (--fuel < 0) return false;
  std::function<T(T)> inner = [&](T t) -> T { if (t->k == K::Ite) return t->a[0]; if (t->k == K::Red || t->k == K::All || t->ty == Ty::M) return nullptr; for (T x : t->a) if (T r = inner(x)) return r; return nullptr; };
  T at = c; for (;;) { if (at->k == K::Not) at = at->a[0]; else if (T i = inner(at)) at = i; else break; }
  return refuted(subst(c, at, cbool(true)), fuel) && refuted(subst(c, at, cbool(false)), fuel);
}
static bool mergeInto(State &a, const State &b, bool force, bool strict = true) {
  if (a.env.size() != b.env.size()) return false;
  bool keys = sameKeys(a, b);
  if (!keys && !force) return false;
  if (strict && !force && constDiverge(a, b)) return false;
  vector<T> d1, d2, common;
  { size_t i = 0, j = 0; auto &x = a.facts.l; auto &y = b.facts.l; while (i < x.size() || j < y.size()) { if (j >= y.size() || (i < x.size() && x[i]->id < y[j]->id)) d1.push_back(x[i++]); else if (i >= x.size() || y[j]->id < x[i]->id) d2.push_back(y[j++]); else { common.push_back(x[i]); i++; j++; } } }
  bool equal = true;
  for (size_t f = 0; f < a.env.size() && equal; f++) for (size_t i = 0; i < a.env[f].size(); i++) if (a.env[f][i] != b.env[f][i]) { equal = false; break; }
  if (equal) for (auto &m : a.mem) if (memOf(b, m.first) != m.second) { equal = false; break; }
  if (equal) for (auto &m : b.mem) if (!a.mem.count(m.first) && baseMem(m.first) != m.second) { equal = false; break; }
  if (equal) for (auto &h : a.heap) { auto it = b.heap.find(h.first); if (it != b.heap.end() && !h.second.freed && !(it->second == h.second)) { equal = false; break; } }
  if (equal && a.ret != b.ret) equal = false;
  T c = nullptr; bool neg = false;
  for (T l : d1) { T nl = notb(l); if (std::find(d2.begin(), d2.end(), nl) != d2.end()) { c = l; break; } }
  if (!c) for (T l : d1) { if (l->k == K::All) continue; if (evalB(l, b.facts) == NO) { c = l; break; } }
  if (!c) for (T l : d2) { if (l->k == K::All) continue; if (evalB(l, a.facts) == NO) { c = l; neg = true; break; } }
  T whole = nullptr;
  if (!c && !equal && d1.size() && d2.size() && d1.size() + d2.size() <= 10) { T x = conj(d1), y = conj(d2); int fuel = 200; if (refuted(andb(x, y), fuel)) { whole = c = d1.size() <= d2.size() ? x : y; neg = c == y && x != y; } }
  if (!c && !equal && !force) return false;
  stats.merges++;
  vector<vector<T>> alts; auto alt = [&](const State &z) { if (!z.imprecise.empty()) return; if (!z.approx) alts.push_back(z.facts.l); else if (z.altKey == factKey(z.facts)) alts.insert(alts.end(), z.alts.begin(), z.alts.end()); }; alt(a); alt(b);
  if (alts.size() > 6) alts.resize(6);
  if (!c && !equal && getenv("AIA_MRG")) { fprintf(stderr, "FORCED MERGE\n"); for (T l : d1) fprintf(stderr, "   A %s\n", str(l, 9).c_str()); for (T l : d2) fprintf(stderr, "   B %s\n", str(l, 9).c_str()); }
  Facts nf; nf.l = common;
  if (whole) nf.add(notb(andb(notb(conj(d1)), notb(conj(d2)))));
  else if (c) { vector<T> r1, r2; Facts only; only.l = {neg ? notb(c) : c}; auto keep = [&](vector<T> &r, T l) { if (l->k == K::All) { a.approx = true; return; } if (contains(l, c)) { l = resolveT(l, only); int64_t v; if (cval(l, v)) return; } r.push_back(l); };
    for (T l : d1) if (l != c) keep(r1, l); { T o = neg ? c : notb(c); only.l = {o}; for (T l : d2) if (l != o) keep(r2, l); }
    // implication-only literals are kept as a conditional fact
    if (r1.size() + r2.size() <= 12 && (r1.size() || r2.size())) { T cc = neg ? notb(c) : c; T fct = ite(cc, conj(r1), conj(r2)); nf.add(fct); } else if (r1.size() + r2.size() > 12) a.approx = true; }
  else if (!d1.empty() && !d2.empty()) a.approx = true;
  if (b.approx) a.approx = true;
  T cc = c ? (neg ? notb(c) : c) : nullptr;
  auto mv = [&](T x, T y) -> T { if (x == y) return x; if (!x || !y) return nullptr; if (cc) return x->ty == Ty::M ? mergeMem(cc, x, y, nullptr) : ite(cc, x, y); stats.forced++; a.approx = true; return x->ty == Ty::M ? mhavoc(x, joinV(Ty::V)) : joinV(x->ty); };
  for (size_t f = 0; f < a.env.size(); f++) for (size_t i = 0; i < a.env[f].size(); i++) a.env[f][i] = mv(a.env[f][i], b.env[f][i]);
  if (a.ret || b.ret) a.ret = mv(a.ret, b.ret);
  MemMap nm; for (auto &m : a.mem) nm[m.first] = mv(m.second, memOf(b, m.first)); for (auto &m : b.mem) if (!a.mem.count(m.first)) nm[m.first] = mv(memOf(a, m.first), m.second); a.mem = nm;
  for (auto &h : b.heap) { auto it = a.heap.find(h.first);
    if (it == a.heap.end()) { a.heap[h.first] = h.second; if (!h.second.freed) a.imprecise = "joined states with different live allocations"; continue; }
    if (h.second.freed != it->second.freed) { a.imprecise = "joined states with different ownership"; it->second.freed = true; continue; }
    if (it->second.freed) continue;
    it->second.mem = mv(it->second.mem, h.second.mem); it->second.size = mv(it->second.size, h.second.size); }
  if (!keys) { for (auto &h : a.heap) if (!h.second.freed && !b.heap.count(h.first)) a.imprecise = "joined states with different live allocations"; if (a.oom != b.oom) { a.imprecise = "joined allocation-failure state"; a.oom = true; } if (a.imprecise.empty()) a.imprecise = "joined families"; }
  if (!b.imprecise.empty() && a.imprecise.empty()) a.imprecise = b.imprecise;
  if (b.oom && !a.oomI) a.oomI = b.oomI;
  a.facts = nf; if (a.approx) { a.alts = alts; a.altKey = factKey(a.facts); } return true;
}
static void mergeList(vector<State> &v, size_t cap, bool force1 = false) {
  if (peelMode && !quiet && !force1) { bool symbolic = false; for (T k : kstack) if (k->k != K::CInt) symbolic = true; if (!symbolic) { thin(v, peelCap); return; } }   // single paths are followed
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size();) { if (mergeInto(v[i], v[j], false)) { v.erase(v.begin() + j); ch = true; } else j++; } }
  if (force1) cap = 1;
  size_t soft = std::min<size_t>(cap, 10);
  if (v.size() > soft) { ch = true; while (ch && v.size() > soft) { ch = false; for (size_t i = 0; i < v.size() && v.size() > soft; i++) for (size_t j = i + 1; j < v.size() && v.size() > soft;) { if (mergeInto(v[i], v[j], false, false)) { v.erase(v.begin() + j); ch = true; } else j++; } } }
  // forced: prefer merging states with equal keys
  while (v.size() > cap) {
    bool done = false; for (size_t i = 0; i < v.size() && !done; i++) for (size_t j = i + 1; j < v.size() && !done; j++) if (sameKeys(v[i], v[j])) { mergeInto(v[i], v[j], true); v.erase(v.begin() + j); done = true; }
    if (!done) { mergeInto(v[0], v[1], true); v.erase(v.begin() + 1); }
  }
}
// ------------------------------------------------------------------ substitution over states
static void substState(State &s, const std::unordered_map<T, T> &m) {
  std::unordered_map<T, T> cache; auto S = [&](T t) -> T { return t ? substM(t, m, &cache) : t; };
  for (auto &f : s.env) for (auto &t : f) t = S(t);
  s.ret = S(s.ret);
  Facts nf; for (T l : s.facts.l) nf.add(S(l)); s.facts = nf;
  MemMap nm; for (auto &x : s.mem) nm[S(x.first)] = S(x.second); s.mem = nm;
  map<T, ObjSt, LtId> nh; for (auto &x : s.heap) { ObjSt o = x.second; o.size = S(o.size); o.mem = S(o.mem); nh[S(x.first)] = o; } s.heap = nh;
  for (auto &f : s.fams) { for (auto &p : f.pre) p = S(p); f.lo = S(f.lo); f.hi = S(f.hi); f.size = S(f.size); f.mem = S(f.mem); }
}
static bool consistent(State &s) {
  for (T l : s.facts.l) { if (l->k == K::CInt && !l->c) return false; if (l->k == K::All) continue; Facts g; for (T x : s.facts.l) if (x != l) g.l.push_back(x); if (evalB(l, g) == NO) return false; }
  return true;
}
// ------------------------------------------------------------------ region execution
struct Edge { BasicBlock *from, *to; State s; };
struct LoopCtl { Loop *L; bool decided = false; };
static vector<LoopCtl> loopCtl;
static void runRegion(FnInfo &f, Loop *L, BasicBlock *entry, State s0, vector<Edge> &out, vector<State> &rets, int ctx);
static void runLoop(FnInfo &f, Loop *L, BasicBlock *from, State s0, vector<Edge> &out, vector<State> &rets, int ctx, T cut = nullptr, vector<State> *cutOut = nullptr, const State *atHead = nullptr);
static vector<State> callFn(FnInfo &f, const vector<T> &args, State s, int ctx);

static void phis(FnInfo &f, State &s, BasicBlock *from, BasicBlock *to) {
  vector<pair<PHINode *, T>> v; for (auto &I : *to) { auto *P = dyn_cast<PHINode>(&I); if (!P) break; Value *iv = P->getIncomingValueForBlock(from); v.push_back({P, val(f, s, iv)}); }
  for (auto &x : v) setV(f, s, x.first, x.second);
}
static bool narrowBits(const Value *) { return false; }
// symbolic value of a comparison
static T cmpT(CmpInst::Predicate p, T a, T b, unsigned w) {
  auto Z = [&](T t) { return zextT(t, w); };
  switch (p) {
    case CmpInst::ICMP_EQ: return eq0(sub(a, b)); case CmpInst::ICMP_NE: return notb(eq0(sub(a, b)));
    case CmpInst::ICMP_SLT: return lt0(sub(a, b)); case CmpInst::ICMP_SGE: return notb(lt0(sub(a, b)));
    case CmpInst::ICMP_SGT: return lt0(sub(b, a)); case CmpInst::ICMP_SLE: return notb(lt0(sub(b, a)));
    case CmpInst::ICMP_ULT: return lt0(sub(Z(a), Z(b))); case CmpInst::ICMP_UGE: return notb(lt0(sub(Z(a), Z(b))));
    case CmpInst::ICMP_UGT: return lt0(sub(Z(b), Z(a))); case CmpInst::ICMP_ULE: return notb(lt0(sub(Z(b), Z(a))));
    default: throw Abort{"icmp"};
  }
}
static double fvv(T t) { double d; memcpy(&d, &t->c, 8); return d; }
static T fc(int op, T a, T b) {
  if (a->k == K::CFP && b->k == K::CFP) { double x = fvv(a), y = fvv(b); return cbool(op == FP_OLT ? x < y : op == FP_OLE ? x <= y : op == FP_OEQ ? x == y : op == FP_ONE ? (x < y || x > y) : (x == x && y == y)); }
  if ((op == FP_OEQ || op == FP_ONE || op == FP_ORD) && b->id < a->id) std::swap(a, b);
  return mk(K::FCmp, Ty::I1, op, 0, {a, b});
}
static T fcmpT(CmpInst::Predicate p, T a, T b) {
  switch (p) {
    case CmpInst::FCMP_OLT: return fc(FP_OLT, a, b); case CmpInst::FCMP_OGT: return fc(FP_OLT, b, a);
    case CmpInst::FCMP_OLE: return fc(FP_OLE, a, b); case CmpInst::FCMP_OGE: return fc(FP_OLE, b, a);
    case CmpInst::FCMP_OEQ: return fc(FP_OEQ, a, b); case CmpInst::FCMP_ONE: return fc(FP_ONE, a, b);
    case CmpInst::FCMP_UNE: return notb(fc(FP_OEQ, a, b)); case CmpInst::FCMP_UEQ: return notb(fc(FP_ONE, a, b));
    case CmpInst::FCMP_ULT: return notb(fc(FP_OLE, b, a)); case CmpInst::FCMP_UGT: return notb(fc(FP_OLE, a, b));
    case CmpInst::FCMP_ULE: return notb(fc(FP_OLT, b, a)); case CmpInst::FCMP_UGE: return notb(fc(FP_OLT, a, b));
    case CmpInst::FCMP_ORD: return fc(FP_ORD, a, b); case CmpInst::FCMP_UNO: return notb(fc(FP_ORD, a, b));
    case CmpInst::FCMP_TRUE: return cbool(true); case CmpInst::FCMP_FALSE: return cbool(false); default: throw Abort{"fcmp"};
  }
}
T i2f(T a, int bits, bool sgn, Ty ty) {
  if (!sgn) a = zextT(a, bits);
  int64_t v; if (cval(a, v)) { double d = (double)v; if (ty == Ty::F32) d = (float)v; return cfp(ty, d); }
  if (a->k == K::Ite) return ite(a->a[0], i2f(a->a[1], bits, true, ty), i2f(a->a[2], bits, true, ty));
  return mk(K::Op, ty, O_I2F, 0, {a});
}
T f2i(T a, int bits, bool sgn) {
  if (a->k == K::CFP) { double d = fvv(a); if (std::fabs(d) < 9e18) return cint((int64_t)d); }
  if (a->k == K::Op && a->op == O_I2F) { Rng r = range(a->a[0]); __int128 lim = a->ty == Ty::F64 ? ((__int128)1 << 53) : ((__int128)1 << 24); if (r.lo >= -lim && r.hi <= lim) { __int128 lo = sgn ? -((__int128)1 << (bits - 1)) : 0, hi = sgn ? ((__int128)1 << (bits - 1)) - 1 : ((__int128)1 << bits) - 1; if (r.lo >= lo && r.hi <= hi) return truncT(a->a[0], bits); } }
  T o = mk(K::Op, Ty::I64, sgn ? O_F2SI : O_F2UI, bits, {a});
  // rounding of a double quotient of integers below 2^50 agrees with exact integer division
  if (sgn && a->ty == Ty::F64) { T q = a; int md = 0; if (q->k == K::Op && q->op == O_CALL && q->a.size() == 2) { const string &n = nameOf(q->a[0]->op); md = n == "ceil" ? 1 : n == "floor" ? 2 : n == "trunc" ? 0 : -1; q = q->a[1]; }
    // an integral summand moves outside the rounding
    int64_t ic = 0; auto ci = [](T u, int64_t &v) { if (u->k != K::CFP || fvv(u) != std::trunc(fvv(u)) || std::fabs(fvv(u)) > 1e6) return false; v = (int64_t)fvv(u); return true; };
    while (md > 0 && q->k == K::Op && (q->op == O_FADD || q->op == O_FSUB)) { int64_t v; if (ci(q->a[1], v)) { ic += q->op == O_FADD ? v : -v; q = q->a[0]; } else if (q->op == O_FADD && ci(q->a[0], v)) { ic += v; q = q->a[1]; } else break; }
    // sums and products of integers are exact in a double (sizes below 2^50)
    std::function<T(T)> asInt = [&](T u) -> T { if (u->k == K::Op && u->op == O_I2F) return u->a[0]; if (u->k == K::CFP && fvv(u) == std::trunc(fvv(u)) && std::fabs(fvv(u)) < 1e15) return cint((int64_t)fvv(u));
      if (u->k == K::Op && (u->op == O_FADD || u->op == O_FSUB || u->op == O_FMUL)) { T x = asInt(u->a[0]), y = asInt(u->a[1]); if (!x || !y) return nullptr; return u->op == O_FADD ? add(x, y) : u->op == O_FSUB ? sub(x, y) : mul(x, y); } return nullptr; };
    if (md >= 0 && q->k == K::Op && q->op == O_FDIV && asInt(q->a[0]) && asInt(q->a[1])) {
      T x = asInt(q->a[0]), y = asInt(q->a[1]); Rng rx = range(x), ry = range(y); __int128 lim = (__int128)1 << (ic ? 40 : 50);
      if ((q->a[0]->op != O_I2F || (rx.lo >= -lim && rx.hi <= lim)) && ry.lo >= -lim && ry.hi <= lim) { T t = sdivT(x, y), r;
        if (md == 0) r = t; else if (md == 1) r = ite(lt0(mulc(x, -1)), sdivT(addc(add(x, y), -1), y), t); else r = ite(lt0(x), mulc(sdivT(addc(sub(y, x), -1), y), -1), t);
        return ite(lt0(mulc(y, -1)), addc(r, ic), o); } } }
  return o;
}
static T feval(int op, Ty ty, T a, T b) {
  if (a->k == K::CFP && b->k == K::CFP) { double x = fvv(a), y = fvv(b), r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y; if (ty == Ty::F32) r = (float)r; return cfp(ty, r); }
  if (op == O_FDIV && b->k == K::CFP && fvv(b) == 1.0) return a;
  if (op == O_FMUL && b->k == K::CFP && fvv(b) == 1.0) return a; if (op == O_FMUL && a->k == K::CFP && fvv(a) == 1.0) return b;
  return fop(op, ty, a, b);
}
static T fnCall(const string &n, Ty ty, vector<T> a) {
  if ((n == "ceil" || n == "floor" || n == "trunc" || n == "round") && a[0]->k == K::Op && a[0]->op == O_I2F) return a[0];
  if ((n == "ceil" || n == "floor") && a[0]->k == K::CFP) return cfp(ty, n == "ceil" ? std::ceil(fvv(a[0])) : std::floor(fvv(a[0])));
  return callT(n, ty, a);
}
struct Split { T cond; };  // request to fork a state on a condition
// resolve pointer to (obj,off) or report
enum PtrRes { P_OK, P_DEAD, P_UNK };
static PtrRes resolvePtr(State &s, T p, const Instruction *I, T &obj, T &off, const char *what) {
  if (p->k == K::Ite) { Tri t = evalB(p->a[0], s.facts); if (t == YES) return resolvePtr(s, p->a[1], I, obj, off, what); if (t == NO) return resolvePtr(s, p->a[2], I, obj, off, what); throw Split{p->a[0]}; }
  if (p->k == K::Null) { ev(s.oom ? "oom-null-deref" : "null-deref", I, string(what) + " through a null pointer" + (s.oom && s.oomI ? " after the allocation at " + locOf(s.oomI) + " failed" : ""), &s); return P_DEAD; }
  if (p->k == K::Undef) { ev("uninit-deref", I, string(what) + " through an uninitialised pointer", &s); return P_DEAD; }
  if (p->k == K::Ptr) { obj = p->a[0]; off = p->a[1]; return P_OK; }
  if (p->k == K::Load && hasUndef(p)) { ev("uninit-deref", I, string(what) + " through a pointer read from uninitialised storage " + str(p, 3), &s); return P_DEAD; }
  return P_UNK;
}
static bool access(State &s, T obj, T off, T len, bool wr, const Instruction *I, bool &dead) {
  dead = false; stats.accesses++;
  ObjInfo &o = oi(obj);
  if (o.kind == OK::Heap) { ObjSt *h = touch(s, obj); if (!h) { s.imprecise = "access to untracked heap object"; return false; }
    if (h->freed) { ev("use-after-free", I, string(wr ? "write" : "read") + " of memory allocated at " + locOf(h->ai) + " after it was released at " + locOf(h->fi), &s); dead = true; return false; } }
  if (wr) { if (o.input) ev("write-input", I, "write into caller-owned " + o.name, &s); if (o.userArray) ev("write-input", I, "write into caller array " + o.name, &s); if (o.kind == OK::Global) ev("write-global", I, "write to global " + o.name, &s); }
  T size = sizeOf(s, obj); if (!size) { stats.accUnknown++; return true; }
  if (hasUndef(off)) evUndef("uninit-address", I, string(wr ? "write" : "read") + " of " + o.name + " at an address computed from an uninitialised value", s, off);
  T over = sub(add(off, len), size);  // must be <= 0
  bool okHi = range(over).hi <= 0 || proveLE0(over, s.facts), okLo = nonneg(off) || proveLE0(mulc(off, -1), s.facts);
  if (getenv("AIA_ACC") && (!(okHi && okLo) || *getenv("AIA_ACC") == '2')) printf("ACC %s %s %d %d over %s off %s\n", locOf(I).c_str(), o.name.c_str(), okHi, okLo, str(over, 8).c_str(), str(off, 8).c_str());
  if (okHi && okLo) { stats.accProved++; return true; }
  if (!okHi) ev("out-of-bounds", I, string(wr ? "write" : "read") + " at byte offset " + str(off, 5) + " of " + o.name + " whose size is " + str(size, 5) + " bytes", &s, {lt0(mulc(over, -1))});
  if (!okLo) ev("out-of-bounds", I, string(wr ? "write" : "read") + " at negative byte offset " + str(off, 5) + " of " + o.name, &s, {lt0(off)});
  stats.accUnknown++; return true;
}
static T loadRaw(State &s, T obj, T off, Ty ty) {
  ObjInfo &o = oi(obj);
  if (o.kind == OK::Global) { bool ok; T v = readGlobal(obj, off, ty, ok); if (ok) return v; if (s.mem.count(obj)) return readMem(s.mem[obj], off, ty, &s.facts); return mk(K::Load, ty, 0, 0, {mbase(obj), off}); }
  return readMem(memOf(s, obj), off, ty, &s.facts);
}
T loadAt(State &s, T p, int64_t off, Ty ty) {
  if (p->k == K::Ite) { T a = loadAt(s, p->a[1], off, ty), b = loadAt(s, p->a[2], off, ty); return a && b ? ite(p->a[0], a, b) : nullptr; }
  if (p->k != K::Ptr) return nullptr; if (oi(p->a[0]).kind == OK::Heap && !touch(s, p->a[0])) return nullptr; return loadRaw(s, p->a[0], addc(p->a[1], off), ty);
}
static T opaqueCall(const string &n, Ty ty, const Instruction *I, int ctx) {
  vector<T> a{mk(K::Fn, Ty::P, nameId(n), 0, {})}; a.insert(a.end(), kstack.begin(), kstack.end()); return mk(K::Op, ty, O_IMPURE, ctxOf(ctx, I), a);
}
static const set<string> pureFns = {"sqrt", "exp", "tanh", "floor", "ceil", "fabs", "pow", "log", "sin", "cos", "tan", "fmax", "fmin", "sqrtf", "expf", "tanhf", "floorf", "ceilf", "fabsf", "powf", "logf", "strcmp", "strncmp", "strlen", "fmod", "exp2", "log2", "log10", "round", "trunc", "fmaxf", "fminf", "sinh", "cosh", "expm1", "log1p", "cbrt", "lround", "abs", "labs", "memcmp"};
// a size-dependent quantity squeezed into fewer bits than it needs
// an extent of an argument tensor, alone or in a sum
static bool growsWithExtent(T a) { if (isExtent(a)) return true; if (a->k == K::Poly) for (size_t i = 0; i < a->a.size(); i++) if (a->co[i] > 0 && isExtent(a->a[i])) return true; return false; }
static void narrowChk(State &s, T a, unsigned bits, const Instruction *I, bool uns) {
  if (quiet || bits >= 64 || bits < 8) return; stats.narrow++; Rng r = range(a); __int128 hi = uns ? (((__int128)1) << bits) - 1 : (((__int128)1) << (bits - 1)) - 1;
  bool one = bits <= 32 && growsWithExtent(a);   // a single extent may already exceed 32 bits
  if (r.hi <= hi && !one) return;
  bool sz = false; if (containsIf(a, [&](T u) { if (u->k == K::Sym && u->ty == Ty::I64 && nameOf(u->op).rfind("pos:", 0) == 0) sz = true; return u->k == K::Load || isFP(u->ty); }) || !sz) return;
  ev("narrow-value", I, "the size-dependent value " + str(a, 5) + " does not fit in " + std::to_string(bits) + " bits", &s, {mk(K::LT0, Ty::I1, 0, 0, {addc(mulc(a, -1), (int64_t)hi)})}, 1);   // built as is: the range of an extent would decide it
}
// a size carried through a floating type that cannot hold every value of it
static void roundChk(State &s, T v, const Instruction *I) {
  if (quiet) return; T f = v; while (f->k == K::Op && (f->op == O_FEXT || f->op == O_FTRUNC)) f = f->a[0];
  if (f->k != K::Op || f->op != O_I2F) return; T x = f->a[0]; bool sgl = false; for (T q = v;; q = q->a[0]) { if (q->ty == Ty::F32) sgl = true; if (q == f) break; }
  int64_t cap = sgl ? (int64_t)1 << 24 : (int64_t)1 << 53; stats.narrow++; if (range(x).hi <= cap) return;
  bool sz = false; if (containsIf(x, [&](T u) { if (u->k == K::Sym && u->ty == Ty::I64 && nameOf(u->op).rfind("pos:", 0) == 0) sz = true; return u->k == K::Load || isFP(u->ty); }) || !sz) return;
  ev("narrow-value", I, "the size-dependent value " + str(x, 5) + " passes through a " + (sgl ? "float" : "double") + ", which does not hold every value of it", &s, {mk(K::LT0, Ty::I1, 0, 0, {addc(mulc(x, -1), cap)})}, 1);
}
bool retStatus(const Function *F) {  // declared to return the library's Status type
  auto *sp = F->getSubprogram(); if (!sp || !sp->getType()) return false; auto a = sp->getType()->getTypeArray(); if (a.size() == 0) return false; DIType *t = a[0];
  while (t) { if (t->getName() == "Status") return true; auto *d = dyn_cast<DIDerivedType>(t); if (!d) break; t = d->getBaseType(); } return false;
}
static bool evalInst(FnInfo &f, State &s, Instruction *I, int ctx, vector<State> &multi);

// a divisor computed from extents, positions or index arguments (element values excepted: their division traps by definition)
static void divisorChk(State &s, T b, const Instruction *I) {
  if (range(b).lo >= 1 || range(b).hi <= -1 || hasUndef(b)) return; b = resolveT(b, s.facts); T z = eq0(b);
  if (containsIf(b, [](T u) { return u->k == K::Load; })) return;
  if (evalB(z, s.facts) == NO) return; ev("div-by-zero", I, "division by " + str(b, 5) + ", which can be zero", &s, {z}, 0);
}
static T arith(Instruction *I, T a, T b) {
  unsigned w = I->getType()->getIntegerBitWidth(); bool nsw = false; if (auto *o = dyn_cast<OverflowingBinaryOperator>(I)) nsw = o->hasNoSignedWrap();
  auto W = [&](T t) { return (nsw || w >= 64) ? t : truncT(t, w); };
  if (a->k == K::Undef || b->k == K::Undef) return undef(tyOf(I->getType()));
  int64_t x, y; bool ca = cval(a, x), cb = cval(b, y); (void)ca;
  switch (I->getOpcode()) {
    case Instruction::Add: return W(add(a, b)); case Instruction::Sub: return W(sub(a, b)); case Instruction::Mul: return W(mul(a, b));
    case Instruction::SDiv: return sdivT(a, b); case Instruction::SRem: return sremT(a, b);
    case Instruction::UDiv: return truncT(sdivT(zextT(a, w), zextT(b, w)), w); case Instruction::URem: return truncT(sremT(zextT(a, w), zextT(b, w)), w);
    case Instruction::Shl: if (cb && y >= 0 && y < 62) return W(mulc(a, 1LL << y)); break;
    case Instruction::And:
      if (w == 1) return andb(a, b); if (ca && cb) return cint(x & y); if (ca) { std::swap(a, b); std::swap(x, y); cb = true; }
      if (cb) { if (y == 0) return cint(0); if (y == -1) return a; for (int k : {1, 8, 16, 32}) if (y == (1LL << k) - 1) return k == 1 ? ite(truncT(a, 1), cint(1), cint(0)) : zextT(truncT(a, k), k); } break;
    case Instruction::Or: if (w == 1) return orb(a, b); if (ca && cb) return cint(x | y); if (cb && y == 0) return a; if (ca && x == 0) return b; break;
    case Instruction::Xor: if (w == 1) { if (cb) return y ? notb(a) : a; return ite(a, notb(b), b); } if (ca && cb) return cint(x ^ y); if (cb && y == -1) return addc(mulc(a, -1), -1); break;
    case Instruction::LShr: if (ca && cb && y >= 0 && y < 64) { uint64_t u = w >= 64 ? (uint64_t)x : ((uint64_t)x & ((1ULL << w) - 1)); return truncT(cint((int64_t)(u >> y)), w); } if (cb && y > 0 && y < 62 && nonneg(a)) return sdivT(a, cint(1LL << y)); break;
    case Instruction::AShr: if (ca && cb && y >= 0 && y < 64) return cint(x >> y); if (cb && y >= 0 && y < 62 && nonneg(a)) return sdivT(a, cint(1LL << y)); break;
  }
  int op = I->getOpcode() == Instruction::And ? O_AND : I->getOpcode() == Instruction::Or ? O_OR : I->getOpcode() == Instruction::Xor ? O_XOR : I->getOpcode() == Instruction::Shl ? O_SHL : I->getOpcode() == Instruction::LShr ? O_LSHR : O_ASHR;
  return mk(K::Op, tyOf(I->getType()), op, w, {a, b});
}
static T ptrCmp(State &s, T a, T b, CmpInst::Predicate p) {
  bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
  if (a->k == K::Null) std::swap(a, b);
  if (eq || ne) {
    T r = nullptr;
    if (b->k == K::Null) r = isnull(a);
    else if (a == b) r = cbool(true);
    else if (a->k == K::Ptr && b->k == K::Ptr) { if (a->a[0] == b->a[0]) r = eq0(sub(a->a[1], b->a[1])); else if (a->a[0]->c != b->a[0]->c) r = cbool(false); }
    else if (a->k == K::Fn && b->k == K::Fn) r = cbool(a == b);
    if (!r) { vector<T> v{a, b}; if (b->id < a->id) std::swap(v[0], v[1]); r = mk(K::BOp, Ty::I1, 1, 0, v); }
    return eq ? r : notb(r);
  }
  if (a->k == K::Ptr && b->k == K::Ptr && a->a[0] == b->a[0]) { CmpInst::Predicate q = p; switch (p) { case CmpInst::ICMP_ULT: q = CmpInst::ICMP_SLT; break; case CmpInst::ICMP_ULE: q = CmpInst::ICMP_SLE; break; case CmpInst::ICMP_UGT: q = CmpInst::ICMP_SGT; break; case CmpInst::ICMP_UGE: q = CmpInst::ICMP_SGE; break; default: break; } return cmpT(q, a->a[1], b->a[1], 64); }
  return mk(K::BOp, Ty::I1, (int)p, 0, {a, b});
}
static void storeTo(State &s, T obj, T off, T v, Ty ty, const Instruction *I) {
  if (oi(obj).kind == OK::Global && s.imprecise.empty()) { }
  T m = memOf(s, obj);
  setMem(s, obj, mcell(m, off, v, ty));
}
static void doAlloc(FnInfo &f, State &s, Instruction *I, T size, bool libc, bool zero, int ctx, vector<State> &multi) {
  stats.allocs++;
  if (!s.oom && forkOOM) { State n = s; n.oom = true; n.oomI = I; setV(f, n, I, nullp()); multi.push_back(std::move(n)); }
  int o = siteObj(ctx, I, OK::Heap); T ob = objT(o, kstack);
  if (libc) ev("libc-alloc", I, "memory obtained from the C library instead of the installed allocator", &s);
  { auto it = s.heap.find(ob); if (it != s.heap.end() && !it->second.freed) s.imprecise = "allocation identity reused"; }
  ObjSt st; st.size = size; st.ai = I; st.libc = libc; st.mem = mbase(ob);
  if (zero) { static int z = -1; if (z < 0) { z = newObj(OK::Global, "zero"); objs[z].zero = true; } st.mem = mcopy(mbase(ob), cint(0), size, mbase(objT(z)), cint(0)); }
  s.heap[ob] = st; setV(f, s, I, mkptr(ob, cint(0))); multi.push_back(std::move(s));
}
// returns false if state dies
static bool doFree(State &s, T p, const Instruction *I, bool libc) {
  stats.frees++;
  if (p->k == K::Ite) { Tri t = evalB(p->a[0], s.facts); if (t == YES) return doFree(s, p->a[1], I, libc); if (t == NO) return doFree(s, p->a[2], I, libc); throw Split{p->a[0]}; }
  if (p->k == K::Null) return true;
  if (p->k == K::Undef || (p->k == K::Load && hasUndef(p))) { ev("free-uninit", I, "release of an uninitialised pointer", &s); return false; }
  if (p->k != K::Ptr) { s.imprecise = "release of an unresolved pointer"; return true; }
  T o = p->a[0]; ObjInfo &oinf = oi(o);
  if (libc) ev("libc-free", I, "memory released through the C library instead of the installed allocator", &s);
  if (oinf.input || oinf.userArray || oinf.kind == OK::Param) { ev("free-input", I, "release of caller-owned " + oinf.name, &s); return false; }
  if (oinf.kind != OK::Heap) { ev("free-nonheap", I, "release of non-heap object " + oinf.name, &s); return false; }
  if (!isC(p->a[1], 0)) { if (p->a[1]->k == K::CInt) { ev("free-nonheap", I, "release of an interior pointer", &s); return false; } s.imprecise = "release at symbolic offset"; }
  ObjSt *h = touch(s, o); if (!h) { s.imprecise = "release of untracked heap object"; return true; }
  if (h->freed) { ev("double-free", I, "memory allocated at " + locOf(h->ai) + " is released again (first released at " + locOf(h->fi) + ")", &s); return false; }
  if (h->libc != libc) ev("allocator-mismatch", I, string("memory from ") + (h->libc ? "the C library" : "the installed allocator") + " released through the other one", &s);
  h->freed = true; h->fi = I; h->mem = mbase(o); return true;
}
// copy len bytes
static void doCopy(FnInfo &f, State &s, T dst, T src, T len, const Instruction *I, bool &dead) {
  dead = false; int64_t n; T so, sf, dob, df;
  if (cval(len, n) && n == 0) return;
  PtrRes r1 = resolvePtr(s, src, I, so, sf, "memcpy read"), r2 = P_OK; if (r1 != P_DEAD) r2 = resolvePtr(s, dst, I, dob, df, "memcpy write");
  if (r1 == P_DEAD || r2 == P_DEAD) { dead = true; return; }
  if (r1 == P_OK) { access(s, so, sf, len, false, I, dead); if (dead) return; }
  if (r2 == P_OK) { access(s, dob, df, len, true, I, dead); if (dead) return; } else { s.imprecise = "memcpy to an unresolved pointer"; return; }
  if (r1 != P_OK) { setMem(s, dob, mhavoc(memOf(s, dob), joinV(Ty::V))); return; }
  if (cval(len, n) && (n == 1 || n == 2 || n == 4 || n == 8)) { storeTo(s, dob, df, loadRaw(s, so, sf, intTy(n)), intTy(n), I); return; }
  T sm = oi(so).kind == OK::Global ? nullptr : memOf(s, so);
  if (!sm) { if (cval(len, n) && n <= 512 && n % 8 == 0) { for (int64_t i = 0; i < n; i += 8) storeTo(s, dob, addc(df, i), loadRaw(s, so, addc(sf, i), Ty::I64), Ty::I64, I); return; }
    if (cval(len, n) && n <= 512 && n % 4 == 0) { for (int64_t i = 0; i < n; i += 4) storeTo(s, dob, addc(df, i), loadRaw(s, so, addc(sf, i), Ty::I32), Ty::I32, I); return; }
    sm = mbase(so); }
  setMem(s, dob, mcopy(memOf(s, dob), df, len, sm, sf));
}
static bool fork(State &s, T c, vector<State> &multi) {  // push both alternatives
  stats.forks++; State a = s, b = s; bool x = assume(c, a.facts), y = assume(notb(c), b.facts); if (x) multi.push_back(std::move(a)); if (y) multi.push_back(std::move(b)); return x || y;
}
// Executes one non-terminator. Returns true if `s` simply continues; otherwise `multi` holds continuation states
// (re = true: they must re-execute I).
static bool step(FnInfo &f, State &s, Instruction *I, int ctx, vector<State> &multi, bool &re) {
  re = false;
  if (++stats.steps > stepLimit) throw Abort{"step budget exhausted"};
  try {
    switch (I->getOpcode()) {
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(I); T n = val(f, s, A->getArraySize()); int o = siteObj(ctx, I, OK::Alloca); T ob = objT(o, kstack); T sz = mulc(n, theM->getDataLayout().getTypeAllocSize(A->getAllocatedType())); objs[o].size = sz; s.mem[ob] = mbase(ob); setV(f, s, I, mkptr(ob, cint(0))); return true; }
      case Instruction::Load: { T p = val(f, s, cast<LoadInst>(I)->getPointerOperand()), ob, of; Ty ty = tyOf(I->getType()); PtrRes r = resolvePtr(s, p, I, ob, of, "read");
        if (r == P_DEAD) return false; if (r == P_UNK) { setV(f, s, I, mk(K::Op, ty, O_UNK, 100, {p})); return true; }
        bool dead; access(s, ob, of, cint(tyBytes(ty)), false, I, dead); if (dead) return false;
        if (oi(ob).kind == OK::Global && !oi(ob).constTab && (ty != Ty::P || !isAllocatorG(ob))) ev("read-global", I, "result depends on mutable global " + oi(ob).name, &s);
        setV(f, s, I, loadRaw(s, ob, of, ty)); return true; }
      case Instruction::Store: { auto *S = cast<StoreInst>(I); T p = val(f, s, S->getPointerOperand()), v = val(f, s, S->getValueOperand()), ob, of; Ty ty = tyOf(S->getValueOperand()->getType());
        PtrRes r = resolvePtr(s, p, I, ob, of, "write"); if (r == P_DEAD) return false; if (r == P_UNK) { s.imprecise = "write through an unresolved pointer at " + locOf(I); return true; }
        bool dead; access(s, ob, of, cint(tyBytes(ty)), true, I, dead); if (dead) return false;
        if (oi(ob).kind == OK::Heap && !s.heap.count(ob)) return true;
        if (v->ty == Ty::I1) v = ite(v, cint(1), cint(0));
        storeTo(s, ob, of, v, ty, I); return true; }
      case Instruction::GetElementPtr: { auto *G = cast<GetElementPtrInst>(I); T p = val(f, s, G->getPointerOperand()); MapVector<Value *, APInt> vo; APInt co(64, 0); if (!cast<GEPOperator>(G)->collectOffset(theM->getDataLayout(), 64, vo, co)) throw Abort{"gep"};
        T off = cint(co.getSExtValue()); for (auto &x : vo) off = add(off, mulc(val(f, s, x.first), x.second.getSExtValue()));
        std::function<T(T)> g = [&](T q) -> T { if (q->k == K::Ptr) return mkptr(q->a[0], add(q->a[1], off)); if (q->k == K::Ite) return ite(q->a[0], g(q->a[1]), g(q->a[2])); if (isC(off, 0)) return q; if (q->k == K::Null || q->k == K::Undef) return q; return mk(K::Op, Ty::P, O_UNK, 101, {q, off}); };
        setV(f, s, I, g(p)); return true; }
      case Instruction::ICmp: { auto *C = cast<ICmpInst>(I); T a = val(f, s, C->getOperand(0)), b = val(f, s, C->getOperand(1));
        if (a->k == K::Undef || b->k == K::Undef || hasUndef(a) || hasUndef(b)) { setV(f, s, I, mk(K::Op, Ty::I1, O_UNK, 102, {undef(Ty::I1), a, b})); return true; }
        if (C->getOperand(0)->getType()->isPointerTy()) { setV(f, s, I, ptrCmp(s, a, b, C->getPredicate())); return true; }
        unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth();
        if (w == 1) { T x = ite(a, b, notb(b)); setV(f, s, I, C->getPredicate() == CmpInst::ICMP_EQ ? x : notb(x)); return true; }
        setV(f, s, I, cmpT(C->getPredicate(), a, b, w)); return true; }
      case Instruction::FCmp: { auto *C = cast<FCmpInst>(I); setV(f, s, I, fcmpT(C->getPredicate(), val(f, s, C->getOperand(0)), val(f, s, C->getOperand(1)))); return true; }
      case Instruction::FAdd: setV(f, s, I, feval(O_FADD, tyOf(I->getType()), val(f, s, I->getOperand(0)), val(f, s, I->getOperand(1)))); return true;
      case Instruction::FSub: setV(f, s, I, feval(O_FSUB, tyOf(I->getType()), val(f, s, I->getOperand(0)), val(f, s, I->getOperand(1)))); return true;
      case Instruction::FMul: setV(f, s, I, feval(O_FMUL, tyOf(I->getType()), val(f, s, I->getOperand(0)), val(f, s, I->getOperand(1)))); return true;
      case Instruction::FDiv: setV(f, s, I, feval(O_FDIV, tyOf(I->getType()), val(f, s, I->getOperand(0)), val(f, s, I->getOperand(1)))); return true;
      case Instruction::FNeg: setV(f, s, I, fneg(val(f, s, I->getOperand(0)))); return true;
      case Instruction::SExt: { T a = val(f, s, I->getOperand(0)); if (a->ty == Ty::I1) a = ite(a, cint(-1), cint(0)); setV(f, s, I, a->k == K::Undef ? undef(tyOf(I->getType())) : a); return true; }
      case Instruction::ZExt: { T a = val(f, s, I->getOperand(0)); unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth(); setV(f, s, I, a->k == K::Undef ? undef(tyOf(I->getType())) : zextT(a, w)); return true; }
      case Instruction::Trunc: { T a = val(f, s, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); setV(f, s, I, a->k == K::Undef ? undef(tyOf(I->getType())) : truncT(a, w)); if (a->k != K::Undef) narrowChk(s, a, w, I, false); return true; }
      case Instruction::SIToFP: { T a = val(f, s, I->getOperand(0)); setV(f, s, I, i2f(a, I->getOperand(0)->getType()->getIntegerBitWidth(), true, tyOf(I->getType()))); return true; }
      case Instruction::UIToFP: { T a = val(f, s, I->getOperand(0)); setV(f, s, I, i2f(a, I->getOperand(0)->getType()->getIntegerBitWidth(), false, tyOf(I->getType()))); return true; }
      case Instruction::FPToSI: { roundChk(s, val(f, s, I->getOperand(0)), I); T v = f2i(val(f, s, I->getOperand(0)), I->getType()->getIntegerBitWidth(), true); setV(f, s, I, containsIf(v, [](T u) { return u->k == K::Ite; }) ? resolveT(v, s.facts) : v); return true; }
      case Instruction::FPToUI: setV(f, s, I, f2i(val(f, s, I->getOperand(0)), I->getType()->getIntegerBitWidth(), false)); return true;
      case Instruction::FPExt: { T a = val(f, s, I->getOperand(0)); if (a->k == K::CFP) setV(f, s, I, cfp(Ty::F64, fvv(a))); else setV(f, s, I, mk(K::Op, tyOf(I->getType()), O_FEXT, 0, {a})); return true; }
      case Instruction::FPTrunc: { T a = val(f, s, I->getOperand(0)); if (a->k == K::CFP) setV(f, s, I, cfp(Ty::F32, (float)fvv(a))); else if (a->k == K::Op && a->op == O_FEXT) setV(f, s, I, a->a[0]); else setV(f, s, I, mk(K::Op, tyOf(I->getType()), O_FTRUNC, 0, {a})); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: setV(f, s, I, bitcast(val(f, s, I->getOperand(0)), tyOf(I->getType()))); return true;
      case Instruction::Freeze: setV(f, s, I, val(f, s, I->getOperand(0))); return true;
      case Instruction::Select: { T c = val(f, s, I->getOperand(0)); Tri t = c->k == K::CInt ? MAYBE : evalB(c, s.facts); setV(f, s, I, t == YES ? val(f, s, I->getOperand(1)) : t == NO ? val(f, s, I->getOperand(2)) : ite(c, val(f, s, I->getOperand(1)), val(f, s, I->getOperand(2)))); return true; }
      case Instruction::Call: break;
      default:
        if (I->isBinaryOp() && I->getType()->isIntegerTy()) { if (!quiet && (I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem || I->getOpcode() == Instruction::UDiv || I->getOpcode() == Instruction::URem)) divisorChk(s, val(f, s, I->getOperand(1)), I); T r = arith(I, val(f, s, I->getOperand(0)), val(f, s, I->getOperand(1))); if (r->k == K::Op && (r->op == O_DIV || r->op == O_REM)) r = resolveT(r, s.facts); setV(f, s, I, r); if (auto *o = dyn_cast<OverflowingBinaryOperator>(I)) if (o->hasNoSignedWrap()) narrowChk(s, r, I->getType()->getIntegerBitWidth(), I, false); return true; }
        throw Abort{string("unsupported instruction ") + I->getOpcodeName()};
    }
    // ---- calls
    auto *C = cast<CallInst>(I); if (isa<DbgInfoIntrinsic>(C)) return true;
    string name; Function *callee = C->getCalledFunction();
    if (callee) name = callee->getName().str();
    else { T p = val(f, s, C->getCalledOperand()); std::function<T(T)> rp = [&](T q) -> T { if (q->k == K::Ite) { Tri t = evalB(q->a[0], s.facts); if (t == YES) return rp(q->a[1]); if (t == NO) return rp(q->a[2]); throw Split{q->a[0]}; } return q; }; p = rp(p);
      if (getenv("AIA_FN")) printf("FN %s\n", str(p, 6).c_str());
      if (p->k == K::Load && p->a[0]->k == K::MBase && oi(p->a[0]->a[0]).kind == OK::Global && !isAllocatorG(p->a[0]->a[0]) && C->arg_size() == 1) {   // the pair was remembered elsewhere
        bool al = I->getType()->isPointerTy() && C->getArgOperand(0)->getType()->isIntegerTy(64), fr = I->getType()->isVoidTy() && C->getArgOperand(0)->getType()->isPointerTy();
        if (al || fr) ev("allocator-stale", I, string("memory is ") + (al ? "obtained" : "released") + " through a function pointer remembered in " + oi(p->a[0]->a[0]).name + " instead of the installed allocator", nullptr); }
      if (p->k != K::Fn) { s.imprecise = "unresolved indirect call at " + locOf(I) + " " + str(p, 4); if (!I->getType()->isVoidTy()) setV(f, s, I, joinV(tyOf(I->getType()))); return true; }
      name = nameOf(p->op); callee = theM->getFunction(name); }
    stats.callsResolved++;
    auto arg = [&](unsigned i) { return val(f, s, C->getArgOperand(i)); };
    Ty rty = tyOf(I->getType()); bool vd = I->getType()->isVoidTy();
    if (name.rfind("__uninit.", 0) == 0) { setV(f, s, I, undef(rty)); return true; }
    if (name == "@raw_alloc") { doAlloc(f, s, I, arg(0), false, false, ctx, multi); return false; }
    if (name == "malloc") { doAlloc(f, s, I, arg(0), true, false, ctx, multi); return false; }
    if (name == "calloc") { doAlloc(f, s, I, mul(arg(0), arg(1)), true, true, ctx, multi); return false; }
    if (name == "@raw_dealloc") return doFree(s, arg(0), I, false);
    if (name == "free") return doFree(s, arg(0), I, true);
    if (auto *MI = dyn_cast<MemTransferInst>(C)) { bool dead; doCopy(f, s, arg(0), arg(1), arg(2), I, dead); return !dead; }
    if (name == "memcpy" || name == "memmove") { bool dead; doCopy(f, s, arg(0), arg(1), arg(2), I, dead); if (!dead && !vd) setV(f, s, I, arg(0)); return !dead; }
    if (isa<MemSetInst>(C) || name == "memset") {
      T ob, of, len = arg(2); PtrRes r = resolvePtr(s, arg(0), I, ob, of, "memset"); if (r == P_DEAD) return false; if (!vd) setV(f, s, I, arg(0)); if (r == P_UNK) { s.imprecise = "memset through an unresolved pointer"; return true; }
      if (isC(len, 0)) return true; bool dead; access(s, ob, of, len, true, I, dead); if (dead) return false; if (oi(ob).kind == OK::Heap && !s.heap.count(ob)) return true;
      static int z = -1; if (z < 0) { z = newObj(OK::Global, "zero"); objs[z].zero = true; }
      if (isC(arg(1), 0)) setMem(s, ob, mcopy(memOf(s, ob), of, len, mbase(objT(z)), cint(0))); else setMem(s, ob, mhavoc(memOf(s, ob), joinV(Ty::V))); return true; }
    if (callee && callee->isIntrinsic()) {
      string b = name.substr(5); b = b.substr(0, b.find('.'));
      if (b == "lifetime" || b == "dbg" || b == "assume" || b == "stacksave" || b == "stackrestore" || b == "donothing" || b == "prefetch") { if (!vd) setV(f, s, I, nullp()); return true; }
      if (b == "fmuladd" || b == "fma") { setV(f, s, I, feval(O_FADD, rty, feval(O_FMUL, rty, arg(0), arg(1)), arg(2))); return true; }
      if (b == "expect") { setV(f, s, I, arg(0)); return true; }
      if (b == "abs") { T a = arg(0); setV(f, s, I, ite(lt0(a), mulc(a, -1), a)); return true; }
      if (b == "smax") { T x = arg(0), y = arg(1); setV(f, s, I, ite(lt0(sub(x, y)), y, x)); return true; } if (b == "smin") { T x = arg(0), y = arg(1); setV(f, s, I, ite(lt0(sub(x, y)), x, y)); return true; }
      if (b == "floor" || b == "ceil" || b == "fabs" || b == "sqrt" || b == "trunc" || b == "round" || b == "maxnum" || b == "minnum" || b == "exp") { vector<T> a; for (unsigned i = 0; i < C->arg_size(); i++) a.push_back(arg(i)); setV(f, s, I, fnCall(b == "maxnum" ? "fmax" : b == "minnum" ? "fmin" : b, rty, a)); return true; }
      throw Abort{"intrinsic " + name};
    }
    if (name == "__assert_fail" || name == "abort" || name == "exit" || name == "_exit") { ev("abort:" + name, I, "process termination reached", &s); return false; }
    if (callee && !callee->isDeclaration()) {
      if (++depthCall > 60) { depthCall = 0; throw Abort{"call depth"}; }
      vector<T> args; for (unsigned i = 0; i < C->arg_size(); i++) args.push_back(arg(i));
      if (C->arg_size() && C->paramHasAttr(0, Attribute::StructRet)) {}
      FnInfo &g = info(callee); int cx = ctxOf(ctx, I); State copy = s;
      vector<State> r = callFn(g, args, std::move(copy), cx); depthCall--;
      if (retStatus(callee)) { vector<State> r2; std::function<void(State)> sp = [&](State x) { T v = x.ret; if (v && v->k == K::Ite) { State y = x; if (assume(v->a[0], x.facts)) { x.ret = v->a[1]; sp(std::move(x)); } if (assume(notb(v->a[0]), y.facts)) { y.ret = v->a[2]; sp(std::move(y)); } return; }
          if (v && v->k == K::CInt && v->c != 0 && x.failed.empty()) x.failed = callee->getName().str() + " called at " + locOf(I); r2.push_back(std::move(x)); };
        for (auto &x : r) sp(std::move(x)); r.swap(r2); }
      for (auto &x : r) { if (!vd) { T v = x.ret; if (v && tyOf(I->getType()) == Ty::I1 && v->ty != Ty::I1) v = truncT(v, 1); setV(f, x, I, v); } x.ret = nullptr; }
      mergeList(r, 24);
      for (auto &x : r) multi.push_back(std::move(x)); return false;
    }
    if (name == "strcmp" || name == "strncmp" || name == "memcmp") {  // of texts known byte by byte
      int64_t n = 256; bool nk = name == "strcmp" || cval(arg(2), n); T p = arg(0), q = arg(1);
      if (nk && p->k == K::Ptr && q->k == K::Ptr) for (int64_t i = 0; i <= n && i < 256; i++) { int64_t x, y; if (i == n) { setV(f, s, I, cint(0)); return true; }
        T u = loadAt(s, p, i, Ty::I8), w = loadAt(s, q, i, Ty::I8); if (!u || !w || !cval(u, x) || !cval(w, y)) break;
        x &= 255; y &= 255; if (x != y) { setV(f, s, I, cint(x < y ? -1 : 1)); return true; } if (!x && name != "memcmp") { setV(f, s, I, cint(0)); return true; } } }
    if (name == "strlen" && arg(0)->k == K::Ptr) for (int64_t i = 0; i < 256; i++) { int64_t x; T u = loadAt(s, arg(0), i, Ty::I8); if (!u || !cval(u, x)) break; if (!x) { setV(f, s, I, cint(i)); return true; } }
    if (pureFns.count(name)) { vector<T> a; for (unsigned i = 0; i < C->arg_size(); i++) a.push_back(arg(i)); if (!vd) setV(f, s, I, fnCall(name, rty, a)); return true; }
    ev("extern:" + name, I, "call of external function " + name, &s);
    if (name == "realloc" || name == "aligned_alloc" || name == "posix_memalign" || name == "strdup") s.imprecise = "unmodelled allocation function " + name;
    if (!vd) setV(f, s, I, opaqueCall(name, rty, I, ctx)); 
    for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) { T p = arg(i); if (p->k == K::Ptr && oi(p->a[0]).kind != OK::Global && name != "printf" && name != "fprintf" && name != "puts" && name != "fputs") s.imprecise = "external function " + name + " receives a pointer"; }
    return true;
  } catch (Split &sp) { re = true; fork(s, sp.cond, multi); return false; }
}
static void runBlock(FnInfo &f, BasicBlock *B, State s0, vector<Edge> &out, vector<State> &rets, int ctx) {
  vector<pair<State, BasicBlock::iterator>> work; BasicBlock::iterator it0 = B->getFirstNonPHIIt(); work.push_back({std::move(s0), it0});
  // breadth per instruction so that continuations of one call can be merged again
  while (!work.empty()) {
    auto [s, it] = std::move(work.back()); work.pop_back();
    bool alive = true;
    for (; !it->isTerminator(); ++it) {
      vector<State> multi; bool re; 
      if (step(f, s, &*it, ctx, multi, re)) continue;
      alive = false; auto nx = it; if (!re) ++nx; for (auto &m : multi) work.push_back({std::move(m), nx});
      if (work.size() > 400) throw Abort{"too many states in " + f.F->getName().str()};
      break;
    }
    if (!alive) continue;
    Instruction *I = &*it;
    if (++stats.steps > stepLimit) throw Abort{"step budget exhausted"};
    if (auto *R = dyn_cast<ReturnInst>(I)) { s.ret = R->getReturnValue() ? val(f, s, R->getReturnValue()) : nullptr; rets.push_back(std::move(s)); continue; }
    if (isa<UnreachableInst>(I)) continue;
    auto note = [&](bool constant) { for (auto &lc : loopCtl) if (lc.L->contains(B)) { bool ex = false; for (auto S : successors(B)) if (!lc.L->contains(S)) ex = true; if (ex && constant) lc.decided = true; } };
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isUnconditional()) { out.push_back({B, Br->getSuccessor(0), std::move(s)}); continue; }
      T c = val(f, s, Br->getCondition());
      bool cst = c->k == K::CInt; if (cst) if (auto *IC = dyn_cast<ICmpInst>(Br->getCondition())) if (IC->getOperand(0)->getType()->isIntegerTy()) { T a = val(f, s, IC->getOperand(0)), b = val(f, s, IC->getOperand(1)); cst = a->k == K::CInt && b->k == K::CInt; }
      note(cst);
      if (hasUndef(c)) evUndef("uninit-branch", I, "control flow depends on an uninitialised value", s, c);
      if (c->k == K::Undef) { State t = s; out.push_back({B, Br->getSuccessor(0), std::move(s)}); out.push_back({B, Br->getSuccessor(1), std::move(t)}); continue; }
      Tri t = evalB(c, s.facts);
      // a loop left when a counter that moves by one meets its bound has not passed it
      auto bound = [&](T stay, BasicBlock *S) -> T {
        Loop *Lb = f.LI.getLoopFor(B); if (!Lb || kstack.empty() || kstack.back()->k != K::Kap || stay->k != K::Not || stay->a[0]->k != K::EQ0 || !Lb->contains(S)) return nullptr;
        BasicBlock *la = Lb->getLoopLatch(); if (!la || !f.DT.dominates(B, la) || (Lb->contains(Br->getSuccessor(0)) && Lb->contains(Br->getSuccessor(1)))) return nullptr;
        T kap = kstack.back(), co, rest; int64_t a; if (!linearIn(stay->a[0]->a[0], kap, co, rest) || !cval(co, a) || (a != 1 && a != -1) || contains(rest, kap)) return nullptr;
        T n = a == 1 ? mulc(rest, -1) : rest; return nonneg(n) || proveLE0(mulc(n, -1), s.facts) ? lt0(sub(kap, n)) : nullptr; };
      T b0 = t != NO ? bound(c, Br->getSuccessor(0)) : nullptr, b1 = t != YES ? bound(notb(c), Br->getSuccessor(1)) : nullptr;
      if (t != NO) { State a = s; if (assume(c, a.facts) && (!b0 || assume(b0, a.facts))) out.push_back({B, Br->getSuccessor(0), std::move(a)}); }
      if (t != YES) { if (assume(notb(c), s.facts) && (!b1 || assume(b1, s.facts))) out.push_back({B, Br->getSuccessor(1), std::move(s)}); }
      continue;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      T v = val(f, s, Sw->getCondition()); if (hasUndef(v)) evUndef("uninit-branch", I, "switch on an uninitialised value", s, v);
      if (v->k == K::Ite) { vector<State> mm; Tri t = evalB(v->a[0], s.facts); if (t == MAYBE) { fork(s, v->a[0], mm); for (auto &m : mm) work.push_back({std::move(m), it}); continue; } }
      bool done = false;
      while (v->k == K::Ite) { Tri t = evalB(v->a[0], s.facts); if (t == YES) v = v->a[1]; else if (t == NO) v = v->a[2]; else break; }
      std::map<BasicBlock *, vector<T>> tg; vector<BasicBlock *> order;
      for (auto &cs : Sw->cases()) { T l = v->k == K::Undef ? cbool(false) : eq0(sub(v, cint(cs.getCaseValue()->getSExtValue()))); if (done) break; Tri t = evalB(l, s.facts);
        if (t == NO) continue; State a = s; bool okk = true; if (t == MAYBE) okk = assume(l, a.facts); if (okk) { bool dup = false; out.push_back({B, cs.getCaseSuccessor(), std::move(a)}); (void)dup; }
        if (t == YES) { done = true; break; } if (!assume(notb(l), s.facts)) { done = true; break; } }
      if (!done) out.push_back({B, Sw->getDefaultDest(), std::move(s)});
      continue;
    }
    throw Abort{"terminator"};
  }
}
static size_t blockCap = 40;
static void runRegion(FnInfo &f, Loop *L, BasicBlock *entry, State s0, vector<Edge> &out, vector<State> &rets, int ctx) {
  // pending states per top-level item, processed in reverse post-order
  struct Item { vector<pair<BasicBlock *, State>> in; }; map<int, pair<BasicBlock *, Item>> pend;
  auto push = [&](BasicBlock *from, BasicBlock *to, State s) { auto &p = pend[f.rpo[to]]; p.first = to; p.second.in.push_back({from, std::move(s)}); };
  push(nullptr, entry, std::move(s0)); bool first = true;
  while (!pend.empty()) {
    auto it = pend.begin(); BasicBlock *B = it->second.first; Item item = std::move(it->second.second); pend.erase(it);
    Loop *bl = f.LI.getLoopFor(B); bool inner = bl && bl->getHeader() == B && bl != L && !(first && L && B == L->getHeader());
    vector<Edge> o;
    if (inner) {
      Loop *IL = bl;
      std::map<BasicBlock *, vector<State>> byFrom; for (auto &x : item.in) byFrom[x.first].push_back(std::move(x.second));
      for (auto &g : byFrom) { mergeList(g.second, blockCap); for (auto &s : g.second) runLoop(f, IL, g.first, std::move(s), o, rets, ctx); }
    } else {
      vector<State> ss; for (auto &x : item.in) { if (x.first) phis(f, x.second, x.first, B); ss.push_back(std::move(x.second)); }
      for (auto &s : ss) for (int d : f.dead[B]) if (!(first && L && false)) s.env.back()[d] = nullptr;
      if (ss.size() > 1) mergeList(ss, blockCap);
      for (auto &s : ss) runBlock(f, B, std::move(s), o, rets, ctx);
    }
    first = false;
    for (auto &e : o) {
      bool inside = (!L || L->contains(e.to)) && !(L && e.to == L->getHeader());
      if (inside) push(e.from, e.to, std::move(e.s)); else out.push_back(std::move(e));
    }
  }
}
// ------------------------------------------------------------------ loops
struct PSol { int kind = 0; T form = nullptr, chk = nullptr; bool guess = false; };  // chk: next value expected for a form derived by the odometer rule
           // 0 raw 1 closed form 2 opaque
struct CSol { T off; Ty ty; int kind = 0; T form = nullptr, chk = nullptr; bool guess = false; };
struct MSol { int kind = 0; vector<CSol> cells; T body = nullptr; T X = nullptr; int upd = 0; };  // 0 raw 1 cells 2 loop 3 havoc
struct LSol { map<PHINode *, PSol> phi; map<T, MSol, LtId> mem; };
static map<pair<int, vector<T>>, set<T>> warmW;
static T rawPhi(int lid, int idx, Ty ty) { return sym("phi:" + std::to_string(lid) + "." + std::to_string(idx), ty == Ty::P ? Ty::I64 : ty); }
// depends on an outer loop variable whose values are not known yet
static bool rawTerm(T t) { return containsIf(t, [](T u) { return (u->k == K::Sym && nameOf(u->op).rfind("phi:", 0) == 0) || (u->k == K::MHavoc && u->a.size() == 2 && u->a[1]->k == K::Sym && nameOf(u->a[1]->op)[0] == 'X'); }); }
static bool mentions(T t, const set<T> &raws) { return containsIf(t, [&](T u) { return raws.count(u) > 0; }); }

// cut/cutOut: run exactly `cut` iterations and deliver the state at the header; atHead: s0 already is a header state
static void runLoop(FnInfo &f, Loop *L, BasicBlock *from, State s0, vector<Edge> &out, vector<State> &rets, int ctx, T cut, vector<State> *cutOut, const State *atHead) {
  BasicBlock *H = L->getHeader(); stats.loops++;
  if (!quiet) stats.lnames.insert(f.F->getName().str() + " " + locOf(&*H->getFirstNonPHIIt()));
  BasicBlock *latch = L->getLoopLatch(); if (!latch) throw Abort{"loop without single latch in " + f.F->getName().str()};
  vector<PHINode *> P; for (auto &I : *H) { if (auto *p = dyn_cast<PHINode>(&I)) P.push_back(p); else break; }
  State init = s0; if (!atHead) phis(f, init, from, H);
  // blocks of an interrupted earlier loop: iterate below, at and above the point where it stopped
  if (!cut && !atHead) { T w = nullptr; bool calls = false; for (auto &fm : init.fams) if (fm.hi->k == K::Sym && nameOf(fm.hi->op).rfind("nn:w", 0) == 0 && isC(fm.lo, 0) && fm.pre == kstack) w = fm.hi;
    if (w) for (auto *B : L->blocks()) for (auto &I : *B) if (auto *C = dyn_cast<CallInst>(&I)) if (!C->getCalledFunction() || !C->getCalledFunction()->isIntrinsic()) calls = true;
    bool zero = false; for (auto *p : P) if (isC(val(f, init, p), 0) && p->getType()->isIntegerTy(64)) zero = true;
    if (w && calls && zero) {
      for (int d : f.dead[H]) init.env.back()[d] = nullptr;
      vector<State> at, nxt, r2; vector<Edge> o2; runLoop(f, L, from, init, o2, r2, ctx, w, &at, &init);
      if (at.size()) { for (auto &e : o2) out.push_back(std::move(e)); for (auto &r : r2) rets.push_back(std::move(r));
      for (auto &s : at) { vector<Edge> o; kstack.push_back(w); size_t k0 = kstack.size(); try { runRegion(f, L, H, s, o, rets, ctx); } catch (...) { kstack.resize(k0 - 1); throw; } kstack.pop_back();
        for (auto &e : o) if (e.to == H) { phis(f, e.s, e.from, H); for (int d : f.dead[H]) e.s.env.back()[d] = nullptr; nxt.push_back(std::move(e.s)); } else out.push_back(std::move(e)); }
      mergeList(nxt, 12); for (auto &s : nxt) { State h = s; runLoop(f, L, from, s, out, rets, ctx, nullptr, nullptr, &h); } return; } } }
  for (int d : f.dead[H]) init.env.back()[d] = nullptr;
  // ---- 1. concrete unrolling
  bool tryUnroll = !cut;
  if (tryUnroll && L->isLoopExiting(H)) {
    vector<Edge> o; vector<State> r; loopCtl.push_back({L}); quiet++; kstack.push_back(cint(0)); size_t d0 = loopCtl.size(); int dc = depthCall;
    try { runBlock(f, H, init, o, r, ctx); } catch (...) { loopCtl.resize(d0 - 1); quiet--; kstack.pop_back(); depthCall = dc; throw; }
    tryUnroll = loopCtl.back().decided; loopCtl.pop_back(); quiet--; kstack.pop_back();
  }
  if (tryUnroll) {
    size_t evn = events.size(); vector<Edge> tout; vector<State> trets; vector<State> cur{init}; bool ok = true; int n = 0;
    while (!cur.empty() && ok) {
      vector<State> nxt; bool anyStay = false, anyLeave = false;
      for (auto &s : cur) {
        vector<Edge> o; loopCtl.push_back({L}); kstack.push_back(cint(n)); size_t d0 = loopCtl.size(); size_t k0 = kstack.size();
        try { runRegion(f, L, H, s, o, trets, ctx); } catch (...) { loopCtl.resize(d0 - 1); kstack.resize(k0 - 1); throw; }
        bool dec = loopCtl.back().decided; loopCtl.pop_back(); kstack.pop_back();
        bool back = false; for (auto &e : o) { if (e.to == H) { phis(f, e.s, e.from, H); for (int d : f.dead[H]) e.s.env.back()[d] = nullptr; nxt.push_back(std::move(e.s)); back = true; } else tout.push_back(std::move(e)); }
        bool hx = false; for (auto &e : o) if (e.from == H && e.to != H && !L->contains(e.to)) hx = true; if (back) anyStay = true; else if (hx) anyLeave = true;
        if ((!dec && back) || (anyStay && anyLeave)) { ok = false; break; }
      }
      if (ok) { mergeList(nxt, 12); cur = std::move(nxt); if (++n > 40) ok = false; }
    }
    if (ok) { stats.unrolled++; for (auto &e : tout) out.push_back(std::move(e)); for (auto &r : trets) rets.push_back(std::move(r)); return; }
    events.resize(evn);
  }
  // ---- second pass: the first iterations of a loop whose general iteration has no closed form
  bool symbolic = false; for (T k : kstack) if (k->k != K::CInt) symbolic = true;
  if (peelMode && !quiet && !cut && !symbolic && unsolvedLoops.count(H)) { peeled = true;
    vector<State> cur{init};
    for (int n = 0; n <= peelTrips && !cur.empty(); n++) { vector<State> nxt;
      for (auto &s : cur) { vector<Edge> o; loopCtl.push_back({L}); kstack.push_back(cint(n)); size_t d0 = loopCtl.size(), k0 = kstack.size();
        try { runRegion(f, L, H, s, o, rets, ctx); } catch (...) { loopCtl.resize(d0 - 1); kstack.resize(k0 - 1); throw; }
        loopCtl.pop_back(); kstack.pop_back();
        for (auto &e : o) if (e.to == H) { phis(f, e.s, e.from, H); for (int d : f.dead[H]) e.s.env.back()[d] = nullptr; nxt.push_back(std::move(e.s)); } else out.push_back(std::move(e)); }
      { vector<State> keep; for (auto &s : nxt) if (!s.oom || init.oom) keep.push_back(std::move(s)); nxt = std::move(keep); }
      thin(nxt, peelCap / 2); cur = std::move(nxt); }
    return; }
  loopStack.push_back(H); struct PopL { ~PopL() { loopStack.pop_back(); } } popL;
  foldBack(init, nullptr);
  // ---- 2. symbolic iteration k
  int lid = loopId(ctx, L); T kap = mk(K::Kap, Ty::I64, 0, lid, {}); T kap1 = addc(kap, 1);
  vector<T> v0; for (auto *p : P) v0.push_back(val(f, init, p));
  vector<T> raws; LSol sol; set<T> rawset;
  for (size_t i = 0; i < P.size(); i++) { T r = rawPhi(lid, i, tyOf(P[i]->getType())); raws.push_back(r); rawset.insert(r); sol.phi[P[i]]; }
  auto &W = warmW[{lid, kstack}];
  auto Xof = [&](T o) { return mhavoc(mbase(o), sym("X" + std::to_string(lid), Ty::V)); };
  auto opq = [&](Ty ty, const void *what, T k) { vector<T> a{k}; a.insert(a.end(), kstack.begin(), kstack.end()); static map<std::tuple<int, const void *, int>, int> ids; auto key = std::make_tuple(lid, what, (int)ty); auto it = ids.find(key); int id = it != ids.end() ? it->second : (ids[key] = ids.size() + 1); return mk(K::Op, ty, O_PHI, id, a); };
  auto opqCell = [&](T o, T off, Ty ty, T k) { vector<T> a{k, o, off}; a.insert(a.end(), kstack.begin(), kstack.end()); return mk(K::Op, ty, O_PHI, 1000000 + lid, a); };
  // memory of object o at iteration k according to sol
  auto memAt = [&](T o, T k) -> T {
    T m0 = memOf(init, o); auto it = sol.mem.find(o); if (it == sol.mem.end()) return m0; MSol &m = it->second;
    if (m.kind == 0) return m.X; if (m.kind == 2) { T body = m.body; return mk(K::MLoop, Ty::M, 0, 0, {m0, k, body}); }
    if (m.kind == 3) return mhavoc(m0, opq(Ty::V, (const void *)o, k));
    T r = m0; for (auto &c : m.cells) r = mcell(r, c.off, c.kind == 1 ? subst(c.form, kap, k) : opqCell(o, c.off, c.ty, k), c.ty); return r;
  };
  auto phiAt = [&](size_t i, T k) -> T { PSol &p = sol.phi[P[i]]; Ty ty = tyOf(P[i]->getType()); T v;
    if (p.kind == 0) v = raws[i]; else if (p.kind == 1) v = subst(p.form, kap, k); else v = opq(ty == Ty::P ? Ty::I64 : ty, P[i], k);
    if (ty == Ty::P) { if (v0[i]->k == K::Ptr) return mkptr(v0[i]->a[0], v); return p.kind == 1 ? v : opq(Ty::P, P[i], k); }
    return v; };
  State latchS; vector<Edge> exits; vector<State> rrets; bool haveLatch = false; bool imp = false;
  struct Mixed { T obj; ObjSt st; vector<T> facts; bool vague; }; vector<Mixed> mixed;
  map<T, ObjSt, LtId> status0 = init.heap; vector<T> toggled;
  auto runOnce = [&](bool record, bool second) {
    State s = init; for (size_t i = 0; i < P.size(); i++) setV(f, s, P[i], phiAt(i, kap));
    for (T o : W) { if (oi(o).kind == OK::Heap && (!init.heap.count(o) || init.heap[o].freed)) continue; auto it = sol.mem.find(o); if (it == sol.mem.end()) { sol.mem[o].X = Xof(o); it = sol.mem.find(o); }
      loopMem.erase(it->second.X); if (it->second.kind != 0) loopMem[it->second.X] = memAt(o, kap);
      if (oi(o).kind == OK::Heap) { auto h = s.heap.find(o); if (h != s.heap.end()) h->second.mem = it->second.X; } else s.mem[o] = it->second.X; }
    if (cut) assume(lt0(::sub(kap, cut)), s.facts);
    if (second) { for (T o : toggled) { auto h = s.heap.find(o); if (h != s.heap.end()) { h->second.freed = true; h->second.fi = latchS.heap[o].fi; } } assume(notb(lt0(addc(kap, -1))), s.facts); }
    exits.clear(); rrets.clear(); vector<Edge> o; if (!record) quiet++;
    kstack.push_back(kap); size_t k0 = kstack.size(); int q0 = quiet; size_t lc0 = loopCtl.size(); vector<LoopCtl> saved = loopCtl; 
    try { runRegion(f, L, H, s, o, rrets, ctx); } catch (...) { kstack.resize(k0 - 1); quiet = q0 - (record ? 0 : 1); loopCtl.resize(lc0); throw; }
    kstack.pop_back(); if (!record) quiet--; loopCtl = saved;
    vector<State> ls; for (auto &e : o) if (e.to == H) { ls.push_back(std::move(e.s)); } else exits.push_back(std::move(e));
    // states that lost an allocation and nevertheless iterate on are followed separately when possible
    mixed.clear(); if (ls.size() > 1) for (auto &a : ls) for (auto &h : a.heap) if (!h.second.freed && contains(h.first, kap) && !init.heap.count(h.first)) {   // a block only some iterations leave allocated
      bool differs = false; for (auto &b : ls) if (b.oom == a.oom) { auto it = b.heap.find(h.first); if (it == b.heap.end() || it->second.freed) differs = true; }
      if (differs) { Mixed mx{h.first, h.second, {}, a.approx || !a.imprecise.empty()}; for (T l : a.facts.l) if (!init.facts.has(l)) mx.facts.push_back(l); mixed.push_back(mx); } }
    haveLatch = !ls.empty(); if (haveLatch) { mergeList(ls, 1, true); latchS = std::move(ls[0]); }
  };
  bool stable = false; vector<T> nxt(P.size());
  set<std::pair<T, T>> solvedOnce; set<T> banned; bool refuted = false;   // guesses ("unchanged by every iteration") that did not verify
  for (int round = 0; round < 12 + 6 * (int)banned.size() && !stable; round++) {
    if (refuted) { refuted = false; solvedOnce.clear(); for (auto &p : sol.phi) p.second = PSol(); for (auto &m : sol.mem) { m.second.kind = 0; m.second.cells.clear(); m.second.upd = 0; } }
    if (getenv("AIA_DEBUG")) fprintf(stderr, "ROUND %s%d depth %zu round %d\n", f.F->getName().str().c_str(), lid, kstack.size(), round);
    runOnce(false, false);
    if (!haveLatch) { stable = true; break; }
    // discover modified objects
    bool grew = false;
    auto chk = [&](T o, T m) { if (W.count(o)) return; if (o->a.size() && containsIf(o, [&](T u) { return u == kap; })) return; if (m != memOf(init, o)) { W.insert(o); grew = true; } };
    for (auto &m : latchS.mem) { if (oi(m.first).kind == OK::Alloca && !init.mem.count(m.first)) continue; chk(m.first, m.second); }
    for (auto &h : latchS.heap) if (init.heap.count(h.first) && !init.heap[h.first].freed && !h.second.freed) chk(h.first, h.second.mem);
    if (grew) { for (auto &p : sol.phi) if (p.second.kind == 1) p.second = PSol(); for (auto &m : sol.mem) if (m.second.kind != 3) { m.second.kind = 0; m.second.cells.clear(); } continue; }
    for (size_t i = 0; i < P.size(); i++) { nxt[i] = val(f, latchS, P[i]->getIncomingValueForBlock(latch)); }
    // ---- verification of current candidates / solving
    bool changed = false;
    struct Var { T raw; T v0, n; Ty ty; int phi; T obj; size_t cell; int bits; }; vector<Var> vars; set<T> unresolved;
    for (size_t i = 0; i < P.size(); i++) {
      PSol &p = sol.phi[P[i]]; Ty ty = tyOf(P[i]->getType()); T n = nxt[i], b = v0[i];
      if (ty == Ty::P) { if (b->k == K::Ptr && n->k == K::Ptr && n->a[0] == b->a[0]) { n = n->a[1]; b = b->a[1]; ty = Ty::I64; } else { if (p.kind != 2) { if (n == phiAt(i, kap) && p.kind == 0 && v0[i]->k != K::Ptr) {} p.kind = 2; changed = true; if (b->k == K::Ptr) imp = true; } continue; } }
      int bits = P[i]->getType()->isIntegerTy() ? P[i]->getType()->getIntegerBitWidth() : 64;
      if (p.kind == 1) { T want = subst(p.form, kap, kap1); if (n != want && n != p.chk && !(p.chk && (resolveT(p.chk, latchS.facts) == resolveT(n, latchS.facts) || sameT(p.chk, n, latchS.facts))) && truncT(want, bits) != n && truncT(n, bits) != truncT(want, bits)) { if (getenv("AIA_DEBUG")) fprintf(stderr, "  demote phi %s: form %s next %s\n", P[i]->getName().str().c_str(), str(p.form).c_str(), str(n).c_str()); if (p.guess) { banned.insert(raws[i]); refuted = true; } p.kind = 2; p.form = nullptr; changed = true; } }
      else if (p.kind == 0) { vars.push_back({raws[i], b, n, ty, (int)i, nullptr, 0, bits}); unresolved.insert(raws[i]); }
    }
    for (auto &kv : sol.mem) { T o = kv.first; MSol &m = kv.second; T lm = oi(o).kind == OK::Heap ? (latchS.heap.count(o) ? latchS.heap[o].mem : m.X) : memOf(latchS, o);
      if (m.kind == 3) continue;
      // chain of cells over X
      vector<T> ch; T c = lm; int guard = 0; while ((c->k == K::MCell || c->k == K::MLoop || c->k == K::MCopy) && guard++ < 200) { ch.push_back(c); c = c->a[0]; }
      bool isChain = c == m.X;
      if (m.kind == 1) { bool ok = isChain; for (T e : ch) { if (e->k != K::MCell) { ok = false; break; } bool in = false; for (auto &cs : m.cells) if (cs.off == e->a[1] && tyBytes(cs.ty) == tyBytes((Ty)e->op)) in = true; if (!in) ok = false; }
        if (!ok) { m.kind = 3; m.cells.clear(); changed = true; continue; }
        for (auto &cs : m.cells) if (cs.kind == 1) { T nv = readMem(lm, cs.off, cs.ty, &latchS.facts); T want = subst(cs.form, kap, kap1); int bits = tyBytes(cs.ty) * 8; bool same = nv == want || nv == cs.chk || (cs.chk && (resolveT(cs.chk, latchS.facts) == resolveT(nv, latchS.facts) || sameT(cs.chk, nv, latchS.facts))) || (isInt(cs.ty) && truncT(nv, bits) == truncT(want, bits)); if (!same) { if (getenv("AIA_DEBUG")) fprintf(stderr, "  demote cell %s+%s: form %s want %s next %s\n", str(o).c_str(), str(cs.off).c_str(), str(cs.form).c_str(), str(cs.chk ? cs.chk : want, 12).c_str(), str(nv, 12).c_str()); if (cs.guess) { banned.insert(mk(K::Load, cs.ty, 0, 0, {m.X, cs.off})); refuted = true; } cs.kind = 2; cs.form = nullptr; changed = true; } }
        continue; }
      if (m.kind == 2) { std::unordered_map<T, T> e; e[m.X] = mk(K::MSelf, Ty::M, 0, 0, {}); T lm2 = lm; std::unordered_map<T, T> xs; for (auto &kv2 : sol.mem) if (kv2.first != o && kv2.second.kind != 0) xs[kv2.second.X] = memAt(kv2.first, kap); if (!xs.empty()) lm2 = substM(lm2, xs);
        T b = abstractBody(lm2, kap, e); if (b != m.body) { if (!isChain || m.upd++ > 3 || mentions(lm2, rawset)) { if (getenv("AIA_DEBUG")) fprintf(stderr, "  havoc %s\n", str(o).c_str()); m.kind = 3; } else m.body = b; changed = true; } continue; }
      if (!isChain) { if (getenv("AIA_DEBUG")) fprintf(stderr, "  notchain %s: %s\n", str(o).c_str(), str(lm, 9).c_str()); m.kind = 3; changed = true; continue; }
      // raw: promote when every written offset is loop invariant
      bool inv = true; for (T e : ch) { if (e->k != K::MCell) { inv = false; break; } T off = e->a[1]; if (contains(off, kap) || mentions(off, rawset) || containsIf(off, [&](T u) { return u->k == K::Load && u->a[0]->k == K::MHavoc && loopMem.count(u->a[0]) == 0 && u->a[0]->a.size() == 2 && u->a[0]->a[1] == m.X->a[1]; }) || containsIf(off, [&](T u) { return u->k == K::Op && (u->op == O_PHI || u->op == O_JOIN || u->op == O_IMPURE) && contains(u, kap); })) { inv = false; break; } }
      if (inv) { m.cells.clear(); vector<T> offs; for (T e : ch) { bool dup = false; for (auto &cs : m.cells) if (cs.off == e->a[1]) dup = true; if (!dup) m.cells.push_back({e->a[1], (Ty)e->op, 0, nullptr}); }
        if (m.cells.size() > 64) { m.kind = 3; changed = true; continue; }
        for (size_t q = 0; q < m.cells.size(); q++) { auto &cs = m.cells[q]; T raw = mk(K::Load, cs.ty, 0, 0, {m.X, cs.off}); T b = readMem(memOf(init, o), cs.off, cs.ty, &init.facts); T n = readMem(lm, cs.off, cs.ty, &latchS.facts); vars.push_back({raw, b, n, cs.ty, -1, o, q, tyBytes(cs.ty) * 8}); unresolved.insert(raw); } }
    }
    // X's still raw block expressions that read them (other than promoted cells)
    std::unordered_map<T, T> sub; 
    auto blocked = [&](T t, T selfX) { return containsIf(t, [&](T u) { if (unresolved.count(u)) return true; if (u->k == K::MHavoc && u != selfX) for (auto &kv : sol.mem) if (kv.second.kind == 0 && kv.second.X == u) return true; return false; }); };
    bool prog = true, guessed = false; set<size_t> done;
    auto settle = [&](T t, const Facts &fc) { return containsIf(t, [](T u) { return u->k == K::Load && u->a[0]->k != K::MBase && u->a[0]->k != K::MHavoc; }) ? resolveT(t, fc) : t; };
    vector<T> full; for (auto &v : vars) full.push_back(v.n);   // next values with forms substituted but conditions kept
    map<T, pair<T, T>> gates; vector<size_t> odoV;              // condition that is true exactly when k = P*n-1 mod P*n, given k = P-1 mod P
    auto allSub = [&](T from, T to, bool lit) { std::unordered_map<T, T> m; m[from] = to; for (auto &v : vars) v.n = substM(v.n, m); if (!lit) for (auto &x : full) x = substM(x, m); };
    // digits of an odometer: advance by a fixed step, reset to the start value past a fixed bound, and hold until the faster digits reset
    auto solveOdo = [&](Var &v, T n, T r) -> T {
      T P = cint(1); auto isAtom = [](T u) { return u->k == K::LT0 || u->k == K::EQ0; };
      for (int guard = 0; guard < 12; guard++) {
        vector<T> at; std::function<void(T)> cond = [&](T c) { if (isAtom(c)) { if (std::find(at.begin(), at.end(), c) == at.end()) at.push_back(c); } else if (c->k == K::Not) cond(c->a[0]); else if (c->k == K::Ite) { cond(c->a[0]); cond(c->a[1]); cond(c->a[2]); } else if (c->k != K::CInt) at.push_back(nullptr); };
        std::function<void(T)> val = [&](T u) { if (u->k == K::Ite) { cond(u->a[0]); val(u->a[1]); val(u->a[2]); } else if (u->k == K::Poly || u->k == K::Mono) for (T x : u->a) val(x); };
        val(n); if (std::find(at.begin(), at.end(), nullptr) != at.end()) return nullptr;
        auto co = [&](T L, bool b) { return subst(n, L, cbool(b)); };
        if (at.empty()) { T d = ::sub(n, r); if (contains(d, r) || contains(d, kap) || blocked(d, nullptr)) return nullptr; return add(v.v0, mul(d, sdivT(kap, P))); }
        bool stepd = false;
        for (T L : at) { auto g = gates.find(L); if (g == gates.end() || g->second.first != P) continue; if (co(L, false) != r) continue; n = co(L, true); P = mul(P, g->second.second); stepd = true; break; }
        if (stepd) continue;
        // own bound
        for (T L : at) { if (!contains(L, r)) continue; T a = co(L, true), b = co(L, false); 
          for (int o = 0; o < 2; o++) { T rs = o ? b : a, st = o ? a : b; if (rs != v.v0) continue; T sp = ::sub(st, r); if (contains(sp, r) || contains(sp, kap) || blocked(sp, nullptr) || range(sp).lo < 1) continue;
            // reset <=> L (o == 0) or !L (o == 1), as a condition on y = r + sp
            T y = sym("$odo", Ty::I64), q = subst(L->a[0], r, ::sub(y, sp)), cf, rest; if (!linearIn(q, y, cf, rest) || contains(rest, y) || contains(rest, kap) || blocked(rest, nullptr)) continue; int64_t cy; if (!cval(cf, cy)) continue; T top = nullptr;   // largest admissible value
            if (L->k == K::LT0) { if (o == 0 && cy == -1) top = rest; else if (o == 1 && cy == 1) top = addc(mulc(rest, -1), -1); }
            else if (o == 0 && (cy == 1 || cy == -1)) { T e = cy == 1 ? mulc(rest, -1) : rest, span = ::sub(e, v.v0); if (divExactT(span, sp) && (range(span).lo >= 1 || proveLT0(mulc(span, -1), latchS.facts))) top = addc(e, -1); }
            if (!top) continue; T span = ::sub(top, v.v0); if (range(span).lo < 0 && !proveLE0(mulc(span, -1), init.facts)) span = max0(span);
            T cnt = addc(sdivT(span, sp), 1), dig = sremT(sdivT(kap, P), cnt), gl = eq0(addc(::sub(dig, cnt), 1));
            if (o) gl = notb(gl); T key = isAtom(gl) ? gl : gl->k == K::Not ? gl->a[0] : nullptr; 
            allSub(L, gl, true); if (gl->k == K::CInt) {} else if (!o && key == gl) gates[key] = {P, cnt}; else if (o && gl->k == K::Not) gates[key] = {P, cnt}; else return nullptr;
            return add(v.v0, mul(sp, dig)); } }
        return nullptr;
      }
      return nullptr; };
    vector<std::tuple<T, T, T>> known;
    for (size_t i = 0; i < P.size(); i++) { PSol &p = sol.phi[P[i]]; if (p.kind == 1 && P[i]->getType()->isIntegerTy() && !P[i]->getType()->isIntegerTy(1)) known.push_back({v0[i], p.form, nxt[i]}); }
    for (auto &kv : sol.mem) if (kv.second.kind == 1) { T o = kv.first, lm = oi(o).kind == OK::Heap ? (latchS.heap.count(o) ? latchS.heap[o].mem : kv.second.X) : memOf(latchS, o); for (auto &cs : kv.second.cells) if (cs.kind == 1 && isInt(cs.ty) && cs.ty != Ty::I1) known.push_back({readMem(memOf(init, o), cs.off, cs.ty, &init.facts), cs.form, readMem(lm, cs.off, cs.ty, &latchS.facts)}); }
    // a flag that an iteration leaves alone or sets to one fixed value: it has that value from the first iteration on whose condition holds
    auto sticky = [&](Var &v, T n, T r) -> T {
      T c0 = nullptr; std::function<T(T)> cond = [&](T t) -> T { if (t == r) return cbool(false); if (t->k == K::CInt) { if (c0 && c0 != t) return nullptr; c0 = t; return cbool(true); } if (t->k != K::Ite) return nullptr; T a = cond(t->a[1]), b = a ? cond(t->a[2]) : nullptr; return b ? ite(t->a[0], a, b) : nullptr; };
      T C = cond(n); if (!C || !c0 || contains(C, r) || blocked(C, nullptr)) return nullptr; if (v.v0 == c0) return c0;
      T P = cint(1), q = C; for (int i = 0; i < 12 && q->k != K::CInt; i++) { bool hit = false; for (auto &g : gates) if (g.second.first == P && contains(q, g.first) && isC(subst(q, g.first, cbool(false)), 0)) { q = subst(q, g.first, cbool(true)); P = mul(P, g.second.second); hit = true; break; } if (!hit) break; }
      if (isC(q, 1) && P != cint(1)) return ite(lt0(::sub(kap, P)), v.v0, c0);
      return ite(allLit(notb(C), kap, kap), v.v0, c0); };
    // largest / smallest of the contributions so far, started by the first contribution or by the initial value
    auto extremum = [&](Var &v, T n, T r) -> T {
      vector<T> alls; collect(n, [&](T u) { return u->k == K::All && u->a[1] == kap; }, alls); std::sort(alls.begin(), alls.end()); alls.erase(std::unique(alls.begin(), alls.end()), alls.end()); if (alls.size() > 1) return nullptr;
      T A = alls.size() ? alls[0] : nullptr, n0 = A ? subst(n, A, cbool(false)) : n, n1 = A ? subst(n, A, cbool(true)) : nullptr;
      vector<T> cs; collect(n0, [&](T u) { return u->k == K::FCmp && (u->op == FP_OLT || u->op == FP_OLE) && (u->a[0] == r || u->a[1] == r); }, cs); std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end()); if (cs.size() != 1) return nullptr;
      T L = cs[0], x = L->a[0] == r ? L->a[1] : L->a[0]; if (contains(x, r) || blocked(x, nullptr)) return nullptr;
      T tt = subst(n0, L, cbool(true)), tf = subst(n0, L, cbool(false)), keep = tt == r ? tt : tf == r ? tf : nullptr; if (!keep) return nullptr; T take = keep == tt ? tf : tt; bool rLess = L->a[0] == r;
      bool mx = (take == tt) == rLess; T neutral = cfp(v.ty, mx ? -INFINITY : INFINITY);
      std::function<T(T)> con = [&](T t) -> T { if (t == r) return neutral; if (t == x) return x; if (t->k != K::Ite || contains(t->a[0], r) || blocked(t->a[0], nullptr)) return nullptr; T a = con(t->a[1]), b = a ? con(t->a[2]) : nullptr; return b ? ite(t->a[0], a, b) : nullptr; };
      std::function<T(T)> none = [&](T t) -> T { return t == r ? cbool(true) : t == x ? cbool(false) : ite(t->a[0], none(t->a[1]), none(t->a[2])); };
      T b = con(take); if (!b) return nullptr; T M = redRaw(mx ? 5 : 6, v.ty, abstractBody(b, kap, {}), 0, kap, A ? neutral : v.v0);
      if (!A) return M; if (con(n1) != b || allLit(none(take), kap, kap) != A) return nullptr; return ite(A, v.v0, M); };
    while (prog) { prog = false;
      for (size_t vi = 0; vi < vars.size(); vi++) { if (done.count(vi)) continue; Var &v = vars[vi]; T n = v.n; T r = v.raw, form = nullptr; unresolved.erase(r);
        T self = nullptr; auto fine = [&](T t) { return !contains(t, r) && !blocked(t, nullptr); }; (void)self;
        if (n == r) form = v.v0;
        else if (isInt(v.ty) && v.ty != Ty::I1 && n->ty != Ty::I1) { T m = n; if (m->k == K::Op && m->op == O_TRUNC && m->c == v.bits) m = m->a[0];
          // strip wrap-around of the counter itself
          T d = sub.empty() ? ::sub(m, r) : ::sub(m, r); if (contains(d, r) && v.bits < 64) { T z = mk(K::Op, Ty::I64, O_ZEXT, v.bits, {r}); if (contains(d, z)) d = subst(d, z, r); }
          if (fine(d)) { if (!contains(d, kap)) form = add(v.v0, mul(d, kap)); else form = redRaw(1, Ty::I64, abstractBody(d, kap, {}), 0, kap, v.v0); }
          else if (T q = divExactT(m, r)) { if (fine(q)) form = redRaw(2, Ty::I64, abstractBody(q, kap, {}), 0, kap, v.v0); } }
        else if (isFP(v.ty) && n->k == K::Op && (n->op == O_FADD || n->op == O_FMUL)) { T o2 = n->a[0] == r ? n->a[1] : n->a[1] == r ? n->a[0] : nullptr; if (o2 && fine(o2)) form = redRaw(n->op == O_FADD ? 3 : 4, v.ty, abstractBody(o2, kap, {}), 0, kap, v.v0); }
        else if (isFP(v.ty) && (n->k == K::Ite || n->k == K::Red)) { // conditional accumulation: an iteration that leaves the value alone contributes the neutral element
          int op = 0; std::function<T(T)> contrib = [&](T t) -> T {
            if (t == r) return cfp(v.ty, op == O_FMUL ? 1.0 : -0.0);
            if (t->k == K::Ite) { T a = contrib(t->a[1]), b = contrib(t->a[2]); return a && b && fine(t->a[0]) ? ite(t->a[0], a, b) : nullptr; }
            if (t->k == K::Red && t->op == (op == O_FADD ? 3 : 4) && t->a[2] == r && fine(t->a[0]) && fine(t->a[1])) return redRaw(t->op, v.ty, t->a[0], 0, t->a[1], cfp(v.ty, op == O_FMUL ? 1.0 : -0.0));
            if (t->k == K::Op && (t->op == O_FADD || t->op == O_FMUL) && t->op == op) { T o2 = t->a[0] == r ? t->a[1] : t->a[1] == r ? t->a[0] : nullptr; return o2 && fine(o2) ? o2 : nullptr; }
            return nullptr; };
          for (int o : {(int)O_FADD, (int)O_FMUL}) { op = o; if (T b = contrib(n)) { form = redRaw(o == O_FADD ? 3 : 4, v.ty, abstractBody(b, kap, {}), 0, kap, v.v0); break; } } }
        if (!form && isInt(v.ty) && n->k == K::Ite) form = sticky(v, n, r);
        if (!form && isFP(v.ty) && n->k == K::Ite) form = extremum(v, n, r);
        // differs from a solved variable by a fixed amount, at the start and after every iteration
        if (!form && isInt(v.ty) && v.ty != Ty::I1 && n->ty != Ty::I1) { vector<std::tuple<T, T, T>> rel = known;   // (start, form, next)
          for (size_t u : done) { Var &w = vars[u]; PSol *ps = w.phi >= 0 ? &sol.phi[P[w.phi]] : nullptr; CSol *cs = ps ? nullptr : &sol.mem[w.obj].cells[w.cell]; T wf = ps ? ps->form : cs->form; if (wf && (ps ? ps->kind : cs->kind) == 1 && isInt(w.ty) && w.ty != Ty::I1) rel.push_back({w.v0, wf, full[u]}); }
          for (auto &q : rel) { T d = ::sub(v.v0, std::get<0>(q)); if (contains(d, kap) || d->ty == Ty::I1 || blocked(d, nullptr)) continue; T wf = std::get<1>(q), wn = std::get<2>(q), me = contains(full[vi], r) ? subst(full[vi], r, add(wf, d)) : full[vi]; if (contains(wn, r) || wn->k == K::CInt || wf->k == K::CInt) continue;
            if (::sub(me, wn) != d && !(wn->k == K::Ite && me->k == K::Ite && sameT(me, add(wn, d), init.facts))) continue; form = add(wf, d); break; } }
        bool opqN = isInt(v.ty) && !banned.count(r) && containsIf(n, [](T u) { return u->k == K::Op && u->op == O_PHI; });   // first try whether it is left unchanged
        if (!form && fine(n) && !opqN) { // value of the previous iteration
          T prev = subst(n, kap, addc(kap, -1)); if (prev == v.v0) form = v.v0; else form = ite(eq0(kap), v.v0, prev); }
        if (form && v.ty == Ty::I1 && form->ty != Ty::I1) form = nullptr;
        if (!form && isInt(v.ty) && v.ty != Ty::I1 && n->ty != Ty::I1) form = solveOdo(v, n, r);
        if (form) { form = settle(form, init.facts); odoV.push_back(vi); allSub(r, form, false); sub[r] = form; done.insert(vi); prog = true; if (solvedOnce.insert({r, form}).second) changed = true; if (v.phi >= 0) { sol.phi[P[v.phi]].kind = 1; T fm = form; if (tyOf(P[v.phi]->getType()) == Ty::P && false) fm = form; sol.phi[P[v.phi]].form = fm; } else { CSol &c = sol.mem[v.obj].cells[v.cell]; c.kind = 1; c.form = form; }
          if (getenv("AIA_DEBUG")) fprintf(stderr, "  solved %s = %s\n", str(r).c_str(), str(form).c_str()); }
        else unresolved.insert(r);
      }
      // a variable nothing else depends on keeps an unknown value
      auto usedBy = [&](size_t vi) { Var &v = vars[vi]; for (size_t o = 0; o < vars.size(); o++) if (o != vi && contains(full[o], v.raw)) return true;
        for (T l : latchS.facts.l) if (contains(l, v.raw)) return true;
        for (auto &kv : sol.mem) { if ((kv.second.kind == 0 && kv.second.cells.size()) || kv.second.kind == 1) continue; T o = kv.first, lm = oi(o).kind == OK::Heap ? (latchS.heap.count(o) ? latchS.heap[o].mem : kv.second.X) : memOf(latchS, o); if (contains(lm, v.raw) || lm->k == K::MHavoc && lm != kv.second.X) return true; }
        return false; };
      if (!prog) for (size_t vi = 0; vi < vars.size(); vi++) { Var &v = vars[vi]; if (done.count(vi) || v.phi >= 0 || !contains(v.n, v.raw) || usedBy(vi)) continue;
        unresolved.erase(v.raw); if (blocked(v.n, sol.mem[v.obj].X)) { unresolved.insert(v.raw); continue; } done.insert(vi); sol.mem[v.obj].cells[v.cell].kind = 2; if (solvedOnce.insert({v.raw, nullptr}).second) changed = true; 
        if (getenv("AIA_DEBUG")) fprintf(stderr, "  unused %s\n", str(v.raw).c_str()); }
      if (!prog && !changed) for (size_t vi = 0; vi < vars.size() && !prog; vi++) { Var &v = vars[vi]; if (done.count(vi) || banned.count(v.raw) || !isInt(v.ty) || v.ty == Ty::I1 || blocked(v.v0, nullptr) || contains(v.v0, kap) || rawTerm(v.v0)) continue;
        if (!containsIf(v.n, [](T u) { return u->k == K::Op && (u->op == O_PHI || u->op == O_JOIN); }) || (!kstack.empty() && !usedBy(vi))) continue;
        if (v.phi >= 0) { auto &q = sol.phi[P[v.phi]]; q.kind = 1; q.form = v.v0; q.guess = true; } else { CSol &q = sol.mem[v.obj].cells[v.cell]; q.kind = 1; q.form = v.v0; q.guess = true; }
        if (getenv("AIA_DEBUG")) fprintf(stderr, "  guess %s = %s\n", str(v.raw).c_str(), str(v.v0).c_str());
        unresolved.erase(v.raw); allSub(v.raw, v.v0, false); sub[v.raw] = v.v0; done.insert(vi); prog = guessed = true; } }
    // what has no closed form is kept as the recurrence itself: the remaining variables, computed together iteration by iteration
    if (!changed && !guessed && !getenv("AIA_NOFOLD")) {
      set<size_t> S; for (size_t vi = 0; vi < vars.size(); vi++) { Var &v = vars[vi]; if (!done.count(vi) && v.v0 && v.ty != Ty::P && (isInt(v.ty) || isFP(v.ty)) && !hasUndef(v.v0) && !hasUndef(v.n) && !opaque(v.v0)) S.insert(vi); }
      for (bool ch = true; ch;) { ch = false; set<T> keep = unresolved; for (size_t vi : S) unresolved.erase(vars[vi].raw);
        for (size_t vi : S) { Var &v = vars[vi]; int n = 0; bool bad = blocked(v.n, nullptr) || blocked(v.v0, nullptr) || containsIf(v.n, [&](T u) { if (++n > 600) return true; return (u->k == K::Op && (u->op == O_PHI || u->op == O_JOIN || u->op == O_UNK || u->op == O_WIT)) || (u->k == K::MHavoc && !(u->a.size() == 2 && u->a[1]->k == K::Sym)); }); if (bad) { S.erase(vi); ch = true; break; } }
        unresolved = keep; }
      vector<T> fm(vars.size(), nullptr);
      for (size_t vi : S) { vector<size_t> C{vi}; for (size_t i = 0; i < C.size(); i++) for (size_t o : S) if (std::find(C.begin(), C.end(), o) == C.end() && contains(vars[C[i]].n, vars[o].raw)) C.push_back(o);
        std::sort(C.begin(), C.end()); int num = 0; for (size_t o : C) containsIf(vars[o].n, [&](T u) { if (u->k == K::Sym && nameOf(u->op).rfind("acc:", 0) == 0) num = std::max(num, atoi(nameOf(u->op).c_str() + 4) + 1); return false; });
        std::unordered_map<T, T> m; vector<T> accs, b, in; for (size_t o : C) { T a = sym("acc:" + std::to_string(num) + "." + std::to_string(accs.size()) + "." + std::to_string((int)vars[o].ty), vars[o].ty); accs.push_back(a); m[vars[o].raw] = a; in.push_back(vars[o].v0); }
        for (size_t o : C) b.push_back(abstractBody(substM(vars[o].n, m), kap, {}));
        auto tup = [](vector<T> x) { return mk(K::Op, Ty::V, O_TUP, 0, x); };
        fm[vi] = foldT(vars[vi].ty, std::find(C.begin(), C.end(), vi) - C.begin(), tup(b), kap, tup(in), tup(accs)); }
      for (size_t vi : S) { Var &v = vars[vi]; unresolved.erase(v.raw); odoV.push_back(vi); sub[v.raw] = fm[vi]; done.insert(vi); if (solvedOnce.insert({v.raw, fm[vi]}).second) changed = true;
        if (v.phi >= 0) { sol.phi[P[v.phi]].kind = 1; sol.phi[P[v.phi]].form = fm[vi]; } else { CSol &c = sol.mem[v.obj].cells[v.cell]; c.kind = 1; c.form = fm[vi]; }
        if (getenv("AIA_DEBUG")) fprintf(stderr, "  fold %s = %s\n", str(v.raw).c_str(), str(fm[vi], 8).c_str()); } 
      for (size_t vi : S) allSub(vars[vi].raw, fm[vi], false); }
    if (getenv("AIA_DEBUG2")) for (size_t vi = 0; vi < vars.size(); vi++) if (!done.count(vi)) fprintf(stderr, "  left %s from %s next %s\n", str(vars[vi].raw).c_str(), str(vars[vi].v0).c_str(), str(vars[vi].n, 14).c_str());
    for (size_t vi : odoV) { Var &v = vars[vi]; T e = substM(full[vi], sub); if (v.phi >= 0) sol.phi[P[v.phi]].chk = e; else sol.mem[v.obj].cells[v.cell].chk = e; }
    if (guessed) { changed = true; for (auto &kv : sol.mem) if (kv.second.kind == 3) { kv.second.kind = 0; kv.second.cells.clear(); kv.second.upd = 0; } }
    // cells of fully promoted objects
    for (auto &kv : sol.mem) { MSol &m = kv.second; if (m.kind != 0 || m.cells.empty()) continue; bool all = true; for (auto &c : m.cells) if (c.kind == 0) all = false; if (all) { m.kind = 1; changed = true; } }
    // variant offsets: comprehension over iterations
    for (auto &kv : sol.mem) { T o = kv.first; MSol &m = kv.second; if (m.kind != 0 || !m.cells.empty()) continue;
      T lm = oi(o).kind == OK::Heap ? (latchS.heap.count(o) ? latchS.heap[o].mem : m.X) : memOf(latchS, o); if (!sub.empty()) lm = substM(lm, sub);
      std::unordered_map<T, T> xs; for (auto &kv2 : sol.mem) if (kv2.first != o && kv2.second.kind != 0) xs[kv2.second.X] = memAt(kv2.first, kap); if (!xs.empty()) lm = substM(lm, xs);
      if (blocked(lm, m.X)) continue;
      std::unordered_map<T, T> e; e[m.X] = mk(K::MSelf, Ty::M, 0, 0, {}); m.body = abstractBody(lm, kap, e); m.kind = 2; changed = true; }
    if (!changed) {
      if (getenv("AIA_DEBUG")) for (size_t vi = 0; vi < vars.size(); vi++) if (!done.count(vi)) fprintf(stderr, "  unsolved %s from %s next %s\n", str(vars[vi].raw).c_str(), str(vars[vi].v0).c_str(), str(vars[vi].n, 12).c_str());
      // memories that wait for each other: guess the written cells, leave their values open and re-derive them
      for (auto &kv : sol.mem) { T o = kv.first; MSol &m = kv.second; if (m.kind != 0 || !m.cells.empty()) continue;
        T lm = oi(o).kind == OK::Heap ? (latchS.heap.count(o) ? latchS.heap[o].mem : m.X) : memOf(latchS, o); if (!sub.empty()) lm = substM(lm, sub);
        vector<T> ch; T c = lm; bool ok = true; while (c->k == K::MCell && ch.size() < 40) { if (blocked(c->a[1], nullptr) || c->a[1] == nullptr) ok = false; ch.push_back(c); c = c->a[0]; } if (!ok || c != m.X || ch.empty()) continue;
        T g = m.X; for (size_t q = ch.size(); q-- > 0;) g = mcell(g, ch[q]->a[1], mk(K::Op, (Ty)ch[q]->op, O_UNK, 300, {kap}), (Ty)ch[q]->op);
        std::unordered_map<T, T> e; e[m.X] = mk(K::MSelf, Ty::M, 0, 0, {}); m.body = abstractBody(g, kap, e); m.kind = 2; changed = true; }
      if (changed) continue;
      // give up on what is left
      for (auto &p : sol.phi) if (p.second.kind == 0) { p.second.kind = 2; changed = true; }
      for (auto &kv : sol.mem) { MSol &m = kv.second; if (m.kind == 0) { changed = true; if (!m.cells.empty()) { m.kind = 1; for (auto &c : m.cells) if (c.kind == 0) c.kind = 2; } else m.kind = 3; } }
      if (!changed) stable = true;
    }
  }
  if (!stable) { for (auto &p : sol.phi) if (p.second.kind != 2) { p.second.kind = 2; } for (auto &kv : sol.mem) kv.second.kind = 3;
    runOnce(false, false); for (auto &m : latchS.mem) { if (oi(m.first).kind == OK::Alloca && !init.mem.count(m.first)) continue; if (!W.count(m.first) && m.second != memOf(init, m.first)) { sol.mem[m.first].X = Xof(m.first); sol.mem[m.first].kind = 3; W.insert(m.first); } } }
  // ---- 3. recorded pass (while not recording, the last round already was one)
  if (!(quiet && stable)) runOnce(true, false);
  vector<Edge> allEx = std::move(exits); vector<State> allR = std::move(rrets); bool hadLatch = haveLatch;
  if (hadLatch) { for (auto &h : latchS.heap) if (h.second.freed && status0.count(h.first) && !status0[h.first].freed && !contains(h.first, kap)) toggled.push_back(h.first);
    if (!toggled.empty()) { State keep = latchS; runOnce(true, true); for (auto &e : exits) allEx.push_back(std::move(e)); for (auto &r : rrets) allR.push_back(std::move(r)); latchS = keep; } }
  if (!quiet) { bool un = imp || !mixed.empty() || (hadLatch && !latchS.imprecise.empty() && init.imprecise.empty()); for (auto &p : sol.phi) if (p.second.kind == 2) un = true;
    for (auto &m : sol.mem) { if (m.second.kind == 3) un = true; if (m.second.kind == 1) for (auto &cs : m.second.cells) if (cs.kind == 2) un = true; }
    if (un) for (auto *h : loopStack) unsolvedLoops.insert(h); }
  // families created / consumed by one iteration
  struct FamD { T obj; ObjSt st; bool created; }; vector<FamD> fd; vector<T> latchF;
  if (hadLatch) {
    for (auto &h : latchS.heap) { if (!contains(h.first, kap)) continue; T o = h.first; bool mx = false; for (auto &m : mixed) if (m.obj == o) mx = true; if (mx) continue; bool simple = !o->a.empty() && o->a.back() == kap; if (simple) for (size_t i = 0; i + 1 < o->a.size(); i++) if (contains(o->a[i], kap)) simple = false;
      bool fromFam = false; for (auto &fm : init.fams) if (fm.site == o->c && fm.pre.size() + 1 == o->a.size()) fromFam = true;
      if (!simple) { if (!h.second.freed) imp = true; continue; }
      if (fromFam || !h.second.freed) fd.push_back({o, h.second, !fromFam}); }
    for (T l : latchS.facts.l) if (!init.facts.has(l) && l->k != K::All && (contains(l, kap) || true)) latchF.push_back(l);
    // narrow counters
  }
  // ---- 4. exits
  int exn = 0;
  auto finish = [&](State &s, T kx) -> bool {
    std::unordered_map<T, T> xm; for (auto &kv : sol.mem) xm[kv.second.X] = memAt(kv.first, kap); if (!xm.empty()) substState(s, xm);
    T kk = kap; std::unordered_map<T, T> km; km[kap] = kx; 
    vector<T> lf; for (T l : latchF) { T l2 = xm.empty() ? l : substM(l, xm); if (!contains(l2, kap)) continue; lf.push_back(l2); }
    vector<FamD> fdx = fd; for (auto &d : fdx) if (!xm.empty()) { d.st.size = substM(d.st.size, xm); d.st.mem = substM(d.st.mem, xm); }
    substState(s, km);
    for (T l : lf) { if (containsIf(l, [](T u) { return u->k == K::Load || (u->k == K::Op && (u->op == O_CALL)); }) && !containsIf(l, [](T u) { return u->k == K::FCmp; })) s.facts.add(allLit(l, kk, kx)); else if (containsIf(l, [](T u) { return u->k == K::FCmp; })) s.facts.add(allLit(l, kk, kx)); }
    for (auto &d : fdx) {
      if (d.created) { Fam fm; fm.site = d.obj->c; fm.pre.assign(d.obj->a.begin(), d.obj->a.end() - 1); fm.lo = cint(0); fm.hi = kx; fm.size = abstractBody(d.st.size, kk, {}); fm.mem = abstractBody(d.st.mem, kk, {}); fm.ai = d.st.ai; fm.libc = d.st.libc; if (!isC(kx, 0)) s.fams.push_back(fm); }
      else { vector<T> pre(d.obj->a.begin(), d.obj->a.end() - 1);
        for (size_t i = 0; i < s.fams.size(); i++) { Fam &fm = s.fams[i]; if (fm.site != d.obj->c || fm.pre != pre) continue;
          for (auto &h : init.heap) if (h.first->c == fm.site && h.first->a.size() == pre.size() + 1 && std::equal(pre.begin(), pre.end(), h.first->a.begin()) && s.imprecise.empty()) s.imprecise = "a family with members changed one by one";
          if (d.st.freed) { if (!isC(fm.lo, 0)) { s.imprecise = "partial family release"; break; } if (::sub(fm.hi, kx)->k == K::CInt && isC(::sub(fm.hi, kx), 0)) { s.fams.erase(s.fams.begin() + i); } else if (proveEQ0(::sub(fm.hi, kx), s.facts)) s.fams.erase(s.fams.begin() + i); else fm.lo = kx; }
          else { T nm = abstractBody(d.st.mem, kk, {}); if (nm != fm.mem) { if (::sub(fm.hi, kx) == cint(0)) fm.mem = nm; else { s.imprecise = "partial family update"; } } }
          break; } }
    }
    foldBack(s, &init);
    if (imp && s.imprecise.empty()) s.imprecise = "allocation pattern of a loop not representable";
    return consistent(s);
  };
  // paths on which some iteration j before the exit took the branch that leaves its block allocated
  auto someIteration = [&](State &s, T kx, const std::function<void(State)> &emit) {
    if (mixed.empty() || isC(kx, 0)) return;
    for (auto &m : mixed) { State z = s; T j = sym("nn:j" + std::to_string(lid) + "." + std::to_string(++exn), Ty::I64, kstack); if (!assume(lt0(::sub(j, kx)), z.facts)) continue;
      std::unordered_map<T, T> xm, km; for (auto &kv : sol.mem) xm[kv.second.X] = memAt(kv.first, kap); km[kap] = j; auto at = [&](T t) { return t ? substM(xm.empty() ? t : substM(t, xm), km) : t; };
      bool ok = true; for (T l : m.facts) if (l->k != K::All && !assume(at(l), z.facts)) { ok = false; break; } if (!ok || !consistent(z)) continue;
      if (m.vague && z.imprecise.empty()) z.imprecise = "branch of an iteration not representable";
      ObjSt st = m.st; st.size = at(st.size); st.mem = at(st.mem); z.heap[at(m.obj)] = st; emit(std::move(z)); }
    if (s.imprecise.empty()) s.imprecise = "allocation pattern of a loop not representable";
  };
  auto exitKap = [&](BasicBlock *E, State &s) -> T {
    if (f.LI.getLoopFor(E) == L && f.DT.dominates(E, latch)) if (auto *Br = dyn_cast<BranchInst>(E->getTerminator())) if (Br->isConditional()) {
      T c = s.env.back()[f.num.count(Br->getCondition()) ? f.num[Br->getCondition()] : 0]; if (!f.num.count(Br->getCondition())) c = nullptr;
      if (c) { T stay = L->contains(Br->getSuccessor(0)) ? c : notb(c); T co, rest; int64_t a;
        if (stay->k == K::LT0 && linearIn(stay->a[0], kap, co, rest) && cval(co, a) && a > 0 && !contains(rest, kap)) return a == 1 ? max0(mulc(rest, -1)) : max0(sdivT(addc(mulc(rest, -1), a - 1), cint(a)));
        if (stay->k == K::Not && stay->a[0]->k == K::LT0 && linearIn(stay->a[0]->a[0], kap, co, rest) && cval(co, a) && a < 0 && !contains(rest, kap)) return a == -1 ? max0(addc(rest, 1)) : max0(sdivT(addc(rest, -a), cint(-a)));
        if (stay->k == K::Not && stay->a[0]->k == K::EQ0 && linearIn(stay->a[0]->a[0], kap, co, rest) && cval(co, a) && (a == 1 || a == -1) && !contains(rest, kap)) { T n = a == 1 ? mulc(rest, -1) : rest; if (nonneg(n)) return n; }
      } }
    return sym("nn:w" + std::to_string(lid) + "." + std::to_string(++exn), Ty::I64, kstack);
  };
  if (cut) { for (auto &d : fd) if (d.created) return;
    State s = init; for (size_t i = 0; i < P.size(); i++) setV(f, s, P[i], phiAt(i, kap));
    for (auto &kv : sol.mem) { T o = kv.first; if (oi(o).kind == OK::Heap) { auto h = s.heap.find(o); if (h != s.heap.end() && !h->second.freed) h->second.mem = kv.second.X; } else s.mem[o] = kv.second.X; }
    if (!toggled.empty() || !hadLatch) return; if (finish(s, cut)) cutOut->push_back(std::move(s)); }
  for (auto &e : allEx) {
    T kx = exitKap(e.from, e.s); if (kx->k == K::Op && kx->op == O_MAX0) kx = resolveT(kx, e.s.facts);
    if (!quiet && (kx->k != K::Sym || isExtent(kx))) for (size_t i = 0; i < P.size(); i++) if (P[i]->getType()->isIntegerTy() && P[i]->getType()->getIntegerBitWidth() < 64 && P[i]->getType()->getIntegerBitWidth() > 1 && sol.phi[P[i]].kind == 1) { T co, rest; T fm = sol.phi[P[i]].form; if (linearIn(fm, kap, co, rest) && !isC(co, 0)) { bool uns = nxt[i] && containsIf(nxt[i], [](T u) { return u->k == K::Op && u->op == O_TRUNC; }); int b = P[i]->getType()->getIntegerBitWidth(); __int128 lim = ((__int128)1 << (uns ? b : b - 1)) - 1; T last = subst(fm, kap, kx); State es = e.s; es.facts.l.erase(std::remove_if(es.facts.l.begin(), es.facts.l.end(), [&](T l) { return contains(l, kap); }), es.facts.l.end());   // the iteration reached is the last one
      if (range(last).hi > lim || (b <= 32 && growsWithExtent(last))) ev("narrow-counter", &*H->getFirstNonPHIIt(), "loop counter '" + P[i]->getName().str() + "' has " + std::to_string(b) + " bits but must reach " + str(last, 5), &es, {mk(K::LT0, Ty::I1, 0, 0, {addc(mulc(last, -1), (int64_t)lim)})}, 1); } }
    if (finish(e.s, kx)) { someIteration(e.s, kx, [&](State z) { Edge n = e; n.s = std::move(z); out.push_back(std::move(n)); }); out.push_back(std::move(e)); }
  }
  for (auto &r : allR) { T kx = sym("nn:w" + std::to_string(lid) + "." + std::to_string(++exn), Ty::I64, kstack); if (finish(r, kx)) { someIteration(r, kx, [&](State z) { rets.push_back(std::move(z)); }); rets.push_back(std::move(r)); } }
  for (auto &kv : sol.mem) loopMem.erase(kv.second.X);
}
static vector<State> callFn(FnInfo &f, const vector<T> &args, State s, int ctx) {
  stats.funcs++; if (!quiet) stats.fnames.insert(f.F->getName().str());
  s.env.push_back(vector<T>(f.n, nullptr)); for (size_t i = 0; i < f.F->arg_size(); i++) s.env.back()[i] = args[i];
  vector<Edge> out; vector<State> rets; vector<LoopCtl> saved; saved.swap(loopCtl);
  try { runRegion(f, nullptr, &f.F->getEntryBlock(), std::move(s), out, rets, ctx); } catch (...) { loopCtl.swap(saved); throw; }
  loopCtl.swap(saved);
  for (auto &r : rets) { r.env.pop_back(); for (auto it = r.mem.begin(); it != r.mem.end();) { if (oi(it->first).kind == OK::Alloca && oi(it->first).ctxId == ctx) it = r.mem.erase(it); else ++it; } }
  mergeList(rets, 24); return rets;
}
vector<State> runFunction(Function *F, vector<T> args, State s) {
  loopCtl.clear(); loopStack.clear(); kstack.clear(); quiet = 0; depthCall = 0; FnInfo &f = info(F); return callFn(f, args, std::move(s), ctxOf(0, &F->getEntryBlock().front()));
}
void initModule(Module &M) {
  theM = &M;
  // in a concrete valuation a global holds its initial contents: the state of the first call
  globalHook = [](T o, int64_t off, Ty ty) -> T { const GlobalVariable *g = (const GlobalVariable *)oi(o).gv; if (!g || !g->hasInitializer()) return nullptr; Constant *c = foldGlobal(g, off, llTy(ty)); return c ? constT(c) : nullptr; };
  // globals that are ever written (or whose address escapes into a call) are mutable state
  for (auto &g : M.globals()) { if (g.isConstant() || !g.hasInitializer()) continue; vector<const User *> w(g.user_begin(), g.user_end()); set<const User *> seen; bool mut = false;
    if (!g.hasLocalLinkage() && g.hasDefaultVisibility()) { mutableG.insert(&g); mut = true; }
    while (!w.empty() && !mut) { auto *u = w.back(); w.pop_back(); if (!seen.insert(u).second) continue; if (isa<LoadInst>(u) || isa<DbgInfoIntrinsic>(u)) continue; if (isa<GEPOperator>(u) || (isa<ConstantExpr>(u))) { for (auto *x : u->users()) w.push_back(x); continue; } if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawDest()->stripPointerCasts() != &g) continue; } mut = true; }
    if (mut) mutableG.insert(&g); }
}
