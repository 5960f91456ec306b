// The contract of every public operation (what the documentation and headers promise).
#include "contract.hpp"
#include <cmath>
using std::string; using std::vector;

Spec parseSpec(const string &line) {
  Spec s; s.line = line; size_t i = 0; bool first = true;
  while (i < line.size()) { while (i < line.size() && line[i] == ' ') i++; size_t j = line.find(' ', i); if (j == string::npos) j = line.size(); string w = line.substr(i, j - i); i = j; if (w.empty()) break;
    if (first) { s.api = w; first = false; continue; } size_t e = w.find('='); if (e != string::npos) s.kv[w.substr(0, e)] = w.substr(e + 1); }
  return s;
}
// ---------------------------------------------------------------- values
T i2f(T a, int bits, bool sgn, Ty ty); T f2i(T a, int bits, bool sgn);
static bool uns(int dt) { return dt == 1 || dt == 3 || dt == 5 || dt == 7; }
static int bitsOf(int dt) { return dtSize[dt] * 8; }
T elemOf(const Tens &t, T i) { return readMem(mbase(objT(t.data)), mulc(i, dtSize[t.dt]), dtTy[t.dt]); }
T elemNum(const Tens &t, T i) { T v = elemOf(t, i); return uns(t.dt) ? zextT(v, bitsOf(t.dt)) : v; }
T wrapTo(T v, int dt) { return dt >= 8 ? v : truncT(v, bitsOf(dt)); }
static T fext(T v) { return v->ty == Ty::F64 ? v : mk(K::Op, Ty::F64, O_FEXT, 0, {v}); }
static T ftrunc(T v) { return v->ty == Ty::F32 ? v : mk(K::Op, Ty::F32, O_FTRUNC, 0, {v}); }
// v: raw element of type dt
T toF64(T v, int dt) { return dt == 8 ? fext(v) : dt == 9 ? v : i2f(v, bitsOf(dt), !uns(dt), Ty::F64); }
T fromF64(T v, int dt) { return dt == 8 ? ftrunc(v) : dt == 9 ? v : truncT(f2i(v, bitsOf(dt), !uns(dt)), bitsOf(dt)); }
static T castVal(T v, int from, int to) {   // C conversion of a raw element
  if (from == to) return v;
  if (to < 8) return from < 8 ? truncT(uns(from) ? zextT(v, bitsOf(from)) : v, bitsOf(to)) : truncT(f2i(v, bitsOf(to), !uns(to)), bitsOf(to));
  if (from < 8) return i2f(v, bitsOf(from), !uns(from), dtTy[to]);
  return to == 8 ? ftrunc(v) : fext(v);
}
static T zero(int dt) { return dt < 8 ? cint(0) : cfp(dtTy[dt], 0); }
static T flt(T a, T b) { return mk(K::FCmp, Ty::I1, FP_OLT, 0, {a, b}); }
static T fle(T a, T b) { return mk(K::FCmp, Ty::I1, FP_OLE, 0, {a, b}); }
static T addE(T a, T b, int dt) { return dt < 8 ? truncT(add(a, b), bitsOf(dt)) : fop(O_FADD, dtTy[dt], a, b); }
static T mulE(T a, T b, int dt) { return dt < 8 ? truncT(mul(a, b), bitsOf(dt)) : fop(O_FMUL, dtTy[dt], a, b); }
// sum over 0 <= kap < n
static T sumOver(T body, T kap, T n, int dt) { return dt < 8 ? truncT(red(1, cint(0), body, kap, n), bitsOf(dt)) : red(3, zero(dt), body, kap, n); }
static T ne0(T a) { return notb(eq0(a)); }
static T lin(const vector<T> &co, const vector<T> &dims) { T r = cint(0); for (size_t i = 0; i < co.size(); i++) r = add(mul(r, dims[i]), co[i]); return r; }
static T kapN(const string &n) { static int k = 0; return mk(K::Kap, Ty::I64, 900000 + k++, 0, {}); }

static int zeroExt = -1;   // the extent that is zero, if any
static vector<T> posDims(const string &p, int n) { vector<T> v; for (int i = 0; i < n; i++) v.push_back(i == zeroExt ? cint(0) : posSym(p + std::to_string(i))); return v; }
static vector<ODim> always(const vector<T> &d) { vector<ODim> r; for (T x : d) r.push_back({nullptr, x}); return r; }
static void rule(Contract &c, vector<vector<T>> when, int st, const string &text, const string &tag = "C12", T neg = nullptr) { c.rules.push_back({when, neg, st, tag, text}); }
static vector<vector<T>> anyOf(const vector<T> &l) { vector<vector<T>> r; for (T x : l) r.push_back({x}); return r; }
static T intArr(Contract &c, const string &n, int cnt, bool pos, bool nonneg = false) { vector<T> v; for (int i = 0; i < cnt; i++) v.push_back(sym((pos ? "pos:" : nonneg ? "nn:" : "") + n + std::to_string(i), Ty::I32)); return mkArr(n, 4, v); }
static T I32s(const string &n, int i, const char *pre = "") { return sym(pre + n + std::to_string(i), Ty::I32); }

static bool unary(Contract &c, const Spec &sp, Tens &in) {
  int dt = sp.num("dt", 8), rank = sp.num("rank", 2), dev = sp.num("dev", 0);
  in = mkTensor("input", dt, posDims("d", rank), dev); c.args = {in.ptr}; c.odims = always(in.dims); c.odt = dt; c.odev = scalarDev(dev, devId); c.flat = true; return true;
}
static void finish(Contract &c) { c.out = outParam("output"); c.args.push_back(c.out); }
static bool buildBinary(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 4), dt2 = sp.num("dt2", dt), r1 = sp.num("rank", 2), r2 = sp.num("rank2", r1), dev = sp.num("dev", 0), dev2 = sp.num("dev2", 0);
  Tens a = mkTensor("tensor1", dt, posDims("d", r1), dev), b = sp.num("alias", 0) ? a : mkTensor("tensor2", dt2, posDims("e", r2), dev2);
  c.args = {a.ptr, b.ptr}; finish(c);
  rule(c, {{cbool(dev != 0 || dev2 != 0)}}, ST_NSUP, "an operand that is not on the CPU");
  rule(c, {{cbool(dt != dt2)}}, ST_TYPE, "operands of different element types");
  rule(c, {{cbool(r1 != r2)}}, ST_ARG, "operands of different rank");
  if (r1 == r2) { vector<T> l; for (int i = 0; i < r1; i++) l.push_back(ne0(sub(a.dims[i], b.dims[i]))); rule(c, anyOf(l), ST_ARG, "operands of different extents"); }
  c.odims = always(a.dims); c.odt = dt; c.odev = scalarDev(0, devId); c.flat = true; string op = sp.api;
  c.elem = [=, &c](const vector<T> &, T k, State &s) -> T {
    T x = elemNum(a, k), y = elemNum(b, k); Ty ty = dtTy[dt];
    if (op == "div" && dt < 8) { assume(ne0(y), s.facts); if (!uns(dt) && dt >= 4) assume(notb(andb(eq0(addc(y, 1)), dt == 6 ? cbool(true) : cbool(true))), s.facts); }
    if (dt >= 8) { return fop(op == "add" ? O_FADD : op == "sub" ? O_FSUB : op == "mul" ? O_FMUL : O_FDIV, ty, x, y); }
    T v = op == "add" ? add(x, y) : op == "sub" ? sub(x, y) : op == "mul" ? mul(x, y) : sdivT(x, y); return wrapTo(v, dt);
  };
  return true;
}
static bool buildElementwise(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int dt = in.dt; string op = sp.api; finish(c);
  if (op == "sigmoid" || op == "tanh") rule(c, {{cbool(dt < 8)}}, ST_NSUP, string("element type ") + dtName[dt], "C09");
  if (op == "sqrt" && !uns(dt)) { T w = sym("nn:w", Ty::I64), kp = kapN("w"); auto negv = [&](T i) { T x = elemOf(in, i); return dt < 8 ? lt0(x) : flt(x, zero(dt)); };
    rule(c, {{lt0(sub(w, in.size)), negv(w)}}, ST_MATH, "a tensor with a negative element", "C12", allLit(notb(negv(kp)), kp, in.size)); }
  c.skipNaN = true;
  c.elem = [=, &c](const vector<T> &, T k, State &s) -> T {
    T x = elemOf(in, k); if (dt >= 8) c.nanOf = {x};
    if (op == "duplicate") { c.nanOf.clear(); return x; }
    if (op == "relu") { if (dt >= 8) return ite(flt(zero(dt), x), x, zero(dt)); if (uns(dt)) return x; return ite(lt0(mulc(x, -1)), x, cint(0)); }
    if (op == "sqrt") { if (!uns(dt)) assume(notb(dt < 8 ? lt0(x) : flt(x, zero(dt))), s.facts); return fromF64(callT("sqrt", Ty::F64, {toF64(x, dt)}), dt); }
    if (op == "tanh") return fromF64(callT("tanh", Ty::F64, {toF64(x, dt)}), dt);
    if (op == "sigmoid") return fromF64(fop(O_FDIV, Ty::F64, cfp(Ty::F64, 1), fop(O_FADD, Ty::F64, cfp(Ty::F64, 1), callT("exp", Ty::F64, {fneg(toF64(x, dt))}))), dt);
    return nullptr;
  };
  c.elemProp = op == "duplicate" ? "C22" : "C11"; return true;
}
static bool buildCast(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int to = sp.num("to", 8), dt = in.dt; c.odt = to; c.args.push_back(scalarDT(to)); finish(c); c.elemProp = "C22";
  c.elem = [=, &c](const vector<T> &, T k, State &) -> T { T x = elemOf(in, k); if (dt >= 8 && to < 8) c.nanOf = {x}; return castVal(x, dt, to); }; return true;
}
static bool buildReshape(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int r2 = sp.num("rank2", 2); vector<T> e = posDims("e", r2); int ng = sp.num("neg", -1); if (ng >= 0 && ng < r2) e[ng] = mulc(sym("nn:neg", Ty::I64), -1);   // one extent zero or negative
  c.args.push_back(mkArr("dims", 8, e)); c.args.push_back(cint(r2)); finish(c);
  T p = cint(1); for (T x : e) p = mul(p, x); rule(c, {{ne0(sub(p, in.size))}}, ST_DIMS, "a new shape with a different number of elements");
  c.odims = always(e); c.elemProp = "C22"; c.elem = [=](const vector<T> &, T k, State &) { return elemOf(in, k); }; return true;
}
static bool buildSqueeze(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int rank = in.rank; vector<T> ax; string l0 = sp.text("axes", "");   // comma separated: a dimension, or x for any value outside the tensor's dimensions
  for (size_t i = 0; i < l0.size();) { size_t j = l0.find(',', i); if (j == string::npos) j = l0.size(); string w = l0.substr(i, j - i); i = j + 1; if (w == "x") { T a = sym("axis" + std::to_string(ax.size()), Ty::I64); ax.push_back(a); assume(orb(lt0(a), notb(lt0(addc(a, -rank)))), c.st.facts); } else ax.push_back(cint(atoi(w.c_str()))); } int n = ax.size();
  int cnt = sp.num("count", n); c.args.push_back(mkArr("axis", 8, ax)); c.args.push_back(cint(cnt)); finish(c);
  rule(c, {{cbool(cnt < 0)}}, ST_ARG, "a negative number of axes");
  if (cnt > 0) { vector<T> l; for (T a : ax) { l.push_back(lt0(a)); l.push_back(notb(lt0(addc(a, -rank)))); } rule(c, anyOf(l), ST_ARG, "an axis outside the tensor's dimensions"); }
  c.odims.clear(); for (int d = 0; d < rank; d++) { T listed = cbool(cnt <= 0); if (cnt > 0) for (T a : ax) listed = orb(listed, eq0(addc(a, -d))); c.odims.push_back({notb(andb(eq0(addc(in.dims[d], -1)), listed)), in.dims[d]}); }
  c.elemProp = "C22"; c.elem = [=](const vector<T> &, T k, State &) { return elemOf(in, k); }; return true;
}
static bool buildSlice(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int n = in.rank; vector<T> b, z, st; for (int i = 0; i < n; i++) { string cl = sp.text("cls", ""), cb = sp.text("bcls", ""), cs = sp.text("scls", "");
    // classes of the arguments: begin nonnegative (default) or m: negative; step positive (default) or n: not positive
    b.push_back(i < (int)cb.size() && cb[i] == 'm' ? mulc(posSym("begin" + std::to_string(i)), -1) : I32s("begin", i, "nn:")); char k = i < (int)cl.size() ? cl[i] : 'g';   // class of the size argument: g any, z zero, p positive, n negative
    z.push_back(k == 'z' ? cint(0) : k == 'p' ? posSym("size" + std::to_string(i)) : k == 'n' ? mulc(posSym("size" + std::to_string(i)), -1) : I32s("size", i)); st.push_back(i < (int)cs.size() && cs[i] == 'n' ? addc(mulc(posSym("step" + std::to_string(i)), -1), 1) : posSym("step" + std::to_string(i))); }
  c.args.push_back(mkArr("begin", 4, b)); c.args.push_back(mkArr("size", 4, z)); c.args.push_back(mkArr("step", 4, st)); finish(c);
  vector<T> l; for (int i = 0; i < n; i++) { l.push_back(lt0(b[i])); l.push_back(notb(lt0(sub(b[i], in.dims[i])))); l.push_back(lt0(z[i])); l.push_back(lt0(sub(sub(in.dims[i], b[i]), z[i]))); l.push_back(lt0(addc(st[i], -1))); }
  if (n) rule(c, anyOf(l), ST_ARG, "a begin, size or step outside the tensor's extents");
  c.odims.clear(); for (int i = 0; i < n; i++) c.odims.push_back({ne0(z[i]), sdivT(addc(add(z[i], st[i]), -1), st[i])});
  c.flat = false; c.elemProp = "C22"; c.elem = [=](const vector<T> &co, T, State &) { vector<T> p; for (int i = 0; i < n; i++) p.push_back(add(b[i], mul(st[i], co[i]))); return elemOf(in, lin(p, in.dims)); }; return true;
}
static bool buildFull(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 8), rank = sp.num("rank", 2), dev = sp.num("dev", 0), id = sp.num("devid", 0); vector<T> d = posDims("d", rank); T v = sym("value", Ty::F64);
  c.args = {scalarDT(dt), scalarDev(dev, id), mkArr("dims", 8, d), cint(rank), v}; finish(c);
  c.odims = always(d); c.odt = dt; c.odev = scalarDev(dev, id); c.flat = true; c.elem = [=, &c](const vector<T> &, T, State &) { c.nanOf = {v}; return fromF64(v, dt); }; return true;
}
static bool buildCreate(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 8), rank = sp.num("rank", 2), dev = sp.num("dev", 0), id = sp.num("devid", 0), own = sp.num("data", 0); vector<T> d = posDims("d", rank); T len = sym("nn:len", Ty::I32), size = cint(1); for (T x : d) size = mul(size, x);
  T data = nullp(); if (own) { int o = paramObj("data", mulc(size, dtSize[dt]), {}); objs[o].dataElem = dtSize[dt]; objs[o].input = false; data = mkptr(objT(o), cint(0)); c.adoptPtr = data; }
  c.args = {scalarDT(dt), scalarDev(dev, id), mkArr("dims", 8, d), cint(rank), data, len}; finish(c);
  if (own) rule(c, {{ne0(sub(sdivT(zextT(len, 32), cint(dtSize[dt])), size))}}, ST_ARG, "caller data whose length does not match the extents");
  c.odims = always(d); c.odt = dt; c.odev = scalarDev(dev, id); c.metaProp = "C17"; return true;
}
static T sameOr1(T a, T b) { return orb(orb(eq0(addc(a, -1)), eq0(addc(b, -1))), eq0(sub(a, b))); }
static bool buildDot(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 4), dt2 = sp.num("dt2", dt), r1 = sp.num("rank", 1), r2 = sp.num("rank2", r1), dev = sp.num("dev", 0), dev2 = sp.num("dev2", 0); bool mm = sp.api == "matmul";
  Tens a = mkTensor("tensor1", dt, posDims("d", r1), dev), b = sp.num("alias", 0) ? a : mkTensor("tensor2", dt2, posDims("e", r2), dev2); auto &D = a.dims, &E = b.dims;
  c.args = {a.ptr, b.ptr}; finish(c); c.odt = dt; c.odev = scalarDev(0, devId); c.elemProp = "C19";
  rule(c, {{cbool(dev != 0 || dev2 != 0)}}, ST_NSUP, "an operand that is not on the CPU"); rule(c, {{cbool(dt != dt2)}}, ST_NSUP, "operands of different element types");
  auto inner = [&](T x, T y, int st) { rule(c, {{ne0(sub(x, y))}}, st, "operands whose contracted extents differ"); };
  auto prod = [=, &c](T i, T j) { return mulE(elemNum(a, i), elemNum(b, j), dt); };
  auto val = [=](T v) { return v; };
  // sum over the contracted index of a[ia(k)] * b[ib(k)]
  auto contract = [=](T n, std::function<T(T)> ia, std::function<T(T)> ib) { T kp = kapN("k"); T x = elemNum(a, ia(kp)), y = elemNum(b, ib(kp)); return sumOver(dt < 8 ? mul(x, y) : mulE(x, y, dt), kp, n, dt); };
  if (!mm) {
    if (r1 == 1 && r2 == 1) { inner(D[0], E[0], ST_DIMS); c.odims = always({cint(1)}); c.elem = [=](const vector<T> &, T, State &) { return contract(D[0], [=](T k) { return k; }, [=](T k) { return k; }); }; return true; }
    if (r1 == 0 || r2 == 0) { const Tens &t = r1 == 0 ? b : a, &q = r1 == 0 ? a : b; c.odims = always(t.dims); c.flat = true; Tens tt = t, qq = q; c.elem = [=](const vector<T> &, T k, State &) { return mulE(elemNum(tt, k), elemNum(qq, cint(0)), dt); }; return true; }
    if (r1 == 2 && r2 == 2) inner(D[1], E[0], ST_DIMS);
    else if (r2 == 1) inner(D[r1 - 1], E[0], ST_ARG); else if (r1 > 2 && r2 > 2) inner(D[r1 - 1], E[r2 - 2], ST_ARG); else { rule(c, {{cbool(true)}}, ST_ARG, "ranks the product is not defined for"); return true; }
    vector<T> o(D.begin(), D.end() - 1); if (r2 > 1) { for (int i = 0; i < r2; i++) if (i != r2 - 2) o.push_back(E[i]); } c.odims = always(o);
    c.elem = [=](const vector<T> &co, T, State &) { vector<T> x(co.begin(), co.begin() + r1 - 1), y(co.begin() + r1 - 1, co.end());
      return contract(D[r1 - 1], [=](T k) { auto p = x; p.push_back(k); return lin(p, D); }, [=](T k) { auto p = y; p.insert(p.begin() + (r2 >= 2 ? r2 - 2 : 0), k); return lin(p, E); }); };
    return true;
  }
  if (r1 == 0 || r2 == 0) { rule(c, {{cbool(true)}}, ST_ARG, "an operand of rank 0"); return true; }
  inner(D[r1 - 1], r2 == 1 ? E[0] : E[r2 - 2], ST_DIMS);
  int b1 = r1 - 2, b2 = r2 - 2; vector<T> o; int nb = 0;
  if (r1 == 1 && r2 == 1) o = {cint(1)}; else {
    nb = std::max(std::max(b1, b2), 0); vector<T> l;
    for (int i = 0; i < nb; i++) { int x = b1 - nb + i, y = b2 - nb + i; T p = x >= 0 ? D[x] : nullptr, q = y >= 0 ? E[y] : nullptr; if (p && q) l.push_back(notb(sameOr1(p, q))); o.push_back(!p ? q : !q ? p : ite(eq0(addc(p, -1)), q, p)); }
    if (l.size()) rule(c, anyOf(l), ST_DIMS, "batch extents that do not broadcast");
    if (r1 >= 2) o.push_back(D[r1 - 2]); if (r2 >= 2) o.push_back(E[r2 - 1]); }
  c.odims = always(o);
  c.elem = [=](const vector<T> &co, T, State &) {
    auto bidx = [&](const vector<T> &dims, int nbt) { vector<T> v; for (int i = 0; i < nbt; i++) { T x = co[nb - nbt + i]; v.push_back(ite(eq0(addc(dims[i], -1)), cint(0), x)); } return v; };
    vector<T> x = bidx(D, std::max(b1, 0)), y = bidx(E, std::max(b2, 0)); int at = nb; T row = nullptr, col = nullptr; bool vv = r1 == 1 && r2 == 1; if (!vv && r1 >= 2) row = co[at++]; if (!vv && r2 >= 2) col = co[at++];
    return contract(D[r1 - 1], [=](T k) { auto p = x; if (row) p.push_back(row); p.push_back(k); return lin(p, D); }, [=](T k) { auto p = y; p.push_back(k); if (col) p.push_back(col); return lin(p, E); });
  };
  return true;
}
static bool buildDropout(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int dt = in.dt; T rate = sym("rate", Ty::F64); if (sp.kv.count("rate")) rate = cfp(Ty::F64, atof(sp.kv.at("rate").c_str())); c.args.push_back(rate); finish(c); c.externs = {"time", "srand", "rand"};
  double rv = sp.kv.count("rate") ? atof(sp.kv.at("rate").c_str()) : 0.5; bool fixed = sp.kv.count("rate");
  if (fixed) rule(c, {{cbool(!(rv >= 0 && rv <= 1))}}, ST_ARG, "a rate outside [0,1]", "C20"); else rule(c, {{notb(fle(cfp(Ty::F64, 0), rate))}, {notb(fle(rate, cfp(Ty::F64, 1)))}}, ST_ARG, "a rate outside [0,1]", "C20");
  c.elem = [](const vector<T> &, T, State &) -> T { return nullptr; };
  c.post = [=](Result &r, State &s, T got) {
    T x = elemOf(in, sym("nn:k", Ty::I64)), z = zero(dt); got = resolveT(got, s.facts); T w = resolveT(x, s.facts);
    if (fixed && (rv == 0 || rv == 1)) { equalValue(r, s, got, rv == 0 ? w : z, dt, "C20", rv == 0 ? "element kept at rate 0" : "element dropped at rate 1", 0, {}); return; }
    std::function<bool(T)> ok = [&](T t) { return t == w || t == z || (t->k == K::Ite && ok(t->a[1]) && ok(t->a[2])) || expandRem(t, s.facts) == expandRem(w, s.facts) || sameT(t, w, s.facts); };
    if (ok(got)) { r.ok("C20"); r.ok("C05"); return; }
    if (getenv("AIA_ELEM")) printf("ELEM got %s\n want %s\n", str(got, 12).c_str(), str(w, 12).c_str());
    // otherwise compare under valuations: the element must be the input element or zero
    vector<T> lits; bool use = s.imprecise.empty() && !s.approx; for (T l : s.facts.l) { if (opaque(l)) use = false; lits.push_back(l); }
    if (use) { Model m; m.seed = 11; for (int i = 0; i < 250; i++) { m.seed += 7919; specialFP = i % 4 == 3; bool have = findModel(lits, {}, m, 300); if (!have) { specialFP = false; continue; } EV a = evalT(got, m), b = evalT(w, m); specialFP = false; if (a.k == 6) { r.report("C05", "violated", "uninit-element", "an output element is never written", m.show()); return; } if (!a.k || a.k != b.k) continue;
        bool bad = a.k == 1 ? a.i != b.i && a.i != 0 : a.f != b.f && a.f != 0 && !(std::isnan(a.f) && std::isnan(b.f)); if (bad) { r.report("C20", "violated", "wrong-element", "output element [k] is " + evStr(a) + ", neither zero nor the input element " + evStr(b), m.show()); return; } } }
    r.report("C20", "open", "element", "output element not resolved");
  };
  return true;
}
static bool buildSoftmax(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int ax = sp.num("axis", -1), n = in.rank, dt = in.dt; c.args.push_back(cint(ax)); finish(c);
  rule(c, {{cbool(ax < -1 || ax > n - 1)}}, ST_NSUP, "an axis outside the tensor's dimensions"); if (ax < -1 || ax > n - 1) return true;
  c.elemProp = "C25"; c.flat = ax == -1; c.tol = 1e-6;
  auto ex = [=](T v) { return fromF64(callT("exp", Ty::F64, {toF64(v, dt)}), dt); };
  c.elem = [=, &c](const vector<T> &co, T k, State &s) -> T {
    if (dt < 8) return nullptr;   // integer tensors: the exponentials do not fit the type
    T kp = kapN("s"), me, body, cnt; if (ax == -1) { me = elemOf(in, k); body = elemOf(in, kp); cnt = in.size; } else { auto p = co; me = elemOf(in, lin(p, in.dims)); p[ax] = kp; body = elemOf(in, lin(p, in.dims)); cnt = in.dims[ax]; }
    c.nanOf = {me}; T tot = red(3, cfp(Ty::F64, 0), toF64(ex(body), dt), kp, cnt); return fromF64(fop(O_FDIV, Ty::F64, toF64(ex(me), dt), tot), dt);
  };
  return true;
}
static bool buildBatchNorm(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int ax = sp.num("axis", 1), n = in.rank, dt = in.dt; string nm[4] = {"scale", "bias", "mean", "variance"}; vector<Tens> p; string odds = sp.text("odd", ""); int odd = odds.size() ? odds[0] - '0' : -1, what = sp.num("what", 0);  // odd: which parameter tensor differs, what: 1 type 2 size 3 rank
  T ch = ax >= 0 && ax < n ? in.dims[ax] : posSym("ch"); T eps = sym("epsilon", Ty::F64); c.args.push_back(cint(ax));
  for (int i = 0; i < 4; i++) { if (i && sp.num("alias", 0)) { p.push_back(p[0]); c.args.push_back(p[0].ptr); continue; } bool o = odds.find(char('0' + i)) != string::npos; vector<T> d{ch}; if (o && what == 2) d = {posSym(i == odd ? "other" : "other" + std::to_string(i))}; if (o && what == 3) d = {ch, cint(1)}; p.push_back(mkTensor(nm[i], o && what == 1 ? (dt + 1) % 10 : dt, d)); c.args.push_back(p.back().ptr); }
  c.args.push_back(eps); finish(c);
  rule(c, {{cbool(n < 2 || n > 5)}}, ST_DIMS, "an input of unsupported rank"); if (n < 2 || n > 5) return true;
  rule(c, {{cbool(ax != 1 && ax != n - 1)}}, ST_ARG, "an axis that is neither 1 nor the last"); if (ax != 1 && ax != n - 1) return true;
  rule(c, {{cbool(odd >= 0 && what == 1)}}, ST_TYPE, "parameter tensors of another element type"); rule(c, {{cbool(odd >= 0 && what == 3)}}, ST_DIMS, "a parameter tensor that is not a vector");
  if (what == 2) for (int i = 0; i < 4; i++) if (odds.find(char('0' + i)) != string::npos) rule(c, {{ne0(sub(p[i].dims[0], ch))}}, ST_DIMS, "a parameter tensor of another size");
  rule(c, {{flt(eps, cfp(Ty::F64, 0))}}, ST_ARG, "a negative epsilon");
  rule(c, {}, ST_NSUP, "an input that is not on the CPU", "C12", cbool(sp.num("dev", 0) == 0));   // may be rejected
  // rounding epsilon into the variance can only give a negative radicand for a negative variance
  { T w = sym("nn:w", Ty::I64), kp = kapN("w"); auto negv = [&](T i) { T v = elemOf(p[3], i); return dt < 8 ? lt0(uns(dt) ? cint(0) : v) : flt(v, zero(dt)); }; rule(c, {}, ST_MATH, "a negative variance", "C12", dt < 8 && !uns(dt) ? cbool(false) : allLit(notb(negv(kp)), kp, p[3].size)); (void)w; }   // signed sums may wrap to a negative radicand
  c.flat = false; c.elemProp = "C26"; c.tol = 1e-4;
  c.elem = [=, &c](const vector<T> &co, T, State &s) -> T { if (dt < 8) return nullptr; T x = elemOf(in, lin(co, in.dims)), ci = co[ax]; T sc = elemOf(p[0], ci), bi = elemOf(p[1], ci), me = elemOf(p[2], ci), va = elemOf(p[3], ci); Ty ty = dtTy[dt];
    T num = fop(O_FSUB, ty, x, me), den = fromF64(callT("sqrt", Ty::F64, {toF64(fop(O_FADD, ty, va, fromF64(eps, dt)), dt)}), dt); T q = fop(O_FDIV, ty, num, den); c.nanOf = {q, x, va, eps}; return fop(O_FADD, ty, fop(O_FMUL, ty, sc, q), bi); };
  return true;
}
static bool buildPooling(Contract &c, const Spec &sp) {
  Tens in; unary(c, sp, in); int n = in.rank, dt = in.dt, sd = std::max(n - 2, 0); string mode = sp.text("mode", "max"); vector<std::pair<int64_t, std::pair<Ty, T>>> mc; for (size_t i = 0; i <= mode.size(); i++) mc.push_back({(int64_t)i, {Ty::I8, cint(i < mode.size() ? (signed char)mode[i] : 0)}});
  int mo = paramObj("mode", cint(mode.size() + 1), mc); objs[mo].userArray = true; c.args.push_back(mkptr(objT(mo), cint(0)));
  vector<T> ks, st, pa, di; for (int i = 0; i < sd; i++) { ks.push_back(I32s("ksize", i, "pos:")); st.push_back(I32s("stride", i, "pos:")); pa.push_back(I32s("padding", i, "nn:")); di.push_back(I32s("dilation", i, "pos:")); }
  c.args.push_back(mkArr("ksize", 4, ks)); c.args.push_back(mkArr("stride", 4, st)); c.args.push_back(mkArr("padding", 4, pa)); c.args.push_back(mkArr("dilation", 4, di)); finish(c);
  // windows stay within int range: an assumption of the interface (int arguments)
  for (int i = 0; i < sd; i++) { assume(lt0(addc(mul(di[i], ks[i]), -(1 << 29))), c.st.facts); assume(lt0(addc(pa[i], -(1 << 29))), c.st.facts); }
  rule(c, {{cbool(mode != "max" && mode != "avg")}}, ST_ARG, "an unknown pooling mode"); rule(c, {{cbool(n < 3 || n > 5)}}, ST_DIMS, "an input of unsupported rank"); if (n < 3 || n > 5 || (mode != "max" && mode != "avg")) return true;
  vector<T> l, o{in.dims[0], in.dims[1]}; for (int i = 0; i < sd; i++) { T span = sub(add(in.dims[i + 2], mulc(pa[i], 2)), mul(di[i], addc(ks[i], -1))); l.push_back(lt0(addc(span, -1))); o.push_back(addc(sdivT(addc(span, -1), st[i]), 1)); }
  rule(c, anyOf(l), ST_ARG, "a window larger than the padded input"); c.odims = always(o); c.flat = false; c.elemProp = "C24"; c.tol = 1e-6;
  c.elem = [=, &c](const vector<T> &co, T, State &) -> T {
    bool avg = mode == "avg"; vector<T> kp, pos{co[0], co[1]}; T inside = cbool(true), win = cint(1); for (int i = 0; i < sd; i++) { T k = kapN("k"); kp.push_back(k); T x = add(sub(mul(co[2 + i], st[i]), pa[i]), mul(di[i], k)); pos.push_back(x); inside = andb(inside, andb(notb(lt0(x)), lt0(sub(x, in.dims[2 + i])))); win = mul(win, ks[i]); }
    T v = toF64(elemOf(in, lin(pos, in.dims)), dt), body = ite(inside, v, cfp(Ty::F64, avg ? 0 : -HUGE_VAL)); for (int i = sd; i-- > 0;) body = red(avg ? 3 : 5, cfp(Ty::F64, avg ? 0 : -HUGE_VAL), body, kp[i], ks[i]);
    if (avg) body = fop(O_FDIV, Ty::F64, body, i2f(win, 64, true, Ty::F64)); else body = ite(fle(body, cfp(Ty::F64, -HUGE_VAL)), cfp(Ty::F64, 0), body);
    c.nanOf = {body}; return fromF64(body, dt); };
  return true;
}
static bool buildConv(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 8), dt2 = sp.num("dt2", dt), n = sp.num("rank", 4), n2 = sp.num("rank2", n), groups = sp.num("groups", 1), dev = sp.num("dev", 0); int sd = std::max(n - 2, 0); bool direct = sp.api == "conv"; int want = sp.api == "conv2d" ? 4 : 5;
  Tens in = mkTensor("input", dt, posDims("d", n), dev), fl = sp.num("alias", 0) ? in : mkTensor("filter", dt2, posDims("e", n2), dev); c.args = {in.ptr, fl.ptr};
  vector<T> st, pa, di; for (int i = 0; i < sd; i++) { st.push_back(I32s("stride", i, "pos:")); pa.push_back(I32s("padding", i, "nn:")); di.push_back(I32s("dilation", i, "pos:")); }
  for (int i = 0; i < sd; i++) { assume(lt0(addc(pa[i], -(1 << 29))), c.st.facts); }
  T S = mkArr("stride", 4, st), Pd = mkArr("padding", 4, pa), Dl = mkArr("dilation", 4, di);
  if (direct) c.args.insert(c.args.end(), {S, Pd, Dl, cint(groups)}); else c.args.insert(c.args.end(), {S, cint(sd), Pd, cint(sd), Dl, cint(sd), cint(groups)}); finish(c); c.odt = dt; c.odev = scalarDev(dev, devId);
  if (!direct) rule(c, {{cbool(n != want)}}, ST_DIMS, "an input of another rank");
  rule(c, {{cbool(dt != dt2)}}, ST_TYPE, "a filter of another element type"); rule(c, {{cbool(groups != 1)}}, ST_NSUP, "a grouped convolution"); rule(c, {{cbool(dt != 8)}}, ST_NSUP, string("element type ") + dtName[dt], "C09");
  rule(c, {{cbool(n < 3 || n2 != n)}}, ST_DIMS, "a filter of another rank"); if ((!direct && n != want) || n < 3 || n2 != n) return true;
  rule(c, {{ne0(sub(in.dims[1], fl.dims[1]))}}, ST_DIMS, "a filter with another number of channels");
  vector<T> l, o{in.dims[0], fl.dims[0]}; for (int i = 0; i < sd; i++) { T span = sub(add(in.dims[2 + i], mulc(pa[i], 2)), addc(mul(di[i], addc(fl.dims[2 + i], -1)), 1)); l.push_back(lt0(span)); o.push_back(addc(sdivT(span, st[i]), 1)); }
  rule(c, anyOf(l), ST_ARG, "a filter larger than the padded input"); c.odims = always(o); c.elemProp = "C23"; c.tol = 1e-4;
  c.elem = [=, &c](const vector<T> &co, T, State &) -> T {
    T ic = kapN("ic"); vector<T> pos{co[0], ic}, fp{co[1], ic}, kp; T inside = cbool(true); for (int i = 0; i < sd; i++) { T k = kapN("k"); kp.push_back(k); T x = add(sub(mul(co[2 + i], st[i]), pa[i]), mul(di[i], k)); pos.push_back(x); fp.push_back(k); inside = andb(inside, andb(notb(lt0(x)), lt0(sub(x, in.dims[2 + i])))); }
    T body = ite(inside, fop(O_FMUL, Ty::F32, elemOf(in, lin(pos, in.dims)), elemOf(fl, lin(fp, fl.dims))), cfp(Ty::F32, -0.0)); for (int i = sd; i-- > 0;) body = red(3, cfp(Ty::F32, -0.0), body, kp[i], fl.dims[2 + i]); body = red(3, cfp(Ty::F32, 0), body, ic, in.dims[1]); c.nanOf = {body}; return body; };
  return true;
}
// ---------------------------------------------------------------- tensors owned by the caller (destroy, resolve)
static int heapObj(State &s, const string &n, T size, vector<std::pair<int64_t, std::pair<Ty, T>>> cells) {
  int o = newObj(OK::Heap, n); objs[o].size = size; T m = mbase(objT(o)); for (auto &c : cells) m = mcell(m, cint(c.first), c.second.second, c.second.first); ObjSt st; st.size = size; st.mem = m; s.heap[objT(o)] = st; return o;
}
static T P(int o) { return mkptr(objT(o), cint(0)); }
static bool buildDestroy(Contract &c, const Spec &sp) {
  int rank = sp.num("rank", 2); bool empty = sp.num("empty", 0), nodata = sp.num("nodata", 0); State &s = c.st; vector<T> d = posDims("d", rank); T size = cint(1); for (T x : d) size = mul(size, x); vector<int> own;
  int h = paramObj("handle", cint(8), {}); objs[h].outParam = true; T t = nullp();
  if (!empty) {
    T dims = nullp(), m2m = nullp(), data = nullp(); vector<std::pair<int64_t, std::pair<Ty, T>>> dc, mc; for (int i = 0; i < rank; i++) { dc.push_back({8 * i, {Ty::I64, d[i]}}); mc.push_back({8 * i, {Ty::I64, cint(rank - 1 - i)}}); }
    if (rank) { int a = heapObj(s, "tensor.dims", cint(8 * rank), dc), b = heapObj(s, "tensor.min2maj", cint(8 * rank), mc); own = {a, b}; dims = P(a); m2m = P(b); }
    if (!nodata) { int a = heapObj(s, "tensor.data", mulc(size, 4), {}); own.push_back(a); data = P(a); }
    int st = heapObj(s, "tensor.storage", cint(32), {{0, {Ty::I64, scalarDT(8)}}, {8, {Ty::I64, scalarDev(0, devId)}}, {16, {Ty::I64, size}}, {24, {Ty::P, data}}}); own.push_back(st);
    int im = heapObj(s, "tensor", cint(56), {{0, {Ty::I64, size}}, {8, {Ty::I64, cint(0)}}, {16, {Ty::I64, cint(rank)}}, {24, {Ty::P, dims}}, {32, {Ty::I32, cint(0)}}, {40, {Ty::P, m2m}}, {48, {Ty::P, P(st)}}}); own.push_back(im); t = P(im); }
  setMem(s, objT(h), mcell(mbase(objT(h)), cint(0), t, Ty::P)); c.args = {P(h)};
  c.custom = [=](Result &r, vector<State> &fin) {
    for (auto &f : fin) { string w; int64_t v; T ret = f.ret ? resolveT(f.ret, f.facts) : nullptr;
      if (!ret || !cval(ret, v)) { r.report("C06", "open", "status", "status of aitisa_destroy unresolved"); continue; }
      if (v != 0) { if (feasible(f, {}, w, 0, 300, true)) r.report("C17", "violated", "destroy-status", string("destroying a valid handle returns ") + (v < 9 && v > 0 ? stName[v] : "?"), w); continue; } r.ok("C17");
      for (int o : own) { auto it = f.heap.find(objT(o)); bool freed = it != f.heap.end() && it->second.freed; if (freed) { r.ok("C17"); r.ok("C01"); } else if (feasible(f, {}, w, 0, 300, true)) { r.report("C17", "violated", "not-released", objs[o].name + " is not released by aitisa_destroy", w); r.report("C01", "violated", "leak", objs[o].name + " is not released by aitisa_destroy", w); } }
      State g = f; T now = loadAt(g, P(h), 0, Ty::P); if (now) now = resolveT(now, g.facts);
      if (now && now->k == K::Null) r.ok("C17"); else if (feasible(f, {}, w, 0, 300, true)) r.report("C17", "violated", "handle-kept", "the handle still points to the destroyed tensor", w); }
  };
  return true;
}
static bool buildResolve(Contract &c, const Spec &sp) {
  int dt = sp.num("dt", 8), rank = sp.num("rank", 2); Tens t = mkTensor("input", dt, posDims("d", rank)); auto o = [&](const char *n, int sz) { int x = paramObj(n, cint(sz), {}); objs[x].outParam = true; return P(x); };
  T dtp = o("dtype", 8), dv = o("device", 8), dm = o("dims", 8), nd = o("ndim", 8), da = o("data", 8), ln = o("len", 4); c.args = {t.ptr, dtp, dv, dm, nd, da, ln};
  // the length is reported as unsigned int by the interface: tensors it can describe
  assume(lt0(addc(mulc(t.size, dtSize[dt]), -((int64_t)1 << 32))), c.st.facts);
  c.ignore = {"narrow-value"};
  c.custom = [=](Result &r, vector<State> &fin) {
    for (auto &f : fin) { int64_t v; State s = f; string w; T ret = f.ret ? resolveT(f.ret, f.facts) : nullptr; if (!ret || !cval(ret, v)) { if (ret && hasUndef(ret) && feasible(f, {}, w, 0, 300, true)) r.report("C06", "violated", "undefined-status", "the returned status is never set", w); else r.report("C06", "open", "status", "status unresolved"); continue; }
      if (v != 0) { if (feasible(f, {}, w, 0, 300, true)) r.report("C17", "violated", "resolve-status", "resolving a valid tensor fails", w); continue; } r.ok("C06");
      auto eq = [&](T p, Ty ty, T want, const char *n) { T got = loadAt(s, p, 0, ty); if (!got) { r.report("C17", "open", "resolve", n); return; } if (ty == Ty::P) { got = resolveT(got, s.facts); if (got == want) r.ok("C17"); else if (feasible(s, {}, w, 0, 300, true)) r.report("C17", "violated", "resolve", string(n) + " reported as " + str(got, 3), w); } else r.goal("C17", s, eq0(sub(got, want)), "resolve", string(n) + " reported as " + str(got, 4) + ", tensor has " + str(want, 4)); };
      eq(dtp, Ty::I64, scalarDT(dt), "element type"); eq(dv, Ty::I64, scalarDev(0, devId), "device"); eq(nd, Ty::I64, cint(rank), "rank"); eq(dm, Ty::P, rank ? P(t.dimso) : nullp(), "extents"); eq(da, Ty::P, P(t.data), "data"); eq(ln, Ty::I32, truncT(mulc(t.size, dtSize[dt]), 32), "length in bytes"); }
  };
  return true;
}
// ---------------------------------------------------------------- index helpers and broadcasting
static void eachFinal(Result &r, vector<State> &fin, std::function<void(State &)> f) { for (auto &s : fin) { if (s.oom) continue; f(s); } if (fin.empty()) r.report("C18", "open", "no-path", "no returning path found"); }
static bool buildIndex(Contract &c, const Spec &sp) {
  int rank = sp.num("rank", 3), dim = sp.num("dim", 0); Tens t = mkTensor("t", 8, posDims("d", rank)); string f = sp.api; auto stride = [=](int i) { T p = cint(1); for (int j = i + 1; j < rank; j++) p = mul(p, t.dims[j]); return p; };
  vector<T> co; for (int i = 0; i < rank; i++) { T x = sym("nn:c" + std::to_string(i), Ty::I64); co.push_back(x); } T li = lin(co, t.dims);
  auto bound = [&]() { for (int i = 0; i < rank; i++) assume(lt0(sub(co[i], t.dims[i])), c.st.facts); };
  int oo = paramObj("result", cint(8 * rank), {}); objs[oo].outParam = true;
  if (f == "get_stride") { c.args = {t.ptr, cint(dim)}; c.custom = [=](Result &r, vector<State> &fin) { eachFinal(r, fin, [&](State &s) { r.goal("C18", s, eq0(sub(s.ret, stride(dim))), "stride", "stride of dimension " + std::to_string(dim) + " is " + str(s.ret, 5)); }); }; return true; }
  if (f == "get_all_strides") { c.args = {t.ptr, P(oo)}; c.custom = [=](Result &r, vector<State> &fin) { eachFinal(r, fin, [&](State &s) { for (int i = 0; i < rank; i++) { T v = loadAt(s, P(oo), 8 * i, Ty::I64); r.goal("C18", s, eq0(sub(v, stride(i))), "stride", "stride " + std::to_string(i) + " is " + str(v, 5)); } }); }; return true; }
  if (f == "coords_to_linidx" || f == "coords_to_offset") { bound(); c.args = {t.ptr, mkArr("coords", 8, co), cint(rank)}; c.custom = [=](Result &r, vector<State> &fin) { eachFinal(r, fin, [&](State &s) { r.goal("C18", s, eq0(sub(s.ret, li)), "index", "index of the coordinates is " + str(s.ret, 6)); }); }; return true; }
  if (f == "linidx_to_coords" || f == "offset_to_coords") {
    // as a digit expansion of an arbitrary index below the size
    T k = sym("nn:x", Ty::I64); assume(lt0(sub(k, t.size)), c.st.facts); c.args = {t.ptr, k, P(oo)};
    c.custom = [=](Result &r, vector<State> &fin) { eachFinal(r, fin, [&](State &s) { for (int i = 0; i < rank; i++) { T v = loadAt(s, P(oo), 8 * i, Ty::I64), want = sremT(sdivT(k, stride(i)), t.dims[i]); r.goal("C18", s, eq0(sub(v, want)), "coordinate", "coordinate " + std::to_string(i) + " of index x is " + str(v, 6)); } }); };
    return true; }
  return false;
}
static bool buildBroadcast(Contract &c, const Spec &sp) {
  int n1 = sp.num("rank", 2), n2 = sp.num("rank2", 2), no = std::max(n1, n2); vector<T> d = posDims("d", n1), e = posDims("e", n2); int oo = paramObj("dims_out", cint(8 * no), {}); objs[oo].outParam = true;
  c.args = {mkArr("dims_in1", 8, d), cint(n1), mkArr("dims_in2", 8, e), cint(n2), P(oo), cint(no)}; T good = cbool(true); vector<T> want; for (int i = 0; i < no; i++) { int x = n1 - no + i, y = n2 - no + i; T p = x >= 0 ? d[x] : nullptr, q = y >= 0 ? e[y] : nullptr; if (p && q) good = andb(good, sameOr1(p, q)); want.push_back(!p ? q : !q ? p : ite(eq0(addc(p, -1)), q, p)); }
  c.custom = [=](Result &r, vector<State> &fin) { for (auto &s0 : fin) { T ret = resolveT(s0.ret, s0.facts); int64_t v; State s = s0; if (!cval(ret, v)) { r.report("C18", "open", "status", "status unresolved"); continue; } r.ok("C06");
      if (v != 0) { if (v != ST_DIMS) { string w; if (feasible(s, {}, w)) r.report("C18", "violated", "wrong-status", "incompatible extents give status " + std::to_string(v), w); } r.goal("C18", s, notb(good), "broadcast", "compatible extents are rejected"); continue; }
      r.goal("C18", s, good, "broadcast", "incompatible extents are accepted"); for (int i = 0; i < no; i++) { T g = loadAt(s, P(oo), 8 * i, Ty::I64); State z = s; if (!assume(good, z.facts)) continue; r.goal("C18", z, eq0(sub(g, want[i])), "broadcast", "broadcast extent " + std::to_string(i) + " is " + str(g, 5)); } } };
  return true;
}
// ---------------------------------------------------------------- header and registry probes (checks/probes)
static T loadAtT(State &s, int o, T off, Ty ty) { return readMem(memOf(s, objT(o)), off, ty, &s.facts); }
static void eqMem(Result &r, const string &prop, State &s, T got, T want, int dt, const string &what, const vector<T> &nn = {}) {
  if (!got) { r.report(prop, "open", "value", what + " unknown"); return; }
  equalValue(r, s, got, want, dt, prop, what, 0, nn);
}
static bool buildProbe(Contract &c, const Spec &sp) {
  string f = sp.api.substr(6); int dt = sp.num("dt", 8), rank = sp.num("rank", 3); c.api = "aia_" + sp.api; c.ignore = {"write-global", "read-global"};
  auto each = [](vector<State> &fin, std::function<void(State &)> g) { for (auto &s : fin) g(s); };
  auto obj = [&](const string &n, int64_t sz) { int o = paramObj(n, cint(sz), {}); objs[o].outParam = true; objs[o].dataElem = 0; return o; };
  auto isDT = [](Result &r, State &s, int o, int dt, const string &what) { T code = loadAt(s, P(o), 0, Ty::I32), size = loadAt(s, P(o), 4, Ty::I8); r.goal("C10", s, eq0(addc(code, -dt)), "registry", what + " has type code " + str(code, 3)); r.goal("C10", s, eq0(addc(size, -dtSize[dt])), "registry", what + " has element size " + str(size, 3)); };
  if (f == "get" || f == "set" || f == "get_array" || f == "set_array" || f == "castto") {
    c.evProp = "C10"; bool arr = f.find("array") != string::npos, rd = f[0] == 'g'; int es = dtSize[dt]; T n = sym("pos:e8", Ty::I64), i = addc(sym("pos:e9", Ty::I64), -1); if (arr) assume(lt0(sub(i, n)), c.st.facts); else i = cint(0);
    int a = paramObj("addr", arr ? mulc(n, es) : cint(es), {}), v = f == "castto" ? paramObj("value", cint(8), {}) : paramObj("value", cint(es), {}); for (int o : {a, v}) { objs[o].outParam = true; objs[o].dataElem = o == v && f == "castto" ? 8 : es; objs[o].dataTy = (int)(o == v && f == "castto" ? Ty::F64 : dtTy[dt]); } objs[rd ? a : v].input = true; objs[rd ? a : v].outParam = false;
    c.args = {scalarDT(dt), P(a)}; if (arr) c.args.push_back(i); c.args.push_back(P(v)); T src, k = sym("nn:k", Ty::I64); vector<T> nn;
    if (f == "castto") { T x = readMem(mbase(objT(v)), cint(0), Ty::F64); src = fromF64(x, dt); nn = {x}; } else src = rd ? readMem(mbase(objT(a)), mulc(i, es), dtTy[dt]) : readMem(mbase(objT(v)), cint(0), dtTy[dt]);
    c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { eqMem(r, "C10", s, loadAtT(s, rd ? v : a, rd ? cint(0) : mulc(i, es), dtTy[dt]), src, dt, "the value transferred by the " + f + " accessor of " + dtName[dt], nn);
      if (arr && !rd) { State z = s; if (assume(lt0(sub(k, n)), z.facts) && assume(notb(eq0(sub(k, i))), z.facts)) eqMem(r, "C10", z, loadAtT(z, a, mulc(k, es), dtTy[dt]), readMem(mbase(objT(a)), mulc(k, es), dtTy[dt]), dt, string("an element the set_array accessor of ") + dtName[dt] + " must leave alone"); } }); };
    return true; }
  if (f == "constant" || f == "mirror") { c.evProp = "C10"; int o = obj("out", 8); if (f == "mirror") c.init = {"_GLOBAL__sub_I_", "__cxx_global_var_init"}; if (f == "mirror") c.init.pop_back(); c.args = {cint(dt), P(o)}; c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { isDT(r, s, o, dt, string(f == "mirror" ? "the framework's data type " : "the public constant of ") + dtName[dt]); }); }; return true; }
  if (f == "mirror_size") { c.evProp = "C10"; c.init = {"_GLOBAL__sub_I_"}; c.args = {cint(dt)}; c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { r.goal("C10", s, eq0(addc(s.ret, -dtSize[dt])), "registry", string("the framework's element size of ") + dtName[dt] + " is " + str(s.ret, 3)); }); }; return true; }
  if (f == "mirror_code") { c.evProp = "C10"; c.args = {scalarDT(dt)}; c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { r.goal("C10", s, eq0(addc(s.ret, -dt)), "registry", string("the framework's number of ") + dtName[dt] + " is " + str(s.ret, 3)); }); }; return true; }
  if (f == "natural") { c.evProp = "C10"; T n = sym("nn:n", Ty::I32); assume(lt0(addc(mulc(n, dtSize[dt]), -((int64_t)1 << 31))), c.st.facts); int o = paramObj("data", mulc(n, dtSize[dt]), {}); objs[o].outParam = true; objs[o].dataElem = dtSize[dt]; c.args = {P(o), mulc(n, dtSize[dt]), cint(dt)}; c.ignore.insert("narrow-value");
    c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { T k = sym("nn:k", Ty::I64); State z = s; if (!assume(lt0(sub(k, n)), z.facts)) return; T got = loadAtT(z, o, mulc(k, dtSize[dt]), dtTy[dt]), want;
      if (dt < 8) want = wrapTo(addc(k, 1), dt); else { T kf = i2f(k, 64, true, dtTy[dt]); T d = dt == 8 ? mk(K::Op, Ty::F64, O_FEXT, 0, {kf}) : kf; d = fop(O_FADD, Ty::F64, fop(O_FMUL, Ty::F64, d, cfp(Ty::F64, 0.1)), cfp(Ty::F64, 0.1)); want = dt == 8 ? mk(K::Op, Ty::F32, O_FTRUNC, 0, {d}) : d; }
      eqMem(r, "C10", z, got, want, dt, string("generated element k of type ") + dtName[dt]); }); }; return true; }
  if (f.rfind("size_", 0) == 0) {   // products of extents
    c.evProp = "C18"; int k = sp.num("k", 0), l = sp.num("l", 0); vector<T> d = posDims("d", rank); T a = mkArr("dims", 8, d); T w = cint(1); int lo = 0, hi = rank; f = f.substr(5);
    if (f == "from") lo = k; else if (f == "to") hi = k; else if (f == "between") { lo = std::min(k, l) + 1; hi = std::max(k, l); } for (int i = lo; i < hi; i++) w = mul(w, d[i]);
    if (f == "from" || f == "to") c.args = {cint(k)}; else if (f == "between") c.args = {cint(k), cint(l)}; c.args.push_back(a); c.args.push_back(cint(rank));
    c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { r.goal("C18", s, eq0(sub(s.ret, w)), "size", "the product of the extents " + f + (f == "of" ? string() : " " + std::to_string(k)) + (f == "between" ? " and " + std::to_string(l) : string()) + " is " + str(s.ret, 4)); }); }; return true; }
  if (f.rfind("tensor_", 0) != 0) return false;
  // inline accessors of the tensor header
  c.evProp = "C17"; f = f.substr(7); int dev = sp.num("dev", 1); Tens t = mkTensor("t", dt, posDims("d", rank), dev); c.args = {t.ptr}; auto P0 = [](int o) { return o < 0 ? nullp() : P(o); };
  auto retIs = [&](T want) { c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { T g = resolveT(s.ret, s.facts); if (want->ty != Ty::P) { r.goal("C17", s, eq0(sub(g, want)), "accessor", "aitisa_tensor_" + f + " returns " + str(g, 4)); return; } string w; if (g == want) r.ok("C17"); else if (feasible(s, {}, w, 0, 300, true)) r.report("C17", "violated", "accessor", "aitisa_tensor_" + f + " returns " + str(g, 4), w); else r.report("C17", "open", "accessor", "aitisa_tensor_" + f); }); }; };
  auto outIs = [&](int o, vector<std::pair<int, T>> w, Ty ty) { c.args.push_back(P(o)); c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { for (auto &x : w) { T g = loadAt(s, P(o), x.first, x.second->ty == Ty::P ? Ty::P : ty), want = x.second; if (want->ty == Ty::P) { string ww; g = resolveT(g, s.facts); if (g == want) r.ok("C17"); else if (feasible(s, {}, ww, 0, 300, true)) r.report("C17", "violated", "accessor", "aitisa_tensor_" + f + " yields " + str(g, 4), ww); } else r.goal("C17", s, eq0(sub(g, want)), "accessor", "aitisa_tensor_" + f + " yields " + str(g, 4)); } }); }; };
  if (f == "ndim") { retIs(cint(rank)); return true; }
  if (f == "dim") { int d = sp.num("dim", 0); c.args.push_back(cint(d)); retIs(t.dims[d]); return true; }
  if (f == "dims") { retIs(P0(t.dimso)); return true; }
  if (f == "size") { retIs(t.size); return true; }
  if (f == "layout_type") { retIs(cint(0)); return true; }
  if (f == "storage") { retIs(P(t.sto)); return true; }
  if (f == "data") { retIs(P(t.data)); return true; }
  if (f == "data_type") { int o = obj("out", 8); outIs(o, {{0, cint(dt)}}, Ty::I32); return true; }
  if (f == "device") { int o = obj("out", 8); outIs(o, {{0, cint(dev)}, {4, cint(devId)}}, Ty::I32); return true; }
  if (f == "shape") { int o = obj("out", 32); outIs(o, {{0, cint(rank)}, {8, P0(t.dimso)}, {24, P0(t.m2m)}}, Ty::I64); return true; }
  if (f == "set_item") { T i = rank ? addc(sym("pos:e0", Ty::I64), -1) : cint(0), k = sym("nn:k", Ty::I64); assume(lt0(sub(i, t.size)), c.st.facts); int es = dtSize[dt], v = paramObj("value", cint(es), {}); objs[v].dataElem = es; objs[v].input = true; objs[t.data].input = false; c.args.push_back(i); c.args.push_back(P(v)); T src = readMem(mbase(objT(v)), cint(0), dtTy[dt]); int da = t.data; T sz = t.size;
    c.custom = [=](Result &r, vector<State> &fin) { each(fin, [&](State &s) { eqMem(r, "C17", s, loadAtT(s, da, mulc(i, es), dtTy[dt]), src, dt, "the element aitisa_tensor_set_item sets"); State z = s; if (assume(lt0(sub(k, sz)), z.facts) && assume(notb(eq0(sub(k, i))), z.facts)) eqMem(r, "C17", z, loadAtT(z, da, mulc(k, es), dtTy[dt]), readMem(mbase(objT(da)), mulc(k, es), dtTy[dt]), dt, "an element aitisa_tensor_set_item must leave alone"); }); };
    return true; }
  return false;
}
bool buildContract(const Spec &sp, Contract &c) { zeroExt = sp.num("zero", -1); if (zeroExt >= 0) c.ignore.insert("div-by-zero");   // dividing by an extent of an empty tensor: no documented domain
  c.api = "aitisa_" + sp.api; string a = sp.api;
  if (a.rfind("probe_", 0) == 0) return buildProbe(c, sp);
  auto in = [&](std::initializer_list<const char *> l) { for (auto x : l) if (a == x) return true; return false; };
  if (in({"add", "sub", "mul", "div"})) return buildBinary(c, sp);
  if (in({"relu", "sqrt", "sigmoid", "tanh", "duplicate"})) return buildElementwise(c, sp);
  if (a == "cast") return buildCast(c, sp); if (a == "reshape") return buildReshape(c, sp); if (a == "squeeze") return buildSqueeze(c, sp); if (a == "slice") return buildSlice(c, sp);
  if (a == "full") return buildFull(c, sp); if (a == "create") return buildCreate(c, sp); if (in({"dot", "matmul"})) return buildDot(c, sp); if (a == "dropout") return buildDropout(c, sp); if (a == "softmax") return buildSoftmax(c, sp);
  if (a == "batch_norm") return buildBatchNorm(c, sp); if (a == "pooling") return buildPooling(c, sp); if (in({"conv", "conv2d", "conv3d"})) return buildConv(c, sp); if (a == "destroy") return buildDestroy(c, sp); if (a == "resolve") return buildResolve(c, sp);
  if (in({"get_stride", "get_all_strides", "coords_to_linidx", "linidx_to_coords", "coords_to_offset", "offset_to_coords"})) return buildIndex(c, sp); if (a == "broadcast_array") return buildBroadcast(c, sp);
  return false;
}
