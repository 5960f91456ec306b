#include "contract.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstdlib>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fstream>
using std::string; using std::vector; using std::pair;
void prepModule(llvm::Module &M);
const int dtSize[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
const char *dtName[10] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"};
const Ty dtTy[10] = {Ty::I8, Ty::I8, Ty::I16, Ty::I16, Ty::I32, Ty::I32, Ty::I64, Ty::I64, Ty::F32, Ty::F64};
const char *stName[9] = {"SUCCESS", "TYPE_MISMATCH", "DIMENSIONS_MISMATCH", "INVALID_ARGUMENT", "NOT_SUPPORTED", "ALLOC_FAILED", "OUT_OF_RANGE", "INTERNAL_ERROR", "MATH_ERROR"};
T scalarDT(int dt) { return cint((int64_t)dt | ((int64_t)dtSize[dt] << 32)); }
T scalarDev(int type, int id) { return cint((int64_t)type | ((int64_t)id << 32)); }
T posSym(const string &n) { return sym("pos:" + n, Ty::I64); }
T intSym(const string &n, Ty t) { return sym(n, t); }
int paramObj(const string &name, T size, vector<pair<int64_t, pair<Ty, T>>> cells) {
  int o = newObj(OK::Param, name); objs[o].size = size; T m = mbase(objT(o));
  for (auto &c : cells) m = mcell(m, cint(c.first), c.second.second, c.second.first);
  objs[o].initMem = m; return o;
}
static T P(int o) { return mkptr(objT(o), cint(0)); }
Tens mkTensor(const string &name, int dt, vector<T> dims, int device) {
  Tens t; t.name = name; t.dt = dt; t.rank = dims.size(); t.dims = dims; T sz = cint(1); for (T d : dims) sz = mul(sz, d); t.size = sz; int n = dims.size();
  t.data = paramObj(name + ".data", mulc(sz, dtSize[dt]), {}); objs[t.data].dataElem = dtSize[dt]; objs[t.data].dataTy = (int)dtTy[dt];
  vector<pair<int64_t, pair<Ty, T>>> dc, mc; for (int i = 0; i < n; i++) { dc.push_back({8 * i, {Ty::I64, dims[i]}}); mc.push_back({8 * i, {Ty::I64, cint(n - 1 - i)}}); }
  t.dimso = t.m2m = -1; if (n) { t.dimso = paramObj(name + ".dims", cint(8 * n), dc); t.m2m = paramObj(name + ".min2maj", cint(8 * n), mc); }
  t.sto = paramObj(name + ".storage", cint(32), {{0, {Ty::I64, scalarDT(dt)}}, {8, {Ty::I64, scalarDev(device, devId)}}, {16, {Ty::I64, sz}}, {24, {Ty::P, P(t.data)}}});
  t.so = paramObj(name, cint(56), {{0, {Ty::I64, sz}}, {8, {Ty::I64, cint(0)}}, {16, {Ty::I64, cint(n)}}, {24, {Ty::P, n ? P(t.dimso) : nullp()}}, {32, {Ty::I32, cint(0)}}, {40, {Ty::P, n ? P(t.m2m) : nullp()}}, {48, {Ty::P, P(t.sto)}}});
  for (int o : {t.so, t.sto, t.data, t.dimso, t.m2m}) if (o >= 0) objs[o].input = true;
  t.ptr = P(t.so); return t;
}
T mkArr(const string &name, int eb, vector<T> v) { vector<pair<int64_t, pair<Ty, T>>> c; for (size_t i = 0; i < v.size(); i++) c.push_back({(int64_t)i * eb, {eb == 4 ? Ty::I32 : Ty::I64, v[i]}}); int o = paramObj(name, cint(eb * v.size()), c); objs[o].userArray = true; return P(o); }
T outParam(const string &name) { int o = paramObj(name, cint(8), {{0, {Ty::P, sym("old:" + name, Ty::P)}}}); objs[o].outParam = true; return P(o); }
static string S(T t) { return str(t, 12); }
static void dump(vector<State> &r, T out) {
  for (auto &s : r) { printf("STATE ret=%s oom=%d imprecise=%s%s\n", s.ret ? S(s.ret).c_str() : "void", s.oom, s.imprecise.c_str(), s.approx ? "APPROX" : ""); for (T l : s.facts.l) printf("   fact %s\n", S(l).c_str());
    for (auto &h : s.heap) if (!h.second.freed) printf("   live %s size=%s mem=%s\n", S(h.first).c_str(), S(h.second.size).c_str(), S(h.second.mem).c_str());
    for (auto &f : s.fams) printf("   fam %s [%s,%s)\n", objs[f.site].name.c_str(), S(f.lo).c_str(), S(f.hi).c_str());
    for (auto &m : s.mem) if (oi(m.first).kind != OK::Alloca) printf("   mem %s = %s\n", S(m.first).c_str(), S(m.second).c_str());
    if (out) printf("   *output = %s\n", S(loadAt(s, out, 0, Ty::P)).c_str()); }
}
static string js(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static string srcOf(llvm::Function *F) { auto *sp = F->getSubprogram(); if (!sp) return "?"; string f = sp->getFilename().str(); size_t p = f.find("src/"); if (p != string::npos) f = f.substr(p); return f + ":" + std::to_string(sp->getLine()); }
// analyses one job in this process and prints its findings and counts as JSON lines
static int runJob(llvm::Module &M, const string &line, bool verbose) {
  Spec sp = parseSpec(line); Contract c; Result r;
  if (!buildContract(sp, c)) { printf("{\"job\":%s,\"error\":\"unknown operation\"}\n", js(line).c_str()); return 2; }
  auto *F = M.getFunction(c.api); if (!F || F->isDeclaration()) { printf("{\"job\":%s,\"error\":%s}\n", js(line).c_str(), js("function " + c.api + " is not defined").c_str()); return 0; }
  r.api = c.api; r.src = srcOf(F); forkOOM = sp.num("oom", 1);
  if (F->arg_size() != c.args.size()) { printf("{\"job\":%s,\"error\":%s}\n", js(line).c_str(), js("signature of " + c.api + " changed").c_str()); return 0; }
  string abort; vector<State> fin;
  try {
    vector<State> pre{c.st};
    for (auto &n : c.init) for (auto &G : M) if (!G.isDeclaration() && G.getName().startswith(n)) { vector<State> nx; for (auto &x : pre) for (auto &y : runFunction(&G, {}, x)) nx.push_back(y); pre = nx; }
    for (auto &x : pre) for (auto &y : runFunction(F, c.args, x)) fin.push_back(y);
  } catch (Abort &a) { abort = a.why; }
  if (abort.empty()) { if (verbose) dump(fin, c.out); try { judge(c, fin, r); } catch (Abort &a) { abort = a.why; } }
  else { vector<State> none; auto cu = c.custom; if (cu) c.custom = [](Result &, vector<State> &) {}; judge(c, none, r); }
  for (auto &f : r.bad) printf("{\"job\":%s,\"p\":%s,\"v\":%s,\"kind\":%s,\"func\":%s,\"loc\":%s,\"text\":%s,\"w\":%s}\n", js(line).c_str(), js(f.prop).c_str(), js(f.verdict).c_str(), js(f.kind).c_str(), js(f.func).c_str(), js(f.loc).c_str(), js(f.text).c_str(), js(f.witness).c_str());
  string sum; for (auto &x : r.sum) { char b[80]; snprintf(b, 80, "%s:[%ld,%ld]", js(x.first).c_str(), x.second.first, x.second.second); sum += (sum.size() ? "," : "") + string(b); }
  string fs; for (auto &n : stats.fnames) fs += (fs.size() ? "," : "") + js(n); int imp = 0, oomN = 0; for (auto &s : fin) { if (!s.imprecise.empty() || s.approx) imp++; if (s.oom) oomN++; }
  printf("{\"job\":%s,\"done\":1,\"abort\":%s,\"states\":%zu,\"oom\":%d,\"imprecise\":%d,\"steps\":%lu,\"loops\":%lu,\"accesses\":%lu,\"accProved\":%lu,\"allocs\":%lu,\"frees\":%lu,\"narrow\":%lu,\"sum\":{%s},\"funcs\":[%s]}\n", js(line).c_str(), js(abort).c_str(), fin.size(), oomN, imp, stats.steps, stats.loops, stats.accesses, stats.accProved, stats.allocs, stats.frees, stats.narrow, sum.c_str(), fs.c_str());
  if (unsolvedLoops.empty() || getenv("AIA_NOPEEL")) return 0;
  // some loop had no closed form: follow its first iterations, in processes of their own so that giving up costs nothing
  std::set<std::string> old; for (auto &f : r.bad) if (f.verdict == "violated") old.insert(f.prop + f.kind + f.func + f.loc);
  static const struct { int first, second; bool oom; } rounds[] = {{1, 64, false}, {3, 32, false}, {2, 96, false}, {2, 64, true}};
  for (auto &rd : rounds) {
    fflush(stdout); pid_t kid = fork(); if (kid) { int st; if (kid > 0) waitpid(kid, &st, 0); continue; }
    { int tl = getenv("AIA_PEEL") ? atoi(getenv("AIA_PEEL")) : 10; struct rlimit rl{(rlim_t)tl, (rlim_t)tl}; setrlimit(RLIMIT_CPU, &rl); }
    events.clear(); peelMode = true; peelTrips = rd.first; peelCap = rd.second; forkOOM = rd.oom; stepLimit += 4000000; fin.clear(); Result r2; r2.api = r.api; r2.src = r.src;
    Contract c2; buildContract(sp, c2);
    try { for (auto &y : runFunction(F, c2.args, c2.st)) fin.push_back(y); } catch (Abort &a) { if (verbose) printf("peel: %s\n", a.why.c_str()); }
    if (verbose) dump(fin, c2.out);
    try { judge(c2, fin, r2); } catch (Abort &a) { if (verbose) printf("peel: %s\n", a.why.c_str()); }
    for (auto &f : r2.bad) if (f.verdict == "violated" && !old.count(f.prop + f.kind + f.func + f.loc)) printf("{\"job\":%s,\"p\":%s,\"v\":%s,\"kind\":%s,\"func\":%s,\"loc\":%s,\"text\":%s,\"w\":%s,\"peel\":1}\n", js(line).c_str(), js(f.prop).c_str(), js(f.verdict).c_str(), js(f.kind).c_str(), js(f.func).c_str(), js(f.loc).c_str(), js(f.text).c_str(), js(f.witness).c_str());
    if (verbose) printf("peel pass: %zu states, steps %lu\n", fin.size(), stats.steps);
    fflush(stdout); _exit(0);
  }
  return 0;
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: aia MODULE run JOBFILE | aia MODULE job 'SPEC' [-v]\n"); return 2; }
  { struct rlimit r; if (!getrlimit(RLIMIT_STACK, &r) && r.rlim_cur < ((rlim_t)1 << 30) && !getenv("AIA_STACK")) { r.rlim_cur = r.rlim_max == RLIM_INFINITY || r.rlim_max > ((rlim_t)1 << 30) ? (rlim_t)1 << 30 : r.rlim_max; setenv("AIA_STACK", "1", 1); if (!setrlimit(RLIMIT_STACK, &r)) execv("/proc/self/exe", argv); } }   // deep terms recurse
  llvm::LLVMContext C; llvm::SMDiagnostic E; auto M = llvm::parseIRFile(argv[1], E, C); if (!M) { fprintf(stderr, "cannot read %s\n", argv[1]); return 2; }
  prepModule(*M); initModule(*M); string mode = argv[2];
  if (mode == "job") { bool v = argc > 4; if (getenv("AIA_IR")) M->getFunction("aitisa_" + parseSpec(argv[3]).api)->print(llvm::outs()); int rc = runJob(*M, argv[3], v); if (v) printf("steps=%lu loops=%lu unrolled=%lu forks=%lu merges=%lu forced=%lu acc=%lu proved=%lu unk=%lu\n", stats.steps, stats.loops, stats.unrolled, stats.forks, stats.merges, stats.forced, stats.accesses, stats.accProved, stats.accUnknown); return rc; }
  if (mode != "run" || argc < 4) return 2;
  vector<string> jobs; { std::ifstream f(argv[3]); string l; while (std::getline(f, l)) if (l.size()) jobs.push_back(l); }
  int par = getenv("AIA_JOBS") ? atoi(getenv("AIA_JOBS")) : 8, tl = getenv("AIA_TIME") ? atoi(getenv("AIA_TIME")) : 400, live = 0, rc = 0; size_t next = 0; std::map<pid_t, pair<size_t, FILE *>> kids; fflush(stdout);
  while (next < jobs.size() || live) {
    while (live < par && next < jobs.size()) { FILE *t = tmpfile(); pid_t p = fork(); if (p == 0) { dup2(fileno(t), 1); struct rlimit rl{(rlim_t)tl, (rlim_t)tl}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rm{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rm); int x = runJob(*M, jobs[next], false); fflush(stdout); _exit(x); } kids[p] = {next++, t}; live++; }
    int st; pid_t p = wait(&st); auto it = kids.find(p); if (it == kids.end()) continue; live--; FILE *t = it->second.second; rewind(t); char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, t)) > 0) fwrite(buf, 1, n, stdout); fclose(t);
    if (WIFSIGNALED(st)) printf("{\"job\":%s,\"done\":1,\"abort\":\"signal %d\"}\n", js(jobs[it->second.first]).c_str(), WTERMSIG(st)); else if (WEXITSTATUS(st)) { printf("{\"job\":%s,\"error\":\"exit %d\"}\n", js(jobs[it->second.first]).c_str(), WEXITSTATUS(st)); rc = 2; } fflush(stdout); kids.erase(it);
  }
  return rc;
}
