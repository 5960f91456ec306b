// Abstract interpreter over the LLVM IR of the library (see DESIGN.md).
#pragma once
#include "term.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <memory>

using MemMap = std::map<T, T, LtId>;
struct ObjSt {
  bool freed = false; bool libc = false;
  T size = nullptr, mem = nullptr; const llvm::Instruction *ai = nullptr, *fi = nullptr;
  bool operator==(const ObjSt &o) const { return freed == o.freed && libc == o.libc && size == o.size && mem == o.mem; }
};
struct Fam {  // objects site[pre..., j] for lo <= j < hi; templates bind j as BV 0
  int site; std::vector<T> pre; T lo, hi, size, mem; bool libc = false; const llvm::Instruction *ai = nullptr;
};
struct State {
  std::vector<std::vector<T>> env;
  Facts facts;
  std::map<T, ObjSt, LtId> heap;
  MemMap mem;
  std::vector<Fam> fams;
  bool oom = false; const llvm::Instruction *oomI = nullptr;
  std::string imprecise;
  std::string failed;              // first internal step that reported a failure status
  bool approx = false;             // path facts are weaker than the real path condition
  std::vector<std::vector<T>> alts; size_t altKey = 0;  // of an approximate join: some real path conditions that reach it, valid while the facts are unchanged
  T ret = nullptr;
  std::vector<std::string> trail;  // facts of interest for reports
};
struct Event { std::string kind, func, loc, text; bool sure = false; std::string witness; std::vector<T> path; };
struct Stats { uint64_t steps = 0, funcs = 0, loops = 0, unrolled = 0, forks = 0, merges = 0, forced = 0, accesses = 0, accProved = 0, accUnknown = 0, narrow = 0, initReads = 0, open = 0, allocs = 0, frees = 0, callsResolved = 0; std::set<std::string> fnames, lnames; };

struct Abort { std::string why; };
void initModule(llvm::Module &M);
std::vector<State> runFunction(llvm::Function *F, std::vector<T> args, State s);
extern std::vector<Event> events;
extern Stats stats;
extern bool forkOOM;
// a second pass follows the first iterations of these loops (headers) one by one
extern bool peelMode; extern std::set<const void *> unsolvedLoops; extern bool peeled; extern size_t peelCap; extern int peelTrips;
extern uint64_t stepLimit;
extern std::map<const llvm::GlobalVariable *, int> gobjs;
extern llvm::Module *theM;
T memOf(const State &s, T obj);
void setMem(State &s, T obj, T mem);
T sizeOf(const State &s, T obj);
std::string locOf(const llvm::Instruction *I);
T loadAt(State &s, T ptr, int64_t off, Ty ty);     // no checks; for rules
Ty tyOf(llvm::Type *t);
// records an event; it is `sure` only when a valuation satisfies the path facts and `extra`
void ev(const std::string &kind, const llvm::Instruction *I, const std::string &text, const State *s = nullptr, std::vector<T> extra = {}, int mode = 0);
enum Feas { F_NO, F_YES };
bool feasible(const State &s, const std::vector<T> &extra, std::string &witness, int mode = 0, int tries = 1500, bool weak = false);
bool retStatus(const llvm::Function *F);
