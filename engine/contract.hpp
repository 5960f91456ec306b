// Operation contracts: the oracle side of the analysis.  A contract says, for one public function and
// one class of arguments (element types, ranks and devices fixed; extents, values and index arguments
// symbolic), which arguments must be rejected with which status, what the result tensor looks like and
// which value every element has.  The interpreter summarises the function; judge() compares the two.
#pragma once
#include "rules.hpp"
#include "eval.hpp"
#include <set>

struct Spec {                       // one job: "api key=value ..."
  std::string line, api; std::map<std::string, std::string> kv;
  int num(const std::string &k, int def) const { auto it = kv.find(k); return it == kv.end() ? def : atoi(it->second.c_str()); }
  std::string text(const std::string &k, const std::string &def) const { auto it = kv.find(k); return it == kv.end() ? def : it->second; }
};
Spec parseSpec(const std::string &line);

struct Rule {                       // arguments in (one of) `when` must be rejected with `status`
  std::vector<std::vector<T>> when; // disjunction of conjunctions
  T neg;                            // "no disjunct holds"; computed when null
  int status; std::string tag;      // owning property: C12 argument validation, C09 element types
  std::string text;
};
struct ODim { T keep, extent; };    // output dimension, present only when `keep` holds (null: always)

struct Result;
struct Contract {
  std::string api; std::vector<T> args; T out = nullptr; State st;
  std::vector<Rule> rules;
  std::vector<ODim> odims; int odt = 8; T odev = nullptr;
  std::function<T(const std::vector<T> &coords, T lin, State &s)> elem;  // value of one output element
  bool flat = false;                // element addressed by linear index only
  bool skipNaN = false;             // NaN inputs are outside the documented domain
  double tol = 1e-9;
  std::vector<T> nanOf;             // (filled by elem) inputs whose NaN-ness makes the comparison moot
  std::string elemProp = "C11", metaProp = "C13";
  int adopt = -1; T adoptPtr = nullptr; // element buffer adopted from the caller (creation only)
  std::set<std::string> ignore;   // event kinds outside the documented domain of this operation
  std::string evProp;             // property all memory events of this operation are charged to (probes)
  std::vector<std::string> init;  // static initialisers run first (functions whose name has this prefix)
  std::set<std::string> externs;    // external functions this operation may call
  std::function<void(Result &, State &, T out)> post;  // extra checks on a successful final state
  std::function<void(Result &, std::vector<State> &)> custom;  // replaces the tensor judgement entirely
};
bool buildContract(const Spec &sp, Contract &c);

struct Finding { std::string prop, verdict, kind, func, loc, text, witness; };
struct Result {
  std::vector<Finding> bad; std::map<std::string, std::pair<long, long>> sum;  // prop -> (discharged, open)
  std::string api, src;
  void ok(const std::string &p, long n = 1) { sum[p].first += n; }
  void report(const std::string &p, const std::string &verdict, const std::string &kind, const std::string &text, const std::string &w = "", const std::string &func = "", const std::string &loc = "");
  // goal must hold in s: proved, refuted by a valuation, or open
  void goal(const std::string &p, State &s, T g, const std::string &kind, const std::string &text);
};
void judge(Contract &c, std::vector<State> &finals, Result &r);
std::vector<State> splitBool(const State &s, T cond, bool value);   // 0 or 1 states
T expandRem(T t, const Facts &f);
void equalValue(Result &r, State &s, T got, T want, int dt, const std::string &prop, const std::string &what, double tol, const std::vector<T> &notNaN);
// value helpers
T elemOf(const Tens &t, T index);            // raw element (signed representation)
T elemNum(const Tens &t, T index);           // element as a number (unsigned types zero-extended)
T toF64(T v, int dt); T fromF64(T v, int dt); T wrapTo(T v, int dt);
