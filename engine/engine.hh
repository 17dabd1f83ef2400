// Path exploration and obligation discharge over Sym terms (symbolic mode).
#ifndef VERIF_ENGINE_HH
#define VERIF_ENGINE_HH
#include <functional>
#include <iosfwd>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include "sym.hh"

namespace engine {
struct PathCut : std::runtime_error {
  PathCut(const std::string& s) : std::runtime_error(s) {}
};
struct Unsupported : std::runtime_error {
  Unsupported(const std::string& s) : std::runtime_error(s) {}
};
struct Options {
  int branch_timeout_ms, ob_timeout_ms, max_paths, max_depth;
  double max_s;
  bool generic_eq;
  std::string bound, functions;
  std::string stop;  // file that tells every process of a check that it fails
  double grace_s, path_s;
  int shard, shards;  // explore the alternatives shard, shard+shards, ... of the first choice
  Options()
      : branch_timeout_ms(3000), ob_timeout_ms(20000), max_paths(20000),
        max_depth(400), max_s(600), generic_eq(false), grace_s(15), path_s(100), shard(0), shards(1) {}
};
struct ContractStat {
  std::string name, bound, functions;
  int paths, done, cut;
  double wall;
};
struct Ob {
  int count, discharged;
  std::map<std::string, int> backends;
  Ob() : count(0), discharged(0) {}
};
struct Failure {
  std::string name, contract, detail;
  std::map<std::string, int> choices;
  std::map<std::string, double> witness;
  bool hasWitness, unknown;
};
struct Stats {
  std::vector<ContractStat> contracts;
  std::map<std::string, int> vac, cuts;
  std::vector<std::string> nonzero_assumed;
  int queries, unknown, generic_assumed, undef_branch;
  double solver_s;
  std::string err;
  Stats() : queries(0), unknown(0), generic_assumed(0), undef_branch(0), solver_s(0) {}
};
Stats& stats();

int choice(const std::string& name, int n);
sym::Sym var(const std::string& name);
sym::Sym var(const std::string& name, double lo, double hi);
sym::Sym posvar(const std::string& name);
void assume(const sym::Sym& diff, sym::Rel r, bool value);
void assume_lt(const sym::Sym& a, const sym::Sym& b);
// for every contract that uses the variables of a (they mean the same everywhere)
void assume_positive(const sym::Sym& a);
void assume_le(const sym::Sym& a, const sym::Sym& b);
void noteNonZero(const sym::Sym& s);
void setGenericEquality(bool);
void setConcrete(bool);  // until the end of the path: variables are fixed numbers
bool is_zero(const sym::Sym& a, double eps, const mpq_class& scale);

void ensure_eq(const std::string& name, const sym::Sym& a, const sym::Sym& b, double eps = 1e-9);
void ensure_le(const std::string& name, const sym::Sym& a, const sym::Sym& b);
void ensure_lt(const std::string& name, const sym::Sym& a, const sym::Sym& b);
void ensure_true(const std::string& name, bool c, const std::string& detail = "");
void ensure_row(const std::string& name, const std::vector<sym::Sym>& got,
                const std::vector<sym::Sym>& want, double eps = 1e-9);
bool row_matches(const std::vector<sym::Sym>& got, const std::vector<sym::Sym>& want, double eps = 1e-9);
void fail_here(const std::string& name, const std::string& why);
bool symbolic();
void explore(const std::string& contract, std::function<void()> body, Options o = Options());
void report(std::ostream& out);
void seed(unsigned);
}  // namespace engine
#endif
