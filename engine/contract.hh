// The contract language, shared by the two builds of every contract file:
//  * symbolic build (VERIF_SYMBOLIC): double == sym::Sym, contracts are proved;
//  * native build: double is the machine double and the same contract text is
//    executed on concrete inputs (replay of counterexamples, bounded fallback).
#ifndef VERIF_CONTRACT_HH
#define VERIF_CONTRACT_HH
#include "engine_api.hh"
namespace contract {
struct Entry {
  std::string name;       // "<property>/<contract>"
  std::string functions;  // functions of /repo under this contract
  std::function<void()> body;
  std::string bound;      // "" when no structural bound applies
  bool thoroughOnly;
};
std::vector<Entry>& registry();
bool thorough();
struct Reg {
  Reg(const char* n, const char* fns, std::function<void()> b, const char* bound = "",
      bool th = false) {
    Entry e;
    e.name = n;
    e.functions = fns;
    e.body = b;
    e.bound = bound;
    e.thoroughOnly = th;
    registry().push_back(e);
  }
};
}  // namespace contract
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define CONTRACT(NAME, FNS, BOUND)                                              \
  static void CAT(contract_body_, __LINE__)();                                  \
  static contract::Reg CAT(contract_reg_, __LINE__)(NAME, FNS, CAT(contract_body_, __LINE__), BOUND); \
  static void CAT(contract_body_, __LINE__)()
#endif
