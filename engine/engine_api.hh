// API seen by the contracts.  `double` here is whatever the build uses.
#ifndef VERIF_ENGINE_API_HH
#define VERIF_ENGINE_API_HH
#ifdef VERIF_SYMBOLIC
#include "engine.hh"
#else
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
typedef double machine_double;
namespace engine {
struct PathCut : std::runtime_error {
  PathCut(const std::string& s) : std::runtime_error(s) {}
};
int choice(const std::string& name, int n);
double var(const std::string& name);
double var(const std::string& name, double lo, double hi);
double posvar(const std::string& name);
void assume_lt(double a, double b);
void assume_positive(double a);
void assume_le(double a, double b);
void ensure_eq(const std::string& name, double a, double b, double eps = 1e-9);
void ensure_le(const std::string& name, double a, double b);
void ensure_lt(const std::string& name, double a, double b);
void ensure_true(const std::string& name, bool c, const std::string& detail = "");
void ensure_row(const std::string& name, const std::vector<double>& got,
                const std::vector<double>& want, double eps = 1e-9);
bool row_matches(const std::vector<double>& got, const std::vector<double>& want, double eps = 1e-9);
void fail_here(const std::string& name, const std::string& why);
inline void setGenericEquality(bool) {}
void setConcrete(bool);
}  // namespace engine
#endif
namespace engine {
bool symbolic();
// machine value at a fixed pseudo-random point (symbolic build) or the value
// itself (native build); only used to pair rows before they are compared
machine_double fingerprint(const double& v);
}
#endif
