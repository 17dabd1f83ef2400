// Symbolic exact-real scalar used to re-instantiate the code of /repo.
//
// A Sym denotes an exact real term in polynomial normal form: a finite map
// monomial -> rational, where a monomial is a product of atoms with (possibly
// negative) integer exponents.  Atoms are
//   * input variables (introduced by the contracts),
//   * sqrt atoms s with s >= 0 and s^2 = p (s^2 is rewritten to p),
//   * reciprocal atoms r = 1/p for a non-monomial p,
//   * "undef" atoms: the value of a scalar that was never initialised.
// Comparisons of non-constant terms fork the execution; the path explorer
// (sym.cc) enumerates every feasible path with z3 deciding feasibility.
#ifndef VERIF_SYM_HH
#define VERIF_SYM_HH
#include <gmpxx.h>

#include <cmath>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

typedef double machine_double;
namespace sym {

typedef std::vector<std::pair<int, int> > Mono;  // sorted (atom, exponent!=0)
typedef std::map<Mono, mpq_class> Poly;

class Sym {
 public:
  Sym() : k_(UNDEF), c_(0) {}
  Sym(int v) : k_(CONST), c_(v) {}
  Sym(unsigned v) : k_(CONST), c_(v) {}
  Sym(long v) : k_(CONST), c_(v) {}
  Sym(unsigned long v) : k_(CONST), c_(v) {}
  Sym(long long v) : k_(CONST), c_((long)v) {}
  Sym(unsigned long long v) : k_(CONST), c_((unsigned long)v) {}
  Sym(bool v) : k_(CONST), c_(v ? 1 : 0) {}
  Sym(float v) { init((double)v); }
  Sym(double v) { init(v); }
  explicit Sym(const mpq_class& q) : k_(CONST), c_(q) {}
  explicit Sym(Poly&& p);

  bool isConst() const { return k_ == CONST; }
  bool isUndef() const { return k_ == UNDEF; }
  const mpq_class& constant() const { return c_; }
  const Poly& poly() const;     // forces UNDEF into a fresh undef atom
  double approx() const;        // only for constants
  std::string str() const;
  bool hasUndef() const;

  Sym operator-() const;
  Sym operator+() const { return *this; }
  Sym& operator+=(const Sym& o);
  Sym& operator-=(const Sym& o);
  Sym& operator*=(const Sym& o);
  Sym& operator/=(const Sym& o);
  Sym& operator++() { return *this += Sym(1); }
  Sym operator++(int) { Sym r(*this); *this += Sym(1); return r; }
  Sym& operator--() { return *this -= Sym(1); }

  explicit operator int() const { return (int)toInt(); }
  explicit operator long() const { return toInt(); }
  explicit operator unsigned() const { return (unsigned)toInt(); }
  explicit operator unsigned long() const { return (unsigned long)toInt(); }
  explicit operator bool() const;
  explicit operator double() const;
  explicit operator float() const { return (float)(double)*this; }

  long toInt() const;  // truncation towards zero, forks

 private:
  enum Kind { UNDEF, CONST, POLY };
  void init(double v);
  void set(Poly&& p);
  mutable Kind k_;
  mpq_class c_;
  mutable std::shared_ptr<const Poly> p_;
  friend Sym add(const Sym&, const Sym&, int);
  friend Sym mul(const Sym&, const Sym&);
};

Sym add(const Sym& a, const Sym& b, int sign);
Sym mul(const Sym& a, const Sym& b);
Sym div(const Sym& a, const Sym& b);
Sym sqrt(const Sym& a);
Sym powS(const Sym& a, const Sym& e);
Sym abs(const Sym& a);
Sym floorS(const Sym& a);

inline Sym operator+(const Sym& a, const Sym& b) { return add(a, b, 1); }
inline Sym operator-(const Sym& a, const Sym& b) { return add(a, b, -1); }
inline Sym operator*(const Sym& a, const Sym& b) { return mul(a, b); }
inline Sym operator/(const Sym& a, const Sym& b) { return div(a, b); }

enum Rel { LT, LE, EQ };
bool decide(const Sym& diff, Rel r);  // diff REL 0 ; forks
inline bool operator<(const Sym& a, const Sym& b) { return decide(a - b, LT); }
inline bool operator<=(const Sym& a, const Sym& b) { return decide(a - b, LE); }
inline bool operator>(const Sym& a, const Sym& b) { return decide(b - a, LT); }
inline bool operator>=(const Sym& a, const Sym& b) { return decide(b - a, LE); }
inline bool operator==(const Sym& a, const Sym& b) { return decide(a - b, EQ); }
inline bool operator!=(const Sym& a, const Sym& b) { return !decide(a - b, EQ); }

std::ostream& operator<<(std::ostream&, const Sym&);
std::istream& operator>>(std::istream&, Sym&);

}  // namespace sym

using SymScalar = sym::Sym;
#endif
