#include "sym.hh"

#include <z3++.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_map>

#include "engine.hh"
#include "concrete.hh"

#include <csetjmp>
#include "oob.hh"
namespace engine { bool multipleOfPositive(const sym::Poly& p, bool& positive); }
namespace engine { extern jmp_buf oobJump; extern bool oobArmed; extern std::string oobWhat; }

namespace sym {

// ---------------------------------------------------------------- atoms
enum AtomKind { VAR, SQRT, RECIP, UNDEFA, NANA };
struct Atom {
  AtomKind kind;
  std::string name;
  Poly def;  // SQRT: radicand, RECIP: denominator
  bool pos;  // known > 0
  bool nonneg;
  bool hasLo, hasHi, loStrict, hiStrict;
  mpq_class lo, hi;
};
static std::vector<Atom> atoms;
static std::map<std::string, int> varIds;
static std::map<Poly, int> sqrtIds, recipIds;

static int newAtom(AtomKind k, const std::string& n) {
  Atom a;
  a.kind = k;
  a.name = n;
  a.pos = a.nonneg = a.hasLo = a.hasHi = a.loStrict = a.hiStrict = false;
  atoms.push_back(a);
  return (int)atoms.size() - 1;
}

static Mono monoMul(const Mono& a, const Mono& b) {
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first)
      r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back(std::make_pair(a[i].first, e));
      ++i;
      ++j;
    }
  }
  return r;
}

// Once a value of the path is a rounded irrational (see sqrt), long constants are
// replaced by the short rational within 2^-150 of them (which undoes the rounding
// where the square roots cancel), or kept to 300 bits.
static bool inexact = false;
static mpq_class roundc(mpq_class c) {
  if (!inexact || c == 0) return c;
  size_t n = mpz_sizeinbase(c.get_num_mpz_t(), 2), d = mpz_sizeinbase(c.get_den_mpz_t(), 2);
  if (n + d < 200) return c;
  if (d > n + 200) return mpq_class(0);
  // a neighbour with a short denominator, if one is closer than 2^-190 of it
  {
    mpz_class num = c.get_num(), den = c.get_den(), q, r;
    mpz_class h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    while (den != 0) {
      mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), num.get_mpz_t(), den.get_mpz_t());
      mpz_class h = q * h1 + h0, k = q * k1 + k0;
      h0 = h1;
      h1 = h;
      k0 = k1;
      k1 = k;
      if (mpz_sizeinbase(k.get_mpz_t(), 2) > 60) break;
      num = den;
      den = r;
      if (den == 0) break;
      // the next quotient is huge: h/k is within 1/(k*k*quotient)
      size_t gap = mpz_sizeinbase(num.get_mpz_t(), 2) - mpz_sizeinbase(den.get_mpz_t(), 2);
      if (gap > 150) return mpq_class(h, k);
    }
  }
  if (n + d < 700) return c;
  long s = 300 - long(n) + long(d);
  mpz_class q;
  if (s >= 0) {
    mpz_mul_2exp(q.get_mpz_t(), c.get_num_mpz_t(), s);
    mpz_tdiv_q(q.get_mpz_t(), q.get_mpz_t(), c.get_den_mpz_t());
    mpz_class den;
    mpz_ui_pow_ui(den.get_mpz_t(), 2, s);
    mpq_class r(q, den);
    r.canonicalize();
    return r;
  }
  mpz_class den;
  mpz_mul_2exp(den.get_mpz_t(), c.get_den_mpz_t(), -s);
  mpz_tdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), den.get_mpz_t());
  mpz_mul_2exp(q.get_mpz_t(), q.get_mpz_t(), -s);
  return mpq_class(q);
}

static void addTo(Poly& p, const Mono& m, const mpq_class& c) {
  if (c == 0) return;
  Poly::iterator it = p.find(m);
  if (it == p.end())
    {
    mpq_class v = roundc(c);
    if (v != 0) p.insert(std::make_pair(m, v));
  }
  else {
    it->second += c;
    if (it->second == 0)
      p.erase(it);
    else if (inexact) {
      it->second = roundc(it->second);
      if (it->second == 0) p.erase(it);
    }
  }
}

static Poly polyMul(const Poly& a, const Poly& b);

// s^2 -> radicand for SQRT atoms (exponent >=2); s^-2 kept as s^-2, s^-3.. ok
static bool needsReduce(const Mono& m, size_t& idx) {
  for (size_t i = 0; i < m.size(); ++i)
    if (m[i].second >= 2 && atoms[m[i].first].kind == SQRT) {
      idx = i;
      return true;
    }
  return false;
}

static Poly reduce(const Poly& p) {
  Poly r;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    size_t idx;
    if (needsReduce(it->first, idx)) {
      Mono m = it->first;
      int at = m[idx].first;
      int e = m[idx].second;
      int k = e / 2;
      if (e % 2)
        m[idx].second = 1;
      else
        m.erase(m.begin() + idx);
      Poly q;
      q[m] = it->second;
      for (int i = 0; i < k; ++i) q = polyMul(q, atoms[at].def);
      q = reduce(q);
      for (Poly::const_iterator jt = q.begin(); jt != q.end(); ++jt)
        addTo(r, jt->first, jt->second);
    } else
      addTo(r, it->first, it->second);
  }
  return r;
}

static Poly polyMul(const Poly& a, const Poly& b) {
  Poly r;
  bool red = false;
  for (Poly::const_iterator i = a.begin(); i != a.end(); ++i)
    for (Poly::const_iterator j = b.begin(); j != b.end(); ++j) {
      Mono m = monoMul(i->first, j->first);
      size_t idx;
      if (!red && needsReduce(m, idx)) red = true;
      addTo(r, m, i->second * j->second);
    }
  if (red) return reduce(r);
  return r;
}

// ---------------------------------------------------------------- Sym
void Sym::init(double v) {
  k_ = CONST;
  if (std::isnan(v)) {
    static int n = 0;
    int a = newAtom(NANA, "nan#" + std::to_string(n++));
    Poly p;
    Mono m;
    m.push_back(std::make_pair(a, 1));
    p[m] = 1;
    set(std::move(p));
    return;
  }
  if (std::isinf(v)) {  // modelled as a very large constant
    c_ = mpq_class(v > 0 ? "1000000000000000000000000000000"
                         : "-1000000000000000000000000000000");
    return;
  }
  c_ = mpq_class(v);
}
void Sym::set(Poly&& p) {
  if (p.empty()) {
    k_ = CONST;
    c_ = 0;
    p_.reset();
  } else if (p.size() == 1 && p.begin()->first.empty()) {
    k_ = CONST;
    c_ = p.begin()->second;
    p_.reset();
  } else {
    k_ = POLY;
    p_ = std::make_shared<const Poly>(std::move(p));
  }
}
Sym::Sym(Poly&& p) : k_(CONST), c_(0) { set(std::move(p)); }
static int undefCount = 0;
const Poly& Sym::poly() const {
  if (k_ == UNDEF) {
    int a = newAtom(UNDEFA, "undef#" + std::to_string(undefCount++));
    Poly p;
    Mono m;
    m.push_back(std::make_pair(a, 1));
    p[m] = 1;
    p_ = std::make_shared<const Poly>(p);
    k_ = POLY;
  }
  if (k_ == CONST && !p_) {
    Poly p;
    if (c_ != 0) p[Mono()] = c_;
    p_ = std::make_shared<const Poly>(p);
  }
  return *p_;
}
double Sym::approx() const { return k_ == CONST ? c_.get_d() : NAN; }
bool Sym::hasUndef() const {
  if (k_ == UNDEF) return true;
  if (k_ == CONST) return false;
  for (Poly::const_iterator it = p_->begin(); it != p_->end(); ++it)
    for (size_t i = 0; i < it->first.size(); ++i) {
      AtomKind k = atoms[it->first[i].first].kind;
      if (k == UNDEFA || k == NANA) return true;
    }
  return false;
}

Sym add(const Sym& a, const Sym& b, int sign) {
  if (a.k_ == Sym::CONST && b.k_ == Sym::CONST) {
    mpq_class r = sign > 0 ? mpq_class(a.c_ + b.c_) : mpq_class(a.c_ - b.c_);
    return Sym(roundc(r));
  }
  if (b.k_ == Sym::CONST && b.c_ == 0) {
    a.poly();
    return a;
  }
  Poly r = a.poly();
  const Poly& q = b.poly();
  for (Poly::const_iterator j = q.begin(); j != q.end(); ++j)
    addTo(r, j->first, sign > 0 ? j->second : mpq_class(-j->second));
  return Sym(std::move(r));
}
Sym mul(const Sym& a, const Sym& b) {
  if (a.k_ == Sym::CONST && b.k_ == Sym::CONST)
    return Sym(roundc(mpq_class(a.c_ * b.c_)));
  const Sym *c = 0, *p = 0;
  if (a.k_ == Sym::CONST) {
    c = &a;
    p = &b;
  } else if (b.k_ == Sym::CONST) {
    c = &b;
    p = &a;
  }
  if (c) {
    if (c->c_ == 0) return Sym(0);
    if (c->c_ == 1) {
      p->poly();
      return *p;
    }
    Poly r = p->poly();
    for (Poly::iterator j = r.begin(); j != r.end();) {
      j->second = roundc(j->second * c->c_);
      if (j->second == 0)
        r.erase(j++);
      else
        ++j;
    }
    return Sym(std::move(r));
  }
  return Sym(polyMul(a.poly(), b.poly()));
}
static Sym atomPow(int a, int e) {
  Poly p;
  Mono m;
  m.push_back(std::make_pair(a, e));
  p[m] = 1;
  return Sym(std::move(p));
}
static Sym freshNan() { return Sym(std::numeric_limits<double>::quiet_NaN()); }

static bool isZeroPoly(const Poly& p);

Sym div(const Sym& a, const Sym& b) {
  if (b.isConst()) {
    if (b.constant() == 0) return freshNan();
    return mul(a, Sym(mpq_class(1 / b.constant())));
  }
  const Poly& q = b.poly();
  if (q.size() == 1) {
    Poly inv;
    Mono m = q.begin()->first;
    for (size_t i = 0; i < m.size(); ++i) m[i].second = -m[i].second;
    inv[m] = 1 / q.begin()->second;
    // dividing by an atom that is not known to be nonzero
    for (size_t i = 0; i < m.size(); ++i) {
      Atom& at = atoms[m[i].first];
      if (!at.pos && at.kind != RECIP) engine::noteNonZero(atomPow(m[i].first, 1));
    }
    return Sym(polyMul(a.poly(), inv));
  }
  // a == k*b ?
  if (a.poly().size() == q.size()) {
    mpq_class k = 0;
    bool same = true;
    for (Poly::const_iterator i = a.poly().begin(), j = q.begin();
         j != q.end(); ++i, ++j) {
      if (i->first != j->first) {
        same = false;
        break;
      }
      mpq_class r = i->second / j->second;
      if (k == 0) k = r;
      if (k != r) {
        same = false;
        break;
      }
    }
    if (same) {
      engine::noteNonZero(b);
      return Sym(k);
    }
  }
  mpq_class lead = q.begin()->second;
  Poly qn = q;
  for (Poly::iterator i = qn.begin(); i != qn.end(); ++i) i->second /= lead;
  std::map<Poly, int>::iterator it = recipIds.find(qn);
  int id;
  if (it == recipIds.end()) {
    id = newAtom(RECIP, "recip#" + std::to_string(recipIds.size()));
    atoms[id].def = qn;
    recipIds[qn] = id;
  } else
    id = it->second;
  engine::noteNonZero(b);
  return mul(a, mul(Sym(mpq_class(1 / lead)), atomPow(id, 1)));
}

Sym sqrt(const Sym& a) {
  if (a.isConst()) {
    mpq_class c = a.constant();
    if (c == 0) return Sym(0);
    if (c < 0) return freshNan();
    mpz_class n = ::sqrt(c.get_num()), d = ::sqrt(c.get_den());
    if (n * n == c.get_num() && d * d == c.get_den()) return Sym(mpq_class(n, d));
    // an irrational constant: its value rounded to 90 digits
    mpz_class k;
    mpz_ui_pow_ui(k.get_mpz_t(), 2, 300);
    inexact = true;
    mpz_class num = ::sqrt(mpz_class(c.get_num() * c.get_den() * k * k));
    mpq_class v(num, mpz_class(c.get_den() * k));
    v.canonicalize();
    return Sym(roundc(v));
  }
  Poly q = a.poly();
  // perfect monomial square
  if (q.size() == 1) {
    const Mono& m0 = q.begin()->first;
    bool ok = true;
    for (size_t i = 0; i < m0.size(); ++i)
      if (m0[i].second % 2 || !atoms[m0[i].first].pos) ok = false;
    if (ok && !m0.empty()) {
      Mono m = m0;
      for (size_t i = 0; i < m.size(); ++i) m[i].second /= 2;
      Poly p;
      p[m] = 1;
      return mul(sqrt(Sym(q.begin()->second)), Sym(std::move(p)));
    }
  }
  // sqrt(k^2 m^2 p) = k m sqrt(p) for a rational k and a positive monomial m
  if (!a.isConst()) {
    Mono g = q.begin()->first;
    for (size_t i = 0; i < g.size();) {
      int at = g[i].first;
      int e = g[i].second;
      for (Poly::const_iterator it = q.begin(); it != q.end(); ++it) {
        int x = 0;
        for (size_t k = 0; k < it->first.size(); ++k)
          if (it->first[k].first == at) x = it->first[k].second;
        e = std::min(e, x);
      }
      if (e > 0) e -= e % 2;
      if (e < 0) e -= (-e) % 2;
      if (!atoms[at].pos) e = 0;
      if (e == 0)
        g.erase(g.begin() + i);
      else
        g[i++].second = e;
    }
    // atoms that occur with a negative exponent outside the leading monomial
    std::map<int, int> neg;
    for (Poly::const_iterator it = q.begin(); it != q.end(); ++it)
      for (size_t k = 0; k < it->first.size(); ++k)
        if (it->first[k].second < 0 && atoms[it->first[k].first].pos)
          neg[it->first[k].first] = std::min(neg[it->first[k].first], it->first[k].second);
    for (std::map<int, int>::iterator n = neg.begin(); n != neg.end(); ++n) {
      int e = n->second - (-n->second) % 2;
      bool in = false;
      for (size_t i = 0; i < g.size(); ++i)
        if (g[i].first == n->first) {
          in = true;
          g[i].second = std::min(g[i].second, e);
        }
      if (!in) g.push_back(std::make_pair(n->first, e));
    }
    std::sort(g.begin(), g.end());
    mpq_class c = ::abs(q.begin()->second);
    mpz_class n = ::sqrt(c.get_num()), d = ::sqrt(c.get_den());
    mpq_class k = 1;
    if (n * n == c.get_num() && d * d == c.get_den()) k = mpq_class(n, d);
    if (!g.empty() || k != 1) {
      Mono inv = g, half = g;
      for (size_t i = 0; i < g.size(); ++i) {
        inv[i].second = -g[i].second;
        half[i].second = g[i].second / 2;
      }
      Poly f, h;
      f[inv] = 1 / (k * k);
      h[half] = k;
      return mul(Sym(std::move(h)), sqrt(Sym(polyMul(q, f))));
    }
  }
  std::map<Poly, int>::iterator it = sqrtIds.find(q);
  int id;
  if (it == sqrtIds.end()) {
    id = newAtom(SQRT, "sqrt#" + std::to_string(sqrtIds.size()));
    atoms[id].def = q;
    atoms[id].nonneg = true;
    bool positive;
    if (engine::multipleOfPositive(q, positive) && positive) atoms[id].pos = true;
    sqrtIds[q] = id;
  } else
    id = it->second;
  return atomPow(id, 1);
}
Sym powS(const Sym& a, const Sym& e) {
  if (!e.isConst()) throw engine::Unsupported("pow with a symbolic exponent");
  mpq_class q = e.constant();
  if (q.get_den() == 2) return powS(sqrt(a), Sym(mpq_class(q.get_num())));
  if (q.get_den() != 1) throw engine::Unsupported("pow with a fractional exponent");
  long k = q.get_num().get_si();
  Sym r(1), b(a);
  for (long i = 0; i < std::labs(k); ++i) r *= b;
  if (k < 0) return Sym(1) / r;
  return r;
}
Sym abs(const Sym& a) {
  if (a < Sym(0)) return -a;
  return a;
}

Sym Sym::operator-() const {
  if (k_ == CONST) return Sym(mpq_class(-c_));
  return mul(Sym(-1), *this);
}
Sym& Sym::operator+=(const Sym& o) { return *this = add(*this, o, 1); }
Sym& Sym::operator-=(const Sym& o) { return *this = add(*this, o, -1); }
Sym& Sym::operator*=(const Sym& o) { return *this = mul(*this, o); }
Sym& Sym::operator/=(const Sym& o) { return *this = div(*this, o); }
Sym::operator bool() const { return *this != Sym(0); }
Sym::operator double() const {
  if (k_ != CONST)
    throw engine::Unsupported("conversion of a symbolic scalar to a machine double");
  return c_.get_d();
}
static const long MAXINT = 64;
long Sym::toInt() const {
  if (k_ == CONST) {
    mpz_class z = c_.get_num() / c_.get_den();
    return z.get_si();
  }
  if (*this < Sym(0)) {
    for (long k = 0; k < MAXINT; ++k)
      if (*this > Sym(-k - 1)) return -k;
  } else
    for (long k = 0; k < MAXINT; ++k)
      if (*this < Sym(k + 1)) return k;
  throw engine::PathCut("float to int conversion beyond the bound");
}
Sym floorS(const Sym& a) {
  if (a.isConst()) {
    mpz_class z;
    mpz_fdiv_q(z.get_mpz_t(), a.constant().get_num().get_mpz_t(),
               a.constant().get_den().get_mpz_t());
    return Sym(mpq_class(z));
  }
  long k = a.toInt();
  if (a < Sym(k)) return Sym(k - 1);
  return Sym(k);
}

std::string Sym::str() const {
  std::ostringstream o;
  o << *this;
  return o.str();
}
std::ostream& operator<<(std::ostream& o, const Sym& s) {
  if (s.isUndef()) return o << "undef";
  if (s.isConst()) return o << s.constant().get_d();
  bool first = true;
  const Poly& p = s.poly();
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    if (!first) o << " + ";
    first = false;
    o << it->second.get_d();
    for (size_t i = 0; i < it->first.size(); ++i) {
      o << "*" << atoms[it->first[i].first].name;
      if (it->first[i].second != 1) o << "^" << it->first[i].second;
    }
  }
  return o;
}
std::istream& operator>>(std::istream& i, Sym& s) {
  double d;
  i >> d;
  s = Sym(d);
  return i;
}

}  // namespace sym

// ==================================================================== engine
namespace engine {
using namespace sym;

struct Decision {
  bool value;
  bool open;  // the other side is feasible and not yet explored
};
struct Ctx {
  std::vector<Decision> prefix;  // boolean decisions
  size_t pos;
  struct Ch {
    std::string name;
    int value, n;
  };
  std::vector<Ch> choices;  // integer choices, a prefix too (interleaved by order)
  std::vector<std::pair<Sym, std::pair<int, bool> > > pc;  // diff, rel, value
  std::vector<Sym> nonzero;
};

// interleaved trail of choices and decisions
struct Step {
  bool isChoice;
  int value;
  int n;
  std::string name;
  bool other;  // boolean: other side still to explore
};
static std::vector<Step> trail;
static size_t trailPos;
static std::vector<std::pair<Sym, std::pair<int, bool> > > pc;
static Options opts;
static Stats stats_;
static bool genericEq = false;
Stats& stats() { return stats_; }
void setGenericEquality(bool b) { genericEq = b; }

static z3::context& z() {
  static z3::context c;
  return c;
}
static std::map<int, z3::expr>* z3atoms;

static z3::expr polyExpr(const Poly& p, std::set<int>& used);

static z3::expr ratVal(const mpq_class& q) {
  return z().real_val(q.get_str().c_str());
}
static z3::expr atomExpr(int a) {
  return z().real_const(("a" + std::to_string(a)).c_str());
}
// multiply by positive atoms to clear negative exponents; returns the
// cleared polynomial. Only atoms known positive are cleared (sign preserved);
// others are cleared by even powers.
static Poly clearNeg(const Poly& p) {
  std::map<int, int> mn;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it)
    for (size_t i = 0; i < it->first.size(); ++i)
      if (it->first[i].second < 0) {
        int& e = mn[it->first[i].first];
        e = std::min(e, it->first[i].second);
      }
  if (mn.empty()) return p;
  Mono m;
  for (std::map<int, int>::iterator it = mn.begin(); it != mn.end(); ++it) {
    int e = -it->second;
    if (!atoms[it->first].pos && !atoms[it->first].nonneg && e % 2) ++e;
    m.push_back(std::make_pair(it->first, e));
  }
  Poly f;
  f[m] = 1;
  return polyMul(p, f);
}
static z3::expr polyExpr(const Poly& p, std::set<int>& used) {
  z3::expr s = z().real_val(0);
  bool first = true;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    z3::expr t = ratVal(it->second);
    for (size_t i = 0; i < it->first.size(); ++i) {
      used.insert(it->first[i].first);
      z3::expr v = atomExpr(it->first[i].first);
      for (int k = 0; k < it->first[i].second; ++k) t = t * v;
    }
    s = first ? t : s + t;
    first = false;
  }
  return s;
}
static z3::expr relExpr(const Sym& d, int rel, bool val, std::set<int>& used) {
  z3::expr e = polyExpr(clearNeg(d.poly()), used);
  z3::expr c = rel == LT ? (e < 0) : rel == LE ? (e <= 0) : (e == 0);
  return val ? c : !c;
}
// facts about atoms
static void atomFacts(std::set<int> used, std::vector<z3::expr>& out) {
  std::set<int> done;
  while (!used.empty()) {
    int a = *used.begin();
    used.erase(used.begin());
    if (!done.insert(a).second) continue;
    const Atom& at = atoms[a];
    z3::expr v = atomExpr(a);
    std::set<int> u2;
    if (at.pos) out.push_back(v > 0);
    if (at.nonneg) out.push_back(v >= 0);
    if (at.hasLo) out.push_back(at.loStrict ? v > ratVal(at.lo) : v >= ratVal(at.lo));
    if (at.hasHi) out.push_back(at.hiStrict ? v < ratVal(at.hi) : v <= ratVal(at.hi));
    if (at.kind == SQRT) {
      Poly d = at.def;
      // v^2 = def  <=> v^2*m = def*m
      std::map<int, int> mn;
      Sym diff = Sym(Poly(d));
      Poly vv;
      Mono m;
      m.push_back(std::make_pair(a, 2));
      vv[m] = -1;
      for (Poly::iterator it = d.begin(); it != d.end(); ++it) vv[it->first] += it->second;
      out.push_back(polyExpr(clearNeg(vv), u2) == 0);
    }
    if (at.kind == RECIP) {
      Poly one;
      one[Mono()] = -1;
      Poly f;
      Mono m;
      m.push_back(std::make_pair(a, 1));
      f[m] = 1;
      Poly pr = polyMul(at.def, f);
      addTo(pr, Mono(), -1);
      out.push_back(polyExpr(clearNeg(pr), u2) == 0);
    }
    used.insert(u2.begin(), u2.end());
  }
}

// ---- linear queries go to one incremental solver per path
static long pathId = 0;
static bool haveModel = false;              // a point satisfying the path condition
static std::map<int, mpq_class> modelPt;    // (missing atoms: 0, inside their bounds or unused)
static bool linearPoly(const Poly& p) {
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    if (it->first.size() > 1) return false;
    if (it->first.size() == 1 && (it->first[0].second != 1 || atoms[it->first[0].first].kind != VAR)) return false;
  }
  return true;
}
typedef std::vector<std::pair<Sym, std::pair<int, bool> > > Conds;
static bool linearConds(const Conds& c, size_t from = 0) {
  for (size_t i = from; i < c.size(); ++i)
    if (!linearPoly(c[i].first.poly())) return false;
  return true;
}
struct IncLin {
  z3::solver* s;
  long path;
  size_t n;
  bool linear;
  std::set<int> known;
  IncLin() : s(0), path(-1), n(0), linear(true) {}
};
static IncLin inc;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

enum Res { SAT, UNSAT, UNKNOWN };
static std::vector<std::pair<Sym, std::pair<int, bool> > > assumes;
static Res linRes;
static bool linQuery(const Conds& extra, int timeoutMs, double t0) {
  if (inc.path != pathId || inc.n > pc.size()) {
    delete inc.s;
    inc.s = new z3::solver(z(), "QF_LRA");
    inc.path = pathId;
    inc.n = 0;
    inc.linear = true;
    inc.known.clear();
  }
  if (!inc.linear) return false;
  if (!linearConds(pc, inc.n)) {
    inc.linear = false;
    return false;
  }
  if (!linearConds(extra)) return false;
  std::set<int> used;
  std::vector<z3::expr> es, f;
  for (; inc.n < pc.size(); ++inc.n)
    inc.s->add(relExpr(pc[inc.n].first, pc[inc.n].second.first, pc[inc.n].second.second, used));
  for (size_t i = 0; i < extra.size(); ++i)
    es.push_back(relExpr(extra[i].first, extra[i].second.first, extra[i].second.second, used));
  std::set<int> fresh;
  for (std::set<int>::iterator i = used.begin(); i != used.end(); ++i)
    if (inc.known.insert(*i).second) fresh.insert(*i);
  atomFacts(fresh, f);
  for (size_t i = 0; i < f.size(); ++i) inc.s->add(f[i]);
  linRes = UNKNOWN;
  try {
    z3::params pp(z());
    pp.set("timeout", (unsigned)timeoutMs);
    inc.s->set(pp);
    inc.s->push();
    for (size_t i = 0; i < es.size(); ++i) inc.s->add(es[i]);
    z3::check_result cr = inc.s->check();
    linRes = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
    if (linRes == SAT) {
      z3::model m = inc.s->get_model();
      modelPt.clear();
      for (std::set<int>::iterator i = inc.known.begin(); i != inc.known.end(); ++i) {
        z3::expr v = m.eval(atomExpr(*i), true);
        modelPt[*i] = mpq_class(Z3_get_numeral_string(z(), v));
      }
      haveModel = true;
    }
    inc.s->pop();
  } catch (z3::exception& e) {
    inc.path = -1;
    return false;
  }
  stats_.queries++;
  stats_.solver_s += now() - t0;
  if (linRes == UNKNOWN) {
    inc.path = -1;
    return false;  // the general solver has a try
  }
  return true;
}
// does the point known to satisfy the path condition satisfy the relation?
// (-1: no point known)
static int modelSays(const Sym& d, int rel) {
  if (!haveModel || !linearPoly(d.poly())) return -1;
  mpq_class v = 0;
  for (Poly::const_iterator it = d.poly().begin(); it != d.poly().end(); ++it) {
    if (it->first.empty())
      v += it->second;
    else {
      std::map<int, mpq_class>::iterator p = modelPt.find(it->first[0].first);
      if (p == modelPt.end()) return -1;
      v += it->second * p->second;
    }
  }
  return rel == LT ? v < 0 : rel == LE ? v <= 0 : v == 0;
}
static Res query(const std::vector<std::pair<Sym, std::pair<int, bool> > >& extra,
                 int timeoutMs, std::map<std::string, double>* model = 0) {
  double t0 = now();
  if (!model && linQuery(extra, timeoutMs, t0)) return linRes;
  z3::solver s(z());
  z3::params pp(z());
  pp.set("timeout", (unsigned)timeoutMs);
  s.set(pp);
  std::set<int> used;
  for (size_t i = 0; i < pc.size(); ++i)
    s.add(relExpr(pc[i].first, pc[i].second.first, pc[i].second.second, used));
  for (size_t i = 0; i < extra.size(); ++i)
    s.add(relExpr(extra[i].first, extra[i].second.first, extra[i].second.second,
                  used));
  if (model)
    for (std::map<std::string, int>::iterator it = varIds.begin();
         it != varIds.end(); ++it)
      used.insert(it->second);
  std::vector<z3::expr> f;
  atomFacts(used, f);
  for (size_t i = 0; i < f.size(); ++i) s.add(f[i]);
  Res r = UNKNOWN;
  try {
    z3::check_result cr = s.check();
    r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNKNOWN;
    if (r == SAT && model) {
      z3::model m = s.get_model();
      for (std::map<std::string, int>::iterator it = varIds.begin();
           it != varIds.end(); ++it) {
        z3::expr v = m.eval(atomExpr(it->second), true);
        std::string str = v.is_algebraic()
                              ? v.get_decimal_string(17)
                              : Z3_get_numeral_decimal_string(z(), v, 20);
        if (!str.empty() && str[str.size() - 1] == '?') str.erase(str.size() - 1);
        (*model)[it->first] = std::strtod(str.c_str(), 0);
      }
    }
  } catch (z3::exception& e) {
    r = UNKNOWN;
  }
  stats_.queries++;
  stats_.solver_s += now() - t0;
  if (r == UNKNOWN) stats_.unknown++;
  return r;
}

// ------------------------------------------------------------ intervals
struct Iv {
  bool lo, hi;  // bounded?
  double l, h;
};
static bool atomIv(int a, double& l, double& h) {
  const Atom& at = atoms[a];
  l = at.hasLo ? at.lo.get_d() : ((at.pos || at.nonneg) ? 0. : -1e300);
  h = at.hasHi ? at.hi.get_d() : 1e300;
  return true;
}

void noteNonZero(const Sym& s) {
  // division by s: s != 0 becomes a well-definedness obligation
  if (s.isConst()) return;
  const Poly& p = s.poly();
  if (p.size() == 1) {
    bool ok = true;
    const Mono& m = p.begin()->first;
    for (size_t i = 0; i < m.size(); ++i)
      if (!atoms[m[i].first].pos) ok = false;
    if (ok) return;
  }
  static std::set<Poly> seen;
  if (seen.insert(p).second) {
    stats_.nonzero_assumed.push_back(s.str());
  }
}

static bool sameCond(const Sym& a, const Sym& b) { return a.poly() == b.poly(); }

// polynomials that the contracts take as positive (assume_positive)
static std::vector<Poly> positives;
void assume_positive(const Sym& a) {
  if (a.isConst()) {
    if (a.constant() <= 0) throw PathCut("assumption false");
    return;
  }
  for (size_t i = 0; i < positives.size(); ++i)
    if (positives[i] == a.poly()) return;
  positives.push_back(a.poly());
  std::map<Poly, int>::iterator it = sym::sqrtIds.find(a.poly());
  if (it != sym::sqrtIds.end()) atoms[it->second].pos = true;
}
// p is a positive polynomial times a monomial of known sign?
bool multipleOfPositive(const Poly& p, bool& positive) {
  for (size_t i = 0; i < positives.size(); ++i) {
    const Poly& q = positives[i];
    if (q.size() != p.size()) continue;
    for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
      Poly num, den;
      num[it->first] = it->second;
      Mono inv = q.begin()->first;
      for (size_t k = 0; k < inv.size(); ++k) inv[k].second = -inv[k].second;
      den[inv] = 1 / q.begin()->second;
      const Poly m = polyMul(num, den);
      bool ok = true;
      const Mono& mono = m.begin()->first;
      for (size_t k = 0; k < mono.size(); ++k)
        if (!atoms[mono[k].first].pos) ok = false;
      if (ok && polyMul(m, q) == p) {
        positive = m.begin()->second > 0;
        return true;
      }
    }
  }
  return false;
}

static bool quick(const Sym& d, Rel r, bool& out) {
  bool positive;
  if (!positives.empty() && multipleOfPositive(d.poly(), positive)) {
    out = r == EQ ? false : !positive;
    return true;
  }
  // single monomial of positive atoms, or all coefficients of the same sign
  // with all atoms positive
  const Poly p = clearNeg(d.poly());
  int sg = 0;
  bool strict = false;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    bool even = true, pos = true;
    for (size_t i = 0; i < it->first.size(); ++i) {
      const Atom& at = atoms[it->first[i].first];
      if (it->first[i].second % 2) {
        if (!at.pos && !at.nonneg) return false;
      }
      if (!at.pos) pos = false;
      even = false;
    }
    (void)even;
    int c = it->second > 0 ? 1 : -1;
    if (sg && c != sg) return false;
    sg = c;
    if (pos) strict = true;
  }
  if (!strict) {
    if (r == LE && sg < 0) { out = true; return true; }
    if (r == LT && sg > 0) { out = false; return true; }
    return false;
  }
  out = (r == EQ) ? false : (sg < 0);
  return true;
}

static void trailBool(bool& v) {
  v = trail[trailPos].value;
  ++trailPos;
}

static void pcPush(const Sym& d, int r, bool v) {
  if (haveModel && modelSays(d, r) != (v ? 1 : 0)) haveModel = false;
  pc.push_back(std::make_pair(d, std::make_pair(r, v)));
}
}  // namespace engine

namespace sym {
using namespace engine;
bool decide(const Sym& diff, Rel r) {
  if (diff.isConst()) {
    const mpq_class& c = diff.constant();
    return r == LT ? c < 0 : r == LE ? c <= 0 : c == 0;
  }
  bool out;
  if (quick(diff, r, out)) return out;
  // already decided on this path?
  for (size_t i = 0; i < pc.size(); ++i)
    if (pc[i].second.first == r && sameCond(pc[i].first, diff))
      return pc[i].second.second;
  if (diff.hasUndef()) stats_.undef_branch++;
  if (r == EQ && genericEq) {
    // assumed generic position: recorded
    pcPush(diff, (int)r, false);
    stats_.generic_assumed++;
    return false;
  }
  if (trailPos < trail.size()) {
    bool v;
    if (trail[trailPos].isChoice) throw Unsupported("non-deterministic replay");
    trailBool(v);
    pcPush(diff, (int)r, v);
    return v;
  }
  std::vector<std::pair<Sym, std::pair<int, bool> > > e(1);
  e[0] = std::make_pair(diff, std::make_pair((int)r, true));
  int known = modelSays(diff, r);
  bool v;
  bool other = false;
  Res rt = known == 1 ? SAT : query(e, opts.branch_timeout_ms);
  if (rt == UNSAT)
    v = false;
  else {
    // the point kept has to satisfy the branch taken (the true one)
    bool had = haveModel && modelSays(diff, r) == 1;
    std::map<int, mpq_class> keep;
    if (had) keep = modelPt;
    e[0].second.second = false;
    Res rf = known == 0 ? SAT : query(e, opts.branch_timeout_ms);
    v = true;
    if (rf != UNSAT) other = true;
    haveModel = had;
    if (had) modelPt.swap(keep);
  }
  Step s;
  s.isChoice = false;
  s.value = v;
  s.other = other;
  s.n = 2;
  trail.push_back(s);
  ++trailPos;
  if (trail.size() > (size_t)opts.max_depth) throw PathCut("decision depth");
  pcPush(diff, (int)r, v);
  return v;
}
}  // namespace sym

namespace engine {
static std::map<std::string, int> curChoices;
namespace {
struct ShardEmpty {};
}
int choice(const std::string& name, int n) {
  int v;
  if (trailPos < trail.size()) {
    if (!trail[trailPos].isChoice) throw Unsupported("non-deterministic replay");
    v = trail[trailPos].value;
    ++trailPos;
  } else {
    Step s;
    s.isChoice = true;
    s.value = trail.empty() ? opts.shard : 0;
    s.n = n;
    s.name = name;
    s.other = n > 1;
    if (s.value >= n) throw ShardEmpty();
    trail.push_back(s);
    ++trailPos;
    v = s.value;
  }
  curChoices[name] = v;
  return v;
}

static bool concrete = false;
void setConcrete(bool b) { concrete = b; }
static Sym fixedValue(const std::string& name, double lo, double hi) {
  return Sym(mpq_class(lo) + (mpq_class(hi) - mpq_class(lo)) * mpq_class(concreteOf(name), 128));
}
Sym var(const std::string& name) {
  if (concrete) return fixedValue(name, -2, 2);
  std::map<std::string, int>::iterator it = varIds.find(name);
  int id;
  if (it == varIds.end()) {
    id = newAtom(VAR, name);
    varIds[name] = id;
  } else
    id = it->second;
  return atomPow(id, 1);
}
Sym var(const std::string& name, double lo, double hi) {
  if (concrete) return fixedValue(name, lo, hi);
  Sym s = var(name);
  Atom& a = atoms[varIds[name]];
  a.hasLo = a.hasHi = true;
  a.lo = mpq_class(lo);
  a.hi = mpq_class(hi);
  if (lo > 0) a.pos = true;
  if (lo >= 0) a.nonneg = true;
  return s;
}
Sym posvar(const std::string& name) {
  if (concrete) return fixedValue(name, 0.25, 3);
  Sym s = var(name);
  atoms[varIds[name]].pos = true;
  return s;
}

void assume(const Sym& diff, Rel r, bool value) {
  if (diff.isConst()) {
    const mpq_class& c = diff.constant();
    bool b = r == LT ? c < 0 : r == LE ? c <= 0 : c == 0;
    if (b != value) throw PathCut("assumption false");
    return;
  }
  pcPush(diff, (int)r, value);
}
void assume_lt(const Sym& a, const Sym& b) { assume(a - b, LT, true); }
void assume_le(const Sym& a, const Sym& b) { assume(a - b, LE, true); }
bool feasible() {
  std::vector<std::pair<Sym, std::pair<int, bool> > > e;
  return query(e, 5000) != UNSAT;
}
bool provably_sat() {
  std::vector<std::pair<Sym, std::pair<int, bool> > > e;
  return query(e, 10000) == SAT;
}

// evaluate a polynomial at an assignment
static double evalAtom(int a, const std::map<std::string, double>& m,
                       std::map<int, double>& memo);
static double evalPoly(const Poly& p, const std::map<std::string, double>& m,
                       std::map<int, double>& memo) {
  double s = 0;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    double t = it->second.get_d();
    for (size_t i = 0; i < it->first.size(); ++i)
      t *= std::pow(evalAtom(it->first[i].first, m, memo), it->first[i].second);
    s += t;
  }
  return s;
}
static double evalAtom(int a, const std::map<std::string, double>& m,
                       std::map<int, double>& memo) {
  std::map<int, double>::iterator it = memo.find(a);
  if (it != memo.end()) return it->second;
  double v = 0;
  const Atom& at = atoms[a];
  if (at.kind == VAR) {
    std::map<std::string, double>::const_iterator j = m.find(at.name);
    v = j == m.end() ? 0.5 : j->second;
  } else if (at.kind == SQRT)
    v = std::sqrt(evalPoly(at.def, m, memo));
  else if (at.kind == RECIP)
    v = 1. / evalPoly(at.def, m, memo);
  else
    v = 0.123456789;
  memo[a] = v;
  return v;
}

static uint64_t rngState = 88172645463325252ull;
static double rnd() {
  rngState ^= rngState << 13;
  rngState ^= rngState >> 7;
  rngState ^= rngState << 17;
  return (rngState >> 11) * (1.0 / 9007199254740992.0);
}
void seed(unsigned s) { rngState = 88172645463325252ull ^ ((uint64_t)s * 0x9E3779B97F4A7C15ull); rnd(); rnd(); }

static bool pcHolds(const std::map<std::string, double>& m) {
  std::map<int, double> memo;
  for (size_t i = 0; i < pc.size(); ++i) {
    double v = evalPoly(pc[i].first.poly(), m, memo);
    int r = pc[i].second.first;
    bool b = r == LT ? v < 0 : r == LE ? v <= 0 : v == 0;
    if (b != pc[i].second.second) return false;
  }
  return true;
}

// find an assignment of the variables satisfying the path condition on which
// |diff| is large
static bool findWitness(const Sym& diff, double tol, std::map<std::string, double>& best) {
  double bestV = 0;
  bool found = false;
  for (int k = 0; k < 400; ++k) {
    std::map<std::string, double> m;
    for (std::map<std::string, int>::iterator it = varIds.begin();
         it != varIds.end(); ++it) {
      const Atom& a = atoms[it->second];
      double lo = a.hasLo ? a.lo.get_d() : (a.pos ? 0.1 : -2.);
      double hi = a.hasHi ? a.hi.get_d() : std::max(lo + 1., 3.);
      if (hi > lo + 10) hi = lo + 10;
      double v = lo + (hi - lo) * rnd();
      // short dyadic values: exactly representable and readable
      double q = std::round(v * 64) / 64;
      if (q > lo && q < hi) v = q;
      m[it->first] = v;
    }
    if (!pcHolds(m)) continue;
    std::map<int, double> memo;
    double v = std::fabs(evalPoly(diff.poly(), m, memo));
    if (v > bestV) {
      bestV = v;
      best = m;
      found = true;
    }
  }
  if (found && bestV > tol) return true;
  return false;
}

static std::string jsonEsc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '"' || s[i] == '\\') r += '\\';
    if (s[i] == '\n') {
      r += "\\n";
      continue;
    }
    r += s[i];
  }
  return r;
}

static std::map<std::string, Ob> obs;
static std::string curContract;
static std::vector<Failure> fails;

static void recordOb(const std::string& name, const char* backend, bool ok) {
  Ob& o = obs[name];
  o.count++;
  if (ok) o.discharged++;
  o.backends[backend]++;
}
static int failCount = 0;
static double stopAt = 0;
static bool enough() {
  if (opts.stop.empty()) return false;
  if (!stopAt && std::ifstream(opts.stop.c_str()).good()) stopAt = now() + opts.grace_s;
  return stopAt && now() > stopAt;
}
// further counterexamples of an obligation that has some are not searched for
static bool reported(const std::string& name) {
  int same = 0;
  for (size_t i = 0; i < fails.size(); ++i)
    if (fails[i].name == name && !fails[i].unknown) ++same;
  return same >= 3 || fails.size() > 60;
}
static void recordFail(const std::string& name, const std::string& detail,
                       const std::map<std::string, double>* wit, bool unknown) {
  ++failCount;
  if (!unknown && opts.stop.size() && !stopAt) {  // enough has been seen a little after a definite failure, in every process
    stopAt = now() + opts.grace_s;
    std::ofstream(opts.stop.c_str()) << name << "\n";
  }
  int same = 0;
  for (size_t i = 0; i < fails.size(); ++i)
    if (fails[i].name == name) ++same;
  if (same >= 3 || fails.size() > 60) return;
  Failure f;
  f.name = name;
  f.contract = curContract;
  f.detail = detail.substr(0, 1500);
  f.choices = curChoices;
  if (wit) {
    f.witness = *wit;
    f.hasWitness = true;
  } else
    f.hasWitness = false;
  f.unknown = unknown;
  fails.push_back(f);
}

static mpq_class maxCoef(const Poly& p) {
  mpq_class m = 0;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    mpq_class a = ::abs(it->second);
    if (a > m) m = a;
  }
  return m;
}
// eliminate RECIP atoms by clearing denominators
static Poly elimRecip(Poly p) {
  for (int guard = 0; guard < 50; ++guard) {
    int at = -1, mx = 0;
    for (Poly::const_iterator it = p.begin(); it != p.end(); ++it)
      for (size_t i = 0; i < it->first.size(); ++i)
        if (atoms[it->first[i].first].kind == RECIP) {
          if (at < 0) at = it->first[i].first;
          if (it->first[i].first == at) mx = std::max(mx, it->first[i].second);
        }
    if (at < 0) return p;
    // multiply by def^mx, with recip^k * def^k = 1
    std::vector<Poly> pw(1);
    pw[0][Mono()] = 1;
    for (int k = 1; k <= std::max(mx, 0) + 8; ++k) pw.push_back(polyMul(pw.back(), atoms[at].def));
    Poly r;
    for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
      Mono m;
      int e = 0;
      for (size_t i = 0; i < it->first.size(); ++i)
        if (it->first[i].first == at)
          e = it->first[i].second;
        else
          m.push_back(it->first[i]);
      Poly q;
      q[m] = it->second;
      if (mx - e >= (int)pw.size()) return p;
      q = polyMul(q, pw[mx - e]);
      for (Poly::iterator j = q.begin(); j != q.end(); ++j) addTo(r, j->first, j->second);
    }
    p = r;
  }
  return p;
}

bool is_zero(const Sym& a, double eps, const mpq_class& scale) {
  if (a.isUndef()) return false;
  Poly p = a.poly();
  if (p.empty()) return true;
  mpq_class bound = mpq_class(eps) * (scale > 1 ? scale : mpq_class(1));
  if (maxCoef(p) <= bound && !a.hasUndef()) return true;
  bool rec = false;
  for (Poly::const_iterator it = p.begin(); it != p.end() && !rec; ++it)
    for (size_t i = 0; i < it->first.size(); ++i)
      if (atoms[it->first[i].first].kind == RECIP) {
        rec = true;
        break;
      }
  if (rec) {
    p = elimRecip(p);
    if (p.empty()) return true;
    if (maxCoef(p) <= bound && !a.hasUndef()) return true;
  }
  // negative powers of sqrt atoms: multiply and reduce
  bool sq = false;
  for (Poly::const_iterator it = p.begin(); it != p.end() && !sq; ++it)
    for (size_t i = 0; i < it->first.size(); ++i)
      if (atoms[it->first[i].first].kind == SQRT && it->first[i].second < 0) {
        sq = true;
        break;
      }
  if (sq) {
    p = clearNeg(p);
    if (p.empty()) return true;
    if (maxCoef(p) <= bound && !a.hasUndef()) return true;
  }
  return false;
}

double fingerprint(const Sym& v);
static double mainTol = 1e-7;
static bool hasNegPow(const Poly& p, int a) {
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it)
    for (size_t i = 0; i < it->first.size(); ++i)
      if (it->first[i].first == a && it->first[i].second < 0) return true;
  return false;
}
static Poly substAtom(const Poly& p, int a, const Poly& e) {
  Poly r;
  for (Poly::const_iterator it = p.begin(); it != p.end(); ++it) {
    Mono m = it->first;
    int k = 0;
    for (size_t i = 0; i < m.size(); ++i)
      if (m[i].first == a) {
        k = m[i].second;
        m.erase(m.begin() + i);
        break;
      }
    Poly q;
    q[m] = it->second;
    for (int i = 0; i < k; ++i) q = polyMul(q, e);
    for (Poly::iterator j = q.begin(); j != q.end(); ++j) addTo(r, j->first, j->second);
  }
  return r;
}
// the linear equalities of the path condition: stated, or by both inequalities
static const std::vector<Poly>& equalities() {
  static std::vector<Poly> eqs;
  static std::set<Poly> notAbove;  // polynomials that are <= 0
  static long path = -1;
  static size_t n = 0;
  if (path != pathId || n > pc.size()) {
    path = pathId;
    n = 0;
    eqs.clear();
    notAbove.clear();
  }
  for (; n < pc.size(); ++n) {
    const int rel = pc[n].second.first;
    const bool value = pc[n].second.second;
    const Poly q = clearNeg(pc[n].first.poly());
    if (q.size() > 12 || !linearPoly(q)) continue;
    if (rel == EQ && value) eqs.push_back(q);
    if ((rel == LE && value) || (rel == LT && !value)) {
      Poly minus;
      for (Poly::const_iterator it = q.begin(); it != q.end(); ++it) minus[it->first] = -it->second;
      const Poly& le = rel == LE ? q : minus;
      const Poly& ge = rel == LE ? minus : q;
      if (notAbove.count(ge)) eqs.push_back(q);
      notAbove.insert(le);
    }
  }
  return eqs;
}
// rewrites p with the linear equalities of the path condition; false without any
static bool pathEqualities(Poly& p) {
  std::vector<Poly> eqs = equalities();
  if (eqs.empty()) return false;
  for (size_t i = 0; i < eqs.size(); ++i) {
    int best = -1;
    mpq_class bc = 0;
    for (Poly::iterator it = eqs[i].begin(); it != eqs[i].end(); ++it)
      if (!it->first.empty() && ::abs(it->second) > bc && !hasNegPow(p, it->first[0].first)) {
        bc = ::abs(it->second);
        best = it->first[0].first;
      }
    if (best < 0) continue;
    Mono m(1, std::make_pair(best, 1));
    mpq_class c = eqs[i][m];
    Poly e;
    for (Poly::iterator it = eqs[i].begin(); it != eqs[i].end(); ++it)
      if (it->first != m) addTo(e, it->first, mpq_class(-it->second / c));
    p = substAtom(p, best, e);
    for (size_t j = i + 1; j < eqs.size(); ++j) eqs[j] = substAtom(eqs[j], best, e);
  }
  return true;
}
void ensure_eq(const std::string& name, const Sym& a, const Sym& b, double eps) {
  if (a.isUndef() || b.isUndef() || a.hasUndef() || b.hasUndef()) {
    recordOb(name, "none", false);
    std::map<std::string, double> w;
    bool f = findWitness(Sym(1), 0.5, w);
    recordFail(name, "depends on a value that was never initialised (or on an undefined division): got " + a.str() +
                         " expected " + b.str(), f ? &w : 0, false);
    return;
  }
  Sym d = a - b;
  mpq_class sc = maxCoef(b.poly());
  if (is_zero(d, eps, sc)) {
    recordOb(name, "ring-normal-form", true);
    return;
  }
  if (reported(name)) {
    recordOb(name, "none", false);
    ++failCount;
    return;
  }
  // under the path condition: its linear equalities are substituted first
  {
    Poly p = d.poly();
    if (pathEqualities(p)) {
      if (is_zero(Sym(std::move(p)), eps, sc)) {
        recordOb(name, "path-equalities", true);
        return;
      }
    }
  }
  if (!pc.empty()) {
    mpq_class tol = mpq_class(eps) * (sc > 1 ? sc : mpq_class(1));
    std::vector<std::pair<Sym, std::pair<int, bool> > > e(1);
    bool proved = true;
    // d <= tol and d >= -tol under pc
    e[0] = std::make_pair(d - Sym(tol), std::make_pair((int)LE, false));
    Res r = query(e, opts.ob_timeout_ms);
    if (r != UNSAT) proved = false;
    if (proved) {
      e[0] = std::make_pair(-d - Sym(tol), std::make_pair((int)LE, false));
      r = query(e, opts.ob_timeout_ms);
      if (r != UNSAT) proved = false;
    }
    if (proved) {
      recordOb(name, "z3", true);
      return;
    }
  }
  recordOb(name, "none", false);
  std::map<std::string, double> w;
  bool f = findWitness(d, mainTol, w);
  if (!f) {
    std::vector<std::pair<Sym, std::pair<int, bool> > > e(1);
    e[0] = std::make_pair(Sym(mpq_class(1e-5)) - d * d, std::make_pair((int)LT, true));
    Res r = query(e, opts.ob_timeout_ms, &w);
    f = r == SAT;
  }
  recordFail(name, "got " + a.str() + "\nexpected " + b.str() + "\ndifference " + d.str(), f ? &w : 0, !f);
}
static void ensureRel(const std::string& name, const Sym& a, const Sym& b, Rel rel) {
  Sym d = a - b;
  bool out = false;
  if (d.hasUndef()) {
    recordOb(name, "none", false);
    recordFail(name, "depends on an uninitialised value: " + d.str(), 0, false);
    return;
  }
  if (d.isConst()) {
    out = rel == LT ? d.constant() < 0 : d.constant() <= 0;
    recordOb(name, "ring-normal-form", out);
    if (!out) {
      std::map<std::string, double> w;
      bool f = findWitness(Sym(1), 0.5, w);
      recordFail(name, "constant relation is false: " + a.str() + " vs " + b.str(), f ? &w : 0, false);
    }
    return;
  }
  if (quick(d, rel, out) && out) {
    recordOb(name, "sign-analysis", true);
    return;
  }
  std::vector<std::pair<Sym, std::pair<int, bool> > > e(1);
  e[0] = std::make_pair(d, std::make_pair((int)rel, false));
  std::map<std::string, double> w;
  Res r = query(e, opts.ob_timeout_ms, &w);
  if (r == UNSAT) {
    recordOb(name, "z3", true);
    return;
  }
  recordOb(name, "none", false);
  recordFail(name, "relation not implied: " + a.str() + (rel == LT ? " < " : " <= ") + b.str(),
             r == SAT ? &w : 0, r != SAT);
}
void ensure_le(const std::string& name, const Sym& a, const Sym& b) { ensureRel(name, a, b, LE); }
void ensure_lt(const std::string& name, const Sym& a, const Sym& b) { ensureRel(name, a, b, LT); }
void ensure_true(const std::string& name, bool c, const std::string& detail) {
  recordOb(name, "evaluation", c);
  if (!c) {
    if (reported(name)) {
      ++failCount;
      return;
    }
    std::map<std::string, double> w;
    bool f = findWitness(Sym(1), 0.5, w);
    if (!f) {
      std::vector<std::pair<Sym, std::pair<int, bool> > > e;
      f = query(e, 5000, &w) == SAT;
    }
    recordFail(name, detail, f ? &w : 0, false);
  }
}
// (A|b) rows equal up to a positive factor
static bool rowEq(const std::vector<Sym>& got, const std::vector<Sym>& want, double eps, Sym& diff,
                  bool quick = false) {
  bool same = true;
  for (size_t i = 0; i < got.size() && same; ++i)
    same = is_zero(got[i] - want[i], eps, maxCoef(want[i].poly()));
  if (same) {
    return true;
  }
  // pivot
  size_t j = 0;
  size_t bestSz = 1u << 30;
  bool any = false;
  for (size_t i = 0; i < want.size(); ++i) {
    const Poly& p = want[i].poly();
    if (p.empty()) continue;
    if (p.size() < bestSz) {
      bestSz = p.size();
      j = i;
      any = true;
    }
  }
  bool ok = any;
  diff = Sym(0);
  if (any) {
    // got == k * want with k a positive monomial?
    const Poly &pg = got[j].poly(), &pw = want[j].poly();
    double target = fingerprint(got[j]) / fingerprint(want[j]);
    Mono inv = pw.begin()->first;
    for (size_t i = 0; i < inv.size(); ++i) inv[i].second = -inv[i].second;
    for (Poly::const_iterator it = pg.begin(); it != pg.end(); ++it) {
      Poly rp;
      Mono ratio = monoMul(it->first, inv);
      rp[ratio] = it->second / pw.begin()->second;
      if (!(std::fabs(fingerprint(Sym(Poly(rp))) - target) <= 1e-6 * std::fabs(target))) continue;
      bool pos = rp.begin()->second > 0;
      for (size_t i = 0; i < ratio.size() && pos; ++i) {
        const Atom& at = atoms[ratio[i].first];
        if (!(at.pos || at.nonneg) && ratio[i].second % 2) pos = false;
      }
      if (!pos) continue;
      Sym k((Poly(rp)));
      bool all = true;
      for (size_t i = 0; i < got.size() && all; ++i) {
        Sym w = k * want[i];
        all = is_zero(got[i] - w, eps, maxCoef(w.poly()));
      }
      if (all) {
        return true;
      }
      break;
    }
  }
  if (quick) return false;
  if (any) {
    for (size_t i = 0; i < got.size() && ok; ++i) {
      if (i == j) continue;
      Sym d = got[i] * want[j] - got[j] * want[i];
      if (!is_zero(d, eps, maxCoef((got[j] * want[i]).poly()))) {
        ok = false;
        diff = d;
      }
    }
    if (ok) {  // sign: got_j * want_j > 0 wherever want_j != 0 : try the ratio
      const Poly &pg = got[j].poly(), &pw = want[j].poly();
      bool sgn = false;
      if (pg.size() == pw.size() && !pg.empty()) {
        Mono inv = pw.begin()->first;
        for (size_t i = 0; i < inv.size(); ++i) inv[i].second = -inv[i].second;
        Mono ratio = monoMul(pg.begin()->first, inv);
        mpq_class k = pg.begin()->second / pw.begin()->second;
        Poly rp;
        rp[ratio] = k;
        if (polyMul(rp, pw) == pg) {
          bool pos = k > 0;
          for (size_t i = 0; i < ratio.size(); ++i) {
            const Atom& at = atoms[ratio[i].first];
            if (!(at.pos || at.nonneg) && ratio[i].second % 2) pos = false;
          }
          sgn = pos;
        }
      }
      if (!sgn) {
        std::vector<std::pair<Sym, std::pair<int, bool> > > e(2);
        e[0] = std::make_pair(got[j] * want[j], std::make_pair((int)LE, true));
        e[1] = std::make_pair(want[j], std::make_pair((int)EQ, false));
        sgn = query(e, opts.ob_timeout_ms) == UNSAT;
      }
      if (sgn) {
        return true;
      }
      ok = false;
      diff = got[j] - want[j];
    }
  } else {
    // want is the zero row: got must be zero too
    for (size_t i = 0; i < got.size(); ++i)
      if (!is_zero(got[i], eps, 1)) diff = got[i];
  }
  return false;
}
static std::vector<Sym> onPath(const std::vector<Sym>& row) {
  if (equalities().empty()) return row;
  std::vector<Sym> res;
  for (size_t i = 0; i < row.size(); ++i) {
    Poly p = row[i].poly();
    pathEqualities(p);
    res.push_back(Sym(std::move(p)));
  }
  return res;
}
bool row_matches(const std::vector<Sym>& got, const std::vector<Sym>& want, double eps) {
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i].isUndef() || got[i].hasUndef()) return false;
  Sym diff;
  if (rowEq(got, want, eps, diff, true)) return true;
  return !equalities().empty() && rowEq(onPath(got), onPath(want), eps, diff, true);
}
void ensure_row(const std::string& name, const std::vector<Sym>& got, const std::vector<Sym>& want,
                double eps) {
  if (got.size() != want.size()) {
    ensure_true(name, false, "row sizes differ");
    return;
  }
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i].isUndef() || got[i].hasUndef()) {
      ensure_eq(name, got[i], want[i], eps);
      return;
    }
  Sym diff;
  if (rowEq(got, want, eps, diff)) {
    recordOb(name, "ring-normal-form", true);
    return;
  }
  if (!equalities().empty() && rowEq(onPath(got), onPath(want), eps, diff)) {
    recordOb(name, "path-equalities", true);
    return;
  }
  if (reported(name)) {
    recordOb(name, "none", false);
    ++failCount;
    return;
  }
  recordOb(name, "none", false);
  std::map<std::string, double> w;
  bool f = findWitness(diff, 1e-6, w);
  std::string det = "row is not a positive multiple of the specified row\ngot: ";
  for (size_t i = 0; i < got.size(); ++i) det += got[i].str().substr(0, 300) + " ; ";
  det += "\nexpected: ";
  for (size_t i = 0; i < want.size(); ++i) det += want[i].str().substr(0, 300) + " ; ";
  recordFail(name, det, f ? &w : 0, !f);
}
void fail_here(const std::string& name, const std::string& why) { ensure_true(name, false, why); }

// a path of the code under contract that does not end
static void pathTooLong(int) {
  static const char m[] = "a path is still running after its processor time\n";
  if (write(2, m, sizeof m - 1) < 0) {}
  _exit(7);
}
static void watchPath(double s) {
  signal(SIGPROF, pathTooLong);
  itimerval t = {{0, 0}, {(time_t)s, 0}};
  setitimer(ITIMER_PROF, &t, 0);
}
void explore(const std::string& contract, std::function<void()> body, Options o) {
  opts = o;
  curContract = contract;
  trail.clear();
  double t0 = now();
  int paths = 0, done = 0, cut = 0;
  if (stats_.err.size()) return;
  const std::map<std::string, Ob> obs0 = obs;
  const std::vector<Failure> fails0 = fails;
  const long failCount0 = failCount;
  for (;;) {
    trailPos = 0;
    pc.clear();
    inexact = false;
    ++pathId;
    haveModel = false;
    curChoices.clear();
    genericEq = o.generic_eq;
    concrete = false;
    ++paths;
    bool counted = false;
    watchPath(o.path_s);
    try {
      oobArmed = true;
      if (setjmp(oobJump) == 0) {
        body();
        counted = true;
        ++done;
      } else
        ensure_true(contract + "/no-out-of-bounds-access", false, "container precondition violated: " + oobWhat);
      oobArmed = false;
    } catch (ShardEmpty&) {
      oobArmed = false;
      return;
    } catch (OutOfBounds& e) {
      ensure_true(contract + "/no-out-of-bounds-access", false, std::string("index or shape out of range: ") + e.what());
    } catch (PathCut& e) {
      ++cut;
      stats_.cuts[e.what()]++;
    } catch (Unsupported& e) {
      stats_.err = std::string(contract) + ": unsupported: " + e.what();
      break;
    } catch (std::exception& e) {
      ensure_true(contract + "/no-unexpected-exception", false,
                  std::string("unexpected exception: ") + e.what());
    }
    if (opts.shard && (trail.empty() || !trail[0].isChoice)) {
      // nothing to divide: shard 0 does it all
      obs = obs0;
      fails = fails0;
      failCount = failCount0;
      return;
    }
    // vacuity: at least the first completed path of each contract is checked
    // satisfiable
    if (counted && stats_.vac[contract] == 0) {
      if (provably_sat()) stats_.vac[contract] = 1;
    }
    while (!trail.empty()) {
      Step& s = trail.back();
      const int step = trail.size() == 1 ? opts.shards : 1;
      if (s.isChoice && s.value + step < s.n) {
        s.value += step;
        break;
      }
      if (!s.isChoice && s.other) {
        s.other = false;
        s.value = !s.value;
        break;
      }
      trail.pop_back();
    }
    if (trail.empty() || enough()) break;
    if (paths >= o.max_paths || now() - t0 > o.max_s) {
      stats_.err = contract + ": path budget exhausted (" + std::to_string(paths) + " paths)";
      break;
    }
  }
  ContractStat c;
  c.name = contract;
  c.paths = paths;
  c.done = done;
  c.cut = cut;
  c.wall = now() - t0;
  c.bound = o.bound;
  c.functions = o.functions;
  stats_.contracts.push_back(c);
}

bool symbolic() { return true; }
double fingerprint(const Sym& v) {
  if (v.isConst()) return v.constant().get_d();
  if (v.isUndef()) return NAN;
  // a fixed pseudo-random point: per variable a hash of its name; it satisfies
  // the linear equalities of the path
  static std::map<std::string, double> m;
  static size_t count = 0, numEqs = 0;
  static long path = -1;
  const std::vector<Poly>& eqs = equalities();
  if (count != varIds.size() || eqs.size() != numEqs || (numEqs && path != pathId)) {
    m.clear();
    for (std::map<std::string, int>::iterator it = varIds.begin(); it != varIds.end(); ++it) {
      const Atom& a = atoms[it->second];
      uint64_t h = 1469598103934665603ull;
      for (size_t i = 0; i < it->first.size(); ++i) h = (h ^ (unsigned char)it->first[i]) * 1099511628211ull;
      h ^= h >> 29;
      h *= 0xbf58476d1ce4e5b9ull;
      h ^= h >> 32;
      double u = (h >> 11) * (1.0 / 9007199254740992.0);
      double lo = a.hasLo ? a.lo.get_d() : (a.pos ? 0.5 : -1.5);
      double hi = a.hasHi ? a.hi.get_d() : lo + 2.5;
      m[it->first] = lo + (hi - lo) * u;
    }
    std::vector<Poly> left = eqs;
    std::vector<std::pair<int, Poly> > solved;
    for (size_t i = 0; i < left.size(); ++i) {
      Poly::iterator best = left[i].end();
      for (Poly::iterator it = left[i].begin(); it != left[i].end(); ++it)
        if (!it->first.empty() && atoms[it->first[0].first].kind == VAR &&
            (best == left[i].end() || ::abs(it->second) > ::abs(best->second)))
          best = it;
      if (best == left[i].end()) continue;
      const int a = best->first[0].first;
      const mpq_class c = best->second;
      Poly e;
      for (Poly::iterator it = left[i].begin(); it != left[i].end(); ++it)
        if (it != best) e[it->first] = -it->second / c;
      for (size_t j = i + 1; j < left.size(); ++j) left[j] = substAtom(left[j], a, e);
      solved.push_back(std::make_pair(a, e));
    }
    for (size_t i = solved.size(); i-- > 0;) {
      std::map<int, double> memo;
      m[atoms[solved[i].first].name] = evalPoly(solved[i].second, m, memo);
    }
    count = varIds.size();
    numEqs = eqs.size();
    path = pathId;
  }
  std::map<int, double> memo;
  return evalPoly(v.poly(), m, memo);
}

void report(std::ostream& out) {
  out.precision(17);
  out << "{\n\"error\": \"" << jsonEsc(stats_.err) << "\",\n";
  out << "\"contracts\": [";
  for (size_t i = 0; i < stats_.contracts.size(); ++i) {
    ContractStat& c = stats_.contracts[i];
    out << (i ? ",\n" : "\n") << "{\"name\":\"" << jsonEsc(c.name) << "\",\"functions\":\"" << jsonEsc(c.functions) << "\",\"paths\":" << c.paths
        << ",\"completed\":" << c.done << ",\"cut\":" << c.cut << ",\"wall_s\":" << c.wall
        << ",\"bound\":\"" << jsonEsc(c.bound) << "\",\"nonvacuous\":" << (stats_.vac[c.name] ? "true" : "false")
        << "}";
  }
  out << "],\n\"obligations\": [";
  bool first = true;
  for (std::map<std::string, Ob>::iterator it = obs.begin(); it != obs.end(); ++it) {
    out << (first ? "\n" : ",\n") << "{\"name\":\"" << jsonEsc(it->first) << "\",\"count\":" << it->second.count
        << ",\"discharged\":" << it->second.discharged << ",\"backends\":{";
    bool f2 = true;
    for (std::map<std::string, int>::iterator b = it->second.backends.begin();
         b != it->second.backends.end(); ++b) {
      out << (f2 ? "" : ",") << "\"" << b->first << "\":" << b->second;
      f2 = false;
    }
    out << "}}";
    first = false;
  }
  out << "],\n\"failures\": [";
  for (size_t i = 0; i < fails.size(); ++i) {
    Failure& f = fails[i];
    out << (i ? ",\n" : "\n") << "{\"name\":\"" << jsonEsc(f.name) << "\",\"contract\":\"" << jsonEsc(f.contract) << "\",\"detail\":\"" << jsonEsc(f.detail)
        << "\",\"unknown\":" << (f.unknown ? "true" : "false") << ",\"choices\":{";
    bool f2 = true;
    for (std::map<std::string, int>::iterator b = f.choices.begin(); b != f.choices.end(); ++b) {
      out << (f2 ? "" : ",") << "\"" << jsonEsc(b->first) << "\":" << b->second;
      f2 = false;
    }
    out << "},\"witness\":";
    if (!f.hasWitness)
      out << "null";
    else {
      out << "{";
      f2 = true;
      for (std::map<std::string, double>::iterator b = f.witness.begin(); b != f.witness.end(); ++b) {
        out << (f2 ? "" : ",") << "\"" << jsonEsc(b->first) << "\":" << b->second;
        f2 = false;
      }
      out << "}";
    }
    out << "}";
  }
  out << "],\n\"fail_count\":" << failCount << ",\n\"nonzero_assumed\": [";
  for (size_t i = 0; i < stats_.nonzero_assumed.size() && i < 40; ++i)
    out << (i ? "," : "") << "\"" << jsonEsc(stats_.nonzero_assumed[i].substr(0, 200)) << "\"";
  out << "],\n\"generic_assumed\":" << stats_.generic_assumed << ",\"z3_queries\":" << stats_.queries
      << ",\"z3_unknown\":" << stats_.unknown << ",\"solver_s\":" << stats_.solver_s << ",\"cuts\":{";
  first = true;
  for (std::map<std::string, int>::iterator b = stats_.cuts.begin(); b != stats_.cuts.end(); ++b) {
    out << (first ? "" : ",") << "\"" << jsonEsc(b->first) << "\":" << b->second;
    first = false;
  }
  out << "}\n}\n";
}
}  // namespace engine
