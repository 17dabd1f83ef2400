// Specification vocabulary shared by the contracts: Bernstein/Bezier calculus
// written independently of the code under verification, the table of curve
// families, and the observation of a control point as an affine function of
// the free variable(s).
#ifndef VERIF_SPEC_HH
#define VERIF_SPEC_HH
#include "contract.hh"
#include <set>

#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>

namespace spec {
using namespace bezier_com_traj;
using engine::ensure_eq;
using engine::ensure_le;
using engine::ensure_lt;
using engine::ensure_row;
using engine::ensure_true;

inline std::string S(long i) { return std::to_string(i); }

inline point_t v3(const std::string& n) {
  return point_t(engine::var(n + "x"), engine::var(n + "y"), engine::var(n + "z"));
}
inline double binom(int n, int k) {
  double r = 1;
  for (int i = 1; i <= k; ++i) r = r * double(n - k + i) / double(i);
  return r;
}
inline double ipow(const double& t, int k) {
  double r = 1;
  for (int i = 0; i < k; ++i) r = r * t;
  return r;
}
inline double bern(int n, int i, const double& t) {
  return binom(n, i) * ipow(t, i) * ipow(1 - t, n - i);
}

// A point of R^m that depends affinely on nv free variables of R^3 with
// scalar coefficients: sum_k c[k] * x_k + s
struct Aff {
  std::vector<double> c;
  point_t s;
  Aff() : s(point_t::Zero()) {}
  explicit Aff(int nv) : c(nv, double(0)), s(point_t::Zero()) {}
};
inline Aff axpy(const double& a, const Aff& x, const Aff& y) {
  Aff r = y;
  for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = r.c[i] + a * x.c[i];
  r.s = r.s + a * x.s;
  return r;
}
inline Aff scale(const double& a, const Aff& x) {
  Aff r = x;
  for (size_t i = 0; i < r.c.size(); ++i) r.c[i] = a * r.c[i];
  r.s = a * r.s;
  return r;
}
typedef std::vector<Aff> Curve;  // control points on [0,T]
// control points of the k-th derivative of the curve of duration T
inline Curve deriv(const Curve& p, const double& T, int k = 1) {
  Curve q = p;
  for (int s = 0; s < k; ++s) {
    Curve r;
    int n = (int)q.size() - 1;
    for (int i = 0; i < n; ++i) r.push_back(scale(double(n) / T, axpy(-1, q[i], q[i + 1])));
    q = r;
  }
  return q;
}
// value at normalised time t
inline Aff eval(const Curve& p, const double& t) {
  Aff r((int)p[0].c.size());
  int n = (int)p.size() - 1;
  for (int i = 0; i <= n; ++i) r = axpy(bern(n, i, t), p[i], r);
  return r;
}
// control points of the restriction of the curve to the normalised interval
// [u,v] : blossom b(u^{n-i} v^i)
template <class P, class AX>
std::vector<P> restrict_(const std::vector<P>& p, const double& u, const double& v, AX axpyf,
                         const P& zero) {
  int n = (int)p.size() - 1;
  std::vector<P> out;
  for (int i = 0; i <= n; ++i) {
    std::vector<P> q = p;
    for (int s = 0; s < n; ++s) {
      const double w = s < n - i ? u : v;
      std::vector<P> r;
      for (size_t k = 0; k + 1 < q.size(); ++k) r.push_back(axpyf(1 - w, q[k], axpyf(w, q[k + 1], zero)));
      q = r;
    }
    out.push_back(q[0]);
  }
  return out;
}

// ------------------------------------------------------------ curve families
struct Family {
  const char* name;
  int flag;
  int nInit, nFree, nEnd;  // constrained derivatives at both ends, free slots
  bool tied;               // the free slots share one variable (capturability)
  bool com;                // usable for the centroidal problem
  int vars() const { return tied ? 1 : nFree; }
  int degree() const { return nInit + nFree + nEnd - 1; }
};
static const int IP = INIT_POS, IV = INIT_VEL, IA = INIT_ACC, IJ = INIT_JERK, EP = END_POS,
                 EV = END_VEL, EA = END_ACC, EJ = END_JERK;
static const Family FAMILIES[] = {
    {"p0v0_p1", IP | IV | EP, 2, 1, 1, false, true},
    {"p0v0_stop", IP | IV | EV, 2, 2, 0, true, true},
    {"p0v0_v1p1", IP | IV | EV | EP, 2, 1, 2, false, true},
    {"p0v0a0", IP | IV | IA, 3, 1, 0, false, true},
    {"p0v0a0_p1", IP | IV | IA | EP, 3, 1, 1, false, true},
    {"p0v0a0_v1p1", IP | IV | IA | EV | EP, 3, 1, 2, false, true},
    {"p0v0a0_a1v1p1", IP | IV | IA | EA | EV | EP, 3, 1, 3, false, true},
    {"p0v0a0j0_j1a1v1p1", IP | IV | IA | IJ | EJ | EA | EV | EP, 4, 1, 4, false, false},
    {"p0v0a0j0_x3_j1a1v1p1", IP | IV | IA | IJ | EJ | EA | EV | EP | THREE_FREE_VAR, 4, 3, 4, false,
     false},
    {"p0v0a0j0_x5_j1a1v1p1", IP | IV | IA | IJ | EJ | EA | EV | EP | FIVE_FREE_VAR, 4, 5, 4, false,
     false},
};
static const int N_COM = 8, N_FAM = 10;

// boundary data as free symbolic inputs
inline void fillBoundary(ProblemData& p, const Family& f) {
  p.c0_ = v3("c0");
  p.dc0_ = v3("dc0");
  p.ddc0_ = v3("ddc0");
  p.j0_ = v3("j0");
  p.c1_ = v3("c1");
  p.dc1_ = f.tied ? point_t(0, 0, 0) : v3("dc1");
  p.ddc1_ = v3("ddc1");
  p.j1_ = v3("j1");
  p.constraints_.flag_ = (ConstraintFlag)f.flag;
}
// control points forced by the boundary data (d-th derivative at an end of a
// degree-n curve: d^k c(0) = n!/(n-k)!/T^k * forward difference), free slots = x_k
inline Curve controlPoints(const ProblemData& p, const Family& f, const double& T) {
  int n = f.degree(), nv = f.vars();
  Curve out(n + 1, Aff(nv));
  const point_t di[4] = {p.c0_, p.dc0_, p.ddc0_, p.j0_};
  const point_t de[4] = {p.c1_, p.dc1_, p.ddc1_, p.j1_};
  for (int i = 0; i < f.nInit; ++i) {
    double fall = 1;  // n!/(n-k)!
    point_t s = point_t::Zero();
    for (int k = 0; k <= i; ++k) {
      if (k) fall = fall * double(n - k + 1);
      s = s + (binom(i, k) * ipow(T, k) / fall) * di[k];
    }
    out[i].s = s;
  }
  for (int i = 0; i < f.nEnd; ++i) {
    double fall = 1;
    point_t s = point_t::Zero();
    for (int k = 0; k <= i; ++k) {
      if (k) fall = fall * double(n - k + 1);
      s = s + ((k % 2 ? -1 : 1) * binom(i, k) * ipow(T, k) / fall) * de[k];
    }
    out[n - i].s = s;
  }
  for (int i = 0; i < f.nFree; ++i) out[f.nInit + i].c[f.tied ? 0 : i] = 1;
  return out;
}

inline void eqv(const std::string& n, const point_t& a, const point_t& b, machine_double eps = 1e-9) {
  for (int i = 0; i < 3; ++i) ensure_eq(n, a(i), b(i), eps);
}
// a waypoint_t (matrix, vector) has the given affine form
inline void eqw(const std::string& n, const waypoint_t& w, const Aff& a, machine_double eps = 1e-9) {
  bool ok = w.first.rows() == 3 && w.first.cols() == 3 * (long)a.c.size() && w.second.size() == 3;
  ensure_true(n + "/dimensions", ok);
  if (!ok) return;
  for (int r = 0; r < 3; ++r) {
    for (int k = 0; k < (int)a.c.size(); ++k)
      for (int q = 0; q < 3; ++q)
        ensure_eq(n, w.first(r, 3 * k + q), r == q ? a.c[k] : double(0), eps);
    ensure_eq(n, w.second(r), a.s(r), eps);
  }
}
}  // namespace spec
#endif
