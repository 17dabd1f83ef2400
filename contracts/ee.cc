// C20 (blended objective), C21, C17: the end effector solver.
#include "com_spec.hh"
#include <hpp/bezier-com-traj/solve_end_effector.hh>
using namespace spec;

// an arbitrary reference path: unrelated points at the instants it is asked for
struct Path {
  mutable std::vector<double> t;
  mutable std::vector<point_t> v;
  point3_t operator()(const double& u) const {
    for (size_t i = 0; i < t.size(); ++i)
      if (std::fabs(engine::fingerprint(u) - engine::fingerprint(t[i])) < 1e-7) return v[i];
    t.push_back(u);
    v.push_back(v3("path" + S((long)t.size() - 1) + "_"));
    return v.back();
  }
};
struct Run {
  const Family* f;
  ProblemData p;
  double T;
  Path path;
  ResultDataCOMTraj r;
  bool one;
  stub::Problem q;
};
static void solveEE(const std::string& n, Run& s, const Family& f, const double& w) {
  stub::reset();
  s.f = &f;
  fillBoundary(s.p, f);
  s.T = engine::posvar("T");
  engine::assume_lt(s.T, 1000);  // the code drops coefficients below 2e-16, which scale with 1/T^3
  s.r = solveEndEffector<Path>(s.p, s.path, s.T, w);
  s.one = stub::problems.size() == 1;
  ensure_true(n + "/one-problem-solved", s.one);
  if (s.one) s.q = stub::problems[0];
}
static double weight(int k) {
  if (k == 0) return 0;
  if (k == 1) return 1;
  double w = engine::var("w");
  engine::assume_lt(0, w);
  engine::assume_lt(w, 1);
  return w;
}
static const char* WN[3] = {"smoothness-only", "distance-only", "blend"};

// objective x'Hx + 2 g'x: (1-w) V / |V| + w D / |D| where V is the integral of
// the squared velocity (contract C20/velocity-cost), D the sum of the squared
// distances at equally spaced instants, |.| the norms of their Hessians
CONTRACT("C20/blend", "solveEndEffector computeEndEffectorCost computeDistanceCostFunction evaluateCurveWaypointAtTime", "") {
  int fam = engine::choice("family", 3), wk = engine::choice("weight", 3);
  const Family& f = FAMILIES[7 + fam];
  std::string n = std::string("C20/blend/") + WN[wk] + "/" + f.name;
  double w = weight(wk);
  Run s;
  solveEE(n, s, f, w);
  if (!s.one) return;
  int dim = 3 * f.vars();
  bool ok = s.q.H.rows() == dim && s.q.H.cols() == dim && s.q.g.size() == dim;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  // the smoothness part, by its own contract, normalised
  std::pair<MatrixXX, VectorX> V = computeVelocityCost(s.p, s.T);
  double v2 = 0;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) v2 = v2 + V.first(i, j) * V.first(i, j);
  double vn = std::sqrt(v2);
  // the distance part
  MatrixXX D = MatrixXX::Zero(dim, dim);
  VectorX d = VectorX::Zero(dim);
  double dn = 1;
  if (wk) {
    size_t N = s.path.t.size();
    ensure_true(n + "/samples", N >= 10);
    if (N < 2) return;
    Curve cp = controlPoints(s.p, f, s.T);
    for (size_t i = 0; i < N; ++i) {
      const double& t = s.path.t[i];
      ensure_eq(n + "/equally-spaced", t, double((long)i) / double((long)N - 1));
      Aff c = eval(cp, t);
      for (int a = 0; a < f.vars(); ++a) {
        for (int b = 0; b < f.vars(); ++b)
          for (int q = 0; q < 3; ++q) D(3 * a + q, 3 * b + q) = D(3 * a + q, 3 * b + q) + c.c[a] * c.c[b];
        for (int q = 0; q < 3; ++q) d(3 * a + q) = d(3 * a + q) + c.c[a] * (c.s(q) - s.path.v[i](q));
      }
    }
    double d2 = 0;
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) d2 = d2 + D(i, j) * D(i, j);
    dn = std::sqrt(d2);
  } else
    ensure_true(n + "/path-unused", s.path.t.empty());
  std::vector<double> got, want;
  for (int i = 0; i < dim; ++i) {
    for (int j = 0; j < dim; ++j) {
      got.push_back(s.q.H(i, j));
      want.push_back((1 - w) * V.first(i, j) / vn + w * D(i, j) / dn);
    }
    got.push_back(s.q.g(i));
    want.push_back((1 - w) * V.second(i) / vn + w * d(i) / dn);
  }
  ensure_row(n, got, want, 1e-8);
}

static void bounds(Rows& out, const Curve& d, const point_t& m, int nv) {
  for (size_t i = 0; i < d.size(); ++i) {
    bool dep = false;
    for (int a = 0; a < nv; ++a) dep = dep || engine::fingerprint(d[i].c[a]) != 0;
    if (!dep) continue;
    for (int q = 0; q < 3; ++q) {
      Row r(3 * nv + 1, double(0));
      for (int a = 0; a < nv; ++a) r[3 * a + q] = d[i].c[a];
      r.back() = m(q) - d[i].s(q);
      out.push_back(r);
      for (int a = 0; a < nv; ++a) r[3 * a + q] = -d[i].c[a];
      r.back() = m(q) + d[i].s(q);
      out.push_back(r);
    }
  }
}
static void floors(Rows& out, const Run& s, int order) {
  int nv = s.f->vars();
  for (int a = 0; a < nv; ++a) {
    Row r(3 * nv + 1, double(0));
    r[3 * a + 2] = -1;
    r.back() = -(order ? s.p.c1_(2) : s.p.c0_(2));
    out.push_back(r);
  }
}
// which end is lower: a case distinction
static int lowerEnd() {
  int o = engine::choice("lower-end", 2);
  double a = engine::var("c0z"), b = engine::var("c1z");
  if (o == 0) engine::assume_le(a, b);
  else engine::assume_lt(b, a);
  return o;
}
CONTRACT("C21/constraints", "solveEndEffector computeEndEffectorConstraints computeConstraintsMatrix", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  std::string n = std::string("C21/constraints/") + f.name;
  int o = lowerEnd();
  Run s;
  solveEE(n, s, f, 0);
  if (!s.one) return;
  int dim = 3 * f.vars();
  bool ok = s.q.A.cols() == dim && s.q.A.rows() == s.q.b.size();
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  ensure_true(n + "/no-equality", s.q.D.rows() == 0 && s.q.d.size() == 0);
  for (long i = 0; i < s.q.minB.size(); ++i) ensure_le(n + "/no-bound", s.q.minB(i), double(solvers::UNBOUNDED_DOWN));
  for (long i = 0; i < s.q.maxB.size(); ++i) ensure_le(n + "/no-bound", double(solvers::UNBOUNDED_UP), s.q.maxB(i));
  Rows want;
  Curve cp = controlPoints(s.p, f, s.T);
  point_t m(10000, 10000, 10000);
  for (int k = 1; k <= 3; ++k) bounds(want, deriv(cp, s.T, k), m, f.vars());
  floors(want, s, o);
  sameHalfspaces(n, rowsOf(s.q.A, s.q.b), want, 1e-7);
}
// the bounds of the three derivatives are not mixed up (helper, when it is
// there with this interface)
template <class P, class W, class B, class M, class Vv>
static auto matrixOf(const P& p, const W& acc, const W& vel, const B& ab, const B& vb, M& A, Vv& b, const W& jerk,
                     const B& jb, int) -> decltype(computeConstraintsMatrix(p, acc, vel, ab, vb, A, b, jerk, jb), true) {
  computeConstraintsMatrix(p, acc, vel, ab, vb, A, b, jerk, jb);
  return true;
}
template <class P, class W, class B, class M, class Vv>
static bool matrixOf(const P&, const W&, const W&, const B&, const B&, M&, Vv&, const W&, const B&, long) {
  return false;
}
CONTRACT("C21/distinct-bounds", "computeConstraintsMatrix", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  std::string n = std::string("C21/distinct-bounds/") + f.name;
  int o = lowerEnd();
  Run s;
  s.f = &f;
  fillBoundary(s.p, f);
  s.T = engine::posvar("T");
  engine::assume_lt(s.T, 1000);  // the code drops coefficients below 2e-16, which scale with 1/T^3
  point_t m[3];
  static const char* nm[3] = {"mv", "ma", "mj"};
  for (int k = 0; k < 3; ++k) m[k] = v3(nm[k]);
  VectorX mb[3];
  for (int k = 0; k < 3; ++k) mb[k] = m[k];
  std::vector<point_t> pi = computeConstantWaypoints(s.p, s.T);
  MatrixXX A;
  VectorX b;
  if (!matrixOf(s.p, computeAccelerationWaypoints(s.p, s.T, pi), computeVelocityWaypoints(s.p, s.T, pi), mb[1], mb[0], A,
                b, computeJerkWaypoints(s.p, s.T, pi), mb[2], 0))
    return;
  bool ok = A.cols() == 3 * f.vars() && A.rows() == b.size();
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  Rows want;
  Curve cp = controlPoints(s.p, f, s.T);
  for (int k = 1; k <= 3; ++k) bounds(want, deriv(cp, s.T, k), m[k - 1], f.vars());
  floors(want, s, o);
  sameHalfspaces(n, rowsOf(A, b), want, 1e-7);
}
CONTRACT("C21/returned-curve", "solveEndEffector computeC_of_T", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  int wk = engine::choice("weight", 3);
  std::string n = std::string("C21/returned-curve/") + f.name;
  Run s;
  solveEE(n, s, f, weight(wk));
  ensure_true(n + "/success-reported", s.r.success_);
  if (!s.r.success_) return;
  const bezier_t& c = s.r.c_of_t_;
  ensure_eq(n + "/domain", c.min(), 0);
  ensure_eq(n + "/domain", c.max(), s.T);
  int nv = f.vars();
  ensure_true(n + "/optimum", s.r.x.size() == 3 * nv);
  for (long i = 0; i < s.r.x.size(); ++i) ensure_eq(n + "/optimum", s.r.x(i), engine::var("x" + S(i)));
  const double z = 0;
  const point_t a[4] = {s.p.c0_, s.p.dc0_, s.p.ddc0_, s.p.j0_}, b[4] = {s.p.c1_, s.p.dc1_, s.p.ddc1_, s.p.j1_};
  static const char* dn[4] = {"position", "velocity", "acceleration", "jerk"};
  for (int k = 0; k < 4; ++k) {
    eqv(n + "/initial-" + dn[k], k ? c.derivate(z, k) : c(z), a[k]);
    eqv(n + "/final-" + dn[k], k ? c.derivate(s.T, k) : c(s.T), b[k]);
  }
  Curve cp = controlPoints(s.p, f, s.T);
  ensure_true(n + "/degree", c.waypoints().size() == cp.size());
  if (c.waypoints().size() != cp.size()) return;
  for (size_t i = 0; i < cp.size(); ++i) {
    point_t e = cp[i].s;
    for (int k = 0; k < nv; ++k)
      e = e + cp[i].c[k] * point_t(engine::var("x" + S(3 * k)), engine::var("x" + S(3 * k + 1)), engine::var("x" + S(3 * k + 2)));
    eqv(n + "/control-points", c.waypoints()[i], e);
  }
}
// C17: failures and unsupported flags
CONTRACT("C17/end-effector-failed-solve", "solveEndEffector", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  std::string n = std::string("C17/end-effector-failed-solve/") + f.name;
  stub::reset();
  stub::succeed = false;
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T");
  Path path;
  ResultDataCOMTraj r = solveEndEffector<Path>(p, path, T, 0);
  ensure_true(n + "/failure-reported", !r.success_);
  ensure_true(n + "/no-trajectory", r.c_of_t_.waypoints().size() <= 1);
  for (size_t i = 0; i < r.c_of_t_.waypoints().size(); ++i)
    eqv(n + "/no-trajectory", r.c_of_t_.waypoints()[i], point_t(0, 0, 0));
}
CONTRACT("C17/end-effector-unsupported-flags", "solveEndEffector computeVelocityCost computeJerkWaypoints computeConstantWaypoints", "") {
  int flag = engine::choice("flag", 1024);
  for (int k = 7; k < N_FAM; ++k)
    if (FAMILIES[k].flag == flag) return;
  stub::reset();
  ProblemData p;
  fillBoundary(p, FAMILIES[7]);
  p.constraints_.flag_ = (ConstraintFlag)flag;
  double T = engine::posvar("T");
  Path path;
  bool thrown = false;
  try {
    solveEndEffector<Path>(p, path, T, 0);
  } catch (const engine::PathCut&) {
    throw;
  } catch (const std::exception&) {
    thrown = true;
  }
  ensure_true("C17/end-effector-unsupported-flags/refused", thrown);
}
// the discretised smoothness objectives: sums of squares at equally spaced instants
template <class P>
static auto discretised(int k, int N, const P& p, const double& T, MatrixXX& H, VectorX& g, int)
    -> decltype(computeVelCostFunctionDiscretized(N, p, T, H, g), computeAccelerationCostFunctionDiscretized(N, p, T, H, g),
                computeJerkCostFunctionDiscretized(N, p, T, H, g), true) {
  if (k == 1) computeVelCostFunctionDiscretized(N, p, T, H, g);
  if (k == 2) computeAccelerationCostFunctionDiscretized(N, p, T, H, g);
  if (k == 3) computeJerkCostFunctionDiscretized(N, p, T, H, g);
  return true;
}
template <class P>
static bool discretised(int, int, const P&, const double&, MatrixXX&, VectorX&, long) {
  return false;
}
CONTRACT("C20/discretised", "computeVelCostFunctionDiscretized computeAccelerationCostFunctionDiscretized computeJerkCostFunctionDiscretized evaluateVelocityCurveWaypointAtTime evaluateAccelerationCurveWaypointAtTime evaluateJerkCurveWaypointAtTime",
         "2 to 11 instants") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  int k = 1 + engine::choice("derivative", 3);
  static const int Ns[4] = {2, 3, 5, 11};
  int N = Ns[engine::choice("instants", 4)];
  static const char* dn[4] = {"", "velocity", "acceleration", "jerk"};
  std::string n = std::string("C20/discretised/") + dn[k] + "/" + f.name;
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T");
  MatrixXX H;
  VectorX g;
  if (!discretised(k, N, p, T, H, g, 0)) return;
  int nv = f.vars(), dim = 3 * nv;
  bool ok = H.rows() == dim && H.cols() == dim && g.size() == dim;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  Curve d = deriv(controlPoints(p, f, T), T, k);
  std::vector<double> got, want;
  MatrixXX W = MatrixXX::Zero(dim, dim);
  VectorX w = VectorX::Zero(dim);
  for (int i = 0; i < N; ++i) {
    Aff c = eval(d, double(i) / double(N - 1));
    for (int a = 0; a < nv; ++a)
      for (int q = 0; q < 3; ++q) {
        for (int b = 0; b < nv; ++b) W(3 * a + q, 3 * b + q) = W(3 * a + q, 3 * b + q) + c.c[a] * c.c[b];
        w(3 * a + q) = w(3 * a + q) + c.c[a] * c.s(q);
      }
  }
  for (int i = 0; i < dim; ++i) {
    for (int j = 0; j < dim; ++j) {
      got.push_back(H(i, j));
      want.push_back(W(i, j));
    }
    got.push_back(g(i));
    want.push_back(w(i));
  }
  ensure_row(n, got, want, 1e-7);
}
// the curves with one predefined end: position, velocity, acceleration and no
// jerk at that end, position only at the other
template <class P>
static auto predefined(bool start, const P& p, const double& T, std::vector<bezier_t::point_t>& out, int)
    -> decltype(computeConstantWaypointsInitPredef(p, T), computeConstantWaypointsGoalPredef(p, T), true) {
  out = start ? computeConstantWaypointsInitPredef(p, T) : computeConstantWaypointsGoalPredef(p, T);
  return true;
}
template <class P>
static bool predefined(bool, const P&, const double&, std::vector<bezier_t::point_t>&, long) {
  return false;
}
CONTRACT("C18/predefined-end", "computeConstantWaypointsInitPredef computeConstantWaypointsGoalPredef", "") {
  bool start = engine::choice("predefined-end", 2) == 0;
  ProblemData p;
  fillBoundary(p, FAMILIES[7]);
  double T = engine::posvar("T");
  std::vector<bezier_t::point_t> got;
  if (!predefined(start, p, T, got, 0)) return;
  std::string n = std::string("C18/predefined-") + (start ? "start" : "goal");
  ensure_true(n + "/degree", got.size() == 5);
  if (got.size() != 5) return;
  Curve c;
  for (size_t i = 0; i < got.size(); ++i) {
    Aff a;
    a.s = got[i];
    c.push_back(a);
  }
  double u = start ? 0 : 1;
  eqv(n + "/position", eval(c, u).s, start ? p.c0_ : p.c1_);
  eqv(n + "/velocity", eval(deriv(c, T, 1), u).s, start ? p.dc0_ : p.dc1_);
  eqv(n + "/acceleration", eval(deriv(c, T, 2), u).s, start ? p.ddc0_ : p.ddc1_);
  eqv(n + "/jerk", eval(deriv(c, T, 3), u).s, point_t(point_t::Zero()));
  eqv(n + "/other-end", eval(c, 1 - u).s, start ? p.c1_ : p.c0_);
}
