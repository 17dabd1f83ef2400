// C02 / C03 / C16 : the closed-form tables of every curve family.
#include "spec.hh"
using namespace spec;

// C02: position / acceleration of the curve as an affine function of x
CONTRACT("C02/position-affine-form", "evaluateCurveAtTime *::evaluateCurveAtTime", "") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  ProblemData p;
  p.constraints_.flag_ = (ConstraintFlag)f.flag;
  std::vector<point_t> pi;
  Curve cp(f.degree() + 1, Aff(f.vars()));
  for (int i = 0; i <= f.degree(); ++i) {
    pi.push_back(v3("p" + S(i)));
    if (i >= f.nInit && i < f.nInit + f.nFree) {
      cp[i].c[f.tied ? 0 : i - f.nInit] = 1;
      pi[i] = point_t::Zero();
    } else
      cp[i].s = pi[i];
  }
  double t = engine::var("t", 0, 1);
  coefs_t w = evaluateCurveAtTime(p, pi, t);
  Aff e = eval(cp, t);
  std::string n = std::string("C02/position/") + f.name;
  ensure_eq(n, w.first, e.c[0]);
  eqv(n, w.second, e.s);
}
CONTRACT("C02/acceleration-affine-form",
         "evaluateAccelerationCurveAtTime *::evaluateAccelerationCurveAtTime", "") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  ProblemData p;
  p.constraints_.flag_ = (ConstraintFlag)f.flag;
  std::vector<point_t> pi;
  Curve cp(f.degree() + 1, Aff(f.vars()));
  for (int i = 0; i <= f.degree(); ++i) {
    pi.push_back(v3("p" + S(i)));
    if (i >= f.nInit && i < f.nInit + f.nFree) {
      cp[i].c[f.tied ? 0 : i - f.nInit] = 1;
      pi[i] = point_t::Zero();
    } else
      cp[i].s = pi[i];
  }
  double t = engine::var("t", 0, 1), T = engine::posvar("T");
  coefs_t w = evaluateAccelerationCurveAtTime(p, pi, T, t);
  Aff e = eval(deriv(cp, T, 2), t);
  std::string n = std::string("C02/acceleration/") + f.name;
  ensure_eq(n, w.first, e.c[0]);
  eqv(n, w.second, e.s);
}

// C03: w(t) = [ddc ; c x (ddc - g)], g = the gravity of the first phase, at
// every t: the control points of w define that polynomial for every x
#include "com_spec.hh"
CONTRACT("C03/wrench-curve", "computeWwaypoints *::computeWwaypoints *::computeConstantWaypoints", "") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  stub::reset();
  Scenario s;
  s.f = &f;
  s.T = engine::posvar("T");
  stub::gravity = v3("g");
  fillBoundary(s.p, f);
  addPhase(s, 0, 0);
  engine::setGenericEquality(true);
  bezier_wp_t::t_point_t w = computeWwaypoints(s.p, s.T);
  std::string n = std::string("C03/wrench/") + f.name;
  ensure_true(n + "/shape", !w.empty());
  double t = engine::var("t", 0, 1);
  Curve cp = s.cp();
  Wrench e = wrench(eval(cp, t), eval(deriv(cp, s.T, 2), t), stub::gravity);
  MatrixXX M = MatrixXX::Zero(6, 3);
  VectorX v = VectorX::Zero(6);
  for (size_t i = 0; i < w.size(); ++i) {
    bool ok = w[i].first.rows() == 6 && w[i].first.cols() == 3 && w[i].second.size() == 6;
    ensure_true(n + "/shape", ok);
    if (!ok) return;
    double b = bern((int)w.size() - 1, (int)i, t);
    M = M + b * w[i].first;
    v = v + b * w[i].second;
  }
  for (int r = 0; r < 3; ++r) {
    for (int c = 0; c < 3; ++c) {
      ensure_eq(n + "/linear", M(r, c), e.Mt(r, c), 1e-8);
      ensure_eq(n + "/angular", M(3 + r, c), e.Mb(r, c), 1e-8);
    }
    ensure_eq(n + "/linear", v(r), e.st(r), 1e-8);
    ensure_eq(n + "/angular", v(3 + r), e.sb(r), 1e-8);
  }
}

// C18 ------------------------------------------------ end-effector families
static void pis(const Family& f, std::vector<point_t>& pi, Curve& cp) {
  cp.assign(f.degree() + 1, Aff(f.vars()));
  for (int i = 0; i <= f.degree(); ++i) {
    pi.push_back(v3("p" + S(i)));
    if (i >= f.nInit && i < f.nInit + f.nFree) {
      cp[i].c[f.tied ? 0 : i - f.nInit] = 1;
      pi[i] = point_t::Zero();
    } else
      cp[i].s = pi[i];
  }
}
static const char* DN[4] = {"position", "velocity", "acceleration", "jerk"};
CONTRACT("C18/curve-waypoint-forms",
         "evaluateCurveWaypointAtTime evaluateVelocityCurveWaypointAtTime "
         "evaluateAccelerationCurveWaypointAtTime evaluateJerkCurveWaypointAtTime",
         "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  int d = engine::choice("derivative", 4);
  ProblemData p;
  p.constraints_.flag_ = (ConstraintFlag)f.flag;
  std::vector<point_t> pi;
  Curve cp;
  pis(f, pi, cp);
  double t = engine::var("t", 0, 1), T = engine::posvar("T");
  waypoint_t w = d == 0   ? evaluateCurveWaypointAtTime(p, pi, t)
                 : d == 1 ? evaluateVelocityCurveWaypointAtTime(p, T, pi, t)
                 : d == 2 ? evaluateAccelerationCurveWaypointAtTime(p, T, pi, t)
                          : evaluateJerkCurveWaypointAtTime(p, T, pi, t);
  eqw(std::string("C18/") + DN[d] + "/" + f.name, w, eval(deriv(cp, T, d), t), 1e-8);
}
CONTRACT("C18/control-points", "computeConstantWaypoints *::computeConstantWaypoints", "") {
  const Family& f = FAMILIES[engine::choice("family", N_FAM)];
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T");
  std::vector<point_t> got = computeConstantWaypoints(p, T);
  Curve want = controlPoints(p, f, T);
  std::string n = std::string("C18/control-points/") + f.name;
  ensure_true(n + "/count", got.size() == want.size());
  if (got.size() != want.size()) return;
  for (size_t i = 0; i < got.size(); ++i) {
    bool fr = false;
    for (size_t k = 0; k < want[i].c.size(); ++k) fr = fr || (int)i - f.nInit == (f.tied ? (int)i - f.nInit : (int)k);
    if ((int)i >= f.nInit && (int)i < f.nInit + f.nFree) continue;  // slot of a free variable
    eqv(n, got[i], want[i].s);
  }
}
CONTRACT("C18/symbolic-control-points", "computeConstantWaypointsSymbolic", "") {
  const Family& f = FAMILIES[engine::choice("family", N_FAM)];
  ProblemData p;
  fillBoundary(p, f);
  if (engine::choice("start", 2)) p.c0_ = point_t(0, 0, 0);  // at the origin of the frame
  double T = engine::posvar("T");
  bezier_wp_t::t_point_t got = computeConstantWaypointsSymbolic(p, T);
  Curve want = controlPoints(p, f, T);
  std::string n = std::string("C18/symbolic-control-points/") + f.name;
  ensure_true(n + "/count", got.size() == want.size());
  if (got.size() != want.size()) return;
  for (size_t i = 0; i < got.size(); ++i) eqw(n, got[i], want[i]);
}
// C19: control points of the derivative curves
CONTRACT("C19/derivative-control-points",
         "computeVelocityWaypoints computeAccelerationWaypoints computeJerkWaypoints", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  int d = 1 + engine::choice("derivative", 3);
  int given = engine::choice("points-given", 2);
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T");
  std::vector<point_t> pi;
  Curve cp;
  if (given)
    pis(f, pi, cp);
  else
    cp = controlPoints(p, f, T);
  std::vector<waypoint_t> w = d == 1   ? computeVelocityWaypoints(p, T, pi)
                              : d == 2 ? computeAccelerationWaypoints(p, T, pi)
                                       : computeJerkWaypoints(p, T, pi);
  Curve e = deriv(cp, T, d);
  std::string n = std::string("C19/") + DN[d] + "/" + f.name;
  ensure_true(n + "/count", w.size() == e.size());
  for (size_t i = 0; i < w.size() && i < e.size(); ++i) eqw(n, w[i], e[i], 1e-8);
}
// C20: the smoothness objective is the integral of |dc|^2, up to a positive
// factor and a constant:  x'Hx + 2 g'x
CONTRACT("C20/velocity-cost", "computeVelocityCost *::computeVelocityCost", "") {
  const Family& f = FAMILIES[7 + engine::choice("family", 3)];
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T");
  std::vector<point_t> pi;
  Curve cp;
  if (engine::choice("points-given", 2))
    pis(f, pi, cp);
  else
    cp = controlPoints(p, f, T);
  std::pair<MatrixXX, VectorX> Hg = computeVelocityCost(p, T, pi);
  Curve d = deriv(cp, T, 1);
  int nv = f.vars(), m = (int)d.size() - 1;
  std::string n = std::string("C20/velocity-cost/") + f.name;
  bool ok = Hg.first.rows() == 3 * nv && Hg.first.cols() == 3 * nv && Hg.second.size() == 3 * nv;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  std::vector<double> got, want;
  for (int a = 0; a < nv; ++a)
    for (int b = 0; b < nv; ++b) {
      double h = 0;
      for (int i = 0; i <= m; ++i)
        for (int j = 0; j <= m; ++j)
          h = h + d[i].c[a] * d[j].c[b] * (binom(m, i) * binom(m, j) / binom(2 * m, i + j) / double(2 * m + 1));
      for (int r = 0; r < 3; ++r)
        for (int q = 0; q < 3; ++q) {
          got.push_back(Hg.first(3 * a + r, 3 * b + q));
          want.push_back(r == q ? h * T : double(0));
        }
    }
  for (int a = 0; a < nv; ++a) {
    point_t g = point_t::Zero();
    for (int i = 0; i <= m; ++i)
      for (int j = 0; j <= m; ++j)
        g = g + (d[i].c[a] * (binom(m, i) * binom(m, j) / binom(2 * m, i + j) / double(2 * m + 1))) * d[j].s;
    for (int r = 0; r < 3; ++r) {
      got.push_back(Hg.second(3 * a + r));
      want.push_back(g(r) * T);
    }
  }
  // the tables carry numerically computed constants with 6 significant digits
  ensure_row(n, got, want, 5e-6);
}
