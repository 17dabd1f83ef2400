// C10 / C11: the zero-step (stop within the contact phase) solver.
#include "com_spec.hh"
using namespace spec;

// an affine expression of the 3 (or 6) unknowns with values in R^6
struct Aff6 {
  MatrixXX M;
  VectorX s;
};
static Aff6 zero6(int dim) {
  Aff6 a;
  a.M = MatrixXX::Zero(6, dim);
  a.s = VectorX::Zero(6);
  return a;
}
static void add(Aff6& r, const double& k, const Aff6& a) {
  r.M = r.M + k * a.M;
  r.s = r.s + k * a.s;
}
struct Zero {
  ProblemData p;
  std::vector<double> Ts;
  double T;
  bool ang;
  int dim, nH, nK, nA;
};
static Zero scenario(bool ang, int nH, int nK, int nA) {
  Zero z;
  stub::reset();
  stub::gravity = v3("g");
  z.T = engine::posvar("T");
  z.Ts.push_back(z.T);
  z.ang = ang;
  z.dim = ang ? 6 : 3;
  z.nH = nH;
  z.nK = nK;
  z.nA = nA;
  fillBoundary(z.p, FAMILIES[1]);
  z.p.l0_ = v3("l0");
  z.p.useAngularMomentum_ = ang;
  ContactData cd(stub::phase("ph0", nH));
  cd.Kin_ = MatrixX3::Zero(nK, 3);
  cd.kin_ = VectorX::Zero(nK);
  cd.Ang_ = MatrixX3::Zero(nA, 3);
  cd.ang_ = VectorX::Zero(nA);
  for (int i = 0; i < nK; ++i) {
    for (int j = 0; j < 3; ++j) cd.Kin_(i, j) = engine::var("K" + S(i) + S(j));
    cd.kin_(i) = engine::var("k" + S(i));
  }
  for (int i = 0; i < nA; ++i) {
    for (int j = 0; j < 3; ++j) cd.Ang_(i, j) = engine::var("A" + S(i) + S(j));
    cd.ang_(i) = engine::var("a" + S(i));
  }
  z.p.contacts_.push_back(cd);
  stub::pin(z.p);
  engine::setGenericEquality(true);
  return z;
}
// the stop: degree 3, free end point, zero final velocity
static Curve stopCurve(const Zero& z) {
  Curve c(4, Aff(1));
  c[0].s = z.p.c0_;
  c[1].s = z.p.c0_ + (z.T / 3) * z.p.dc0_;
  c[2].c[0] = c[3].c[0] = 1;
  return c;
}
// momentum rate [m ddc ; m c x (ddc - g) + dL] - [m g ; 0]: control points of the degree 4 curve
static std::vector<Aff6> momentumRate(const Zero& z) {
  Curve c = stopCurve(z), dd = deriv(c, z.T, 2);
  const double m = z.p.contacts_[0].contactPhase_->m_mass;
  std::vector<Aff6> w;
  for (int k = 0; k <= 4; ++k) {
    Aff6 r = zero6(z.dim);
    // linear part: dd (degree 1) elevated to degree 4
    for (int j = 0; j <= 1; ++j) {
      int i = k - j;
      if (i < 0 || i > 3) continue;
      double b = binom(3, i) * binom(1, j) / binom(4, k);
      Wrench e = wrench(c[i], dd[j], stub::gravity);  // bilinear, x cross x = 0
      Matrix3 Mt = e.Mt;
      point_t st = e.st - stub::gravity;
      r.M.block(0, 0, 3, 3) = MatrixXX(r.M.block(0, 0, 3, 3)) + b * m * Mt;
      r.M.block(3, 0, 3, 3) = MatrixXX(r.M.block(3, 0, 3, 3)) + b * m * e.Mb;
      for (int q = 0; q < 3; ++q) {
        r.s(q) = r.s(q) + b * m * st(q);
        r.s(3 + q) = r.s(3 + q) + b * m * e.sb(q);
      }
    }
    if (z.ang) {  // dL: 3 (xL - l0) / T, -3 xL / T, 0 elevated to degree 4
      for (int i = 0; i <= 2; ++i) {
        int j = k - i;
        if (j < 0 || j > 2) continue;
        double b = binom(2, i) * binom(2, j) / binom(4, k) * double(3) / z.T;
        for (int q = 0; q < 3; ++q) {
          if (i == 0) {
            r.M(3 + q, 3 + q) = r.M(3 + q, 3 + q) + b;
            r.s(3 + q) = r.s(3 + q) - b * z.p.l0_(q);
          } else if (i == 1)
            r.M(3 + q, 3 + q) = r.M(3 + q, 3 + q) - b;
        }
      }
    }
    w.push_back(r);
  }
  return w;
}
static Rows specRows(const Zero& z, int steps) {
  std::vector<Aff6> w = momentumRate(z), at;
  if (steps <= 0)
    at = w;
  else
    for (int i = 0; i <= steps; ++i) {
      Aff6 a = zero6(z.dim);
      for (int k = 0; k <= 4; ++k) add(a, bern(4, k, double(i) / double(steps)), w[k]);
      at.push_back(a);
    }
  Rows rs;
  const stub::Cone& c = stub::cones["ph0"];
  for (size_t i = 0; i < at.size(); ++i)
    for (int r = 0; r < z.nH; ++r) {
      Row row;  // -H w <= 0
      for (int j = 0; j < z.dim; ++j) {
        double s = 0;
        for (int q = 0; q < 6; ++q) s = s - c.H(r, q) * at[i].M(q, j);
        row.push_back(s);
      }
      double s = 0;
      for (int q = 0; q < 6; ++q) s = s + c.H(r, q) * at[i].s(q);
      row.push_back(s);
      rs.push_back(row);
    }
  const ContactData& cd = z.p.contacts_[0];
  for (int i = 0; i < z.nK; ++i) {
    Row row(z.dim, double(0));
    for (int j = 0; j < 3; ++j) row[j] = cd.Kin_(i, j);
    row.push_back(cd.kin_(i));
    rs.push_back(row);
  }
  if (z.ang)
    for (int i = 0; i < z.nA; ++i) {
      Row row(z.dim, double(0));
      for (int j = 0; j < 3; ++j) row[3 + j] = cd.Ang_(i, j);
      row.push_back(cd.ang_(i));
      rs.push_back(row);
    }
  return rs;
}
static void rows(Zero& z, const std::string& prefix, const double& dt, int steps) {
  std::string n = prefix + (z.ang ? "angular" : "linear") + (steps ? "/sampled" : "/control-points");
  solve0step(z.p, z.Ts, dt);
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  bool ok = p.A.cols() == z.dim && p.A.rows() == p.b.size() && p.D.rows() == 0 && p.d.size() == 0;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  ensure_true(n + "/no-variable-bounds", p.minB.size() == 0 && p.maxB.size() == 0);
  sameHalfspaces(n, rowsOf(p.A, p.b), specRows(z, steps), 1e-9);
}
CONTRACT("C10/zero-step-rows", "solve0step compute6dControlPointInequalities ComputeAllWaypoints ComputeAllWaypointsAngularMomentum ComputeDiscretizedWaypoints addKinematic addAngularMomentum initMatrixA w0 w1 w2 w3 w4 u0 u1 u2 u3 u4 computeNumSteps",
         "<= 2 cone rows, <= 2 kinematic rows, <= 2 angular rows, <= 4 time steps") {
  bool ang = engine::choice("angular-momentum", 2);
  int pat = engine::choice("rows", 5);
  static const int R[5][3] = {{1, 0, 0}, {2, 2, 1}, {1, 1, 2}, {2, 0, 2}, {1, 2, 0}};
  Zero z = scenario(ang, R[pat][0], R[pat][1], R[pat][2]);
  int grid = engine::choice("grid", 3);
  double dt = -1;
  if (grid == 1) {
    dt = engine::posvar("dt");
    engine::assume_lt(z.T, 5 * dt);
  } else if (grid == 2)
    dt = z.T * double(0.25);
  int steps = 0;
  if (grid)
    while (!(z.T < double(steps + 1) * dt)) ++steps;
  rows(z, "C10/", dt, steps);
}
CONTRACT("C10/larger", "solve0step compute6dControlPointInequalities ComputeAllWaypoints ComputeAllWaypointsAngularMomentum ComputeDiscretizedWaypoints addKinematic addAngularMomentum",
         "fixed numbers; <= 33 cone rows, <= 21 kinematic rows, <= 12 angular rows, <= 40 time steps") {
  bool ang = engine::choice("angular-momentum", 2);
  int pat = engine::choice("rows", 4), k = engine::choice("grid", 4);
  engine::setConcrete(true);
  static const int R[4][3] = {{16, 21, 12}, {33, 0, 5}, {1, 13, 0}, {7, 5, 12}}, N[4] = {0, 9, 20, 40};
  Zero z = scenario(ang, R[pat][0], R[pat][1], R[pat][2]);
  rows(z, "C10/larger/", N[k] ? z.T / (double(N[k]) + double(0.25)) : double(-1), N[k]);
}
CONTRACT("C11/objective", "solve0step computeCostFunction", "") {
  bool ang = engine::choice("angular-momentum", 2);
  Zero z = scenario(ang, 1, 0, 0);
  solve0step(z.p, z.Ts, -1);
  std::string n = std::string("C11/objective/") + (ang ? "angular" : "linear");
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  bool ok = p.H.rows() == z.dim && p.H.cols() == z.dim && p.g.size() == z.dim;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  for (int b = 0; b < z.dim / 3; ++b) {
    std::vector<double> got, want;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        got.push_back(p.H(3 * b + i, 3 * b + j));
        want.push_back(i != j ? double(0) : b == 0 ? double(1) : double(6));
        if (z.dim == 6) ensure_eq(n + "/separate", p.H(3 * b + i, 3 * (1 - b) + j), 0);
      }
      got.push_back(p.g(3 * b + i));
      // |x - c0|^2 ; integral of |dL|^2
      want.push_back(b == 0 ? -z.p.c0_(i) : -double(4.5) * z.p.l0_(i));
    }
    ensure_row(n + (b ? "/angular-momentum-rate" : "/distance"), got, want);
  }
}
CONTRACT("C11/result", "solve0step computeC_of_T computedL_of_T computeRealCost", "") {
  bool ang = engine::choice("angular-momentum", 2);
  Zero z = scenario(ang, 1, 0, 0);
  ResultDataCOMTraj r = solve0step(z.p, z.Ts, engine::choice("grid", 2) ? z.T * double(0.25) : double(-1));
  std::string n = std::string("C11/") + (ang ? "angular" : "linear");
  ensure_true(n + "/success-reported", r.success_);
  bool ok = r.x.size() == z.dim;
  ensure_true(n + "/optimum", ok);
  if (!ok || !r.success_) return;
  for (int i = 0; i < z.dim; ++i) ensure_eq(n + "/optimum", r.x(i), engine::var("x" + S(i)));
  point_t x(r.x(0), r.x(1), r.x(2));
  ensure_eq(n + "/domain", r.c_of_t_.min(), 0);
  ensure_eq(n + "/domain", r.c_of_t_.max(), z.T);
  eqv(n + "/initial-position", r.c_of_t_(r.c_of_t_.min()), z.p.c0_);
  eqv(n + "/initial-velocity", r.c_of_t_.derivate(r.c_of_t_.min(), 1), z.p.dc0_);
  eqv(n + "/final-position", r.c_of_t_(r.c_of_t_.max()), x);
  eqv(n + "/stops", r.c_of_t_.derivate(r.c_of_t_.max(), 1), point_t(0, 0, 0));
  double u = engine::var("u", 0, 1);
  Aff e = eval(stopCurve(z), u);
  eqv(n + "/curve", r.c_of_t_(u * z.T), e.c[0] * x + e.s);
  ensure_eq(n + "/angular-domain", r.dL_of_t_.min(), 0);
  ensure_eq(n + "/angular-domain", r.dL_of_t_.max(), z.T);
  point_t dL = point_t::Zero();
  double cost;
  if (ang) {
    point_t xL(r.x(3), r.x(4), r.x(5));
    dL = (3 / z.T) * (bern(2, 0, u) * (xL - z.p.l0_) - bern(2, 1, u) * xL);
    cost = (9 * z.p.l0_.dot(z.p.l0_) - 9 * z.p.l0_.dot(xL) + 6 * xL.dot(xL)) / 5;
    ensure_eq(n + "/cost", r.cost_, cost);
  } else {
    point_t d = x - z.p.c0_;
    ensure_le(n + "/cost", 0, r.cost_);
    ensure_eq(n + "/cost", r.cost_ * r.cost_, d.dot(d));
  }
  eqv(n + "/angular-momentum-rate", r.dL_of_t_(u * z.T), dL);
}
