// C07 / C08: rows of the continuous formulation, double description and force.
#include "com_spec.hh"
using namespace spec;

static waypoint_t wpAxpy(const double& a, const waypoint_t& x, const waypoint_t& y) {
  return waypoint_t(MatrixXX(a * x.first + y.first), VectorX(a * x.second + y.second));
}
typedef std::vector<waypoint_t> WCurve;
// control points of the wrench curve on phase ph (the curve itself: contract C03)
static WCurve wrenchOf(const Scenario& s, const WCurve& w, int ph) {
  return restrict_(w, s.S[ph] / s.T, s.S[ph + 1] / s.T, wpAxpy, initwp(6, 3));
}
static Curve curveOf(const Scenario& s, const Curve& c, int ph) {
  return restrict_(c, s.S[ph] / s.T, s.S[ph + 1] / s.T, axpy, Aff((int)c[0].c.size()));
}
static Wrench asWrench(const waypoint_t& w) {
  Wrench r;
  r.Mt = w.first.block(0, 0, 3, 3);
  r.Mb = w.first.block(3, 0, 3, 3);
  for (int i = 0; i < 3; ++i) {
    r.st(i) = w.second(i);
    r.sb(i) = w.second(3 + i);
  }
  return r;
}
static WCurve wrenchCurve(const Scenario& s) {
  bezier_wp_t::t_point_t w = computeWwaypoints(s.p, s.T);
  return WCurve(w.begin(), w.end());
}
static Rows phaseRows(const Scenario& s, bool dyn) {
  Rows r;
  Curve c = s.cp(), dd = deriv(c, s.T, 2);
  WCurve w = dyn ? wrenchCurve(s) : WCurve();
  for (int ph = 0; ph < s.phases(); ++ph) {
    Curve cs = curveOf(s, c, ph), ds = curveOf(s, dd, ph);
    for (size_t i = 0; i < cs.size(); ++i) kinRows(r, s, ph, cs[i]);
    for (size_t i = 0; i < ds.size(); ++i) accRows(r, s, ds[i]);
    if (dyn) {
      WCurve ws = wrenchOf(s, w, ph);
      for (size_t i = 0; i < ws.size(); ++i) dynRows(r, s, ph, asWrench(ws[i]));
    }
  }
  return r;
}
static Scenario scenario(const Family& f, int phases, bool sym) {
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durations(s, phases, sym);
  // phases longer than the time margin of the curve library
  for (int i = 0; i < phases; ++i) engine::assume_lt(0.015625, s.Ts[i]);
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.costFunction_ = DISTANCE_TRAVELED;
  engine::setGenericEquality(true);
  return s;
}
#define STRUCT "<= 3 contact phases (thorough: 4), <= 4 cone rows and <= 3 kinematic rows per phase (5 patterns of sizes), <= 3 generators per phase (16 patterns)"

// many phases, on fixed numbers; longest phases first and last in turn
static Scenario largeScenario(const Family& f, int phases) {
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durationsMany(s, phases);
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.constraintAcceleration_ = true;
  s.p.costFunction_ = DISTANCE_TRAVELED;
  return s;
}
static void continuousRows(Scenario& s, const std::string& n) {
  s.p.representation_ = DOUBLE_DESCRIPTION;
  computeCOMTraj(s.p, s.ts(), -1);
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  bool ok = p.A.cols() == 3 && p.A.rows() == p.b.size() && p.D.rows() == 0 && p.d.size() == 0;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  ensure_true(n + "/no-variable-bounds", p.minB.size() == 0 && p.maxB.size() == 0);
  sameHalfspaces(n, rowsOf(p.A, p.b), phaseRows(s, true), 1e-8);
}
#define LARGER "fixed numbers; 5 to 8 contact phases, <= 16 cone rows, <= 21 kinematic rows and <= 9 generators per phase"
CONTRACT("C07/larger", "computeCOMTraj computeConstraintsContinuous computeNumIneqContinuous updateH", LARGER) {
  int layout = engine::choice("layout", 8), ph = 5 + layout % 4;
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : layout * 3 % N_COM];
  Scenario s = largeScenario(f, ph);
  for (int i = 0; i < ph; ++i) addPhase(s, H_MANY[(i + layout) % 8], layout == 5 ? 0 : K_MANY[(i + 3 * layout) % 8]);
  s.p.constraints_.reduce_h_ = layout & 1 ? engine::posvar("margin") : double(0);
  continuousRows(s, std::string("C07/larger/") + f.name);
}
CONTRACT("C07/continuous-rows", "computeCOMTraj computeConstraintsContinuous computeNumIneqContinuous updateH", STRUCT) {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int phases = 1 + engine::choice("phases", f.degree() > 5 && !contract::thorough() ? 2 : contract::thorough() ? 4 : 3);
  int pat = engine::choice("sizes", phases == 1 ? 2 : 5);
  int which = engine::choice("rows", phases == 2 ? 2 : 1);  // every kind / no kinematic rows
  bool sym = phases == 2 && f.degree() <= 5 && engine::choice("split", 2);
  Scenario s = scenario(f, phases, sym);
  for (int i = 0; i < phases; ++i) addPhase(s, H_ROWS[pat][i], which ? 0 : K_ROWS[pat][i]);
  s.p.constraints_.constraintAcceleration_ = true;
  s.p.constraints_.reduce_h_ = engine::choice("margin", 2) ? engine::posvar("margin") : double(0);
  continuousRows(s, std::string("C07/") + f.name);
}

// D z = d with z = (x, weights): rows of one wrench control point
static void forceProblem(Scenario& s, const std::string& n, const int* nG) {
  const int phases = s.phases();
  s.p.representation_ = FORCE;
  computeCOMTraj(s.p, s.ts(), -1);
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  // specified blocks: (phase, control point); a control point shared by two
  // phases is stated once, for the phase with fewer generators (the later one
  // when they are equal)
  struct Block {
    int ph;
    waypoint_t w;
  };
  std::vector<Block> want;
  WCurve w = wrenchCurve(s);
  long dim = 3;
  for (int ph = 0; ph < phases; ++ph) {
    WCurve ws = wrenchOf(s, w, ph);
    size_t lo = ph > 0 && nG[ph - 1] < nG[ph] ? 1 : 0;
    size_t hi = ws.size() - (ph + 1 < phases && nG[ph + 1] <= nG[ph] ? 1 : 0);
    for (size_t i = lo; i < hi; ++i) {
      Block b = {ph, ws[i]};
      want.push_back(b);
      dim += nG[ph];
    }
  }
  bool ok = p.D.cols() == dim && p.A.cols() == dim && p.D.rows() == p.d.size() && p.A.rows() == p.b.size() &&
            p.D.rows() == 6 * (long)want.size();
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  // weights >= 0, x free
  ensure_true(n + "/bounds-shape", p.minB.size() == dim && (p.maxB.size() == 0 || p.maxB.size() == dim));
  if (p.minB.size() != dim) return;
  for (long j = 0; j < dim; ++j)
    if (j < 3)
      ensure_eq(n + "/free-point-unbounded", p.minB(j), double(solvers::UNBOUNDED_DOWN));
    else
      ensure_eq(n + "/weights-nonnegative", p.minB(j), 0);
  for (long j = 0; j < p.maxB.size(); ++j) ensure_eq(n + "/no-upper-bound", p.maxB(j), double(solvers::UNBOUNDED_UP));
  // equalities, block by block
  long col = 3;
  for (size_t k = 0; k < want.size(); ++k) {
    const ContactData& cd = s.p.contacts_[want[k].ph];
    const double m = cd.contactPhase_->m_mass;
    const int g = nG[want[k].ph];
    Rows gr, wr;
    for (int r = 0; r < 6; ++r) {
      for (int c = 0; c < 3; ++c) {
        ensure_eq(n + "/wrench-of-free-point", p.D(6 * k + r, c), m * want[k].w.first(r, c), 1e-8);
      }
      double e = (r < 3 ? stub::gravity(r) : double(0)) - want[k].w.second(r);
      ensure_eq(n + "/wrench-constant", p.d(6 * k + r), m * e, 1e-8);
      for (long c = 3; c < dim; ++c) {
        if (c >= col && c < col + g)
          ensure_eq(n + "/generators", p.D(6 * k + r, c), cd.contactPhase_->m_G_centr(r, c - col));
        else
          ensure_eq(n + "/own-weights-only", p.D(6 * k + r, c), 0);
      }
    }
    col += g;
  }
  // inequalities: kinematics and acceleration only, on x only
  Rows got;
  for (long i = 0; i < p.A.rows(); ++i) {
    Row r;
    for (long j = 0; j < 3; ++j) r.push_back(p.A(i, j));
    r.push_back(p.b(i));
    for (long j = 3; j < dim; ++j) ensure_eq(n + "/inequalities-on-point-only", p.A(i, j), 0);
    got.push_back(r);
  }
  sameHalfspaces(n + "/inequalities", got, phaseRows(s, false), 1e-8);
}
CONTRACT("C08/force-equalities", "computeCOMTraj computeConstraintsContinuous computeNumEqContinuous assignStabilityConstraintsForTimeStepForce", STRUCT) {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int phases = 1 + engine::choice("phases", f.degree() > 5 && !contract::thorough() ? 2 : contract::thorough() ? 4 : 3);
  int pat = engine::choice("generators", phases == 1 ? 2 : phases == 2 ? 3 : phases == 3 ? 7 : 4);
  static const int G1[2][4] = {{1}, {3}}, G2[3][4] = {{2, 2}, {1, 3}, {3, 1}},
                   G3[7][4] = {{1, 2, 3}, {3, 2, 1}, {1, 2, 1}, {2, 1, 2}, {2, 2, 2}, {1, 1, 3}, {3, 1, 1}},
                   G4[4][4] = {{1, 2, 2, 3}, {2, 1, 3, 1}, {2, 2, 2, 2}, {3, 2, 1, 2}};
  const int* nG = phases == 1 ? G1[pat] : phases == 2 ? G2[pat] : phases == 3 ? G3[pat] : G4[pat];
  bool sym = phases == 2 && f.degree() <= 5 && engine::choice("split", 2);
  Scenario s = scenario(f, phases, sym);
  for (int i = 0; i < phases; ++i) addPhase(s, 1, K_ROWS[pat % 5][i], nG[i]);
  s.p.constraints_.constraintAcceleration_ = true;
  forceProblem(s, std::string("C08/") + f.name, nG);
}
CONTRACT("C08/larger", "computeCOMTraj computeConstraintsContinuous computeNumEqContinuous assignStabilityConstraintsForTimeStepForce", LARGER) {
  int layout = engine::choice("layout", 8), ph = 5 + layout % 4;
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : layout * 3 % N_COM];
  // equal neighbours included
  static const int G[8] = {4, 9, 4, 4, 7, 1, 9, 2};
  Scenario s = largeScenario(f, ph);
  int nG[8];
  for (int i = 0; i < ph; ++i) addPhase(s, 1, K_MANY[(i + layout) % 8], nG[i] = G[(i + layout) % 8]);
  forceProblem(s, std::string("C08/larger/") + f.name, nG);
}
