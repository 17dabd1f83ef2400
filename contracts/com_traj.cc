// C01 / C09 / C17: the centroidal solver from its public entry points.
#include "com_spec.hh"
using namespace spec;

static Scenario scenario(const Family& f, int phases, bool sym) {
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durations(s, phases, sym);
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.reduce_h_ = double(0);
  s.p.costFunction_ = DISTANCE_TRAVELED;
  engine::setGenericEquality(true);
  return s;
}
enum Mode { FIXED, STEP, CONT_DD, CONT_FORCE };
static const char* MODE[4] = {"fixed-size", "time-step", "continuous", "continuous-force"};
static ResultDataCOMTraj run(Scenario& s, int mode, int pp = 1) {
  s.p.representation_ = mode == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
  if (mode == FIXED) return computeCOMTrajFixedSize(s.p, s.ts(), pp);
  if (mode == STEP) return computeCOMTraj(s.p, s.ts(), s.T * double(0.125));
  return computeCOMTraj(s.p, s.ts(), -1);
}
// value of the k-th derivative at normalised time u, with x substituted
static point_t at(const Curve& c, const double& T, int k, const double& u, const point_t& x) {
  Aff a = eval(deriv(c, T, k), u);
  return a.c[0] * x + a.s;
}
static void emptyCurve(const std::string& n, const bezier_t& b) {
  ensure_eq(n, b.min(), 0);
  ensure_true(n, b.waypoints().size() <= 1);
  for (size_t i = 0; i < b.waypoints().size(); ++i) eqv(n, b.waypoints()[i], point_t(0, 0, 0));
}

static void returned(const std::string& n, const Scenario& s, const ResultDataCOMTraj& r) {
  const Family& f = *s.f;
  ensure_true(n + "/success-reported", r.success_);
  if (!r.success_) return;
  bool ok = r.x.size() >= 3;
  ensure_true(n + "/optimum", ok);
  if (!ok) return;
  point_t x(engine::var("x0"), engine::var("x1"), engine::var("x2"));
  for (int i = 0; i < 3; ++i) ensure_eq(n + "/optimum", r.x(i), x(i));
  ensure_eq(n + "/cost", r.cost_, stub::cost);
  ensure_eq(n + "/domain", r.c_of_t_.min(), 0);
  ensure_eq(n + "/domain", r.c_of_t_.max(), s.T);
  Curve cp = s.cp();
  // values at both ends
  double T0 = r.c_of_t_.min(), T1 = r.c_of_t_.max();
  const int fl = f.flag;
  if (fl & INIT_POS) eqv(n + "/initial-position", r.c_of_t_(T0), s.p.c0_);
  if (fl & INIT_VEL) eqv(n + "/initial-velocity", r.c_of_t_.derivate(T0, 1), s.p.dc0_);
  if (fl & INIT_ACC) eqv(n + "/initial-acceleration", r.c_of_t_.derivate(T0, 2), s.p.ddc0_);
  if (fl & INIT_JERK) eqv(n + "/initial-jerk", r.c_of_t_.derivate(T0, 3), s.p.j0_);
  if (fl & END_POS) eqv(n + "/final-position", r.c_of_t_(T1), s.p.c1_);
  if (fl & END_VEL) eqv(n + "/final-velocity", r.c_of_t_.derivate(T1, 1), s.p.dc1_);
  if (fl & END_ACC) eqv(n + "/final-acceleration", r.c_of_t_.derivate(T1, 2), s.p.ddc1_);
  if (fl & END_JERK) eqv(n + "/final-jerk", r.c_of_t_.derivate(T1, 3), s.p.j1_);
  // the whole curve: the free control point(s) carry the optimum
  ensure_true(n + "/degree", r.c_of_t_.waypoints().size() == cp.size());
  for (size_t i = 0; i < cp.size() && i < r.c_of_t_.waypoints().size(); ++i)
    eqv(n + "/control-points", r.c_of_t_.waypoints()[i], point_t(cp[i].c[0] * x + cp[i].s));
  double u = engine::var("u", 0, 1);
  eqv(n + "/curve", r.c_of_t_(u * s.T), at(cp, s.T, 0, u, x));
  // reported terminal derivatives
  eqv(n + "/reported-final-velocity", r.dc1_, at(cp, s.T, 1, 1, x));
  eqv(n + "/reported-final-acceleration", r.ddc1_, at(cp, s.T, 2, 1, x));
  // angular momentum rate
  ensure_eq(n + "/angular-momentum-rate-domain", r.dL_of_t_.min(), 0);
  ensure_eq(n + "/angular-momentum-rate-domain", r.dL_of_t_.max(), s.T);
  eqv(n + "/angular-momentum-rate-zero", r.dL_of_t_(u * s.T), point_t(0, 0, 0));
}
CONTRACT("C01/returned-curve", "computeCOMTraj computeCOMTrajFixedSize genTraj computeBezierCurve computeFinalVelocity computeFinalAcceleration",
         "<= 3 contact phases") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int mode = engine::choice("mode", 4);
  int phases = 1 + engine::choice("phases", 3);
  Scenario s = scenario(f, phases, mode < CONT_DD && engine::choice("split", 2) && mode == FIXED);
  for (int i = 0; i < phases; ++i) {
    if (mode >= CONT_DD) engine::assume_lt(0.015625, s.Ts[i]);
    addPhase(s, 1, 1, 1);
  }
  ResultDataCOMTraj r = run(s, mode);
  std::string n = std::string("C01/") + MODE[mode] + "/" + f.name;
  returned(n, s, r);
}

// ------------------------------------------------------------------- C17
static bool supported(int flag) {
  for (int i = 0; i < N_COM; ++i)
    if (FAMILIES[i].flag == flag) return true;
  return false;
}
// every value of the flag that names no supported set is refused
CONTRACT("C17/unsupported-flags", "computeCOMTraj computeCOMTrajFixedSize evaluateCurveAtTime computeConstantWaypoints computeWwaypoints computeConstantWaypointsSymbolic", "") {
  int hi = engine::choice("flag-high", 32), lo = engine::choice("flag-low", 256);
  int flag = hi * 256 + lo;
  if (supported(flag)) return;
  int mode = engine::choice("mode", 4);
  Scenario s = scenario(FAMILIES[2], 1, false);
  s.p.constraints_.flag_ = (ConstraintFlag)flag;
  addPhase(s, 1, 1, 1);
  std::string n = std::string("C17/unsupported-flag/") + MODE[mode];
  bool thrown = false;
  try {
    run(s, mode);
  } catch (engine::PathCut&) {
    throw;
  } catch (std::runtime_error&) {
    thrown = true;
  }
  ensure_true(n + "/refused", thrown);
  ensure_true(n + "/solver-not-called", stub::problems.empty());
}
CONTRACT("C17/size-mismatch", "computeCOMTraj computeCOMTrajFixedSize", "<= 3 contact phases, <= 4 durations") {
  int mode = engine::choice("mode", 4), phases = engine::choice("phases", 4), n = engine::choice("durations", 5);
  if (n == phases) return;
  Scenario s = scenario(FAMILIES[engine::choice("family", 2) ? 2 : 4], 1, false);
  s.Ts.clear();
  for (int i = 0; i < n; ++i) s.Ts.push_back(s.T);
  for (int i = 0; i < phases; ++i) addPhase(s, 1, 1, 1);
  bool thrown = false;
  try {
    run(s, mode);
  } catch (engine::PathCut&) {
    throw;
  } catch (std::runtime_error&) {
    thrown = true;
  }
  std::string nm = std::string("C17/size-mismatch/") + MODE[mode];
  ensure_true(nm + "/refused", thrown);
  ensure_true(nm + "/solver-not-called", stub::problems.empty());
}
CONTRACT("C17/objectives", "genCostFunction computeCostEndVelocity", "") {
  int mode = engine::choice("mode", 4);
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int which = engine::choice("objective", 5);
  static const int V[5] = {UNKNOWN_COST, 0, 3, 16, TARGET_END_VELOCITY};
  Scenario s = scenario(f, 1, false);
  if (mode >= CONT_DD) engine::assume_lt(0.015625, s.T);
  addPhase(s, 1, 1, 1);
  s.p.costFunction_ = (CostFunction)V[which];
  if (which == 4 && !(f.flag & END_VEL)) return;  // the supported case: C12
  bool thrown = false;
  try {
    run(s, mode);
  } catch (engine::PathCut&) {
    throw;
  } catch (std::runtime_error&) {
    thrown = true;
  }
  std::string nm = std::string("C17/objective/") + MODE[mode] + "/" + f.name + (which == 4 ? "/end-velocity" : "/unknown");
  ensure_true(nm + "/refused", thrown);
  ensure_true(nm + "/solver-not-called", stub::problems.empty());
}
// the stop family (velocity-only end) supports a stop only
CONTRACT("C17/moving-stop", "c0_dc0_dc1::computeConstantWaypoints", "") {
  int mode = engine::choice("mode", 4), axis = engine::choice("axis", 3);
  Scenario s = scenario(FAMILIES[1], 1, false);
  if (mode >= CONT_DD) engine::assume_lt(0.015625, s.T);
  addPhase(s, 1, 1, 1);
  s.p.dc1_ = point_t(0, 0, 0);
  s.p.dc1_(axis) = engine::posvar("v") * double(engine::choice("sign", 2) ? 1 : -1);
  engine::assume_lt(1e-3, engine::posvar("v"));
  bool thrown = false;
  try {
    run(s, mode);
  } catch (engine::PathCut&) {
    throw;
  } catch (std::runtime_error&) {
    thrown = true;
  }
  ensure_true(std::string("C17/moving-stop/") + MODE[mode] + "/refused", thrown);
}
static void failedResult(const std::string& n, const ResultDataCOMTraj& r) {
  ensure_true(n + "/marked-as-failure", !r.success_);
  emptyCurve(n + "/no-trajectory", r.c_of_t_);
  emptyCurve(n + "/no-angular-trajectory", r.dL_of_t_);
  eqv(n + "/no-final-velocity", r.dc1_, point_t(0, 0, 0));
  eqv(n + "/no-final-acceleration", r.ddc1_, point_t(0, 0, 0));
}
CONTRACT("C17/failed-solve", "genTraj computeCOMTraj computeCOMTrajFixedSize", "<= 2 contact phases") {
  int mode = engine::choice("mode", 4), phases = 1 + engine::choice("phases", 2);
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  Scenario s = scenario(f, phases, false);
  for (int i = 0; i < phases; ++i) {
    if (mode >= CONT_DD) engine::assume_lt(0.015625, s.Ts[i]);
    addPhase(s, 1, 1, 1);
  }
  stub::succeed = false;
  ResultDataCOMTraj r = run(s, mode);
  failedResult(std::string("C17/failed-solve/") + MODE[mode] + "/" + f.name, r);
}
CONTRACT("C17/failed-zero-step", "solve0step", "") {
  int ang = engine::choice("angular-momentum", 2);
  Scenario s = scenario(FAMILIES[1], 1, false);
  addPhase(s, 2, 1, 1);
  s.p.useAngularMomentum_ = ang;
  s.p.l0_ = v3("l0");
  stub::succeed = false;
  ResultDataCOMTraj r = solve0step(s.p, s.Ts, -1);
  failedResult("C17/failed-zero-step", r);
}
// the requested back end is the one that is asked
CONTRACT("C17/solver-forwarded", "computeCOMTraj solve", "") {
  int mode = 1 + engine::choice("mode", 3), which = engine::choice("solver", 3);
  static const int K[3] = {solvers::SOLVER_QUADPROG, solvers::SOLVER_GLPK, 77};
  Scenario s = scenario(FAMILIES[2], 1, false);
  if (mode >= CONT_DD) engine::assume_lt(0.015625, s.T);
  addPhase(s, 1, 1, 1);
  s.p.representation_ = mode == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
  if (which == 2) {  // an unknown value reaches the front end, which refuses it (C13)
    computeCOMTraj(s.p, s.ts(), mode == STEP ? s.T * double(0.125) : double(-1), (solvers::SolverType)K[which]);
  } else
    computeCOMTraj(s.p, s.ts(), mode == STEP ? s.T * double(0.125) : double(-1), (solvers::SolverType)K[which]);
  std::string n = std::string("C17/solver-forwarded/") + MODE[mode];
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() == 1) ensure_true(n + "/same-solver", stub::problems[0].solver == K[which]);
}

// ------------------------------------------------------------------- C09
static bool undefinedIn(const double& v) {
#ifdef VERIF_SYMBOLIC
  return v.isUndef() || v.hasUndef();
#else
  return v != v;
#endif
}
static void defined(const std::string& n, const MatrixXX& m) {
  bool ok = true;
  for (long i = 0; i < m.rows(); ++i)
    for (long j = 0; j < m.cols(); ++j) ok = ok && !undefinedIn(m(i, j));
  ensure_true(n, ok, "an entry is not defined by the input data");
}
static void wellFormed(const std::string& n) {
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  long dim = p.A.cols();
  ensure_true(n + "/inequality-sizes", p.A.rows() == p.b.size());
  ensure_true(n + "/equality-sizes", p.D.rows() == p.d.size() && p.D.cols() == dim);
  ensure_true(n + "/objective-sizes", p.H.rows() == dim && p.H.cols() == dim && p.g.size() == dim && p.x0.size() == dim);
  ensure_true(n + "/bound-sizes", (p.minB.size() == 0 || p.minB.size() == dim) && (p.maxB.size() == 0 || p.maxB.size() == dim));
  defined(n + "/inequalities-defined", p.A);
  defined(n + "/inequality-sides-defined", p.b);
  defined(n + "/equalities-defined", p.D);
  defined(n + "/equality-sides-defined", p.d);
  defined(n + "/objective-defined", p.H);
  defined(n + "/objective-vector-defined", p.g);
  defined(n + "/initial-guess-defined", p.x0);
  defined(n + "/lower-bounds-defined", p.minB);
}
CONTRACT("C09/assembly", "computeConstraintsOneStep computeConstraintsContinuous computeNumIneq computeNumIneqContinuous computeNumEqContinuous assignStabilityConstraints assignKinematicConstraints assignAccelerationConstraints genCostFunction",
         "<= 3 contact phases, <= 2 cone rows, <= 2 kinematic rows and <= 3 generators per phase, <= 2 points per phase") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int mode = engine::choice("mode", 4);
  int phases = 1 + engine::choice("phases", 3);
  int rows = engine::choice("rows", 6);  // pattern of row counts
  int acc = engine::choice("acceleration", 2);
  // a phase without kinematic rows: as constructed, or with empty matrices
  bool defaults = rows < 4 && engine::choice("as-constructed", 2);
  static const int NH[6][3] = {{0, 0, 0}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 1, 1}, {2, 2, 2}};
  static const int NK[6][3] = {{0, 0, 0}, {0, 2, 1}, {0, 0, 0}, {2, 0, 0}, {1, 2, 0}, {2, 1, 2}};
  static const int NG[6][3] = {{1, 1, 1}, {2, 1, 3}, {3, 2, 1}, {1, 2, 3}, {1, 3, 1}, {2, 1, 2}};
  Scenario s = scenario(f, phases, false);
  for (int i = 0; i < phases; ++i) {
    if (mode >= CONT_DD) engine::assume_lt(0.015625, s.Ts[i]);
    addPhase(s, NH[rows][i], NK[rows][i], NG[rows][i]);
    if (NK[rows][i] == 0 && defaults) s.p.contacts_[i].Kin_ = ContactData().Kin_;
  }
  s.p.constraints_.constraintAcceleration_ = acc;
  static const int CF[2] = {DISTANCE_TRAVELED, ACCELERATION};
  s.p.costFunction_ = (CostFunction)CF[engine::choice("objective", 2)];
  run(s, mode, 1 + engine::choice("points", mode == FIXED ? 2 : 1));
  std::string n = std::string("C09/") + MODE[mode] + "/" + f.name;
  wellFormed(n);
}
// many phases of uneven sizes, on fixed numbers
static Scenario largeScenario(const Family& f, int layout, int mode) {
  int ph = 5 + layout % 4;
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durationsMany(s, ph);
  for (int i = 0; i < ph; ++i)
    addPhase(s, H_MANY[(i + layout) % 8], layout == 6 ? 0 : K_MANY[(i + 3 * layout) % 8], H_MANY[(i + 2 * layout) % 8]);
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.constraintAcceleration_ = mode < CONT_DD ? layout & 1 : 1;
  s.p.constraints_.reduce_h_ = double(0);
  s.p.costFunction_ = layout & 2 ? ACCELERATION : DISTANCE_TRAVELED;
  return s;
}
CONTRACT("C09/larger", "computeConstraintsOneStep computeConstraintsContinuous computeNumIneq computeNumIneqContinuous computeNumEqContinuous genCostFunction",
         "fixed numbers; 5 to 8 contact phases, <= 16 cone rows, <= 21 kinematic rows and <= 16 generators per phase, <= 12 points per phase") {
  int layout = engine::choice("layout", 8), mode = engine::choice("mode", 4);
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : (layout * 3 + mode) % N_COM];
  Scenario s = largeScenario(f, layout, mode);
  run(s, mode, 3 + 3 * (layout % 4));
  wellFormed(std::string("C09/larger/") + MODE[mode] + "/" + f.name);
}
// the first three variables are the point, also among thousands of others
CONTRACT("C01/larger", "computeCOMTraj computeCOMTrajFixedSize genTraj computeBezierCurve computeFinalVelocity computeFinalAcceleration",
         "fixed numbers; 5 to 8 contact phases, <= 16 generators per phase") {
  int layout = engine::choice("layout", 8), mode = engine::choice("mode", 4);
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : (layout * 3 + mode) % N_COM];
  Scenario s = largeScenario(f, layout, mode);
  ResultDataCOMTraj r = run(s, mode, 3 + 3 * (layout % 4));
  returned(std::string("C01/larger/") + MODE[mode] + "/" + f.name, s, r);
}
