// C12: the quadratic objectives of the centroidal problem, x' H x + 2 g' x.
#include "com_spec.hh"
using namespace spec;
enum Mode { FIXED, STEP, CONT_DD, CONT_FORCE };
static const char* MODE[4] = {"fixed-size", "time-step", "continuous", "continuous-force"};

// instants at which the discretised problem samples the curve
static std::vector<double> grid(const Scenario& s, int mode, int pp, const double& dt) {
  std::vector<double> t;
  if (mode == STEP) {
    for (int i = 0; i < s.phases(); ++i) {
      for (double u = s.S[i]; u < s.S[i + 1]; u = u + dt) t.push_back(u);
      t.push_back(s.S[i + 1]);
    }
  } else {
    t.push_back(0);
    for (int i = 0; i < s.phases(); ++i)
      for (int j = 1; j <= pp; ++j) t.push_back(s.S[i] + s.Ts[i] * double(j) / double(pp));
  }
  return t;
}
static const int OBJ[3] = {DISTANCE_TRAVELED, ACCELERATION, TARGET_END_VELOCITY};
static const char* ON[3] = {"distance", "acceleration", "end-velocity"};
static void objective(Scenario& s, const std::string& prefix, int o, int mode, int points, const double& dt) {
  const Family& f = *s.f;
  int pp = mode == FIXED ? points : 7;
  if (mode == FIXED)
    computeCOMTrajFixedSize(s.p, s.ts(), pp);
  else
    computeCOMTraj(s.p, s.ts(), mode == STEP ? dt : double(-1));
  std::string n = prefix + ON[o] + "/" + MODE[mode] + "/" + f.name;
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  long dim = p.A.cols();
  bool ok = p.H.rows() == dim && p.H.cols() == dim && p.g.size() == dim && dim >= 3;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  double h = 0;
  point_t g = point_t::Zero();
  Curve cp = s.cp();
  if (o == 0) {
    h = 1;
    g = -(s.p.c0_ + s.p.c1_) / 2;
  } else if (o == 1) {
    std::vector<double> t = grid(s, mode, pp, dt);
    Curve dd = deriv(cp, s.T, 2);
    for (size_t i = 0; i < t.size(); ++i) {
      Aff a = eval(dd, t[i] / s.T);
      h = h + a.c[0] * a.c[0];
      g = g + a.c[0] * a.s;
    }
  } else {
    Aff v = eval(deriv(cp, s.T, 1), 1);
    h = v.c[0] * v.c[0];
    g = v.c[0] * (v.s - s.p.dc1_);
  }
  std::vector<double> got, want;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      got.push_back(p.H(i, j));
      want.push_back(i == j ? h : double(0));
    }
    got.push_back(p.g(i));
    want.push_back(g(i));
  }
  ensure_row(n, got, want, 1e-8);
  // positive semidefinite: diagonal with a nonnegative factor; the force
  // weights only carry a regularisation
  for (int i = 0; i < 3; ++i) ensure_le(n + "/positive", 0, p.H(i, i));
  for (long i = 0; i < dim; ++i)
    for (long j = 0; j < dim; ++j)
      if (i >= 3 || j >= 3) {
        if (i == j) {
          ensure_le(n + "/weights-regularised", 0, p.H(i, i));
          ensure_le(n + "/weights-regularised", p.H(i, i), 1e-3);
        } else
          ensure_eq(n + "/weights-separate", p.H(i, j), 0);
      }
  for (long i = 3; i < dim; ++i) ensure_eq(n + "/weights-separate", p.g(i), 0);
}
CONTRACT("C12/objective", "cost::genCostFunction computeCostMidPoint computeCostMinAcceleration computeCostEndVelocity computeFinalVelocityPoint *::computeFinalVelocityPoint genCostFunction",
         "<= 2 contact phases, <= 3 points per phase (7 in the continuous formulation)") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int o = engine::choice("objective", 3);
  if (o == 2 && (f.flag & END_VEL)) return;  // refused: C17
  int mode = engine::choice("mode", 4), phases = 1 + engine::choice("phases", 2);
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  s.p.dc1_ = v3("dc1");  // the target of the end velocity objective
  if (f.tied) s.p.dc1_ = point_t(0, 0, 0);
  durations(s, phases, false);
  for (int i = 0; i < phases; ++i) {
    if (mode >= CONT_DD) engine::assume_lt(0.015625, s.Ts[i]);
    addPhase(s, 1, 0, 1);
  }
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.reduce_h_ = double(0);
  s.p.costFunction_ = (CostFunction)OBJ[o];
  s.p.representation_ = mode == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
  engine::setGenericEquality(true);
  objective(s, "C12/", o, mode, 3, s.T * double(0.1875));
}
CONTRACT("C12/larger", "cost::genCostFunction computeCostMidPoint computeCostMinAcceleration computeCostEndVelocity genCostFunction",
         "fixed numbers; 5 to 8 contact phases, <= 16 cone rows and generators per phase, <= 12 points per phase") {
  int layout = engine::choice("layout", 8), mode = engine::choice("mode", 4), o = engine::choice("objective", 3);
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : (layout * 3 + mode) % N_COM];
  if (o == 2 && (f.flag & END_VEL)) return;
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  s.p.dc1_ = v3("dc1");
  if (f.tied) s.p.dc1_ = point_t(0, 0, 0);
  int phases = 5 + layout % 4;
  durationsMany(s, phases);
  for (int i = 0; i < phases; ++i)
    addPhase(s, H_MANY[(i + layout) % 8], K_MANY[(i + layout) % 8], H_MANY[(i + 3 * layout) % 8]);
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.reduce_h_ = double(0);
  s.p.costFunction_ = (CostFunction)OBJ[o];
  s.p.representation_ = mode == CONT_FORCE ? FORCE : DOUBLE_DESCRIPTION;
  objective(s, "C12/larger/", o, mode, 3 + 3 * (layout % 4), s.T * double(0.01953125));
}
