// C04 / C05 / C06 / C09: rows of the discretised formulation.
#include "com_spec.hh"
using namespace spec;

struct Instant {
  double t;
  std::vector<int> phases;
};
// pp points per phase, plus t = 0; both phases at a switch
static std::vector<Instant> fixedInstants(const Scenario& s, int pp) {
  std::vector<Instant> r;
  Instant i0;
  i0.t = 0;
  i0.phases.push_back(0);
  r.push_back(i0);
  for (int i = 0; i < s.phases(); ++i)
    for (int j = 1; j <= pp; ++j) {
      Instant n;
      n.t = s.S[i] + s.Ts[i] * double(j) / double(pp);
      n.phases.push_back(i);
      if (j == pp && i + 1 < s.phases()) n.phases.push_back(i + 1);
      r.push_back(n);
    }
  return r;
}
// time-step grid: every phase sampled from its start, plus its end
static std::vector<Instant> stepInstants(const Scenario& s, const double& dt) {
  std::vector<Instant> r;
  for (int i = 0; i < s.phases(); ++i) {
    Instant n;
    for (double t = s.S[i]; t < s.S[i + 1]; t = t + dt) {
      n.phases.assign(1, i);
      n.t = t;
      r.push_back(n);
    }
    n.t = s.S[i + 1];
    n.phases.assign(1, i);
    if (i + 1 < s.phases()) n.phases.push_back(i + 1);
    r.push_back(n);
  }
  return r;
}
static const int DYN = 1, KIN = 2, ACC = 4;

static Rows specRows(const Scenario& s, const std::vector<Instant>& is, int which) {
  Rows r;
  Curve cp = s.cp(), dd = deriv(cp, s.T, 2);
  for (size_t k = 0; k < is.size(); ++k) {
    double u = is[k].t / s.T;
    Aff c = eval(cp, u), a = eval(dd, u);
    for (size_t q = 0; q < is[k].phases.size(); ++q) {
      if (which & DYN) dynRows(r, s, is[k].phases[q], wrench(c, a, stub::gravity));
      if (which & KIN) kinRows(r, s, is[k].phases[q], c);
    }
    if ((which & ACC) && s.p.constraints_.constraintAcceleration_) accRows(r, s, a);
  }
  return r;
}
static Scenario scenario(const Family& f, int phases, bool sym, const int* nH, const int* nKin, bool acc) {
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durations(s, phases, sym);
  for (int i = 0; i < phases; ++i) addPhase(s, nH ? nH[i] : 0, nKin ? nKin[i] : 0);
  s.p.constraints_.constraintAcceleration_ = acc;
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.reduce_h_ = engine::choice("margin", 2) ? engine::posvar("margin") : double(0);
  s.p.costFunction_ = DISTANCE_TRAVELED;
  engine::setGenericEquality(true);
  return s;
}
static void check(const std::string& n, const Scenario& s, const std::vector<Instant>& is, int which, bool exact = true) {
  ensure_true(n + "/one-problem-solved", stub::problems.size() == 1);
  if (stub::problems.size() != 1) return;
  const stub::Problem& p = stub::problems[0];
  ensure_true(n + "/shape", p.A.cols() == 3 && p.A.rows() == p.b.size());
  if (p.A.cols() != 3 || p.A.rows() != p.b.size()) return;
  sameHalfspaces(n, rowsOf(p.A, p.b), specRows(s, is, which), 1e-9, true, exact);
}
#define STRUCT "<= 4 contact phases, <= 4 cone rows and <= 3 kinematic rows per phase (5 patterns of sizes), <= 7 points per phase"

enum Grid { FIXED_SPLIT, FIXED_SYM, STEP_SPLIT, N_GRID };
// run the entry point and compare the rows
static void runGrid(const std::string& n, Scenario& s, int grid, int pp, int which, bool exact) {
  if (grid == STEP_SPLIT) {
    // time steps that divide no phase, and (pp even) one that divides them all
    double dt = s.T * (pp & 1 ? double(s.phases() == 1 ? 0.3125 : 0.171875) : double(s.phases() == 1 ? 0.25 : 0.0625));
    computeCOMTraj(s.p, s.ts(), dt);
    check(n + "/time-step", s, stepInstants(s, dt), which, exact);
  } else {
    computeCOMTrajFixedSize(s.p, s.ts(), pp);
    check(n + "/fixed-size", s, fixedInstants(s, pp), which, exact);
  }
}
// many phases, cones and polytopes of realistic sizes, on fixed numbers
static void larger(const char* prop, int which, bool exact) {
  int layout = engine::choice("layout", 8), ph = 5 + layout % 4;
  engine::setConcrete(true);
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : layout * 3 % N_COM];
  int grid = layout / 4 ? STEP_SPLIT : FIXED_SPLIT;
  Scenario s;
  stub::reset();
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durationsMany(s, ph);
  for (int i = 0; i < ph; ++i) addPhase(s, H_MANY[(i + layout) % 8], K_MANY[(i + 3 * layout) % 8]);
  s.p.constraints_.constraintAcceleration_ = which & ACC;
  s.p.constraints_.maxAcceleration_ = engine::posvar("amax");
  s.p.constraints_.reduce_h_ = layout & 1 ? engine::posvar("margin") : double(0);
  s.p.costFunction_ = DISTANCE_TRAVELED;
  std::string n = std::string(prop) + "/larger/" + f.name;
  if (grid == STEP_SPLIT) {
    double dt = s.T * double(0.01953125);
    computeCOMTraj(s.p, s.ts(), dt);
    check(n + "/time-step", s, stepInstants(s, dt), which, exact);
  } else {
    computeCOMTrajFixedSize(s.p, s.ts(), 3 + 3 * (layout % 4));
    check(n + "/fixed-size", s, fixedInstants(s, 3 + 3 * (layout % 4)), which, exact);
  }
}
#define LARGER "fixed numbers; 5 to 8 contact phases, <= 16 cone rows and <= 21 kinematic rows per phase, <= 12 points per phase"
// the rows of one kind alone
static void disc(const char* prop, const char* part, int which) {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int ph = 1 + engine::choice("phases", contract::thorough() ? 4 : 3);
  int pat = which == ACC ? 0 : engine::choice("sizes", ph == 1 ? 2 : contract::thorough() ? 5 : 3);
  int grid = engine::choice("grid", ph > 3 ? 1 : N_GRID);
  int pp = 1 + engine::choice("points", contract::thorough() ? 7 : 2);
  if (grid == STEP_SPLIT && pp > 2) return;
  Scenario s = scenario(f, ph, grid == FIXED_SYM, which & DYN ? H_ROWS[pat] : 0, which & KIN ? K_ROWS[pat] : 0, which & ACC);
  runGrid(std::string(prop) + "/" + part + "/" + f.name, s, grid, pp, which, true);
}
// every kind of row at once: the rows of one kind are neither overwritten nor
// left out because of the others (exact: nothing but the specified rows)
static void all(const char* prop, int which, bool exact) {
  int layout = engine::choice("layout", 15), ph = 2 + layout / 5, pat = layout % 5;
  const Family& f = FAMILIES[contract::thorough() ? engine::choice("family", N_COM) : engine::choice("family", 2) ? 1 : 2];
  int grid = engine::choice("grid", 2) ? STEP_SPLIT : FIXED_SPLIT;
  int pp = 1 + engine::choice("points", 2);
  bool acc = which == ACC || engine::choice("acceleration", 2);
  Scenario s = scenario(f, ph, false, H_ROWS[pat], K_ROWS[pat], acc);
  runGrid(std::string(prop) + "/all-kinds/" + f.name, s, grid, pp, which, exact);
}
CONTRACT("C04/cone-rows", "computeCOMTrajFixedSize computeCOMTraj computeConstraintsOneStep assignStabilityConstraints computeDiscretizedWwaypoints dynamicStabilityConstraints updateH", STRUCT) {
  disc("C04", "cone-rows", DYN);
}
CONTRACT("C05/kinematic-rows", "computeCOMTrajFixedSize computeCOMTraj computeConstraintsOneStep assignKinematicConstraints computeDiscretizedWaypoints", STRUCT) {
  disc("C05", "kinematic-rows", KIN);
}
CONTRACT("C06/acceleration-rows", "computeCOMTrajFixedSize computeCOMTraj computeConstraintsOneStep assignAccelerationConstraints computeDiscretizedAccelerationWaypoints", STRUCT) {
  disc("C06", "acceleration-rows", ACC);
}
CONTRACT("C04/among-all-kinds", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", STRUCT) { all("C04", DYN, false); }
CONTRACT("C05/among-all-kinds", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", STRUCT) { all("C05", KIN, false); }
CONTRACT("C06/among-all-kinds", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", STRUCT) { all("C06", ACC, false); }
CONTRACT("C04/nothing-else", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", STRUCT) { all("C04", DYN | KIN | ACC, true); }
CONTRACT("C04/larger", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", LARGER) { larger("C04", DYN | KIN | ACC, true); }
CONTRACT("C05/larger", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", LARGER) { larger("C05", KIN, false); }
CONTRACT("C06/larger", "computeConstraintsOneStep computeNumIneq stepIdPerPhase", LARGER) { larger("C06", ACC, false); }
