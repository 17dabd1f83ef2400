// C13 / C14: the quadratic and the linear solver front ends.
#include "com_spec.hh"
#include "stub_eiquadprog.hh"
using namespace spec;

static const double LO_INF = -100000., UP_INF = 100000.;

struct Pb {
  MatrixXX A, D, H;
  VectorX b, d, g, init, lo, up;
  int n;
};
// an arbitrary problem; zeros: some coefficients are the constant zero
static Pb problem(int n, int rows, int eqs, int lo, int up, bool zeros, bool fixedNumbers = false) {
  Pb p;
  p.n = n;
  p.A = MatrixXX::Zero(rows, n);
  p.D = MatrixXX::Zero(eqs, n);
  p.H = MatrixXX::Zero(n, n);
  p.b = VectorX::Zero(rows);
  p.d = VectorX::Zero(eqs);
  p.g = VectorX::Zero(n);
  p.init = VectorX::Zero(n);
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < n; ++j)
      if (!zeros || (i + j) % 2 == 0) p.A(i, j) = engine::var("A" + S(i) + "_" + S(j));
    p.b(i) = engine::var("b" + S(i));
  }
  for (int i = 0; i < eqs; ++i) {
    for (int j = 0; j < n; ++j)
      if (!zeros || (i + j) % 2 == 1) p.D(i, j) = engine::var("D" + S(i) + "_" + S(j));
    p.d(i) = engine::var("d" + S(i));
  }
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j <= i; ++j) p.H(i, j) = p.H(j, i) = engine::var("H" + S(i) + "_" + S(j));
    p.g(i) = engine::var("g" + S(i));
    p.init(i) = engine::var("guess" + S(i));
  }
  // bounds: 0 none, 1 all finite, 2 finite and unbounded ones
  p.lo = VectorX::Zero(lo ? n : 0);
  p.up = VectorX::Zero(up ? n : 0);
  for (int i = 0; i < p.lo.size(); ++i) {
    if (lo == 2 && i % 2 == 0) p.lo(i) = LO_INF;
    else {
      p.lo(i) = engine::var("lo" + S(i));
      engine::assume_lt(LO_INF, p.lo(i));
    }
  }
  for (int i = 0; i < p.up.size(); ++i) {
    if (up == 2 && i % 3 != 1) p.up(i) = UP_INF;
    else {
      p.up(i) = fixedNumbers ? 4 + engine::var("up" + S(i)) : engine::var("up" + S(i));
      engine::assume_lt(p.up(i), UP_INF);
      if (lo && !(lo == 2 && i % 2 == 0)) engine::assume_le(p.lo(i), p.up(i));
    }
  }
  return p;
}
static Row bound(int n, int i, int sign, const double& v) {
  Row r(n + 1, double(0));
  r[i] = sign;
  r[n] = sign * v;
  return r;
}
static Rows wanted(const Pb& p, bool sentinels) {
  Rows w = rowsOf(p.A, p.b);
  for (int i = 0; i < p.lo.size(); ++i)
    if (sentinels || !(engine::fingerprint(p.lo(i)) == -100000.)) w.push_back(bound(p.n, i, -1, p.lo(i)));
  for (int i = 0; i < p.up.size(); ++i)
    if (sentinels || !(engine::fingerprint(p.up(i)) == 100000.)) w.push_back(bound(p.n, i, 1, p.up(i)));
  return w;
}
// equality rows are the given ones up to a nonzero factor: as pairs of
// opposite half-spaces
static Rows bothSides(const Rows& r) {
  Rows o;
  for (size_t i = 0; i < r.size(); ++i) {
    o.push_back(r[i]);
    o.push_back(r[i]);
    for (size_t k = 0; k < r[i].size(); ++k) o.back()[k] = -r[i][k];
  }
  return o;
}
static void sameEqualities(const std::string& name, const Rows& got, const Rows& want) {
  sameHalfspaces(name, bothSides(got), bothSides(want));
}
enum Entry { DIRECT, PAIRS, PAIRS_EQ, N_ENTRY };
static const char* EN[3] = {"solvers", "pairs", "pairs-equalities"};
static ResultData call(const Pb& p, int e, solvers::SolverType t) {
  switch (e) {
    case DIRECT: return solvers::solve(p.A, p.b, p.D, p.d, p.H, p.g, p.init, p.lo, p.up, t);
    case PAIRS: return bezier_com_traj::solve(std::make_pair(p.A, p.b), std::make_pair(p.H, p.g), p.init, t);
    default:
      return bezier_com_traj::solve(std::make_pair(p.A, p.b), std::make_pair(p.D, p.d), std::make_pair(p.H, p.g),
                                    p.lo, p.up, p.init, t);
  }
}
static Pb chosen(int e, int rowsMax, int nMax) {
  bool full = e == DIRECT || e == PAIRS_EQ;
  int lo = 0, up = 0, eqs = 0;
  if (full) {
    lo = engine::choice("lower-bounds", 3);
    up = engine::choice("upper-bounds", 3);
    eqs = engine::choice("equalities", 3);
  }
  int n = 1 + engine::choice("variables", nMax);
  int rows = engine::choice("rows", rowsMax + 1);
  return problem(n, rows, eqs, lo, up, engine::choice("zeros", 2));
}

static void quadratic(const Pb& p, int e) {
  ResultData r = call(p, e, solvers::SOLVER_QUADPROG);
  std::string n = std::string("C13/") + EN[e];
  ensure_true(n + "/back-end-called-once", eiqstub::calls.size() == 1);
  if (eiqstub::calls.size() != 1) return;
  const eiqstub::Call& c = eiqstub::calls[0];
  bool ok = c.H.rows() == p.n && c.H.cols() == p.n && c.g.size() == p.n && c.CE.cols() == p.n && c.CI.cols() == p.n &&
            c.CE.rows() == c.ce0.size() && c.CI.rows() == c.ci0.size() && c.guess.size() == p.n;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  // objective (the cost is passed on, so it is the given one itself)
  for (int i = 0; i < p.n; ++i) {
    for (int j = 0; j < p.n; ++j) ensure_eq(n + "/objective", c.H(i, j), p.H(i, j));
    ensure_eq(n + "/objective", c.g(i), p.g(i));
  }
  // CI x + ci0 >= 0 , i.e. -CI x <= ci0
  Rows got = rowsOf(-c.CI, c.ci0);
  sameHalfspaces(n + "/inequalities", got, wanted(p, false), 1e-9, true, false);
  sameHalfspaces(n + "/inequalities", got, wanted(p, true), 1e-9, false, true);
  sameEqualities(n + "/equalities", rowsOf(c.CE, -c.ce0), rowsOf(p.D, p.d));
  ensure_true(n + "/success-iff-optimal", r.success_ == (eiqstub::status == 0));
  if (eiqstub::status == 0) {
    ensure_true(n + "/optimum", r.x.size() == p.n);
    for (int i = 0; i < r.x.size(); ++i) ensure_eq(n + "/optimum", r.x(i), engine::var("x" + S(i)));
    ensure_eq(n + "/cost", r.cost_, eiqstub::value);
  }
}
CONTRACT("C13/quadratic-front-end", "solvers::solve addBoundaryConstraintsQuadProg addConstraintMinBoundQuadProg addConstraintMaxBoundQuadProg bezier_com_traj::solve",
         "<= 5 variables, <= 4 inequality rows, <= 2 equality rows") {
  int e = engine::choice("entry", N_ENTRY);
  eiqstub::reset();
  Pb p = chosen(e, 4, e == DIRECT ? 5 : 3);
  quadratic(p, e);
}
CONTRACT("C13/larger", "solvers::solve addBoundaryConstraintsQuadProg addConstraintMinBoundQuadProg addConstraintMaxBoundQuadProg bezier_com_traj::solve",
         "fixed numbers; 27 or 64 variables, 50 inequality rows, 18 equality rows") {
  int e = engine::choice("entry", N_ENTRY);
  eiqstub::reset();
  bool full = e == DIRECT || e == PAIRS_EQ;
  int lo = full ? engine::choice("lower-bounds", 3) : 0, up = full ? engine::choice("upper-bounds", 3) : 0;
  int n = engine::choice("size", 2) ? 64 : 27;
  engine::setConcrete(true);
  quadratic(problem(n, 50, full ? 18 : 0, lo, up, n == 27, true), e);
}
CONTRACT("C13/unknown-solver", "solvers::solve", "") {
  int e = engine::choice("entry", N_ENTRY);
  eiqstub::reset();
  glpstub::reset();
  Pb p = problem(2, 1, e == PAIRS ? 0 : 1, 0, 0, false);
  static const int ids[4] = {0, 3, 77, -1};
  int id = ids[engine::choice("solver", 4)];
  bool thrown = false;
  try {
    call(p, e, (solvers::SolverType)id);
  } catch (const engine::PathCut&) {
    throw;
  } catch (const std::exception&) {
    thrown = true;
  }
  ensure_true(std::string("C13/unknown-solver/") + EN[e], thrown);
}

// half-spaces and equalities of what the linear back end was given
static void transcribed(const std::string& n, const glpstub::Prob& q, int nv, Rows& ineq, Rows& eq) {
  for (int pass = 0; pass < 2; ++pass) {
    const std::map<int, glpstub::Bnd>& m = pass ? q.col : q.row;
    for (auto& e : m) {
      Row a(nv + 1, double(0));
      if (pass)
        a[e.first - 1] = 1;
      else {
        auto it = q.mat.lower_bound(std::make_pair(e.first, 0));
        for (; it != q.mat.end() && it->first.first == e.first; ++it) a[it->first.second - 1] = it->second;
      }
      int t = e.second.type;
      if (t == GLP_UP || t == GLP_DB) {
        a[nv] = e.second.ub;
        ineq.push_back(a);
      }
      if (t == GLP_FX) {
        a[nv] = e.second.lb;
        if (pass) {  // a variable with equal bounds
          ineq.push_back(a);
        } else
          eq.push_back(a);
      }
      if (t == GLP_LO || t == GLP_DB || (pass && t == GLP_FX)) {
        for (int j = 0; j < nv; ++j) a[j] = -a[j];
        a[nv] = -e.second.lb;
        ineq.push_back(a);
      }
    }
  }
}
static void linear(const std::string& n, const Pb& p, const ResultData& r) {
  const glpstub::Prob& q = glpstub::last;
  ensure_true(n + "/solved-once", glpstub::solves == 1);
  if (glpstub::solves != 1) return;
  ensure_true(n + "/calling-rules", q.misuse.empty(), q.misuse.empty() ? "" : q.misuse[0]);
  ensure_true(n + "/variables", q.cols == p.n);
  if (q.cols != p.n || !q.misuse.empty()) return;
  ensure_true(n + "/minimisation", q.dir == GLP_MIN);
  for (int j = 1; j <= p.n; ++j) ensure_eq(n + "/objective", q.obj.count(j) ? q.obj.at(j) : double(0), p.g(j - 1));
  if (q.obj.count(0)) ensure_eq(n + "/objective", q.obj.at(0), 0);
  Rows ineq, eq;
  transcribed(n, q, p.n, ineq, eq);
  sameHalfspaces(n + "/inequalities", ineq, wanted(p, false), 1e-9, true, false);
  sameHalfspaces(n + "/inequalities", ineq, wanted(p, true), 1e-9, false, true);
  sameEqualities(n + "/equalities", eq, rowsOf(p.D, p.d));
  bool opt = glpstub::status == GLP_OPT;
  ensure_true(n + "/success-iff-optimal", r.success_ == opt);
  if (opt) {
    ensure_true(n + "/optimum", r.x.size() == p.n);
    for (int i = 0; i < r.x.size() && i < p.n; ++i) ensure_eq(n + "/optimum", r.x(i), glpstub::primal[i]);
    ensure_eq(n + "/cost", r.cost_, glpstub::objVal);
  }
  ensure_true(n + "/released", glpstub::liveProblems == 0 && q.deleted);
}
static void answer(int n, int status) {
  static const int st[6] = {GLP_OPT, GLP_FEAS, GLP_INFEAS, GLP_NOFEAS, GLP_UNBND, GLP_UNDEF};
  glpstub::status = st[status];
  glpstub::simplexReturn = glpstub::status == GLP_UNDEF ? engine::choice("back-end-return", 2) * GLP_EBOUND : 0;
  for (int i = 0; i < n; ++i) glpstub::primal.push_back(engine::var("x" + S(i)));
  glpstub::objVal = engine::var("value");
}
CONTRACT("C14/linear-front-end", "solvers::solve solveglpk getType bezier_com_traj::solve",
         "<= 4 variables, <= 3 inequality rows, <= 2 equality rows") {
  // the answer of the back end times the zero pattern (first choice: split over processes)
  int first = engine::choice("back-end-status", 6);
  int e = engine::choice("entry", N_ENTRY);
  glpstub::reset();
  engine::setGenericEquality(true);
  Pb p = chosen(e, 3, e == DIRECT ? 4 : 2);
  answer(p.n, first);
  ResultData r = call(p, e, solvers::SOLVER_GLPK);
  linear(std::string("C14/") + EN[e], p, r);
}
// every pattern of vanishing coefficients
CONTRACT("C14/vanishing-coefficients", "solveglpk getType", "2 variables, 2 inequality rows, 2 equality rows") {
  glpstub::reset();
  engine::setGenericEquality(true);
  int pat = engine::choice("pattern", 256);
  Pb p = problem(2, 2, 2, 1, 2, false);
  for (int k = 0; k < 8; ++k)
    if (pat >> k & 1) (k < 4 ? p.A : p.D)(k / 2 % 2, k % 2) = 0;
  for (int i = 0; i < 2; ++i) glpstub::primal.push_back(engine::var("x" + S(i)));
  glpstub::objVal = engine::var("value");
  ResultData r = call(p, DIRECT, solvers::SOLVER_GLPK);
  linear("C14/vanishing-coefficients", p, r);
}
CONTRACT("C14/equal-bounds", "solveglpk getType", "") {
  glpstub::reset();
  engine::setGenericEquality(true);
  Pb p = problem(2, 1, 0, 1, 1, false);
  p.up(1) = p.lo(1);
  for (int i = 0; i < 2; ++i) glpstub::primal.push_back(engine::var("x" + S(i)));
  glpstub::objVal = engine::var("value");
  ResultData r = call(p, DIRECT, solvers::SOLVER_GLPK);
  linear("C14/equal-bounds", p, r);
}
// problems with many coefficients (concrete data, sparse comparison)
CONTRACT("C14/large-problem", "solveglpk", "48 rows, 520 variables") {
  const int n = 520, rows = 42, eqs = 6;
  glpstub::reset();
  Pb p = problem(n, 0, 0, 0, 0, true);
  p.A = MatrixXX::Zero(rows, n);
  p.b = VectorX::Zero(rows);
  p.D = MatrixXX::Zero(eqs, n);
  p.d = VectorX::Zero(eqs);
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < n; ++j) p.A(i, j) = double(1 + (i * 7 + j * 13 + i * j) % 101);
    p.b(i) = double(i + 1);
  }
  for (int i = 0; i < eqs; ++i) {
    for (int j = 0; j < n; ++j) p.D(i, j) = double(1 + (i * 5 + j * 11 + i * j) % 89);
    p.d(i) = double(i + 3);
  }
  for (int i = 0; i < n; ++i) glpstub::primal.push_back(engine::var("x" + S(i)));
  glpstub::objVal = engine::var("value");
  ResultData r = call(p, DIRECT, solvers::SOLVER_GLPK);
  linear("C14/large-problem", p, r);
}
