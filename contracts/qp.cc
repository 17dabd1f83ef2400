// C24: the quadratic back end (dense, sparse, or with a factor provided) on concrete matrices and arbitrary vectors
// (bounded: the matrices are those listed here, the vectors are universally
// quantified within a box).
#include "spec.hh"
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
using namespace spec;

struct Case {
  const char* name;
  int n, e, m;
  std::vector<int> L;       // lower triangular factor of the Hessian (n x n), integers
  std::vector<int> CE, CI;  // e x n, m x n
};
static std::vector<Case> cases() {
  std::vector<Case> c;
  c.push_back({"interval", 1, 0, 2, {2}, {}, {1, -1}});
  c.push_back({"redundant-interval", 1, 0, 3, {1}, {}, {1, -1, 2}});
  c.push_back({"fixed-variable", 1, 1, 1, {1}, {2}, {1}});
  c.push_back({"unconstrained", 2, 0, 0, {1, 0, 1, 2}, {}, {}});
  c.push_back({"half-plane", 2, 0, 1, {1, 0, 2, 1}, {}, {3, 4}});
  c.push_back({"quadrant", 2, 0, 2, {2, 0, 1, 1}, {}, {1, 0, 0, 1}});
  c.push_back({"strip", 2, 0, 2, {1, 0, 0, 1}, {}, {1, 1, -1, -1}});
  c.push_back({"triangle", 2, 0, 3, {1, 0, -1, 2}, {}, {1, 0, 0, 1, -1, -1}});
  c.push_back({"line", 2, 1, 0, {1, 0, 1, 1}, {1, -1}, {}});
  c.push_back({"segment", 2, 1, 2, {1, 0, 1, 1}, {1, 1}, {1, 0, 0, 1}});
  c.push_back({"parallel-to-equality", 2, 1, 1, {1, 0, 0, 1}, {1, 2}, {2, 4}});
  c.push_back({"point", 2, 2, 1, {1, 0, 0, 2}, {1, 1, 1, -1}, {1, 3}});
  c.push_back({"space-line", 3, 2, 2, {1, 0, 0, 1, 1, 0, 0, 1, 2}, {1, 1, 1, 1, -1, 0}, {0, 0, 1, 1, 0, 0}});
  c.push_back({"edge", 3, 0, 2, {4, 0, 0, -3, 12, 0, -7, -36, 48}, {}, {1, 0, 0, 0, 1, 0}});
  c.push_back({"wedge", 3, 1, 2, {2, 0, 0, 0, 1, 0, 1, 0, 1}, {1, 1, 1}, {1, 0, -1, 0, 1, 1}});
  if (contract::thorough()) {
    c.push_back({"octant", 3, 0, 3, {1, 0, 0, 1, 2, 0, 0, -1, 1}, {}, {1, 0, 0, 0, 1, 0, 0, 0, 1}});
    c.push_back({"box", 2, 0, 4, {1, 0, 1, 1}, {}, {1, 0, 0, 1, -1, 0, 0, -1}});
    c.push_back({"pentagon", 2, 0, 4, {1, 0, 2, 1}, {}, {1, 0, 0, 1, -1, -1, 1, -2}});
    c.push_back({"tetrahedron", 3, 0, 4, {1, 0, 0, 1, 1, 0, 0, 1, 1}, {}, {1, 0, 0, 0, 1, 0, 0, 0, 1, -1, -1, -1}});
    c.push_back({"cut-plane", 3, 1, 3, {1, 0, 0, 1, 1, 0, 1, 0, 1}, {1, 2, -1}, {1, 0, 0, 0, 1, 0, 1, 1, 1}});
  }
  return c;
}
static const int N_QUICK = 15, N_ALL = 20;

enum Entry { DENSE, SPARSE, FACTOR };  // the three ways to give the Hessian
static void solve(bool feasible, bool reuse = false, Entry entry = DENSE) {
  static const std::vector<Case> cs = cases();
  static const int again[] = {0, 2, 5, 6, 8, 9};
  const Case& k = reuse ? cs[again[engine::choice("matrices", 6)]]
                        : cs[engine::choice("matrices", contract::thorough() ? N_ALL : N_QUICK)];
  const int n = k.n, e = k.e, m = k.m;
  std::string nm = std::string("C24/") + (entry == SPARSE ? "sparse/" : entry == FACTOR ? "factor-provided/" : "") + (reuse ? "reused/" : feasible ? "feasible/" : "arbitrary/") + k.name;
  MatrixXX L = MatrixXX::Zero(n, n), CE = MatrixXX::Zero(e, n), CI = MatrixXX::Zero(m, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) L(i, j) = k.L[i * n + j];
  MatrixXX H = L * L.transpose();
  for (int i = 0; i < e; ++i)
    for (int j = 0; j < n; ++j) CE(i, j) = k.CE[i * n + j];
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) CI(i, j) = k.CI[i * n + j];
  VectorX g(n), ce0(e), ci0(m), x(n);
  for (int i = 0; i < n; ++i) {
    g(i) = engine::var("g" + S(i), -1000, 1000);
    x(i) = engine::var("guess" + S(i), -1000, 1000);
  }
  if (feasible) {  // a feasible point y with its slacks
    VectorX y(n);
    for (int i = 0; i < n; ++i) y(i) = engine::var("y" + S(i), -1000, 1000);
    for (int i = 0; i < e; ++i) {
      ce0(i) = 0;
      for (int j = 0; j < n; ++j) ce0(i) = ce0(i) - CE(i, j) * y(j);
    }
    for (int i = 0; i < m; ++i) {
      ci0(i) = engine::var("slack" + S(i), 0, 1000);
      for (int j = 0; j < n; ++j) ci0(i) = ci0(i) - CI(i, j) * y(j);
    }
  } else {
    for (int i = 0; i < e; ++i) ce0(i) = engine::var("ce" + S(i), -1000, 1000);
    for (int i = 0; i < m; ++i) ci0(i) = engine::var("ci" + S(i), -1000, 1000);
  }
  tsid::solvers::EiquadprogFast qp;
  if (reuse) {  // another problem before this one: same sizes, or others
    bool same = engine::choice("first problem", 2) == 0;
    int n0 = same ? n : 2, e0 = same ? e : 1, m0 = same ? m : 1;
    MatrixXX H0 = MatrixXX::Identity(n0, n0) * double(2), E0 = MatrixXX::Zero(e0, n0), I0 = MatrixXX::Zero(m0, n0);
    VectorX g0 = VectorX::Zero(n0), d0 = VectorX::Zero(e0), c0 = VectorX::Zero(m0), x0 = VectorX::Zero(n0);
    for (int i = 0; i < e0; ++i) {
      E0(i, i % n0) = 3;
      d0(i) = -1;
    }
    for (int i = 0; i < m0; ++i) {
      I0(i, (i + 1) % n0) = i % 2 ? -1 : 1;
      c0(i) = i % 2 ? 7 : -2;
    }
    qp.solve_quadprog(H0, g0, E0, d0, I0, c0, x0);
  }
  if (entry == FACTOR) {  // m_J m_J' = H^-1: the transposed inverse of L
    MatrixXX J = MatrixXX::Zero(n, n);
    for (int j = 0; j < n; ++j)
      for (int i = j; i < n; ++i) {
        double v = i == j ? 1 : 0;
        for (int l = j; l < i; ++l) v = v - L(i, l) * J(j, l);
        J(j, i) = v / L(i, i);
      }
    qp.reset(n, e, m);
    qp.m_J = J;
    qp.is_inverse_provided_ = true;
  }
  tsid::solvers::EiquadprogFast_status st;
  if (entry == SPARSE) {
    tsid::solvers::EiquadprogFast::SpMat Hs(n, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) {
        int v = 0;  // the integers of the factor tell which entries vanish
        for (int l = 0; l < n; ++l) v += k.L[i * n + l] * k.L[j * n + l];
        if (v != 0) Hs.insert(i, j) = H(i, j);
      }
    if ((n + e + m) % 2) Hs.makeCompressed();  // both forms of storage are legal
    st = qp.solve_quadprog_sparse(Hs, g, CE, ce0, CI, ci0, x);
  } else
    st = qp.solve_quadprog(H, g, CE, ce0, CI, ci0, x);
  bool opt = st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
  if (feasible) ensure_true(nm + "/feasible-problem-solved", opt);
  if (!opt) return;
  bool ok = x.size() == n;
  ensure_true(nm + "/shape", ok);
  if (!ok) return;
  const machine_double tol = 1e-6;
  for (int i = 0; i < e; ++i) {
    double r = ce0(i);
    for (int j = 0; j < n; ++j) r = r + CE(i, j) * x(j);
    ensure_le(nm + "/equalities", r, tol);
    ensure_le(nm + "/equalities", -tol, r);
  }
  for (int i = 0; i < m; ++i) {
    double r = ci0(i);
    for (int j = 0; j < n; ++j) r = r + CI(i, j) * x(j);
    ensure_le(nm + "/inequalities", -tol, r);
  }
  // optimality: H x + g = CE' u + CI' v with v >= 0 supported by the active
  // constraints (sufficient for a convex problem)
  const VectorX& u = qp.getLagrangeMultipliers();
  const Eigen::VectorXi& A = qp.getActiveSet();
  int q = qp.getActiveSetSize();
  ok = q >= 0 && q <= e + m && q <= u.size() && q <= A.size();
  ensure_true(nm + "/active-set", ok);
  if (!ok) return;
  VectorX grad(n);
  for (int i = 0; i < n; ++i) {
    grad(i) = g(i);
    for (int j = 0; j < n; ++j) grad(i) = grad(i) + H(i, j) * x(j);
  }
  std::set<int> seen;
  for (int a = 0; a < q; ++a) {
    int c = A(a);
    ok = (c >= 0 ? c < m : -c - 1 < e) && seen.insert(c).second;
    ensure_true(nm + "/active-set", ok);
    if (!ok) return;
    for (int j = 0; j < n; ++j) grad(j) = grad(j) - u(a) * (c >= 0 ? CI(c, j) : CE(-c - 1, j));
    if (c >= 0) {
      ensure_le(nm + "/multipliers-nonnegative", -tol, u(a));
      double r = ci0(c);
      for (int j = 0; j < n; ++j) r = r + CI(c, j) * x(j);
      ensure_le(nm + "/complementarity", r, tol);
    }
  }
  for (int i = 0; i < n; ++i) {
    ensure_le(nm + "/stationarity", grad(i), tol);
    ensure_le(nm + "/stationarity", -tol, grad(i));
  }
  // the value reported is the cost of the point
  double f = 0;
  for (int i = 0; i < n; ++i) {
    f = f + g(i) * x(i);
    for (int j = 0; j < n; ++j) f = f + double(0.5) * H(i, j) * x(i) * x(j);
  }
  ensure_eq(nm + "/value", qp.getObjValue(), f, 1e-7);
}
#define FNS "EiquadprogFast::solve_quadprog EiquadprogFast::reset EiquadprogFast::add_constraint EiquadprogFast::delete_constraint EiquadprogFast::compute_d EiquadprogFast::update_z EiquadprogFast::update_r"
CONTRACT("C24/feasible-problem-solved", FNS, "15 (thorough: 20) triples of concrete matrices, <= 3 variables; vectors arbitrary in a box") { solve(true); }
CONTRACT("C24/optimum", FNS, "15 (thorough: 20) triples of concrete matrices, <= 3 variables; vectors arbitrary in a box") { solve(false); }
CONTRACT("C24/sparse-optimum", "EiquadprogFast::solve_quadprog_sparse trace_sparse EiquadprogFast::reset EiquadprogFast::add_constraint EiquadprogFast::delete_constraint EiquadprogFast::compute_d EiquadprogFast::update_z EiquadprogFast::update_r", "15 (thorough: 20) triples of concrete matrices, <= 3 variables; vectors arbitrary in a box") { solve(false, false, SPARSE); }
CONTRACT("C24/sparse-feasible-problem-solved", "EiquadprogFast::solve_quadprog_sparse", "15 (thorough: 20) triples of concrete matrices, <= 3 variables; vectors arbitrary in a box") { solve(true, false, SPARSE); }
CONTRACT("C24/sparse-reused-solver", "EiquadprogFast::solve_quadprog_sparse", "6 triples of concrete matrices, <= 2 variables; vectors arbitrary in a box") { solve(true, true, SPARSE); }
CONTRACT("C24/factor-provided", FNS, "6 triples of concrete matrices, <= 2 variables; vectors arbitrary in a box") { solve(true, true, FACTOR); }
CONTRACT("C24/reused-solver", FNS, "6 triples of concrete matrices, <= 2 variables; vectors arbitrary in a box") { solve(true, true); }

// concrete problems at the edge of the method: no access outside the arrays, an
// answer in finite time, and no optimum reported at an infeasible point
CONTRACT("C24/degenerate", FNS " EiquadprogFast::solve_quadprog_sparse", "9 concrete problems") {
  int c = engine::choice("problem", 9);
  bool sparse = engine::choice("sparse", 2);
  std::string nm = "C24/degenerate/" + S(c) + (sparse ? "/sparse" : "");
  int n = c == 0 || c == 6 ? 1 : 2;
  MatrixXX H = MatrixXX::Identity(n, n), CE, CI;
  VectorX g = VectorX::Zero(n), ce0, ci0, x = VectorX::Zero(n);
  auto rows = [&](MatrixXX& M, VectorX& v, std::vector<machine_double> a) {
    int r = int(a.size()) / (n + 1);
    M = MatrixXX(r, n);
    v = VectorX(r);
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < n; ++j) M(i, j) = double(a[i * (n + 1) + j]);
      v(i) = double(a[i * (n + 1) + n]);
    }
  };
  rows(CE, ce0, {});
  rows(CI, ci0, {});
  bool solvable = false;
  switch (c) {
    case 0: rows(CE, ce0, {1, -1, 2, -2}); break;                       // more equalities than variables
    case 1: H = H * double(1e-12); rows(CE, ce0, {1, 0, 0}); rows(CI, ci0, {1, 1e-17, -1}); break;
    case 2: rows(CE, ce0, {1, 1, -1, 2, 2, -2}); break;                 // the same equality twice
    case 3: rows(CE, ce0, {1, 1, -1, 1, -1, 0}); rows(CI, ci0, {1, 0, -2}); break;  // no point left
    case 4: rows(CI, ci0, {1, 0, -1, 1, 0, -1, 1, 0, -1}); solvable = true; break;  // the same row three times
    case 5: rows(CI, ci0, {1, 0, -1, -1, 0, 0}); break;                 // empty
    case 6: rows(CI, ci0, {1, -1, -1, 1}); solvable = true; break;      // a single point
    case 7: rows(CE, ce0, {1, 0, -1}); rows(CI, ci0, {0, 1, -1, 0, 1, -3, -1, 0, 1}); solvable = true; break;
    case 8: rows(CI, ci0, {1, 1, -1, 1, -1, -1, -1, 0, 2, 0, 1, 0}); solvable = true; break;
  }
  tsid::solvers::EiquadprogFast qp;
  tsid::solvers::EiquadprogFast::SpMat Hs(n, n);
  for (int i = 0; i < n; ++i) Hs.insert(i, i) = H(i, i);
  tsid::solvers::EiquadprogFast_status st =
      sparse ? qp.solve_quadprog_sparse(Hs, g, CE, ce0, CI, ci0, x) : qp.solve_quadprog(H, g, CE, ce0, CI, ci0, x);
  if (solvable) ensure_true(nm + "/solved", st == tsid::solvers::EIQUADPROG_FAST_OPTIMAL);
  if (st != tsid::solvers::EIQUADPROG_FAST_OPTIMAL) return;
  for (int i = 0; i < CE.rows(); ++i) {
    double r = ce0(i);
    for (int j = 0; j < n; ++j) r = r + CE(i, j) * x(j);
    ensure_eq(nm + "/equalities", r, double(0), 1e-6);
  }
  for (int i = 0; i < CI.rows(); ++i) {
    double r = ci0(i);
    for (int j = 0; j < n; ++j) r = r + CI(i, j) * x(j);
    ensure_le(nm + "/inequalities", double(-1e-6), r);
  }
}

// Machine doubles only (bounded): larger random problems against the
// enumeration of active sets, one solver object after another and one reused.
#ifndef VERIF_SYMBOLIC
static bool bestPoint(const MatrixXX& H, const VectorX& g, const MatrixXX& E, const VectorX& e, const MatrixXX& I,
                      const VectorX& c, double& f, VectorX& best) {
  int n = H.rows(), m = I.rows(), q = E.rows();
  bool any = false;
  for (int s = 0; s < (1 << m); ++s) {
    std::vector<int> a;
    for (int i = 0; i < m; ++i)
      if (s >> i & 1) a.push_back(i);
    int k = q + (int)a.size();
    if (k > n) continue;
    MatrixXX K = MatrixXX::Zero(n + k, n + k);
    VectorX r(n + k);
    K.topLeftCorner(n, n) = H;
    r.head(n) = -g;
    for (int i = 0; i < k; ++i) {
      VectorX row = i < q ? VectorX(E.row(i).transpose()) : VectorX(I.row(a[i - q]).transpose());
      K.block(0, n + i, n, 1) = row;
      K.block(n + i, 0, 1, n) = row.transpose();
      r(n + i) = -(i < q ? e(i) : c(a[i - q]));
    }
    Eigen::FullPivLU<MatrixXX> lu(K);
    lu.setThreshold(1e-10);
    if (!lu.isInvertible()) continue;
    VectorX x = lu.solve(r).head(n);
    if (((I * x + c).array() < -1e-8).any()) continue;
    double v = 0.5 * x.dot(H * x) + g.dot(x);
    if (!any || v < f) f = v, any = true, best = x;
  }
  return any;
}
#endif
CONTRACT("C24/sampled-larger", FNS " EiquadprogFast::solve_quadprog_sparse", "machine doubles on random problems, <= 6 variables, <= 9 inequalities, <= 2 equalities") {
  int n = 1 + engine::choice("variables", 6), mi = engine::choice("inequalities", 4), me = engine::choice("equalities", 3),
      kind = engine::choice("data", 3);
  engine::var("seed");
#ifndef VERIF_SYMBOLIC
  int m = mi == 0 ? 0 : mi == 1 ? 2 : mi == 2 ? 5 : 9;
  if (me >= n) return;
  uint64_t rs = 0x9E3779B97F4A7C15ull ^ (uint64_t)(std::fabs(engine::var("seed")) * 1e15);
  auto rnd = [&](double lo, double hi) {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    double v = lo + (hi - lo) * ((rs >> 11) * (1.0 / 9007199254740992.0));
    return kind == 0 ? v : std::round(v * 2) / 2;  // ties and repeated rows
  };
  rnd(0, 1), rnd(0, 1);
  MatrixXX M(n, n), E(me, n), I(m, n);
  VectorX g(n), e(me), c(m), at(n);
  for (int i = 0; i < n; ++i) {
    g(i) = rnd(-4, 4);
    at(i) = rnd(-1, 1);
    for (int j = 0; j < n; ++j) M(i, j) = rnd(-1, 1);
  }
  MatrixXX H = M * M.transpose() + 0.1 * MatrixXX::Identity(n, n);
  for (int i = 0; i < me; ++i) {
    for (int j = 0; j < n; ++j) E(i, j) = rnd(-1, 1) + (i == j);
    e(i) = -E.row(i).dot(at);
  }
  if (me && Eigen::FullPivLU<MatrixXX>(E).rank() < me) return;
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) I(i, j) = rnd(-1, 1);
    c(i) = -I.row(i).dot(at) + (kind == 2 ? rnd(-1, 1) : rnd(0, 1));
    if (i && kind == 1 && i % 3 == 0) I.row(i) = I.row(i - 1), c(i) = c(i - 1);
  }
  std::string nm = "C24/sampled-larger";
  double f = 0;
  VectorX best;
  bool any = bestPoint(H, g, E, e, I, c, f, best);
  tsid::solvers::EiquadprogFast qp;
  for (int round = 0; round < 4; ++round) {
    VectorX x = VectorX::Zero(n);
    bool ok;
    if (round == 2) {
      tsid::solvers::EiquadprogFast::SpMat Hs = H.sparseView();
      ok = qp.solve_quadprog_sparse(Hs, g, E, e, I, c, x) == tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
    } else {
      if (round == 3) {  // any factor of the inverse, not only the triangular one
        qp.m_J = Eigen::SelfAdjointEigenSolver<MatrixXX>(H).operatorInverseSqrt();
        qp.is_inverse_provided_ = true;
      }
      MatrixXX Hc = H;
      ok = qp.solve_quadprog(Hc, g, E, e, I, c, x) == tsid::solvers::EIQUADPROG_FAST_OPTIMAL;
    }
    if (any) ensure_true(nm + "/feasible-problem-solved", ok);
    if (!ok) continue;
    ensure_true(nm + "/point-feasible", !((I * x + c).array() < -1e-6).any() && (me == 0 || (E * x + e).norm() < 1e-6));
    if (!any) continue;
    double v = 0.5 * x.dot(H * x) + g.dot(x);
    ensure_true(nm + "/point-optimal", v <= f + 1e-6 * (1 + std::fabs(f)) && (x - best).norm() < 1e-3 * (1 + best.norm()));
    ensure_true(nm + "/value", std::fabs(qp.getObjValue() - v) < 1e-6 * (1 + std::fabs(v)));
  }
#endif
}
