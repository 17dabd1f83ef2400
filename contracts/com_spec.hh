// Specification of the constraints of the centroidal problem.
#ifndef VERIF_COM_SPEC_HH
#define VERIF_COM_SPEC_HH
#include "stubs.hh"
namespace spec {
typedef std::vector<double> Row;  // a | b  with  a.x <= b
typedef std::vector<Row> Rows;

inline std::vector<machine_double> unit(const Row& r) {
  std::vector<machine_double> v;
  machine_double n = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    v.push_back(engine::fingerprint(r[i]));
    n += v[i] * v[i];
  }
  n = std::sqrt(n);
  if (n > 0)
    for (size_t i = 0; i < v.size(); ++i) v[i] /= n;
  return v;
}
inline machine_double dist(const std::vector<machine_double>& a, const std::vector<machine_double>& b) {
  machine_double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  if (!(s >= 0)) return 1e9;
  return s;
}
// does a.x <= b constrain nothing (a == 0)?
inline bool zeroA(const Row& r) {
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    machine_double f = engine::fingerprint(r[i]);
    if (!(std::fabs(f) < 1e-13)) return false;
  }
  return true;
}
// index in `pool` of the row to compare `r` with
inline size_t nearest(const Row& r, const std::vector<machine_double>& u, const Rows& pool,
                      const std::vector<std::vector<machine_double> >& up, machine_double eps, machine_double& bd) {
  size_t best = pool.size();
  bd = 1e18;
  bool z = zeroA(r);
  for (size_t j = 0; j < pool.size(); ++j) {
    if (pool[j].size() != r.size()) continue;
    machine_double d = dist(up[j], u);
    if (z && zeroA(pool[j])) {  // the direction tells nothing: try them all
      if (engine::row_matches(pool[j], r, eps)) {
        bd = 0;
        return j;
      }
      machine_double a = engine::fingerprint(pool[j].back()), b = engine::fingerprint(r.back());
      d = 1e-3 + std::fabs(a - b) / (1 + std::fabs(a) + std::fabs(b));
    }
    if (d < bd) {
      bd = d;
      best = j;
    }
  }
  return best;
}
// {x : got} == {x : want}: every specified half-space is present and nothing
// else is (rows are compared up to a positive factor, order and multiplicity)
inline void sameHalfspaces(const std::string& name, const Rows& got, const Rows& want,
                           machine_double eps = 1e-9, bool checkMissing = true, bool checkExtra = true) {
  std::vector<std::vector<machine_double> > ug, uw;
  for (size_t i = 0; i < got.size(); ++i) ug.push_back(unit(got[i]));
  for (size_t i = 0; i < want.size(); ++i) uw.push_back(unit(want[i]));
  std::set<std::pair<size_t, size_t> > done;
  if (checkMissing)
    for (size_t i = 0; i < want.size(); ++i) {
      machine_double bd;
      size_t best = nearest(want[i], uw[i], got, ug, eps, bd);
      if (best == got.size()) {
        ensure_true(name + "/present", false, "a specified constraint has no counterpart");
        continue;
      }
      ensure_row(name + "/present", got[best], want[i], eps);
      if (bd < 1e-12) done.insert(std::make_pair(best, i));
    }
  if (checkExtra)
    for (size_t j = 0; j < got.size(); ++j) {
      machine_double bd;
      size_t best = nearest(got[j], ug[j], want, uw, eps, bd);
      if (best < want.size() && done.count(std::make_pair(j, best))) continue;
      if (zeroA(got[j]) && !(bd < 1e-6)) {  // 0 <= b must be trivially true
        for (size_t i = 0; i + 1 < got[j].size(); ++i) ensure_eq(name + "/no-extra", got[j][i], 0);
        ensure_le(name + "/no-extra", 0, got[j].back());
        continue;
      }
      if (best == want.size()) {
        ensure_true(name + "/no-extra", false, "a constraint that the problem does not state");
        continue;
      }
      ensure_row(name + "/no-extra", got[j], want[best], eps);
    }
}
inline Row mkrow(const point_t& a, const double& b) {
  Row r;
  for (int i = 0; i < 3; ++i) r.push_back(a(i));
  r.push_back(b);
  return r;
}
inline Rows rowsOf(const MatrixXX& A, const VectorX& b) {
  Rows rs;
  for (long i = 0; i < A.rows(); ++i) {
    Row r;
    for (long j = 0; j < A.cols(); ++j) r.push_back(A(i, j));
    r.push_back(b(i));
    rs.push_back(r);
  }
  return rs;
}
inline Matrix3 cross(const point_t& v) {
  Matrix3 m = Matrix3::Zero();
  m(0, 1) = -v(2);
  m(0, 2) = v(1);
  m(1, 0) = v(2);
  m(1, 2) = -v(0);
  m(2, 0) = -v(1);
  m(2, 1) = v(0);
  return m;
}
// wrench per unit mass [ddc ; c x (ddc - g)] as an affine function of x
struct Wrench {
  Matrix3 Mt, Mb;
  point_t st, sb;
};
inline Wrench wrench(const Aff& c, const Aff& dd, const point_t& g) {
  Wrench w;
  point_t e = dd.s - g;
  w.Mt = Matrix3::Identity() * dd.c[0];
  w.Mb = dd.c[0] * cross(c.s) - c.c[0] * cross(e);
  w.st = dd.s;
  w.sb = cross(c.s) * e;
  return w;
}
struct Scenario {
  ProblemData p;
  const Family* f;
  std::vector<double> Ts, S;  // durations, phase start times (S.back() = T)
  double T;
  std::vector<int> nH, nKin;
  int phases() const { return (int)Ts.size(); }
  VectorX ts() const {
    VectorX v(Ts.size());
    for (size_t i = 0; i < Ts.size(); ++i) v(i) = Ts[i];
    return v;
  }
  Curve cp() const { return controlPoints(p, *f, T); }
};
// phases: 1..3; symbolic total duration; split: fully symbolic or fixed ratios
inline void durations(Scenario& s, int n, bool symbolicSplit) {
  s.T = engine::posvar("T");
  s.Ts.clear();
  if (n == 1)
    s.Ts.push_back(s.T);
  else if (symbolicSplit) {
    double t2 = engine::posvar("T2");
    double rest = s.T - t2;
    engine::assume_lt(0, rest);
    if (n == 2) {
      s.Ts.push_back(rest);
      s.Ts.push_back(t2);
    } else {
      double t3 = engine::posvar("T3");
      engine::assume_lt(0, s.T - t2 - t3);
      s.Ts.push_back(s.T - t2 - t3);
      s.Ts.push_back(t2);
      s.Ts.push_back(t3);
    }
  } else if (n == 2) {
    s.Ts.push_back(s.T * double(0.375));
    s.Ts.push_back(s.T * double(0.625));
  } else if (n == 3) {
    s.Ts.push_back(s.T * double(0.25));
    s.Ts.push_back(s.T * double(0.3125));
    s.Ts.push_back(s.T * double(0.4375));
  } else {
    s.Ts.push_back(s.T * double(0.25));
    s.Ts.push_back(s.T * double(0.1875));
    s.Ts.push_back(s.T * double(0.3125));
    s.Ts.push_back(s.T * double(0.25));
  }
  s.S.assign(1, double(0));
  for (size_t i = 0; i < s.Ts.size(); ++i) s.S.push_back(i + 1 == s.Ts.size() ? s.T : s.S[i] + s.Ts[i]);
}
// many phases, fixed ratios (sixty-fourths of the total)
inline void durationsMany(Scenario& s, int n) {
  static const int W[4][8] = {{11, 17, 9, 15, 12}, {9, 13, 7, 12, 8, 15}, {8, 10, 6, 12, 11, 9, 8}, {5, 9, 7, 11, 6, 10, 3, 13}};
  s.T = engine::posvar("T");
  s.Ts.clear();
  s.S.assign(1, double(0));
  int sum = 0;
  for (int i = 0; i < n; ++i) {
    s.Ts.push_back(s.T * double(W[n - 5][i]) / double(64));
    s.S.push_back(s.T * double(sum += W[n - 5][i]) / double(64));
  }
}
static const int H_MANY[8] = {9, 4, 16, 1, 7, 12, 3, 10}, K_MANY[8] = {8, 21, 0, 5, 13, 3, 17, 6};
// sizes of the phases: growing, shrinking, vanishing, ...
static const int H_ROWS[5][4] = {{1, 2, 1, 2}, {2, 1, 3, 1}, {3, 3, 1, 2}, {1, 1, 1, 4}, {1, 3, 2, 1}};
static const int K_ROWS[5][4] = {{2, 1, 0, 2}, {1, 3, 2, 1}, {0, 2, 1, 3}, {1, 0, 2, 2}, {3, 3, 3, 0}};
inline void addPhase(Scenario& s, int nH, int nKin, int nG = 0) {
  std::string n = "ph" + S((long)s.p.contacts_.size());
  s.nH.push_back(nH);
  s.nKin.push_back(nKin);
  ContactData cd(stub::phase(n, nH, nG));
  cd.Kin_ = MatrixX3::Zero(nKin, 3);
  cd.kin_ = VectorX::Zero(nKin);
  for (int i = 0; i < nKin; ++i) {
    for (int j = 0; j < 3; ++j) cd.Kin_(i, j) = engine::var(n + "K" + S(i) + S(j));
    cd.kin_(i) = engine::var(n + "k" + S(i));
  }
  s.p.contacts_.push_back(cd);
  stub::pin(s.p);
}
// cone rows at one instant in one phase
inline void dynRows(Rows& out, const Scenario& s, int ph, const Wrench& w) {
  const stub::Cone& c = stub::cones["ph" + S(ph)];
  for (long i = 0; i < c.H.rows(); ++i) {
    double n = 0;
    for (int j = 0; j < 6; ++j) n = n + c.H(i, j) * c.H(i, j);
    n = std::sqrt(n);
    point_t ht, hb;
    for (int j = 0; j < 3; ++j) {
      ht(j) = -c.H(i, j);
      hb(j) = -c.H(i, j + 3);
    }
    // gravito-inertial wrench m[ddc-g; c x (ddc-g)]: -H w <= h, with the margin
    point_t a = w.Mt.transpose() * ht + w.Mb.transpose() * hb;
    double margin = s.p.constraints_.reduce_h_;
    double rhs = ht.dot(stub::gravity - w.st) - hb.dot(w.sb);
    if (margin > 0) rhs = rhs - n * margin;
    out.push_back(mkrow(a, rhs));
  }
}
inline void kinRows(Rows& out, const Scenario& s, int ph, const Aff& c) {
  const ContactData& cd = s.p.contacts_[ph];
  for (int i = 0; i < s.nKin[ph]; ++i) {
    point_t k = cd.Kin_.row(i).transpose();
    out.push_back(mkrow(c.c[0] * k, cd.kin_(i) - k.dot(c.s)));
  }
}
inline void accRows(Rows& out, const Scenario& s, const Aff& dd) {
  for (int i = 0; i < 3; ++i) {
    point_t e = point_t::Zero();
    e(i) = dd.c[0];
    out.push_back(mkrow(e, s.p.constraints_.maxAcceleration_ - dd.s(i)));
    e(i) = -dd.c[0];
    out.push_back(mkrow(e, s.p.constraints_.maxAcceleration_ + dd.s(i)));
  }
}
}  // namespace spec
#endif
