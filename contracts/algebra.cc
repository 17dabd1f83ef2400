// C22: affine expressions, Bernstein polynomials, sampling.
#include "spec.hh"
using namespace spec;

static waypoint_t wp(const std::string& n, int r, int c) {
  waypoint_t w;
  w.first = MatrixXX::Zero(r, c);
  w.second = VectorX::Zero(r);
  for (int i = 0; i < r; ++i) {
    for (int j = 0; j < c; ++j) w.first(i, j) = engine::var(n + "M" + S(i) + "_" + S(j));
    w.second(i) = engine::var(n + "v" + S(i));
  }
  return w;
}
CONTRACT("C22/affine-arithmetic", "operator+ operator- operator* initwp waypoint_t::Zero waypoint_t::size", "") {
  static const int SZ[4][2] = {{3, 3}, {6, 3}, {3, 9}, {3, 15}};
  int s = engine::choice("size", 4), r = SZ[s][0], c = SZ[s][1];
  waypoint_t a = wp("a", r, c), b = wp("b", r, c);
  double k = engine::var("k");
  waypoint_t z = initwp(r, c);
  struct {
    const char* n;
    waypoint_t w;
    double ka, kb;
  } T[] = {{"sum", a + b, 1, 1}, {"difference", a - b, 1, -1}, {"scaled", k * a, k, 0}, {"scaled-right", a * k, k, 0}, {"zero", z, 0, 0}};
  for (int q = 0; q < 5; ++q) {
    std::string n = std::string("C22/affine-arithmetic/") + T[q].n;
    bool ok = T[q].w.first.rows() == r && T[q].w.first.cols() == c && T[q].w.second.size() == r && (int)T[q].w.size() == r;
    ensure_true(n + "/shape", ok);
    if (!ok) continue;
    for (int i = 0; i < r; ++i) {
      for (int j = 0; j < c; ++j) ensure_eq(n, T[q].w.first(i, j), T[q].ka * a.first(i, j) + T[q].kb * b.first(i, j));
      ensure_eq(n, T[q].w.second(i), T[q].ka * a.second(i) + T[q].kb * b.second(i));
    }
  }
  ensure_true("C22/affine-arithmetic/equality-reflexive", a == a && !(a != a));
}
CONTRACT("C22/size-mismatch-refused", "operator+ operator-", "") {
  static const int SZ[3][2] = {{3, 3}, {6, 3}, {3, 9}};
  int s = engine::choice("left", 3), t = engine::choice("right", 3), op = engine::choice("operation", 2);
  if (s == t) return;
  waypoint_t a = wp("a", SZ[s][0], SZ[s][1]), b = wp("b", SZ[t][0], SZ[t][1]);
  bool thrown = false;
  try {
    if (op)
      a + b;
    else
      a - b;
  } catch (engine::PathCut&) {
    throw;
  } catch (std::runtime_error&) {
    thrown = true;
  }
  ensure_true("C22/size-mismatch-refused", thrown);
}
CONTRACT("C22/cross-product", "skew", "") {
  point_t a = v3("a"), b = v3("b");
  Matrix3 m = skew(a);
  point_t c = m * b;
  for (int i = 0; i < 3; ++i) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    ensure_eq("C22/cross-product", c(i), a(j) * b(k) - a(k) * b(j));
  }
}
CONTRACT("C22/bernstein", "ComputeBersteinPolynoms", "degree <= 14") {
  int n = engine::choice("degree", 15);
  std::vector<ndcurves::Bern<double> > b = ComputeBersteinPolynoms(n);
  ensure_true("C22/bernstein/count", (int)b.size() == n + 1);
  double u = engine::var("u", 0, 1);
  for (int i = 0; i <= n && i < (int)b.size(); ++i) ensure_eq("C22/bernstein/value", b[i](u), bern(n, i, u));
}
template <class W>
static void zeroed(const std::string& n, int rows, int cols) {
  W w = initwp<W>();
  ensure_true(n + "/shape", w.first.rows() == rows && w.first.cols() == cols && w.second.size() == rows);
  for (int i = 0; i < w.first.rows(); ++i) {
    for (int j = 0; j < w.first.cols(); ++j) ensure_eq(n, w.first(i, j), 0);
    ensure_eq(n, w.second(i), 0);
  }
}
CONTRACT("C22/zero-expressions", "initwp<waypoint3_t> initwp<waypoint6_t> initwp<waypoint9_t>", "") {
  zeroed<waypoint3_t>("C22/zero-expressions/3", 3, 3);
  zeroed<waypoint6_t>("C22/zero-expressions/6", 6, 3);
  zeroed<waypoint9_t>("C22/zero-expressions/9", 3, 9);
}
// sampling a degree 4 curve of six-dimensional affine expressions
CONTRACT("C22/sampled-expressions", "ComputeDiscretizedWaypoints", "<= 6 intervals") {
  int steps = 1 + engine::choice("intervals", 6);
  std::vector<waypoint6_t> w;
  for (int k = 0; k < 5; ++k) {
    waypoint6_t p;
    for (int i = 0; i < 6; ++i) {
      for (int j = 0; j < 3; ++j) p.first(i, j) = engine::var("M" + S(k) + S(i) + S(j));
      p.second(i) = engine::var("v" + S(k) + S(i));
    }
    w.push_back(p);
  }
  std::vector<waypoint6_t> r = ComputeDiscretizedWaypoints(w, ComputeBersteinPolynoms(4), steps);
  ensure_true("C22/sampled-expressions/count", (int)r.size() == steps + 1);
  for (int q = 0; q <= steps && q < (int)r.size(); ++q)
    for (int i = 0; i < 6; ++i) {
      double v = 0;
      for (int k = 0; k < 5; ++k) v = v + bern(4, k, double(q) / double(steps)) * w[k].second(i);
      ensure_eq("C22/sampled-expressions/value", r[q].second(i), v);
      for (int j = 0; j < 3; ++j) {
        double m = 0;
        for (int k = 0; k < 5; ++k) m = m + bern(4, k, double(q) / double(steps)) * w[k].first(i, j);
        ensure_eq("C22/sampled-expressions/value", r[q].first(i, j), m);
      }
    }
}
// position and acceleration of the symbolic centre-of-mass curve at a list of
// instants; an instant past the end is the end
CONTRACT("C22/sampled-curve", "computeDiscretizedWaypoints computeDiscretizedAccelerationWaypoints", "<= 4 instants") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int acc = engine::choice("derivative", 2);
  ProblemData p;
  fillBoundary(p, f);
  double T = engine::posvar("T"), u = engine::var("u", 0, 1), late = engine::posvar("late");
  T_time t;
  t.push_back(std::make_pair(double(0), 0));
  t.push_back(std::make_pair(u * T, 0));
  t.push_back(std::make_pair(T, 0));
  t.push_back(std::make_pair(T + late, 0));
  std::vector<coefs_t> w = acc ? computeDiscretizedAccelerationWaypoints<point_t>(p, T, t) : computeDiscretizedWaypoints<point_t>(p, T, t);
  std::string n = std::string("C22/sampled-curve/") + (acc ? "acceleration/" : "position/") + f.name;
  ensure_true(n + "/count", w.size() == 4);
  if (w.size() != 4) return;
  Curve c = deriv(controlPoints(p, f, T), T, acc ? 2 : 0);
  for (int k = 0; k < 4; ++k) {
    Aff e = eval(c, k == 0 ? double(0) : k == 1 ? u : double(1));
    ensure_eq(n, w[k].first, e.c[0], 1e-8);
    eqv(n, w[k].second, e.s, 1e-8);
  }
}
// the curve built from control points and the free point
CONTRACT("C22/built-curve", "computeBezierCurve", "") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  std::vector<point_t> pi;
  int n = f.degree();
  for (int i = 0; i <= n; ++i) pi.push_back(v3("p" + S(i)));
  point_t x = v3("x");
  double T = engine::posvar("T");
  bezier_t b = computeBezierCurve<bezier_t, point_t>((ConstraintFlag)f.flag, T, pi, x);
  std::string nm = std::string("C22/built-curve/") + f.name;
  ensure_eq(nm + "/domain", b.min(), 0);
  ensure_eq(nm + "/domain", b.max(), T);
  ensure_true(nm + "/degree", (int)b.waypoints().size() == n + 1);
  double u = engine::var("u", 0, 1);
  point_t v = point_t::Zero();
  for (int i = 0; i <= n; ++i) v = v + bern(n, i, u) * (i >= f.nInit && i < f.nInit + f.nFree ? x : pi[i]);
  eqv(nm + "/value", b(u * T), v);
}
