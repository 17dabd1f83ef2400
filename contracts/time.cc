// C16: time sampling.
#include "spec.hh"
using namespace spec;

struct Phases {
  std::vector<double> Ts, S;
  VectorX v;
};
static Phases phases(int n) {
  Phases p;
  p.v = VectorX::Zero(n);
  p.S.push_back(0);
  for (int i = 0; i < n; ++i) {
    p.Ts.push_back(engine::posvar("T" + S(i)));
    p.v(i) = p.Ts[i];
    p.S.push_back(p.S[i] + p.Ts[i]);
  }
  return p;
}
static bool same(const double& a, const double& b) {
#ifdef VERIF_SYMBOLIC
  return engine::is_zero(a - b, 1e-12, 1);
#else
  return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a));
#endif
}
// clauses shared by the two samplings; returns the instants of each phase
static std::vector<std::vector<double> > clauses(const std::string& n, const Phases& p, const T_time& t) {
  int np = (int)p.Ts.size();
  std::vector<std::vector<double> > in(np);
  ensure_true(n + "/not-empty", !t.empty());
  if (t.empty()) return in;
  ensure_eq(n + "/starts-at-zero", t[0].first, 0);
  ensure_true(n + "/starts-in-first-phase", t[0].second == 0);
  ensure_eq(n + "/ends-with-the-motion", t.back().first, p.S.back());
  ensure_true(n + "/ends-in-last-phase", t.back().second == np - 1);
  for (size_t k = 0; k < t.size(); ++k) {
    bool ok = t[k].second >= 0 && t[k].second < np;
    ensure_true(n + "/phase-index-in-range", ok);
    if (!ok) return in;
    ensure_le(n + "/inside-its-phase", p.S[t[k].second], t[k].first);
    ensure_le(n + "/inside-its-phase", t[k].first, p.S[t[k].second + 1]);
    in[t[k].second].push_back(t[k].first);
    if (k == 0) continue;
    ensure_le(n + "/never-decreases", t[k - 1].first, t[k].first);
    ensure_true(n + "/phases-in-order", t[k].second == t[k - 1].second || t[k].second == t[k - 1].second + 1);
    if (t[k].second == t[k - 1].second) ensure_lt(n + "/increases-inside-a-phase", t[k - 1].first, t[k].first);
  }
  for (int i = 0; i < np; ++i) {
    ensure_true(n + "/every-phase-sampled", !in[i].empty());
    if (!in[i].empty()) ensure_eq(n + "/end-of-phase-sampled", in[i].back(), p.S[i + 1]);
  }
  return in;
}
static void fixedSampling(const std::string& n, const Phases& p, int pp) {
  const int np = (int)p.Ts.size();
  T_time t = computeDiscretizedTimeFixed(p.v, pp);
  std::vector<std::vector<double> > in = clauses(n, p, t);
  for (int i = 0; i < np; ++i) {
    // equal parts: the first phase also holds t = 0
    std::vector<double> u = in[i];
    if (i > 0) u.insert(u.begin(), p.S[i]);
    ensure_true(n + "/requested-number", (int)u.size() == pp + 1);
    for (size_t k = 1; k < u.size(); ++k) ensure_eq(n + "/equal-parts", u[k] - u[k - 1], p.Ts[i] / double(pp));
  }
}
CONTRACT("C16/fixed", "computeDiscretizedTimeFixed", "<= 4 phases, <= 8 points per phase") {
  int np = 1 + engine::choice("phases", 4), pp = 1 + engine::choice("points", 8);
  Phases p = phases(np);
  fixedSampling("C16/fixed", p, pp);
}
static void stepSampling(const std::string& n, const Phases& p, const double& dt) {
  const int np = (int)p.Ts.size();
  T_time t = computeDiscretizedTime(p.v, dt);
  std::vector<std::vector<double> > in = clauses(n, p, t);
  for (int i = 0; i < np; ++i) {
    std::vector<double> u = in[i];
    if (u.empty()) continue;
    if (!same(u[0], p.S[i])) u.insert(u.begin(), p.S[i]);
    for (size_t k = 1; k + 1 < u.size(); ++k) ensure_eq(n + "/spaced-by-the-step", u[k] - u[k - 1], dt);
    ensure_le(n + "/last-interval", u.back() - u[u.size() - 2], dt);
  }
}
CONTRACT("C16/time-step", "computeDiscretizedTime", "<= 3 phases of <= 4 steps each") {
  int np = 1 + engine::choice("phases", 3);
  Phases p = phases(np);
  double dt = engine::posvar("dt");
  for (int i = 0; i < np; ++i) {
    engine::assume_le(2 * dt, p.Ts[i]);
    engine::assume_lt(p.Ts[i], (np == 3 ? 3 : 4) * dt);
  }
  stepSampling("C16/time-step", p, dt);
}
// many phases of very different lengths, on fixed numbers
CONTRACT("C16/larger", "computeDiscretizedTimeFixed computeDiscretizedTime", "fixed numbers; 5 to 12 phases, <= 32 points per phase, <= 750 time steps") {
  int np = 5 + engine::choice("phases", 8), k = engine::choice("points", 6);
  engine::setConcrete(true);
  Phases p = phases(np);
  static const int PP[3] = {1, 9, 32};
  if (k < 3)
    fixedSampling("C16/larger/fixed", p, PP[k]);
  else
    stepSampling("C16/larger/time-step", p, k == 3 ? double(0.046875) : k == 4 ? double(0.1796875) : double(0.0625));
}
