// C25: the Python interface. Boost.Python and eigenpy are assumed to forward
// converted arguments and results (engine/pystub); everything the module
// itself does is executed from /repo/python.
#include "pyspec.hh"
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
using namespace spec;
namespace pystub {
Module& module() {
  static Module m;
  return m;
}
}  // namespace pystub
static PyObject EXC[6] = {{"RuntimeError"}, {"ValueError"}, {"TypeError"}, {"AttributeError"}, {"IndexError"}, {"Exception"}};
PyObject *PyExc_RuntimeError = &EXC[0], *PyExc_ValueError = &EXC[1], *PyExc_TypeError = &EXC[2],
         *PyExc_AttributeError = &EXC[3], *PyExc_IndexError = &EXC[4], *PyExc_Exception = &EXC[5];
void PyErr_SetString(PyObject* e, const char*) { pystub::module().raised = e->name; }

// run f; true when it raised what Python sees as an exception
template <class F>
static bool raises(F f, std::string* what = 0) {
  try {
    f();
  } catch (engine::PathCut&) {
    throw;
  } catch (py::Raised& e) {
    if (what) *what = e.what();
    return true;
  }
  return false;
}
template <class F>
static void guarded(const std::string& n, F f) {
  try {
    f();
  } catch (engine::PathCut&) {
    throw;
  } catch (py::TypeError& e) {
    ensure_true(n + "/callable", false, e.what());
  } catch (py::Raised& e) {
    ensure_true(n + "/no-exception", false, e.what());
  }
}
static void eqm(const std::string& n, const MatrixXX& a, const MatrixXX& b) {
  bool ok = a.rows() == b.rows() && a.cols() == b.cols();
  ensure_true(n, ok, "sizes differ");
  for (long i = 0; i < a.rows() && ok; ++i)
    for (long j = 0; j < a.cols(); ++j) ensure_eq(n, a(i, j), b(i, j));
}
static void eqnum(const std::string& n, const py::Value& v, const double& x) {
  ensure_true(n, v.kind == py::Value::NUM, "not a number");
  if (v.kind == py::Value::NUM) ensure_eq(n, v.num, x);
}
static void eqmat(const std::string& n, const py::Value& v, const MatrixXX& m) {
  ensure_true(n, v.kind == py::Value::MAT, "not an array");
  if (v.kind == py::Value::MAT) eqm(n, v.m, m);
}
static void eqbool(const std::string& n, const py::Value& v, bool b) {
  ensure_true(n, v.kind == py::Value::BOOL && (v.i != 0) == b);
}
static void eqcurve(const std::string& n, const bezier_t& a, const bezier_t& b) {
  ensure_eq(n, a.min(), b.min());
  ensure_eq(n, a.max(), b.max());
  bool ok = a.waypoints().size() == b.waypoints().size();
  ensure_true(n, ok, "degrees differ");
  for (size_t i = 0; i < a.waypoints().size() && ok; ++i) eqm(n, a.waypoints()[i], b.waypoints()[i]);
  if (a.waypoints().size() && ok) {
    double u = engine::var("u", 0, 1);
    eqm(n, a(a.min() + u * (a.max() - a.min())), b(b.min() + u * (b.max() - b.min())));
  }
}
static void eqproblem(const std::string& n, const stub::Problem& a, const stub::Problem& b) {
  eqm(n + "/A", a.A, b.A);
  eqm(n + "/b", a.b, b.b);
  eqm(n + "/D", a.D, b.D);
  eqm(n + "/d", a.d, b.d);
  eqm(n + "/H", a.H, b.H);
  eqm(n + "/g", a.g, b.g);
  eqm(n + "/lower", a.minB, b.minB);
  eqm(n + "/upper", a.maxB, b.maxB);
  ensure_true(n + "/solver", a.solver == b.solver);
}
// a result of the interface against the result of the C++ call
static void eqresult(const std::string& n, const py::Value& r, const ResultDataCOMTraj& e) {
  guarded(n, [&]() {
    ensure_true(n + "/owned-by-python", (bool)r.owner);
    py::as<ResultDataCOMTraj>(r);
    eqbool(n + "/success", py::get(r, "success"), e.success_);
    eqnum(n + "/cost", py::get(r, "cost"), e.cost_);
    if (e.x.size() > 0)
      eqmat(n + "/x", py::get(r, "x"), e.x);
    else {
      std::string w;
      ensure_true(n + "/x-undefined", raises([&]() { py::get(r, "x"); }, &w) && w == "RuntimeError");
    }
    py::Value c = py::get(r, "c_of_t"), d = py::get(r, "dL_of_t");
    ensure_true(n + "/curves-owned", (bool)c.owner && (bool)d.owner);
    eqcurve(n + "/c_of_t", py::as<bezier_t>(c), e.c_of_t_);
    eqcurve(n + "/dL_of_t", py::as<bezier_t>(d), e.dL_of_t_);
  });
}
// the problems recorded since `from`: the first half by Python, the second by C++
static void sameProblems(const std::string& n) {
  size_t k = stub::problems.size();
  ensure_true(n + "/one-problem-each", k == 2);
  if (k == 2) eqproblem(n, stub::problems[0], stub::problems[1]);
}

// ------------------------------------------------------------- accessors
static const char* POINTS[6] = {"c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"};
static point_t* pointOf(ProblemData& p, int i) {
  point_t* q[6] = {&p.c0_, &p.dc0_, &p.ddc0_, &p.c1_, &p.dc1_, &p.ddc1_};
  return q[i];
}
// a problem whose every field is distinct
static void fillAll(ProblemData& p) {
  p.c0_ = v3("c0");
  p.dc0_ = v3("dc0");
  p.ddc0_ = v3("ddc0");
  p.j0_ = v3("j0");
  p.c1_ = v3("c1");
  p.dc1_ = v3("dc1");
  p.ddc1_ = v3("ddc1");
  p.j1_ = v3("j1");
  p.l0_ = v3("l0");
  p.useAngularMomentum_ = true;
  p.costFunction_ = TARGET_END_VELOCITY;
  p.representation_ = FORCE;
  p.constraints_.flag_ = INIT_POS | END_JERK;
  p.constraints_.constraintAcceleration_ = true;
  p.constraints_.maxAcceleration_ = engine::var("amax");
  p.constraints_.reduce_h_ = engine::var("margin");
}
static void sameFields(const std::string& n, const ProblemData& a, const ProblemData& b) {
  eqv(n, a.c0_, b.c0_);
  eqv(n, a.dc0_, b.dc0_);
  eqv(n, a.ddc0_, b.ddc0_);
  eqv(n, a.j0_, b.j0_);
  eqv(n, a.c1_, b.c1_);
  eqv(n, a.dc1_, b.dc1_);
  eqv(n, a.ddc1_, b.ddc1_);
  eqv(n, a.j1_, b.j1_);
  eqv(n, a.l0_, b.l0_);
  ensure_true(n, a.useAngularMomentum_ == b.useAngularMomentum_ && a.costFunction_ == b.costFunction_ &&
                     a.representation_ == b.representation_ && a.constraints_.flag_ == b.constraints_.flag_ &&
                     a.constraints_.constraintAcceleration_ == b.constraints_.constraintAcceleration_ &&
                     a.contacts_.size() == b.contacts_.size());
  ensure_eq(n, a.constraints_.maxAcceleration_, b.constraints_.maxAcceleration_);
  ensure_eq(n, a.constraints_.reduce_h_, b.constraints_.reduce_h_);
}
CONTRACT("C25/problem-data-points", "get_c0_ set_c0_ get_dc0_ set_dc0_ get_ddc0_ set_ddc0_ get_c1_ set_c1_ get_dc1_ set_dc1_ get_ddc1_ set_ddc1_", "") {
  stub::reset();
  int i = engine::choice("attribute", 6);
  std::string n = std::string("C25/ProblemData.") + POINTS[i];
  guarded(n, [&]() {
    py::Value o = py::construct("ProblemData");
    ProblemData& p = py::as<ProblemData>(o);
    fillAll(p);
    ProblemData e = p;
    eqmat(n + "/read", py::get(o, POINTS[i]), *pointOf(e, i));
    point_t v = v3("new");
    py::set(o, POINTS[i], py::mat(v));
    *pointOf(e, i) = v;
    eqmat(n + "/read-back", py::get(o, POINTS[i]), v);
    sameFields(n + "/frame", p, e);
  });
}
CONTRACT("C25/problem-data-options", "get_useAngularMomentum_ set_useAngularMomentum_ get_costFunction_ set_costFunction_ get_GIWC_representation_ set_GIWC_representation_ get_constraints_ set_constraints_", "") {
  stub::reset();
  int i = engine::choice("attribute", 4);
  std::string n = "C25/ProblemData.options";
  guarded(n, [&]() {
    py::Value o = py::construct("ProblemData");
    ProblemData& p = py::as<ProblemData>(o);
    sameFields(n + "/defaults", p, ProblemData());
    fillAll(p);
    ProblemData e = p;
    if (i == 0) {
      bool b = engine::choice("value", 2);
      py::set(o, "useAngularMomentum_", py::fromBool(b));
      eqbool(n + "/useAngularMomentum_", py::get(o, "useAngularMomentum_"), b);
      e.useAngularMomentum_ = b;
    } else if (i == 1) {
      static const CostFunction C[4] = {ACCELERATION, DISTANCE_TRAVELED, TARGET_END_VELOCITY, UNKNOWN_COST};
      CostFunction c = C[engine::choice("value", 4)];
      py::set(o, "costFunction_", py::fromEnum(c));
      py::Value v = py::get(o, "costFunction_");
      ensure_true(n + "/costFunction_", v.kind == py::Value::ENUM && v.i == (long)c);
      e.costFunction_ = c;
    } else if (i == 2) {
      static const GIWCRepresentation C[3] = {DOUBLE_DESCRIPTION, FORCE, UNKNOWN_REPRESENTATION};
      GIWCRepresentation c = C[engine::choice("value", 3)];
      py::set(o, "GIWCrepresentation_", py::fromEnum(c));
      py::Value v = py::get(o, "GIWCrepresentation_");
      ensure_true(n + "/GIWCrepresentation_", v.kind == py::Value::ENUM && v.i == (long)c);
      e.representation_ = c;
    } else {
      // constraints_ names the problem's own constraints
      py::Value c = py::get(o, "constraints_");
      ensure_true(n + "/constraints_", c.ptr == (void*)&p.constraints_ && !c.owner);
      py::Value k = py::construct("Constraints");
      Constraints& q = py::as<Constraints>(k);
      q.flag_ = INIT_POS | INIT_VEL | INIT_ACC | END_POS;
      q.constraintAcceleration_ = false;
      q.maxAcceleration_ = engine::var("amax2");
      q.reduce_h_ = engine::var("margin2");
      py::set(o, "constraints_", k);
      e.constraints_ = q;
    }
    sameFields(n + "/frame", p, e);
  });
}
CONTRACT("C25/constraints", "get_Flag set_Flag get_ConstrainAcc set_ConstrainAcc get_MaxAcc set_MaxAcc get_ReduceH set_ReduceH", "") {
  std::string n = "C25/Constraints";
  int i = engine::choice("attribute", 4);
  bool viaProblem = engine::choice("through-problem", 2);
  guarded(n, [&]() {
    py::Value o = py::construct("ProblemData");
    py::Value c = viaProblem ? py::get(o, "constraints_") : py::construct("Constraints");
    Constraints& k = py::as<Constraints>(c);
    Constraints e;
    ensure_eq(n + "/default-maxAcceleration_", k.maxAcceleration_, e.maxAcceleration_);
    ensure_eq(n + "/default-reduce_h_", k.reduce_h_, e.reduce_h_);
    k.maxAcceleration_ = engine::var("amax");
    k.reduce_h_ = engine::var("margin");
    e = k;
    ensure_true(n + "/read-flag_", py::get(c, "flag_").i == (long)(int)e.flag_);
    eqbool(n + "/read-constrainAcceleration_", py::get(c, "constrainAcceleration_"), e.constraintAcceleration_);
    eqnum(n + "/read-maxAcceleration_", py::get(c, "maxAcceleration_"), e.maxAcceleration_);
    eqnum(n + "/read-reduce_h_", py::get(c, "reduce_h_"), e.reduce_h_);
    if (i == 0) {
      static const int F[4] = {INIT_POS | INIT_VEL | INIT_ACC | END_POS, UNKNOWN, INIT_POS, END_JERK | INIT_JERK | FIVE_FREE_VAR};
      int f = F[engine::choice("value", 4)];
      py::set(c, "flag_", py::fromInt(f));
      py::Value v = py::get(c, "flag_");
      ensure_true(n + "/flag_", v.i == f && (int)k.flag_ == f);
      e.flag_ = (ConstraintFlag)f;
    } else if (i == 1) {
      bool b = engine::choice("value", 2);
      py::set(c, "constrainAcceleration_", py::fromBool(b));
      eqbool(n + "/constrainAcceleration_", py::get(c, "constrainAcceleration_"), b);
      e.constraintAcceleration_ = b;
    } else {
      double v = engine::var("value");
      const char* a = i == 2 ? "maxAcceleration_" : "reduce_h_";
      py::set(c, a, py::num(v));
      eqnum(n + "/" + a, py::get(c, a), v);
      (i == 2 ? e.maxAcceleration_ : e.reduce_h_) = v;
    }
    ensure_true(n + "/frame", k.flag_ == e.flag_ && k.constraintAcceleration_ == e.constraintAcceleration_);
    ensure_eq(n + "/frame", k.maxAcceleration_, e.maxAcceleration_);
    ensure_eq(n + "/frame", k.reduce_h_, e.reduce_h_);
  });
}
static MatrixX3 sym3(const std::string& s, int n) {
  MatrixX3 m(n, 3);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 3; ++j) m(i, j) = engine::var(s + S(i) + S(j));
  return m;
}
static VectorX symv(const std::string& s, int n) {
  VectorX m(n);
  for (int i = 0; i < n; ++i) m(i) = engine::var(s + S(i));
  return m;
}
CONTRACT("C25/contact-data", "getContactPhase_ setContactPhase_ get_Kin get_Ang set_Kin set_Ang translateContactData", "<= 3 rows") {
  stub::reset();
  stub::gravity = v3("g");
  int which = engine::choice("rows-of", 2), na = engine::choice("matrix-rows", 4), nb = engine::choice("vector-rows", 4);
  int other = engine::choice("rows-of-the-other-kind", 3);
  const char* A = which ? "Ang_" : "Kin_";
  const char* SET = which ? "setAngularConstraints" : "setKinematicConstraints";
  std::string n = std::string("C25/ContactData.") + A;
  guarded(n, [&]() {
    centroidal_dynamics::Equilibrium* eq = stub::phase("ph", 1, 1);
    py::Value o = py::construct("ContactData", py::Args(1, py::fromRef(eq)));
    ContactData& c = py::as<ContactData>(o);
    py::Value e = py::get(o, "contactPhase_");
    ensure_true(n + "/phase-of-constructor", c.contactPhase_ == eq && e.ptr == (void*)eq && !e.owner);
    centroidal_dynamics::Equilibrium* eq2 = stub::phase("qh", 2, 2);
    py::set(o, "contactPhase_", py::fromRef(eq2));
    ensure_true(n + "/phase-set", c.contactPhase_ == eq2 && py::get(o, "contactPhase_").ptr == (void*)eq2);
    std::string w;
    c.contactPhase_ = 0;
    ensure_true(n + "/phase-missing", raises([&]() { py::get(o, "contactPhase_"); }, &w) && w == "RuntimeError");
    ensure_true(n + "/none-at-first", raises([&]() { py::get(o, A); }, &w) && w == "RuntimeError");
    // the other kind of rows
    MatrixX3 K = sym3("K", other);
    VectorX k = symv("k", other);
    (which ? c.Kin_ : c.Ang_) = K;
    (which ? c.kin_ : c.ang_) = k;
    ensure_true(n + "/none-of-this-kind", raises([&]() { py::get(o, A); }, &w) && w == "RuntimeError");
    MatrixX3 M = sym3("M", na);
    VectorX m = symv("m", nb);
    py::Args a;
    a.push_back(py::mat(M));
    a.push_back(py::mat(m));
    bool r = raises([&]() { py::method(o, SET, a); }, &w);
    ensure_true(n + "/size-mismatch-refused", r == (na != nb) && (!r || w == "RuntimeError"));
    if (na == nb) {
      eqm(n + "/stored", which ? c.Ang_ : c.Kin_, M);
      eqm(n + "/stored", which ? c.ang_ : c.kin_, m);
      if (na > 0) {
        py::Value t = py::get(o, A);
        ensure_true(n + "/pair", t.kind == py::Value::TUPLE && t.items.size() == 2);
        if (t.items.size() == 2) {
          eqmat(n + "/read", t.items[0], M);
          eqmat(n + "/read", t.items[1], m);
        }
      }
    } else {
      ensure_true(n + "/unchanged-when-refused", (which ? c.ang_ : c.kin_).size() == 0);
    }
    eqm(n + "/frame", which ? c.Kin_ : c.Ang_, K);
    eqm(n + "/frame", which ? c.kin_ : c.ang_, k);
  });
}
CONTRACT("C25/contacts", "addContact clearContacts", "<= 3 contacts") {
  stub::reset();
  stub::gravity = v3("g");
  int k = engine::choice("contacts", 4);
  std::string n = "C25/ProblemData.contacts";
  guarded(n, [&]() {
    py::Value o = py::construct("ProblemData");
    ProblemData& p = py::as<ProblemData>(o);
    fillAll(p);
    for (int i = 0; i < k; ++i) {
      centroidal_dynamics::Equilibrium* eq = stub::phase("ph" + S(i), 1, 1);
      py::Value c = py::construct("ContactData", py::Args(1, py::fromRef(eq)));
      py::Args a;
      a.push_back(py::mat(sym3("M" + S(i) + "_", i + 1)));
      a.push_back(py::mat(symv("m" + S(i) + "_", i + 1)));
      py::method(c, "setKinematicConstraints", a);
      py::method(o, "addContact", py::Args(1, c));
      // the problem keeps its own copy
      a[0] = py::mat(MatrixX3::Zero(1, 3));
      a[1] = py::mat(VectorX::Zero(1));
      py::method(c, "setKinematicConstraints", a);
    }
    ensure_true(n + "/count", (int)p.contacts_.size() == k);
    for (int i = 0; i < k && i < (int)p.contacts_.size(); ++i) {
      eqm(n + "/copy", p.contacts_[i].Kin_, sym3("M" + S(i) + "_", i + 1));
      eqm(n + "/copy", p.contacts_[i].kin_, symv("m" + S(i) + "_", i + 1));
      ensure_true(n + "/phase-kept", p.contacts_[i].contactPhase_ != 0);
      if (p.contacts_[i].contactPhase_)
        ensure_eq(n + "/phase-kept", p.contacts_[i].contactPhase_->m_mass, engine::posvar("ph" + S(i) + "mass"));
    }
    ProblemData e = p;
    py::method(o, "clearContacts");
    e.contacts_.clear();
    ensure_true(n + "/cleared", p.contacts_.empty());
    sameFields(n + "/frame", p, e);
  });
}
CONTRACT("C25/enumerations", "init_module_hpp_bezier_com_traj", "") {
  static const struct {
    const char *e, *n;
    long v;
  } E[] = {{"CostFunction", "ACCELERATION", ACCELERATION},
           {"CostFunction", "DISTANCE_TRAVELED", DISTANCE_TRAVELED},
           {"CostFunction", "TARGET_END_VELOCITY", TARGET_END_VELOCITY},
           {"CostFunction", "UNKNOWN_COST", UNKNOWN_COST},
           {"GIWCRepresentation", "DOUBLE_DESCRIPTION", DOUBLE_DESCRIPTION},
           {"GIWCRepresentation", "FORCE", FORCE},
           {"GIWCRepresentation", "UNKNOWN_REPRESENTATION", UNKNOWN_REPRESENTATION},
           {"SolverType", "SOLVER_QUADPROG", solvers::SOLVER_QUADPROG},
           {"SolverType", "SOLVER_GLPK", solvers::SOLVER_GLPK},
           {"ConstraintFlag", "INIT_POS", INIT_POS},
           {"ConstraintFlag", "INIT_VEL", INIT_VEL},
           {"ConstraintFlag", "INIT_ACC", INIT_ACC},
           {"ConstraintFlag", "INIT_JERK", INIT_JERK},
           {"ConstraintFlag", "END_POS", END_POS},
           {"ConstraintFlag", "END_VEL", END_VEL},
           {"ConstraintFlag", "END_ACC", END_ACC},
           {"ConstraintFlag", "END_JERK", END_JERK},
           {"ConstraintFlag", "ONE_FREE_VAR", ONE_FREE_VAR},
           {"ConstraintFlag", "TWO_FREE_VAR", TWO_FREE_VAR},
           {"ConstraintFlag", "THREE_FREE_VAR", THREE_FREE_VAR},
           {"ConstraintFlag", "FOUR_FREE_VAR", FOUR_FREE_VAR},
           {"ConstraintFlag", "FIVE_FREE_VAR", FIVE_FREE_VAR},
           {"ConstraintFlag", "UNKNOWN", UNKNOWN}};
  for (size_t i = 0; i < sizeof(E) / sizeof(E[0]); ++i) {
    std::string n = std::string("C25/") + E[i].e + "." + E[i].n;
    guarded(n, [&]() { ensure_true(n, py::enumerator(E[i].e, E[i].n).i == E[i].v); });
  }
}
CONTRACT("C25/plain-results", "get_xD get_costD get_succD translate", "<= 4 variables") {
  std::string n = "C25/ResultData";
  int k = engine::choice("variables", 5);
  bool ok = engine::choice("success", 2);
  guarded(n, [&]() {
    py::Value o = py::construct("ResultData");
    ResultData& r = py::as<ResultData>(o);
    r.success_ = ok;
    r.cost_ = engine::var("cost");
    r.x = symv("x", k);
    eqbool(n + "/success", py::get(o, "success"), ok);
    eqnum(n + "/cost", py::get(o, "cost"), engine::var("cost"));
    std::string w;
    if (k)
      eqmat(n + "/x", py::get(o, "x"), symv("x", k));
    else
      ensure_true(n + "/x-undefined", raises([&]() { py::get(o, "x"); }, &w) && w == "RuntimeError");
    py::Value c = py::construct("ResultDataCOMTraj");
    eqresult("C25/ResultDataCOMTraj/default", c, ResultDataCOMTraj());
  });
}
// ------------------------------------------------------------- functions
CONTRACT("C25/zero-step", "zeroStepCapturability zeroStepCapturabilityWithKinConstraints", "<= 2 kinematic rows, <= 4 time steps") {
  bool ang = engine::choice("angular", 2), solved = engine::choice("solved", 2), np = engine::choice("enabled", 2);
  int nk = engine::choice("kinematic", 3), steps = engine::choice("steps", 3);
  stub::reset();
  stub::gravity = v3("g");
  stub::succeed = solved;
  std::string n = std::string("C25/zeroStepCapturability") + (nk ? "/with-kinematics" : "");
  centroidal_dynamics::Equilibrium* eq = stub::phase("ph", 2, 1);
  double T = engine::posvar("T"), dt = steps == 0 ? double(-1) : T * double(steps == 1 ? 0.5 : 0.25);
  MatrixX3 K = sym3("K", nk);
  VectorX k = symv("k", nk);
  (void)np;
  guarded(n, [&]() {
    py::Args a;
    a.push_back(py::fromRef(eq));
    a.push_back(py::mat(v3("com")));
    a.push_back(py::mat(v3("dcom")));
    a.push_back(py::mat(v3("l0")));
    a.push_back(py::fromBool(ang));
    a.push_back(py::num(T));
    a.push_back(py::num(dt));
    if (nk) {
      a.push_back(py::mat(K));
      a.push_back(py::mat(k));
    }
    py::Value r = py::call("zeroStepCapturability", a);
    ProblemData p;
    p.c0_ = v3("com");
    p.dc0_ = v3("dcom");
    p.l0_ = v3("l0");
    p.useAngularMomentum_ = ang;
    ContactData c(eq);
    if (nk) {
      c.Kin_ = K;
      c.kin_ = k;
    }
    p.contacts_.push_back(c);
    ResultDataCOMTraj e = solve0step(p, std::vector<double>(1, T), dt);
    sameProblems(n);
    eqresult(n, r, e);
  });
}
CONTRACT("C25/computeCOMTraj", "computeCOMTrajPointer computeCOMTrajPointerChooseSolver", "<= 2 contact phases") {
  const Family& f = FAMILIES[engine::choice("family", N_COM)];
  int mode = engine::choice("mode", 3), phases = 1 + engine::choice("phases", 2), solver = engine::choice("solver", 3);
  bool solved = engine::choice("solved", 2);
  Scenario s;
  stub::reset();
  stub::succeed = solved;
  stub::gravity = v3("g");
  s.f = &f;
  fillBoundary(s.p, f);
  durations(s, phases, false);
  for (int i = 0; i < phases; ++i) {
    if (mode) engine::assume_lt(0.015625, s.Ts[i]);
    addPhase(s, 1, 1, 1);
  }
  s.p.costFunction_ = DISTANCE_TRAVELED;
  s.p.representation_ = mode == 2 ? FORCE : DOUBLE_DESCRIPTION;
  engine::setGenericEquality(true);
  double dt = mode == 0 ? s.T * double(0.125) : double(-1);
  std::string n = "C25/computeCOMTraj";
  guarded(n, [&]() {
    py::Args a;
    a.push_back(py::fromRef(&s.p));
    a.push_back(py::mat(s.ts()));
    a.push_back(py::num(dt));
    if (solver) a.push_back(py::fromEnum(solver == 1 ? solvers::SOLVER_QUADPROG : solvers::SOLVER_GLPK));
    py::Value r = py::call("computeCOMTraj", a);
    ResultDataCOMTraj e = solver == 0 ? computeCOMTraj(s.p, s.ts(), dt)
                                      : computeCOMTraj(s.p, s.ts(), dt, solver == 1 ? solvers::SOLVER_QUADPROG : solvers::SOLVER_GLPK);
    sameProblems(n);
    eqresult(n, r, e);
    // a refused request raises
    VectorX bad(phases + 1);
    for (int i = 0; i <= phases; ++i) bad(i) = s.T;
    a[1] = py::mat(bad);
    ensure_true(n + "/size-mismatch-raises", raises([&]() { py::call("computeCOMTraj", a); }));
  });
}
struct ZeroPath {
  point3_t operator()(double) const { return point3_t::Zero(); }
};
CONTRACT("C25/end-effector", "computeEndEffector computeEndEffectorConstraintsPython computeEndEffectorVelocityCostPython computeEndEffectorDistanceCostPython computeEndEffectorConstantWaypoints MatrixVector::A MatrixVector::b", "<= 4 path points") {
  int fi = engine::choice("family", 3), fn = engine::choice("function", 5);
  bool solved = engine::choice("solved", 2);
  const Family& f = FAMILIES[7 + fi];
  stub::reset();
  stub::succeed = solved;
  ProblemData p;
  fillBoundary(p, f);
  engine::setGenericEquality(true);
  double T = engine::posvar("T");
  engine::assume_lt(T, 1000);
  std::string n = "C25/";
  guarded("C25/end-effector", [&]() {
    py::Args a;
    a.push_back(py::fromRef(&p));
    a.push_back(py::num(T));
    std::vector<point_t> pi = computeConstantWaypoints(p, T);
    if (fn == 0) {
      py::Value r = py::call("computeEndEffector", a);
      ResultDataCOMTraj e = solveEndEffector<ZeroPath>(p, ZeroPath(), T, 0);
      sameProblems(n + "computeEndEffector");
      eqresult(n + "computeEndEffector", r, e);
    } else if (fn == 4) {
      py::Value r = py::call("computeEndEffectorConstantWaypoints", a);
      MatrixXX m(3, pi.size());
      for (size_t i = 0; i < pi.size(); ++i) m.col(i) = pi[i];
      eqmat(n + "computeEndEffectorConstantWaypoints", r, m);
    } else {
      std::pair<MatrixXX, VectorX> e;
      py::Value r;
      if (fn == 1) {
        n += "computeEndEffectorConstraints";
        r = py::call("computeEndEffectorConstraints", a);
        e = computeEndEffectorConstraints(p, T, pi);
      } else if (fn == 2) {
        n += "computeEndEffectorVelocityCost";
        r = py::call("computeEndEffectorVelocityCost", a);
        e = computeVelocityCost(p, T, pi);
      } else {
        n += "computeEndEffectorDistanceCost";
        int k = 3 + engine::choice("points", 2);
        MatrixXX P(3, k);
        std::vector<point3_t> pts;
        for (int i = 0; i < k; ++i) {
          P.col(i) = v3("path" + S(i));
          pts.push_back(v3("path" + S(i)));
        }
        a.push_back(py::fromInt(k));
        a.push_back(py::mat(P));
        r = py::call("computeEndEffectorDistanceCost", a);
        e = computeDistanceCostFunction(k, p, T, pts);
      }
      ensure_true(n + "/owned-by-python", (bool)r.owner);
      eqmat(n + "/A", py::get(r, "A"), e.first);
      eqmat(n + "/b", py::get(r, "b"), e.second);
    }
  });
}
