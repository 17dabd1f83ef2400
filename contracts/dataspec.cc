// C23: contact descriptions and problem data.
#include "com_spec.hh"
using namespace spec;

static ContactData contact(bool phase, int nK, int nA) {
  ContactData cd;
  if (phase) cd.contactPhase_ = stub::phase("ph", 2, 2);
  cd.Kin_ = MatrixX3::Zero(nK, 3);
  cd.kin_ = VectorX::Zero(nK);
  cd.Ang_ = MatrixX3::Zero(nA, 3);
  cd.ang_ = VectorX::Zero(nA);
  for (int i = 0; i < nK; ++i) {
    for (int j = 0; j < 3; ++j) cd.Kin_(i, j) = engine::var("K" + S(i) + S(j));
    cd.kin_(i) = engine::var("k" + S(i));
  }
  for (int i = 0; i < nA; ++i) {
    for (int j = 0; j < 3; ++j) cd.Ang_(i, j) = engine::var("A" + S(i) + S(j));
    cd.ang_(i) = engine::var("a" + S(i));
  }
  return cd;
}
static void clobber(ContactData& c) {
  c.Kin_.setConstant(double(7));
  c.kin_.setConstant(double(7));
  c.Ang_.setConstant(double(7));
  c.ang_.setConstant(double(7));
  if (c.contactPhase_) {
    c.contactPhase_->m_G_centr.setConstant(double(7));
  }
}
static void holds(const std::string& n, const ContactData& c, bool phase, int nK, int nA) {
  ContactData e = contact(phase, nK, nA);
  bool ok = c.Kin_.rows() == nK && c.kin_.size() == nK && c.Ang_.rows() == nA && c.ang_.size() == nA;
  ensure_true(n + "/shape", ok);
  if (!ok) return;
  for (int i = 0; i < nK; ++i) {
    for (int j = 0; j < 3; ++j) ensure_eq(n + "/kinematic", c.Kin_(i, j), e.Kin_(i, j));
    ensure_eq(n + "/kinematic", c.kin_(i), e.kin_(i));
  }
  for (int i = 0; i < nA; ++i) {
    for (int j = 0; j < 3; ++j) ensure_eq(n + "/angular", c.Ang_(i, j), e.Ang_(i, j));
    ensure_eq(n + "/angular", c.ang_(i), e.ang_(i));
  }
  ensure_true(n + "/phase-attached", (c.contactPhase_ != 0) == phase);
  if (!phase || !c.contactPhase_) return;
  ensure_eq(n + "/mass", c.contactPhase_->m_mass, e.contactPhase_->m_mass);
  eqv(n + "/gravity", c.contactPhase_->m_gravity, e.contactPhase_->m_gravity);
  bool g = c.contactPhase_->m_G_centr.cols() == 2;
  ensure_true(n + "/generators", g);
  for (int i = 0; i < 6 && g; ++i)
    for (int j = 0; j < 2; ++j) ensure_eq(n + "/generators", c.contactPhase_->m_G_centr(i, j), e.contactPhase_->m_G_centr(i, j));
}
CONTRACT("C23/copy-independent", "ContactData::ContactData ContactData::~ContactData", "<= 2 kinematic and angular rows") {
  bool phase = engine::choice("phase", 2);
  int nK = engine::choice("kinematic", 3), nA = engine::choice("angular", 3), way = engine::choice("change", 4);
  stub::reset();
  stub::gravity = v3("g");
  ContactData* a = new ContactData(contact(phase, nK, nA));
  ContactData* b = new ContactData(*a);
  holds("C23/copy/same", *b, phase, nK, nA);
  holds("C23/copy/original-unchanged", *a, phase, nK, nA);
  ensure_true("C23/copy/own-phase", !phase || a->contactPhase_ != b->contactPhase_);
  if (way == 0) clobber(*a);
  if (way == 1) clobber(*b);
  if (way == 2) delete a;
  if (way == 3) delete b;
  holds(way % 2 ? "C23/copy/original-survives" : "C23/copy/copy-survives", way % 2 ? *a : *b, phase, nK, nA);
}
CONTRACT("C23/copies-in-containers", "ContactData::ContactData", "<= 3 contacts") {
  int n = 1 + engine::choice("count", 3);
  bool phase = engine::choice("phase", 2);
  stub::reset();
  stub::gravity = v3("g");
  ProblemData p;
  for (int i = 0; i < n; ++i) p.contacts_.push_back(contact(phase, 1, 1));  // reallocates
  ProblemData q(p);
  for (int i = 0; i < n; ++i) {
    holds("C23/container/stored", p.contacts_[i], phase, 1, 1);
    clobber(p.contacts_[i]);
  }
  p.contacts_.clear();
  ensure_true("C23/container/copied", (int)q.contacts_.size() == n);
  for (int i = 0; i < (int)q.contacts_.size(); ++i) holds("C23/container/copied", q.contacts_[i], phase, 1, 1);
}
static void defined3(const std::string& n, const point_t& p) {
  for (int i = 0; i < 3; ++i) ensure_eq(n, p(i), 0);
}
CONTRACT("C23/defaults", "ProblemData::ProblemData Constraints::Constraints ContactData::ContactData ResultData::ResultData ResultDataCOMTraj::ResultDataCOMTraj", "") {
  ProblemData* p = new ProblemData();
  std::string n = "C23/defaults";
  ensure_true(n + "/contacts", p->contacts_.empty());
  const point_t* v[9] = {&p->c0_, &p->dc0_, &p->ddc0_, &p->j0_, &p->c1_, &p->dc1_, &p->ddc1_, &p->j1_, &p->l0_};
  static const char* N[9] = {"c0", "dc0", "ddc0", "j0", "c1", "dc1", "ddc1", "j1", "l0"};
  for (int i = 0; i < 9; ++i) defined3(n + "/" + N[i], *v[i]);
  ensure_true(n + "/angular-momentum", p->useAngularMomentum_ == false);
  ensure_true(n + "/objective", p->costFunction_ == ACCELERATION);
  ensure_true(n + "/representation", p->representation_ == DOUBLE_DESCRIPTION);
  ensure_true(n + "/flag", p->constraints_.flag_ == (INIT_POS | INIT_VEL | END_VEL | END_POS));
  ensure_true(n + "/no-acceleration-constraint", !p->constraints_.constraintAcceleration_);
  ensure_lt(n + "/acceleration-bound-positive", 0, p->constraints_.maxAcceleration_);
  ensure_le(n + "/margin-not-negative", 0, p->constraints_.reduce_h_);
  Constraints c((ConstraintFlag)(INIT_POS | INIT_VEL));
  ensure_true(n + "/requested-flag", c.flag_ == (INIT_POS | INIT_VEL));
  ensure_true(n + "/requested-flag/no-acceleration-constraint", !c.constraintAcceleration_);
  ensure_eq(n + "/requested-flag/same-acceleration-bound", c.maxAcceleration_, p->constraints_.maxAcceleration_);
  ensure_eq(n + "/requested-flag/same-margin", c.reduce_h_, p->constraints_.reduce_h_);
  ContactData d;
  ensure_true(n + "/no-contact-phase", d.contactPhase_ == 0 && d.kin_.size() == 0 && d.ang_.size() == 0);
  centroidal_dynamics::Equilibrium* e = stub::phase("ph", 1);
  ContactData w(e);
  ensure_true(n + "/given-contact-phase", w.contactPhase_ == e && w.kin_.size() == 0 && w.ang_.size() == 0);
  solvers::ResultData r;
  ensure_true(n + "/result-not-a-success", !r.success_ && r.x.size() == 0);
  ensure_lt(n + "/result-cost-invalid", r.cost_, 0);
  ResultDataCOMTraj t;
  ensure_true(n + "/trajectory-not-a-success", !t.success_);
  defined3(n + "/final-velocity", t.dc1_);
  defined3(n + "/final-acceleration", t.ddc1_);
}
CONTRACT("C23/results-copy-by-value", "ResultData::ResultData ResultData::operator=", "") {
  VectorX x = VectorX::Zero(3);
  for (int i = 0; i < 3; ++i) x(i) = engine::var("x" + S(i));
  double c = engine::var("c");
  solvers::ResultData r(true, c, x), s(r), t;
  t = r;
  r.x.setConstant(double(7));
  r.cost_ = 7;
  r.success_ = false;
  const solvers::ResultData* k[2] = {&s, &t};
  for (int q = 0; q < 2; ++q) {
    ensure_true("C23/results/success", k[q]->success_);
    ensure_eq("C23/results/cost", k[q]->cost_, c);
    ensure_true("C23/results/size", k[q]->x.size() == 3);
    for (int i = 0; i < 3 && k[q]->x.size() == 3; ++i) ensure_eq("C23/results/point", k[q]->x(i), x(i));
  }
}
