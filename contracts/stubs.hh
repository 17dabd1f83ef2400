// Contracts of the external callees, as seen by the contracts of the callers.
#ifndef VERIF_STUBS_HH
#define VERIF_STUBS_HH
#include "spec.hh"
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>
namespace stub {
using namespace bezier_com_traj;
// Equilibrium: an arbitrary cone {w : H w <= h} of non null rows (h = 0 unless stated), an
// arbitrary generator matrix, arbitrary mass and gravity.
struct Cone {
  MatrixXX H;
  VectorX h;
};
extern std::map<std::string, Cone> cones;
extern std::map<std::string, centroidal_dynamics::Equilibrium*> objects;
extern point_t gravity;
// solvers::solve: records the problem it is given; returns success or failure
// as chosen by the contract with an arbitrary x.
struct Problem {
  MatrixXX A, D, H;
  VectorX b, d, g, x0, minB, maxB;
  int solver;
};
extern std::vector<Problem> problems;
extern bool succeed;
extern double cost;
void reset();
VectorX answer(long n);  // the arbitrary x: variables x0, x1, ...

// a contact phase with nH cone rows, nG generators
inline centroidal_dynamics::Equilibrium* phase(const std::string& name, int nH, int nG = 0) {
#ifdef VERIF_SYMBOLIC
  void* at = operator new(sizeof(centroidal_dynamics::Equilibrium));
#else  // the object of a name stays at its address: callers may be tempted to remember it
  static std::map<std::string, void*> place;
  void*& at = place[name];
  if (at) static_cast<centroidal_dynamics::Equilibrium*>(at)->~Equilibrium();
  else at = operator new(sizeof(centroidal_dynamics::Equilibrium));
#endif
  centroidal_dynamics::Equilibrium* e = new (at) centroidal_dynamics::Equilibrium(
      name, engine::posvar(name + "mass"), 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 0, false);
  Cone c;
  c.H = MatrixXX::Zero(nH, 6);
  c.h = VectorX::Zero(nH);
  for (int i = 0; i < nH; ++i)
    for (int j = 0; j < 6; ++j) c.H(i, j) = engine::var(name + "H" + spec::S(i) + spec::S(j));
  // the rows of a cone are not null (they are normalised by the callers)
  for (int i = 0; i < nH; ++i) engine::assume_positive(c.H.row(i).squaredNorm());
  cones[name] = c;
  centroidal_dynamics::Matrix6X G(6, nG);
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < nG; ++j) G(i, j) = engine::var(name + "G" + spec::S(i) + spec::S(j));
  e->m_G_centr = G;
  objects[name] = e;
  return e;
}
// the contacts of a problem hold the objects themselves, not the copies made on the way
inline void pin(ProblemData& p) {
  for (std::size_t i = 0; i < p.contacts_.size(); ++i)
    p.contacts_[i].contactPhase_ = objects["ph" + spec::S((long)i)];
}
}  // namespace stub
#endif
