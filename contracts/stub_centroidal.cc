// Assumed contract of centroidal_dynamics::Equilibrium (external library).
#include "stubs.hh"
namespace stub {
std::map<std::string, Cone> cones;
std::map<std::string, centroidal_dynamics::Equilibrium*> objects;
point_t gravity;
}  // namespace stub
namespace centroidal_dynamics {
bool Equilibrium::m_is_cdd_initialized = false;
Equilibrium::Equilibrium(const std::string& name, const double mass, const unsigned int gen,
                         const SolverLP solver_type, bool, const unsigned int trials, const bool canon)
    : m_mass(mass),
      m_gravity(stub::gravity),
      m_name(name),
      m_algorithm(EQUILIBRIUM_ALGORITHM_PP),
      m_solver_type(solver_type),
      m_solver(0),
      m_generatorsPerContact(gen),
      m_is_cdd_stable(true),
      max_num_cdd_trials(trials),
      canonicalize_cdd_matrix(canon) {}
Equilibrium::Equilibrium(const Equilibrium& o)
    : m_mass(o.m_mass),
      m_gravity(o.m_gravity),
      m_G_centr(o.m_G_centr),
      m_name(o.m_name),
      m_algorithm(o.m_algorithm),
      m_solver_type(o.m_solver_type),
      m_solver(0),
      m_generatorsPerContact(o.m_generatorsPerContact),
      m_is_cdd_stable(true),
      max_num_cdd_trials(o.max_num_cdd_trials),
      canonicalize_cdd_matrix(o.canonicalize_cdd_matrix) {}
Equilibrium::~Equilibrium() {}
void Equilibrium::setAlgorithm(EquilibriumAlgorithm a) { m_algorithm = a; }
LP_status Equilibrium::getPolytopeInequalities(MatrixXX& H, VectorX& h) const {
  const stub::Cone& c = stub::cones[m_name];
  H = c.H;
  h = c.h;
  return LP_STATUS_OPTIMAL;
}
}  // namespace centroidal_dynamics
