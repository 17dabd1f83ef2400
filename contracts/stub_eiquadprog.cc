// The back end answers min 1/2 x'Hx + g'x, CE x + ce0 = 0, CI x + ci0 >= 0
// (the factor between the two terms is that of its documentation up to a
// positive factor: x'Hx + 2 g'x) with any status, point and value.
#include "stub_eiquadprog.hh"
#define private public
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
#undef private
namespace eiqstub {
std::vector<Call> calls;
int status = 0;
double value = 0;
void reset() {
  calls.clear();
  status = engine::choice("back-end-status", 5);
  value = engine::var("value");
}
}  // namespace eiqstub
namespace tsid {
namespace solvers {
EiquadprogFast_status EiquadprogFast::solve_quadprog(const MatrixXd& Hess, const VectorXd& g0, const MatrixXd& CE,
                                                     const VectorXd& ce0, const MatrixXd& CI, const VectorXd& ci0,
                                                     VectorXd& x) {
  eiqstub::Call c;
  c.H = Hess;
  c.g = g0;
  c.CE = CE;
  c.ce0 = ce0;
  c.CI = CI;
  c.ci0 = ci0;
  c.guess = x;
  eiqstub::calls.push_back(c);
  x.resize(g0.size());
  for (long i = 0; i < x.size(); ++i) x(i) = engine::var("x" + spec::S(i));
  f_value = eiqstub::value;
  return (EiquadprogFast_status)eiqstub::status;
}
}  // namespace solvers
}  // namespace tsid
