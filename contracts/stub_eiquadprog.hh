// Assumed contract of the dense quadratic back end for its front end.
#ifndef VERIF_STUB_EIQ_HH
#define VERIF_STUB_EIQ_HH
#include "spec.hh"
namespace eiqstub {
using namespace bezier_com_traj;
struct Call {
  MatrixXX H, CE, CI;
  VectorX g, ce0, ci0, guess;
};
extern std::vector<Call> calls;
extern int status;  // chosen by the contract: 0..4
extern double value;
void reset();
}  // namespace eiqstub
#endif
