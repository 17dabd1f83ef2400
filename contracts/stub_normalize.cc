// Contract of Normalize for its callers: every row keeps its half-space (the
// identity is one representative).  The function itself is the subject of C15.
#include "stubs.hh"
namespace bezier_com_traj {
int Normalize(Ref_matrixXX A, Ref_vectorX) { return (int)A.rows(); }
}  // namespace bezier_com_traj
