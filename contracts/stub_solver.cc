// Assumed contract of solvers::solve for its callers; the contract of the
// function itself is the subject of C13 and C14.
#include "stubs.hh"
namespace stub {
std::vector<Problem> problems;
bool succeed = true;
double cost = 0;
void reset() {
  problems.clear();
  succeed = true;
  cost = engine::var("cost");
}
VectorX answer(long n) {
  VectorX x(n);
  for (long i = 0; i < n; ++i) x(i) = engine::var("x" + spec::S(i));
  return x;
}
}  // namespace stub
namespace solvers {
ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D, const VectorXd& d,
                 const MatrixXd& Hess, const VectorXd& g, const VectorXd& initGuess,
                 Cref_vectorX minBounds, Cref_vectorX maxBounds, const SolverType solver) {
  stub::Problem p;
  p.A = A;
  p.b = b;
  p.D = D;
  p.d = d;
  p.H = Hess;
  p.g = g;
  p.x0 = initGuess;
  p.minB = minBounds;
  p.maxB = maxBounds;
  p.solver = solver;
  stub::problems.push_back(p);
  ResultData r;
  r.x = initGuess;
  if (stub::succeed) {
    r.success_ = true;
    r.x = stub::answer(g.size());
    r.cost_ = stub::cost;
  }
  return r;
}
}  // namespace solvers
