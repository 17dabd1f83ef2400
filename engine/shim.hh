// Included first in every translation unit of the symbolic build: pulls in the
// standard library, Eigen, boost and ndcurves with the machine `double`, then
// re-targets `double` (and Eigen's double typedefs) to the symbolic scalar for
// everything that follows, i.e. for the code of /repo and for the contracts.
#ifndef VERIF_SHIM_HH
#define VERIF_SHIM_HH
#include "sym.hh"
#include "engine.hh"
#include "oob.hh"
// std
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
#include <span>
#include <ranges>
#endif

namespace std {
template <>
struct numeric_limits<sym::Sym> {
  static const bool is_specialized = true, is_signed = true, is_integer = false, is_exact = true,
                    has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false,
                    is_iec559 = false, is_bounded = false, is_modulo = false, traps = false,
                    tinyness_before = false, has_denorm_loss = false;
  static const int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021,
                   max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
  static sym::Sym min() { return sym::Sym(numeric_limits<double>::min()); }
  static sym::Sym max() { return sym::Sym(numeric_limits<double>::max()); }
  static sym::Sym lowest() { return sym::Sym(numeric_limits<double>::lowest()); }
  static sym::Sym epsilon() { return sym::Sym(numeric_limits<double>::epsilon()); }
  static sym::Sym round_error() { return sym::Sym(0.5); }
  static sym::Sym infinity() { return sym::Sym(numeric_limits<double>::infinity()); }
  static sym::Sym quiet_NaN() { return sym::Sym(numeric_limits<double>::quiet_NaN()); }
  static sym::Sym denorm_min() { return sym::Sym(numeric_limits<double>::denorm_min()); }
};
using sym::sqrt;
using sym::abs;
inline sym::Sym fabs(const sym::Sym& a) { return sym::abs(a); }
inline sym::Sym floor(const sym::Sym& a) { return sym::floorS(a); }
inline sym::Sym ceil(const sym::Sym& a) { return -sym::floorS(-a); }
inline sym::Sym round(const sym::Sym& a) { return a < sym::Sym(0) ? -sym::floorS(-a + sym::Sym(0.5)) : sym::floorS(a + sym::Sym(0.5)); }
inline sym::Sym trunc(const sym::Sym& a) { return a < sym::Sym(0) ? -sym::floorS(-a) : sym::floorS(a); }
inline bool isnan(const sym::Sym&) { return false; }
inline bool isinf(const sym::Sym&) { return false; }
inline bool isfinite(const sym::Sym&) { return true; }
template <class E>
inline sym::Sym pow(const sym::Sym& a, const E& e) { return sym::powS(a, sym::Sym(e)); }
inline sym::Sym pow(double a, const sym::Sym& e) { return sym::powS(sym::Sym(a), e); }
inline sym::Sym pow(int a, const sym::Sym& e) { return sym::powS(sym::Sym(a), e); }
inline sym::Sym min(const sym::Sym& a, double b) { return b < a ? sym::Sym(b) : a; }
inline sym::Sym min(double a, const sym::Sym& b) { return b < a ? b : sym::Sym(a); }
inline sym::Sym max(const sym::Sym& a, double b) { return a < b ? sym::Sym(b) : a; }
inline sym::Sym max(double a, const sym::Sym& b) { return a < b ? b : sym::Sym(a); }
inline sym::Sym fmin(const sym::Sym& a, const sym::Sym& b) { return b < a ? b : a; }
inline sym::Sym fmax(const sym::Sym& a, const sym::Sym& b) { return a < b ? b : a; }
inline sym::Sym fma(const sym::Sym& a, const sym::Sym& b, const sym::Sym& c) { return a * b + c; }
inline sym::Sym hypot(const sym::Sym& a, const sym::Sym& b) { return sym::sqrt(a * a + b * b); }
}  // namespace std
using std::sqrt; using std::abs; using std::fabs; using std::pow; using std::floor; using std::ceil;

#include <Eigen/Core>
namespace Eigen {
template <>
struct NumTraits<sym::Sym> {
  typedef sym::Sym Real;
  typedef sym::Sym NonInteger;
  typedef sym::Sym Nested;
  typedef sym::Sym Literal;
  enum {
    IsInteger = 0, IsSigned = 1, IsComplex = 0, RequireInitialization = 1,
    ReadCost = 4, AddCost = 40, MulCost = 80
  };
  static inline Real epsilon() { return std::numeric_limits<sym::Sym>::epsilon(); }
  static inline Real dummy_precision() { return sym::Sym(1e-12); }
  static inline Real highest() { return std::numeric_limits<sym::Sym>::max(); }
  static inline Real lowest() { return std::numeric_limits<sym::Sym>::lowest(); }
  static inline Real infinity() { return std::numeric_limits<sym::Sym>::infinity(); }
  static inline Real quiet_NaN() { return std::numeric_limits<sym::Sym>::quiet_NaN(); }
  static inline int digits10() { return 15; }
  static inline int max_digits10() { return 17; }
};
// mixed products with machine doubles (scalars of third-party templates)
template <typename Op> struct ScalarBinaryOpTraits<sym::Sym, double, Op> { typedef sym::Sym ReturnType; };
template <typename Op> struct ScalarBinaryOpTraits<double, sym::Sym, Op> { typedef sym::Sym ReturnType; };
namespace internal {
template <> struct cast_impl<sym::Sym, double> { static inline double run(const sym::Sym& x) { return (double)x; } };
template <> struct cast_impl<sym::Sym, float> { static inline float run(const sym::Sym& x) { return (float)x; } };
template <> struct cast_impl<sym::Sym, int> { static inline int run(const sym::Sym& x) { return (int)x; } };
}
}  // namespace Eigen
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/Geometry>
#include <Eigen/StdVector>

#include <boost/smart_ptr.hpp>
#include <boost/assign.hpp>
#include <boost/assign/list_of.hpp>
#include <ndcurves/bezier_curve.h>
#include <ndcurves/bernstein.h>
#include <ndcurves/linear_variable.h>
#include <ndcurves/curve_constraint.h>

#include <setoper.h>
#include <cdd.h>
#include <glpk.h>

namespace Eigen {
#define SYM_EIGEN(SUF, R, C) \
  typedef Matrix<sym::Sym, R, C> SUF; \
  typedef Array<sym::Sym, R, C> Arr##SUF;
typedef Matrix<sym::Sym, 2, 2> Matrix2dSym;
typedef Matrix<sym::Sym, 3, 3> Matrix3dSym;
typedef Matrix<sym::Sym, 4, 4> Matrix4dSym;
typedef Matrix<sym::Sym, Dynamic, Dynamic> MatrixXdSym;
typedef Matrix<sym::Sym, 2, 1> Vector2dSym;
typedef Matrix<sym::Sym, 3, 1> Vector3dSym;
typedef Matrix<sym::Sym, 4, 1> Vector4dSym;
typedef Matrix<sym::Sym, Dynamic, 1> VectorXdSym;
typedef Matrix<sym::Sym, 1, 3> RowVector3dSym;
typedef Matrix<sym::Sym, 1, Dynamic> RowVectorXdSym;
typedef Matrix<sym::Sym, 3, Dynamic> Matrix3XdSym;
typedef Matrix<sym::Sym, Dynamic, 3> MatrixX3dSym;
typedef Array<sym::Sym, Dynamic, 1> ArrayXdSym;
typedef Array<sym::Sym, Dynamic, Dynamic> ArrayXXdSym;
typedef Array<sym::Sym, 3, 1> Array3dSym;
typedef Quaternion<sym::Sym> QuaterniondSym;
typedef AngleAxis<sym::Sym> AngleAxisdSym;
}  // namespace Eigen
#define Matrix2d Matrix2dSym
#define Matrix3d Matrix3dSym
#define Matrix4d Matrix4dSym
#define MatrixXd MatrixXdSym
#define Vector2d Vector2dSym
#define Vector3d Vector3dSym
#define Vector4d Vector4dSym
#define VectorXd VectorXdSym
#define RowVector3d RowVector3dSym
#define RowVectorXd RowVectorXdSym
#define Matrix3Xd Matrix3XdSym
#define MatrixX3d MatrixX3dSym
#define ArrayXd ArrayXdSym
#define ArrayXXd ArrayXXdSym
#define Array3d Array3dSym
#define Quaterniond QuaterniondSym
#define AngleAxisd AngleAxisdSym
#define VERIF_SYMBOLIC 1
#include "glp_redirect.hh"
#define double SymScalar
#ifdef VERIF_NO_CONSTEXPR
#define constexpr const
#endif
#endif
