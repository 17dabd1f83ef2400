#ifndef VERIF_PYSTUB_EIGENPY_HH
#define VERIF_PYSTUB_EIGENPY_HH
#include <boost/python.hpp>
namespace eigenpy {
inline void enableEigenPy() {}
inline void exposeAngleAxis() {}
inline void exposeQuaternion() {}
template <class M>
void enableEigenPySpecific() {}
}  // namespace eigenpy
#define ENABLE_SPECIFIC_MATRIX_TYPE(T) ::eigenpy::enableEigenPySpecific<T>();
#endif
