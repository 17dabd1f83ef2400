// Out-of-bounds accesses (Eigen index/shape assertions, libstdc++ container
// preconditions) become obligations instead of undefined behaviour.
#ifndef VERIF_OOB_HH
#define VERIF_OOB_HH
#include <stdexcept>
namespace engine {
struct OutOfBounds : std::logic_error {
  OutOfBounds(const char* s) : std::logic_error(s) {}
};
[[noreturn]] void eigenFail(const char* what);
}
#define eigen_assert(x) ((x) ? (void)0 : ::engine::eigenFail(#x))
#endif
