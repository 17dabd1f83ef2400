// The value a variable takes in a contract stated on fixed numbers
// (engine::setConcrete): the same in the symbolic and in the native build.
#ifndef VERIF_CONCRETE_HH
#define VERIF_CONCRETE_HH
#include <string>
namespace engine {
// 2k+1 with k in 0..63: lo + (hi - lo) * concrete(name) / 128 is exact
inline int concreteOf(const std::string& name) {
  unsigned long h = 1469598103934665603ul;
  for (size_t i = 0; i < name.size(); ++i) h = (h ^ (unsigned char)name[i]) * 1099511628211ul;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ul;
  h ^= h >> 32;
  return 2 * (int)(h % 64) + 1;
}
}  // namespace engine
#endif
