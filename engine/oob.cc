#include <csetjmp>
#include <cstdlib>
#include <string>

#include "oob.hh"
namespace engine {
jmp_buf oobJump;
bool oobArmed = false;
std::string oobWhat;
void eigenFail(const char* what) { throw OutOfBounds(what); }
}  // namespace engine
namespace std {
// replaces the aborting handler of libstdc++ (-D_GLIBCXX_ASSERTIONS)
__attribute__((noreturn)) void __glibcxx_assert_fail(const char* file, int line, const char* fn,
                                                     const char* cond) noexcept {
  engine::oobWhat = std::string(cond ? cond : "") + " in " + (fn ? fn : "");
  if (engine::oobArmed) {
    engine::oobArmed = false;
    std::longjmp(engine::oobJump, 1);
  }
  std::abort();
}
}  // namespace std
