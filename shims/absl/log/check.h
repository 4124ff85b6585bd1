// Stand-in for absl/log/check.h (not packaged in this sandbox): same checking
// semantics (abort on failure), message streamed to stderr.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H
#define VERIF_SHIM_ABSL_LOG_CHECK_H
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif_shim {
struct CheckFail {
  std::ostringstream s;
  CheckFail(const char *f, int l, const char *c) { s << f << ":" << l << " CHECK failed: " << c << " "; }
  [[noreturn]] ~CheckFail() { std::cerr << s.str() << std::endl; std::abort(); }
  std::ostream &stream() { return s; }
};
struct Voidify { void operator&&(const std::ostream &) const {} };
}  // namespace verif_shim
#define CHECK(c) \
  (c) ? (void)0 : ::verif_shim::Voidify() && ::verif_shim::CheckFail(__FILE__, __LINE__, #c).stream()
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#endif
