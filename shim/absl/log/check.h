// Minimal stand-in for abseil's absl/log/check.h + absl/log/log.h (the distribution's
// abseil predates them). Semantics kept: CHECK* / LOG(FATAL) print and abort();
// LOG(INFO/WARNING/ERROR) print to stderr (silenced unless VERIF_SHIM_LOG=1).
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"

namespace verif_shim {
class LogStream {
 public:
  LogStream(const char* file, int line, const char* sev, bool fatal)
      : fatal_(fatal) { os_ << sev << ' ' << file << ':' << line << "] "; }
  ~LogStream() {
    if (fatal_) {
      os_ << '\n';
      std::cerr << os_.str() << std::flush;
      std::abort();
    }
    static const bool on = std::getenv("VERIF_SHIM_LOG") != nullptr;
    if (on) { os_ << '\n'; std::cerr << os_.str() << std::flush; }
  }
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
  bool fatal_;
};
struct Voidify { void operator&&(std::ostream&) const {} };
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
inline const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_shim

#define VERIF_SHIM_FATAL_IF_NOT(cond, text)                 \
  (cond) ? (void)0                                          \
         : ::verif_shim::Voidify() &&                       \
               ::verif_shim::LogStream(__FILE__, __LINE__, "F", true).stream() << "Check failed: " text " "

#define CHECK(cond) VERIF_SHIM_FATAL_IF_NOT((cond), #cond)
#define CHECK_EQ(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) == (b)), #a " == " #b)
#define CHECK_NE(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) != (b)), #a " != " #b)
#define CHECK_GE(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) >= (b)), #a " >= " #b)
#define CHECK_GT(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) > (b)), #a " > " #b)
#define CHECK_LE(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) <= (b)), #a " <= " #b)
#define CHECK_LT(a, b) VERIF_SHIM_FATAL_IF_NOT(((a) < (b)), #a " < " #b)
#define CHECK_OK(s) VERIF_SHIM_FATAL_IF_NOT((::verif_shim::AsStatus(s).ok()), #s " is OK")
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_OK CHECK_OK
#ifdef NDEBUG
#define DCHECK(cond) CHECK(true || (cond))
#define DCHECK_EQ(a, b) CHECK(true || ((a) == (b)))
#define DCHECK_NE(a, b) CHECK(true || ((a) != (b)))
#define DCHECK_GE(a, b) CHECK(true || ((a) >= (b)))
#define DCHECK_GT(a, b) CHECK(true || ((a) > (b)))
#define DCHECK_LE(a, b) CHECK(true || ((a) <= (b)))
#define DCHECK_LT(a, b) CHECK(true || ((a) < (b)))
#define DCHECK_OK(s) CHECK(true || ::verif_shim::AsStatus(s).ok())
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_OK CHECK_OK
#endif

#define VERIF_SHIM_LOG_INFO ::verif_shim::LogStream(__FILE__, __LINE__, "I", false).stream()
#define VERIF_SHIM_LOG_WARNING ::verif_shim::LogStream(__FILE__, __LINE__, "W", false).stream()
#define VERIF_SHIM_LOG_ERROR ::verif_shim::LogStream(__FILE__, __LINE__, "E", false).stream()
#define VERIF_SHIM_LOG_FATAL ::verif_shim::LogStream(__FILE__, __LINE__, "F", true).stream()
#define LOG(sev) VERIF_SHIM_LOG_##sev
#define LOG_IF(sev, cond) !(cond) ? (void)0 : ::verif_shim::Voidify() && LOG(sev)
#endif
