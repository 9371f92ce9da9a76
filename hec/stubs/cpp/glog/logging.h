// Stand-in for glog: messages go to the standard error output, fatal ones end the program.
#ifndef HEC_LOGGING_H_
#define HEC_LOGGING_H_

#include <unistd.h>

#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>

#include <gflags/gflags.h>

#define HEC_WEAK __attribute__((weak))
HEC_WEAK int32_t FLAGS_v = 0;
HEC_WEAK int32_t FLAGS_minloglevel = 0;
HEC_WEAK int32_t FLAGS_stderrthreshold = 0;
HEC_WEAK bool FLAGS_alsologtostderr = false;
HEC_WEAK bool FLAGS_logtostderr = false;
HEC_WEAK bool FLAGS_colorlogtostderr = false;
static hec::Registration hec_registration_v("v", &FLAGS_v, false);
static hec::Registration hec_registration_alsologtostderr("alsologtostderr", &FLAGS_alsologtostderr, true);
static hec::Registration hec_registration_logtostderr("logtostderr", &FLAGS_logtostderr, true);
static hec::Registration hec_registration_colorlogtostderr("colorlogtostderr", &FLAGS_colorlogtostderr, true);
static hec::Registration hec_registration_stderrthreshold("stderrthreshold", &FLAGS_stderrthreshold, false);

namespace google {
enum LogSeverity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
inline void InitGoogleLogging(const char*) {}
inline void InstallFailureSignalHandler() {}
inline void SetStderrLogging(int) {}
inline void ShutdownGoogleLogging() {}
inline void FlushLogFiles(int) {}
}  // namespace google

namespace hec {
class Message {
 public:
  Message(const char* file, int line, int severity) : severity_(severity) {
    stream_ << "IWEF"[severity] << ' ' << file << ':' << line << "] ";
  }
  ~Message() {
    std::cerr << stream_.str() << std::endl;
    if (severity_ == google::FATAL) {
      _exit(134);
    }
  }
  std::ostream& stream() { return stream_; }

 private:
  int severity_;
  std::ostringstream stream_;
};
struct Voidify {
  void operator&(std::ostream&) {}
};
template <typename T>
T checkNotNull(const char* text, T&& pointer) {
  if (pointer == nullptr) {
    Message("", 0, google::FATAL).stream() << "'" << text << "' must not be null";
  }
  return std::forward<T>(pointer);
}
}  // namespace hec

#define HEC_SEVERITY_INFO 0
#define HEC_SEVERITY_WARNING 1
#define HEC_SEVERITY_ERROR 2
#define HEC_SEVERITY_FATAL 3
#define LOG(severity) hec::Message(__FILE__, __LINE__, HEC_SEVERITY_##severity).stream()
#define LOG_IF(severity, condition) \
  !(condition) ? (void)0 : hec::Voidify() & LOG(severity)
#define VLOG_IS_ON(level) (FLAGS_v >= (level))
#define VLOG(level) LOG_IF(INFO, VLOG_IS_ON(level))
#define LOG_EVERY_N(severity, n) LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)
#define CHECK(condition) LOG_IF(FATAL, !(condition)) << "Check failed: " #condition " "
#define HEC_CHECK_OP(a, b, op) CHECK((a)op(b))
#define CHECK_EQ(a, b) HEC_CHECK_OP(a, b, ==)
#define CHECK_NE(a, b) HEC_CHECK_OP(a, b, !=)
#define CHECK_LT(a, b) HEC_CHECK_OP(a, b, <)
#define CHECK_LE(a, b) HEC_CHECK_OP(a, b, <=)
#define CHECK_GT(a, b) HEC_CHECK_OP(a, b, >)
#define CHECK_GE(a, b) HEC_CHECK_OP(a, b, >=)
#define CHECK_NEAR(a, b, margin) CHECK((a) <= (b) + (margin) && (a) >= (b) - (margin))
#define CHECK_NOTNULL(pointer) hec::checkNotNull(#pointer, (pointer))
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE

#endif
