// Stand-in for glog: messages to stderr, a fatal message ends the process.
#ifndef STANDIN_GLOG_H_
#define STANDIN_GLOG_H_

#include <gflags/gflags.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

STANDIN_FLAG(bool, alsologtostderr, false, true);
STANDIN_FLAG(bool, logtostderr, false, true);
STANDIN_FLAG(bool, colorlogtostderr, false, true);
STANDIN_FLAG(int32_t, v, 0, false);
STANDIN_FLAG(int32_t, minloglevel, 0, false);
STANDIN_FLAG(int32_t, stderrthreshold, 2, false);

namespace google {

enum LogSeverity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
constexpr LogSeverity GLOG_INFO = INFO, GLOG_WARNING = WARNING, GLOG_ERROR = ERROR,
                      GLOG_FATAL = FATAL;

// The status of a process that stopped on its own fatal message.
constexpr int kFatalStatus = 99;

class Message {
 public:
  explicit Message(LogSeverity severity) : severity_(severity) {}
  ~Message() {
    std::cerr << "IWEF"[severity_] << " " << text_.str() << std::endl;
    if (severity_ == FATAL) std::_Exit(kFatalStatus);
  }
  std::ostream& stream() { return text_; }

 private:
  LogSeverity severity_;
  std::ostringstream text_;
};
struct Voidify {
  void operator&(std::ostream&) {}
};

inline void InitGoogleLogging(const char*) {}
inline void ShutdownGoogleLogging() {}
inline void InstallFailureSignalHandler() {}
inline void SetStderrLogging(LogSeverity) {}

template <typename T>
T checkNotNull(T value) {
  if (value == nullptr) Message(FATAL).stream() << "Check failed: must be non-null";
  return value;
}

}  // namespace google

#define LOG(severity) google::Message(google::severity).stream()
#define LOG_IF(severity, condition) \
  !(condition) ? (void)0 : google::Voidify() & LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)
#define LOG_EVERY_N(severity, n) LOG(severity)
#define VLOG(level) LOG_IF(INFO, FLAGS_v >= (level))
#define VLOG_IF(level, condition) LOG_IF(INFO, FLAGS_v >= (level) && (condition))
#define VLOG_IS_ON(level) (FLAGS_v >= (level))
#define DLOG(severity) LOG(severity)
#define DLOG_IF(severity, condition) LOG_IF(severity, condition)
#define DVLOG(level) VLOG(level)
#define PLOG(severity) LOG(severity)
#define PLOG_IF(severity, condition) LOG_IF(severity, condition)
#define LOG_ASSERT(condition) CHECK(condition)
#define PCHECK(condition) CHECK(condition)
#define CHECK(condition) LOG_IF(FATAL, !(condition)) << "Check failed: " #condition " "
#define STANDIN_CHECK_OP(a, op, b) LOG_IF(FATAL, !((a)op(b))) << "Check failed: " #a #op #b " "
#define CHECK_EQ(a, b) STANDIN_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) STANDIN_CHECK_OP(a, !=, b)
#define CHECK_LT(a, b) STANDIN_CHECK_OP(a, <, b)
#define CHECK_LE(a, b) STANDIN_CHECK_OP(a, <=, b)
#define CHECK_GT(a, b) STANDIN_CHECK_OP(a, >, b)
#define CHECK_GE(a, b) STANDIN_CHECK_OP(a, >=, b)
#define CHECK_NEAR(a, b, margin) \
  LOG_IF(FATAL, !(std::abs((a) - (b)) <= (margin))) << "Check failed: " #a " near " #b " "
#define CHECK_DOUBLE_EQ(a, b) CHECK_NEAR(a, b, 1e-15)
#define CHECK_STREQ(a, b) \
  LOG_IF(FATAL, std::strcmp((a), (b)) != 0) << "Check failed: " #a " equals " #b " "
#define CHECK_STRNE(a, b) \
  LOG_IF(FATAL, std::strcmp((a), (b)) == 0) << "Check failed: " #a " differs from " #b " "
#define CHECK_NOTNULL(pointer) google::checkNotNull(pointer)
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_NEAR CHECK_NEAR
#define DCHECK_NOTNULL CHECK_NOTNULL

#endif  // STANDIN_GLOG_H_
