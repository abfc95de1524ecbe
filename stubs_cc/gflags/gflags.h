// Stand-in for gflags: flags as "--name value", "--name=value", "--name" and "--noname".
#ifndef STANDIN_GFLAGS_H_
#define STANDIN_GFLAGS_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>

namespace gflags {

struct Flag {
  bool is_bool;
  std::function<bool(const std::string&)> set;
};

inline std::map<std::string, Flag>& registry() {
  static std::map<std::string, Flag> flags;
  return flags;
}

inline bool parse(const std::string& text, std::string* value) {
  *value = text;
  return true;
}
inline bool parse(const std::string& text, bool* value) {
  std::string lower;
  for (char c : text) lower += std::tolower(c);
  for (const char* s : {"1", "t", "true", "y", "yes"})
    if (lower == s) return *value = true, true;
  for (const char* s : {"0", "f", "false", "n", "no"})
    if (lower == s) return *value = false, true;
  return false;
}
inline bool parse(const std::string& text, double* value) {
  char* end = nullptr;
  *value = std::strtod(text.c_str(), &end);
  return !text.empty() && *end == 0;
}
template <typename Integer>
inline bool parse(const std::string& text, Integer* value) {
  char* end = nullptr;
  const long long parsed = std::strtoll(text.c_str(), &end, 0);
  *value = static_cast<Integer>(parsed);
  return !text.empty() && *end == 0 && static_cast<long long>(*value) == parsed;
}

template <typename T>
struct Registration {
  Registration(const char* name, T* value, bool is_bool) {
    registry()[name] = Flag{is_bool, [value](const std::string& t) { return parse(t, value); }};
  }
};

inline void fail(const std::string& text) {
  std::fprintf(stderr, "ERROR: %s\n", text.c_str());
  std::exit(1);
}

inline uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool remove_flags) {
  int kept = 1;
  for (int i = 1; i < *argc; ++i) {
    std::string arg((*argv)[i]);
    if (arg.size() < 2 || arg[0] != '-') {
      (*argv)[kept++] = (*argv)[i];
      continue;
    }
    std::string name = arg.substr(arg[1] == '-' ? 2 : 1);
    std::string value;
    bool has_value = false;
    const size_t equal = name.find('=');
    if (equal != std::string::npos) {
      value = name.substr(equal + 1);
      name = name.substr(0, equal);
      has_value = true;
    }
    auto it = registry().find(name);
    if (it == registry().end() && !has_value && name.compare(0, 2, "no") == 0) {
      it = registry().find(name.substr(2));
      if (it != registry().end() && !it->second.is_bool) it = registry().end();
      value = "false";
      has_value = true;
    }
    if (it == registry().end()) fail("unknown command line flag '" + name + "'");
    if (!has_value) {
      if (it->second.is_bool) {
        value = "true";
      } else {
        if (i + 1 >= *argc) fail("flag '" + name + "' is missing its argument");
        value = (*argv)[++i];
      }
    }
    if (!it->second.set(value)) fail("illegal value '" + value + "' for flag '" + name + "'");
  }
  if (remove_flags) *argc = kept;
  return 1;
}
inline void SetUsageMessage(const std::string&) {}
inline void ShutDownCommandLineFlags() {}

}  // namespace gflags

namespace google {
using gflags::ParseCommandLineFlags;
using gflags::SetUsageMessage;
using gflags::ShutDownCommandLineFlags;
}  // namespace google

#define STANDIN_FLAG(type, name, default_value, is_bool)                          \
  type FLAGS_##name = default_value;                                             \
  static gflags::Registration<type> standin_registration_##name(#name, &FLAGS_##name, is_bool)
#define DEFINE_string(name, value, help) STANDIN_FLAG(std::string, name, value, false)
#define DEFINE_bool(name, value, help) STANDIN_FLAG(bool, name, value, true)
#define DEFINE_int32(name, value, help) STANDIN_FLAG(int32_t, name, value, false)
#define DEFINE_uint32(name, value, help) STANDIN_FLAG(uint32_t, name, value, false)
#define DEFINE_int64(name, value, help) STANDIN_FLAG(int64_t, name, value, false)
#define DEFINE_uint64(name, value, help) STANDIN_FLAG(uint64_t, name, value, false)
#define DEFINE_double(name, value, help) STANDIN_FLAG(double, name, value, false)

#endif  // STANDIN_GFLAGS_H_
