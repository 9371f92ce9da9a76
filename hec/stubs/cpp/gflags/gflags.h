// Stand-in for gflags: options are registered by DEFINE_* and parsed the same way.
#ifndef HEC_GFLAGS_H_
#define HEC_GFLAGS_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>

namespace hec {
struct Flag {
  bool is_bool;
  std::function<bool(const std::string&)> set;
};
inline std::map<std::string, Flag>& flags() {
  static std::map<std::string, Flag> all;
  return all;
}
inline bool parse(const std::string& text, std::string* value) {
  *value = text;
  return true;
}
inline bool parse(const std::string& text, bool* value) {
  for (const char* yes : {"1", "t", "true", "y", "yes"}) {
    if (text == yes) {
      *value = true;
      return true;
    }
  }
  for (const char* no : {"0", "f", "false", "n", "no"}) {
    if (text == no) {
      *value = false;
      return true;
    }
  }
  return false;
}
inline bool parse(const std::string& text, double* value) {
  char* end = nullptr;
  *value = std::strtod(text.c_str(), &end);
  return !text.empty() && *end == '\0';
}
template <typename Integer>
bool parse(const std::string& text, Integer* value) {
  char* end = nullptr;
  *value = static_cast<Integer>(std::strtoll(text.c_str(), &end, 10));
  return !text.empty() && *end == '\0';
}
struct Registration {
  template <typename T>
  Registration(const char* name, T* value, bool is_bool) {
    flags()[name] = Flag{is_bool, [value](const std::string& text) { return parse(text, value); }};
  }
};
}  // namespace hec

#define HEC_DEFINE(type, name, value, is_bool) \
  type FLAGS_##name = value;                   \
  static hec::Registration hec_registration_##name(#name, &FLAGS_##name, is_bool)

#define DEFINE_string(name, value, text) HEC_DEFINE(std::string, name, value, false)
#define DEFINE_bool(name, value, text) HEC_DEFINE(bool, name, value, true)
#define DEFINE_double(name, value, text) HEC_DEFINE(double, name, value, false)
#define DEFINE_int32(name, value, text) HEC_DEFINE(int32_t, name, value, false)
#define DEFINE_uint32(name, value, text) HEC_DEFINE(uint32_t, name, value, false)
#define DEFINE_int64(name, value, text) HEC_DEFINE(int64_t, name, value, false)
#define DEFINE_uint64(name, value, text) HEC_DEFINE(uint64_t, name, value, false)
#define DECLARE_string(name) extern std::string FLAGS_##name
#define DECLARE_bool(name) extern bool FLAGS_##name
#define DECLARE_double(name) extern double FLAGS_##name
#define DECLARE_int32(name) extern int32_t FLAGS_##name

namespace google {
inline uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool remove_flags) {
  int kept = 1;
  bool options = true;
  for (int i = 1; i < *argc; ++i) {
    std::string word = (*argv)[i];
    if (!options || word.size() < 2 || word[0] != '-') {
      (*argv)[kept++] = (*argv)[i];
      continue;
    }
    if (word == "--") {
      options = false;
      continue;
    }
    word = word.substr(word[1] == '-' ? 2 : 1);
    const size_t equal = word.find('=');
    std::string name = word.substr(0, equal);
    std::string value = equal == std::string::npos ? "" : word.substr(equal + 1);
    auto found = hec::flags().find(name);
    if (found == hec::flags().end() && equal == std::string::npos && name.compare(0, 2, "no") == 0) {
      found = hec::flags().find(name.substr(2));
      if (found != hec::flags().end() && !found->second.is_bool) {
        found = hec::flags().end();
      }
      value = "false";
    } else if (found != hec::flags().end() && equal == std::string::npos) {
      if (found->second.is_bool) {
        value = "true";
      } else if (i + 1 < *argc) {
        value = (*argv)[++i];
      } else {
        found = hec::flags().end();
      }
    }
    if (found == hec::flags().end() || !found->second.set(value)) {
      std::fprintf(stderr, "ERROR: bad command line flag '%s'\n", name.c_str());
      std::exit(1);
    }
  }
  if (remove_flags) {
    *argc = kept;
  }
  return kept;
}
inline void SetUsageMessage(const std::string&) {}
inline void SetVersionString(const std::string&) {}
}  // namespace google
namespace gflags = google;

#endif
