// Stand-in for the uses of RE2 in the generators: patterns are \$\(name\).
#ifndef VERIF_RE2_H_
#define VERIF_RE2_H_
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  explicit RE2(absl::string_view pattern) {
    for (size_t i = 0; i < pattern.size(); i++) {
      if (pattern[i] == '\\') i++;
      if (i < pattern.size()) literal_ += pattern[i];
    }
  }
  RE2(const RE2&) = delete;
  static bool PartialMatch(absl::string_view text, const RE2& re) {
    return std::string(text).find(re.literal_) != std::string::npos;
  }
  static int GlobalReplace(std::string* s, const RE2& re,
                           absl::string_view rewrite) {
    int n = 0;
    for (size_t p = 0; (p = s->find(re.literal_, p)) != std::string::npos;) {
      s->replace(p, re.literal_.size(), std::string(rewrite));
      p += rewrite.size();
      n++;
    }
    return n;
  }

 private:
  std::string literal_;
};
#endif
