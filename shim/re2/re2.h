// A small stand-in for RE2 (which is not installed here): a backtracking
// matcher with RE2's leftmost-first semantics for the syntax that this code
// base uses: literals, escapes, classes, groups, (?:...), |, * + ? {n} {n,m}
// (greedy and lazy), ., ^ and $. Bytes are matched one by one.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_

#include <cstdlib>
#include <bitset>
#include <cctype>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace verif_re2 {

struct Node {
  enum Kind { kSet, kCat, kAlt, kGroup, kRep, kBol, kEol } kind;
  std::bitset<256> set;
  std::vector<std::unique_ptr<Node>> sub;
  int cap = -1;        // kGroup: capture number or -1
  int lo = 0, hi = -1; // kRep
  bool greedy = true;
  explicit Node(Kind k) : kind(k) {}
};

class Program {
 public:
  explicit Program(std::string_view p) : p_(p) {
    root_ = Alt();
    if (i_ != p_.size()) ok_ = false;
  }
  bool ok() const { return ok_; }
  int captures() const { return ncap_; }

  struct Match {
    std::vector<std::pair<long, long>> cap;
    size_t begin, end;
  };
  // Leftmost-first match that starts at `start` (or, unless anchored, at the
  // first later place that has one).
  bool Run(std::string_view text, size_t start, bool anchor_start,
           bool anchor_end, Match* m) const {
    for (size_t s = start; s <= text.size(); ++s) {
      Match w;
      w.cap.assign(ncap_, {-1, -1});
      w.begin = s;
      bool r = Step(root_.get(), text, s, &w, [&](size_t e) {
        if (anchor_end && e != text.size()) return false;
        w.end = e;
        return true;
      });
      if (r) {
        *m = w;
        return true;
      }
      if (anchor_start) return false;
    }
    return false;
  }

 private:
  using Cont = std::function<bool(size_t)>;
  using N = std::unique_ptr<Node>;
  N Alt() {
    auto alt = std::make_unique<Node>(Node::kAlt);
    alt->sub.push_back(Cat());
    while (i_ < p_.size() && p_[i_] == '|') {
      ++i_;
      alt->sub.push_back(Cat());
    }
    if (alt->sub.size() == 1) return std::move(alt->sub[0]);
    return alt;
  }
  N Cat() {
    auto cat = std::make_unique<Node>(Node::kCat);
    while (i_ < p_.size() && p_[i_] != '|' && p_[i_] != ')') {
      N a = Atom();
      if (!a) {
        ok_ = false;
        break;
      }
      while (i_ < p_.size()) {
        int lo, hi;
        char c = p_[i_];
        if (c == '*') lo = 0, hi = -1, ++i_;
        else if (c == '+') lo = 1, hi = -1, ++i_;
        else if (c == '?') lo = 0, hi = 1, ++i_;
        else if (c == '{' && i_ + 1 < p_.size() && isdigit((unsigned char)p_[i_ + 1])) {
          ++i_;
          lo = Int();
          hi = lo;
          if (i_ < p_.size() && p_[i_] == ',') {
            ++i_;
            hi = p_[i_] == '}' ? -1 : Int();
          }
          if (i_ >= p_.size() || p_[i_] != '}') { ok_ = false; break; }
          ++i_;
        } else break;
        auto rep = std::make_unique<Node>(Node::kRep);
        rep->lo = lo, rep->hi = hi;
        if (i_ < p_.size() && p_[i_] == '?') rep->greedy = false, ++i_;
        rep->sub.push_back(std::move(a));
        a = std::move(rep);
      }
      cat->sub.push_back(std::move(a));
    }
    return cat;
  }
  int Int() {
    int v = 0;
    while (i_ < p_.size() && isdigit((unsigned char)p_[i_])) v = v * 10 + p_[i_++] - '0';
    return v;
  }
  // An escape behind the backslash; adds the characters it stands for.
  void Escape(std::bitset<256>* s) {
    if (i_ >= p_.size()) { ok_ = false; return; }
    char c = p_[i_++];
    std::bitset<256> t;
    auto add = [&](auto f) { for (int k = 0; k < 128; ++k) if (f(k)) t.set(k); };
    switch (tolower(c)) {
      case 'd': add([](int k) { return k >= '0' && k <= '9'; }); break;
      case 's': add([](int k) { return k == ' ' || k == '\t' || k == '\n' || k == '\f' || k == '\r'; }); break;
      case 'w': add([](int k) { return k == '_' || isalnum(k); }); break;
      default:
        switch (c) {
          case 'n': s->set('\n'); return;
          case 't': s->set('\t'); return;
          case 'r': s->set('\r'); return;
          case 'f': s->set('\f'); return;
          case 'v': s->set('\v'); return;
        }
        if (isalnum((unsigned char)c)) { ok_ = false; return; }
        s->set((unsigned char)c);
        return;
    }
    if (isupper((unsigned char)c)) t = ~t;
    *s |= t;
  }
  N Atom() {
    char c = p_[i_++];
    auto set = std::make_unique<Node>(Node::kSet);
    switch (c) {
      case '^': return std::make_unique<Node>(Node::kBol);
      case '$': return std::make_unique<Node>(Node::kEol);
      case '.':
        set->set.set();
        set->set.reset('\n');
        return set;
      case '(': {
        auto g = std::make_unique<Node>(Node::kGroup);
        if (p_.substr(i_, 2) == "?:") i_ += 2;
        else if (i_ < p_.size() && p_[i_] == '?') return nullptr;
        else g->cap = ncap_++;
        g->sub.push_back(Alt());
        if (i_ >= p_.size() || p_[i_] != ')') return nullptr;
        ++i_;
        return g;
      }
      case '\\':
        Escape(&set->set);
        return set;
      case '[': {
        bool neg = false;
        if (i_ < p_.size() && p_[i_] == '^') neg = true, ++i_;
        bool first = true;
        while (i_ < p_.size() && (p_[i_] != ']' || first)) {
          first = false;
          if (p_.substr(i_, 2) == "[:") return nullptr;
          if (p_[i_] == '\\') {
            ++i_;
            Escape(&set->set);
            continue;
          }
          unsigned char lo = p_[i_++], hi = lo;
          if (i_ + 1 < p_.size() && p_[i_] == '-' && p_[i_ + 1] != ']') {
            ++i_;
            hi = p_[i_++];
            if (hi == '\\') return nullptr;
          }
          for (int k = lo; k <= hi; ++k) set->set.set(k);
        }
        if (i_ >= p_.size()) return nullptr;
        ++i_;
        if (neg) set->set = ~set->set;
        return set;
      }
      case '*': case '+': case '?': case ')':
        return nullptr;
    }
    set->set.set((unsigned char)c);
    return set;
  }

  bool Step(const Node* n, std::string_view t, size_t i, Match* m,
            const Cont& k) const {
    switch (n->kind) {
      case Node::kSet:
        return i < t.size() && n->set[(unsigned char)t[i]] && k(i + 1);
      case Node::kBol:
        return i == 0 && k(i);
      case Node::kEol:
        return i == t.size() && k(i);
      case Node::kCat:
        return CatFrom(n, 0, t, i, m, k);
      case Node::kAlt:
        for (auto& s : n->sub)
          if (Step(s.get(), t, i, m, k)) return true;
        return false;
      case Node::kGroup: {
        if (n->cap < 0) return Step(n->sub[0].get(), t, i, m, k);
        auto old = m->cap[n->cap];
        bool r = Step(n->sub[0].get(), t, i, m, [&](size_t e) {
          auto mid = m->cap[n->cap];
          m->cap[n->cap] = {(long)i, (long)e};
          if (k(e)) return true;
          m->cap[n->cap] = mid;
          return false;
        });
        if (!r) m->cap[n->cap] = old;
        return r;
      }
      case Node::kRep: {
        const Node* s = n->sub[0].get();
        if (s->kind == Node::kSet) {  // without recursion: long texts
          size_t most = i;
          while (most < t.size() && (n->hi < 0 || most - i < (size_t)n->hi) &&
                 s->set[(unsigned char)t[most]])
            ++most;
          if (most - i < (size_t)n->lo) return false;
          if (n->greedy) {
            for (size_t e = most;; --e) {
              if (k(e)) return true;
              if (e == i + n->lo) return false;
            }
          }
          for (size_t e = i + n->lo; e <= most; ++e)
            if (k(e)) return true;
          return false;
        }
        return RepFrom(n, 0, t, i, m, k);
      }
    }
    return false;
  }
  bool CatFrom(const Node* n, size_t j, std::string_view t, size_t i, Match* m,
               const Cont& k) const {
    if (j == n->sub.size()) return k(i);
    return Step(n->sub[j].get(), t, i, m, [&, j](size_t e) {
      return CatFrom(n, j + 1, t, e, m, k);
    });
  }
  bool RepFrom(const Node* n, int count, std::string_view t, size_t i, Match* m,
               const Cont& k) const {
    auto more = [&] {
      return (n->hi < 0 || count < n->hi) &&
             Step(n->sub[0].get(), t, i, m, [&](size_t e) {
               if (e == i && count >= n->lo) return false;
               return RepFrom(n, count + 1, t, e, m, k);
             });
    };
    if (count < n->lo) return more();
    if (n->greedy) return more() || k(i);
    return k(i) || more();
  }

  std::string p_;
  size_t i_ = 0;
  bool ok_ = true;
  int ncap_ = 0;
  N root_;
};

}  // namespace verif_re2

class RE2 {
 public:
  RE2(const char* p) : p_(p), prog_(p) { if (!prog_.ok()) abort(); }
  RE2(const std::string& p) : p_(p), prog_(p) { if (!prog_.ok()) abort(); }
  RE2(std::string_view p) : p_(p), prog_(p) { if (!prog_.ok()) abort(); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  bool ok() const { return true; }
  const std::string& pattern() const { return p_; }

  template <typename... A>
  static bool FullMatch(std::string_view text, const RE2& re, A&&... a) {
    verif_re2::Program::Match m;
    return re.prog_.Run(text, 0, true, true, &m) && Store(text, m, a...);
  }
  template <typename... A>
  static bool PartialMatch(std::string_view text, const RE2& re, A&&... a) {
    verif_re2::Program::Match m;
    return re.prog_.Run(text, 0, false, false, &m) && Store(text, m, a...);
  }
  template <typename V, typename... A>
  static bool Consume(V* input, const RE2& re, A&&... a) {
    verif_re2::Program::Match m;
    std::string_view text(*input);
    if (!re.prog_.Run(text, 0, true, false, &m) || !Store(text, m, a...)) return false;
    input->remove_prefix(m.end);
    return true;
  }
  template <typename V, typename... A>
  static bool FindAndConsume(V* input, const RE2& re, A&&... a) {
    verif_re2::Program::Match m;
    std::string_view text(*input);
    if (!re.prog_.Run(text, 0, false, false, &m) || !Store(text, m, a...)) return false;
    input->remove_prefix(m.end);
    return true;
  }
  static bool Replace(std::string* s, const RE2& re, std::string_view with) {
    verif_re2::Program::Match m;
    if (!re.prog_.Run(*s, 0, false, false, &m)) return false;
    s->replace(m.begin, m.end - m.begin, Rewrite(*s, m, with));
    return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, std::string_view with) {
    std::string out;
    size_t p = 0;
    int n = 0;
    verif_re2::Program::Match m;
    while (p <= s->size() && re.prog_.Run(*s, p, false, false, &m)) {
      out.append(*s, p, m.begin - p);
      out += Rewrite(*s, m, with);
      ++n;
      p = m.end;
      if (m.end == m.begin) {
        if (p < s->size()) out += (*s)[p];
        ++p;
      }
    }
    if (p < s->size()) out.append(*s, p, std::string::npos);
    *s = out;
    return n;
  }

 private:
  static std::string Rewrite(const std::string& s, const verif_re2::Program::Match& m,
                             std::string_view with) {
    std::string r;
    for (size_t i = 0; i < with.size(); ++i) {
      if (with[i] == '\\' && i + 1 < with.size()) {
        char c = with[++i];
        if (c == '0') r.append(s, m.begin, m.end - m.begin);
        else if (c >= '1' && c <= '9') {
          if (c - '1' < (int)m.cap.size() && m.cap[c - '1'].first >= 0)
            r.append(s, m.cap[c - '1'].first, m.cap[c - '1'].second - m.cap[c - '1'].first);
        } else r += c;
      } else r += with[i];
    }
    return r;
  }
  template <typename... A>
  static bool Store(std::string_view text, const verif_re2::Program::Match& m, A&&... a) {
    if (sizeof...(a) > m.cap.size()) return false;  // as RE2: not enough groups
    [[maybe_unused]] size_t i = 0;
    bool ok = true;
    ((ok = ok && One(text, m.cap[i], a), ++i), ...);
    return ok;
  }
  template <typename T>
  static bool One(std::string_view text, std::pair<long, long> c, T* out) {
    if (!out) return true;
    std::string_view v = c.first < 0 ? std::string_view() : text.substr(c.first, c.second - c.first);
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, char>) {
      if (v.empty()) return false;
      std::string s(v);
      char* e;
      long long x = strtoll(s.c_str(), &e, 10);
      if (*e || (T)x != x) return false;
      *out = (T)x;
    } else {
      *out = T(v);
    }
    return true;
  }
  static bool One(std::string_view, std::pair<long, long>, std::nullptr_t) { return true; }

  std::string p_;
  verif_re2::Program prog_;
};

class LazyRE2 {
 public:
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    std::call_once(once_, [this] { ptr_ = new RE2(pattern_); });
    return ptr_;
  }
  const char* pattern_;
  mutable RE2* ptr_ = nullptr;
  mutable std::once_flag once_;
};
#endif
