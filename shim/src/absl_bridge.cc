// The shim's absl/base/options.h makes absl::string_view an alias of
// std::string_view. The few out-of-line abseil functions whose signature then
// differs from the installed library's are defined here.
#include <cstring>
#include <ostream>
#include <string>
#include "absl/status/status.h"
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/match.h"

// Hidden: the installed libraries keep using their own versions.
#pragma GCC visibility push(hidden)

namespace absl {
ABSL_NAMESPACE_BEGIN

Status::Status(absl::StatusCode code, absl::string_view msg)
    : rep_(CodeToInlinedRep(code)) {
  if (code != absl::StatusCode::kOk && !msg.empty())
    rep_ = PointerToRep(new status_internal::StatusRep(code, msg, nullptr));
}
std::string Status::ToStringSlow(StatusToStringMode) const {
  return StatusCodeToString(code()) + ": " + std::string(message());
}
std::ostream& operator<<(std::ostream& os, const Status& x) {
  return os << x.ToString();
}
#define E(N, C) \
  Status N##Error(absl::string_view m) { return Status(StatusCode::k##C, m); }
E(Aborted, Aborted)
E(AlreadyExists, AlreadyExists)
E(Cancelled, Cancelled)
E(DataLoss, DataLoss)
E(DeadlineExceeded, DeadlineExceeded)
E(FailedPrecondition, FailedPrecondition)
E(Internal, Internal)
E(InvalidArgument, InvalidArgument)
E(NotFound, NotFound)
E(OutOfRange, OutOfRange)
E(PermissionDenied, PermissionDenied)
E(ResourceExhausted, ResourceExhausted)
E(Unauthenticated, Unauthenticated)
E(Unavailable, Unavailable)
E(Unimplemented, Unimplemented)
E(Unknown, Unknown)
#undef E

// AlphaNum holds a string_view, so everything out of line that touches one has
// to come from here too (the library's version has the other layout).
AlphaNum::AlphaNum(Hex hex) {
  char buf[32];
  char* end = buf + sizeof(buf);
  char* w = end;
  uint64_t v = hex.value;
  do {
    *--w = "0123456789abcdef"[v & 0xf];
    v >>= 4;
  } while (v != 0);
  while (static_cast<size_t>(end - w) < hex.width) *--w = hex.fill;
  std::memcpy(digits_, w, end - w);
  piece_ = absl::string_view(digits_, end - w);
}
AlphaNum::AlphaNum(Dec dec) {
  char buf[32];
  char* end = buf + sizeof(buf);
  char* w = end;
  uint64_t v = dec.value;
  do {
    *--w = '0' + (v % 10);
    v /= 10;
  } while (v != 0);
  if (dec.neg) {
    if (dec.fill == '0') {
      while (static_cast<size_t>(end - w) + 1 < dec.width) *--w = '0';
      *--w = '-';
    } else {
      *--w = '-';
    }
  }
  while (static_cast<size_t>(end - w) < dec.width) *--w = dec.fill;
  std::memcpy(digits_, w, end - w);
  piece_ = absl::string_view(digits_, end - w);
}
using AN = AlphaNum;
std::string StrCat(const AN& a, const AN& b) {
  return strings_internal::CatPieces({a.Piece(), b.Piece()});
}
std::string StrCat(const AN& a, const AN& b, const AN& c) {
  return strings_internal::CatPieces({a.Piece(), b.Piece(), c.Piece()});
}
std::string StrCat(const AN& a, const AN& b, const AN& c, const AN& d) {
  return strings_internal::CatPieces(
      {a.Piece(), b.Piece(), c.Piece(), d.Piece()});
}
void StrAppend(std::string* s, const AN& a) {
  strings_internal::AppendPieces(s, {a.Piece()});
}
void StrAppend(std::string* s, const AN& a, const AN& b) {
  strings_internal::AppendPieces(s, {a.Piece(), b.Piece()});
}
void StrAppend(std::string* s, const AN& a, const AN& b, const AN& c) {
  strings_internal::AppendPieces(s, {a.Piece(), b.Piece(), c.Piece()});
}
void StrAppend(std::string* s, const AN& a, const AN& b, const AN& c,
               const AN& d) {
  strings_internal::AppendPieces(s,
                                 {a.Piece(), b.Piece(), c.Piece(), d.Piece()});
}

namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> pieces) {
  std::string r;
  for (auto p : pieces) r.append(p);
  return r;
}
void AppendPieces(std::string* dest,
                  std::initializer_list<absl::string_view> pieces) {
  std::string r;
  for (auto p : pieces) r.append(p);
  dest->append(r);
}
}  // namespace strings_internal

namespace {
template <typename Pos>
absl::string_view At(absl::string_view text, Pos pos, size_t len) {
  if (pos == absl::string_view::npos)
    return absl::string_view(text.data() + text.size(), 0);
  return text.substr(pos, len);
}
}  // namespace
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const {
  return At(text, text.find(c_, pos), 1);
}
ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const {
  if (delimiter_.empty() && text.length() > 0)
    return absl::string_view(text.data() + pos + 1, 0);
  return At(text, text.find(delimiter_, pos), delimiter_.size());
}
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp) {}
absl::string_view ByAnyChar::Find(absl::string_view text, size_t pos) const {
  return At(text, text.find_first_of(delimiters_, pos), 1);
}

std::string StrReplaceAll(
    absl::string_view s,
    std::initializer_list<std::pair<absl::string_view, absl::string_view>>
        repl) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& r : repl)
      if (!r.first.empty() && s.substr(i, r.first.size()) == r.first &&
          (!best || r.first.size() > best->first.size()))
        best = &r;
    if (best) {
      out.append(best->second);
      i += best->first.size();
    } else {
      out.push_back(s[i++]);
    }
  }
  return out;
}

namespace numbers_internal {
namespace {
// As documented in absl/strings/numbers.h: optional surrounding whitespace,
// optional sign, prefix allowed for base 16 (and for base 0), no overflow.
template <typename T>
bool Parse(absl::string_view t, T* v, int base) {
  *v = 0;
  auto sp = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (!t.empty() && sp(t.front())) t.remove_prefix(1);
  while (!t.empty() && sp(t.back())) t.remove_suffix(1);
  if (t.empty()) return false;
  bool neg = false;
  if (t[0] == '-' || t[0] == '+') {
    neg = t[0] == '-';
    t.remove_prefix(1);
    if (t.empty()) return false;
  }
  bool hex = t.size() >= 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X');
  if (base == 0) {
    if (hex) {
      base = 16;
      t.remove_prefix(2);
    } else if (t[0] == '0') {
      base = 8;
    } else {
      base = 10;
    }
  } else if (base == 16 && hex) {
    t.remove_prefix(2);
  }
  if (t.empty()) return false;
  if (neg && !std::is_signed<T>::value) return false;
  unsigned __int128 acc = 0;
  unsigned __int128 lim =
      static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + neg;
  bool over = false;
  for (char c : t) {
    int d = c >= '0' && c <= '9'   ? c - '0'
            : c >= 'a' && c <= 'z' ? c - 'a' + 10
            : c >= 'A' && c <= 'Z' ? c - 'A' + 10
                                   : 99;
    if (d >= base) return false;
    if (!over) {
      acc = acc * base + d;
      if (acc > lim) over = true;
    }
  }
  if (over) {
    *v = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    return false;
  }
  *v = neg ? static_cast<T>(0 - static_cast<unsigned long long>(acc))
           : static_cast<T>(acc);
  return true;
}
}  // namespace
bool safe_strto32_base(absl::string_view t, int32_t* v, int b) {
  return Parse(t, v, b);
}
bool safe_strto64_base(absl::string_view t, int64_t* v, int b) {
  return Parse(t, v, b);
}
bool safe_strtou32_base(absl::string_view t, uint32_t* v, int b) {
  return Parse(t, v, b);
}
bool safe_strtou64_base(absl::string_view t, uint64_t* v, int b) {
  return Parse(t, v, b);
}
}  // namespace numbers_internal

bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept {
  return a.size() == b.size() && StartsWithIgnoreCase(a, b);
}
bool StartsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept {
  if (t.size() < p.size()) return false;
  for (size_t i = 0; i < p.size(); i++)
    if (absl::ascii_tolower(t[i]) != absl::ascii_tolower(p[i])) return false;
  return true;
}

namespace str_format_internal {
StringConvertResult FormatConvertImpl(absl::string_view v,
                                      FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink) {
  if (conv.precision() >= 0) v = v.substr(0, conv.precision());
  size_t pad = conv.width() > (int)v.size() ? conv.width() - v.size() : 0;
  if (!conv.has_left_flag()) sink->Append(pad, ' ');
  for (char c : v) sink->Append(1, c);
  if (conv.has_left_flag()) sink->Append(pad, ' ');
  return {true};
}
template bool FormatArgImpl::Dispatch<absl::string_view>(
    Data, FormatConversionSpecImpl, void*);
}  // namespace str_format_internal

ABSL_NAMESPACE_END
}  // namespace absl
