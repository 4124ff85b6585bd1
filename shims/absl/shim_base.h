// Header-only stand-ins for the small part of Abseil that bant uses. The
// packaged Abseil here is built with its own absl::string_view, which the
// sources (std::string_view) do not compile against.
#ifndef VERIF_SHIM_ABSL_BASE_H
#define VERIF_SHIM_ABSL_BASE_H
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace absl {
class AlphaNum {
 public:
  AlphaNum(std::string_view s) : s_(s) {}
  AlphaNum(const std::string &s) : s_(s) {}
  AlphaNum(const char *s) : s_(s) {}
  template <typename I, typename = std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, char> &&
                                                    !std::is_same_v<I, bool>>>
  AlphaNum(I i) : s_(std::to_string(i)) {}
  operator std::string_view() const { return s_; }
 private:
  std::string s_;
};
inline std::string StrCatImpl(std::initializer_list<std::string_view> l) {
  std::string r;
  for (auto s : l) r.append(s);
  return r;
}
template <typename... A>
std::string StrCat(const A &...a) {
  return StrCatImpl({static_cast<std::string_view>(static_cast<const AlphaNum &>(AlphaNum(a)))...});
}
template <typename... A>
void StrAppend(std::string *d, const A &...a) {
  d->append(StrCat(a...));
}
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != std::string_view::npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != std::string_view::npos; }
class SplitResult {
 public:
  SplitResult(std::string_view s, char d) : s_(s), d_(d) {}
  template <typename T>
  operator std::vector<T>() const {
    std::vector<T> r;
    size_t start = 0;
    for (;;) {
      size_t p = s_.find(d_, start);
      if (p == std::string_view::npos) { r.emplace_back(s_.substr(start)); return r; }
      r.emplace_back(s_.substr(start, p - start));
      start = p + 1;
    }
  }
 private:
  std::string_view s_;
  char d_;
};
inline SplitResult StrSplit(std::string_view s, char d) { return {s, d}; }
template <typename R>
std::string StrJoin(const R &r, std::string_view sep) {
  std::string res;
  bool first = true;
  for (const auto &e : r) { if (!first) res.append(sep); first = false; res.append(e); }
  return res;
}
// Like Abseil: leftmost match first, longest pattern on ties.
inline std::string StrReplaceAll(std::string_view s,
                                 std::initializer_list<std::pair<std::string_view, std::string_view>> repl,
                                 int *count = nullptr) {
  std::string res;
  for (size_t i = 0; i < s.size();) {
    const std::pair<std::string_view, std::string_view> *best = nullptr;
    for (const auto &r : repl) {
      if (r.first.empty() || !s.substr(i).starts_with(r.first)) continue;
      if (!best || r.first.size() > best->first.size()) best = &r;
    }
    if (best) {
      res.append(best->second);
      i += best->first.size();
      if (count) ++*count;
    }
    else res.push_back(s[i++]);
  }
  return res;
}
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> repl, std::string *t) {
  int c = 0;
  *t = StrReplaceAll(*t, repl, &c);
  return c;
}
template <typename T> auto FormatArg(const T &v) {
  if constexpr (std::is_arithmetic_v<T> || std::is_pointer_v<T>) return v;
  else return v.c_str();
}
inline const char *FormatArg(const std::string &s) { return s.c_str(); }
struct HeldView { std::string s; const char *c_str() const { return s.c_str(); } };
template <typename T> decltype(auto) Hold(const T &v) {
  if constexpr (std::is_same_v<T, std::string_view>) return HeldView{std::string(v)};
  else return v;
}
template <typename... H>
std::string StrFormatHeld(const char *fmt, const H &...h) {
  char buf[65536];
  int n = snprintf(buf, sizeof(buf), fmt, FormatArg(h)...);
  return std::string(buf, n < 0 ? 0 : n);
}
template <typename... A>
std::string StrFormat(const char *fmt, const A &...a) { return StrFormatHeld(fmt, Hold(a)...); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isxdigit(unsigned char c) {
  return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
inline std::string CEscape(std::string_view s) {
  std::string r;
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    switch (c) {
    case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break;
    case '\t': r += "\\t"; break;
    case '"': r += "\\\""; break;
    case '\'': r += "\\'"; break;
    case '\\': r += "\\\\"; break;
    default:
      if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\%03o", c); r += b; }
      else r += ch;
    }
  }
  return r;
}
struct TransparentHash {
  using is_transparent = void;
  size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); }
};
template <typename T, typename = void> struct HashFor : std::hash<T> {};
template <> struct HashFor<std::string> : TransparentHash {};
template <> struct HashFor<std::string_view> : TransparentHash {};
template <typename T>
using EqFor = std::conditional_t<std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>,
                                 std::equal_to<>, std::equal_to<T>>;
template <typename T, typename H = HashFor<T>, typename E = EqFor<T>>
using flat_hash_set = std::unordered_set<T, H, E>;
template <typename K, typename V, typename H = HashFor<K>, typename E = EqFor<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
  using B = std::unordered_map<K, V, H, E>;
 public:
  using B::B;
  template <typename Q> V &operator[](const Q &k) { return B::operator[](K(k)); }
};
template <typename T, typename C = std::conditional_t<std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>, std::less<>, std::less<T>>>
using btree_set = std::set<T, C>;
template <typename K, typename V, typename C = std::conditional_t<std::is_same_v<K, std::string> || std::is_same_v<K, std::string_view>, std::less<>, std::less<K>>>
class btree_map : public std::map<K, V, C> {
  using B = std::map<K, V, C>;
 public:
  using B::B;
  using B::find; using B::erase;
  template <typename Q, typename... A> auto try_emplace(const Q &k, A &&...a) {
    return B::try_emplace(K(k), std::forward<A>(a)...);
  }
  template <typename Q> V &operator[](const Q &k) { return B::operator[](K(k)); }
};
class Duration {
 public:
  int64_t ns = 0;
  Duration &operator+=(const Duration &o) { ns += o.ns; return *this; }
};
class Time { public: int64_t ns = 0; };
inline Duration operator-(const Time &a, const Time &b) { Duration d; d.ns = a.ns - b.ns; return d; }
inline Time Now() {
  Time t;
  t.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
  return t;
}
inline int64_t ToInt64Microseconds(Duration d) { return d.ns / 1000; }
inline int64_t ToInt64Nanoseconds(Duration d) { return d.ns; }
inline double ToDoubleSeconds(Duration d) { return d.ns / 1e9; }
template <typename F> class Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  ~Cleanup() { f_(); }
 private:
  F f_;
};
}  // namespace absl
#endif
