// ABI-compatible declarations for the installed libre2.so.10 (20230301), whose
// headers are not packaged in this sandbox. Only what bant uses.
#ifndef VERIF_SHIM_RE2_H
#define VERIF_SHIM_RE2_H
#include <cstddef>
#include <mutex>
#include <string>
#include <string_view>
namespace re2 {
class StringPiece {
 public:
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(const std::string_view &s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string &s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char *s) : data_(s), size_(s ? __builtin_strlen(s) : 0) {}
  const char *data() const { return data_; }
  size_t size() const { return size_; }
  operator std::string_view() const { return {data_, size_}; }
 private:
  const char *data_;
  size_t size_;
};
class RE2 {
 public:
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  class Options {
   public:
    Options() { Init(); }
    void set_log_errors(bool b) { log_errors_ = b; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
   private:
    void Init() {
      encoding_ = 1; posix_syntax_ = false; longest_match_ = false; log_errors_ = true;
      max_mem_ = 8 << 20; literal_ = false; never_nl_ = false; dot_nl_ = false;
      never_capture_ = false; case_sensitive_ = true; perl_classes_ = false;
      word_boundary_ = false; one_line_ = false;
    }
    // Layout of RE2::Options in 20230301.
    long max_mem_; int encoding_;
    bool posix_syntax_, longest_match_, log_errors_, literal_, never_nl_, dot_nl_,
      never_capture_, case_sensitive_, perl_classes_, word_boundary_, one_line_;
  };
  RE2(const char *pattern);
  RE2(const std::string &pattern);
  RE2(const StringPiece &pattern);
  RE2(const std::string_view &pattern) : RE2(StringPiece(pattern)) {}
  RE2(const StringPiece &pattern, const Options &options);
  ~RE2();
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;
  // Field offsets of RE2 in 20230301: pattern_ @0, error_ @48, error_code_ @68 (29 bits).
  bool ok() const { return error_code() == 0; }
  int error_code() const {
    unsigned v; __builtin_memcpy(&v, reinterpret_cast<const char *>(this) + 68, 4);
    return static_cast<int>(v & 0x1fffffff);
  }
  const std::string &error() const {
    const std::string *p; __builtin_memcpy(&p, reinterpret_cast<const char *>(this) + 48, 8);
    return *p;
  }
  const std::string &pattern() const {
    const std::string *p; __builtin_memcpy(&p, reinterpret_cast<const char *>(this), 8);
    return *p;
  }

  class Arg {
   public:
    typedef bool (*Parser)(const char *str, size_t n, void *dest);
    Arg() : arg_(nullptr), parser_(nullptr) {}
    Arg(std::nullptr_t) : Arg() {}
    Arg(std::string_view *p) : arg_(p), parser_([](const char *s, size_t n, void *d) {
      *static_cast<std::string_view *>(d) = std::string_view(s, n); return true; }) {}
    Arg(std::string *p) : arg_(p), parser_([](const char *s, size_t n, void *d) {
      static_cast<std::string *>(d)->assign(s, n); return true; }) {}
   private:
    void *arg_; Parser parser_;
  };
  static bool FullMatchN(const StringPiece &text, const RE2 &re, const Arg *const args[], int n);
  static bool PartialMatchN(const StringPiece &text, const RE2 &re, const Arg *const args[], int n);
  static bool FindAndConsumeN(StringPiece *input, const RE2 &re, const Arg *const args[], int n);
  static std::string QuoteMeta(const StringPiece &unquoted);

  static bool FullMatch(std::string_view t, const RE2 &re) { return FullMatchN(t, re, nullptr, 0); }
  static bool PartialMatch(std::string_view t, const RE2 &re) { return PartialMatchN(t, re, nullptr, 0); }
  template <typename... A>
  static bool FindAndConsume(std::string_view *in, const RE2 &re, A &&...a) {
    Arg arr[] = {Arg(a)...};
    const Arg *all[sizeof...(A)];
    for (size_t i = 0; i < sizeof...(A); ++i) all[i] = &arr[i];
    StringPiece p(*in);
    bool r = FindAndConsumeN(&p, re, all, sizeof...(A));
    *in = std::string_view(p);
    return r;
  }
 private:
  alignas(16) char raw_[1024];  // opaque; larger than the real object
};
class LazyRE2 {
 public:
  const RE2 &operator*() const { return *get(); }
  const RE2 *operator->() const { return get(); }
  const RE2 *get() const {
    if (!ptr_) ptr_ = new RE2(pattern_);
    return ptr_;
  }
  const char *pattern_;
  mutable RE2 *ptr_ = nullptr;
};
}  // namespace re2
using re2::RE2;
using re2::LazyRE2;
#endif
