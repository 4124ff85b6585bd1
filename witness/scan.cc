// Replay driver for C05 (-DC05) and C06 (-DC06).
#include <cstring>
#include <memory>
#include "bant/frontend/scanner.h"
#include "common.h"
using namespace bant;
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool id(char c) { return al(c) || dg(c) || c == '_'; }
static bool hx(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
struct Tok { int type; size_t b, e; };
static size_t skip(const std::string &s, size_t p) {
  bool com = false;
  for (; p < s.size(); ++p) {
    if (s[p] == '\n') com = false;
    else if (s[p] == '#') com = true;
    else if (!com && !sp(s[p]) && s[p] != '\\') break;
  }
  return p;
}
static Tok next(const std::string &s, size_t p) {
  const size_t n = s.size();
  auto at = [&](size_t i) { return i < n ? s[i] : '\0'; };
  p = skip(s, p);
  if (p >= n) return {TokenType::kEof, n, n};
  char c = s[p];
  if (c && strchr("(){}[],:+-*/.%|", c)) return {c, p, p + 1};
  if (c && strchr("!<>=", c)) return p + 1 < n && s[p + 1] == '=' ? Tok{c + 256, p, p + 2} : Tok{c, p, p + 1};
  bool raw = (c == 'r' || c == 'R') && p + 2 < n && (s[p + 1] == '"' || s[p + 1] == '\'');
  if (raw || c == '"' || c == '\'') {
    size_t i = p + raw;
    char q = s[i++];
    bool tr = i + 1 < n && s[i] == q && s[i + 1] == q;
    if (tr) i += 2;
    for (; i < n; ++i) {
      if (s[i] == '\\') { ++i; continue; }
      if (s[i] != q) continue;
      if (!tr) return {TokenType::kStringLiteral, p, i + 1};
      if (i + 2 < n && s[i + 1] == q && s[i + 2] == q) return {TokenType::kStringLiteral, p, i + 3};
    }
    return {TokenType::kError, p, n};
  }
  if (dg(c)) {
    size_t i = p + 1;
    bool h = c == '0' && at(i) == 'x' && i < n, o = c == '0' && at(i) == 'o' && i < n, dot = false;
    if (h || o) ++i;
    for (; i < n && (s[i] == '.' || (h ? hx(s[i]) : dg(s[i]))); ++i)
      if (s[i] == '.') { if (dot) return {TokenType::kError, p, i}; dot = true; }
    return {TokenType::kNumberLiteral, p, i};
  }
  if (!id(c)) return {TokenType::kError, p, p + 1};
  size_t e = p;
  while (e < n && id(s[e])) ++e;
  std::string w = s.substr(p, e - p);
  if (w == "not") {
    size_t i = e;
    while (i < n && sp(s[i])) ++i;
    if (i > e && i + 2 <= n && s[i] == 'i' && s[i + 1] == 'n' && (i + 2 == n || !id(s[i + 2]))) return {TokenType::kNotIn, p, i + 2};
    return {TokenType::kNot, p, e};
  }
  int t = w == "in" ? kIn : w == "for" ? kFor : w == "and" ? kAnd : w == "or" ? kOr : w == "if" ? kIf : w == "else" ? kElse : kIdentifier;
  return {t, p, e};
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  static const char *frag[] = {"not", "in", "not in", "not\nin", "not  int", "for", "and", "or", "if", "else", "r\"", "R'", "'''", "\"\"\"", "\"", "'", "''", "\\", "\\\\", "\\\"", "\n", " ", "\t", "#", "# c", "0x", "0o", "0", "1", "9", ".", "..", "1.5", "af", "G", "==", "!=", "<=", ">=", "=", "!", "<", ">", "(", ")", "[", "]", "{", "}", ",", ":", "+", "-", "*", "/", "%", "|", "a", "r", "R", "_x", "foo", "\xff", "$", "i", "n", "t", "\r", "\v"};
  while (d.more()) {
    std::string s;
    int parts = d.n(2) ? d.n(6) : d.n(40);
    for (int i = 0; i < parts; ++i) { if (d.n(20) == 0) s += (char)d.n(256); else s += frag[d.n(sizeof(frag) / sizeof(*frag))]; if (d.n(3) == 0) s += d.n(4) ? " " : "\n"; }
    std::unique_ptr<char[]> buf(new char[s.size()]);   // exact size: ASan sees any read outside
    memcpy(buf.get(), s.data(), s.size());
    std::string_view v(buf.get(), s.size());
    NamedLineIndexedContent c("f", v);
    Scanner sc(c);
    size_t pos = 0;
    auto at = [&]() { return "content " + ::quoted(s) + " at offset " + std::to_string(pos) + ": "; };
    for (;;) {
#ifdef C06
      for (int k = d.n(3); k > 0; --k) {
        Token p = sc.Peek();
        Tok w = next(s, pos);
        if (p.text.data() != v.data() + w.b || p.text.size() != w.e - w.b || p.type != w.type) d.fail(at(), "Peek returns ", ::quoted(p.text), " type ", (int)p.type, ", expected type ", w.type, " ", ::quoted(s.substr(w.b, w.e - w.b)));
      }
#endif
      Token t = sc.Next();
      size_t b = t.text.data() - v.data(), e = b + t.text.size();
      if (b < pos || b > s.size() || e > s.size()) d.fail(at(), "token outside the remaining content");
      if (t.type == TokenType::kEof ? (b != s.size() || e != b) : e == b) d.fail(at(), "empty token or early end-of-file");
      if (skip(s, pos) != b) d.fail(at(), "the gap is not just the blanks and comments: token starts at ", b);
#ifdef C06
      Tok w = next(s, pos);
      if (b != w.b || e != w.e || (int)t.type != w.type) d.fail(at(), "got ", ::quoted(t.text), " type ", (int)t.type, ", expected type ", w.type, " ", ::quoted(s.substr(w.b, w.e - w.b)));
#endif
      pos = e;
      if (t.type == TokenType::kEof) break;
    }
#ifdef C05
    int line = 0, col = 0;
    for (size_t i = 0; i <= s.size(); ++i) {
      LineColumn lc = c.GetLocation(v.substr(i, 0)).line_column_range.start;
      if (lc.line != line || lc.col != col) { pos = i; d.fail(at(), "line index gives ", lc, " instead of line ", line + 1, " column ", col + 1); }
      if (i < s.size() && s[i] == '\n') { ++line; col = 0; } else ++col;
    }
#endif
  }
  return d.done();
}
