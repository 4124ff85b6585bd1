#include <charconv>
#include <cstring>
#include <memory>
#include <optional>
#include "bant/frontend/ast.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/scanner.h"
#include "bant/util/arena.h"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  while (d.more()) {
    std::string s, want; bool raw = false, tri = false;
    if (d.n(2)) {
      raw = d.n(3) == 0; tri = d.n(3) == 0;
      std::string q(1, d.n(2) ? '"' : '\'');
      int n = d.n(7);
      for (int i = 0; i < n; ++i) { char c = "ab'\"\n\\r "[d.n(8)]; if (c == q[0]) c = 'x'; want += c; if (c == '\\') want += d.n(2) ? q[0] : 'n'; }
      if (tri && n > 1 && d.n(2)) { want[0] = 'z'; if (want[1] == q[0]) want[1] = 'z'; want.insert(1, q); }
      std::string w = tri ? q + q + q : q;
      s = std::string(raw ? d.n(2) ? "r" : "R" : "") + w + want + w;
    } else {
      s = "0"; switch (d.n(4)) { case 0: s = "0x"; break; case 1: s = "0o"; break; case 2: s = std::string(1, '0' + d.n(10)); }
      int n = d.n(4) ? d.n(6) : 15 + d.n(8);
      for (int i = 0; i < n; ++i) s += s[1 % s.size()] == 'x' ? "0123456789abcdefABCDEF"[d.n(22)] : "0123456789"[d.n(d.n(2) ? 8 : 10)];
      if (d.n(8) == 0) s += "." + std::to_string(d.n(30));
    }
    std::unique_ptr<char[]> buf(new char[s.size()]); memcpy(buf.get(), s.data(), s.size());
    NamedLineIndexedContent nc("x", std::string_view(buf.get(), s.size()));
    Scanner sc(nc);
    Token t = sc.Next();
    if (t.text.size() != s.size()) continue;   // not a single token (the scanner's property)
    Arena arena(1024);
    if (t.type == TokenType::kStringLiteral) {
      auto *n = StringScalar::FromLiteral(&arena, t.text);
      if (!n) d.fail("string token ", ::quoted(s), " has no value");
      if (n->AsString() != want || n->is_raw() != raw || n->is_triple_quoted() != tri)
        d.fail("string token ", ::quoted(s), " has the value ", ::quoted(n->AsString()), n->is_raw() ? " raw" : "", n->is_triple_quoted() ? " triple quoted" : "");
      if (n->AsString().data() < t.text.data() || n->AsString().data() > t.text.data() + t.text.size()) d.fail("the value of ", ::quoted(s), " is not a view of the content");
    } else if (t.type == TokenType::kNumberLiteral) {
      unsigned __int128 v = 0; int base = 10; size_t i = 0; bool ok = true;
      if (s.size() > 1 && s[1] == 'x') base = 16, i = 2;
      if (s.size() > 1 && s[1] == 'o') base = 8, i = 2;
      size_t b = i;
      for (; i < s.size() && s[i] != '.'; ++i) { int x = s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10; if (x >= base) ok = false; v = v * base + x; if (v >> 63) { ok = false; break; } }
      if (i == b) ok = false;
      auto *n = IntScalar::FromLiteral(&arena, t.text);
      if ((n != nullptr) != ok) d.fail("number token ", ::quoted(s), n ? " is accepted as " + std::to_string(n->AsInt()) : " is rejected");
      if (n && (n->AsInt() != (int64_t)v || n->AsString() != s)) d.fail("number token ", ::quoted(s), " has the value ", n->AsInt());
    }
  }
  return d.done();
}
