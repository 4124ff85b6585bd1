#include "bant/frontend/source-locator.h"
#include "common.h"
using namespace bant;
static std::string I(long i) { return std::to_string(i); }
static std::string want(const LineColumnRange &r) {
  std::string s = I(r.start.line + 1L) + ":" + I(r.start.col + 1L);
  if (r.start.line == r.end.line) { if (r.end.col - 1 > r.start.col) s += "-" + I(r.end.col); }
  else s += ":" + I(r.end.line + 1L) + ":" + I(r.end.col);
  return s + ":";
}
template <typename T> std::string str(const T &t) { std::ostringstream o; o << "<"; o << t; return o.str(); }
int main(int argc, char **argv) {
  Driver d(argc, argv);
  const int big = 2147483646;
  while (d.more(3000000)) {
    auto num = [&]() -> int { switch (d.n(5)) { case 0: return d.n(3); case 1: return 8 + d.n(4); case 2: return big - d.n(3); case 3: return 98 + d.n(1000); default: return d.n(20); } };
    LineColumnRange r{{num(), num()}, {num(), num()}};
    if (d.n(2)) r.end.line = r.start.line;
    if (d.n(2)) r.end.col = (int)std::min((long)big, r.start.col + (long)d.n(4));
    std::string name(d.n(5), 'a' + d.n(26));
    FileLocation f{name, r};
    auto chk = [&](const char *w, const std::string &got, const std::string &exp) {
      if (got != exp) d.fail(w, " of {", r.start.line, ",", r.start.col, "}-{", r.end.line, ",", r.end.col, "} (0-based, end exclusive), file ", quoted(name), ": printed ", quoted(got), " expected ", quoted(exp));
    };
    chk("position", str(r.start), "<" + I(r.start.line + 1L) + ":" + I(r.start.col + 1L));
    chk("range", str(r), "<" + want(r));
    chk("file location", str(f), "<" + name + ":" + want(r));
    FixedSourceLocator loc(f);
    chk("Loc()", loc.Loc("x"), name + ":" + want(r));
    std::ostringstream o; loc.Loc(o, "x");
    chk("Loc(stream)", o.str(), name + ":" + want(r));
    if (loc.GetSurroundingLine("foo bar") != "foo bar") d.fail("surrounding line of a fixed locator");
  }
  return d.done();
}
