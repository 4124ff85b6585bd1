#include "bant/types-bazel.h"
#include "common.h"
using namespace bant;
static bool glob(std::string_view g, std::string_view t) {
  if (g.empty()) return t.empty();
  if (g[0] == '*') { for (size_t i = 0; i <= t.size(); ++i) if (glob(g.substr(1), t.substr(i))) return true; return false; }
  return !t.empty() && t[0] == g[0] && glob(g.substr(1), t.substr(1));
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  static const char *elt[] = {"a", "ab", "b", "aa", "a.b"}, *proj[] = {"", "", "@p", "@pq"};
  auto path = [&]() { std::string s; int n = d.n(4); for (int i = 0; i < n; ++i) s += (i ? "/" : "") + std::string(elt[d.n(5)]); return s; };
  auto name = [&](bool star) { std::string s; int n = 1 + d.n(4); for (int i = 0; i < n; ++i) { static const char *c[] = {"a", "b", ".", "+", "_", "all", "*", "**"}; s += c[d.n(star ? 8 : 5)]; } return s; };
  { BazelPattern any; BazelPackage p("@p", "a"); if (!any.Match(p) || !any.Match(*p.QualifiedTarget("x"))) d.fail("the default pattern does not match everything"); }
  while (d.more()) {
    std::string pr = proj[d.n(4)], pa = path(), text = pr + "//" + pa, nm;
    enum { EXACT, PKG, REC, STAR } kind;
    switch (d.n(6)) {
    case 0: { static const char *n[] = {":all", ":*", ":__pkg__"}; text += n[d.n(3)]; kind = PKG; break; }
    case 1: text += (pa.empty() ? "..." : "/..."); kind = REC; break;
    case 2: text += ":__subpackages__"; kind = REC; break;
    case 3: case 4: nm = name(true); if (nm.find('*') == nm.npos) nm += "*"; if (nm == "*" || nm == "all") nm = "*x"; text += ":" + nm; kind = STAR; break;
    default: nm = "n" + name(false); text += ":" + nm; kind = EXACT;
    }
    auto pat = BazelPattern::ParseFrom(text);
    if (!pat) d.fail("pattern ", ::quoted(text), " is not accepted");
    for (int k = 0; k < 8; ++k) {
      BazelPackage up(d.n(3) ? pr : proj[d.n(4)], d.n(2) ? pa : d.n(2) ? pa + (d.n(2) && !pa.empty() ? "/" : "") + "ab" : path());
      auto u = up.QualifiedTarget(d.n(2) && !nm.empty() && kind == EXACT ? nm : (d.n(2) ? "n" : "") + name(false));
      if (!u) continue;
      bool same = up.project == pr && up.path == pa;
      bool below = up.project == pr && (pa.empty() || up.path == pa || up.path.starts_with(pa + "/"));
      bool wt = kind == PKG ? same : kind == REC ? below : kind == STAR ? same && glob(nm, u->target_name) : same && u->target_name == nm;
      bool wp = kind == REC ? below : same;
      if (pat->Match(*u) != wt) d.fail("pattern ", ::quoted(text), wt ? " does not match " : " matches ", "target ", ::quoted(u->target_name), " of package ", ::quoted(up.ToString()));
      if (pat->Match(up) != wp) d.fail("pattern ", ::quoted(text), wp ? " does not match " : " matches ", "package ", ::quoted(up.ToString()));
    }
  }
  return d.done();
}
