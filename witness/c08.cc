#include "bant/types-bazel.h"
#include "common.h"
using namespace bant;
// What bazel reads in a label (independent of the code): nullopt = not a label.
struct L { std::string project, path, name; };
static std::optional<L> oracle(const std::string &s, const BazelPackage &ctx) {
  size_t colons = 0; for (char c : s) colons += c == ':';
  if (colons > 1) return std::nullopt;
  std::string pkg = s, name;
  size_t c = s.find(':');
  if (c != s.npos) { pkg = s.substr(0, c); name = s.substr(c + 1); }
  else if (s.find('/') != s.npos) name = s.substr(s.rfind('/') + 1);
  else if (!s.empty() && s[0] == '@') name = s.substr(1);
  else { pkg = ""; name = s; }
  if (pkg.empty()) return L{ctx.project, ctx.path, name};
  if (pkg.size() < 2) return std::nullopt;
  std::string project, path = pkg;
  if (pkg[0] == '@') {
    size_t e = std::min(pkg.size(), pkg.find('/'));
    project = pkg.substr(0, e); path = pkg.substr(e);
    if (project == "@") project = "";
    project = project.substr(0, project.find('~'));
  }
  size_t b = 0, e = path.size();
  while (b < e && path[b] == '/') ++b;
  while (e > b && path[e - 1] == '/') --e;
  path = path.substr(b, e - b);
  if (path.find("//") != path.npos) return std::nullopt;
  return L{project.empty() ? ctx.project : project, path, name};
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  static const char *elt[] = {"a", "ab", "b", "a.b", "c++", "~", "a~1"};
  auto path = [&]() { std::string s; int n = d.n(4); for (int i = 0; i < n; ++i) s += (i ? "/" : "") + std::string(elt[d.n(5)]); return s; };
  while (d.more()) {
    BazelPackage ctx(d.n(2) ? "" : "@ctx", path());
    std::string s;
    if (d.n(3) == 0) { int n = d.n(9); for (int i = 0; i < n; ++i) s += "@/:~a/b/"[d.n(8)]; }
    else {
      static const char *pj[] = {"", "", "@", "@p", "@pq", "@p~", "@p~1.2", "@p~~x"};
      s = pj[d.n(8)]; if (!s.empty() || d.n(4)) s += "//"; else if (d.n(3) == 0) s += "/";
      if (d.n(6) == 0 && s.size() > 2 && s[0] == '@') s.resize(s.size() - 2); else s += path();
      if (d.n(8) == 0) s += "/";
      if (d.n(2)) s += std::string(":") + elt[d.n(7)] + (d.n(3) ? "" : "/x");
    }
    auto t = BazelTarget::ParseFrom(std::string_view(s), ctx);
    auto w = oracle(s, ctx);
    if (t.has_value() != w.has_value()) d.fail("label ", ::quoted(s), t ? " is accepted" : " is rejected");
    if (t && (t->package.project != w->project || t->package.path != w->path || t->target_name != w->name))
      d.fail("label ", ::quoted(s), " seen from ", ::quoted(ctx.ToString()), " parsed to project ", ::quoted(t->package.project), " path ", ::quoted(t->package.path), " name ", ::quoted(t->target_name));
    BazelPackage::ParseFrom(s);
    // print, parse
    std::string pr = d.n(2) ? "" : d.n(2) ? "@p" : "@a";
    if (pr.empty()) ctx.project = "";
    BazelPackage pk(pr, path());
    std::string nm = d.n(4) ? elt[d.n(7)] : pk.path.empty() ? "p" : pk.path.substr(pk.path.rfind('/') + 1);
    if (d.n(4) == 0) nm += "/x";
    BazelTarget g = *pk.QualifiedTarget(nm);
    if (d.n(4) == 0) ctx = pk;
    for (int rel = 0; rel < 2; ++rel) {
      std::string txt = rel ? g.ToStringRelativeTo(ctx) : g.ToString();
      auto r = BazelTarget::ParseFrom(txt, ctx);
      if (!r || r->package.project != pr || r->package.path != pk.path || r->target_name != nm)
        d.fail("target (", ::quoted(pr), ", ", ::quoted(pk.path), ", ", ::quoted(nm), ") prints as ", ::quoted(txt), " which seen from ", ::quoted(ctx.ToString()), " does not parse back to it");
    }
  }
  return d.done();
}
