// Visibility as granted by the dependency tool vs. an independent reading of the lists.
#include <cstring>
#include <map>
#include "bant/tool/dwyu.cc"
#include "bant/frontend/parsed-project_testutil.h"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  const std::vector<std::string> pkgs = {"//a", "//a/b", "//ab", "//c", "//"};
  const std::vector<std::string> extra = {":group", "VARIABLE", "42"};
  while (d.more()) {
    ParsedProjectTestUtil pp;
    struct Lib { std::string pkg, name, depr; bool has_vis; std::vector<std::string> vis; };
    std::vector<Lib> libs;
    std::string shown;
    for (auto &p : pkgs) {
      auto entry = [&]() -> std::string {
        switch (d.n(9)) {
          case 0: return "//visibility:public";
          case 1: return "//visibility:private";
          case 2: case 3: return pkgs[d.n(4)] + ":__pkg__";
          case 4: case 5: return pkgs[d.n(4)] + ":__subpackages__";
          case 6: return d.n(2) ? ":__pkg__" : ":__subpackages__";
          default: return d.n(3) ? pkgs[d.n(4)] + "/..." : extra[d.n(3)];
        }
      };
      std::string content;
      bool dflt = d.n(3) == 0;
      std::vector<std::string> dv;
      auto list = [&](std::vector<std::string> &v) {
        std::string r = "[";
        for (int k = d.n(4); k > 0; --k) {
          v.push_back(entry());
          r += (v.back() == "VARIABLE" || v.back() == "42" ? v.back() : "\"" + v.back() + "\"") + ", ";
        }
        return r + "]";
      };
      if (dflt) { std::string l = list(dv); content += "package(default_visibility = " + l + ")\n"; }
      for (const char *n : {"x", "protobuf_headers", "y"}) {
        Lib l{p, n, d.n(9) ? "" : "old", false, {}};
        content += std::string("cc_library(name = \"") + n + "\", hdrs = [\"" + n + ".h\"],";
        if (!l.depr.empty()) content += " deprecation = \"old\",";
        if (d.n(3)) { l.has_vis = true; content += " visibility = " + list(l.vis) + ","; }
        else if (dflt) { l.has_vis = true; l.vis = dv; }
        content += ")\n";
        libs.push_back(l);
      }
      pp.Add(p, content);
      shown += "--- " + p + "\n" + content;
    }
    std::stringstream so, se;
    Session session(&so, &se, CommandlineFlags{});
    DWYUGenerator gen(session, pp.project(), [](EditRequest, const BazelTarget &, std::string_view, std::string_view) {});
    auto path = [](const std::string &p) { return p.substr(2); };
    auto under = [](const std::string &p, const std::string &base) { return base.empty() || p == base || p.rfind(base + "/", 0) == 0; };
    for (auto &u : libs) for (auto &l : libs) {
      bool want;
      if (!l.depr.empty()) want = false;
      else if (l.pkg == u.pkg) want = true;
      else if (l.name == "protobuf_headers") want = false;
      else if (!l.has_vis) want = true;
      else {
        bool hit = false, any = false;
        for (auto &v : l.vis) {
          if (v == "VARIABLE" || v == "42") { if (v == "42") any = hit = true; continue; }
          any = true;
          std::string s = v;
          if (s == "//visibility:public") hit = true;
          else if (s == "//visibility:private") hit |= false;
          else if (s.ends_with("/...")) hit |= under(path(u.pkg), s.size() > 6 ? s.substr(2, s.size() - 6) : "");
          else if (s[0] == ':' && s != ":group") hit |= s == ":__subpackages__" && under(path(u.pkg), path(l.pkg));
          else if (s.ends_with(":__pkg__")) hit |= path(u.pkg) == s.substr(2, s.size() - 10);
          else if (s.ends_with(":__subpackages__")) hit |= under(path(u.pkg), s.substr(2, s.size() - 18));
          else hit = true;     // groups
        }
        want = hit || !any;
      }
      BazelTarget ut{*BazelPackage::ParseFrom(u.pkg), u.name}, lt{*BazelPackage::ParseFrom(l.pkg), l.name};
      if (gen.CanSee(ut, lt) != want) d.fail(u.pkg + ":" + u.name, want ? "should see" : "should not see", l.pkg + ":" + l.name, "in\n" + shown);
    }
  }
  return d.done();
}
