// Suggested label replacements vs. an independent reading of labels.
#include <algorithm>
#include <cstring>
#include <optional>
#include "bant/frontend/parsed-project_testutil.h"
#include "bant/tool/canon-targets.h"
#include "common.h"
using namespace bant;
struct L { std::string project, path, name; bool operator==(const L &) const = default; };
static L read(const std::string &t, const std::string &path) {
  std::string a = t, name;
  auto colon = a.find(':');
  if (colon != std::string::npos) { name = a.substr(colon + 1); a = a.substr(0, colon); }
  if (a.empty() || (colon == std::string::npos && a[0] != '@' && a[0] != '/')) return {"", path, colon == std::string::npos ? t : name};
  L r;
  if (a[0] == '@') { auto s = a.find('/'); r.project = a.substr(0, s); a = s == std::string::npos ? "" : a.substr(s); }
  if (r.project == "@") r.project = "";
  r.path = a.rfind("//", 0) == 0 ? a.substr(2) : a;
  auto s = r.path.rfind('/');
  std::string last = r.path.empty() ? (r.project.empty() ? "" : r.project.substr(1)) : r.path.substr(s == std::string::npos ? 0 : s + 1);
  r.name = colon == std::string::npos ? last : name;
  return r;
}
static std::string canon(const L &l, const std::string &path) {
  if (l.project.empty() && l.path == path) return ":" + l.name;
  auto s = l.path.rfind('/');
  std::string last = l.path.empty() ? (l.project.empty() ? "" : l.project.substr(1)) : l.path.substr(s == std::string::npos ? 0 : s + 1);
  if (last == l.name) return l.path.empty() ? l.project : l.project + "//" + l.path;
  return l.project + "//" + l.path + ":" + l.name;
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  const std::vector<std::string> paths = {"a", "a/b", "ab", ""};
  const std::vector<std::string> names = {"a", "b", "lib", "ab", "x.y", "d/e"};
  while (d.more()) {
    ParsedProjectTestUtil pp;
    std::vector<std::vector<std::string>> want;
    std::string shown;
    const std::vector<std::string> pats = {"", "//...", "//a/...", "//a:all", "//a:lib", "//a/b:*"};
    const std::string pat = pats[d.n(6)];
    shown = "pattern '" + pat + "'\n";
    for (auto &p : paths) {
      std::string content;
      for (int k = d.n(4); k >= 0; --k) {
        std::string rn = k ? (k == 1 ? "lib" : names[d.n(5)]) : "";
        std::string rule = d.n(2) ? "cc_library" : d.n(2) ? "cc_test" : "my_rule";
        content += rule + "(" + (rn.empty() ? "" : "name = \"" + rn + "\", ") + "deps = [";
        bool asked = !rn.empty() && (pat.empty() || pat == "//..." || (pat == "//a/..." && (p == "a" || p == "a/b")) || (pat == "//a:all" && p == "a") ||
                                     (pat == "//a:lib" && p == "a" && rn == "lib") || (pat == "//a/b:*" && p == "a/b"));
        for (int j = d.n(5); j > 0; --j) {
          std::string lab;
          switch (d.n(7)) {
            case 0: lab = ":" + names[d.n(6)]; break;
            case 1: lab = names[d.n(5)]; break;
            case 2: lab = "//" + paths[d.n(3)] + ":" + names[d.n(6)]; break;
            case 3: lab = "//" + paths[d.n(3)]; break;
            case 4: lab = std::string(d.n(2) ? "@" : "@ext") + "//" + paths[d.n(3)] + (d.n(2) ? ":" + names[d.n(6)] : ""); break;
            case 5: lab = d.n(2) ? "@ext" : "@lib//:lib"; break;
            default: lab = d.n(2) ? "a:b:c" : "//a//b:c"; break;
          }
          content += "\"" + lab + "\", ";
          if (lab == "a:b:c" || lab == "//a//b:c" || !asked) continue;
          std::string c = canon(read(lab, p), p);
          if (c != lab) want.push_back({(p.empty() ? "//" : "//" + p) + ":" + rn, lab, c});
        }
        content += "])\n";
      }
      pp.Add("//" + p, content);
      shown += "--- //" + p + "\n" + content;
    }
    std::stringstream so, se;
    Session session(&so, &se, CommandlineFlags{});
    std::vector<std::vector<std::string>> got;
    auto pattern = pat.empty() ? std::optional<BazelPattern>(BazelPattern()) : BazelPattern::ParseFrom(pat);
    size_t n = CreateCanonicalizeEdits(session, pp.project(), *pattern, [&](EditRequest r, const BazelTarget &t, std::string_view a, std::string_view b) {
      if (r != EditRequest::kRename) d.fail(shown, "not a replacement");
      got.push_back({t.package.project + "//" + t.package.path + ":" + t.target_name, std::string(a), std::string(b)});
    });
    if (n != got.size()) d.fail(shown, "count returned: ", n);
    for (auto &g : got)
      if (g[1] == g[2] || !(read(g[1], g[0].substr(2, g[0].rfind(':') - 2)) == read(g[2], g[0].substr(2, g[0].rfind(':') - 2))))
        d.fail(shown, "for ", g[0], ": ", g[1], " -> ", g[2], " means something else");
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (want != got) {
      std::string t;
      for (auto &g : got) t += g[0] + " " + g[1] + " -> " + g[2] + "\n";
      t += "expected\n";
      for (auto &g : want) t += g[0] + " " + g[1] + " -> " + g[2] + "\n";
      d.fail(shown, t);
    }
  }
  return d.done();
}
