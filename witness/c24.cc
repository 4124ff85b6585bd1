// The command line on a little workspace in a scratch directory: prefixes act like the word they abbreviate, or are refused.
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <map>
#include "bant/cli-commands.cc"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  char tmpl[] = "/tmp/c24.XXXXXX";
  if (!mkdtemp(tmpl) || chdir(tmpl)) return 9;
  struct Clean { std::string p; ~Clean() { std::filesystem::remove_all(p); } } clean{tmpl};
  { std::ofstream("MODULE.bazel") << "module(name = \"m\", version = \"1\")\nbazel_dep(name = \"dd\", version = \"2\")\n";
    std::ofstream("BUILD") << "cc_library(name = \"l\", srcs = [\"l.cc\"], hdrs = [\"l.h\"], deps = [\"//:m\"])\ncc_library(name = \"m\", hdrs = [\"m.h\"])\n"
                              "alias(name = \"al\", actual = \":m\")\ngenrule(name = \"g\", outs = [\"o.h\"])\n";
    std::ofstream("l.cc") << "#include \"l.h\"\n"; std::ofstream("l.h") << "#include \"m.h\"\n"; std::ofstream("m.h") << "\n"; }
  // what shows that it was this command
  const std::map<std::string, std::string> words = {
    {"parse", ""}, {"print", "cc_library"}, {"list-packages", "BUILD "}, {"list-targets", "BUILD:"}, {"workspace", ""}, {"lib-headers", "l.h "},
    {"aliased-by", "//:al"}, {"depends-on", "//:l"}, {"has-dependents", "//:m"}, {"genrule-outputs", "o.h"}, {"dwyu", ""},
    {"compilation-db", "["}, {"compile-flags", ""}, {"canonicalize", "buildozer"}};
  auto runit = [&](std::vector<std::string> a, std::string *text, std::string *err) {
    std::stringstream so, se;
    Session session(&so, &se, CommandlineFlags{});
    std::vector<std::string_view> v(a.begin(), a.end());
    CliStatus r = RunCliCommand(session, std::span<std::string_view>(v));
    *text = so.str(); *err = se.str();
    return r;
  };
  std::vector<std::string> names;
  for (auto &[w, _] : words) names.push_back(w);
  auto ls = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += "'" + x + "' "; return r; };
  std::string bad;
  while (d.more() && bad.empty()) {
    std::string word = names[d.n(names.size())];
    word = d.n(8) ? word.substr(0, d.n(word.size() + 1)) : word + (d.n(2) ? "x" : "-");
    std::vector<std::string> a;
    if (d.n(20)) a.push_back(word);
    const char *pats[] = {"//...", "//:l", "//:m", "a:b:c:d//", "...", "//x/..."};
    if (!a.empty()) for (int k = d.n(4); k > 0; --k) a.push_back(pats[d.n(6)]);
    std::vector<std::string> hits;
    if (!a.empty()) for (auto &w : names) { if (w == word) { hits = {w}; break; } if (w.rfind(word, 0) == 0) hits.push_back(w); }
    std::string t, e, t2, e2;
    CliStatus r = runit(a, &t, &e);
    if (hits.size() != 1) {
      if (r != CliStatus::kExitCommandlineClarification || e.empty() || !t.empty()) bad = ls(a) + ": unclear command not refused";
      continue;
    }
    std::string c = hits[0];
    std::vector<std::string> b = a;
    b[0] = c;
    if (runit(b, &t2, &e2) != r || t2 != t) { bad = ls(a) + ": not the same as " + ls(b); continue; }
    bool valid = a.size() == 1 || (a.size() == 2 && BazelPattern::ParseFrom(a[1]).has_value());
    bool needs = c == "print" || c == "dwyu" || c == "canonicalize";
    bool fine = valid && !(needs && a.size() == 1);
    if (!fine && (r == CliStatus::kExitSuccess || r == CliStatus::kExitCleanupFindings || !t.empty())) bad = ls(a) + ": accepted";
    if (fine && (r == CliStatus::kExitCommandlineClarification || r == CliStatus::kExitFailure)) bad = ls(a) + ": refused: " + e;
    if (fine && a.size() == 2 && a[1] == "//..." && t.find(words.at(c)) == std::string::npos) bad = ls(a) + ": printed " + t;
  }
  clean.~Clean();
  if (!bad.empty()) d.fail(bad);
  return d.done();
}
