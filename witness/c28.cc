// Writes build files together with the rules in them, searches them and compares what is reported.
#include <csignal>
#include <map>
#include "bant/explore/query-utils.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "common.h"
using namespace bant;
static Driver *D;
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
static std::string word() { static const char *const k[] = {"a", "b", "x.h", ":lib", "foo", "", "True", "name"}; return k[D->n(8)]; }
struct Val { std::string text; char kind; std::string s; long i; };     // kind: s(tring) n(umber) l(ist) i(dentifier) o(ther)
static Val value() {
  switch (D->n(9)) {
    case 0: case 1: case 2: { std::string w = word(); return {Q(w), 's', w, 0}; }
    case 3: { long i = D->n(3); return {std::to_string(i), 'n', std::to_string(i), i}; }
    case 4: case 5: {
      Val v{"[", 'l', "[", 0};
      for (int k = D->n(4); k > 0; --k) {
        std::string w = word();
        switch (D->n(5)) {
          case 0: v.text += "VAR, "; break;
          case 1: v.text += "f(" + Q(w) + "), "; break;
          default: v.text += Q(w) + ", "; if (!w.empty()) v.s += w + ",";
        }
      }
      v.text += "]";
      return v;
    }
    case 6: { static const char *const k[] = {"True", "False", "VAR"}; std::string w = k[D->n(3)]; return {w, 'i', w, 0}; }
    case 7: return {"glob([" + Q(word()) + "])", 'o', "", 0};
    default: return {Q(word()) + " if VAR else " + Q(word()), 'o', "", 0};
  }
}
static const std::vector<std::string> kText = {"name", "actual", "version", "repo_name", "deprecation", "include_prefix", "strip_include_prefix"};
static const std::vector<std::string> kList = {"srcs", "hdrs", "textual_hdrs", "public_hdrs", "deps", "outs", "visibility", "includes"};
static std::string Show(const query::Result &r) {
  std::ostringstream o;
  auto l = [](List *l) { if (!l) return std::string("none"); std::string s = "["; for (auto x : query::ExtractStringList(l)) s += std::string(x) + ","; return s; };
  o << r.rule << "|" << r.node->identifier()->id() << "|" << r.name << "|" << r.actual << "|" << r.version << "|" << r.repo_name << "|" << r.deprecation << "|" << r.include_prefix << "|" << r.strip_include_prefix
    << "|" << l(r.srcs_list) << "|" << l(r.hdrs_list) << "|" << l(r.textual_hdrs) << "|" << l(r.public_hdrs) << "|" << l(r.deps_list) << "|" << l(r.outs_list) << "|" << l(r.visibility)
    << "|" << l(r.includes_list) << "|" << r.alwayslink << r.testonly;
  return o.str();
}
static std::string pkgvis;
static std::vector<std::string> want;
static bool any_empty;
static std::set<std::string> rules;
static std::string call() {
  static const char *const k[] = {"cc_library", "cc_binary", "alias", "foo", "package", "cc_library"};
  const std::string rule = k[D->n(6)];
  std::map<std::string, std::string> text, list;
  bool flag[2] = {false, false};
  bool hdrs_empty = true;
  std::string t = rule + "(", dv = pkgvis;
  for (int i = D->n(7); i >= 0; --i) {
    std::string key;
    switch (D->n(8)) {
      case 0: case 1: key = "name"; break;
      case 2: key = kText[D->n(kText.size())]; break;
      case 3: case 4: key = kList[D->n(kList.size())]; break;
      case 5: key = D->n(2) ? "alwayslink" : "testonly"; break;
      case 6: key = "default_visibility"; break;
      default: key = "other";
    }
    const Val v = value();
    t += (D->n(3) ? "\n  " : "") + key + " = " + v.text + ",";
    for (auto &x : kText) if (key == x && (v.kind == 's' || v.kind == 'n')) text[x] = v.s;
    for (auto &x : kList) if (key == x && v.kind == 'l') { list[x] = v.s; if (x == "hdrs") hdrs_empty = v.text == "[]"; }
    if (key == "alwayslink" || key == "testonly") {
      bool &f = flag[key == "testonly"];
      if (v.kind == 's' || v.kind == 'n') f = v.i != 0;
      if (v.kind == 'i') f = v.s == "True";
    }
    if (key == "default_visibility" && v.kind == 'l') dv = v.s;
  }
  t += ")";
  if (rule == "package") { pkgvis = dv; return t; }
  if (!rules.empty() && !rules.count(rule)) return t;
  if (text["name"].empty() && !any_empty) return t;
  if (rule == "cc_library" && (!list.count("hdrs") || hdrs_empty)) flag[0] = true;
  if (!list.count("visibility") && !pkgvis.empty()) list["visibility"] = pkgvis;
  std::string w = rule + "|" + rule;
  for (auto x : {"name", "actual", "version", "repo_name", "deprecation", "include_prefix", "strip_include_prefix"}) w += "|" + text[x];
  for (auto x : {"srcs", "hdrs", "textual_hdrs", "public_hdrs", "deps", "outs", "visibility", "includes"}) w += "|" + (list.count(x) ? list[x] : std::string("none"));
  want.push_back(w + "|" + (flag[0] ? "1" : "0") + (flag[1] ? "1" : "0"));
  return t;
}
static std::string stmt() {
  switch (D->n(8)) {
    case 0: { auto w = want; auto p = pkgvis; std::string t = "v = " + call(); want = w; pkgvis = p; return t; }   // what is assigned is not looked at
    case 1: { std::string t = "["; for (int k = D->n(3); k >= 0; --k) t += call() + ", "; return t + "]"; }
    case 2: { std::string a = call(), b = D->n(2) ? "y" : call(); return "[" + a + " for x in " + b + "]"; }
    case 3: { std::string a = call(), b = call(); return "[" + a + " + " + b + "]"; }
    case 4: return "[not " + call() + "]";
    default: return call();
  }
}
int main(int argc, char **argv) {
  signal(SIGALRM, [](int) { printf("FAIL no end\n"); fflush(stdout); _exit(1); });
  Driver d(argc, argv);
  D = &d;
  while (d.more()) {
    alarm(20);
    want.clear(); pkgvis.clear(); rules.clear();
    any_empty = d.n(2);
    const int pick = d.n(3);
    if (pick == 1) rules = {"cc_library", "alias"};
    if (pick == 2) rules = {"cc_binary", "foo"};
    std::string text;
    for (int k = d.n(5); k >= 0; --k) text += stmt() + "\n";
    NamedLineIndexedContent src("x", text);
    Scanner scanner(src);
    Arena arena(4096);
    std::stringstream err;
    Parser parser(&scanner, &arena, err);
    List *ast = parser.parse();
    if (parser.parse_error()) d.fail("does not parse: ", text, err.str());
    std::vector<std::string> got;
    auto cb = [&](const query::Result &r) { got.push_back(Show(r)); };
    auto find = any_empty ? query::FindTargetsAllowEmptyName : query::FindTargets;
    if (pick == 1) find(ast, {"cc_library", "alias"}, cb);
    else if (pick == 2) find(ast, {"cc_binary", "foo"}, cb);
    else find(ast, {}, cb);
    if (got != want) {
      std::string s = "in ::\n" + text + "reported:\n";
      for (auto &x : got) s += x + "\n";
      s += "expected:\n";
      for (auto &x : want) s += x + "\n";
      d.fail(s);
    }
  }
  return d.done();
}
