#include <sys/stat.h>
#include <cstring>
#include <filesystem>
#include <map>
#include "bant/workspace.h"
#include "common.h"
using namespace bant;
namespace fs = std::filesystem;
static const char *EXT = "bazel-out/../../../external";
static std::string proj_of(const std::string &d) { return d.substr(0, d.find('~')); }
int main(int argc, char **argv) {
  Driver d(argc, argv);
  std::string base = fs::current_path().string() + "/scratch";
  auto text = [&](const char *al, int mn) { std::string s; int n = mn + d.n(3); for (int i = 0; i < n; ++i) s += al[d.n(strlen(al))]; return s; };
  auto check = [&](BazelWorkspace &w, const char *how) {
    std::string all;
    for (auto &[k, v] : w.project_location) all += " " + k.project + "~" + k.version + "->" + v.path();
    for (int i = 0; i < 20; ++i) {
      std::string q = text("ab-@", 0), name = !q.empty() && q[0] == '@' ? q.substr(1) : q;
      bool known = false;
      for (auto &[k, v] : w.project_location) if (!q.empty() && k.project == name) known = true;
      auto r = w.FindPathByProject(q);
      bool own = false;
      if (r) for (auto &[k, v] : w.project_location) if (k.project == name && v.path() == r->path()) own = true;
      if (known != r.has_value() || (r && !own)) d.fail(how, ": FindPathByProject(", ::quoted(q), ") is ", r ? r->path() : "nothing", "; registered:", all);
    }
  };
  while (d.more()) {
    std::string t = text("ab~~-", 0);
    auto p = VersionedProject::ParseFromDir(t);
    auto ti = t.find('~');
    bool ok = !t.empty() && ti != 0;
    if (ok != p.has_value() || (p && (p->project != t.substr(0, ti) || p->version != (ti == std::string::npos ? "" : t.substr(ti + 1)))))
      d.fail("ParseFromDir(", ::quoted(t), ") is ", p ? p->project + " / " + p->version : "nothing");
    BazelWorkspace w;
    int n = d.n(6);
    for (int i = 0; i < n; ++i) {
      std::string a = text("ab-", 1), v = text("12", 0);
      w.project_location[VersionedProject{.project = a, .version = v}] = FilesystemPath("/x/" + a + "_" + v + (d.n(2) ? "/" : ""));
    }
    check(w, "random index");
    if (d.n(40)) continue;
    fs::remove_all(base);
    fs::create_directories(base + "/o/x/y/z");
    fs::create_directories(base + "/o/external");
    fs::create_directories(base + "/ws");
    fs::create_directory_symlink(base + "/o/x/y/z", base + "/ws/bazel-out");
    std::string have, module;
    std::vector<std::string> dirs;
    for (int i = d.n(7); i > 0; --i) {
      std::string a = text("ab", 1) + (d.n(2) ? "~" + text("12", 0) : d.n(4) ? "" : "~override");
      if (d.n(5) && (!fs::exists(base + "/o/external/" + a) || fs::is_directory(base + "/o/external/" + a))) { fs::create_directories(base + "/o/external/" + a); dirs.push_back(a); }
      else if (!fs::exists(base + "/o/external/" + a)) std::ofstream(base + "/o/external/" + a) << "x";
      have += " " + a;
    }
    fs::current_path(base + "/ws");
    BazelWorkspace before = w;
    BestEffortAugmentFromExternalDir(w);
    check(w, "after looking at the external directories");
    for (auto &[k, v] : before.project_location) {
      auto f = w.project_location.find(k);
      if (f == w.project_location.end() || f->second.path() != v.path()) d.fail("known project ", k.project, "~", k.version, " changed by looking at", have);
    }
    for (auto &[k, v] : w.project_location) {
      if (before.project_location.contains(k)) continue;
      std::string want = std::string(EXT) + "/" + k.project + (k.version.empty() ? "" : "~" + k.version);
      if ((v.path() != want && v.path() != want + "~") || !fs::is_directory(v.path())) d.fail("project ", k.project, "~", k.version, " registered as ", v.path(), "; there:", have);
    }
    for (auto &x : dirs) if (!w.FindPathByProject(proj_of(x))) d.fail("no entry for installed project ", x, "; there:", have);
    // declared projects
    std::string names, text_ws;
    std::vector<std::array<std::string, 3>> decl;
    for (int i = d.n(4); i > 0; --i) {
      std::string a = text("ab", 1), v = d.n(2) ? text("12", 1) : "", r = d.n(3) ? "" : text("cd", 1);
      text_ws += "bazel_dep(name = \"" + a + "\"" + (v.empty() ? "" : ", version = \"" + v + "\"") + (r.empty() ? "" : ", repo_name = \"" + r + "\"") + ")\n";
      decl.push_back({a, v, r});
    }
    std::ofstream("MODULE.bazel") << text_ws;
    std::ostringstream out;
    CommandlineFlags fl;
    Session session(&out, &out, fl);
    auto lw = LoadWorkspace(session);
    if (lw) {
      for (auto &[k, v] : lw->project_location) {
        bool fine = false;
        for (auto &[a, ver, r] : decl) {
          if (k.project != (r.empty() ? a : r) || k.version != ver) continue;
          std::string fn = v.path().substr(v.path().rfind('/') + 1);
          if (proj_of(fn) == a && fs::is_directory(v.path())) fine = true;
        }
        if (!fine) d.fail("loaded project ", k.project, "~", k.version, " leads to ", v.path(), "; declared:\n", text_ws, "there:", have);
      }
      for (auto &[a, ver, r] : decl) {
        bool there = fs::is_directory(std::string(EXT) + "/" + a) || (!ver.empty() && fs::is_directory(std::string(EXT) + "/" + a + "~" + ver)) || fs::is_directory(std::string(EXT) + "/" + a + "~override");
        if (there && !lw->project_location.contains(VersionedProject{.project = r.empty() ? a : r, .version = ver})) d.fail("declared project ", a, " not loaded; declared:\n", text_ws, "there:", have);
      }
    }
    fs::current_path(base + "/..");
  }
  return d.done();
}
