#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <cstring>
#include <map>
#include <deque>
#include <algorithm>
#include "bant/util/file-utils.h"
#include "common.h"
using namespace bant;
// The directories are made up: no file system is touched.
struct N { bool dir; ino_t ino; std::vector<std::tuple<std::string, int, int>> ents; bool noopen = false; };  // name, target node, d_type
static std::vector<N> nodes;
static Driver *D;
static int open_dirs = 0;
static long ops = 0;
static std::string tree;
static int find(const std::string &p) {
  if (p.rfind("top", 0) != 0) return -1;
  int cur = 0;
  std::stringstream ss(p.substr(3));
  std::string e;
  while (std::getline(ss, e, '/')) {
    if (e.empty() || e == ".") continue;
    if (!nodes[cur].dir) return -1;
    int nx = -1;
    for (auto &[n, t, ty] : nodes[cur].ents) if (n == e) nx = t;
    if (nx < 0) return -1;
    cur = nx;
  }
  return cur;
}
struct H { int node; size_t pos; struct dirent ent; };
static void tick() { if (++ops > 200000) D->fail("more than 200000 system calls for ", nodes.size(), " nodes: no termination; ", tree); }
extern "C" DIR *opendir(const char *p) {
  tick();
  int n = find(p);
  if (n < 0 || !nodes[n].dir || nodes[n].noopen) return nullptr;
  ++open_dirs;
  return (DIR *)new H{n, 0, {}};
}
extern "C" struct dirent *readdir(DIR *d) {
  tick();
  H *h = (H *)d;
  auto &es = nodes[h->node].ents;
  if (h->pos >= es.size()) return nullptr;
  auto &[n, t, ty] = es[h->pos++];
  memset(&h->ent, 0, sizeof h->ent);
  strcpy(h->ent.d_name, n.c_str());
  h->ent.d_type = ty;
  h->ent.d_ino = ty == DT_LNK ? 5000 + h->pos : (t >= 0 ? nodes[t].ino : 4999);
  return &h->ent;
}
extern "C" struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
extern "C" int closedir(DIR *d) { --open_dirs; delete (H *)d; return 0; }
static int st(const char *p, struct stat *s) {
  tick();
  int n = find(p);
  if (n < 0) return -1;
  memset(s, 0, sizeof *s);
  s->st_ino = nodes[n].ino;
  s->st_mode = nodes[n].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  s->st_nlink = 1;
  s->st_dev = 7;
  return 0;
}
extern "C" int stat(const char *p, struct stat *s) { return st(p, s); }
int main(int argc, char **argv) {
  Driver d(argc, argv);
  D = &d;
  while (d.more()) {
    nodes.clear();
    tree = "tree:";
    int nd = 1 + d.n(5), nf = d.n(5);
    for (int i = 0; i < nd; ++i) { ino_t ino = 100 + i; if (d.n(4) == 0) ino = (ino << 32) | d.n(3); nodes.push_back({true, ino, {}, i && d.n(8) == 0}); }
    for (int i = 0; i < nf; ++i) nodes.push_back({false, (ino_t)(200 + i), {}});
    std::vector<int> depth(nodes.size(), 0);
    auto nm = [&](int i) { static const char *v[] = {"a", "bad", ".hid", "...", "x.cc"}; return std::string(v[d.n(5)]) + (d.n(3) ? std::to_string(i) : ""); };
    auto add = [&](int from, int to, bool link) {
      std::string n = nm(nodes[from].ents.size());
      for (auto &[m, t, ty] : nodes[from].ents) if (m == n) return;
      int ty = link ? DT_LNK : d.n(5) == 0 ? DT_UNKNOWN : to < 0 ? DT_LNK : nodes[to].dir ? DT_DIR : DT_REG;
      nodes[from].ents.push_back({n, to, ty});
      tree += " " + std::to_string(from) + "/" + n + (link ? "->" : "=") + std::to_string(to);
    };
    for (int i = 0; i < nd; ++i) { nodes[i].ents.push_back({".", i, DT_DIR}); nodes[i].ents.push_back({"..", 0, DT_DIR}); }
    for (int i = 1; i < (int)nodes.size(); ++i) add(d.n(std::min(i, nd)), i, false);
    for (int i = d.n(5); i > 0; --i) add(d.n(nd), d.n(6) ? (int)d.n(nodes.size()) : -1, true);
    for (int i = 0; i < nd; ++i) std::shuffle(nodes[i].ents.begin(), nodes[i].ents.end(), d.rng);
    int salt = d.n(4);
    auto wd = [&](const FilesystemPath &p) { return salt == 0 || std::string(p.path()).substr(p.path().rfind('/') + 1).rfind("bad", 0) != 0; };
    auto wf = [&](const FilesystemPath &p) { return salt < 2 || p.path().find(".cc") != std::string::npos || p.path().size() % 3; };
    std::vector<std::string> want;
    std::deque<std::string> q{"top"};
    std::set<ino_t> seen{nodes[0].ino};
    while (!q.empty()) {
      std::string c = q.front();
      q.pop_front();
      int n = find(c);
      if (n < 0 || nodes[n].noopen) continue;
      for (auto &[e, t, ty] : nodes[n].ents) {
        if (e == "." || e == "..") continue;
        FilesystemPath p(c + "/" + e);
        if (t >= 0 && nodes[t].dir) { if (wd(p) && seen.insert(nodes[t].ino).second) q.push_back(p.path()); }
        else if (wf(p)) want.push_back(p.path());
      }
    }
    ops = 0;
    open_dirs = 0;
    auto got = CollectFilesRecursive(FilesystemPath("top"), wd, wf);
    auto show = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += " " + x; return r; };
    std::vector<std::string> g;
    for (auto &p : got) g.push_back(p.path());
    if (g != want) d.fail(tree, "; expected", show(want), "; returned", show(g));
    if (open_dirs) d.fail(tree, "; ", open_dirs, " directories left open");
  }
  return d.done();
}
