#include <dirent.h>
#include <cstring>
#include "bant/util/file-utils.h"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  auto text = [&]() { std::string s; int n = d.n(7); for (int i = 0; i < n; ++i) s += "//ab."[d.n(5)]; return s; };
  while (d.more()) {
    std::string dir = text(), name = text(), want;
    std::string how;
    FilesystemPath p;
    std::string b = dir;
    while (!b.empty() && b.back() == '/') b.pop_back();
    switch (d.n(3)) {
    case 0: p = FilesystemPath(dir); want = dir; how = "FilesystemPath(" + ::quoted(dir) + ")"; break;
    case 1: p = FilesystemPath(dir, name); want = b + "/" + name; how = "FilesystemPath(" + ::quoted(dir) + ", " + ::quoted(name) + ")"; break;
    default: {
      struct dirent e; memset(&e, 0, sizeof e); strcpy(e.d_name, name.c_str()); e.d_type = d.n(16);
      p = FilesystemPath(dir, e); want = b + "/" + name; how = "FilesystemPath(" + ::quoted(dir) + ", dirent " + ::quoted(name) + ")";
    }
    }
    if (d.n(2)) p.filename();
    if (d.n(3) == 0) { FilesystemPath q = p; p = q; }
    if (p.path() != want) d.fail(how, ".path() is ", ::quoted(p.path()), ", expected ", ::quoted(want));
    auto sl = want.rfind('/');
    std::string f = sl == std::string::npos ? want : want.substr(sl + 1);
    for (int k = 0; k < 2; ++k) if (p.filename() != f) d.fail(how, ".filename() is ", ::quoted(p.filename()), ", expected ", ::quoted(f));
  }
  return d.done();
}
