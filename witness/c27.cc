#include <optional>
#include "bant/tool/edit-callback.h"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  auto text = [&](const char *al) { std::string s; int n = 1 + d.n(4); std::string a = al; for (int i = 0; i < n; ++i) s += a[d.n(a.size())]; return s; };
  while (d.more()) {
    std::ostringstream out; std::string want, asked;
    auto cb = CreateBuildozerDepsEditCallback(out);
    for (int i = d.n(5); i >= 0; --i) {
      std::string l = "//" + text("ab") + ":" + text("ab:c.");
      BazelPackage ctx("", "x");
      auto t = BazelTarget::ParseFrom(l, ctx);
      if (!t) continue;
      std::string b = ":" + text("abc/:"), a = "//" + text("abc/:");
      switch (d.n(3)) {
      case 0: cb(EditRequest::kRemove, *t, b, d.n(2) ? "" : a); want += "buildozer 'remove deps " + b + "' " + t->ToString() + "\n"; asked += " remove"; break;
      case 1: cb(EditRequest::kAdd, *t, d.n(2) ? "" : b, a); want += "buildozer 'add deps " + a + "' " + t->ToString() + "\n"; asked += " add"; break;
      default: if (d.n(8) == 0) a = b; cb(EditRequest::kRename, *t, b, a); want += "buildozer 'replace deps " + b + " " + a + "' " + t->ToString() + "\n"; asked += " rename";
      }
    }
    if (out.str() != want) d.fail("edits", asked, " wrote\n", out.str(), "expected\n", want);
  }
  return d.done();
}
