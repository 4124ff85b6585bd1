#include "bant/util/disjoint-range-map.h"
#include "common.h"
#include <functional>
int main(int argc, char **argv) {
  Driver d(argc, argv);
  std::string buf(400, 'x');
  while (d.more()) {
    bant::DisjointRangeMap<std::string_view, int> m;
    struct R { int b, e, v; };
    std::vector<R> rs;
    const int ops = 1 + d.n(25);
    std::ostringstream h;
    for (int i = 0; i < ops; ++i) {
      int b = d.n(60), e = b + 1 + d.n(8);
      bool dis = true;
      for (auto &r : rs) if (b < r.e && r.b < e) dis = false;
      if (dis) {
        h << "Insert[" << b << "," << e << ")=" << i << "; ";
        if (!m.Insert(std::string_view(buf).substr(b, e - b), i)) d.fail(h.str(), " disjoint insert refused");
        rs.push_back({b, e, i});
      }
      for (int x = 0; x < 70; ++x)
        for (int n = 0; n < 11; ++n) {
          if (d.n(4)) continue;
          auto f = m.FindBySubrange(std::string_view(buf).substr(x, n));
          int want = -1; bool any = n > 0;
          for (auto &r : rs) if (r.b <= x && x + n <= r.e) want = r.v;
          if (any && (f.has_value() ? *f : -1) != want) d.fail(h.str(), "Find[", x, ",", x + n, ") -> ", f.has_value() ? *f : -1, " expected ", want);
        }
    }
  }
  return d.done();
}
