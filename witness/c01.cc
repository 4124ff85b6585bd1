#include "bant/util/arena.h"
#include "common.h"
#include <cstring>
#include <map>
struct Big { char c[200]; Big(int x) { memset(c, x, sizeof c); } };
int main(int argc, char **argv) {
  Driver d(argc, argv);
  for (int bs : {1, 8, 64, 4096}) {   // long histories: many blocks
    bant::Arena a(bs);
    std::vector<int *> all;
    for (int i = 0; i < 200000; ++i) { all.push_back((int *)a.Alloc(sizeof(int))); *all.back() = i; }
    for (int i = 0; i < 200000; ++i) if (*all[i] != i) d.fail("Arena(", bs, "): allocation ", i, " of 200000 was clobbered");
  }
  while (d.more()) {
    const int bs = d.n(4) == 0 ? 1 + d.n(3) : 1 + d.n(300);
    bant::Arena a(bs);
    std::ostringstream hist;
    hist << "Arena(" << bs << ")";
    struct R { char *p; size_t n; unsigned char v; };
    std::vector<R> rs;
    const int ops = 1 + d.n(40);
    for (int i = 0; i < ops; ++i) {
      size_t n;
      switch (d.n(6)) {
        case 0: n = bs; break;
        case 1: n = bs + d.n(3); break;
        case 2: n = d.n(2 * bs + 2); break;
        case 3: n = d.n(5); break;
        case 4: n = bs > 1 ? bs - 1 : 0; break;
        default: n = d.n(bs + 1);
      }
      hist << "; Alloc(" << n << ")";
      char *p;
      if (d.n(8) == 0) {
        hist << "=New<Big>";
        p = (char *)a.New<Big>(i & 0xff);
        n = sizeof(Big);
      } else p = (char *)a.Alloc(n);
      if (p == nullptr) d.fail(hist.str(), ": null pointer");
      for (auto &r : rs)
        if (n && r.n && p < r.p + r.n && r.p < p + n) d.fail(hist.str(), ": overlaps an earlier allocation");
      memset(p, i & 0xff, n);   // must be writable (ASan checks)
      rs.push_back({p, n, (unsigned char)(i & 0xff)});
      for (auto &r : rs)
        for (size_t k = 0; k < r.n; ++k)
          if ((unsigned char)r.p[k] != r.v) d.fail(hist.str(), ": an earlier allocation was clobbered");
    }
  }
  return d.done();
}
