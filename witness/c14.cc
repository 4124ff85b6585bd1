#include "bant/tool/dwyu.cc"
#include "common.h"
using namespace bant;
using Set = absl::btree_set<BazelTarget>;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  std::vector<BazelTarget> ts;
  for (const char *n : {"a", "b", "c", "d", "e"}) ts.push_back(*BazelTarget::ParseFrom(std::string("//") + n, BazelPackage("", "")));
  auto show = [](const std::vector<Set> &v) { std::string r; for (auto &s : v) { r += "{"; for (auto &t : s) r += " " + t.target_name; r += " } "; } return r; };
  while (d.more()) {
    std::vector<Set> in;
    for (int i = d.n(6); i > 0; --i) {
      Set s;
      for (int k = 1 + d.n(3); k > 0; --k) s.insert(ts[d.n(ts.size())]);
      in.push_back(s);
    }
    auto out = MinimizeDependencySet(in);
    Set all;
    for (auto &s : in) all.insert(s.begin(), s.end());
    for (auto &r : out) {
      if (r.empty()) d.fail("empty set from ", show(in));
      for (auto &t : r) if (!all.contains(t)) d.fail("non-candidate from ", show(in));
    }
    for (auto &s : in) {
      bool served = false;
      for (auto &r : out) if (std::includes(s.begin(), s.end(), r.begin(), r.end())) served = true;
      if (!served) d.fail(show(in), "reduced to ", show(out));
    }
  }
  return d.done();
}
