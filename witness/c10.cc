// Suffix lookup against a search of the whole index.
#include <algorithm>
#include "bant/explore/header-providers.h"
#include "common.h"
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  auto path = [&] {
    std::string r;
    for (int k = 1 + d.n(4); k > 0; --k) {
      if (!r.empty()) r += "/";
      for (int c = 1 + d.n(2); c > 0; --c) r += "ab."[d.n(d.n(4) ? 2 : 3)];
    }
    return r;
  };
  auto elements = [](const std::string &p) {
    std::vector<std::string> r{""};
    for (auto it = p.rbegin(); it != p.rend(); ++it) if (*it == '/') r.push_back(""); else r.back() += *it;
    return r;
  };
  auto agree = [&](const std::string &p, const std::string &q) {
    auto a = elements(p), b = elements(q);
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return i;
  };
  while (d.more()) {
    ProvidedFromTargetSet index;
    std::vector<std::string> paths;
    std::string shown;
    for (int k = d.n(6); k > 0; --k) {
      paths.push_back(path());
      std::string rev(paths.back().rbegin(), paths.back().rend());
      index[rev + "/"].insert(*BazelPackage("", paths.back()).QualifiedTarget("x"));
      shown += " " + paths.back();
    }
    std::string key = path();
    if (!paths.empty() && d.n(2)) { key = paths[d.n(paths.size())]; if (d.n(2)) key = (d.n(2) ? "b/" : "b") + key; }
    size_t least = d.n(4), best = 0;
    bool exact = false;
    for (auto &p : paths) { best = std::max(best, agree(p, key)); exact |= p == key; }
    auto r = FindBySuffix(index, key, least);
    bool want = exact || (!paths.empty() && best >= least);
    if (r.has_value() != want) d.fail(want ? "not found: " : "found: ", key, " at least ", least, " in", shown);
    if (!want) continue;
    if (exact && (r->match != key || r->fuzzy_score != 0)) d.fail("entry present, but fuzzy: ", key, " in", shown);
    if (std::find(paths.begin(), paths.end(), r->match) == paths.end()) d.fail("match '", r->match, "' for ", key, " in", shown);
    if (r->target_set->size() != 1 || r->target_set->begin()->package.path != r->match) d.fail("wrong providers for ", key, " in", shown);
    if (!exact && (agree(r->match, key) != best || r->fuzzy_score != (int)best)) d.fail(r->match, " agrees on ", agree(r->match, key), " best ", best, " reported ", r->fuzzy_score, " for ", key, " in", shown);
  }
  return d.done();
}
