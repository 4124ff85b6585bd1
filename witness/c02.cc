#include "bant/util/arena.h"
#include "bant/util/arena-container.h"
#include "common.h"
template <typename T, uint16_t MIN, uint16_t MAX>
void go(Driver &d, const char *nm, bool big = false) {
  bant::Arena arena(16 + d.n(2000));
  using Q = bant::ArenaDeque<T, MIN, MAX>;
  Q *q = arena.New<Q>();
  std::vector<T> ref;
  std::vector<T *> addr;
  const size_t limit = big ? 70000 : d.n(3) == 0 ? MAX * 6 + 5 : d.n(2 * MAX + 3);
  auto check = [&]() {
    std::string at = std::string(nm) + " after " + std::to_string(ref.size()) + " appends: ";
    if (q->size() != ref.size()) d.fail(at, "size()=", q->size());
    size_t i = 0;
    for (auto it = q->begin(); it != q->end(); ++it) {
      if (i >= ref.size()) d.fail(at, "iteration yields too many elements");
      if (*it != ref[i]) d.fail(at, "iteration differs at ", i);
      if (&*it != addr[i]) d.fail(at, "reference to element ", i, " is not stable");
      ++i;
    }
    if (i != ref.size()) d.fail(at, "iteration yields ", i, " elements");
    for (i = 0; i < ref.size(); i += big ? 997 : 1)
      if ((*q)[i] != ref[i]) d.fail(at, "operator[](", i, ") differs");
  };
  check();
  for (size_t i = 0; i < limit; ++i) {
    T v = (T)(d.rng() & 0x7f);
    T &r = q->Append(v, &arena);
    if (r != v) d.fail(nm, ": Append returns a reference to something else");
    ref.push_back(v);
    addr.push_back(&r);
    if (limit < 40 || (!big && d.n(20) == 0) || i + 1 == limit) check();
  }
  // other deques in the same arena must not be disturbed
  Q *q2 = arena.New<Q>();
  for (int i = 0; i < MIN + 3; ++i) q2->Append((T)1, &arena);
  check();
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  go<int, 1, 64>(d, "<int,1,64>", true);
  go<short, 2, 1024>(d, "<short,2,1024>", true);
  while (d.more(4000)) {
    go<long, 1, 64>(d, "<long,1,64>");
    go<int, 3, 96>(d, "<int,3,96>");
    go<int, 1, 1>(d, "<int,1,1>");
    go<char, 5, 23>(d, "<char,5,23>");
    go<short, 2, 1024>(d, "<short,2,1024>");
    go<int, 7, 7>(d, "<int,7,7>");
  }
  return d.done();
}
