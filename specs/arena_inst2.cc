// Further instantiations of the container template (other growth tables).
#include "bant/util/arena-container.h"
#include "bant/util/arena.h"
template <typename D, typename T>
int use_it(T t) {
  bant::Arena arena(16);
  D d;
  d.Append(t, &arena);
  const D &c = d;
  int r = (int)(long)c[0] + (int)c.size();
  for (T x : d) r += (int)(long)x;
  for (typename D::iterator it = d.begin(); !(it == d.end()); ++it) r += (int)(long)*it;
  return r;
}
int use_all() {
  return use_it<bant::ArenaDeque<int *, 1, 64>>((int *)nullptr) + use_it<bant::ArenaDeque<int, 1, 1>>(1) +
         use_it<bant::ArenaDeque<char, 5, 23>>('c') + use_it<bant::ArenaDeque<int, 3, 96>>(1) +
         use_it<bant::ArenaDeque<short, 2, 1024>>((short)1);
}
