// Instantiates the container templates so that their bodies can be extracted.
#include "bant/util/arena-container.h"
#include "bant/util/arena.h"
using Deq = bant::ArenaDeque<int, 3, 96>;
int use_all() {
  bant::Arena arena(16);
  Deq d;
  d.Append(1, &arena);
  const Deq &c = d;
  int r = c[0] + (int)c.size();
  for (int x : d) r += x;
  for (Deq::iterator it = d.begin(); !(it == d.end()); ++it) r += *it;
  return r;
}
