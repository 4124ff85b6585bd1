// Shared helpers of the replay drivers.
#pragma once
#include <unistd.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

struct Driver {
  std::mt19937_64 rng;
  std::chrono::steady_clock::time_point end;
  long cases = 0;
  Driver(int argc, char **argv)
      : rng(argc > 1 ? atol(argv[1]) : 1),
        end(std::chrono::steady_clock::now() +
            std::chrono::seconds(argc > 2 ? atol(argv[2]) : 5)) {}
  bool more(long max = -1) {
    ++cases;
    return (max < 0 || cases <= max) && std::chrono::steady_clock::now() < end;
  }
  uint64_t n(uint64_t below) { return below ? rng() % below : 0; }
  int done() {
    printf("OK %ld cases\n", cases);
    return 0;
  }
  template <typename... T>
  [[noreturn]] void fail(const T &...t) {
    std::ostringstream o;
    ((o << t), ...);
    printf("FAIL %s\n", o.str().c_str());
    fflush(stdout);
    _exit(1);
  }
};
inline std::string quoted(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c >= 32 && c < 127) r += c;
    else { snprintf(b, 8, "\\x%02x", c); r += b; }
  }
  return r + "\"";
}
