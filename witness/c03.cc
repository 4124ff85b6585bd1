#include "bant/frontend/named-content.h"
#include "common.h"
#include <memory>
#include <cstring>
using namespace bant;
int main(int argc, char **argv) {
  Driver d(argc, argv);
  while (d.more()) {
    const int n = d.n(3) ? d.n(12) : d.n(200);
    const int dens = 1 + d.n(6);
    std::unique_ptr<char[]> buf(new char[n]);   // exact size: ASan sees any read outside
    for (int i = 0; i < n; ++i) buf[i] = d.n(dens) == 0 ? '\n' : (d.n(3) ? 'a' + d.n(26) : (char)d.n(256));
    std::string_view s(buf.get(), n);
    NamedLineIndexedContent c("f", s);
    c.mutable_line_index()->InitializeFromStringView(s);
    auto pos = [&](int p) { LineColumn r{0, 0}; for (int i = 0; i < p; ++i) { if (s[i] == '\n') { ++r.line; r.col = 0; } else ++r.col; } return r; };
    for (int t = 0; t < 30; ++t) {
      int b = d.n(n + 1), e = b + d.n(n - b + 1);
      if (d.n(4) == 0) e = b;
      std::string_view sub = s.substr(b, e - b);
      auto at = [&]() { return "content " + quoted(s) + " range [" + std::to_string(b) + "," + std::to_string(e) + "): "; };
      FileLocation l = c.GetLocation(sub);
      if (l.filename != "f") d.fail(at(), "file name ", quoted(l.filename));
      if (l.line_column_range.start != pos(b)) d.fail(at(), "start reported as ", l.line_column_range.start, " expected ", pos(b));
      if (l.line_column_range.end != pos(e)) d.fail(at(), "end reported as ", l.line_column_range.end, " expected ", pos(e));
      std::string_view line = c.GetSurroundingLine(sub);
      int lb = b, le = e;
      while (lb > 0 && s[lb - 1] != '\n') --lb;
      while (le < n && s[le] != '\n') ++le;
      if (line.data() != s.data() + lb || (int)line.size() != le - lb) d.fail(at(), "surrounding line ", quoted(line));
    }
  }
  return d.done();
}
