// Edits suggested by the dependency tool on small random projects vs. an independent reading of them.
// WHICH 15: removals; 16: additions.
#include <cstring>
#include <map>
#include <set>
#include "bant/tool/dwyu.cc"
#include "bant/frontend/parsed-project_testutil.h"
#include "common.h"
using namespace bant;
struct Gen : DWYUGenerator {
  using DWYUGenerator::DWYUGenerator;
  std::map<std::string, std::string> files;
  std::optional<SourceFile> TryOpenFile(std::string_view f) override {
    auto i = files.find(std::string(f));
    if (i == files.end()) return std::nullopt;
    return SourceFile{.content = i->second, .path = i->first, .is_generated = false};
  }
};
struct Lib { std::string pkg, name, rule; std::vector<std::string> hdrs, srcs, deps; bool testonly, always, depr, priv; };
int main(int argc, char **argv) {
  Driver d(argc, argv);
  const std::vector<std::string> pkgs = {"a", "b", "a/c"};
  while (d.more()) {
    std::vector<Lib> libs;
    std::vector<std::string> headers;       // all header paths
    const int nh = 3 + d.n(4);
    for (int i = 0; i < nh; ++i) headers.push_back(pkgs[d.n(3)] + "/h" + std::to_string(i) + ".h");
    for (auto &p : pkgs) {
      for (int k = 0, n = 1 + d.n(3); k < n; ++k) {
        Lib l{p, std::string("l") + char('a' + k), d.n(6) ? "cc_library" : d.n(2) ? "cc_test" : "cc_binary", {}, {}, {}, d.n(6) == 0, d.n(6) == 0, d.n(9) == 0, d.n(6) == 0};
        for (auto &h : headers)
          if (h.rfind(p + "/h", 0) == 0 && d.n(2)) l.hdrs.push_back(h.substr(p.size() + 1));
        if (l.rule != "cc_library") l.hdrs.clear();
        for (int s = d.n(3); s > 0; --s) l.srcs.push_back(l.name + std::to_string(s) + ".cc");
        libs.push_back(l);
      }
    }
    auto full = [](const Lib &l) { return "//" + l.pkg + ":" + l.name; };
    auto lib_of = [&](const std::string &t) -> const Lib * {
      for (auto &l : libs) if (full(l) == t) return &l;
      return nullptr;
    };
    auto text_of = [&](const Lib &from, const Lib &to) {
      if (from.pkg == to.pkg) switch (d.n(3)) { case 0: return ":" + to.name; case 1: return to.name; }
      return full(to);
    };
    std::map<std::string, std::string> files, keep;
    std::map<std::string, std::set<std::string>> incs;   // target -> headers named
    std::set<std::string> missing;                        // targets with unreadable sources
    std::string shown;
    for (auto &p : pkgs) {
      std::string content;
      for (auto &l : libs) if (l.pkg == p) {
        content += l.rule + "(\n  name = \"" + l.name + "\",\n  srcs = [";
        for (auto &s : l.srcs) content += "\"" + s + "\", ";
        content += "],\n";
        if (!l.hdrs.empty()) { content += "  hdrs = ["; for (auto &h : l.hdrs) content += "\"" + h + "\", "; content += "],\n"; }
        content += "  deps = [\n";
        for (auto &o : libs) if (d.n(3) == 0) {
          std::string t = text_of(l, o);
          if (d.n(8) == 0) t = "//nowhere:x";
          l.deps.push_back(t);
          const bool k = d.n(8) == 0;
          if (k) keep[full(l)] += "|" + t + "|";
          content += "    \"" + t + "\"," + (k ? "  # keep" : "") + "\n";
        }
        content += "  ],\n";
        if (l.testonly) content += "  testonly = True,\n";
        if (l.always) content += "  alwayslink = True,\n";
        if (l.depr) content += "  deprecation = \"old\",\n";
        if (l.priv) content += "  visibility = [\"//visibility:private\"],\n";
        content += ")\n";
        auto add_file = [&](const std::string &f, bool may_miss) {
          if (may_miss && d.n(12) == 0) {
            missing.insert(full(l));
            if (d.n(2)) content += "genrule(name = \"gen_" + l.name + f.substr(0, f.size() - 3) + "\", outs = [\"" + f + "\"])\n";
            return;
          }
          std::string text;
          for (int k = d.n(4); k > 0; --k) {
            std::string h = d.n(12) ? headers[d.n(headers.size())] : "unknown.h";
            incs[full(l)].insert(h);
            text += "#include \"" + h + "\"\n";
          }
          files[p + "/" + f] = text;
        };
        for (auto &s : l.srcs) add_file(s, true);
      }
      shown += "--- //" + p + "\n" + content;
      keep["content " + p] = content;
    }
    for (auto &h : headers) {                            // a header may itself include others
      std::string text;
      if (d.n(3) == 0) text = "#include \"" + headers[d.n(headers.size())] + "\"\n";
      files[h] = text;
      for (auto &l : libs) for (auto &x : l.hdrs) if (l.pkg + "/" + x == h && !text.empty()) incs[full(l)].insert(text.substr(10, text.size() - 12));
    }
    for (auto &[f, t] : files) shown += "--- " + f + "\n" + t;
    ParsedProjectTestUtil pp;
    for (auto &p : pkgs) pp.Add("//" + p, keep["content " + p]);
    std::stringstream so, se;
    const bool ignore_keep = d.n(4) == 0;
    CommandlineFlags flags{};
    flags.ignore_keep_comment = ignore_keep;
    Session session(&so, &se, flags);
    struct Edit { EditRequest kind; std::string target, before, after; };
    std::vector<Edit> edits;
    Gen gen(session, pp.project(), [&](EditRequest r, const BazelTarget &t, std::string_view a, std::string_view b) {
      edits.push_back({r, t.ToString(), std::string(a), std::string(b)});
    });
    gen.files = files;
    gen.CreateEditsForPattern(*BazelPattern::ParseFrom("//..."));
    auto known = [](const Lib &l) { return l.rule != "cc_binary"; };
    auto sees = [&](const Lib &u, const Lib &l) { return !known(l) || (!l.depr && (u.pkg == l.pkg || !l.priv)); };
    auto provides = [](const Lib &l, const std::string &h) {
      for (auto &x : l.hdrs) if (l.pkg + "/" + x == h) return true;
      return false;
    };
    auto own = [&](const Lib &l, const std::string &h) { return provides(l, h); };
    auto means = [&](const Lib &in, const std::string &t) {
      if (t.rfind("//", 0) == 0) return t;
      return "//" + in.pkg + ":" + (t[0] == ':' ? t.substr(1) : t);
    };
    for (auto &e : edits) {
      const Lib *l = lib_of(e.target);
      std::string what = (e.kind == EditRequest::kRemove ? "remove " : "add ") + e.target + " '" + e.before + "' '" + e.after + "'";
      auto fail = [&](const std::string &why) { d.fail(what, ": ", why, "\n", shown); };
      if (!l) fail("no such target");
      if (e.kind == EditRequest::kRemove && WHICH == 15) {
        bool listed = false;
        for (auto &t : l->deps) listed |= t == e.before;
        if (!listed || !e.after.empty()) fail("not a label of the list");
        const std::string dep = means(*l, e.before);
        const Lib *x = lib_of(dep);
        if (!x || !known(*x)) fail("not a known library");
        if (x->always) fail("always linked");
        if (!ignore_keep && keep[e.target].find("|" + e.before + "|") != std::string::npos) {
          int k = 0;   // kept only if every mention has the comment
          for (auto &t : l->deps) k += t == e.before;
          if (k == 1) fail("the comment says keep");
        }
        if (missing.count(e.target)) fail("a source can not be read");
        for (auto &h : incs[e.target]) {
          if (own(*l, h)) continue;
          std::vector<const Lib *> vis;
          for (auto &p : libs) if (provides(p, h) && sees(*l, p)) vis.push_back(&p);
          if (vis.empty()) fail("no visible provider of " + h + " is known");
          if (vis.size() == 1 && vis[0] == x) fail("the only visible provider of " + h);
          // alternatives nothing else has to do with are not narrowed down
          bool apart = true, has = false;
          for (auto *p : vis) {
            has |= p == x;
            for (auto &h2 : incs[e.target]) apart &= h2 == h || own(*l, h2) || !provides(*p, h2);
          }
          if (has && apart) fail("one of the choices for " + h);
        }
      }
      if (e.kind == EditRequest::kAdd && WHICH == 16) {
        const Lib *x = lib_of(means(*l, e.after));
        if (!x) fail("no such library");
        if (e.after != (x->pkg == l->pkg ? ":" + x->name : full(*x)) || !e.before.empty()) fail("not written canonically");
        if (x == l) fail("the target itself");
        if (!sees(*l, *x)) fail("not visible");
        if (x->testonly && !l->testonly && l->rule != "cc_test") fail("only for tests");
        for (auto &t : l->deps) if (means(*l, t) == full(*x)) fail("already a dependency");
        bool needed = false;
        for (auto &h : incs[e.target]) needed |= !own(*l, h) && provides(*x, h);
        if (!needed) fail("provides nothing that is included");
        for (auto &o : edits) if (&o != &e && o.kind == e.kind && o.target == e.target && o.after == e.after) fail("added twice");
      }
    }
  }
  return d.done();
}
