// Malformed BUILD text: parse, print, elaborate, look for rules; the tree is checked for missing parts.
#include <cstring>
#include <csignal>
#include "bant/explore/query-utils.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "bant/frontend/print-visitor.h"
#include "bant/frontend/parsed-project.h"
#include "bant/frontend/parsed-project_testutil.h"
#include "bant/session.h"
#include "common.h"
using namespace bant;
struct Check : BaseVoidVisitor {
  Driver &d; std::string text; bool error; long nodes = 0;
  Check(Driver &d, std::string t, bool e) : d(d), text(std::move(t)), error(e) {}
  void need(const void *p, const char *what) { if (!p) d.fail(what, error ? " (error reported)" : " (no error reported)", " after parsing ", ::quoted(text)); }
  void VisitAssignment(Assignment *a) override { ++nodes; need(a->left(), "assignment without left side"); if (!error) need(a->right(), "assignment without value"); WalkNonNull(a->right()); }
  void VisitFunCall(FunCall *f) override { ++nodes; need(f->identifier(), "call without name"); need(f->argument(), "call without argument list"); BaseVoidVisitor::VisitFunCall(f); }
  void VisitList(List *l) override { ++nodes; for (Node *n : *l) need(n, "missing list element");
    if (l->type() == List::Type::kMap && !error) for (Node *n : *l) if (BinOpNode *e = n ? n->CastAsBinOp() : nullptr; e && e->op() == ':') { need(e->left(), "map entry without key"); need(e->right(), "map entry without value"); } BaseVoidVisitor::VisitList(l); }
  void VisitUnaryExpr(UnaryExpr *e) override { ++nodes; if (!error) need(e->node(), "missing operand"); BaseVoidVisitor::VisitUnaryExpr(e); }
  void VisitBinOpNode(BinOpNode *b) override { ++nodes; if (!error && b->op() != ':') { need(b->left(), "missing left operand"); need(b->right(), "missing right operand"); } BaseVoidVisitor::VisitBinOpNode(b); }
  void VisitListComprehension(ListComprehension *l) override { ++nodes; if (!error) need(l->for_node(), "comprehension without for"); BaseVoidVisitor::VisitListComprehension(l); }
};
static std::string g_text;
static void Stuck(int) {
  printf("FAIL no end within 10 seconds for %s\n", ::quoted(g_text).c_str());
  fflush(stdout);
  _exit(1);
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  signal(SIGALRM, Stuck);
  const std::vector<std::string> toks = {"(", ")", "[", "]", "{", "}", ",", ",", ":", "=", "+", "-", "*", "/", "%", ".", "|", "==", "!=", "<", ">=", "for", "in", "not", "if", "else", "and", "or", "\n", "#c\n",
    "x", "y", "f", "glob", "select", "include", "exclude", "deps", "\"//conditions:default\"", "\"a\"", "'b'", "42", "0o18", "name", "cc_library", "\"", "@", "package", "default_visibility", "visibility", "r\"x\"", "\"\"\"t\"\"\""};
  const std::string good = "package ( default_visibility = [ \"//a\" , ] ) \n x = [ \"a\" , y ] + [ z ] \n cc_library ( name = \"n\" , deps = [ \":a\" , x [ 1 : 2 ] ] + select ( { \"//conditions:default\" : [ \"c\" ] , } ) , srcs = glob ( [ \"q*\" ] , exclude = [ \"b\" ] ) , y = [ a for a , b in { 1 : 2 } for ( c , d ) in e ] , z = a if b else ( 3 , ) , w = - x . f ( not y ) ) \n ( a , b ) = ( 1 , 2 ) \n v = x [ 1 ] \n p . q ( 1 ) \n t = ( x ) + - 1 \n [ f ( i ) for i in x ] \n u = [ a for a in b ] [ c : ] \n ";
  std::vector<std::string> gt;
  { std::istringstream in(good); std::string w; while (std::getline(in, w)) { std::istringstream l(w); std::string t; while (l >> t) gt.push_back(t); gt.push_back("\n"); } }
  char tmp[] = "/tmp/c23.XXXXXX";
  if (!mkdtemp(tmp) || chdir(tmp)) return 9;      // glob() looks at an empty directory
  while (d.more()) {
    std::string text;
    if (d.n(2)) for (int k = d.n(25); k >= 0; --k) text += toks[d.n(toks.size())] + (d.n(4) ? " " : "");
    else {
      std::vector<std::string> v = gt;
      for (int k = 1 + d.n(3); k > 0; --k) switch (d.n(3)) {
        case 0: v.erase(v.begin() + d.n(v.size())); break;
        case 1: v[d.n(v.size())] = toks[d.n(toks.size())]; break;
        default: v.insert(v.begin() + d.n(v.size()), toks[d.n(toks.size())]);
      }
      if (d.n(3) == 0) v.resize(d.n(v.size()));
      for (auto &t : v) text += t + " ";
    }
    if (d.n(4) == 0 && !text.empty()) for (int k = d.n(3); k >= 0; --k) {        // any bytes
      const size_t at = d.n(text.size());
      const char c = d.n(2) ? static_cast<char>(d.n(256)) : "\"'\\#\n\r\t0x_.*!=<>-"[d.n(17)];
      if (d.n(2)) text[at] = c; else text.insert(at, 1, c);
      if (d.n(4) == 0) text.resize(at + 1);
    }
    g_text = text;
    alarm(10);
    {
      NamedLineIndexedContent src("x", text);
      Scanner scanner(src);
      Arena arena(4096);
      std::stringstream err;
      Parser parser(&scanner, &arena, err);
      List *ast = parser.parse();
      if (!ast) d.fail("no tree for ", ::quoted(text));
      if (parser.parse_error() == err.str().empty()) d.fail("error status and messages differ for ", ::quoted(text));
      Check c(d, text, parser.parse_error());
      c.WalkNonNull(ast);
      std::stringstream out;
      out << static_cast<Node *>(ast);
      if (!parser.parse_error()) {           // all has been read
        Token t = scanner.Next();
        if (t.type != TokenType::kEof) d.fail("text left after parsing without error ", ::quoted(text));
      }
    }
#ifdef ELABORATE
    {
      ParsedProjectTestUtil pp;
      std::stringstream discard;
      auto *old = std::cerr.rdbuf(discard.rdbuf());
      pp.Add("//a", text);
      pp.ElaborateAll();
      for (auto &[p, f] : pp.project().ParsedFiles()) {
        if (!f->ast) continue;
        Check c(d, "(elaborated) " + text, true);
        c.WalkNonNull(f->ast);
        std::stringstream out;
        out << static_cast<Node *>(f->ast);
        query::FindTargets(f->ast, {}, [&](const query::Result &r) {
          for (List *l : {r.srcs_list, r.hdrs_list, r.deps_list, r.outs_list, r.visibility}) query::ExtractStringList(l);
        });
      }
      std::cerr.rdbuf(old);
    }
#endif
  }
  if (chdir("/") || rmdir(tmp)) return 9;
  return d.done();
}
