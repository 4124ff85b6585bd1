// Writes random expressions and statements as text together with the tree they spell out, and compares with what is parsed.
#include <csignal>
#include "bant/frontend/named-content.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "common.h"
using namespace bant;
struct Dump : BaseVoidVisitor {
  std::string s;
  void W(Node *n) { if (n) n->Accept(this); else s += "_"; s += " "; }
  void VisitAssignment(Assignment *a) override { s += "(set "; W(a->left()); W(a->right()); s += ")"; }
  void VisitFunCall(FunCall *f) override { s += "(call "; W(f->identifier()); W(f->argument()); s += ")"; }
  void VisitList(List *l) override { s += l->type() == List::Type::kList ? "[" : l->type() == List::Type::kMap ? "{" : "<"; for (Node *n : *l) W(n); s += "]"; }
  void VisitUnaryExpr(UnaryExpr *e) override { s += "(u" + std::to_string(e->op()) + " "; W(e->node()); s += ")"; }
  void VisitBinOpNode(BinOpNode *b) override { s += "(o" + std::to_string(b->op()) + " "; W(b->left()); W(b->right()); s += ")"; }
  void VisitListComprehension(ListComprehension *l) override { s += "(comp" + std::to_string((int)l->type()) + " "; W(l->for_node()); s += ")"; }
  void VisitTernary(Ternary *t) override { s += "(if "; W(t->condition()); W(t->positive()); W(t->negative()); s += ")"; }
  void VisitScalar(Scalar *x) override { s += (x->type() == Scalar::ScalarType::kInt ? "#" : "$") + std::string(x->AsString()); }
  void VisitIdentifier(Identifier *i) override { s += i->id(); }
};
struct TD { std::string t, d; };
static Driver *D;
static std::string sp() { static const char *const k[] = {" ", "", " ", "  ", " "}; return k[D->n(5)]; }
static std::string nl() { return D->n(3) ? sp() : "\n" + sp(); }
static TD ident() { static const char *const k[] = {"a", "b", "foo", "x1", "_y", "inn", "fort", "iff"}; std::string s = k[D->n(8)]; return {s, s}; }
static TD expr(int depth);
static TD value(int depth);
static std::string o(int t) { return "(o" + std::to_string(t) + " "; }
static TD arglist(int depth) {
  TD r{"(", "<"};
  const int k = D->n(4);
  for (int i = 0; i < k; ++i) {
    TD e = expr(depth - 1);
    if (D->n(2)) { TD n = ident(); e = {n.t + sp() + "=" + nl() + e.t, "(set " + n.d + " " + e.d + " )"}; }
    r.t += nl() + e.t + nl(); r.d += e.d + " ";
    if (i + 1 < k || D->n(2)) r.t += ",";
  }
  return {r.t + nl() + ")", r.d + "]"};
}
static TD element(int depth, bool map) {
  TD e = expr(depth - 1);
  if (!map) return e;
  TD v = expr(depth - 1);
  return {e.t + " :" + nl() + v.t, o(':') + e.d + " " + v.d + " )"};
}
static TD value(int depth) {
  switch (D->n(depth > 0 ? 11 : 4)) {
    case 0: case 1: return ident();
    case 2: { std::string s = std::to_string(D->n(1000)); return {s, "#" + s}; }
    case 3: { std::string s = D->n(2) ? "q r" : ""; return {D->n(2) ? "\"" + s + "\"" : "'" + s + "'", "$" + s}; }
    case 4: { TD n = ident(), a = arglist(depth); return {n.t + sp() + a.t, "(call " + n.d + " " + a.d + " )"}; }
    case 5: case 6: {           // list, map
      const bool map = D->n(2);
      TD r{map ? "{" : "[", map ? "{" : "["};
      const int k = D->n(4);
      for (int i = 0; i < k; ++i) { TD e = element(depth, map); r.t += nl() + e.t + nl(); r.d += e.d + " "; if (i + 1 < k || D->n(2)) r.t += ","; }
      return {r.t + nl() + (map ? "}" : "]"), r.d + "]"};
    }
    case 7: {                   // comprehension
      const bool map = D->n(2);
      TD e = element(depth, map);
      TD r{(map ? "{" : "[") + e.t, e.d};
      for (int k = 1 + D->n(2); k > 0; --k) {
        const bool paren = D->n(2);
        std::string vt, vd = "<";
        for (int n = 1 + D->n(2), i = 0; i < n; ++i) { TD v = ident(); vt += (i ? ", " : "") + v.t; vd += v.d + " "; }
        TD in = expr(depth - 1);
        r.t += nl() + " for " + (paren ? "(" + vt + ")" : vt) + " in " + in.t;
        r.d = o(kFor) + r.d + " " + o(kIn) + vd + "] " + in.d + " ) )";
      }
      return {r.t + nl() + (map ? "}" : "]"), "(comp" + std::to_string((int)(map ? List::Type::kMap : List::Type::kList)) + " " + r.d + " )"};
    }
    case 8: { TD e = expr(depth - 1); return {"(" + nl() + e.t + nl() + ")", e.d}; }
    case 9: {                   // tuple
      const int k = D->n(4);
      TD r{"(", "<"};
      for (int i = 0; i < k; ++i) { TD e = expr(depth - 1); r.t += nl() + e.t + nl(); r.d += e.d + " "; if (i + 1 < k || k == 1 || D->n(2)) r.t += ","; }
      return {r.t + ")", r.d + "]"};
    }
    default: {                  // access
      TD v = value(depth - 1), i = expr(depth - 1), j = expr(depth - 1);
      switch (D->n(4)) {
        case 0: return {v.t + sp() + "[" + i.t + " :" + j.t + "]", o('[') + v.d + " " + o(':') + i.d + " " + j.d + " ) )"};
        case 1: return {v.t + sp() + "[" + i.t + " :]", o('[') + v.d + " " + o(':') + i.d + " _ ) )"};
        case 2: return {v.t + sp() + "[: " + j.t + "]", o('[') + v.d + " " + o(':') + "_ " + j.d + " ) )"};
        default: return {v.t + sp() + "[" + nl() + i.t + nl() + "]", o('[') + v.d + " " + i.d + " )"};
      }
    }
  }
}
static TD expr(int depth) {
  if (depth <= 0) return value(0);
  switch (D->n(6)) {
    case 0: case 1: return value(depth);
    case 2: { const bool n = D->n(2); TD e = expr(depth - 1); return {n ? "not " + e.t : "-" + e.t, "(u" + std::to_string(n ? kNot : '-') + " " + e.d + " )"}; }
    case 3: {                   // the condition and the operand on the right take all there is
      TD c = expr(depth - 1), p = value(depth - 1), n = expr(depth - 1);
      if (D->n(2)) return {p.t + " if " + c.t + " else " + n.t, "(if " + c.d + " " + p.d + " " + n.d + " )"};
      TD c2 = value(0);
      return {"(" + p.t + " if " + c2.t + ")", "(if " + c2.d + " " + p.d + " _ )"};
    }
    default: {
      static const std::pair<const char *, int> k[] = {{"+", '+'}, {"-", '-'}, {"*", '*'}, {"/", '/'}, {"%", '%'}, {"|", '|'}, {"<", '<'}, {">", '>'}, {"<=", kLessEqual}, {">=", kGreaterEqual},
        {"==", kEqualityComparison}, {"!=", kNotEqual}, {" in ", kIn}, {" not in ", kNotIn}, {" and ", kAnd}, {" or ", kOr}, {" .", '.'}};
      auto [t, op] = k[D->n(17)];
      TD l = value(depth - 1), r = expr(depth - 1);
      return {l.t + sp() + t + nl() + r.t, o(op) + l.d + " " + r.d + " )"};
    }
  }
}
static std::string g_text;
static void Stuck(int) { printf("FAIL no end for %s\n", ::quoted(g_text).c_str()); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
  Driver d(argc, argv);
  D = &d;
  signal(SIGALRM, Stuck);
  while (d.more()) {
    TD f{"", "["};
    for (int k = d.n(4); k > 0; --k) {
      TD e = expr(3), n = ident();
      switch (d.n(6)) {
        case 0: f.t += "\"\"\"doc\"\"\"\n"; continue;
        case 1: { TD a = arglist(3); e = {n.t + a.t, "(call " + n.d + " " + a.d + " )"}; break; }
        case 2: e = {n.t + " ." + e.t, o('.') + n.d + " " + e.d + " )"}; break;
        case 3: { TD m = ident(); e = {"\"x\"\n(" + n.t + ", " + m.t + ") = " + e.t, "(set <" + n.d + " " + m.d + " ] " + e.d + " )"}; break; }
        case 4: { TD x = expr(2); e = {"[" + x.t + " for " + n.t + " in " + e.t + "]", "(comp0 " + o(kFor) + x.d + " " + o(kIn) + "<" + n.d + " ] " + e.d + " ) ) )"}; break; }
        default: e = {n.t + " = " + e.t, "(set " + n.d + " " + e.d + " )"};
      }
      f.t += e.t + "\n"; f.d += e.d + " ";
    }
    f.d += "]";
    // "." after a number or between digits is part of the number
    g_text = f.t;
    alarm(20);
    NamedLineIndexedContent src("x", f.t);
    Scanner scanner(src);
    Arena arena(4096);
    std::stringstream err;
    Parser parser(&scanner, &arena, err);
    List *ast = parser.parse();
    if (parser.parse_error()) d.fail("error for well-formed ", ::quoted(f.t), ": ", err.str());
    Dump dump;
    ast->Accept(&dump);
    if (dump.s != f.d) d.fail("parsing ", ::quoted(f.t), "\n gives ", dump.s, "\n not   ", f.d);
  }
  return d.done();
}
