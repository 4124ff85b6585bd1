// AST exporter: prints, as JSON, the type-checked bodies (as clang sees them)
// of every function defined in files below --root, plus record and enum
// layouts. It drops nothing of the statements and expressions; it strips the
// purely syntactic wrappers listed in Strip() below.
#include <set>
#include <map>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;
static std::string g_root, g_prefix;

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  Dumper(ASTContext &c, json::OStream &j) : ctx(c), J(j), pp(c.getPrintingPolicy()) {
    pp.SuppressInlineNamespace = true;
    pp.SuppressTagKeyword = true; pp.Bool = true; pp.PrintCanonicalTypes = true; pp.SuppressUnwrittenScope = true;
    pp.FullyQualifiedName = true; pp.SuppressDefaultTemplateArgs = true;
    pp.AnonymousTagLocations = true;
    mangle.reset(ItaniumMangleContext::create(ctx, ctx.getDiagnostics()));
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    auto &sm = ctx.getSourceManager();
    auto f = sm.getFilename(sm.getExpansionLoc(l));
    return f.starts_with(g_root);
  }
  std::string T(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(pp);
  }
  std::string Q(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream o(s);
    d->printQualifiedName(o, pp);
    return o.str();
  }
  std::string id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it == ids.end()) it = ids.emplace(d, g_prefix + std::to_string(ids.size())).first;
    return it->second;
  }
  std::string FnKey(const FunctionDecl *f) {
    std::string s; llvm::raw_string_ostream o(s);
    if (isa<CXXConstructorDecl>(f)) mangle->mangleName(GlobalDecl(cast<CXXConstructorDecl>(f), Ctor_Complete), o);
    else if (isa<CXXDestructorDecl>(f)) mangle->mangleName(GlobalDecl(cast<CXXDestructorDecl>(f), Dtor_Complete), o);
    else if (mangle->shouldMangleDeclName(f)) mangle->mangleName(GlobalDecl(f), o);
    else o << f->getNameAsString();
    return o.str();
  }
  int64_t line(SourceLocation l) { return ctx.getSourceManager().getExpansionLineNumber(l); }
  std::string file(SourceLocation l) { return ctx.getSourceManager().getFilename(ctx.getSourceManager().getExpansionLoc(l)).str(); }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDependentContext()) return true;
    if (!inRoot(f->getLocation())) return true;
    if (!f->getBody()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!seen.insert(f->getCanonicalDecl()).second) return true;
    emitFunction(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isCompleteDefinition() || r->isDependentContext() || r->isLambda()) return true;
    static const std::set<std::string> c_structs = {"dirent", "stat", "timespec"};
    if (!inRoot(r->getLocation()) && !c_structs.count(Q(r))) return true;
    if (!seen.insert(r).second) return true;
    J.object([&] {
      J.attribute("k", "Record"); J.attribute("q", Q(r)); J.attribute("t", T(ctx.getRecordType(r)));
      J.attribute("size", (int64_t)ctx.getTypeSizeInChars(ctx.getRecordType(r)).getQuantity());
      J.attributeArray("bases", [&] { for (auto &b : r->bases()) J.value(T(b.getType())); });
      const ASTRecordLayout &L = ctx.getASTRecordLayout(r);
      J.attributeArray("fields", [&] {
        for (auto *fd : r->fields()) J.object([&] {
          J.attribute("n", fd->getNameAsString()); J.attribute("t", T(fd->getType())); if (fd->getType().isConstQualified()) J.attribute("const", true);
          J.attribute("off", (int64_t)L.getFieldOffset(fd->getFieldIndex()) / 8);
          if (fd->hasInClassInitializer() && fd->getInClassInitializer()) { J.attributeBegin("init"); E(fd->getInClassInitializer()); J.attributeEnd(); }
        });
      });
      J.attributeArray("methods", [&] {
        for (auto *m : r->methods()) J.object([&] {
          J.attribute("q", Q(m)); J.attribute("key", FnKey(m)); J.attribute("virt", m->isVirtual());
          J.attribute("pure", m->isPureVirtual());
          J.attributeArray("over", [&] { for (auto *o : m->overridden_methods()) J.value(FnKey(o)); });
        });
      });
    });
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!inRoot(e->getLocation())) return true;
    if (!seen.insert(e).second) return true;
    J.object([&] {
      J.attribute("k", "Enum"); J.attribute("q", Q(e));
      J.attributeArray("vals", [&] { for (auto *c : e->enumerators()) J.array([&] { J.value(c->getNameAsString()); J.value(c->getInitVal().getExtValue()); }); });
    });
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {  // globals, static members
    if (!v->hasGlobalStorage() || !inRoot(v->getLocation()) || v->isStaticLocal()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (!v->getInit()) return true;
    J.object([&] { J.attribute("k", "Global"); J.attribute("q", Q(v)); J.attribute("id", id(v)); varAttrs(v); });
    return true;
  }

 private:
  void emitFunction(FunctionDecl *f) {
    J.object([&] {
      J.attribute("k", "Function"); J.attribute("q", Q(f)); J.attribute("key", FnKey(f));
      J.attribute("file", file(f->getLocation())); J.attribute("line", line(f->getLocation()));
      J.attribute("endline", line(f->getEndLoc()));
      J.attribute("ret", T(f->getReturnType()));
      J.attribute("implicit", f->isImplicit() || f->isDefaulted());
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
        J.attribute("cls", T(ctx.getRecordType(m->getParent())));
        J.attribute("static", m->isStatic()); J.attribute("const", m->isConst()); J.attribute("virt", m->isVirtual());
      }
      J.attributeArray("params", [&] { for (auto *p : f->parameters()) param(p); });
      if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        J.attribute("ctor", true);
        J.attributeArray("inits", [&] {
          for (auto *i : c->inits()) J.object([&] {
            if (i->isAnyMemberInitializer()) J.attribute("field", i->getAnyMember()->getNameAsString());
            else if (i->isBaseInitializer()) J.attribute("base", T(QualType(i->getBaseClass(), 0)));
            else if (i->isDelegatingInitializer()) J.attribute("deleg", true);
            J.attribute("written", i->isWritten());
            J.attributeBegin("e"); E(i->getInit()); J.attributeEnd();
          });
        });
      }
      if (isa<CXXDestructorDecl>(f)) J.attribute("dtor", true);
      J.attributeBegin("body"); S(f->getBody()); J.attributeEnd();
    });
  }
  void param(const ParmVarDecl *p) { J.object([&] { J.attribute("n", p->getNameAsString()); J.attribute("id", id(p)); J.attribute("t", T(p->getType())); }); }
  void varAttrs(const VarDecl *v) {
    J.attribute("n", v->getNameAsString()); J.attribute("t", T(v->getType()));
    J.attribute("static", v->isStaticLocal());
    if (v->isConstexpr() || v->getType().isConstQualified()) J.attribute("const", true);
    if (v->getInit()) { J.attributeBegin("init"); E(v->getInit()); J.attributeEnd(); }
  }
  void varDecl(const VarDecl *v) {
    J.object([&] {
      J.attribute("id", id(v)); varAttrs(v);
      if (auto *d = dyn_cast<DecompositionDecl>(v))
        J.attributeArray("bindings", [&] {
          for (auto *b : d->bindings()) J.object([&] {
            J.attribute("n", b->getNameAsString()); J.attribute("id", id(b)); J.attribute("t", T(b->getType()));
            if (b->getHoldingVar()) { J.attributeBegin("hold"); varDecl(b->getHoldingVar()); J.attributeEnd(); J.attribute("holdid", id(b->getHoldingVar())); }
            else if (b->getBinding()) { J.attributeBegin("e"); E(b->getBinding()); J.attributeEnd(); }
          });
        });
    });
  }
  void sub(const char *n, const Stmt *s) { if (!s) return; J.attributeBegin(n); S(s); J.attributeEnd(); }
  void S(const Stmt *s) {
    if (!s) { J.object([&] { J.attribute("k", "Null"); }); return; }
    if (auto *e = dyn_cast<Expr>(s)) { E(e); return; }
    if (auto *a = dyn_cast<AttributedStmt>(s)) { S(a->getSubStmt()); return; }
    J.object([&] {
      J.attribute("ln", line(s->getBeginLoc()));
      if (auto *c = dyn_cast<CompoundStmt>(s)) { J.attribute("k", "Block"); J.attributeArray("c", [&] { for (auto *x : c->body()) S(x); }); }
      else if (auto *d = dyn_cast<DeclStmt>(s)) {
        J.attribute("k", "Decl");
        J.attributeArray("vars", [&] { for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) varDecl(v); });
      } else if (auto *i = dyn_cast<IfStmt>(s)) {
        J.attribute("k", "If");
        sub("init", i->getInit());
        if (i->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(i->getConditionVariable()); J.attributeEnd(); }
        if (i->isConstexpr()) J.attribute("constexpr", true);
        sub("cond", i->getCond()); sub("then", i->getThen()); sub("else", i->getElse());
      } else if (auto *w = dyn_cast<WhileStmt>(s)) {
        J.attribute("k", "While");
        if (w->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(w->getConditionVariable()); J.attributeEnd(); }
        sub("cond", w->getCond()); sub("body", w->getBody());
      } else if (auto *w = dyn_cast<DoStmt>(s)) { J.attribute("k", "Do"); sub("cond", w->getCond()); sub("body", w->getBody()); }
      else if (auto *f = dyn_cast<ForStmt>(s)) {
        J.attribute("k", "For"); sub("init", f->getInit());
        if (f->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(f->getConditionVariable()); J.attributeEnd(); }
        sub("cond", f->getCond()); sub("inc", f->getInc()); sub("body", f->getBody());
      } else if (auto *f = dyn_cast<CXXForRangeStmt>(s)) {
        J.attribute("k", "RangeFor"); sub("rinit", f->getInit());
        J.attributeBegin("range"); E(f->getRangeInit()); J.attributeEnd();
        J.attributeBegin("var"); varDecl(f->getLoopVariable()); J.attributeEnd();
        sub("rangestmt", f->getRangeStmt()); sub("begin", f->getBeginStmt()); sub("end", f->getEndStmt());
        sub("cond", f->getCond()); sub("inc", f->getInc());
        sub("body", f->getBody());
      } else if (auto *w = dyn_cast<SwitchStmt>(s)) {
        J.attribute("k", "Switch"); sub("init", w->getInit()); sub("cond", w->getCond()); sub("body", w->getBody());
      } else if (auto *c = dyn_cast<CaseStmt>(s)) {
        J.attribute("k", "Case"); J.attributeBegin("val"); E(c->getLHS()); J.attributeEnd();
        if (c->getRHS()) { J.attributeBegin("val2"); E(c->getRHS()); J.attributeEnd(); }
        sub("body", c->getSubStmt());
      } else if (auto *c = dyn_cast<DefaultStmt>(s)) { J.attribute("k", "Default"); sub("body", c->getSubStmt()); }
      else if (isa<BreakStmt>(s)) J.attribute("k", "Break");
      else if (isa<ContinueStmt>(s)) J.attribute("k", "Continue");
      else if (auto *r = dyn_cast<ReturnStmt>(s)) { J.attribute("k", "Return"); sub("e", r->getRetValue()); }
      else if (isa<NullStmt>(s)) J.attribute("k", "Null");
      else { J.attribute("k", "UnsupportedStmt"); J.attribute("what", s->getStmtClassName()); }
    });
  }
  void args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { J.attributeArray("args", [&] { for (auto *a : r) E(a); }); }
  void calleeAttrs(const FunctionDecl *f) {
    J.attribute("q", Q(f)); J.attribute("key", FnKey(f)); J.attribute("ftype", T(f->getType()));
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      J.attribute("cls", T(ctx.getRecordType(m->getParent()))); J.attribute("virt", m->isVirtual());
      J.attribute("static", m->isStatic()); J.attribute("mconst", m->isConst());
      if (m->isDefaulted() || m->isImplicit()) J.attribute("defaulted", true);
      if (isa<CXXConversionDecl>(m)) J.attribute("conv", true);
    }
    J.attributeArray("ptypes", [&] { for (auto *p : f->parameters()) J.value(T(p->getType())); });
  }
  void E(const Expr *e) {
    if (!e) { J.object([&] { J.attribute("k", "Null"); }); return; }
    // Strip: wrappers without run-time meaning.
    for (;;) {
      if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
      if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
      if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
      break;
    }
    J.object([&] {
      J.attribute("t", T(e->getType()));
      J.attribute("v", e->isLValue() ? "l" : e->isXValue() ? "x" : "p");
      J.attribute("ln", line(e->getBeginLoc()));
      E2(e);
    });
  }
  void kid(const char *n, const Expr *e) { J.attributeBegin(n); E(e); J.attributeEnd(); }
  void E2(const Expr *e) {
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<40> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      J.attribute("k", "Int"); J.attribute("val", s.str());
    }
    else if (auto *x = dyn_cast<CharacterLiteral>(e)) { J.attribute("k", "Char"); J.attribute("val", (int64_t)x->getValue()); }
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { J.attribute("k", "Bool"); J.attribute("val", x->getValue()); }
    else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
      J.attribute("k", "Str");
      J.attributeArray("bytes", [&] { for (unsigned char c : x->getBytes()) J.value((int64_t)c); });
    }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) J.attribute("k", "Nullptr");
    else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl();
      J.attribute("k", "Ref"); J.attribute("n", d->getNameAsString()); J.attribute("id", id(d)); J.attribute("q", Q(d));
      if (auto *c = dyn_cast<EnumConstantDecl>(d)) { J.attribute("dk", "enum"); J.attribute("val", c->getInitVal().getExtValue()); }
      else if (isa<FunctionDecl>(d)) { J.attribute("dk", "fn"); J.attribute("key", FnKey(cast<FunctionDecl>(d))); }
      else if (auto *v = dyn_cast<VarDecl>(d)) {
        J.attribute("dk", v->hasGlobalStorage() ? "global" : "var");
        if (v->isStaticLocal() && v->getType().isConstQualified()) J.attribute("slconst", true);
      }
      else if (auto *bd = dyn_cast<BindingDecl>(d)) {
        J.attribute("dk", "binding");
        if (bd->getHoldingVar()) J.attribute("holdid", id(bd->getHoldingVar()));
      }
      else J.attribute("dk", "other");
    }
    else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
      J.attribute("k", "TParam"); J.attribute("n", x->getParameter()->getNameAsString()); kid("e", x->getReplacement());
    }
    else if (auto *x = dyn_cast<MemberExpr>(e)) {
      J.attribute("k", "Member"); J.attribute("n", x->getMemberDecl()->getNameAsString()); J.attribute("arrow", x->isArrow());
      J.attribute("mk", isa<FieldDecl>(x->getMemberDecl()) ? "field" : isa<VarDecl>(x->getMemberDecl()) ? "static" : isa<EnumConstantDecl>(x->getMemberDecl()) ? "enum" : "fn");
      J.attribute("q", Q(x->getMemberDecl()));
      if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) J.attribute("cls", T(ctx.getRecordType(fd->getParent())));
      kid("base", x->getBase());
    }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      if (auto *m = x->getMethodDecl()) {
        J.attribute("k", "MCall"); calleeAttrs(m);
        auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        J.attribute("arrow", me && me->isArrow());
        J.attribute("qualified", me && me->hasQualifier());
        kid("obj", x->getImplicitObjectArgument());
      } else { J.attribute("k", "PtrMCall"); kid("callee", x->getCallee()); }
      args(x->arguments());
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      J.attribute("k", "OpCall"); J.attribute("op", getOperatorSpelling(x->getOperator()));
      if (auto *f = x->getDirectCallee()) { calleeAttrs(f); J.attribute("member", isa<CXXMethodDecl>(f)); 
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) J.attribute("islambda", m->getParent()->isLambda()); }
      args(x->arguments());
    }
    else if (auto *x = dyn_cast<CallExpr>(e)) {
      if (auto *f = x->getDirectCallee()) { J.attribute("k", "Call"); calleeAttrs(f); }
      else { J.attribute("k", "ICall"); kid("callee", x->getCallee()); }
      args(x->arguments());
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      J.attribute("k", "Construct"); calleeAttrs(x->getConstructor());
      J.attribute("copy", x->getConstructor()->isCopyConstructor()); J.attribute("move", x->getConstructor()->isMoveConstructor());
      J.attribute("dflt", x->getConstructor()->isDefaultConstructor());
      J.attribute("list", x->isListInitialization());
      J.attributeArray("args", [&] { for (auto *a : x->arguments()) E(a); });
    }
    else if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      J.attribute("k", "InitList"); J.attributeArray("args", [&] { for (auto *a : x->inits()) E(a); });
      if (x->getArrayFiller()) kid("filler", x->getArrayFiller());
    }
    else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      J.attribute("k", "Unary"); J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("post", x->isPostfix()); kid("e", x->getSubExpr());
    }
    else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      J.attribute("k", isa<CompoundAssignOperator>(x) ? "CompAssign" : "Binary"); J.attribute("op", x->getOpcodeStr());
      if (auto *c = dyn_cast<CompoundAssignOperator>(x)) { J.attribute("ct", T(c->getComputationResultType())); J.attribute("clt", T(c->getComputationLHSType())); }
      kid("l", x->getLHS()); kid("r", x->getRHS());
    }
    else if (auto *x = dyn_cast<ConditionalOperator>(e)) { J.attribute("k", "Cond"); kid("c", x->getCond()); kid("a", x->getTrueExpr()); kid("b", x->getFalseExpr()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { J.attribute("k", "Index"); kid("base", x->getBase()); kid("idx", x->getIdx()); }
    else if (auto *x = dyn_cast<CastExpr>(e)) {
      J.attribute("k", "Cast"); J.attribute("ck", x->getCastKindName()); J.attribute("impl", isa<ImplicitCastExpr>(x));
      J.attribute("cls", x->getStmtClassName());
      kid("e", x->getSubExpr());
    }
    else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { J.attribute("k", "Temp"); kid("e", x->getSubExpr()); }
    else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      J.attribute("k", "Lambda");
      J.attributeArray("caps", [&] {
        auto ii = x->capture_init_begin();
        for (auto &c : x->captures()) {
          const Expr *init = *ii++;
          J.object([&] {
            if (c.capturesThis()) J.attribute("this", true);
            else if (c.capturesVariable()) { J.attribute("id", id(c.getCapturedVar())); J.attribute("n", c.getCapturedVar()->getNameAsString());
              if (auto *cv = dyn_cast<VarDecl>(c.getCapturedVar())) if (cv->isInitCapture()) J.attribute("initcap", true); }
            J.attribute("ref", c.getCaptureKind() == LCK_ByRef);
            if (init) kid("init", init);
          });
        }
      });
      const CXXMethodDecl *m = x->getCallOperator();
      J.attribute("generic", x->isGenericLambda());
      J.attributeArray("params", [&] { for (auto *p : m->parameters()) param(p); });
      J.attribute("ret", T(m->getReturnType()));
      if (!x->isGenericLambda()) { J.attributeBegin("body"); S(x->getBody()); J.attributeEnd(); }
    }
    else if (isa<CXXThisExpr>(e)) J.attribute("k", "This");
    else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      J.attribute("k", "New"); J.attribute("at", T(x->getAllocatedType())); J.attribute("nplace", (int64_t)x->getNumPlacementArgs());
      J.attributeArray("place", [&] { for (auto *a : x->placement_arguments()) E(a); });
      if (x->isArray() && x->getArraySize() && *x->getArraySize()) kid("asize", *x->getArraySize());
      if (x->getInitializer()) kid("init", x->getInitializer());
      if (x->getConstructExpr()) kid("ctor", x->getConstructExpr());
    }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { J.attribute("k", "Delete"); J.attribute("arr", x->isArrayForm()); kid("e", x->getArgument()); }
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      J.attribute("k", "SizeOf"); J.attribute("what", (int64_t)x->getKind()); 
      QualType at = x->isArgumentType() ? x->getArgumentType() : x->getArgumentExpr()->getType();
      J.attribute("of", T(at));
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, ctx)) J.attribute("val", r.Val.getInt().getExtValue());
    }
    else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { J.attribute("k", "StdInitList"); kid("e", x->getSubExpr()); }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) J.attribute("k", "ZeroInit");
    else if (auto *x = dyn_cast<FloatingLiteral>(e)) { J.attribute("k", "Float"); J.attribute("val", x->getValueAsApproximateDouble()); }
    else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { J.attribute("k", "InheritedCtor"); calleeAttrs(x->getConstructor()); }
    else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { J.attribute("k", "ArrayInitLoop"); kid("e", x->getCommonExpr()); }
    else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { J.attribute("k", "Opaque"); kid("e", x->getSourceExpr()); } else J.attribute("k", "OpaqueNone"); }
    else { J.attribute("k", "UnsupportedExpr"); J.attribute("what", e->getStmtClassName()); }
  }
  ASTContext &ctx; json::OStream &J; PrintingPolicy pp;
  std::unique_ptr<MangleContext> mangle;
  std::map<const Decl *, std::string> ids; std::set<const Decl *> seen;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &c) override {
    json::OStream J(llvm::outs());
    J.arrayBegin(); Dumper d(c, J); d.TraverseDecl(c.getTranslationUnitDecl());
    if (c.getDiagnostics().hasErrorOccurred()) J.object([&] { J.attribute("k", "Error"); });
    J.arrayEnd(); llvm::outs() << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv) {
  g_root = argv[1];
  std::vector<std::string> flags;
  g_prefix = argv[3];
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[2]});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
