// cxdump: dumps the (instantiated) clang AST of the functions defined under given path
// prefixes as compact JSON.  It performs no rewriting: each statement/expression node of
// the compiled program is written out with the declarations sema resolved it to.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/DiagnosticSema.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> ROOTS;  // dump everything defined here
static std::vector<std::string> LIBS;   // dump bodies from here only when referenced
static std::string OUT;
static int NERR = 0, NDUP = 0;

static bool hasPrefix(const std::string &f, const std::vector<std::string> &ps)
{
  for (auto &p : ps)
    if (f.compare(0, p.size(), p) == 0) return true;
  return false;
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const FunctionDecl *, int> fnIds;
  std::vector<const FunctionDecl *> fns;
  std::map<const void *, int> tyIds;
  std::vector<json::Value> tys;
  std::map<const CXXRecordDecl *, int> recIds;
  std::vector<const CXXRecordDecl *> recs;
  std::map<const ValueDecl *, int> varIds;
  json::Object globals;
  PrintingPolicy PP;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  std::string fileOf(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    auto p = SM.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    return p.getFilename();
  }
  int lineOf(SourceLocation l)
  {
    auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isInvalid() ? 0 : p.getLine();
  }
  int var(const ValueDecl *d)
  {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    auto it = varIds.find(d);
    if (it != varIds.end()) return it->second;
    int n = varIds.size();
    varIds[d] = n;
    return n;
  }
  int rec(const CXXRecordDecl *r)
  {
    if (r->getDefinition()) r = r->getDefinition();
    r = r->getCanonicalDecl();
    auto it = recIds.find(r);
    if (it != recIds.end()) return it->second;
    int n = recs.size();
    recIds[r] = n;
    recs.push_back(r);
    return n;
  }
  json::Value targ(const TemplateArgument &a)
  {
    switch (a.getKind()) {
      case TemplateArgument::Type:
        return json::Object{{"t", ty(a.getAsType())}};
      case TemplateArgument::Integral:
        return json::Object{{"i", a.getAsIntegral().isSigned() ? a.getAsIntegral().getSExtValue() : (int64_t)a.getAsIntegral().getZExtValue()}};
      case TemplateArgument::Pack: {
        json::Array arr;
        for (auto &x : a.pack_elements()) arr.push_back(targ(x));
        return json::Object{{"p", std::move(arr)}};
      }
      default:
        return json::Object{{"x", 1}};
    }
  }
  int ty(QualType q)
  {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    bool cst = q.isConstQualified();
    (void)cst;
    q = q.getUnqualifiedType();
    const void *key = q.getAsOpaquePtr();
    auto it = tyIds.find(key);
    if (it != tyIds.end()) return it->second;
    int id = tys.size();
    tyIds[key] = id;
    tys.push_back(nullptr);
    json::Object o;
    const Type *t = q.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) {
      o["k"] = "b";
      o["n"] = b->getName(PP).str();
      if (b->isInteger()) {
        o["bits"] = (int64_t)C.getTypeSize(q);
        o["s"] = b->isSignedInteger();
      }
    } else if (auto *p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = ty(p->getPointeeType());
      o["c"] = p->getPointeeType().isConstQualified();
    } else if (auto *r = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["to"] = ty(r->getPointeeType());
      o["c"] = r->getPointeeType().isConstQualified();
      o["rv"] = isa<RValueReferenceType>(t);
    } else if (auto *e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = e->getDecl()->getQualifiedNameAsString();
    } else if (auto *rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      auto *d = dyn_cast<CXXRecordDecl>(rt->getDecl());
      o["n"] = rt->getDecl()->getQualifiedNameAsString();
      if (d) {
        if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
          json::Array a;
          for (auto &x : s->getTemplateArgs().asArray()) a.push_back(targ(x));
          o["a"] = std::move(a);
        }
        if (d->isLambda()) o["lambda"] = true;
        o["r"] = rec(d);
      }
      o["full"] = q.getAsString(PP).substr(0, 400);
    } else if (auto *a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["of"] = ty(a->getElementType());
      o["len"] = (int64_t)a->getSize().getZExtValue();
    } else if (auto *f = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn";
      o["ret"] = ty(f->getReturnType());
    } else {
      o["k"] = "other";
      o["n"] = q.getAsString(PP).substr(0, 300);
    }
    tys[id] = std::move(o);
    return id;
  }
  int fn(const FunctionDecl *f)
  {
    if (auto *d = f->getDefinition()) f = d;
    f = f->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    int n = fns.size();
    fnIds[f] = n;
    fns.push_back(f);
    return n;
  }
  bool wantBody(const FunctionDecl *d)
  {
    std::string f = fileOf(d->getLocation());
    return hasPrefix(f, ROOTS) || hasPrefix(f, LIBS);
  }
  // ---------------------------------------------------------------- expressions
  json::Value castE(const CastExpr *e)
  {
    CastKind k = e->getCastKind();
    json::Object o;
    switch (k) {
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
        if (!isa<ExplicitCastExpr>(e) || k == CK_FunctionToPointerDecay)
          return expr(e->getSubExpr());
        return expr(e->getSubExpr());
      case CK_LValueToRValue:
        o["k"] = "l2r";
        o["e"] = expr(e->getSubExpr());
        o["t"] = ty(e->getType());
        return o;
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return expr(e->getSubExpr());
      default:
        o["k"] = "cast";
        o["ck"] = e->getCastKindName();
        o["x"] = isa<ExplicitCastExpr>(e);
        o["e"] = expr(e->getSubExpr());
        o["t"] = ty(e->getType());
        return o;
    }
  }
  json::Object fnref(const FunctionDecl *f)
  {
    json::Object o;
    o["f"] = fn(f);
    return o;
  }
  json::Array args(const CallExpr *e, unsigned from = 0)
  {
    json::Array a;
    for (unsigned i = from; i < e->getNumArgs(); ++i) a.push_back(expr(e->getArg(i)));
    return a;
  }
  json::Value unsupported(const Stmt *s)
  {
    return json::Object{{"k", "unsupported"}, {"n", s->getStmtClassName()}, {"l", lineOf(s->getBeginLoc())}};
  }
  json::Value expr(const Expr *e)
  {
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      return json::Object{{"k", "mat"}, {"e", expr(x->getSubExpr())}, {"t", ty(x->getType())}};
    }
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
      return json::Object{{"k", "stdinit"}, {"e", expr(x->getSubExpr())}, {"t", ty(x->getType())}};
    if (auto *x = dyn_cast<CastExpr>(e)) return castE(x);
    json::Object o;
    o["t"] = ty(e->getType());
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, e->getType()->isSignedIntegerOrEnumerationType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "flt";
      llvm::SmallString<64> s;
      x->getValue().toString(s, 40, 0);
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      o["v"] = json::fixUTF8(x->getBytes());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return o;
    }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl();
      o["l"] = lineOf(e->getBeginLoc());
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fref";
        o["f"] = fn(f);
        return o;
      }
      if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int";
        o["v"] = std::to_string(c->getInitVal().extOrTrunc(64).getSExtValue());
        o["en"] = c->getNameAsString();
        return o;
      }
      if (auto *v = dyn_cast<VarDecl>(d)) {
        o["k"] = "var";
        o["id"] = var(v);
        o["n"] = v->getNameAsString();
        if (v->hasGlobalStorage()) {
          o["g"] = v->getQualifiedNameAsString();
          global(v);
        }
        return o;
      }
      if (auto *b = dyn_cast<BindingDecl>(d)) {
        o["k"] = "bind";
        o["e"] = expr(b->getBinding());
        return o;
      }
      return unsupported(e);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      o["l"] = lineOf(x->getMemberLoc());
      if (auto *v = dyn_cast<VarDecl>(d)) {
        o["k"] = "var";
        o["id"] = var(v);
        o["n"] = v->getNameAsString();
        o["g"] = v->getQualifiedNameAsString();
        global(v);
        return o;
      }
      if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int";
        o["v"] = std::to_string(c->getInitVal().extOrTrunc(64).getSExtValue());
        return o;
      }
      if (auto *f = dyn_cast<FieldDecl>(d)) {
        o["k"] = "mem";
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["n"] = f->getNameAsString();
        if (auto *r = dyn_cast<CXXRecordDecl>(f->getParent())) o["r"] = rec(r);
        return o;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "memfn";
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["f"] = fn(f);
        return o;
      }
      return unsupported(e);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall";
      o["l"] = lineOf(x->getOperatorLoc());
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) o["f"] = fn(f);
      else return unsupported(e);
      o["args"] = args(x);
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      o["l"] = lineOf(x->getExprLoc());
      auto *m = x->getMethodDecl();
      if (!m) return unsupported(e);
      o["f"] = fn(m);
      auto *cal = x->getCallee()->IgnoreParens();
      if (auto *me = dyn_cast<MemberExpr>(cal)) {
        o["b"] = expr(me->getBase());
        o["arrow"] = me->isArrow();
        o["virt"] = m->isVirtual() && !me->hasQualifier();
      } else
        return unsupported(e);
      o["args"] = args(x);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      o["l"] = lineOf(x->getExprLoc());
      o["k"] = "call";
      o["args"] = args(x);
      if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) {
        o["f"] = fn(f);
        return o;
      }
      if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) {
        o["k"] = "nop";
        return o;
      }
      o["k"] = "icall";
      o["e"] = expr(x->getCallee());
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      o["l"] = lineOf(x->getBeginLoc());
      o["f"] = fn(x->getConstructor());
      json::Array a;
      for (auto *s : x->arguments()) a.push_back(expr(s));
      o["args"] = std::move(a);
      o["li"] = x->isListInitialization();
      o["sil"] = x->isStdInitListInitialization();
      o["zero"] = x->requiresZeroInitialization();
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unsupported(e);
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      o["l"] = lineOf(x->getOperatorLoc());
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cas";
      o["op"] = x->getOpcodeStr();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["ct"] = ty(x->getComputationResultType());
      o["l"] = lineOf(x->getOperatorLoc());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["l"] = lineOf(x->getOperatorLoc());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
      o["l"] = lineOf(x->getExprLoc());
      return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "ilist";
      json::Array a;
      for (auto *s : x->inits()) a.push_back(expr(s));
      o["args"] = std::move(a);
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["et"] = ty(x->getAllocatedType());
      if (x->isArray()) return unsupported(e);
      o["init"] = expr(x->getConstructExpr() ? x->getConstructExpr() : x->getInitializer());
      o["l"] = lineOf(x->getBeginLoc());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = expr(x->getSubExpr());
      o["et"] = x->getSubExpr() ? ty(x->getSubExpr()->getType()) : -1;
      o["l"] = lineOf(x->getBeginLoc());
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) {
        o["k"] = "int";
        o["v"] = std::to_string(r.Val.getInt().extOrTrunc(64).getSExtValue());
        return o;
      }
      return unsupported(e);
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = var(cast<ValueDecl>(c.getCapturedVar()));
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["t"] = ty(c.getCapturedVar()->getType());
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (*ii) co["init"] = expr(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *m = x->getCallOperator();
      if (m && !m->isDependentContext()) o["f"] = fn(m);
      o["generic"] = x->isGenericLambda();
      return o;
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str";
      o["v"] = x->getFunctionName() ? x->getFunctionName()->getBytes().str() : "";
      return o;
    }
    if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "copyarr";
      o["e"] = expr(x->getCommonExpr()->getSourceExpr());
      return o;
    }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
    return unsupported(e);
  }
  void global(const VarDecl *v)
  {
    std::string k = std::to_string(var(v));
    if (globals.find(k) != globals.end()) return;
    globals[k] = nullptr;
    json::Object o;
    o["n"] = v->getQualifiedNameAsString();
    o["t"] = ty(v->getType());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    const VarDecl *def = nullptr;
    const Expr *init = v->getAnyInitializer(def);
    std::string f = fileOf(v->getLocation());
    if (init && !init->isValueDependent()) {
      Expr::EvalResult r;
      if (v->getType()->isIntegralOrEnumerationType() && init->EvaluateAsInt(r, C))
        {
        llvm::SmallString<32> is;
        r.Val.getInt().toString(is, 10);
        o["i"] = std::string(is.str());
      }
      else if (hasPrefix(f, ROOTS) || hasPrefix(f, LIBS))
        o["init"] = expr(init);
    }
    globals[k] = std::move(o);
  }
  json::Object varDecl(const VarDecl *v)
  {
    json::Object o;
    o["id"] = var(v);
    o["n"] = v->getNameAsString();
    o["t"] = ty(v->getType());
    o["const"] = v->getType().isConstQualified();
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) {
      o["init"] = expr(v->getInit());
      o["is"] = (int)v->getInitStyle();
    }
    o["l"] = lineOf(v->getLocation());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      (void)dd;
      o["decomp"] = true;
      json::Array a;
      for (auto *b : dd->bindings()) {
        json::Object bo;
        bo["n"] = b->getNameAsString();
        if (auto *hv = b->getHoldingVar()) {
          bo["hv"] = varDecl(hv);
        }
        a.push_back(std::move(bo));
      }
      o["binds"] = std::move(a);
    }
    return o;
  }
  json::Value stmt(const Stmt *s)
  {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s))
      return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", lineOf(s->getBeginLoc())}};
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
        else if (isa<TypedefNameDecl>(d) || isa<UsingDecl>(d) || isa<StaticAssertDecl>(d) || isa<TagDecl>(d) || isa<UsingDirectiveDecl>(d) || isa<UsingShadowDecl>(d) || isa<EmptyDecl>(d)) {
        } else
          return unsupported(s);
      }
      o["d"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      if (x->isConstexpr()) {
        Expr::EvalResult r;
        if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, C)) {
          const Stmt *t = r.Val.getInt().getBoolValue() ? x->getThen() : x->getElse();
          if (t) return stmt(t);
          o["k"] = "null";
          return o;
        }
      }
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["range"] = expr(x->getRangeInit());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["rangest"] = stmt(x->getRangeStmt());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["v"] = varDecl(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().extOrTrunc(64).getSExtValue();
      else return unsupported(s);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "null";
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["body"] = stmt(x->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler(i);
        json::Object ho;
        ho["t"] = h->getCaughtType().isNull() ? -1 : ty(h->getCaughtType());
        if (h->getExceptionDecl()) ho["v"] = varDecl(h->getExceptionDecl());
        ho["body"] = stmt(h->getHandlerBlock());
        a.push_back(std::move(ho));
      }
      o["h"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<OMPExecutableDirective>(s)) {
      if (x->hasAssociatedStmt()) {
        o["k"] = "omp";
        o["n"] = s->getStmtClassName();
        o["s"] = stmt(x->getRawStmt());
        return o;
      }
    }
    if (auto *x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
    return unsupported(s);
  }
  json::Value function(const FunctionDecl *canon, int id)
  {
    json::Object o;
    const FunctionDecl *f = canon->getDefinition();
    bool hasDef = f != nullptr;
    if (!f) f = canon;
    // uninstantiated template member with pattern? leave bodiless
    o["id"] = id;
    o["n"] = f->getNameAsString();
    std::string q;
    llvm::raw_string_ostream qs(q);
    f->getNameForDiagnostic(qs, PP, true);
    qs.flush();
    o["q"] = f->getQualifiedNameAsString();
    o["full"] = q.substr(0, 600);
    o["file"] = fileOf(f->getLocation());
    o["line"] = lineOf(f->getLocation());
    o["ret"] = ty(f->getReturnType());
    if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    json::Array ps;
    for (auto *p : f->parameters())
      ps.push_back(json::Object{{"id", var(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
    o["params"] = std::move(ps);
    if (auto *tsa = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : tsa->asArray()) a.push_back(targ(x));
      o["ta"] = std::move(a);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = rec(m->getParent());
      o["rt"] = ty(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
      o["virtual"] = m->isVirtual();
      o["constm"] = m->isConst();
      o["cacc"] = (int)m->getAccess();
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(fn(b));
      o["over"] = std::move(ov);
      if (isa<CXXConstructorDecl>(f)) {
        auto *c = cast<CXXConstructorDecl>(f);
        o["mk"] = "ctor";
        o["copy"] = c->isCopyConstructor();
        o["move"] = c->isMoveConstructor();
        o["defctor"] = c->isDefaultConstructor();
      } else if (isa<CXXDestructorDecl>(f)) o["mk"] = "dtor";
      else if (isa<CXXConversionDecl>(f)) o["mk"] = "conv";
      else {
        o["mk"] = "method";
        o["copyas"] = m->isCopyAssignmentOperator();
        o["moveas"] = m->isMoveAssignmentOperator();
      }
    }
    o["defaulted"] = f->isDefaulted();
    o["implicit"] = f->isImplicit();
    if (hasDef && f->isUserProvided() == false && isa<CXXMethodDecl>(f) && f->isDefaulted()) return o;
    if (hasDef && wantBody(f) && f->hasBody() && !f->isDependentContext()) {
      if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        json::Array a;
        for (auto *i : c->inits()) {
          json::Object io;
          if (i->isAnyMemberInitializer()) {
            io["m"] = i->getAnyMember()->getNameAsString();
            io["written"] = i->isWritten();
          } else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          io["e"] = expr(i->getInit());
          a.push_back(std::move(io));
        }
        o["inits"] = std::move(a);
      }
      o["body"] = stmt(f->getBody());
    }
    return o;
  }
  json::Value record(const CXXRecordDecl *r, int id)
  {
    json::Object o;
    o["id"] = id;
    o["n"] = r->getQualifiedNameAsString();
    o["file"] = fileOf(r->getLocation());
    if (!r->hasDefinition()) return o;
    r = r->getDefinition();
    std::string f = fileOf(r->getLocation());
    if (!(hasPrefix(f, ROOTS) || hasPrefix(f, LIBS))) {
      json::Array b;
      for (auto &x : r->bases()) b.push_back(ty(x.getType()));
      o["bases"] = std::move(b);
      return o;
    }
    json::Array fs, b;
    for (auto *x : r->fields()) {
      json::Object fo{{"n", x->getNameAsString()}, {"t", ty(x->getType())}};
      if (x->hasInClassInitializer() && x->getInClassInitializer()) fo["init"] = expr(x->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto &x : r->bases()) b.push_back(ty(x.getType()));
    o["fields"] = std::move(fs);
    o["bases"] = std::move(b);
    json::Array ms;
    for (auto *m : r->methods()) ms.push_back(fn(m));
    o["methods"] = std::move(ms);
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f)
  {
    if (f->isDependentContext()) return true;
    if (f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!f->isThisDeclarationADefinition()) return true;
    if (!hasPrefix(D.fileOf(f->getLocation()), ROOTS)) return true;
    D.fn(f);
    return true;
  }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI;
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override
  {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Array fa, ra, ta;
    size_t i = 0, j = 0;
    while (i < D.fns.size() || j < D.recs.size()) {
      while (i < D.fns.size()) {
        fa.push_back(D.function(D.fns[i], i));
        ++i;
      }
      while (j < D.recs.size()) {
        ra.push_back(D.record(D.recs[j], j));
        ++j;
      }
    }
    for (auto &t : D.tys) ta.push_back(std::move(t));
    json::Object o;
    o["fns"] = std::move(fa);
    o["recs"] = std::move(ra);
    o["types"] = std::move(ta);
    o["globals"] = std::move(D.globals);
    o["errors"] = (int64_t)NERR;
    o["dup_default_args"] = (int64_t)NDUP;
    std::error_code ec;
    llvm::raw_fd_ostream os(OUT, ec);
    os << json::Value(std::move(o));
  }
};
// One diagnostic is tolerated: a default template argument repeated in an out-of-class
// definition (accepted by the g++-11 of the build, an error for clang, no effect on the AST).
struct DC : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override
  {
    if (L < DiagnosticsEngine::Error) return;
    if (I.getID() == diag::err_template_param_default_arg_redefinition) {
      ++NDUP;
      return;
    }
    ++NERR;
    llvm::SmallString<200> m;
    I.FormatDiagnostic(m);
    if (I.hasSourceManager())
      llvm::errs() << I.getLocation().printToString(I.getSourceManager()) << ": ";
    llvm::errs() << "error: " << m << "\n";
  }
};
struct Act : ASTFrontendAction {
  bool BeginInvocation(CompilerInstance &CI) override
  {
    CI.getDiagnostics().setClient(new DC(), true);
    return true;
  }
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
  {
    CI.getDiagnostics().setErrorLimit(0);
    return std::make_unique<Cons>(CI);
  }
};

int main(int argc, char **argv)
{
  // cxdump OUT FILE --root=P --lib=P -- clang flags
  OUT = argv[1];
  std::string file = argv[2];
  std::vector<std::string> cmd{"clang++"};
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) {
    std::string a = argv[i];
    if (a.rfind("--root=", 0) == 0) ROOTS.push_back(a.substr(7));
    else if (a.rfind("--lib=", 0) == 0) LIBS.push_back(a.substr(6));
  }
  for (++i; i < argc; ++i) cmd.push_back(argv[i]);
  cmd.push_back("-fsyntax-only");
  cmd.push_back(file);
  IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Act>(), fm.get());
  inv.run();
  return NERR ? 3 : 0;
}
