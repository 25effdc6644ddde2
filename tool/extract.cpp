// rct-extract: lowers the type-checked AST of one translation unit to a compact JSON mini-IR.
// Only declarations whose (expansion) location lies under one of the given roots are emitted.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/Mangle.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Basic/DiagnosticSema.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static bool HadError = false;

namespace
{
// Code gcc accepts and clang does not: a function with such an error in it is emitted without a body ("err"), so that the
// rest of the unit can still be analysed. An error outside of all functions fails the run.
struct Err
{
  std::string file, msg;
  unsigned line;
  bool used;
};
static std::vector<Err> Errs;
struct Collect : DiagnosticConsumer
{
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic& D) override
  {
    if (L < DiagnosticsEngine::Error)
      return;
    // clang goes on without the (needless) capture
    if (D.getID() == diag::err_capture_non_automatic_variable)
      return;
    llvm::SmallString<200> m;
    D.FormatDiagnostic(m);
    Err e{ "", std::string(m), 0, false };
    if (D.hasSourceManager() && D.getLocation().isValid())
    {
      PresumedLoc p = D.getSourceManager().getPresumedLoc(D.getSourceManager().getExpansionLoc(D.getLocation()));
      if (p.isValid())
      {
        e.file = p.getFilename();
        e.line = p.getLine();
      }
    }
    if (L == DiagnosticsEngine::Fatal)
      HadError = true;
    llvm::errs() << e.file << ":" << e.line << ": " << e.msg << "\n";
    Errs.push_back(e);
  }
};

struct Lower
{
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy P;
  std::map<const Decl*, int> ids;
  int next = 1;
  J::Array* funcs;
  J::Array* records;
  J::Array* globals;
  std::set<const Decl*> lambdasDone;

  Lower(ASTContext& c) : C(c), SM(c.getSourceManager()), P(c.getLangOpts())
  {
    P.SuppressTagKeyword = true;
    P.FullyQualifiedName = true;
    P.PrintCanonicalTypes = true;
    P.SuppressUnwrittenScope = false;
    P.AnonymousTagLocations = false;
    P.SuppressDefaultTemplateArgs = true;
    P.Bool = true;
  }

  std::string file(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRoots(SourceLocation L)
  {
    std::string f = file(L);
    for (auto& r : Roots)
      if (f.rfind(r, 0) == 0)
        return true;
    return false;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  std::string ty(QualType Q)
  {
    if (Q.isNull())
      return "?";
    return Q.getCanonicalType().getAsString(P);
  }
  int id(const Decl* D)
  {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end())
      return it->second;
    return ids[D] = next++;
  }
  std::string qname(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, P);
    return os.str();
  }
  std::string qnameT(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, P, true);
    return os.str();
  }
  std::string fid(const FunctionDecl* F)
  {
    // qualified name with template args + canonical type (+ owning class type, for class template members)
    std::string s;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
    {
      if (M->getParent()->isLambda())
        s = "lambda#" + std::to_string(id(M->getParent())) + "::operator()";
      else
        s = ty(C.getRecordType(M->getParent())) + "::" + F->getNameAsString();
      if (auto* A = F->getTemplateSpecializationArgs())
      {
        s += "<";
        bool first = true;
        for (auto& a : A->asArray())
        {
          if (!first)
            s += ",";
          first = false;
          std::string t;
          llvm::raw_string_ostream os(t);
          a.print(P, os, true);
          s += os.str();
        }
        s += ">";
      }
    }
    else
      s = qnameT(F);
    return s + " : " + ty(F->getType());
  }

  J::Object node(const char* k, SourceLocation L)
  {
    J::Object o;
    o["k"] = k;
    if (L.isValid())
    {
      o["l"] = line(L);
    }
    return o;
  }

  // ---------------------------------------------------------------- expressions
  J::Value E(const Expr* X)
  {
    if (!X)
      return nullptr;
    // transparent wrappers
    for (;;)
    {
      if (auto* e = dyn_cast<ParenExpr>(X))
        X = e->getSubExpr();
      else if (auto* e = dyn_cast<ExprWithCleanups>(X))
        X = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(X))
        X = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(X))
        X = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(X))
        X = e->getReplacement();
      else if (auto* e = dyn_cast<ConstantExpr>(X))
        X = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXDefaultArgExpr>(X))
        X = e->getExpr();
      else if (auto* e = dyn_cast<CXXDefaultInitExpr>(X))
        X = e->getExpr();
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(X))
        X = e->getSubExpr();
      else
        break;
    }
    SourceLocation L = X->getExprLoc();

    if (auto* e = dyn_cast<IntegerLiteral>(X))
    {
      auto o = node("lit", L);
      llvm::SmallString<32> s;
      e->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<FloatingLiteral>(X))
    {
      auto o = node("flit", L);
      llvm::SmallString<40> s;
      e->getValue().toString(s, 0, 0);
      o["v"] = s.str().str();
      double d = e->getValueAsApproximateDouble();
      char buf[64];
      snprintf(buf, sizeof buf, "%a", d);
      o["x"] = std::string(buf);
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<CXXBoolLiteralExpr>(X))
    {
      auto o = node("blit", L);
      o["v"] = e->getValue();
      return o;
    }
    if (auto* e = dyn_cast<StringLiteral>(X))
    {
      auto o = node("slit", L);
      o["v"] = e->isOrdinary() || e->isUTF8() ? J::fixUTF8(e->getString()) : std::string("?");
      return o;
    }
    if (auto* e = dyn_cast<CharacterLiteral>(X))
    {
      auto o = node("lit", L);
      o["v"] = std::to_string(e->getValue());
      o["t"] = "char";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X))
      return node("null", L);
    if (auto* e = dyn_cast<CXXScalarValueInitExpr>(X))
    {
      auto o = node("zero", L);
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<ImplicitValueInitExpr>(X))
    {
      auto o = node("zero", L);
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<DeclRefExpr>(X))
    {
      const ValueDecl* D = e->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(D))
      {
        auto o = node("enum", L);
        o["n"] = qname(ec);
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        o["t"] = ty(ec->getType());
        return o;
      }
      if (auto* fd = dyn_cast<FunctionDecl>(D))
      {
        auto o = node("fn", L);
        o["f"] = fid(fd);
        o["n"] = qname(fd);
        return o;
      }
      if (auto* bd = dyn_cast<BindingDecl>(D))
      {
        if (bd->getBinding())
          return E(bd->getBinding());
      }
      auto o = node("var", L);
      o["id"] = id(D);
      o["n"] = D->getNameAsString();
      o["t"] = ty(D->getType());
      if (auto* vd = dyn_cast<VarDecl>(D))
      {
        if (!vd->isLocalVarDeclOrParm())
        {
          o["g"] = qname(vd);
          noteGlobal(vd);
        }
        else if (vd->isStaticLocal())
          o["st"] = true;
      }
      return o;
    }
    if (auto* e = dyn_cast<MemberExpr>(X))
    {
      const ValueDecl* D = e->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(D))
      {
        auto o = node("var", L);
        o["id"] = id(vd);
        o["n"] = vd->getNameAsString();
        o["t"] = ty(vd->getType());
        o["g"] = qname(vd);
        noteGlobal(vd);
        return o;
      }
      auto o = node("mem", L);
      o["n"] = D->getNameAsString();
      o["b"] = E(e->getBase());
      if (e->isArrow())
        o["ar"] = true;
      o["t"] = ty(D->getType());
      if (auto* fd = dyn_cast<FieldDecl>(D))
        o["c"] = ty(C.getRecordType(fd->getParent()));
      if (isa<CXXMethodDecl>(D))
        o["meth"] = true;
      return o;
    }
    if (auto* e = dyn_cast<CXXThisExpr>(X))
    {
      auto o = node("this", L);
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(X))
      return E(e->getSemanticForm());
    if (auto* e = dyn_cast<CallExpr>(X))
      return callExpr(e);
    if (auto* e = dyn_cast<CXXConstructExpr>(X))
    {
      // elidable copy/move of a temporary is transparent
      const CXXConstructorDecl* cd = e->getConstructor();
      auto o = node("ctor", L);
      o["t"] = ty(e->getType());
      o["f"] = fid(cd);
      J::Array a;
      for (auto* arg : e->arguments())
        a.push_back(E(arg));
      o["a"] = std::move(a);
      if (cd->isCopyOrMoveConstructor())
      {
        o["copy"] = true;
        if (cd->isMoveConstructor())
          o["mv"] = true;
        if (cd->isUserProvided())
          o["up"] = true;
      }
      if (cd->isDefaultConstructor())
        o["dflt"] = true;
      if (e->requiresZeroInitialization())
        o["zi"] = true;
      if (e->isListInitialization())
        o["li"] = true;
      if (e->isStdInitListInitialization())
        o["sil"] = true;
      addPt(o, cd);
      return o;
    }
    if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(X))
    {
      auto o = node("inhctor", L);
      o["f"] = fid(e->getConstructor());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<CXXNewExpr>(X))
    {
      auto o = node("new", L);
      o["t"] = ty(e->getAllocatedType());
      if (e->isArray())
        o["arr"] = e->getArraySize() ? E(*e->getArraySize()) : J::Value(nullptr);
      if (e->getInitializer())
        o["i"] = E(e->getInitializer());
      return o;
    }
    if (auto* e = dyn_cast<CXXDeleteExpr>(X))
    {
      auto o = node("delete", L);
      o["a"] = E(e->getArgument());
      return o;
    }
    if (auto* e = dyn_cast<CastExpr>(X))
    {
      switch (e->getCastKind())
      {
        case CK_IntegralCast:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_FloatingCast:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_BaseToDerived:
        case CK_Dynamic:
        case CK_ToVoid:
        case CK_NullToPointer:
        case CK_BitCast:
        case CK_ArrayToPointerDecay:
          if (e->getCastKind() == CK_ArrayToPointerDecay && isa<StringLiteral>(e->getSubExpr()->IgnoreParens()))
            return E(e->getSubExpr());
          [[fallthrough]];
        case CK_FunctionToPointerDecay:
          if (e->getCastKind() == CK_FunctionToPointerDecay)
            return E(e->getSubExpr());
        {
          auto o = node("cast", L);
          o["c"] = e->getCastKindName();
          o["t"] = ty(e->getType());
          o["from"] = ty(e->getSubExpr()->getType());
          if (isa<ExplicitCastExpr>(e))
            o["ex"] = true;
          o["a"] = E(e->getSubExpr());
          return o;
        }
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        {
          auto o = node("cast", L);
          o["c"] = "DerivedToBase";
          o["t"] = ty(e->getType());
          o["from"] = ty(e->getSubExpr()->getType());
          o["a"] = E(e->getSubExpr());
          return o;
        }
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          return E(e->getSubExpr());
        default:
          return E(e->getSubExpr());
      }
    }
    if (auto* e = dyn_cast<UnaryOperator>(X))
    {
      auto o = node("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix())
        o["post"] = true;
      o["a"] = E(e->getSubExpr());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<BinaryOperator>(X))
    {
      auto o = node("bin", L);
      o["op"] = e->getOpcodeStr().str();
      o["a"] = E(e->getLHS());
      o["b"] = E(e->getRHS());
      o["t"] = ty(e->getType());
      if (auto* ca = dyn_cast<CompoundAssignOperator>(e))
        o["ct"] = ty(ca->getComputationResultType());
      return o;
    }
    if (auto* e = dyn_cast<ConditionalOperator>(X))
    {
      auto o = node("cond", L);
      o["c"] = E(e->getCond());
      o["a"] = E(e->getTrueExpr());
      o["b"] = E(e->getFalseExpr());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<ArraySubscriptExpr>(X))
    {
      auto o = node("idx", L);
      o["b"] = E(e->getBase());
      o["i"] = E(e->getIdx());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* e = dyn_cast<InitListExpr>(X))
    {
      if (auto* s = e->getSemanticForm())
        e = s;
      auto o = node("ilist", L);
      o["t"] = ty(e->getType());
      J::Array a;
      for (auto* i : e->inits())
        a.push_back(E(i));
      o["a"] = std::move(a);
      if (e->hasArrayFiller())
        o["fill"] = E(e->getArrayFiller());
      return o;
    }
    if (auto* e = dyn_cast<LambdaExpr>(X))
    {
      auto o = node("lambda", L);
      const CXXRecordDecl* RD = e->getLambdaClass();
      const CXXMethodDecl* M = e->getCallOperator();
      o["id"] = id(RD);
      J::Array caps;
      unsigned ci = 0;
      auto initIt = e->capture_init_begin();
      for (auto& c : e->captures())
      {
        J::Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable())
        {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->isInitCapture() && vd->getInit())
              co["init"] = E(vd->getInit());
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        if (initIt != e->capture_init_end() && *initIt && !co.get("init"))
        {
        }
        ++ci;
        ++initIt;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["mut"] = e->isMutable();
      J::Array bodies;
      if (M->getDescribedFunctionTemplate())
      {
        for (auto* s : M->getDescribedFunctionTemplate()->specializations())
        {
          if (s->hasBody())
          {
            J::Object b;
            b["f"] = fid(s);
            b["p"] = params(s);
            b["ret"] = ty(s->getReturnType());
            b["b"] = S(s->getBody());
            bodies.push_back(std::move(b));
          }
        }
      }
      else
      {
        J::Object b;
        b["f"] = fid(M);
        b["p"] = params(M);
        b["ret"] = ty(M->getReturnType());
        b["b"] = S(M->getBody());
        bodies.push_back(std::move(b));
      }
      o["bodies"] = std::move(bodies);
      return o;
    }
    if (auto* e = dyn_cast<CXXThrowExpr>(X))
    {
      auto o = node("throw", L);
      if (e->getSubExpr())
      {
        o["a"] = E(e->getSubExpr());
        o["t"] = ty(e->getSubExpr()->getType());
      }
      return o;
    }
    if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(X))
    {
      Expr::EvalResult R;
      if (!e->isValueDependent() && e->EvaluateAsInt(R, C))
      {
        auto o = node("lit", L);
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        o["t"] = ty(e->getType());
        return o;
      }
    }
    if (auto* e = dyn_cast<TypeTraitExpr>(X))
    {
      auto o = node("blit", L);
      o["v"] = e->getValue();
      return o;
    }
    if (auto* e = dyn_cast<ArrayInitLoopExpr>(X))
      return E(e->getCommonExpr()->getSourceExpr());
    if (auto* e = dyn_cast<OpaqueValueExpr>(X))
      return E(e->getSourceExpr());
    auto o = node("other", L);
    o["cls"] = X->getStmtClassName();
    o["t"] = ty(X->getType());
    return o;
  }

  // parameter passing kinds: v value, c const ref, m mutable ref, p pointer to mutable, q pointer to const
  void addPt(J::Object& o, const FunctionDecl* F)
  {
    std::string s;
    for (auto* p : F->parameters())
    {
      QualType T = p->getType();
      if (T->isRValueReferenceType())
        s += 'v';
      else if (T->isLValueReferenceType())
        s += T->getPointeeType().isConstQualified() ? 'c' : 'm';
      else if (T->isPointerType())
        s += T->getPointeeType().isConstQualified() ? 'q' : 'p';
      else
        s += 'v';
    }
    o["pt"] = s;
  }

  J::Value callExpr(const CallExpr* e)
  {
    SourceLocation L = e->getExprLoc();
    auto o = node("call", L);
    o["t"] = ty(e->getType());
    if (e->getType()->isReferenceType() || e->isLValue())
      o["lv"] = true;
    const FunctionDecl* F = e->getDirectCallee();
    J::Array a;
    if (auto* m = dyn_cast<CXXMemberCallExpr>(e))
    {
      const MemberExpr* me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens());
      if (me)
      {
        o["o"] = E(me->getBase());
        if (me->isArrow())
          o["ar"] = true;
        o["ot"] = ty(me->getBase()->getType());
      }
      for (auto* x : m->arguments())
        a.push_back(E(x));
    }
    else if (auto* op = dyn_cast<CXXOperatorCallExpr>(e))
    {
      o["op"] = getOperatorSpelling(op->getOperator());
      unsigned i = 0;
      for (auto* x : op->arguments())
      {
        if (i == 0 && F && isa<CXXMethodDecl>(F))
        {
          o["o"] = E(x);
          o["ot"] = ty(x->getType());
        }
        else
          a.push_back(E(x));
        ++i;
      }
    }
    else
    {
      for (auto* x : e->arguments())
        a.push_back(E(x));
    }
    o["a"] = std::move(a);
    if (F)
    {
      o["f"] = fid(F);
      o["n"] = qname(F);
      addPt(o, F);
      if (auto* M = dyn_cast<CXXMethodDecl>(F))
      {
        if (M->isConst())
          o["cm"] = true;
        if (M->isStatic())
          o["sm"] = true;
        if (M->isVirtual())
          o["virt"] = true;
        o["c"] = M->getParent()->isLambda() ? ("lambda#" + std::to_string(id(M->getParent()))) :
                                              ty(C.getRecordType(M->getParent()));
      }
      if (auto* ta = F->getTemplateSpecializationArgs())
      {
        J::Array t;
        for (auto& x : ta->asArray())
        {
          std::string s;
          llvm::raw_string_ostream os(s);
          x.print(P, os, true);
          t.push_back(os.str());
        }
        o["ta"] = std::move(t);
      }
    }
    else
      o["callee"] = E(e->getCallee());
    return o;
  }

  J::Array params(const FunctionDecl* F)
  {
    J::Array ps;
    for (auto* p : F->parameters())
    {
      J::Object po;
      po["id"] = id(p);
      po["n"] = p->getNameAsString();
      po["t"] = ty(p->getType());
      ps.push_back(std::move(po));
    }
    return ps;
  }

  // ---------------------------------------------------------------- statements
  J::Value varDecl(const VarDecl* vd)
  {
    auto o = node("var", vd->getLocation());
    o["id"] = id(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = ty(vd->getType());
    if (vd->isStaticLocal())
      o["st"] = true;
    if (vd->getType()->isReferenceType())
      o["ref"] = true;
    if (vd->getInit())
      o["i"] = E(vd->getInit());
    return o;
  }
  J::Value S(const Stmt* X)
  {
    if (!X)
      return nullptr;
    SourceLocation L = X->getBeginLoc();
    if (auto* s = dyn_cast<CompoundStmt>(X))
    {
      auto o = node("seq", L);
      J::Array a;
      for (auto* c : s->body())
        a.push_back(S(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto* s = dyn_cast<DeclStmt>(X))
    {
      auto o = node("decl", L);
      J::Array a;
      for (auto* d : s->decls())
      {
        if (auto* dd = dyn_cast<DecompositionDecl>(d))
        {
          a.push_back(varDecl(dd));
          for (auto* b : dd->bindings())
            if (auto* hv = b->getHoldingVar())
              a.push_back(varDecl(hv));
        }
        else if (auto* vd = dyn_cast<VarDecl>(d))
          a.push_back(varDecl(vd));
      }
      o["d"] = std::move(a);
      return o;
    }
    if (auto* s = dyn_cast<IfStmt>(X))
    {
      auto o = node("if", L);
      if (s->getInit())
        o["i"] = S(s->getInit());
      if (s->getConditionVariableDeclStmt())
        o["cv"] = S(s->getConditionVariableDeclStmt());
      o["c"] = E(s->getCond());
      if (s->isConstexpr())
        o["cx"] = true;
      o["a"] = S(s->getThen());
      o["b"] = S(s->getElse());
      return o;
    }
    if (auto* s = dyn_cast<ForStmt>(X))
    {
      auto o = node("for", L);
      o["i"] = S(s->getInit());
      o["c"] = E(s->getCond());
      o["u"] = E(s->getInc());
      o["b"] = S(s->getBody());
      return o;
    }
    if (auto* s = dyn_cast<CXXForRangeStmt>(X))
    {
      auto o = node("rfor", L);
      o["v"] = varDecl(s->getLoopVariable());
      if (auto* rd = dyn_cast_or_null<DeclStmt>(s->getRangeStmt()))
        if (auto* rv = dyn_cast<VarDecl>(rd->getSingleDecl()))
          o["rvid"] = id(rv);
      o["r"] = E(s->getRangeInit());
      o["rt"] = ty(s->getRangeInit()->getType());
      J::Array extra;
      if (auto* dd = dyn_cast<DecompositionDecl>(s->getLoopVariable()))
        for (auto* b : dd->bindings())
          if (auto* hv = b->getHoldingVar())
            extra.push_back(varDecl(hv));
      o["extra"] = std::move(extra);
      o["b"] = S(s->getBody());
      return o;
    }
    if (auto* s = dyn_cast<WhileStmt>(X))
    {
      auto o = node("while", L);
      o["c"] = E(s->getCond());
      o["b"] = S(s->getBody());
      return o;
    }
    if (auto* s = dyn_cast<DoStmt>(X))
    {
      auto o = node("do", L);
      o["c"] = E(s->getCond());
      o["b"] = S(s->getBody());
      return o;
    }
    if (auto* s = dyn_cast<SwitchStmt>(X))
    {
      auto o = node("switch", L);
      o["c"] = E(s->getCond());
      o["ct"] = ty(s->getCond()->IgnoreImpCasts()->getType());
      if (s->getInit())
        o["i"] = S(s->getInit());
      o["b"] = S(s->getBody());
      return o;
    }
    if (auto* s = dyn_cast<CaseStmt>(X))
    {
      auto o = node("case", L);
      o["v"] = E(s->getLHS());
      o["s"] = S(s->getSubStmt());
      return o;
    }
    if (auto* s = dyn_cast<DefaultStmt>(X))
    {
      auto o = node("default", L);
      o["s"] = S(s->getSubStmt());
      return o;
    }
    if (auto* s = dyn_cast<ReturnStmt>(X))
    {
      auto o = node("ret", L);
      if (s->getRetValue())
        o["v"] = E(s->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(X))
      return node("break", L);
    if (isa<ContinueStmt>(X))
      return node("continue", L);
    if (isa<NullStmt>(X))
      return node("nop", L);
    if (auto* s = dyn_cast<CXXTryStmt>(X))
    {
      auto o = node("try", L);
      o["b"] = S(s->getTryBlock());
      J::Array h;
      for (unsigned i = 0; i < s->getNumHandlers(); ++i)
      {
        auto* c = s->getHandler(i);
        auto ho = node("catch", c->getBeginLoc());
        if (c->getExceptionDecl())
        {
          ho["t"] = ty(c->getCaughtType());
          ho["id"] = id(c->getExceptionDecl());
        }
        ho["b"] = S(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto* s = dyn_cast<AttributedStmt>(X))
      return S(s->getSubStmt());
    if (auto* e = dyn_cast<Expr>(X))
    {
      auto o = node("expr", L);
      o["e"] = E(e);
      return o;
    }
    auto o = node("ostmt", L);
    o["cls"] = X->getStmtClassName();
    return o;
  }

  // ---------------------------------------------------------------- decls
  std::set<const VarDecl*> globalsDone;
  void noteGlobal(const VarDecl* vd)
  {
    vd = vd->getCanonicalDecl();
    if (!globalsDone.insert(vd).second)
      return;
    J::Object o;
    o["id"] = id(vd);
    o["n"] = qname(vd);
    o["t"] = ty(vd->getType());
    o["file"] = file(vd->getLocation());
    o["l"] = line(vd->getLocation());
    o["const"] = vd->getType().isConstQualified();
    const VarDecl* def = vd;
    const Expr* init = vd->getAnyInitializer(def);
    if (init && !init->isValueDependent() && inRoots(def->getLocation()))
      o["i"] = E(init);
    else if (init && !init->isValueDependent() && !init->isTypeDependent())
    {
      if (vd->getType()->isIntegralOrEnumerationType() || vd->getType()->isRealFloatingType())
      {
        Expr::EvalResult R;
        if (init->EvaluateAsRValue(R, C))
        {
          if (R.Val.isInt())
          {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            J::Object lo;
            lo["k"] = "lit";
            lo["v"] = s.str().str();
            lo["t"] = ty(vd->getType());
            o["i"] = std::move(lo);
          }
        }
      }
    }
    globals->push_back(std::move(o));
  }

  void function(const FunctionDecl* F)
  {
    J::Object o;
    o["f"] = fid(F);
    o["n"] = qname(F);
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getLocation());
    o["p"] = params(F);
    o["ret"] = ty(F->getReturnType());
    if (F->getTemplateSpecializationKind() == TSK_ImplicitInstantiation)
      o["inst"] = true;
    if (F->isInAnonymousNamespace() || F->getFormalLinkage() == Linkage::Internal)
      o["internal"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
    {
      o["c"] = ty(C.getRecordType(M->getParent()));
      if (M->isConst())
        o["cm"] = true;
      if (M->isStatic())
        o["sm"] = true;
      if (M->isVirtual())
        o["virt"] = true;
      J::Array ov;
      for (auto* om : M->overridden_methods())
        ov.push_back(fid(om));
      if (!ov.empty())
        o["ov"] = std::move(ov);
    }
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F))
    {
      o["ctor"] = true;
      J::Array inits;
      for (auto* I : CD->inits())
      {
        if (broken(F))
          break;
        J::Object io;
        if (I->isAnyMemberInitializer())
        {
          io["m"] = I->getAnyMember()->getNameAsString();
          io["t"] = ty(I->getAnyMember()->getType());
        }
        else if (I->isBaseInitializer())
          io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          io["deleg"] = true;
        io["w"] = I->isWritten();
        io["e"] = E(I->getInit());
        io["l"] = line(I->getSourceLocation());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    if (isa<CXXDestructorDecl>(F))
      o["dtor"] = true;
    if (F->isDefaulted())
      o["defaulted"] = true;
    if (broken(F))
    {
      o["err"] = true;
      J::Object b;
      b["k"] = "error";
      o["b"] = std::move(b);
    }
    else
      o["b"] = S(F->getBody());
    o["el"] = line(F->getEndLoc());
    funcs->push_back(std::move(o));
  }

  bool broken(const FunctionDecl* F)
  {
    bool r = F->isInvalidDecl();
    if (Errs.empty())
      return r;
    PresumedLoc b = SM.getPresumedLoc(SM.getExpansionLoc(F->getBeginLoc()));
    PresumedLoc e = SM.getPresumedLoc(SM.getExpansionLoc(F->getEndLoc()));
    if (b.isInvalid() || e.isInvalid())
      return r;
    for (auto& x : Errs)
      if (x.file == b.getFilename() && x.line >= b.getLine() && x.line <= e.getLine())
        x.used = r = true;
    return r;
  }

  void record(const CXXRecordDecl* R)
  {
    J::Object o;
    o["n"] = ty(C.getRecordType(R));
    o["q"] = qname(R);
    o["file"] = file(R->getLocation());
    o["l"] = line(R->getLocation());
    J::Array fs;
    for (auto* f : R->fields())
    {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = ty(f->getType());
      fo["l"] = line(f->getLocation());
      if (f->isMutable())
        fo["mut"] = true;
      if (f->getType().isConstQualified())
        fo["const"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["i"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array bs;
    for (auto& b : R->bases())
      bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    J::Array sts;
    for (auto* d : R->decls())
      if (auto* vd = dyn_cast<VarDecl>(d))
      {
        noteGlobal(vd);
      }
    J::Array ms;
    for (auto* m : R->methods())
    {
      J::Object mo;
      mo["f"] = fid(m);
      mo["n"] = m->getNameAsString();
      if (m->isPureVirtual())
        mo["pure"] = true;
      if (m->isImplicit())
        mo["impl"] = true;
      if (m->isDefaulted())
        mo["defaulted"] = true;
      if (m->isDeleted())
        mo["deleted"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    records->push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
  Lower& L;
  std::set<const Decl*> done;
  std::vector<const FunctionDecl*> fs;
  std::vector<const CXXRecordDecl*> rs;
  Visitor(Lower& l) : L(l) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F)
  {
    if (!F->isThisDeclarationADefinition() || !F->hasBody())
      return true;
    if (F->isDependentContext() || !L.inRoots(F->getLocation()))
      return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return true;
    if (F->isImplicit() && !isa<CXXConstructorDecl>(F))
      return true;
    if (!done.insert(F).second)
      return true;
    fs.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
      return true;
    if (!L.inRoots(R->getLocation()))
      return true;
    if (!done.insert(R).second)
      return true;
    rs.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V)
  {
    if (V->isLocalVarDeclOrParm() || !L.inRoots(V->getLocation()) || V->isTemplated() ||
        V->getDeclContext()->isDependentContext())
      return true;
    L.noteGlobal(V);
    return true;
  }
};

struct Consumer : ASTConsumer
{
  CompilerInstance& CI;
  Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (HadError)
      return;
    Lower L(C);
    J::Array fs, rs, gs;
    L.funcs = &fs;
    L.records = &rs;
    L.globals = &gs;
    Visitor V(L);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (auto* r : V.rs)
      L.record(r);
    for (auto* f : V.fs)
    {
      std::string t = L.fid(f);
      if (t.find("ceres::Jet") != std::string::npos)
        continue;
      L.function(f);
    }
    J::Object top;
    top["main"] = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID())->getName().str();
    top["functions"] = std::move(fs);
    top["records"] = std::move(rs);
    top["globals"] = std::move(gs);
    llvm::outs() << J::Value(std::move(top)) << "\n";
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
  {
    return std::make_unique<Consumer>(CI);
  }
};
struct Factory : tooling::FrontendActionFactory
{
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

// usage: rct-extract SOURCE root1,root2 -- compiler args
int main(int argc, const char** argv)
{
  if (argc < 4)
    return 2;
  std::string src = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size())
  {
    size_t q = roots.find(',', p);
    if (q == std::string::npos)
      q = roots.size();
    if (q > p)
      Roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i)
    args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, { src });
  Factory F;
  Collect D;
  T.setDiagnosticConsumer(&D);
  T.run(&F);
  for (auto& e : Errs)
    HadError |= !e.used;
  return HadError ? 3 : 0;
}
