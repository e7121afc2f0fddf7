// astdump: dump the type-checked AST of every function *definition* that lives
// below a given root (template instantiations included) as JSON.
// usage: astdump ROOT OUT.json FILE -- <compiler flags>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root, OutFile;
static int Errors = 0;

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const void *, int> Ids;
  std::map<std::string, int> Files;
  std::vector<std::string> FileNames;
  std::map<std::string, int> TypeIds;
  std::vector<std::string> TypeNames;
  std::vector<std::vector<const CXXRecordDecl *>> dummy;

  Dumper(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.Bool = true;
  }
  int id(const void *p) {
    auto it = Ids.find(p);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[p] = n;
    return n;
  }
  int typ(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) return it->second;
    int n = (int)TypeNames.size();
    TypeNames.push_back(s);
    TypeIds[s] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    std::string n = FE->getFileEntry().tryGetRealPathName().str();
    if (n.empty()) n = FE->getName().str();
    return n;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    size_t b = 0;
    while (b <= Root.size()) {
      size_t e = Root.find(':', b);
      if (e == std::string::npos) e = Root.size();
      if (e > b && f.rfind(Root.substr(b, e - b) + "/", 0) == 0) return true;
      b = e + 1;
    }
    return false;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int fileId(SourceLocation L) {
    std::string f = fileOf(L);
    auto it = Files.find(f);
    if (it != Files.end()) return it->second;
    int n = (int)FileNames.size();
    FileNames.push_back(f);
    Files[f] = n;
    return n;
  }
  std::string qual(const NamedDecl *D) {
    if (!D) return "";
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P(Ctx.getLangOpts());
    P.SuppressUnwrittenScope = true;
    D->printQualifiedName(os, P);
    return os.str();
  }
  std::string mangle(const FunctionDecl *FD) {
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) GD = GlobalDecl(C, Ctor_Complete);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(FD)) GD = GlobalDecl(D, Dtor_Complete);
    else GD = GlobalDecl(FD);
    if (FD->isDependentContext()) return "";
    if (MC->shouldMangleDeclName(FD)) MC->mangleName(GD, os);
    else os << FD->getNameAsString();
    return os.str();
  }
  static const FunctionDecl *bodyOf(const FunctionDecl *FD) {
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def)) return Def;
    return nullptr;
  }

  // ---- types of templates args
  json::Array templArgs(const TemplateArgumentList *L) {
    json::Array A;
    if (!L) return A;
    for (auto &a : L->asArray()) addTA(A, a);
    return A;
  }
  void addTA(json::Array &A, const TemplateArgument &a) {
    if (a.getKind() == TemplateArgument::Pack) {
      for (auto &p : a.pack_elements()) addTA(A, p);
      return;
    }
    if (a.getKind() == TemplateArgument::Type) {
      A.push_back(a.getAsType().getCanonicalType().getAsString(PP));
      return;
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    a.print(PP, os, true);
    A.push_back(os.str());
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast:
        case CK_FloatingCast:
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
          return E;
        default: E = X->getSubExpr();
        }
      } else break;
    }
    return E;
  }

  json::Value e(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    json::Object o;
    o["l"] = (int64_t)line(E->getBeginLoc());
    o["t"] = typ(E->getType());
    if (!E->isValueDependent() && !E->isTypeDependent() &&
        E->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(E)) {
      Expr::EvalResult R;
      bool simple = true;
      if (simple && E->isPRValue() && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
        llvm::SmallString<24> s;
        R.Val.getInt().toString(s, 10);
        if (R.Val.getInt().isRepresentableByInt64())
          o["i"] = R.Val.getInt().getExtValue();
        else
          o["ibig"] = std::string(s.str());
      }
    }
    fill(E, o);
    return o;
  }
  json::Array es(llvm::ArrayRef<const Expr *> v) {
    json::Array A;
    for (auto *x : v) A.push_back(e(x));
    return A;
  }
  void callee(const FunctionDecl *FD, json::Object &o) {
    o["fn"] = qual(FD);
    const FunctionDecl *Def = bodyOf(FD);
    const FunctionDecl *U = Def ? Def : FD;
    bool lam = false;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->getParent()->isLambda()) {
        lam = true;
        o["lam"] = id(MD->getParent()->getCanonicalDecl());
      }
    }
    const FunctionDecl *Pat = U->getTemplateInstantiationPattern();
    SourceLocation L = Pat ? Pat->getLocation() : U->getLocation();
    if (inRoot(L)) {
      o["repo"] = true;
      if (!lam) o["fk"] = mangle(U);
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) o["ta"] = templArgs(TA);
    json::Array PT;
    for (auto *P : FD->parameters()) {
      QualType T = P->getType();
      PT.push_back(typ(T));
    }
    o["pt"] = std::move(PT);
    if (FD->isVariadic()) o["variadic"] = true;
  }
  void fill(const Expr *E, json::Object &o) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      o["v"] = X->getValueAsApproximateDouble();
      return;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool";
      o["i"] = X->getValue() ? 1 : 0;
      return;
    }
    if (isa<CharacterLiteral>(E)) { o["k"] = "char"; return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      if (X->getCharByteWidth() == 1 ) {
        std::string s = X->getString().str();
        if (!json::isUTF8(s)) s = json::fixUTF8(s);
        o["v"] = s;
      }
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      json::Value v = e(X->getExpr());
      if (auto *vo = v.getAsObject()) { o = *vo; o["defarg"] = true; }
      return;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      json::Value v = e(X->getExpr());
      if (auto *vo = v.getAsObject()) { o = *vo; o["defarg"] = true; }
      return;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "ref";
      const ValueDecl *D = X->getDecl();
      o["id"] = id(D->getCanonicalDecl());
      o["n"] = D->getNameAsString();
      if (isa<ParmVarDecl>(D)) o["dk"] = "param";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->isLocalVarDecl() ? (V->isStaticLocal() ? "static" : "local") : "global";
        if (!V->isLocalVarDecl()) o["q"] = qual(V);
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        callee(FD, o);
      } else if (isa<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qual(D); }
      else if (isa<BindingDecl>(D)) { o["dk"] = "binding"; }
      else { o["dk"] = "other"; o["q"] = qual(D); }
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      o["k"] = "mem";
      o["n"] = D->getNameAsString();
      o["q"] = qual(D);
      o["id"] = id(D->getCanonicalDecl());
      o["arrow"] = X->isArrow();
      o["base"] = e(X->getBase());
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; callee(FD, o); }
      else if (isa<FieldDecl>(D)) o["dk"] = "field";
      else o["dk"] = "static";
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "sub";
      o["base"] = e(X->getBase());
      o["idx"] = e(X->getIdx());
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = e(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "asg" : "bin";
      o["op"] = X->getOpcodeStr().str();
      o["a"] = e(X->getLHS());
      o["b"] = e(X->getRHS());
      return;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = e(X->getCond());
      o["a"] = e(X->getTrueExpr());
      o["b"] = e(X->getFalseExpr());
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *FD = X->getDirectCallee()) {
        callee(FD, o);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
          o["obj"] = e(X->getArg(0));
          json::Array A;
          for (unsigned i = 1; i < X->getNumArgs(); ++i) A.push_back(e(X->getArg(i)));
          o["args"] = std::move(A);
          return;
        }
      }
      json::Array A;
      for (unsigned i = 0; i < X->getNumArgs(); ++i) A.push_back(e(X->getArg(i)));
      o["args"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      if (auto *FD = X->getMethodDecl()) callee(FD, o);
      else o["calleeE"] = e(X->getCallee());
      if (auto *Ob = X->getImplicitObjectArgument()) {
        o["obj"] = e(Ob);
        if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) o["arrow"] = ME->isArrow();
      }
      json::Array A;
      for (auto *a : X->arguments()) A.push_back(e(a));
      o["args"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *FD = X->getDirectCallee()) callee(FD, o);
      else o["calleeE"] = e(X->getCallee());
      json::Array A;
      for (auto *a : X->arguments()) A.push_back(e(a));
      o["args"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // collapse elidable / copy of prvalue
      if (X->isElidable() && X->getNumArgs() == 1) {
        json::Value v = e(X->getArg(0));
        if (auto *vo = v.getAsObject()) { o = *vo; return; }
      }
      o["k"] = "ctor";
      callee(X->getConstructor(), o);
      auto *CD = X->getConstructor();
      o["cls"] = qual(CD->getParent());
      if (CD->isCopyConstructor()) o["cm"] = "copy";
      else if (CD->isMoveConstructor()) o["cm"] = "move";
      else if (CD->isDefaultConstructor()) o["cm"] = "default";
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["stdlist"] = true;
      json::Array A;
      for (auto *a : X->arguments()) A.push_back(e(a));
      o["args"] = std::move(A);
      return;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; return; }
    if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "init";
      json::Array A;
      for (auto *a : X->inits()) A.push_back(e(a));
      o["args"] = std::move(A);
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) o["cls"] = qual(RD);
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      o["lam"] = id(X->getLambdaClass()->getCanonicalDecl());
      json::Array caps;
      for (auto &c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["id"] = id(c.getCapturedVar()->getCanonicalDecl());
          co["t"] = typ(c.getCapturedVar()->getType());
        }
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      // generic lambdas: dump every specialisation
      if (auto *FT = X->getDependentCallOperator() ? nullptr : X->getCallOperator()) (void)FT;
      if (X->isGenericLambda()) {
        json::Array sp;
        if (auto *T = X->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : T->specializations()) {
            json::Object f;
            fn(S, f);
            sp.push_back(std::move(f));
          }
        o["spec"] = std::move(sp);
      } else {
        json::Object f;
        fn(X->getCallOperator(), f);
        json::Array sp;
        sp.push_back(std::move(f));
        o["spec"] = std::move(sp);
      }
      return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      o["of"] = typ(X->getTypeOfArgument());
      return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (X->getSubExpr()) o["e"] = e(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      if (X->isArray() && X->getArraySize()) o["size"] = e(*X->getArraySize());
      if (X->getInitializer()) o["init"] = e(X->getInitializer());
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      o["e"] = e(X->getArgument());
      return;
    }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      const Expr *S = strip(X->getSubExpr());
      if (isa<CXXConstructExpr>(S) || isa<InitListExpr>(S)) { fill(S, o); return; }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["expl"] = true;
      o["e"] = e(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      const Expr *S = strip(X->getSubExpr());
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion) {
        fill(S, o); return;
      }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["expl"] = true;
      o["e"] = e(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName();
      o["e"] = e(X->getSubExpr());
      return;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { fill(strip(X->getSemanticForm()), o); return; }
    o["k"] = "other";
    o["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *c : E->children())
      if (c) { if (auto *ce = dyn_cast<Expr>(c)) A.push_back(e(ce)); }
    o["args"] = std::move(A);
  }

  json::Object var(const VarDecl *V) {
    json::Object v;
    v["id"] = id(V->getCanonicalDecl());
    v["n"] = V->getNameAsString();
    v["t"] = typ(V->getType());
    v["l"] = (int64_t)line(V->getLocation());
    if (V->isStaticLocal()) v["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) v["tls"] = true;
    if (V->isConstexpr()) v["constexpr"] = true;
    if (V->getType().isConstQualified()) v["const"] = true;
    if (V->getInit()) v["init"] = e(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *b : DD->bindings()) {
        json::Object bo;
        bo["id"] = id(b->getCanonicalDecl());
        bo["n"] = b->getNameAsString();
        bo["t"] = typ(b->getType());
        if (b->getHoldingVar()) { bo["hold"] = id(b->getHoldingVar()->getCanonicalDecl());
          if (b->getHoldingVar()->getInit()) bo["e"] = e(b->getHoldingVar()->getInit()); }
        else if (b->getBinding()) bo["e"] = e(b->getBinding());
        B.push_back(std::move(bo));
      }
      v["bind"] = std::move(B);
    }
    return v;
  }
  json::Value s(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return e(E);
    json::Object o;
    o["l"] = (int64_t)line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      json::Array A;
      for (auto *c : X->body()) A.push_back(s(c));
      o["s"] = std::move(A);
      o["le"] = (int64_t)line(X->getEndLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array A;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V));
      o["vars"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->isConstexpr()) o["constexpr"] = true;
      if (X->getInit()) o["init"] = s(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cvar"] = s(X->getConditionVariableDeclStmt());
      o["c"] = e(X->getCond());
      const Stmt *T = X->getThen(), *El = X->getElse();
      if (X->isConstexpr()) {
        auto ndc = X->getNondiscardedCase(Ctx);
        if (ndc.has_value()) {
          if (*ndc == T) El = nullptr;
          else T = nullptr;
          o["taken"] = (*ndc == X->getThen()) && *ndc ? "then" : "else";
        }
      }
      o["then"] = s(T);
      o["else"] = s(El);
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["init"] = s(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cvar"] = s(X->getConditionVariableDeclStmt());
      o["c"] = e(X->getCond());
      o["inc"] = e(X->getInc());
      o["body"] = s(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (X->getConditionVariableDeclStmt()) o["cvar"] = s(X->getConditionVariableDeclStmt());
      o["c"] = e(X->getCond());
      o["body"] = s(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = e(X->getCond());
      o["body"] = s(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      o["var"] = var(X->getLoopVariable());
      if (X->getRangeInit()) o["range"] = e(X->getRangeInit());
      o["body"] = s(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue()) o["e"] = e(X->getRetValue());
    } else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "cont";
    else if (isa<NullStmt>(S)) o["k"] = "null_stmt";
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["body"] = s(X->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        json::Object h;
        auto *H = X->getHandler(i);
        if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl());
        h["body"] = s(H->getHandlerBlock());
        A.push_back(std::move(h));
      }
      o["handlers"] = std::move(A);
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      o["c"] = e(X->getCond());
      o["body"] = s(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["v"] = e(X->getLHS());
      o["body"] = s(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["body"] = s(X->getSubStmt());
    } else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp";
      o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      if (auto *C = dyn_cast<OMPCriticalDirective>(X)) o["name"] = C->getDirectiveName().getAsString();
      json::Array cl;
      for (auto *C : X->clauses()) {
        if (!C || C->isImplicit()) continue;
        json::Object co;
        co["k"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
        json::Array A;
        for (auto *ch : const_cast<OMPClause *>(C)->children())
          if (ch) if (auto *ce = dyn_cast<Expr>(ch)) A.push_back(e(ce));
        co["args"] = std::move(A);
        if (auto *R = dyn_cast<OMPReductionClause>(C)) co["op"] = R->getNameInfo().getAsString();
        if (auto *SC = dyn_cast<OMPScheduleClause>(C)) co["sched"] = getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, SC->getScheduleKind());
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (X->hasAssociatedStmt()) o["body"] = s(X->getRawStmt());
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return s(X->getSubStmt());
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["k"] = "label"; o["body"] = s(X->getSubStmt());
    } else if (isa<GotoStmt>(S)) {
      o["k"] = "goto";
    } else if (auto *X = dyn_cast<CapturedStmt>(S)) {
      return s(X->getCapturedStmt());
    } else {
      o["k"] = "otherstmt";
      o["cls"] = S->getStmtClassName();
      json::Array A;
      for (auto *c : S->children()) if (c) A.push_back(s(c));
      o["s"] = std::move(A);
    }
    return o;
  }
  void fn(const FunctionDecl *FD, json::Object &o) {
    const FunctionDecl *Pat = FD->getTemplateInstantiationPattern();
    SourceLocation L = Pat ? Pat->getLocation() : FD->getLocation();
    o["file"] = fileId(L);
    o["l"] = (int64_t)line(L);
    o["q"] = qual(FD);
    o["n"] = FD->getNameAsString();
    bool lam = false;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      lam = MD->getParent()->isLambda();
      if (lam) o["lam"] = id(MD->getParent()->getCanonicalDecl());
      if (!lam) { o["cls"] = qual(MD->getParent());
        o["clst"] = typ(Ctx.getRecordType(MD->getParent())); }
      if (MD->isStatic()) o["static"] = true;
      if (MD->isConst()) o["const"] = true;
      if (MD->isCopyAssignmentOperator()) o["cm"] = "copyassign";
      if (MD->isMoveAssignmentOperator()) o["cm"] = "moveassign";
    }
    if (!lam) o["fk"] = mangle(FD);
    if (FD->isImplicit() || FD->isDefaulted()) o["defaulted"] = true;
    if (FD->isNoReturn()) o["noreturn"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) o["ta"] = templArgs(TA);
    if (Pat) o["inst"] = true;
    o["rt"] = typ(FD->getReturnType());
    json::Array P;
    for (auto *p : FD->parameters()) {
      json::Object v;
      v["id"] = id(p->getCanonicalDecl());
      v["n"] = p->getNameAsString();
      v["t"] = typ(p->getType());
      P.push_back(std::move(v));
    }
    o["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o["ctor"] = true;
      if (CD->isCopyConstructor()) o["cm"] = "copy";
      else if (CD->isMoveConstructor()) o["cm"] = "move";
      json::Array I;
      for (auto *in : CD->inits()) {
        json::Object io;
        if (in->isMemberInitializer()) { io["field"] = in->getMember()->getNameAsString(); io["id"] = id(in->getMember()->getCanonicalDecl()); }
        else if (in->isBaseInitializer()) io["baset"] = typ(QualType(in->getBaseClass(), 0));
        else if (in->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = in->isWritten();
        io["l"] = (int64_t)line(in->getSourceLocation());
        io["e"] = e(in->getInit());
        I.push_back(std::move(io));
      }
      o["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
    o["body"] = s(FD->getBody());
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Dumper &D;
  json::Array Fns, Recs, Globals, Pats, Enums;
  std::set<const Decl *> Seen;
  Vis(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !(FD->isThisDeclarationADefinition())) return true;
    const FunctionDecl *Pat = FD->getTemplateInstantiationPattern();
    SourceLocation L = Pat ? Pat->getLocation() : FD->getLocation();
    if (!D.inRoot(L)) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda()) return true;
    if (FD->isDependentContext()) {
      json::Object o;
      o["q"] = D.qual(FD);
      o["file"] = D.fileId(L);
      o["l"] = (int64_t)D.line(L);
      Pats.push_back(std::move(o));
      return true;
    }
    if (FD->isDeleted()) return true;
    if (!FD->getBody()) return true;
    if (FD->isInvalidDecl()) return true;
    if (!Seen.insert(FD).second) return true;
    json::Object o;
    D.fn(FD, o);
    Fns.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (!D.inRoot(ED->getLocation()) || ED->isDependentContext() || !ED->isCompleteDefinition()) return true;
    json::Object o;
    o["q"] = D.qual(ED);
    json::Array A;
    for (auto *c : ED->enumerators()) {
      json::Object co;
      co["n"] = c->getNameAsString();
      co["v"] = c->getInitVal().isRepresentableByInt64() ? c->getInitVal().getExtValue() : (int64_t)-1;
      A.push_back(std::move(co));
    }
    o["c"] = std::move(A);
    Enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isLocalVarDecl()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->getDescribedVarTemplate()) return true;
    if (!Seen.insert(V).second) return true;
    json::Object o = D.var(V);
    o["q"] = D.qual(V);
    o["file"] = D.fileId(V->getLocation());
    Globals.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    if (!Seen.insert(R).second) return true;
    json::Object o;
    o["q"] = D.qual(R);
    o["t"] = D.typ(D.Ctx.getRecordType(R));
    o["file"] = D.fileId(R->getLocation());
    o["l"] = (int64_t)D.line(R->getLocation());
    json::Array B;
    for (auto &b : R->bases()) B.push_back(D.typ(b.getType()));
    o["bases"] = std::move(B);
    json::Array F;
    for (auto *f : R->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["id"] = D.id(f->getCanonicalDecl());
      fo["t"] = D.typ(f->getType());
      fo["l"] = (int64_t)D.line(f->getLocation());
      if (f->isMutable()) fo["mutable"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = D.e(f->getInClassInitializer());
      F.push_back(std::move(fo));
    }
    o["fields"] = std::move(F);
    json::Array M;
    for (auto *m : R->methods()) {
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["l"] = (int64_t)D.line(m->getLocation());
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      if (m->isUserProvided()) mo["user"] = true;
      if (m->isStatic()) mo["static"] = true;
      if (m->isCopyAssignmentOperator()) mo["cm"] = "copyassign";
      if (m->isMoveAssignmentOperator()) mo["cm"] = "moveassign";
      if (auto *C = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        if (C->isCopyConstructor()) mo["cm"] = "copy";
        if (C->isMoveConstructor()) mo["cm"] = "move";
      }
      if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
      mo["fk"] = D.mangle(m);
      M.push_back(std::move(mo));
    }
    o["methods"] = std::move(M);
    Recs.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { Errors = 1; }
    Dumper D(C);
    Vis V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    json::Object o;
    json::Array T, F;
    for (auto &t : D.TypeNames) T.push_back(t);
    for (auto &f : D.FileNames) F.push_back(f);
    o["types"] = std::move(T);
    o["files"] = std::move(F);
    o["fns"] = std::move(V.Fns);
    o["recs"] = std::move(V.Recs);
    o["globals"] = std::move(V.Globals);
    o["pats"] = std::move(V.Pats);
    o["enums"] = std::move(V.Enums);
    o["errors"] = Errors;
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  Root = argv[1];
  OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Fl;
  for (int i = 5; i < argc; ++i) Fl.push_back(argv[i]);
  Fl.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
  tooling::FixedCompilationDatabase DB(".", Fl);
  tooling::ClangTool Tool(DB, {File});
  Tool.setPrintErrorMessage(true);
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
  } fac;
  int rc = Tool.run(&fac);
  return rc || Errors ? 3 : 0;
}
