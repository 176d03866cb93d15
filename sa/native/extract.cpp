// Dumps the bodies of all (instantiated) functions defined under one directory as JSON, one object per line.
// Usage: extract <root-dir> <main.cpp> -- <compiler flags>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> Ids;
  std::map<std::string, int> Types;
  std::deque<const FunctionDecl *> Work;
  std::set<const FunctionDecl *> Seen;
  std::set<const CXXRecordDecl *> Recs;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressDefaultTemplateArgs = true;
    PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = true;
  }

  int id(const void *P) { return Ids.emplace(P, Ids.size() + 1).first->second; }

  std::string tstr(QualType T) {
    std::string S = T.getCanonicalType().getAsString(PP);
    return S;
  }
  int type(QualType T) {
    std::string S = tstr(T);
    auto R = Types.emplace(S, Types.size() + 1);
    if (R.second) {
      QualType Q = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
      Object O{{"k", "type"}, {"id", R.first->second}, {"s", S}};
      if (Q->isRealFloatingType()) {
        O["fp"] = (int64_t)llvm::APFloat::semanticsPrecision(C.getFloatTypeSemantics(Q));
      }
      emit(std::move(O));
    }
    return R.first->second;
  }

  void emit(Object O) { llvm::outs() << Value(std::move(O)) << "\n"; }

  SourceLocation loc(SourceLocation L) { return SM.getExpansionLoc(L); }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    auto F = SM.getFilename(loc(L));
    return F.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid())
      return false;
    llvm::StringRef F = SM.getFilename(loc(L));
    return F.starts_with(Root) || (!F.empty() && F[0] != '/' );
  }

  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string recname(const CXXRecordDecl *R) {
    if (!R)
      return "";
    return tstr(C.getRecordType(R));
  }

  void need(const FunctionDecl *F) {
    if (!F)
      return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && inRoot(Def->getLocation()) && !Def->isDependentContext()) {
      if (Seen.insert(Def->getCanonicalDecl()).second)
        Work.push_back(Def);
    }
  }

  void needLambda(const CXXRecordDecl *R) {
    if (!R || !R->isLambda())
      return;
    if (auto *FT = R->getDependentLambdaCallOperator()) {
      for (auto *S : FT->specializations())
        need(S);
    } else if (auto *M = R->getLambdaCallOperator()) {
      need(M);
    }
  }

  void needRecord(const CXXRecordDecl *R) {
    if (!R)
      return;
    R = R->getDefinition();
    if (!R || R->isDependentContext() || !inRoot(R->getLocation()))
      return;
    if (!Recs.insert(R->getCanonicalDecl()).second)
      return;
    Array Bases, Fields, Methods;
    for (auto &B : R->bases())
      Bases.push_back(tstr(B.getType()));
    for (auto *F : R->fields()) {
      Object O{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"mut", F->isMutable()}};
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        O["init"] = E(F->getInClassInitializer());
      Fields.push_back(std::move(O));
    }
    for (auto *M : R->methods()) {
      Methods.push_back(Object{{"n", M->getNameAsString()}, {"id", id(M->getCanonicalDecl())}, {"del", M->isDeleted()},
                               {"virt", M->isVirtual()}, {"user", M->isUserProvided()}, {"impl", M->isImplicit()},
                               {"kind", mkind(M)}});
    }
    emit(Object{{"k", "rec"}, {"n", recname(R)}, {"q", qual(R)}, {"lam", R->isLambda()}, {"bases", std::move(Bases)},
                {"fields", std::move(Fields)}, {"methods", std::move(Methods)}, {"line", line(R->getLocation())},
                {"file", file(R->getLocation())}});
    for (auto &B : R->bases())
      needRecord(B.getType()->getAsCXXRecordDecl());
  }

  std::string mkind(const CXXMethodDecl *M) {
    if (auto *K = dyn_cast<CXXConstructorDecl>(M))
      return K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "ctor";
    if (isa<CXXDestructorDecl>(M))
      return "dtor";
    if (isa<CXXConversionDecl>(M))
      return "conv";
    return M->isCopyAssignmentOperator() ? "copy=" : M->isMoveAssignmentOperator() ? "move=" : "";
  }

  // ---- callee description
  Value callee(const FunctionDecl *F) {
    if (!F)
      return nullptr;
    need(F);
    int I = id(F->getCanonicalDecl());
    static std::set<int> Done;
    if (Done.insert(I).second) {
      Array Ps;
      for (auto *P : F->parameters())
        Ps.push_back(type(P->getType()));
      Object O{{"k", "fdecl"}, {"id", I}, {"q", qual(F)}, {"n", F->getNameAsString()}, {"ps", std::move(Ps)},
               {"ret", type(F->getReturnType())}};
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        O["rec"] = recname(M->getParent());
        O["const"] = M->isConst();
        O["static"] = M->isStatic();
        O["virt"] = M->isVirtual();
        O["kind"] = mkind(M);
        O["lam"] = M->getParent()->isLambda();
        O["user"] = M->isUserProvided();
      }
      O["noexc"] = isNoexcept(F);
      emit(std::move(O));
    }
    return I;
  }

  bool isNoexcept(const FunctionDecl *F) {
    auto *P = F->getType()->getAs<FunctionProtoType>();
    if (!P)
      return false;
    auto K = P->getExceptionSpecType();
    if (K == EST_Unevaluated || K == EST_Uninstantiated || isUnresolvedExceptionSpec(K))
      return false;
    return P->isNothrow();
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *X : R)
      A.push_back(E(X));
    return A;
  }

  Object node(const char *K, const Expr *X) { return Object{{"k", K}, {"l", line(X->getExprLoc())}}; }

  // ---- expressions
  Value E(const Expr *X) {
    if (!X)
      return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(X))
      return E(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(X))
      return E(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X))
      return E(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X))
      return E(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X))
      return E(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(X))
      return E(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(X))
      return E(P->getExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(X))
      return P->getSourceExpr() ? E(P->getSourceExpr()) : Value(node("opaque", X));
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X))
      return E(P->getSubExpr());
    if (auto *P = dyn_cast<CastExpr>(X))
      return castE(P);
    if (auto *P = dyn_cast<IntegerLiteral>(X)) {
      auto O = node("lit", X);
      llvm::SmallString<32> S;
      P->getValue().toString(S, 10, P->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<FloatingLiteral>(X)) {
      auto O = node("lit", X);
      O["v"] = P->getValue().convertToDouble();
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(X)) {
      auto O = node("lit", X);
      O["v"] = P->getValue();
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<clang::StringLiteral>(X)) {
      auto O = node("str", X);
      O["v"] = P->isOrdinary() || P->isUTF8() ? json::fixUTF8(P->getString()) : "?";
      return O;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(X))
      return node("str", X);
    if (auto *P = dyn_cast<CharacterLiteral>(X)) {
      auto O = node("lit", X);
      O["v"] = std::to_string(P->getValue());
      O["t"] = type(X->getType());
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) {
      auto O = node("lit", X);
      O["v"] = nullptr;
      return O;
    }
    if (isa<CXXThisExpr>(X))
      return node("this", X);
    if (auto *P = dyn_cast<DeclRefExpr>(X))
      return refE(P);
    if (auto *P = dyn_cast<MemberExpr>(X)) {
      auto O = node("mem", X);
      auto *D = P->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D))
        return varE(V, X);
      O["o"] = E(P->getBase());
      O["n"] = D->getNameAsString();
      O["arrow"] = P->isArrow();
      O["t"] = type(D->getType());
      if (auto *F = dyn_cast<FunctionDecl>(D))
        O["f"] = callee(F);
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        O["rec"] = recname(dyn_cast<CXXRecordDecl>(F->getParent()));
        needRecord(dyn_cast<CXXRecordDecl>(F->getParent()));
      }
      return O;
    }
    if (auto *P = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto O = node("op", X);
      O["op"] = getOperatorSpelling(P->getOperator());
      O["f"] = callee(P->getDirectCallee());
      if (!P->getDirectCallee())
        O["fe"] = E(P->getCallee());
      O["a"] = args(P->arguments());
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(X)) {
      auto O = node("mcall", X);
      O["f"] = callee(P->getMethodDecl());
      O["o"] = E(P->getImplicitObjectArgument());
      if (auto *M = P->getMethodDecl()) {
        O["n"] = M->getNameAsString();
        // a virtual call through a non-qualified name may go to an override
        if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens()))
          O["qualified"] = ME->hasQualifier();
      } else
        O["fe"] = E(P->getCallee());
      O["a"] = args(P->arguments());
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<CallExpr>(X)) {
      auto O = node("call", X);
      O["f"] = callee(P->getDirectCallee());
      if (auto *D = P->getDirectCallee()) {
        O["n"] = D->getNameAsString();
        if (auto *TA = D->getTemplateSpecializationArgs()) {
          Array A;
          for (auto &T : TA->asArray())
            if (T.getKind() == TemplateArgument::Type)
              A.push_back(type(T.getAsType()));
            else if (T.getKind() == TemplateArgument::Integral) {
              llvm::SmallString<32> S;
              T.getAsIntegral().toString(S, 10);
              A.push_back(S.str().str());
            } else
              A.push_back(nullptr);
          O["ta"] = std::move(A);
        }
      } else
        O["fe"] = E(P->getCallee());
      O["a"] = args(P->arguments());
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<LambdaExpr>(X)) {
      auto O = node("lambda", X);
      auto *R = P->getLambdaClass();
      needLambda(R);
      O["rec"] = recname(R);
      Array Ops;
      if (auto *FT = R->getDependentLambdaCallOperator()) {
        for (auto *S : FT->specializations())
          Ops.push_back(callee(S));
      } else if (auto *M = R->getLambdaCallOperator())
        Ops.push_back(callee(M));
      O["ops"] = std::move(Ops);
      Array Caps;
      auto I = P->capture_init_begin();
      for (auto &Cap : P->captures()) {
        Object CO;
        CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
        if (Cap.capturesThis()) {
          CO["this"] = true;
        } else if (Cap.capturesVariable()) {
          CO["d"] = id(Cap.getCapturedVar()->getCanonicalDecl());
          CO["n"] = Cap.getCapturedVar()->getNameAsString();
          if (P->isInitCapture(&Cap))
            CO["own"] = true;
        }
        CO["e"] = *I ? E(*I) : Value(nullptr);
        Caps.push_back(std::move(CO));
        ++I;
      }
      O["caps"] = std::move(Caps);
      return O;
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
      auto O = node("ctor", X);
      O["f"] = callee(P->getConstructor());
      O["t"] = type(X->getType());
      O["kind"] = mkind(P->getConstructor());
      O["a"] = args(P->arguments());
      O["list"] = P->isListInitialization();
      needRecord(P->getConstructor()->getParent());
      return O;
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
      auto O = node("ctor", X);
      O["f"] = callee(P->getConstructor());
      O["t"] = type(X->getType());
      O["kind"] = "inherited";
      return O;
    }
    if (auto *P = dyn_cast<BinaryOperator>(X)) {
      auto O = node("bin", X);
      O["op"] = P->getOpcodeStr().str();
      O["a"] = Array{E(P->getLHS()), E(P->getRHS())};
      O["t"] = type(X->getType());
      if (auto *A = dyn_cast<CompoundAssignOperator>(P))
        O["ct"] = type(A->getComputationResultType());
      return O;
    }
    if (auto *P = dyn_cast<UnaryOperator>(X)) {
      auto O = node("un", X);
      O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      O["post"] = P->isPostfix();
      O["a"] = Array{E(P->getSubExpr())};
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<AbstractConditionalOperator>(X)) {
      auto O = node("cond", X);
      O["a"] = Array{E(P->getCond()), E(P->getTrueExpr()), E(P->getFalseExpr())};
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(X)) {
      auto O = node("idx", X);
      O["a"] = Array{E(P->getBase()), E(P->getIdx())};
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<InitListExpr>(X)) {
      auto O = node("init", X);
      auto *S = P->isSemanticForm() ? P : (P->getSemanticForm() ? P->getSemanticForm() : P);
      Array A;
      for (auto *I : S->inits())
        A.push_back(E(I));
      O["a"] = std::move(A);
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<CXXThrowExpr>(X)) {
      auto O = node("throw", X);
      O["e"] = E(P->getSubExpr());
      if (P->getSubExpr())
        O["t"] = type(P->getSubExpr()->getType());
      return O;
    }
    if (auto *P = dyn_cast<CXXScalarValueInitExpr>(X)) {
      auto O = node("zero", X);
      O["t"] = type(X->getType());
      return O;
    }
    if (isa<ImplicitValueInitExpr>(X)) {
      auto O = node("zero", X);
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Expr::EvalResult R;
      auto O = node("lit", X);
      if (P->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = S.str().str();
      } else
        O["v"] = nullptr;
      O["t"] = type(X->getType());
      return O;
    }
    if (auto *P = dyn_cast<SizeOfPackExpr>(X)) {
      auto O = node("lit", X);
      O["v"] = std::to_string(P->isValueDependent() ? 0 : P->getPackLength());
      return O;
    }
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(X))
      return E(P->getSemanticForm());
    if (auto *P = dyn_cast<CXXNewExpr>(X)) {
      auto O = node("new", X);
      O["t"] = type(P->getAllocatedType());
      O["e"] = P->getInitializer() ? E(P->getInitializer()) : Value(nullptr);
      return O;
    }
    auto O = node("other", X);
    O["c"] = X->getStmtClassName();
    Array A;
    for (auto *S : X->children())
      if (auto *Y = dyn_cast_or_null<Expr>(S))
        A.push_back(E(Y));
    O["a"] = std::move(A);
    O["t"] = type(X->getType());
    return O;
  }

  Value castE(const CastExpr *P) {
    const Expr *S = P->getSubExpr();
    switch (P->getCastKind()) {
    case CK_IntegralCast:
    case CK_IntegralToFloating:
    case CK_FloatingCast:
    case CK_FloatingToIntegral:
    case CK_IntegralToBoolean:
    case CK_FloatingToBoolean:
    case CK_PointerToBoolean: {
      auto O = node("cast", P);
      O["ck"] = P->getCastKindName();
      O["t"] = type(P->getType());
      O["from"] = type(S->getType());
      O["expl"] = isa<ExplicitCastExpr>(P);
      O["e"] = E(S);
      return O;
    }
    case CK_ToVoid: {
      auto O = node("void", P);
      O["e"] = E(S);
      return O;
    }
    default:
      break;
    }
    if (isa<ExplicitCastExpr>(P) && (P->getCastKind() == CK_DerivedToBase || P->getCastKind() == CK_UncheckedDerivedToBase ||
                                     P->getCastKind() == CK_NoOp || P->getCastKind() == CK_LValueToRValue)) {
      auto O = node("view", P);
      O["t"] = type(P->getType());
      O["e"] = E(S);
      return O;
    }
    return E(S);
  }

  Value constant(const VarDecl *V, const Expr *X) {
    if (V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && !isa<ParmVarDecl>(V))) {
      const VarDecl *D = V;
      if (D->getAnyInitializer(D) && D->getInit() && !D->getInit()->isValueDependent()) {
        if (auto *A = D->evaluateValue()) {
          if (A->isInt()) {
            auto O = node("lit", X);
            llvm::SmallString<32> S;
            A->getInt().toString(S, 10);
            O["v"] = S.str().str();
            O["t"] = type(V->getType());
            O["n"] = V->getNameAsString();
            return O;
          }
          if (A->isFloat()) {
            auto O = node("lit", X);
            O["v"] = A->getFloat().convertToDouble();
            O["t"] = type(V->getType());
            return O;
          }
        }
      }
    }
    return nullptr;
  }

  Value varE(const VarDecl *V, const Expr *X) {
    Value K = constant(V, X);
    if (K.kind() != Value::Null)
      return K;
    auto O = node("v", X);
    O["d"] = id(V->getCanonicalDecl());
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    if (V->hasGlobalStorage()) {
      O["g"] = qual(V);
      // file-scope or static callables (lambdas) are needed where they are used
      const VarDecl *D = V;
      if (V->getAnyInitializer(D) && D->getInit() && inRoot(V->getLocation()) && !D->getInit()->isTypeDependent()) {
        static std::set<const void *> Done;
        if (Done.insert(V->getCanonicalDecl()).second) {
          Object G{{"k", "global"}, {"d", id(V->getCanonicalDecl())}, {"q", qual(V)}};
          G["init"] = E(D->getInit());
          emit(std::move(G));
        }
      }
    }
    return O;
  }

  Value refE(const DeclRefExpr *P) {
    auto *D = P->getDecl();
    if (auto *V = dyn_cast<VarDecl>(D))
      return varE(V, P);
    auto O = node("v", P);
    O["n"] = D->getNameAsString();
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["k"] = "fn";
      O["f"] = callee(F);
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        O["rec"] = recname(M->getParent());
      return O;
    }
    if (auto *F = dyn_cast<FieldDecl>(D)) {
      O["k"] = "fieldref";
      O["rec"] = recname(dyn_cast<CXXRecordDecl>(F->getParent()));
      return O;
    }
    if (auto *K = dyn_cast<EnumConstantDecl>(D)) {
      auto L = node("lit", P);
      llvm::SmallString<32> S;
      K->getInitVal().toString(S, 10);
      L["v"] = S.str().str();
      L["n"] = K->getNameAsString();
      return L;
    }
    O["d"] = id(D->getCanonicalDecl());
    O["t"] = type(D->getType());
    return O;
  }

  // ---- statements
  Value S(const Stmt *X) {
    if (!X)
      return nullptr;
    auto L = [&](const char *K) { return Object{{"k", K}, {"l", line(X->getBeginLoc())}}; };
    if (auto *P = dyn_cast<CompoundStmt>(X)) {
      auto O = L("block");
      Array A;
      for (auto *Y : P->body())
        A.push_back(S(Y));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *P = dyn_cast<DeclStmt>(X)) {
      auto O = L("decl");
      Array A;
      for (auto *D : P->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          Array B;
          Array N;
          for (auto *X2 : DD->bindings()) {
            B.push_back(id(X2->getCanonicalDecl()));
            N.push_back(X2->getNameAsString());
            // tuple-like bindings: the references in the body may go to the holding variable
          }
          Object V{{"b", std::move(B)}, {"n", std::move(N)}, {"t", type(DD->getType())}};
          Array H;
          for (auto *X2 : DD->bindings())
            H.push_back(X2->getHoldingVar() ? Value(id(X2->getHoldingVar()->getCanonicalDecl())) : Value(nullptr));
          V["h"] = std::move(H);
          Array F;
          for (auto *X2 : DD->bindings()) {
            std::string N2;
            if (auto *BE = X2->getBinding())
              if (auto *ME = dyn_cast<MemberExpr>(BE->IgnoreImplicit()))
                N2 = ME->getMemberDecl()->getNameAsString();
            F.push_back(N2);
          }
          V["f"] = std::move(F);
          V["e"] = E(DD->getInit());
          A.push_back(std::move(V));
        } else if (auto *V = dyn_cast<VarDecl>(D)) {
          A.push_back(vardecl(V));
        }
      }
      O["a"] = std::move(A);
      return O;
    }
    if (auto *P = dyn_cast<ReturnStmt>(X)) {
      auto O = L("ret");
      O["e"] = E(P->getRetValue());
      return O;
    }
    if (auto *P = dyn_cast<IfStmt>(X)) {
      auto O = L("if");
      O["init"] = S(P->getInit());
      if (auto *CV = P->getConditionVariableDeclStmt())
        O["cv"] = S(CV);
      if (P->isConstexpr()) {
        auto R = P->getNondiscardedCase(C);
        if (R) {
          if (*R)
            return S(*R);
          return L("block");
        }
        O["cexpr"] = true;
      }
      O["c"] = E(P->getCond());
      O["t"] = S(P->getThen());
      O["e"] = S(P->getElse());
      return O;
    }
    if (auto *P = dyn_cast<WhileStmt>(X)) {
      auto O = L("while");
      O["c"] = E(P->getCond());
      O["b"] = S(P->getBody());
      return O;
    }
    if (auto *P = dyn_cast<DoStmt>(X)) {
      auto O = L("do");
      O["c"] = E(P->getCond());
      O["b"] = S(P->getBody());
      return O;
    }
    if (auto *P = dyn_cast<ForStmt>(X)) {
      auto O = L("for");
      O["init"] = S(P->getInit());
      O["c"] = P->getCond() ? E(P->getCond()) : Value(nullptr);
      O["inc"] = P->getInc() ? E(P->getInc()) : Value(nullptr);
      O["b"] = S(P->getBody());
      return O;
    }
    if (auto *P = dyn_cast<CXXForRangeStmt>(X)) {
      auto O = L("forr");
      O["var"] = S(P->getLoopVarStmt());
      O["d"] = id(P->getLoopVariable()->getCanonicalDecl());
      O["n"] = P->getLoopVariable()->getNameAsString();
      O["t"] = type(P->getLoopVariable()->getType());
      O["r"] = E(P->getRangeInit());
      O["b"] = S(P->getBody());
      return O;
    }
    if (isa<BreakStmt>(X))
      return L("break");
    if (isa<ContinueStmt>(X))
      return L("continue");
    if (isa<NullStmt>(X))
      return L("block");
    if (auto *P = dyn_cast<CXXTryStmt>(X)) {
      auto O = L("try");
      O["b"] = S(P->getTryBlock());
      Array H;
      for (unsigned I = 0; I < P->getNumHandlers(); ++I)
        H.push_back(S(P->getHandler(I)->getHandlerBlock()));
      O["h"] = std::move(H);
      return O;
    }
    if (auto *P = dyn_cast<Expr>(X)) {
      auto O = L("expr");
      O["e"] = E(P);
      return O;
    }
    if (auto *P = dyn_cast<SwitchStmt>(X)) {
      auto O = L("switch");
      O["c"] = E(P->getCond());
      O["b"] = S(P->getBody());
      return O;
    }
    if (auto *P = dyn_cast<SwitchCase>(X)) {
      auto O = L("case");
      O["b"] = S(P->getSubStmt());
      return O;
    }
    if (auto *P = dyn_cast<AttributedStmt>(X))
      return S(P->getSubStmt());
    auto O = L("otherstmt");
    O["c"] = X->getStmtClassName();
    Array A;
    for (auto *Y : X->children())
      A.push_back(S(Y));
    O["a"] = std::move(A);
    return O;
  }

  Value vardecl(const VarDecl *V) {
    Object O{{"d", id(V->getCanonicalDecl())}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    O["static"] = V->isStaticLocal();
    O["e"] = V->getInit() ? E(V->getInit()) : Value(nullptr);
    return O;
  }

  void dump(const FunctionDecl *F) {
    Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(Object{{"d", id(P->getCanonicalDecl())}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
    callee(F);
    Object O{{"k", "fun"},
             {"id", id(F->getCanonicalDecl())},
             {"q", qual(F)},
             {"n", F->getNameAsString()},
             {"file", file(F->getLocation())},
             {"line", line(F->getLocation())},
             {"end", line(F->getEndLoc())},
             {"ps", std::move(Ps)},
             {"ret", type(F->getReturnType())},
             {"noexc", isNoexcept(F)},
             {"defaulted", F->isDefaulted()}};
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &T : TA->asArray())
        if (T.getKind() == TemplateArgument::Type)
          A.push_back(type(T.getAsType()));
        else if (T.getKind() == TemplateArgument::Integral) {
          llvm::SmallString<32> S;
          T.getAsIntegral().toString(S, 10);
          A.push_back(S.str().str());
        } else if (T.getKind() == TemplateArgument::Pack) {
          for (auto &T2 : T.pack_elements())
            if (T2.getKind() == TemplateArgument::Type)
              A.push_back(type(T2.getAsType()));
        } else
          A.push_back(nullptr);
      O["ta"] = std::move(A);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recname(M->getParent());
      O["const"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["kind"] = mkind(M);
      O["lam"] = M->getParent()->isLambda();
      O["impl"] = M->isImplicit();
      if (!M->getParent()->isLambda())
        needRecord(M->getParent());
      Array Ov;
      for (auto *B : M->overridden_methods())
        Ov.push_back(callee(B));
      O["over"] = std::move(Ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *X : K->inits()) {
        Object IO;
        if (X->isAnyMemberInitializer())
          IO["f"] = X->getAnyMember()->getNameAsString();
        else if (X->isBaseInitializer())
          IO["base"] = tstr(QualType(X->getBaseClass(), 0));
        else
          IO["deleg"] = true;
        IO["w"] = X->isWritten();
        IO["e"] = E(X->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = S(F->getBody());
    emit(std::move(O));
  }

  void run() {
    while (!Work.empty()) {
      auto *F = Work.front();
      Work.pop_front();
      dump(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->hasBody() && !F->isDependentContext() && D.inRoot(F->getLocation()))
      D.need(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isCompleteDefinition() && !R->isDependentContext() && D.inRoot(R->getLocation()) && !R->isLambda())
      D.needRecord(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Dumper D(C);
    V(D).TraverseDecl(C.getTranslationUnitDecl());
    D.run();
    llvm::outs() << "{\"k\":\"end\"}\n";
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char **argv) {
  if (argc < 4)
    return 2;
  Root = argv[1];
  std::string Main = argv[2];
  std::vector<std::string> Flags;
  for (int I = 4; I < argc; ++I)
    Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {Main});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
