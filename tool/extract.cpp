// kai-extract: dumps the type-checked program (clang AST, all templates
// instantiated by the driver TU) as a compact structured IR in JSON.
// Only functions whose definition lies under the analysed root are emitted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, Driver;

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> Keyed;
  std::set<const VarDecl *> Globals;
  std::map<std::string, Value> Callees;   // per function: which parameters (object first, for methods) it may write through
  int Next = 1;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    NG = std::make_unique<ASTNameGenerator>(C);
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    return Ids[D] = Next++;
  }
  std::string ty(QualType T) {
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    return T.getAsString(PP);
  }
  static bool writable(QualType T) {
    if (T->isReferenceType()) { T = T.getNonReferenceType(); return !T.isConstQualified() && !T->isFunctionType(); }
    T = T.getCanonicalType();
    if (auto *P = T->getAs<PointerType>()) return !P->getPointeeType().isConstQualified() && !P->getPointeeType()->isFunctionType();
    return false;
  }
  std::string mangled(const FunctionDecl *F) {
    std::string m = mangled1(F);
    if (!Callees.count(m)) {
      Array a;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic() && !isa<CXXConstructorDecl>(M)) a.push_back(!M->isConst());
      for (auto *P : F->parameters()) a.push_back(writable(P->getType()));
      Callees.emplace(m, Value(std::move(a)));
    }
    return m;
  }
  std::string mangled1(const FunctionDecl *F) {
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      auto V = NG->getAllManglings(F);
      if (!V.empty()) return V[0];
    }
    return NG->getName(F);
  }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream O(s); D->printQualifiedName(O, PP); return s; }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    return SM.getFilename(SM.getExpansionLoc(L)).str();
  }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    return f.rfind(Root, 0) == 0 || (!Driver.empty() && f == Driver);
  }
  Value A(std::initializer_list<Value> L) { Array R; for (auto &V : L) R.push_back(V); return Value(std::move(R)); }

  bool isGlobal(const VarDecl *V) { return V->hasGlobalStorage() && !V->isStaticLocal(); }

  Value ref(const ValueDecl *D, int ln) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (isGlobal(V)) { Globals.insert(V->getCanonicalDecl()); return A({"g", ln, qn(V), ty(V->getType())}); }
      return A({"v", ln, id(V), V->getNameAsString(), ty(V->getType())});
    }
    if (auto *B = dyn_cast<BindingDecl>(D)) { if (auto *E = B->getBinding()) return expr(E); return A({"v", ln, id(B), B->getNameAsString(), ty(B->getType())}); }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return A({"fn", ln, mangled(F), qn(F)});
    return A({"x", ln, "ref", D->getNameAsString()});
  }

  Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) { Array a; for (auto *E : R) a.push_back(expr(E)); return Value(std::move(a)); }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // strip wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
      break;
    }
    int ln = line(E->getBeginLoc());
    // integral constants
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(Ctx) && E->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
        return A({"i", ln, s.str().str(), ty(E->getType())});
      }
    }
    if (auto *C = dyn_cast<CastExpr>(E)) {
      const Expr *S = C->getSubExpr();
      switch (C->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
      case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
      case CK_LValueBitCast: case CK_BuiltinFnToFnPtr: case CK_Dependent:
        return expr(S);
      case CK_ToVoid: return expr(S);
      case CK_NullToPointer: return A({"null", ln});
      default: break;
      }
      return A({"cast", ln, C->getCastKindName(), ty(E->getType()), expr(S), ty(S->getType())});
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return ref(D->getDecl(), ln);
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *MD = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(MD)) return ref(V, ln);
      if (isa<FieldDecl>(MD)) {
        std::string rec; if (auto *R = dyn_cast<RecordDecl>(MD->getDeclContext())) rec = qn(R);
        Value b = expr(M->getBase());
        if (M->isArrow()) b = A({"u", ln, "*", std::move(b)});
        return A({"m", ln, std::move(b), MD->getNameAsString(), rec, ty(M->getType())});
      }
      return expr(M->getBase());
    }
    if (isa<CXXThisExpr>(E)) return A({"this", ln});
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Array ps; for (auto *P : L->getCallOperator()->parameters()) ps.push_back(param(P));
      return A({"lam", ln, Value(std::move(ps)), stmt(L->getBody())});
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = C->getDirectCallee();
      bool meth = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
      return A({"call", ln, F ? mangled(F) : "?", F ? qn(F) : "?", args(C->arguments()), ty(E->getType()), meth, C->isLValue() });
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      const FunctionDecl *F = C->getMethodDecl();
      Array a;
      if (auto *M = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) {
        Value b = expr(M->getBase());
        if (M->isArrow()) b = A({"u", ln, "*", std::move(b)});
        a.push_back(std::move(b));
      } else a.push_back(expr(C->getImplicitObjectArgument()));
      for (auto *X : C->arguments()) a.push_back(expr(X));
      return A({"call", ln, F ? mangled(F) : "?", F ? qn(F) : "?", Value(std::move(a)), ty(E->getType()), true, C->isLValue()});
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = C->getDirectCallee();
      if (!F) return A({"icall", ln, expr(C->getCallee()), args(C->arguments()), ty(E->getType())});
      return A({"call", ln, mangled(F), qn(F), args(C->arguments()), ty(E->getType()), false, C->isLValue()});
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = C->getConstructor();
      Array a; for (auto *X : C->arguments()) a.push_back(expr(X));
      std::string k = CD->isCopyOrMoveConstructor() ? "copy" : (CD->isDefaultConstructor() && !CD->isUserProvided() ? "defimpl" : "user");
      return A({"ctor", ln, mangled(CD), ty(E->getType()), Value(std::move(a)), k, CD->isUserProvided()});
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      Array a; for (auto *X : I->inits()) a.push_back(expr(X));
      return A({"init", ln, ty(E->getType()), Value(std::move(a))});
    }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      auto op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(B->getOpcode()));
      return A({"=", ln, op, expr(B->getLHS()), expr(B->getRHS()), ty(B->getLHS()->getType())});
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Assign) return A({"=", ln, "", expr(B->getLHS()), expr(B->getRHS()), ty(B->getLHS()->getType())});
      return A({"b", ln, B->getOpcodeStr(), expr(B->getLHS()), expr(B->getRHS()), ty(E->getType()), ty(B->getLHS()->getType())});
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) op = std::string(U->isPrefix() ? "pre" : "post") + op;
      return A({"u", ln, op, expr(U->getSubExpr()), ty(E->getType())});
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) return A({"?", ln, expr(C->getCond()), expr(C->getTrueExpr()), expr(C->getFalseExpr())});
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) return A({"[]", ln, expr(S->getBase()), expr(S->getIdx()), ty(E->getType())});
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Value sz = nullptr; if (N->isArray() && N->getArraySize()) sz = expr(*N->getArraySize());
      return A({"new", ln, ty(N->getAllocatedType()), std::move(sz), N->hasInitializer() ? expr(N->getInitializer()) : Value(nullptr), N->isArray()});
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) return A({"del", ln, D->isArrayForm(), expr(D->getArgument())});
    if (auto *S = dyn_cast<StringLiteral>(E)) { std::string s = S->getCharByteWidth()==1? S->getString().str():std::string("?wide"); if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s); return A({"s", ln, s}); }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) return A({"f", ln, F->getValueAsApproximateDouble()});
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return A({"null", ln});
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return A({"zero", ln, ty(E->getType())});
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) return A({"throw", ln, T->getSubExpr() ? expr(T->getSubExpr()) : Value(nullptr)});
    if (auto *P = dyn_cast<ParenListExpr>(E)) { Array a; for (auto *X : const_cast<ParenListExpr*>(P)->exprs()) a.push_back(expr(X)); return A({"init", ln, ty(E->getType()), Value(std::move(a))}); }
    if (auto *PD = dyn_cast<PredefinedExpr>(E)) { (void)PD; return A({"s", ln, "__func__"}); }
    Array ch; for (auto *C : E->children()) if (auto *X = dyn_cast_or_null<Expr>(C)) ch.push_back(expr(X));
    return A({"x", ln, E->getStmtClassName(), Value(std::move(ch))});
  }

  Value param(const ParmVarDecl *P) {
    QualType T = P->getType();
    Object o;
    o["id"] = id(P); o["name"] = P->getNameAsString(); o["ty"] = ty(T);
    o["ref"] = T->isReferenceType(); o["ptr"] = T->isPointerType();
    QualType N = T.getNonReferenceType(); if (N->isPointerType()) N = N->getPointeeType();
    o["const"] = N.isConstQualified();
    return Value(std::move(o));
  }

  void declTo(const VarDecl *V, Array &out) {
    Value init = nullptr;
    if (V->getInit()) init = expr(V->getInit());
    out.push_back(A({"decl", line(V->getBeginLoc()), id(V), V->getNameAsString(), ty(V->getType()), std::move(init),
                     V->getType()->isReferenceType(), (int64_t)(V->isStaticLocal() ? (V->getType().isConstQualified() ? 2 : 1) : 0),
                     V->getType()->isConstantArrayType() ? Value((int64_t)Ctx.getConstantArrayElementCount(cast<ConstantArrayType>(V->getType()->getAsArrayTypeUnsafe()))) : Value(nullptr)}));
    if (auto *VT = dyn_cast_or_null<VariableArrayType>(V->getType()->getAsArrayTypeUnsafe()))
      out.push_back(A({"vla", line(V->getBeginLoc()), id(V), expr(VT->getSizeExpr())}));
  }
  Value blk(int ln, Array a) { return A({"blk", ln, Value(std::move(a))}); }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    int ln = line(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) { Array a; for (auto *X : C->body()) a.push_back(stmt(X)); return blk(ln, std::move(a)); }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      Array a;
      for (auto *X : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(X)) {
          declTo(V, a);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) for (auto *B : DD->bindings()) if (auto *H = B->getHoldingVar()) declTo(H, a);
        }
      }
      if (a.size() == 1) return std::move(a[0]);
      return A({"seq", ln, Value(std::move(a))});
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      if (I->isConstexpr()) if (auto R = I->getNondiscardedCase(Ctx)) return *R ? stmt(*R) : blk(ln, {});
      Value r = A({"if", ln, expr(I->getCond()), stmt(I->getThen()), stmt(I->getElse())});
      if (I->getInit() || I->getConditionVariableDeclStmt()) {
        Array a; if (I->getInit()) a.push_back(stmt(I->getInit())); if (auto *CV = I->getConditionVariableDeclStmt()) a.push_back(stmt(CV));
        a.push_back(std::move(r)); return blk(ln, std::move(a));
      }
      return r;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) return A({"for", ln, stmt(F->getInit()), expr(F->getCond()), expr(F->getInc()), stmt(F->getBody()), line(F->getEndLoc())});
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      auto *V = F->getLoopVariable();
      Value vi = nullptr; (void)vi;
      return A({"rfor", ln, id(V), V->getNameAsString(), ty(V->getType()), V->getType()->isReferenceType(), expr(F->getRangeInit()), stmt(F->getBody())});
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) return A({"while", ln, expr(W->getCond()), stmt(W->getBody())});
    if (auto *W = dyn_cast<DoStmt>(S)) return A({"do", ln, expr(W->getCond()), stmt(W->getBody())});
    if (auto *R = dyn_cast<ReturnStmt>(S)) return A({"ret", ln, R->getRetValue() ? expr(R->getRetValue()) : Value(nullptr)});
    if (isa<BreakStmt>(S)) return A({"brk", ln});
    if (isa<ContinueStmt>(S)) return A({"cont", ln});
    if (isa<NullStmt>(S)) return blk(ln, {});
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      Array cases; Array cur; Array labels; bool open = false;
      auto flush = [&]() { if (open) { cases.push_back(A({Value(std::move(labels)), Value(std::move(cur))})); labels = Array(); cur = Array(); } open = false; };
      std::function<void(const Stmt *)> walk = [&](const Stmt *X) {
        if (auto *SC = dyn_cast<SwitchCase>(X)) {
          if (open && !cur.empty()) flush();
          open = true;
          if (auto *CS = dyn_cast<CaseStmt>(SC)) labels.push_back(expr(CS->getLHS())); else labels.push_back("default");
          walk(SC->getSubStmt()); return;
        }
        cur.push_back(stmt(X));
      };
      if (auto *B = dyn_cast<CompoundStmt>(W->getBody())) for (auto *X : B->body()) walk(X); else walk(W->getBody());
      flush();
      return A({"sw", ln, expr(W->getCond()), Value(std::move(cases))});
    }
    if (auto *O = dyn_cast<OMPExecutableDirective>(S)) {
      Object cl;
      for (auto *C : O->clauses()) {
        if (auto *N = dyn_cast<OMPNumThreadsClause>(C)) cl["num_threads"] = expr(N->getNumThreads());
        else if (auto *R = dyn_cast<OMPReductionClause>(C)) { Array a; for (auto *V : R->varlists()) a.push_back(expr(V)); cl["reduction"] = A({R->getNameInfo().getAsString(), Value(std::move(a))}); }
        else if (auto *P = dyn_cast<OMPPrivateClause>(C)) { Array a; for (auto *V : P->varlists()) a.push_back(expr(V)); cl["private"] = Value(std::move(a)); }
        else if (auto *P = dyn_cast<OMPFirstprivateClause>(C)) { if (P->isImplicit()) continue; Array a; for (auto *V : P->varlists()) a.push_back(expr(V)); cl["firstprivate"] = Value(std::move(a)); }
        else if (auto *P = dyn_cast<OMPLastprivateClause>(C)) { Array a; for (auto *V : P->varlists()) a.push_back(expr(V)); cl["lastprivate"] = Value(std::move(a)); }
        else if (auto *CL = dyn_cast<OMPCollapseClause>(C)) cl["collapse"] = expr(CL->getNumForLoops());
        else if (auto *CI = dyn_cast<OMPIfClause>(C)) cl["if"] = expr(CI->getCondition());
        else if (isa<OMPNowaitClause>(C)) cl["nowait"] = true;
      }
      const Stmt *B = O->hasAssociatedStmt() ? O->getRawStmt() : nullptr;
      while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
      return A({"omp", ln, getOpenMPDirectiveName(O->getDirectiveKind()), Value(std::move(cl)), stmt(B)});
    }
    if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
    if (auto *At = dyn_cast<AttributedStmt>(S)) return stmt(At->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { Array a; for (unsigned i = 0; i < T->getNumHandlers(); i++) a.push_back(stmt(T->getHandler(i)->getHandlerBlock())); return A({"try", ln, stmt(T->getTryBlock()), Value(std::move(a))}); }
    if (auto *OC = dyn_cast<OMPCanonicalLoop>(S)) return stmt(OC->getLoopStmt());
    if (auto *E = dyn_cast<Expr>(S)) return A({"e", ln, expr(E)});
    return A({"xs", ln, S->getStmtClassName()});
  }

  Value func(const FunctionDecl *F) {
    Object o;
    o["m"] = mangled(F); o["q"] = qn(F); o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    o["end"] = line(F->getBodyRBrace());
    o["ret"] = ty(F->getReturnType()); o["retref"] = F->getReturnType()->isReferenceType();
    Array ps; for (auto *P : F->parameters()) ps.push_back(param(P));
    o["params"] = Value(std::move(ps));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = qn(M->getParent()); o["static"] = M->isStatic(); o["constm"] = M->isConst();}
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Array in;
      for (auto *I : C->inits()) if (I->isAnyMemberInitializer()) in.push_back(A({I->getAnyMember()->getNameAsString(), expr(I->getInit()), I->isWritten()}));
      o["inits"] = Value(std::move(in));
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = stmt(F->getBody());
    return Value(std::move(o));
  }

  Value record(const CXXRecordDecl *R) {
    Object o; o["q"] = qn(R); o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
    std::string tn = ty(Ctx.getTypeDeclType(R)); o["ty"] = tn;
    Array fs; for (auto *F : R->fields()) fs.push_back(A({F->getNameAsString(), ty(F->getType()), F->hasInClassInitializer(), line(F->getLocation()), F->hasInClassInitializer() && F->getInClassInitializer() ? expr(F->getInClassInitializer()) : Value(nullptr)}));
    o["fields"] = Value(std::move(fs));
    o["udtor"] = R->hasUserDeclaredDestructor();
    o["ucopyctor"] = R->hasUserDeclaredCopyConstructor();
    o["ucopyassign"] = R->hasUserDeclaredCopyAssignment();
    o["trivcopy"] = R->isTriviallyCopyable();
    return Value(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper D; llvm::raw_ostream &O; bool first = true; std::set<std::string> seen; std::set<std::string> seenR;
  Array Recs;
  V(ASTContext &C, llvm::raw_ostream &O) : D(C), O(O) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isDefaulted() || F->isDeleted()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string m = D.mangled(F);
    if (!seen.insert(m).second) return true;
    if (!first) O << ",\n"; first = false;
    O << D.func(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !D.inRoot(R->getLocation())) return true;
    std::string k = D.ty(D.Ctx.getTypeDeclType(R));
    if (!seenR.insert(k).second) return true;
    Recs.push_back(D.record(R));
    return true;
  }
};
struct C : ASTConsumer {
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    V v(Ctx, llvm::outs());
    llvm::outs() << "{\"functions\":[\n";
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    llvm::outs() << "\n],\"records\":" << Value(std::move(v.Recs)) << ",\n\"globals\":[";
    bool f = true;
    // globals with initialisers (visit a snapshot; printing may add more)
    std::set<const VarDecl *> done;
    bool more = true;
    while (more) {
      more = false;
      std::vector<const VarDecl *> snap(v.D.Globals.begin(), v.D.Globals.end());
      for (auto *G : snap) {
        if (!done.insert(G).second) continue;
        more = true;
        const VarDecl *Def = G->getDefinition() ? G->getDefinition() : G;
        if (!v.D.inRoot(Def->getLocation())) continue;
        if (!f) llvm::outs() << ",\n"; f = false;
        llvm::outs() << Value(Object{{"q", v.D.qn(Def)}, {"ty", v.D.ty(Def->getType())}, {"const", Def->getType().isConstQualified()},
                                {"file", v.D.file(Def->getLocation())}, {"line", v.D.line(Def->getLocation())},
                                {"tls", Def->getTLSKind() != VarDecl::TLS_None},
                                {"init", Def->getInit() ? v.D.expr(Def->getInit()) : Value(nullptr)}});
      }
    }
    Object cs; for (auto &c : v.D.Callees) cs[c.first] = c.second;
    llvm::outs() << "],\n\"callees\":" << Value(std::move(cs)) << "}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<C>(); }
};
int main(int argc, const char **argv) {
  // kai-extract ROOT FILE [--map PATH CONTENT-FILE]... -- flags...
  Root = argv[1]; Driver = argv[2];
  std::vector<std::string> fl;
  std::vector<std::pair<std::string, std::string>> maps;
  int k = 3;
  for (; k + 2 < argc && std::string(argv[k]) == "--map"; k += 3) {
    auto B = llvm::MemoryBuffer::getFile(argv[k + 2]);
    if (!B) return 3;
    maps.push_back({argv[k + 1], (*B)->getBuffer().str()});
  }
  for (int i = k + 1; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", fl);
  tooling::ClangTool T(DB, {argv[2]});
  for (auto &m : maps) T.mapVirtualFile(m.first, m.second);
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
