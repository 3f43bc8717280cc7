// cn24ast: dumps the type-resolved syntax tree of every function, record and global that is
// spelled in the analysed repository as compact JSON lines. Only facts clang computed are
// emitted (resolved callees, canonical types, macro provenance, OpenMP directives).
//   cn24ast --root=/repo --out=FILE file.cpp... -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo";
static llvm::raw_fd_ostream *Out = nullptr;
static std::set<std::string> SeenFn, SeenRec, SeenVar;

class Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  int NextId = 1;

public:
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    return Ids[D] = NextId++;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    if (!P.empty()) {
      SM.getFileManager().makeAbsolutePath(P);
      llvm::sys::path::remove_dots(P, true);
    }
    return std::string(P.str());
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = file(L);
    return F.rfind(Root + "/", 0) == 0;
  }
  std::string rel(SourceLocation L) {
    std::string F = file(L);
    if (F.rfind(Root + "/", 0) == 0) return F.substr(Root.size() + 1);
    return F;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string macro(SourceLocation L) {
    std::string Name;
    while (L.isMacroID()) {
      Name = std::string(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()));
      if (SM.isMacroArgExpansion(L)) {
        // spelled as a macro argument: provenance is the caller's
        L = SM.getImmediateMacroCallerLoc(L);
        Name = "";
        continue;
      }
      L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return Name;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  json::Object node(const char *K, const Stmt *S) {
    json::Object O;
    O["k"] = K;
    SourceLocation L = S->getBeginLoc();
    if (L.isValid()) {
      O["l"] = line(L);
      if (L.isMacroID()) {
        std::string M = macro(L);
        if (!M.empty()) O["m"] = M;
      }
    }
    if (auto *E = dyn_cast<Expr>(S)) O["t"] = type(E->getType());
    return O;
  }
  json::Object fnref(const FunctionDecl *F) {
    json::Object O;
    O["q"] = qual(F);
    O["usr"] = usr(F->getTemplateInstantiationPattern() ? F->getTemplateInstantiationPattern() : F);
    const FunctionDecl *Def = nullptr;
    SourceLocation L = F->getLocation();
    if (F->hasBody(Def)) L = Def->getLocation();
    O["repo"] = inRoot(F->getLocation()) || inRoot(L);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qual(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
    }
    O["name"] = F->getDeclName().getAsString();
    O["ret"] = type(F->getReturnType());
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    return O;
  }
  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A;
    for (auto *E : R) A.push_back(expr(E));
    return A;
  }
  json::Value var(const VarDecl *V) {
    json::Object O;
    O["id"] = id(V);
    O["name"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->hasInit()) {
      O["init"] = expr(V->getInit());
      O["style"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
    }
    return O;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_BuiltinFnToFnPtr:
        return expr(X->getSubExpr());
      default: break;
      }
      json::Object O = node("cast", E);
      O["ck"] = X->getCastKindName();
      O["imp"] = true;
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = node("int", E);
      llvm::SmallString<40> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      json::Object O = node("int", E);
      O["v"] = std::to_string(X->getValue());
      O["char"] = true;
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object O = node("float", E);
      llvm::SmallString<40> S;
      X->getValue().toString(S, 17);
      O["v"] = std::string(S.str());
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = node("str", E);
      if (X->isOrdinary() || X->isUTF8()) {
        std::string S = X->getString().str();
        for (auto &ch : S) if ((unsigned char)ch >= 0x80) ch = '?';
        O["v"] = S;
      }
      return O;
    }
    if (isa<PredefinedExpr>(E)) { json::Object O = node("str", E); O["v"] = "__func__"; return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto O = node("bool", E); O["v"] = X->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto O = node("ref", E);
      const ValueDecl *D = X->getDecl();
      O["name"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "fn"; O["fn"] = fnref(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum"; O["q"] = qual(EC);
        llvm::SmallString<40> S; EC->getInitVal().toString(S, 10); O["v"] = std::string(S.str());
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) O["dk"] = "param";
        else if (V->isLocalVarDecl()) O["dk"] = "local";
        else { O["dk"] = "global"; O["q"] = qual(V);
          if (V->getType().isConstQualified() && V->getInit() && !V->getType()->isDependentType()) {
            Expr::EvalResult R;
            if (!V->getInit()->isValueDependent() && V->getInit()->EvaluateAsInt(R, C)) {
              llvm::SmallString<40> S; R.Val.getInt().toString(S, 10); O["v"] = std::string(S.str());
            }
          }
        }
        O["id"] = id(V);
      } else { O["dk"] = "other"; O["q"] = qual(D); }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto O = node("mem", E);
      const ValueDecl *D = X->getMemberDecl();
      O["b"] = expr(X->getBase());
      O["name"] = D->getNameAsString();
      O["q"] = qual(D);
      if (X->isArrow()) O["arrow"] = true;
      if (auto *F = dyn_cast<FunctionDecl>(D)) O["fn"] = fnref(F);
      else if (auto *V = dyn_cast<VarDecl>(D)) { O["static"] = true; O["id"] = id(V); }
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = node("mcall", E);
      if (auto *M = X->getMethodDecl()) O["fn"] = fnref(M);
      if (auto *B = X->getImplicitObjectArgument()) O["obj"] = expr(B);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        if (ME->isArrow()) O["arrow"] = true;
        if (ME->hasQualifier()) O["nonvirt"] = true;
      }
      O["a"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = node("opcall", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) O["fn"] = fnref(F);
      O["a"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto O = node("call", E);
      if (auto *F = X->getDirectCallee()) O["fn"] = fnref(F);
      else O["callee"] = expr(X->getCallee());
      O["a"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // elidable copies of a single temporary are transparent
      if (X->isElidable() && X->getNumArgs() == 1) return expr(X->getArg(0));
      auto O = node("construct", E);
      O["fn"] = fnref(X->getConstructor());
      O["cls"] = qual(X->getConstructor()->getParent());
      json::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto O = node("new", E);
      O["at"] = type(X->getAllocatedType());
      if (X->isArray()) { O["arr"] = true; if (X->getArraySize()) O["n"] = expr(*X->getArraySize()); }
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto O = node("delete", E);
      if (X->isArrayForm()) O["arr"] = true;
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        auto O = node("asg", E);
        StringRef Op = X->getOpcodeStr();
        O["op"] = std::string(Op.drop_back(1)); // "" for plain, "+" for += ...
        O["a"] = expr(X->getLHS());
        O["b"] = expr(X->getRHS());
        if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = type(CA->getComputationResultType());
        return O;
      }
      auto O = node("bin", E);
      O["op"] = std::string(X->getOpcodeStr());
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto O = node("un", E);
      std::string Op = std::string(UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isIncrementDecrementOp()) Op = (X->isPrefix() ? "pre" : "post") + Op;
      O["op"] = Op;
      O["a"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto O = node("cond", E);
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = node("idx", E);
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      auto O = node("cast", E);
      O["ck"] = X->getCastKindName();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto O = node("sizeof", E);
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
        llvm::SmallString<40> S; R.Val.getInt().toString(S, 10); O["v"] = std::string(S.str());
      }
      O["of"] = type(X->getTypeOfArgument());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto O = node("initlist", E);
      json::Array A;
      for (auto *I : X->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto O = node("throw", E);
      O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr);
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto O = node("lambda", E);
      auto *M = X->getCallOperator();
      json::Array P;
      for (auto *V : M->parameters()) P.push_back(var(V));
      O["params"] = std::move(P);
      O["body"] = stmt(X->getBody());
      json::Array Cap;
      for (auto &Cp : X->captures()) {
        if (Cp.capturesThis()) Cap.push_back("this");
        else if (Cp.capturesVariable()) {
          json::Object CO; CO["id"] = id(Cp.getCapturedVar()); CO["name"] = Cp.getCapturedVar()->getNameAsString();
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef; Cap.push_back(std::move(CO));
        }
      }
      O["cap"] = std::move(Cap);
      return O;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      auto O = node("zero", E);
      return O;
    }
    if (isa<CXXTypeidExpr>(E)) { auto O = node("typeid", E); return O; }
    auto O = node("unk", E);
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *Ch : E->children()) if (Ch) { if (auto *X = dyn_cast<Expr>(Ch)) A.push_back(expr(X)); else A.push_back(stmt(Ch)); }
    O["a"] = std::move(A);
    return O;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto O = node("compound", S);
      O["el"] = line(X->getRBracLoc());
      json::Array A;
      for (auto *Ch : X->body()) A.push_back(stmt(Ch));
      O["s"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto O = node("decl", S);
      json::Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto O = node("if", S);
      if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["th"] = stmt(X->getThen());
      if (X->getElse()) O["el"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto O = node("for", S);
      O["i"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["n"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto O = node("while", S);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      auto O = node("do", S);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto O = node("rangefor", S);
      O["v"] = var(X->getLoopVariable());
      O["r"] = expr(X->getRangeInit());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      auto O = node("return", S);
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("nullstmt", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto O = node("switch", S);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      auto O = node("case", S);
      O["v"] = expr(X->getLHS());
      Expr::EvalResult R;
      if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) {
        llvm::SmallString<40> Str; R.Val.getInt().toString(Str, 10); O["cv"] = std::string(Str.str());
      }
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      auto O = node("default", S);
      O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto O = node("try", S);
      O["b"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        json::Object HO;
        auto *Hd = X->getHandler(i);
        HO["t"] = Hd->getExceptionDecl() ? type(Hd->getCaughtType()) : "...";
        if (Hd->getExceptionDecl()) HO["v"] = var(Hd->getExceptionDecl());
        HO["b"] = stmt(Hd->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      auto O = node("omp", S);
      O["dir"] = X->getStmtClassName();
      json::Array Cl;
      for (auto *Cs : X->clauses()) {
        json::Object CO;
        CO["c"] = llvm::omp::getOpenMPClauseName(Cs->getClauseKind()).str();
        json::Array Vs;
        for (auto *Ch : Cs->children()) if (Ch) if (auto *Ex = dyn_cast<Expr>(Ch)) Vs.push_back(expr(Ex));
        CO["v"] = std::move(Vs);
        Cl.push_back(std::move(CO));
      }
      O["clauses"] = std::move(Cl);
      if (X->hasAssociatedStmt()) O["b"] = stmt(X->getInnermostCapturedStmt()->getCapturedStmt());
      return O;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto O = node("label", S); O["b"] = stmt(X->getSubStmt()); return O; }
    auto O = node("unk", S);
    O["cls"] = S->getStmtClassName();
    return O;
  }
  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
    if (F->isImplicit() || F->isDefaulted() || F->isDeleted()) return;
    if (!inRoot(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    json::Object O = fnref(F);
    std::string Key = O["usr"].getAsString()->str();
    if (F->isTemplateInstantiation()) Key += "#" + type(F->getType());
    Key += "@" + rel(F->getLocation());
    if (!SeenFn.insert(Key).second) return;
    O["rec"] = "fn";
    O["file"] = rel(F->getLocation());
    O["line"] = line(F->getLocation());
    O["end"] = line(F->getEndLoc());
    if (!F->isExternallyVisible()) O["internal"] = true;
    if (F->hasAttr<OpenCLKernelAttr>()) O["kernel"] = true;
    json::Array P;
    for (auto *V : F->parameters()) P.push_back(var(V));
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(qual(B));
      O["over"] = std::move(Ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      if (K->isCopyConstructor()) O["copyctor"] = true;
      if (K->isMoveConstructor()) O["movector"] = true;
      json::Array I;
      for (auto *In : K->inits()) {
        json::Object IO;
        if (In->isMemberInitializer()) IO["field"] = In->getMember()->getNameAsString();
        else if (In->isBaseInitializer()) IO["base"] = type(QualType(In->getBaseClass(), 0));
        else if (In->isDelegatingInitializer()) IO["delegate"] = true;
        IO["written"] = In->isWritten();
        IO["l"] = line(In->getSourceLocation());
        IO["e"] = expr(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    *Out << json::Value(std::move(O)) << "\n";
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || R->isImplicit()) return;
    if (!inRoot(R->getLocation())) return;
    std::string Q = qual(R);
    if (!SeenRec.insert(Q).second) return;
    json::Object O;
    O["rec"] = "record";
    O["q"] = Q;
    O["file"] = rel(R->getLocation());
    O["line"] = line(R->getLocation());
    json::Array F;
    for (auto *Fd : R->fields()) {
      json::Object FO;
      FO["name"] = Fd->getNameAsString();
      FO["t"] = type(Fd->getType());
      FO["l"] = line(Fd->getLocation());
      if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) FO["init"] = expr(Fd->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (auto &Bs : R->bases()) B.push_back(type(Bs.getType()));
    O["bases"] = std::move(B);
    json::Array M;
    for (auto *Md : R->methods()) {
      json::Object MO = fnref(Md);
      if (Md->isPureVirtual()) MO["pure"] = true;
      if (Md->isImplicit()) MO["implicit"] = true;
      if (Md->isDeleted()) MO["deleted"] = true;
      if (Md->isDefaulted()) MO["defaulted"] = true;
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    *Out << json::Value(std::move(O)) << "\n";
  }
  void cstruct(const RecordDecl *) {}
  void global(const VarDecl *V) {
    if (!V->isFileVarDecl() || !inRoot(V->getLocation())) return;
    std::string Q = qual(V);
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (!SeenVar.insert(Q + "@" + rel(V->getLocation())).second) return;
    json::Object O;
    O["rec"] = "global";
    O["q"] = Q;
    O["t"] = type(V->getType());
    O["file"] = rel(V->getLocation());
    O["line"] = line(V->getLocation());
    if (V->hasInit()) O["init"] = expr(V->getInit());
    *Out << json::Value(std::move(O)) << "\n";
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper &D;
public:
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *X) { if (!isa<ParmVarDecl>(X)) D.global(X); return true; }
};
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V Vis(D);
    SourceManager &SM = C.getSourceManager();
    json::Object O;
    O["rec"] = "tu";
    auto FE = SM.getFileEntryRefForID(SM.getMainFileID());
    O["file"] = FE ? FE->getName().str() : "";
    O["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    *Out << json::Value(std::move(O)) << "\n";
    Vis.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char **argv) {
  std::vector<std::string> Files, Flags;
  std::string OutName;
  bool After = false;
  for (int i = 1; i < argc; i++) {
    std::string A = argv[i];
    if (After) Flags.push_back(A);
    else if (A == "--") After = true;
    else if (A.rfind("--root=", 0) == 0) Root = A.substr(7);
    else if (A.rfind("--out=", 0) == 0) OutName = A.substr(6);
    else Files.push_back(A);
  }
  std::error_code EC;
  llvm::raw_fd_ostream OS(OutName, EC);
  if (EC) { llvm::errs() << "cannot write " << OutName << "\n"; return 2; }
  Out = &OS;
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, Files);
  T.setPrintErrorMessage(false);
  int R = T.run(tooling::newFrontendActionFactory<Action>().get());
  return R;
}
