// podioir: dumps a control-flow-graph based intermediate representation of all
// functions (including template instantiations, lambdas and compiler generated
// special members) whose definition lives below one of the given root folders.
//
// usage: podioir OUT.json root1,root2,... -- <clang args> file.cc
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {
int64_t toI64(const llvm::APSInt& V) {
  return V.isSigned() ? V.getSExtValue() : (int64_t)V.getLimitedValue();
}
class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  explicit Dumper(ASTContext& C, llvm::raw_ostream& OS) : Ctx(C), SM(C.getSourceManager()), OS(OS), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool VisitFunctionDecl(FunctionDecl* FD) {
    handleFunction(FD);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* LE) {
    if (auto* M = LE->getCallOperator()) {
      handleFunction(M);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* RD) {
    handleRecord(RD);
    return true;
  }
  bool VisitVarDecl(VarDecl* VD) {
    if (VD->isLocalVarDecl() || isa<ParmVarDecl>(VD) || !VD->hasGlobalStorage())
      return true;
    if (VD->getDeclContext()->isDependentContext() || VD->getType()->isDependentType())
      return true;
    if (!inRoots(VD->getLocation()))
      return true;
    handleGlobal(VD);
    return true;
  }

  void finish() {}

private:
  ASTContext& Ctx;
  SourceManager& SM;
  llvm::raw_ostream& OS;
  PrintingPolicy PP;
  std::set<const Decl*> Done;
  std::set<std::string> DoneUSR;
  std::set<const CXXRecordDecl*> DoneRec;
  std::map<const Stmt*, int> Ids;
  int NextId = 0;
  // per function
  json::Array* Nodes = nullptr;
  std::map<const Stmt*, int> NodeOf;
  std::map<const VarDecl*, std::string> VarNames;
  std::map<std::string, int> VarCount;

  std::string fileOf(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int lineOf(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid())
      return false;
    auto F = fileOf(L);
    for (auto& R : Roots)
      if (F.rfind(R, 0) == 0)
        return true;
    return false;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string usr(const Decl* D) {
    llvm::SmallString<256> Buf;
    if (index::generateUSRForDecl(D, Buf))
      return "?" + std::to_string((uintptr_t)D);
    return std::string(Buf);
  }
  std::string fid(const FunctionDecl* FD) {
    FD = FD->getCanonicalDecl();
    if (auto* M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda()) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(M->getParent()->getBeginLoc()));
        // lambdas in templates: one per instantiation
        return "lambda@" + std::to_string((uintptr_t)M) + "@" + std::to_string(P.isValid() ? P.getLine() : 0);
      }
    return usr(FD);
  }
  std::string recName(const CXXRecordDecl* RD) { return ty(Ctx.getRecordType(RD)); }

  std::string varName(const VarDecl* VD) {
    VD = VD->getCanonicalDecl();
    auto It = VarNames.find(VD);
    if (It != VarNames.end())
      return It->second;
    std::string N = VD->getNameAsString();
    if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
      N = "::" + VD->getQualifiedNameAsString();
    } else {
      N += "@" + std::to_string(VD->getLocation().getRawEncoding());
      if (VD->isStaticLocal())
        N = "static " + N;
      // the elements of a parameter pack are all declared at the same place
      if (auto* P = dyn_cast<ParmVarDecl>(VD))
        if (auto* FD = dyn_cast_or_null<FunctionDecl>(P->getDeclContext()))
          for (auto* Q : FD->parameters())
            if (Q != P && Q->getLocation() == P->getLocation()) {
              N += "." + std::to_string(P->getFunctionScopeIndex());
              break;
            }
    }
    VarNames[VD] = N;
    return N;
  }

  json::Object funcRef(const FunctionDecl* FD) {
    json::Object O;
    O["id"] = fid(FD);
    O["n"] = FD->getNameAsString();
    O["q"] = FD->getQualifiedNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["rec"] = recName(M->getParent());
      if (M->isStatic())
        O["static"] = true;
      if (M->isVirtual())
        O["virt"] = true;
      if (M->isConst())
        O["const"] = true;
      if (M->getParent()->isLambda())
        O["lambda"] = true;
    }
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto& T : TA->asArray())
        A.push_back(targ(T));
      O["targs"] = std::move(A);
    }
    json::Array PT;
    for (auto* P : FD->parameters())
      PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    O["rt"] = ty(FD->getReturnType());
    if (FD->isNoReturn())
      O["noret"] = true;
    if (FD->isOverloadedOperator())
      O["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    return O;
  }
  std::string targ(const TemplateArgument& T) {
    std::string S;
    llvm::raw_string_ostream OSS(S);
    if (T.getKind() == TemplateArgument::Type)
      return ty(T.getAsType());
    T.print(PP, OSS, true);
    return OSS.str();
  }

  // does a conversion between arithmetic types lose values
  bool lossy(const CastExpr* C) {
    QualType To = C->getType(), From = C->getSubExpr()->getType();
    if (To->isDependentType() || From->isDependentType())
      return false;
    auto Mantissa = [&](QualType T) { return llvm::APFloat::semanticsPrecision(Ctx.getFloatTypeSemantics(T)); };
    switch (C->getCastKind()) {
    case CK_IntegralCast: {
      if (To->isBooleanType() || C->getSubExpr()->isValueDependent() || C->getSubExpr()->isEvaluatable(Ctx))
        return false;
      return Ctx.getIntWidth(To) < Ctx.getIntWidth(From);
    }
    case CK_FloatingToIntegral:
      return true;
    case CK_FloatingCast:
      return Mantissa(To) < Mantissa(From) && !isa<FloatingLiteral>(C->getSubExpr()->IgnoreParens());
    case CK_IntegralToFloating:
      return Mantissa(To) < Ctx.getIntWidth(From) && !C->getSubExpr()->isValueDependent() &&
          !C->getSubExpr()->isEvaluatable(Ctx);
    default:
      return false;
    }
  }

  // strip everything that does not change the denoted value/location, but keep
  // loads and user visible casts
  const Expr* strip(const Expr* E) {
    while (true) {
      if (auto* P = dyn_cast<ParenExpr>(E)) {
        E = P->getSubExpr();
      } else if (auto* C = dyn_cast<ConstantExpr>(E)) {
        E = C->getSubExpr();
      } else if (auto* M = dyn_cast<MaterializeTemporaryExpr>(E)) {
        E = M->getSubExpr();
      } else if (auto* B = dyn_cast<CXXBindTemporaryExpr>(E)) {
        E = B->getSubExpr();
      } else if (auto* X = dyn_cast<ExprWithCleanups>(E)) {
        E = X->getSubExpr();
      } else if (auto* D = dyn_cast<CXXDefaultArgExpr>(E)) {
        E = D->getExpr();
      } else if (auto* D = dyn_cast<CXXDefaultInitExpr>(E)) {
        E = D->getExpr();
      } else if (auto* S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
        E = S->getReplacement();
      } else if (auto* I = dyn_cast<CXXStdInitializerListExpr>(E)) {
        E = I->getSubExpr();
      } else if (auto* I = dyn_cast<ImplicitCastExpr>(E)) {
        if (I->getCastKind() == CK_LValueToRValue || lossy(I))
          return E;
        E = I->getSubExpr();
      } else {
        return E;
      }
    }
  }

  // returns the node id, emitting the node if it was not yet seen
  int ref(const Expr* E) {
    if (!E)
      return -1;
    E = strip(E);
    auto It = NodeOf.find(E);
    if (It != NodeOf.end())
      return It->second;
    return -2 - pend(E); // evaluated on demand
  }
  std::map<const Stmt*, int> PendIdx;
  json::Array* Pend = nullptr;
  // expressions that are not CFG elements themselves (e.g. default arguments)
  int pend(const Expr* E) {
    auto It = PendIdx.find(E);
    if (It != PendIdx.end())
      return It->second;
    int I = PendIdx.size();
    PendIdx[E] = I;
    PendOrder.push_back(E);
    return I;
  }
  std::vector<const Expr*> PendOrder;

  void setLoc(json::Object& O, const Stmt* S) {
    O["l"] = lineOf(S->getBeginLoc());
  }

  json::Object lambdaObj(const LambdaExpr* LE) {
    json::Object O;
    O["k"] = "lambda";
    O["fn"] = fid(LE->getCallOperator());
    if (auto* FT = LE->getCallOperator()->getDescribedFunctionTemplate()) {
      // generic lambda: only unique instantiations can be followed
      const FunctionDecl* One = nullptr;
      int N = 0;
      for (auto* S : FT->specializations()) {
        One = S;
        ++N;
      }
      if (N == 1)
        O["fn"] = fid(One);
    }
    json::Array Caps;
    auto InitIt = LE->capture_init_begin();
    for (auto& C : LE->captures()) {
      json::Object CO;
      if (C.capturesThis()) {
        CO["this"] = true;
      } else if (C.capturesVariable()) {
        CO["var"] = varName(cast<VarDecl>(C.getCapturedVar()));
        CO["ref"] = C.getCaptureKind() == LCK_ByRef;
        if (C.getCapturedVar()->isInitCapture())
          CO["init"] = ref(*InitIt);
      }
      ++InitIt;
      Caps.push_back(std::move(CO));
    }
    O["caps"] = std::move(Caps);
    return O;
  }

  bool emitExpr(const Expr* E, json::Object& O) {
    O["t"] = ty(E->getType());
    if (E->isLValue())
      O["lv"] = true;
    else if (E->isXValue())
      O["xv"] = true;
    if (auto* X = dyn_cast<ImplicitCastExpr>(E); X && X->getCastKind() != CK_LValueToRValue) {
      O["k"] = "cast";
      O["ck"] = "implicit";
      O["ckk"] = X->getCastKindName();
      O["lossy"] = true;
      O["x"] = ref(X->getSubExpr());
      O["st"] = ty(X->getSubExpr()->getType());
    } else if (X) {
      O["k"] = "load";
      O["x"] = ref(X->getSubExpr());
    } else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      if (auto* VD = dyn_cast<VarDecl>(X->getDecl())) {
        O["k"] = "var";
        O["v"] = varName(VD);
        if (VD->getType()->isReferenceType())
          O["isref"] = true;
        if (VD->hasGlobalStorage())
          O["glob"] = true;
        if (VD->hasGlobalStorage() || VD->isConstexpr()) {
          Expr::EvalResult R;
          if (!E->isValueDependent() && VD->getType().isConstQualified() && !VD->getType()->isReferenceType() &&
              VD->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, Ctx))
            O["cv"] = toI64(R.Val.getInt());
        }
      } else if (auto* BD = dyn_cast<BindingDecl>(X->getDecl())) {
        O["k"] = "binding";
        O["n"] = BD->getNameAsString();
        O["v"] = varName(cast<VarDecl>(BD->getDecomposedDecl()));
        if (auto* HV = BD->getHoldingVar()) {
          auto* R = cast<VarDecl>(BD->getDecomposedDecl())->getType().getNonReferenceType()->getAsCXXRecordDecl();
          if (R && !R->isInStdNamespace()) {
            O["k"] = "var";
            O["v"] = varName(HV);
          }
        }
        int Idx = 0;
        for (auto* B : cast<DecompositionDecl>(BD->getDecomposedDecl())->bindings()) {
          if (B == BD)
            break;
          Idx++;
        }
        O["i"] = Idx;
        if (auto* BE = BD->getBinding())
          if (auto* ME = dyn_cast<MemberExpr>(BE->IgnoreParenImpCasts()))
            O["f"] = ME->getMemberDecl()->getNameAsString();
      } else if (auto* FD = dyn_cast<FunctionDecl>(X->getDecl())) {
        O["k"] = "fref";
        O["f"] = funcRef(FD);
      } else if (auto* FD = dyn_cast<FieldDecl>(X->getDecl())) {
        O["k"] = "fieldref";
        O["f"] = FD->getNameAsString();
      } else if (auto* EC = dyn_cast<EnumConstantDecl>(X->getDecl())) {
        O["k"] = "lit";
        O["val"] = "enum:" + EC->getQualifiedNameAsString();
      } else {
        O["k"] = "other";
      }
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "mem";
        O["b"] = ref(X->getBase());
        O["arrow"] = X->isArrow();
        O["f"] = FD->getNameAsString();
        O["rec"] = recName(cast<CXXRecordDecl>(FD->getParent()));
        if (FD->getType()->isReferenceType())
          O["isref"] = true;
      } else if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "var";
        O["v"] = varName(VD);
        O["glob"] = true;
        Expr::EvalResult R;
        if (VD->getType().isConstQualified() && !VD->getType()->isReferenceType() &&
            VD->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, Ctx))
          O["cv"] = toI64(R.Val.getInt());
      } else {
        O["k"] = "method";
        O["b"] = ref(X->getBase());
        O["arrow"] = X->isArrow();
      }
    } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call";
      if (auto* FD = X->getDirectCallee())
        O["f"] = funcRef(FD);
      json::Array A;
      unsigned First = 0;
      if (auto* M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee()); M && !M->isStatic()) {
        O["obj"] = ref(X->getArg(0));
        First = 1;
      }
      for (unsigned I = First; I < X->getNumArgs(); ++I)
        A.push_back(ref(X->getArg(I)));
      O["a"] = std::move(A);
      O["opc"] = true;
    } else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto* FD = X->getMethodDecl())
        O["f"] = funcRef(FD);
      if (X->getImplicitObjectArgument()) {
        O["obj"] = ref(X->getImplicitObjectArgument());
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier())
            O["qual"] = true;
        }
      }
      json::Array A;
      for (auto* Arg : X->arguments())
        A.push_back(ref(Arg));
      O["a"] = std::move(A);
    } else if (std::string Lit; isa<CallExpr>(E) && immediateString(cast<CallExpr>(E), Lit)) {
      O["k"] = "lit";
      O["val"] = "str:" + jsonSafe(Lit);
    } else if (auto* X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto* FD = X->getDirectCallee())
        O["f"] = funcRef(FD);
      else
        O["callee"] = ref(X->getCallee());
      json::Array A;
      for (auto* Arg : X->arguments())
        A.push_back(ref(Arg));
      O["a"] = std::move(A);
    } else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor";
      O["f"] = funcRef(X->getConstructor());
      auto* CD = X->getConstructor();
      O["ct"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      if (CD->isImplicit() || CD->isDefaulted())
        O["trivial"] = true;
      json::Array A;
      for (auto* Arg : X->arguments())
        A.push_back(ref(Arg));
      O["a"] = std::move(A);
    } else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "ctor";
      O["f"] = funcRef(X->getConstructor());
      O["ct"] = "other";
      O["a"] = json::Array();
    } else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = ty(X->getAllocatedType());
      if (X->isArray())
        O["arr"] = true;
      if (X->getInitializer())
        O["init"] = ref(X->getInitializer());
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["x"] = ref(X->getArgument());
      O["dt"] = ty(X->getDestroyedType());
    } else if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "asg";
      O["op"] = std::string(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())));
      O["x"] = ref(X->getLHS());
      O["y"] = ref(X->getRHS());
    } else if (auto* X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) {
        O["k"] = "asg";
      } else if (X->isLogicalOp()) {
        O["k"] = "logic";
        O["op"] = X->getOpcode() == BO_LAnd ? "&&" : "||";
      } else if (X->getOpcode() == BO_Comma) {
        O["k"] = "alias";
        O["op"] = ",";
        O["x"] = ref(X->getRHS());
        return true;
      } else {
        O["k"] = "bin";
        O["op"] = std::string(X->getOpcodeStr());
      }
      O["x"] = ref(X->getLHS());
      O["y"] = ref(X->getRHS());
    } else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      O["k"] = "alias";
      O["x"] = ref(X->getSemanticForm());
    } else if (auto* X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      O["op"] = std::string(UnaryOperator::getOpcodeStr(X->getOpcode()));
      O["post"] = X->isPostfix();
      O["x"] = ref(X->getSubExpr());
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "idx";
      O["x"] = ref(X->getBase());
      O["y"] = ref(X->getIdx());
    } else if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "sel";
      O["c"] = ref(X->getCond());
      O["x"] = ref(X->getTrueExpr());
      O["y"] = ref(X->getFalseExpr());
    } else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
      O["k"] = "alias";
      O["x"] = ref(X->getSourceExpr());
    } else if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "lit";
      if (X->getType()->isUnsignedIntegerType())
        O["val"] = (int64_t)X->getValue().getLimitedValue();
      else
        O["val"] = X->getValue().getSExtValue();
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "lit";
      O["val"] = X->getValue();
    } else if (auto* X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "lit";
      O["val"] = "str:" + (X->isOrdinary() || X->isUTF8() ? jsonSafe(X->getString().str()) : std::string("?"));
    } else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "lit";
      O["val"] = (int64_t)X->getValue();
    } else if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "lit";
      O["val"] = X->getValueAsApproximateDouble();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "lit";
      O["val"] = nullptr;
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto* X = dyn_cast<InitListExpr>(E)) {
      auto* S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"] = "ilist";
      json::Array A;
      for (auto* I : S->inits())
        A.push_back(ref(I));
      O["a"] = std::move(A);
      if (auto* RD = S->getType()->getAsCXXRecordDecl()) {
        json::Array F;
        for (auto& B : RD->bases())
          (void)B, F.push_back("<base>");
        for (auto* Fd : RD->fields())
          F.push_back(Fd->getNameAsString());
        O["fs"] = std::move(F);
        O["rec"] = recName(RD);
      }
    } else if (auto* X = dyn_cast<CXXParenListInitExpr>(E)) {
      O["k"] = "ilist";
      json::Array A;
      for (auto* I : X->getInitExprs())
        A.push_back(ref(I));
      O["a"] = std::move(A);
      if (auto* RD = X->getType()->getAsCXXRecordDecl()) {
        json::Array F;
        for (auto* Fd : RD->fields())
          F.push_back(Fd->getNameAsString());
        O["fs"] = std::move(F);
        O["rec"] = recName(RD);
      }
    } else if (auto* X = dyn_cast<LambdaExpr>(E)) {
      auto L = lambdaObj(X);
      for (auto& KV : L)
        O[KV.first] = std::move(KV.second);
    } else if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = isa<CXXDynamicCastExpr>(E)       ? "dynamic"
          : isa<CXXReinterpretCastExpr>(E)       ? "reinterpret"
          : isa<CXXConstCastExpr>(E)             ? "const"
          : isa<CXXStaticCastExpr>(E)            ? "static"
          : isa<CXXFunctionalCastExpr>(E)        ? "functional"
                                                 : "c";
      O["ckk"] = X->getCastKindName();
      if (lossy(X))
        O["lossy"] = true;
      O["x"] = ref(X->getSubExpr());
      O["st"] = ty(X->getSubExpr()->getType());
    } else if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      if (X->getSubExpr()) {
        O["x"] = ref(X->getSubExpr());
        O["et"] = ty(X->getSubExpr()->getType());
      }
    } else if (auto* X = dyn_cast<CXXTypeidExpr>(E)) {
      O["k"] = "typeid";
      if (X->isTypeOperand())
        O["ty"] = ty(X->getTypeOperand(Ctx));
      else
        O["x"] = ref(X->getExprOperand());
    } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      O["k"] = "lit";
      if (!X->isValueDependent() && X->EvaluateAsInt(R, Ctx))
        O["val"] = toI64(R.Val.getInt());
      else
        O["val"] = "sizeof";
    } else if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) {
      O["k"] = "lit";
      O["val"] = X->getValue();
    } else if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
      O["k"] = "lit";
      O["val"] = X->isValueDependent() ? false : X->getValue();
    } else if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) {
      O["k"] = "alias";
      O["x"] = ref(X->getCommonExpr()->getSourceExpr());
    } else if (auto* X = dyn_cast<StmtExpr>(E)) {
      O["k"] = "other";
      (void)X;
    } else if (auto* X = dyn_cast<ConceptSpecializationExpr>(E)) {
      O["k"] = "lit";
      O["val"] = X->isValueDependent() ? false : X->isSatisfied();
    } else if (isa<RequiresExpr>(E)) {
      O["k"] = "lit";
      O["val"] = E->isValueDependent() ? false : cast<RequiresExpr>(E)->isSatisfied();
    } else {
      O["k"] = "other";
      O["cls"] = E->getStmtClassName();
      json::Array A;
      for (auto* C : E->children())
        if (auto* CE = dyn_cast_or_null<Expr>(C))
          A.push_back(ref(CE));
      O["a"] = std::move(A);
    }
    return true;
  }
  std::string jsonSafe(std::string S) {
    if (S.size() > 400)
      S = S.substr(0, 400);
    return json::fixUTF8(S);
  }

  void emitStmt(const Stmt* S, json::Array& Out) {
    if (auto* E = dyn_cast<Expr>(S)) {
      const Expr* St = strip(E);
      if (St != E)
        return; // aliased
      if (NodeOf.count(E))
        return;
      int Id = NextId++;
      json::Object O;
      emitExpr(E, O);
      NodeOf[E] = Id;
      O["i"] = Id;
      if (O.find("i") != O.end() && O.getString("k") && *O.getString("k") == "binding") {
      }
      setLoc(O, E);
      Out.push_back(std::move(O));
    } else if (auto* R = dyn_cast<ReturnStmt>(S)) {
      json::Object O;
      O["k"] = "ret";
      if (R->getRetValue())
        O["x"] = ref(R->getRetValue());
      O["i"] = NextId++;
      setLoc(O, S);
      Out.push_back(std::move(O));
    } else if (auto* D = dyn_cast<DeclStmt>(S)) {
      for (auto* Dc : D->decls())
        if (auto* VD = dyn_cast<VarDecl>(Dc)) {
          json::Object O;
          O["k"] = "decl";
          O["v"] = varName(VD);
          O["t"] = ty(VD->getType());
          if (VD->getType()->isReferenceType())
            O["isref"] = true;
          if (VD->isStaticLocal())
            O["static"] = true;
          if (VD->getInit())
            O["x"] = ref(VD->getInit());
          O["i"] = NextId++;
          setLoc(O, S);
          if (auto* DD = dyn_cast<DecompositionDecl>(VD)) {
            json::Array B;
            for (auto* Bd : DD->bindings())
              B.push_back(Bd->getNameAsString());
            O["bind"] = std::move(B);
            // holding vars (tuple like)
            for (auto* Bd : DD->bindings())
              (void)Bd;
          }
          Out.push_back(std::move(O));
        }
    }
  }

  void handleFunction(FunctionDecl* FD) {
    if (!FD->isThisDeclarationADefinition() && !FD->isDefaulted())
      return;
    if (FD->isDependentContext())
      return;
    if (FD->isDeleted())
      return;
    const Stmt* Body = FD->getBody();
    if (!Body)
      return;
    if (!inRoots(FD->getLocation()))
      return;
    if (!Done.insert(FD->getCanonicalDecl()).second)
      return;
    if (FD->getDescribedFunctionTemplate())
      return;
    if (FD->isConsteval()) return;

    NodeOf.clear();
    VarNames.clear();
    VarCount.clear();
    PendIdx.clear();
    PendOrder.clear();
    NextId = 0;

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = false;
    BO.PruneTriviallyFalseEdges = true;
    auto Cfg = CFG::buildCFG(FD, const_cast<Stmt*>(Body), &Ctx, BO);
    if (!Cfg) {
      llvm::errs() << "no CFG for " << FD->getQualifiedNameAsString() << "\n";
      return;
    }
    json::Object F;
    auto FR = funcRef(FD);
    for (auto& KV : FR)
      F[KV.first] = std::move(KV.second);
    F["file"] = fileOf(FD->getLocation());
    F["line"] = lineOf(FD->getLocation());
    if (FD->isDefaulted())
      F["defaulted"] = true;
    if (FD->isImplicit())
      F["implicit"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      F["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
    }
    if (isa<CXXConstructorDecl>(FD)) {
      auto* CD = cast<CXXConstructorDecl>(FD);
      F["kind"] = CD->isCopyConstructor() ? "copyctor" : CD->isMoveConstructor() ? "movector" : "ctor";
    } else if (isa<CXXDestructorDecl>(FD)) {
      F["kind"] = "dtor";
    } else if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      F["kind"] = M->isCopyAssignmentOperator() ? "copyasg" : M->isMoveAssignmentOperator() ? "moveasg" : "method";
      if (M->getRefQualifier() == RQ_RValue)
        F["refq"] = "&&";
    } else {
      F["kind"] = "func";
    }
    json::Array Ps;
    for (auto* P : FD->parameters()) {
      json::Object PO;
      PO["v"] = varName(P);
      PO["t"] = ty(P->getType());
      PO["isref"] = P->getType()->isReferenceType();
      if (P->hasDefaultArg())
        PO["def"] = true;
      Ps.push_back(std::move(PO));
    }
    F["params"] = std::move(Ps);

    emitBody(F, *Cfg);
  }

  void emitBody(json::Object& F, CFG& G) {
    CFG* Cfg = &G;
    json::Array Blocks;
    // order: reverse post order so that operands are numbered before uses
    std::vector<const CFGBlock*> Order;
    {
      std::set<const CFGBlock*> Seen;
      std::vector<std::pair<const CFGBlock*, CFGBlock::const_succ_iterator>> St;
      const CFGBlock* En = &Cfg->getEntry();
      Seen.insert(En);
      St.push_back({En, En->succ_begin()});
      std::vector<const CFGBlock*> Post;
      while (!St.empty()) {
        auto& [B, It] = St.back();
        if (It == B->succ_end()) {
          Post.push_back(B);
          St.pop_back();
          continue;
        }
        const CFGBlock* N = It->getReachableBlock();
        ++It;
        if (N && Seen.insert(N).second)
          St.push_back({N, N->succ_begin()});
      }
      Order.assign(Post.rbegin(), Post.rend());
      // try dispatch blocks (handlers) are not reachable through normal edges
      for (auto* B : *Cfg)
        if (!Seen.count(B))
          Order.push_back(B);
    }
    std::map<unsigned, std::set<unsigned>> Dummy;
    for (auto* B : Order) {
      json::Object BOj;
      BOj["b"] = (int64_t)B->getBlockID();
      json::Array Els;
      for (auto& El : *B) {
        if (auto S = El.getAs<CFGStmt>()) {
          emitStmt(S->getStmt(), Els);
        } else if (auto I = El.getAs<CFGInitializer>()) {
          auto* CI = I->getInitializer();
          json::Object O;
          O["k"] = "minit";
          if (CI->isAnyMemberInitializer()) {
            O["f"] = CI->getAnyMember()->getNameAsString();
            O["rec"] = recName(cast<CXXRecordDecl>(CI->getAnyMember()->getParent()));
            if (CI->getAnyMember()->getType()->isReferenceType())
              O["isref"] = true;
          } else if (CI->isDelegatingInitializer()) {
            O["deleg"] = true;
          } else {
            O["base"] = ty(QualType(CI->getBaseClass(), 0));
          }
          O["x"] = ref(CI->getInit());
          O["l"] = lineOf(CI->getSourceLocation());
          O["w"] = CI->isWritten();
          O["i"] = NextId++;
          Els.push_back(std::move(O));
        } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
          json::Object O;
          O["k"] = "dtor";
          O["v"] = varName(D->getVarDecl());
          O["t"] = ty(D->getVarDecl()->getType());
          if (auto* DD = D->getDestructorDecl(Ctx))
            O["f"] = fid(DD);
          O["i"] = NextId++;
          Els.push_back(std::move(O));
        } else if (auto D = El.getAs<CFGMemberDtor>()) {
          json::Object O;
          O["k"] = "mdtor";
          O["f"] = D->getFieldDecl()->getNameAsString();
          O["t"] = ty(D->getFieldDecl()->getType());
          if (auto* DD = D->getDestructorDecl(Ctx))
            O["df"] = fid(DD);
          O["i"] = NextId++;
          Els.push_back(std::move(O));
        }
      }
      BOj["e"] = std::move(Els);
      json::Array Su;
      for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
        auto* N = It->getReachableBlock();
        Su.push_back(N ? (int64_t)N->getBlockID() : (int64_t)-1);
      }
      BOj["s"] = std::move(Su);
      if (auto* T = B->getTerminatorStmt()) {
        BOj["tk"] = T->getStmtClassName();
        BOj["tl"] = lineOf(T->getBeginLoc());
        const Expr* C = nullptr;
        if (B->getTerminator().isStmtBranch() || true) {
          C = B->getLastCondition();
          if (!C)
            C = dyn_cast_or_null<Expr>(B->getTerminatorCondition());
        }
        if (C)
          BOj["c"] = ref(C);
        if (auto* L = B->getLoopTarget())
          (void)L;
      }
      if (B->getLoopTarget())
        BOj["back"] = true;
      if (auto* L = B->getLabel()) {
        if (auto* CS = dyn_cast<CaseStmt>(L)) {
          BOj["case"] = ref(CS->getLHS());
          Expr::EvalResult R;
          if (!CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, Ctx))
            BOj["casev"] = toI64(R.Val.getInt());
        } else if (isa<DefaultStmt>(L)) {
          BOj["default"] = true;
        } else if (isa<CXXCatchStmt>(L)) {
          BOj["catch"] = true;
        }
      }
      if (B->hasNoReturnElement())
        BOj["noret"] = true;
      Blocks.push_back(std::move(BOj));
    }
    F["entry"] = (int64_t)Cfg->getEntry().getBlockID();
    F["exit"] = (int64_t)Cfg->getExit().getBlockID();
    F["blocks"] = std::move(Blocks);
    // on-demand expressions
    json::Array Pn;
    for (size_t I = 0; I < PendOrder.size(); ++I) {
      json::Object O;
      emitExpr(PendOrder[I], O);
      O["i"] = -2 - (int64_t)I;
      setLoc(O, PendOrder[I]);
      Pn.push_back(std::move(O));
    }
    F["pend"] = std::move(Pn);
    F["rk"] = "func";
    OS << json::Value(std::move(F)) << "\n";
  }

  // the dynamic initialisation of a global variable as a function
  void handleInit(VarDecl* VD) {
    if (VD->isConstexpr() || !VD->hasGlobalStorage() || VD->isStaticLocal() || !VD->isThisDeclarationADefinition() ||
        !VD->getInit() || VD->getDeclContext()->isDependentContext() || VD->getType()->isDependentType() ||
        VD->getInit()->isValueDependent() || VD->isInvalidDecl() || !inRoots(VD->getLocation()))
      return;
    if (VD->getInit()->isConstantInitializer(Ctx, false) || !Done.insert(VD->getCanonicalDecl()).second)
      return;
    NodeOf.clear();
    VarNames.clear();
    VarCount.clear();
    PendIdx.clear();
    PendOrder.clear();
    NextId = 0;
    auto* S = new (Ctx) DeclStmt(DeclGroupRef(VD), VD->getBeginLoc(), VD->getEndLoc());
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.PruneTriviallyFalseEdges = true;
    auto Cfg = CFG::buildCFG(VD, S, &Ctx, BO);
    if (!Cfg)
      return;
    json::Object F;
    F["id"] = "init@" + VD->getQualifiedNameAsString() + "@" + fileOf(VD->getLocation()) + ":" +
        std::to_string(lineOf(VD->getLocation())) + "@" + ty(VD->getType());
    F["n"] = "<init>";
    F["q"] = VD->getQualifiedNameAsString();
    F["kind"] = "ginit";
    F["file"] = fileOf(VD->getLocation());
    F["line"] = lineOf(VD->getLocation());
    F["params"] = json::Array();
    emitBody(F, *Cfg);
  }

  void handleGlobal(VarDecl* VD) {
    handleInit(VD);
    json::Object O;
    O["rk"] = "global";
    O["q"] = VD->getQualifiedNameAsString();
    O["t"] = ty(VD->getType());
    O["file"] = fileOf(VD->getLocation());
    O["line"] = lineOf(VD->getLocation());
    if (VD->getAnyInitializer()) {
      const Expr* I = VD->getAnyInitializer();
      std::string S;
      // collect string/integer literals in order, as well as referenced names
      json::Array Lits;
      collectLits(I, Lits, 0);
      O["lits"] = std::move(Lits);
      Expr::EvalResult R;
      if (!I->isValueDependent() && VD->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, Ctx))
        O["cv"] = toI64(R.Val.getInt());
      std::string Str;
      bool Text = O["t"].getAsString() && O["t"].getAsString()->contains("char");
      if (Text && !I->isValueDependent() && VD->isConstexpr() && !VD->getType()->isDependentType() &&
          !VD->getDeclContext()->isDependentContext() && !VD->isInvalidDecl())
        if (const VarDecl* D = nullptr; VD->getAnyInitializer(D) && D)
          if (APValue* V = D->evaluateValue())
          if (constString(*V, Str))
            O["cs"] = json::fixUTF8(Str);
    }
    OS << json::Value(std::move(O)) << "\n";
  }
  bool immediateString(const CallExpr* X, std::string& Out) {
    auto* FD = X->getDirectCallee();
    if (!FD || !FD->isConsteval() || X->isValueDependent())
      return false;
    Expr::EvalResult R;
    return X->EvaluateAsRValue(R, Ctx) && constString(R.Val, Out);
  }
  // the text of a constant that is a pointer to, or a view of, a literal
  bool constString(const APValue& V, std::string& Out) {
    const APValue* P = nullptr;
    int64_t N = -1;
    if (V.isLValue())
      P = &V;
    else if (V.isStruct())
      for (unsigned i = 0; i < V.getStructNumFields(); ++i) {
        const APValue& Fi = V.getStructField(i);
        if (Fi.isLValue())
          P = &Fi;
        else if (Fi.isInt())
          N = Fi.getInt().getExtValue();
      }
    if (!P || !P->isLValue() || P->isNullPointer() || !P->getLValueBase())
      return false;
    if (auto* D = P->getLValueBase().dyn_cast<const ValueDecl*>()) {
      // an array of characters, or a part of it
      auto* VD = dyn_cast<VarDecl>(D);
      const APValue* A = VD && VD->isConstexpr() ? VD->evaluateValue() : nullptr;
      while (A && A->isStruct() && A->getStructNumFields() == 1)
        A = &A->getStructField(0);
      if (!A || !A->isArray())
        return false;
      std::string Txt;
      for (unsigned i = 0; i < A->getArraySize(); ++i) {
        const APValue& El = i < A->getArrayInitializedElts() ? A->getArrayInitializedElt(i) : A->getArrayFiller();
        if (!El.isInt())
          return false;
        Txt += static_cast<char>(El.getInt().getExtValue());
      }
      size_t Off = P->getLValueOffset().getQuantity();
      if (Off > Txt.size())
        return false;
      Out = N >= 0 ? Txt.substr(Off, N) : std::string(Txt.substr(Off).c_str());
      return true;
    }
    const Expr* E = P->getLValueBase().dyn_cast<const Expr*>();
    const StringLiteral* L = dyn_cast_or_null<StringLiteral>(E);
    if (!L || L->getCharByteWidth() != 1)
      return false;
    size_t Off = P->getLValueOffset().getQuantity();
    if (Off > L->getLength())
      return false;
    Out = L->getString().substr(Off).str();
    if (N >= 0)
      Out = Out.substr(0, N);
    else
      Out = Out.c_str();
    return true;
  }
  void collectLits(const Stmt* S, json::Array& A, int Depth) {
    if (!S || Depth > 60)
      return;
    if (auto* L = dyn_cast<StringLiteral>(S)) {
      A.push_back("str:" + (L->isOrdinary() || L->isUTF8() ? json::fixUTF8(L->getString()) : std::string("?")));
      return;
    }
    if (auto* L = dyn_cast<IntegerLiteral>(S)) {
      A.push_back(L->getValue().getSExtValue());
      return;
    }
    if (auto* D = dyn_cast<DeclRefExpr>(S))
      A.push_back("ref:" + D->getDecl()->getQualifiedNameAsString());
    if (auto* IL = dyn_cast<InitListExpr>(S)) {
      auto* Sm = IL->isSemanticForm() ? IL : (IL->getSemanticForm() ? IL->getSemanticForm() : IL);
      json::Array Sub;
      for (auto* I : Sm->inits())
        collectLits(I, Sub, Depth + 1);
      A.push_back(std::move(Sub));
      return;
    }
    for (auto* C : S->children())
      collectLits(C, A, Depth + 1);
  }

  void handleRecord(CXXRecordDecl* RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda())
      return;
    if (!inRoots(RD->getLocation()))
      return;
    if (!DoneRec.insert(RD).second)
      return;
    if (RD->getDescribedClassTemplate())
      return;
    json::Object O;
    O["rk"] = "rec";
    O["n"] = RD->getNameAsString();
    O["q"] = RD->getQualifiedNameAsString();
    O["ty"] = recName(RD);
    O["file"] = fileOf(RD->getLocation());
    O["line"] = lineOf(RD->getLocation());
    json::Array Bs;
    for (auto& B : RD->bases()) {
      json::Object BO;
      BO["t"] = ty(B.getType());
      BO["acc"] = B.getAccessSpecifier() == AS_public ? "public" : "other";
      Bs.push_back(std::move(BO));
    }
    O["bases"] = std::move(Bs);
    json::Array Fs;
    for (auto* F : RD->fields()) {
      json::Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = ty(F->getType());
      FO["mut"] = F->isMutable();
      FO["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->hasInClassInitializer() && F->getInClassInitializer()) {
        FO["init"] = true;
        json::Array L;
        collectLits(F->getInClassInitializer(), L, 0);
        FO["lits"] = std::move(L);
      }
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Ms;
    for (auto* D : RD->decls()) {
      FunctionDecl* FD = dyn_cast<FunctionDecl>(D);
      bool Tmpl = false;
      if (!FD)
        if (auto* FT = dyn_cast<FunctionTemplateDecl>(D)) {
          FD = FT->getTemplatedDecl();
          Tmpl = true;
        }
      if (!FD)
        continue;
      auto* M = dyn_cast<CXXMethodDecl>(FD);
      if (!M)
        continue;
      json::Object MO;
      MO["n"] = M->getNameAsString();
      MO["id"] = fid(M);
      MO["const"] = M->isConst();
      MO["static"] = M->isStatic();
      MO["virt"] = M->isVirtual();
      MO["pure"] = M->isPureVirtual();
      MO["del"] = M->isDeleted();
      MO["tmpl"] = Tmpl;
      MO["line"] = lineOf(M->getLocation());
      MO["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->getRefQualifier() == RQ_RValue)
        MO["refq"] = "&&";
      else if (M->getRefQualifier() == RQ_LValue)
        MO["refq"] = "&";
      if (!Tmpl) {
        MO["rt"] = ty(M->getReturnType());
        json::Array PT;
        for (auto* P : M->parameters())
          PT.push_back(ty(P->getType()));
        MO["pt"] = std::move(PT);
      }
      if (M->isImplicit())
        MO["implicit"] = true;
      if (auto* C = dyn_cast<CXXConstructorDecl>(M)) {
        MO["kind"] = C->isCopyConstructor() ? "copyctor" : C->isMoveConstructor() ? "movector" : C->isDefaultConstructor() ? "defctor" : "ctor";
        MO["expl"] = C->isExplicit();
      } else if (isa<CXXDestructorDecl>(M))
        MO["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(M)) {
        MO["kind"] = "conv";
      } else
        MO["kind"] = M->isCopyAssignmentOperator() ? "copyasg" : M->isMoveAssignmentOperator() ? "moveasg" : "method";
      if (M->size_overridden_methods()) {
        json::Array Ov;
        for (auto* OM : M->overridden_methods())
          Ov.push_back(fid(OM));
        MO["ov"] = std::move(Ov);
      }
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    json::Array Fr;
    for (auto* F : RD->friends()) {
      if (auto* T = F->getFriendType())
        Fr.push_back(ty(T->getType()));
      else if (auto* ND = F->getFriendDecl())
        Fr.push_back(ND->getQualifiedNameAsString());
    }
    O["friends"] = std::move(Fr);
    OS << json::Value(std::move(O)) << "\n";
  }
};

class Consumer : public ASTConsumer {
public:
  Consumer(llvm::raw_ostream& OS) : OS(OS) {}
  void HandleTranslationUnit(ASTContext& Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred())
      return;
    Dumper D(Ctx, OS);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
  }
  llvm::raw_ostream& OS;
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    if (!OS) {
      std::error_code EC;
      OS = std::make_unique<llvm::raw_fd_ostream>(OutFile, EC);
    }
    return std::make_unique<Consumer>(*OS);
  }
  std::unique_ptr<llvm::raw_fd_ostream> OS;
};
} // namespace

int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: podioir OUT roots file -- args\n";
    return 2;
  }
  OutFile = argv[1];
  std::stringstream SS(argv[2]);
  std::string R;
  while (std::getline(SS, R, ','))
    if (!R.empty())
      Roots.push_back(R);
  std::string File = argv[3];
  std::vector<std::string> Args;
  bool After = false;
  Args.push_back("clang++");
  for (int i = 4; i < argc; ++i) {
    std::string A = argv[i];
    if (!After && A == "--") {
      After = true;
      continue;
    }
    Args.push_back(A);
  }
  Args.push_back("-fsyntax-only");
  Args.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
  Args.push_back(File);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Args, std::make_unique<Action>(), FM.get());
  return Inv.run() ? 0 : 1;
}
