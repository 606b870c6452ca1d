// astdump: libTooling front end of the static analyses in /verif/sa.
// Parses one translation unit of the analysed repository and writes, as JSON, the type-checked, fully resolved and
// template-instantiated bodies of every function defined below a given source root (plus records and globals).
// It does not judge anything: all rules live in /verif/sa/*.py.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace js = llvm::json;

static llvm::cl::OptionCategory Cat("astdump");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext &c) : C(c), PP(c.getPrintingPolicy()), SM(c.getSourceManager()),
      MC(c.createMangleContext()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    llvm::SmallString<256> p(f);
    SM.getFileManager().makeAbsolutePath(p);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p);
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getPresumedLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    std::string f = file(D->getLocation());
    if (f.empty()) return false;
    llvm::SmallVector<StringRef, 4> rs;
    StringRef(Root).split(rs, ',');
    for (auto r : rs) if (StringRef(f).starts_with(r)) return true;
    return false;
  }
  std::string type(QualType T) { return T.getCanonicalType().getAsString(PP); }

  std::string mangled(const FunctionDecl *F) {
    auto it = names.find(F->getCanonicalDecl());
    if (it != names.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getQualifiedNameAsString();
    os.flush();
    if (F->isMain()) s = "main@" + file(F->getLocation());
    names[F->getCanonicalDecl()] = s;
    return s;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    os.flush();
    return s;
  }
  std::string clsName(const CXXRecordDecl *R) { return type(C.getRecordType(R)); }

  js::Value fnref(const FunctionDecl *F) {
    js::Object o;
    o["id"] = mangled(F);
    o["n"] = F->getQualifiedNameAsString();
    o["repo"] = inRoot(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
    }
    js::Array pts;
    for (auto *P : F->parameters()) pts.push_back(type(P->getType()));
    o["pt"] = std::move(pts);
    o["rt"] = type(F->getReturnType());
    if (F->isVariadic()) o["variadic"] = true;
    return o;
  }

  int64_t vid(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int64_t n = (int64_t)ids.size() + 1;
    ids[D] = n;
    return n;
  }

  js::Value var(const VarDecl *V) {
    js::Object o;
    o["id"] = vid(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit() && !isa<ParmVarDecl>(V)) {
      o["init"] = expr(V->getInit());
      if (V->getInitStyle() == VarDecl::ListInit) o["list"] = true;
    }
    if (isa<DecompositionDecl>(V)) o["decomp"] = true;
    return o;
  }

  js::Value params(const FunctionDecl *F) {
    js::Array a;
    for (auto *P : F->parameters()) {
      js::Object o;
      o["id"] = vid(P);
      o["n"] = P->getNameAsString();
      o["t"] = type(P->getType());
      a.push_back(std::move(o));
    }
    return a;
  }

  js::Value null() { return nullptr; }

  js::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    js::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }

  js::Value expr(const Expr *E) {
    if (!E) return null();
    js::Object o;
    o["l"] = line(E->getExprLoc());
    switch (E->getStmtClass()) {
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
      case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
      default: break;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int"; o["v"] = (int64_t)X->getValue().getLimitedValue(); o["t"] = type(E->getType()); return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      SourceLocation B = SM.getExpansionLoc(X->getBeginLoc());
      llvm::SmallString<32> s; X->getValue().toString(s, 17); o["v"] = std::string(s);
      bool inv = false;
      StringRef tok = Lexer::getSourceText(CharSourceRange::getTokenRange(B, B), SM, C.getLangOpts(), &inv);
      if (!inv) o["src"] = tok.str();
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "char"; o["v"] = (int64_t)X->getValue(); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      std::string s = X->isOrdinary() || X->isUTF8() ? X->getString().str() : "";
      o["v"] = llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; o["t"] = type(E->getType()); return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getDecl())) {
        o["k"] = "enum"; o["v"] = (int64_t)EC->getInitVal().extOrTrunc(64).getZExtValue(); o["n"] = EC->getQualifiedNameAsString();
        return o;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(X->getDecl())) { o["k"] = "fn"; o["fn"] = fnref(FD); return o; }
      if (auto *VD = dyn_cast<VarDecl>(X->getDecl())) {
        o["k"] = "var"; o["t"] = type(VD->getType()); o["n"] = VD->getNameAsString();
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          o["vk"] = "global"; o["n"] = VD->getQualifiedNameAsString(); o["repo"] = inRoot(VD);
          if (VD->getType().isConstQualified() || VD->isConstexpr()) {
            o["const"] = true;
            Expr::EvalResult R;
            if (VD->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C))
              o["cv"] = (int64_t)R.Val.getInt().extOrTrunc(64).getZExtValue();
            else if (VD->getType()->isFloatingType() && E->EvaluateAsRValue(R, C) && R.Val.isFloat()) {
              llvm::SmallString<32> s; R.Val.getFloat().toString(s, 17); o["cf"] = std::string(s);
            }
          }
        } else {
          o["id"] = vid(VD);
          if (VD->isStaticLocal()) o["vk"] = "static";
          else if (isa<ParmVarDecl>(VD)) o["vk"] = "param";
          else o["vk"] = "local";
        }
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(X->getDecl())) {
        o["k"] = "binding"; o["n"] = B->getNameAsString();
        if (auto *dd = B->getDecomposedDecl()) o["of"] = vid(cast<VarDecl>(dd));
        o["id"] = vid(B);
        return o;
      }
      o["k"] = "other"; o["cls"] = "DeclRef"; return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["k"] = "mem"; o["base"] = expr(X->getBase()); o["f"] = FD->getNameAsString();
        o["rec"] = clsName(cast<CXXRecordDecl>(FD->getParent()));
        o["t"] = type(FD->getType());
        if (FD->isMutable()) o["mutable"] = true;
        if (X->isArrow()) o["arrow"] = true;
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["k"] = "var"; o["vk"] = "global"; o["n"] = VD->getQualifiedNameAsString(); o["t"] = type(VD->getType());
        o["repo"] = inRoot(VD);
        return o;
      }
      if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { o["k"] = "fn"; o["fn"] = fnref(MD); return o; }
      o["k"] = "other"; o["cls"] = "Member"; return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call"; o["t"] = type(E->getType()); o["op"] = getOperatorSpelling(X->getOperator());
      js::Array a = exprs(X->arguments());
      const FunctionDecl *F = X->getDirectCallee();
      if (F) {
        o["fn"] = fnref(F);
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && !M->isStatic()) {
          js::Array rest;
          for (size_t i = 1; i < a.size(); ++i) rest.push_back(std::move(a[i]));
          o["obj"] = std::move(a[0]);
          o["args"] = std::move(rest);
          return o;
        }
      }
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call"; o["t"] = type(E->getType());
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) {
        o["fn"] = fnref(M);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
          if (ME->hasQualifier()) o["nonvirt"] = true;
          if (ME->isArrow()) o["arrow"] = true;
        }
      }
      o["obj"] = expr(X->getImplicitObjectArgument());
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; o["t"] = type(E->getType());
      if (const FunctionDecl *F = X->getDirectCallee()) {
        o["fn"] = fnref(F);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
          js::Array ta;
          for (auto &A : TA->asArray()) {
            std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); os.flush(); ta.push_back(s);
          }
          o["ta"] = std::move(ta);
        }
      } else {
        o["callee"] = expr(X->getCallee());
      }
      o["args"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      o["k"] = "ctor"; o["t"] = type(E->getType());
      auto *CD = X->getConstructor();
      o["cls"] = clsName(CD->getParent());
      o["fn"] = fnref(CD);
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) o["implicit"] = true;
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["stdil"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
      if (isa<CXXTemporaryObjectExpr>(E)) o["temp"] = true;
      js::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["t"] = type(E->getType()); o["cls"] = clsName(X->getConstructor()->getParent());
      o["fn"] = fnref(X->getConstructor()); o["inherited"] = true; o["args"] = js::Array(); return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["t"] = type(X->getAllocatedType());
      o["init"] = X->hasInitializer() ? expr(X->getInitializer()) : null();
      if (X->isArray()) o["array"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["e"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) o["k"] = "asg"; else o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      o["t"] = type(E->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = type(CA->getComputationResultType());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["e"] = expr(X->getSubExpr());
      if (X->isPostfix()) o["post"] = true;
      o["t"] = type(E->getType());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      o["t"] = type(E->getType());
      return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind K = X->getCastKind();
      const Expr *S = X->getSubExpr();
      switch (K) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_Dynamic:
        case CK_ReinterpretMemberPointer: case CK_BitCast: case CK_IntegralToPointer: case CK_PointerToIntegral:
        case CK_ToVoid: case CK_BaseToDerived:
          o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(S); o["t"] = type(E->getType());
          o["st"] = type(S->getType());
          if (isa<ExplicitCastExpr>(E)) o["explicit"] = true;
          return o;
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          o["k"] = "cast"; o["ck"] = "DerivedToBase"; o["e"] = expr(S); o["t"] = type(E->getType());
          return o;
        default:
          if (isa<CXXConstCastExpr>(E)) {
            o["k"] = "cast"; o["ck"] = "ConstCast"; o["e"] = expr(S); o["t"] = type(E->getType()); return o;
          }
          return expr(S);
      }
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *Sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      o["k"] = "init"; o["t"] = type(Sem->getType());
      js::Array a;
      for (auto *e : Sem->inits()) a.push_back(expr(e));
      o["args"] = std::move(a);
      if (Sem->hasArrayFiller() && Sem->getArrayFiller()) o["fill"] = expr(Sem->getArrayFiller());
      if (auto *RD = Sem->getType()->getAsCXXRecordDecl()) {
        js::Array fs;
        for (auto *FD : RD->fields()) fs.push_back(FD->getNameAsString());
        o["fields"] = std::move(fs);
        o["nb"] = (int64_t)(RD->hasDefinition() ? RD->getNumBases() : 0);
      }
      if (auto *AT = C.getAsConstantArrayType(Sem->getType())) o["n"] = (int64_t)AT->getSize().getLimitedValue();
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero"; o["t"] = type(E->getType()); return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "sub"; o["base"] = expr(X->getBase()); o["idx"] = expr(X->getIdx()); o["t"] = type(E->getType());
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["t"] = type(E->getType());
      const CXXMethodDecl *Op = X->getCallOperator();
      o["fid"] = mangled(Op);
      o["params"] = params(Op);
      o["rt"] = type(Op->getReturnType());
      js::Array caps;
      auto ini = X->capture_init_begin();
      for (auto &c : X->captures()) {
        js::Object co;
        if (c.capturesThis()) co["this"] = true;
        if (c.capturesVariable()) {
          co["id"] = vid(cast<ValueDecl>(c.getCapturedVar()));
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (VD->isInitCapture() && VD->getInit()) co["init"] = expr(VD->getInit());
        }
        caps.push_back(std::move(co));
        ++ini;
      }
      o["caps"] = std::move(caps);
      if (Op->getParent()->isGenericLambda()) {
        // generic lambda: emit every instantiation of the call operator
        js::Array insts;
        if (auto *FT = Op->getDescribedFunctionTemplate()) {
          for (auto *S : FT->specializations()) {
            if (!S->hasBody()) continue;
            js::Object io; io["fid"] = mangled(S); io["params"] = params(S); io["body"] = stmt(S->getBody());
            io["rt"] = type(S->getReturnType());
            insts.push_back(std::move(io));
          }
        }
        o["insts"] = std::move(insts);
      } else {
        o["body"] = stmt(X->getBody());
      }
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw"; o["e"] = expr(X->getSubExpr());
      if (X->getSubExpr()) o["t"] = type(X->getSubExpr()->getType());
      return o;
    }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
        o["k"] = "int"; o["v"] = (int64_t)R.Val.getInt().extOrTrunc(64).getZExtValue(); o["t"] = type(E->getType()); return o;
      }
    }
    o["k"] = "other"; o["cls"] = E->getStmtClassName(); o["t"] = type(E->getType());
    js::Array ch;
    for (auto *S : E->children()) if (auto *SE = dyn_cast_or_null<Expr>(S)) ch.push_back(expr(SE));
    o["ch"] = std::move(ch);
    return o;
  }

  js::Value stmt(const Stmt *S) {
    if (!S) return null();
    js::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["s"] = "block"; js::Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["b"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl"; js::Array a;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          js::Value v = var(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            js::Array bs;
            for (auto *B : DD->bindings()) {
              js::Object bo; bo["id"] = vid(B); bo["n"] = B->getNameAsString();
              if (B->getBinding()) bo["e"] = expr(B->getBinding());
              if (B->getHoldingVar()) bo["hv"] = var(B->getHoldingVar());
              bs.push_back(std::move(bo));
            }
            (*v.getAsObject())["bindings"] = std::move(bs);
          }
          a.push_back(std::move(v));
        }
      }
      o["vars"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        Expr::EvalResult R;
        if (X->getCond()->EvaluateAsInt(R, C)) {
          const Stmt *B = R.Val.getInt().getBoolValue() ? X->getThen() : X->getElse();
          if (B) return stmt(B);
          o["s"] = "null"; return o;
        }
      }
      o["s"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen());
      if (X->getElse()) o["e"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["s"] = "for"; o["i"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["s"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "rfor"; o["var"] = var(X->getLoopVariable()); o["range"] = expr(X->getRangeInit());
      o["rt"] = type(X->getRangeInit()->getType());
      o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["s"] = "ret"; o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["s"] = "null"; return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "try"; o["b"] = stmt(X->getTryBlock()); js::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i);
        js::Object h; h["t"] = H->getCaughtType().isNull() ? "..." : type(H->getCaughtType());
        if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl());
        h["b"] = stmt(H->getHandlerBlock()); h["l"] = line(H->getBeginLoc());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["s"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["s"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) { o["s"] = "expr"; o["e"] = expr(X); return o; }
    o["s"] = "other"; o["cls"] = S->getStmtClassName(); return o;
  }

  js::Value function(const FunctionDecl *F) {
    js::Object o;
    o["id"] = mangled(F);
    o["n"] = F->getQualifiedNameAsString();
    o["sn"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getLocation());
    o["rt"] = type(F->getReturnType());
    o["params"] = params(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      js::Array ta;
      for (auto &A : TA->asArray()) {
        std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); os.flush(); ta.push_back(s);
      }
      o["ta"] = std::move(ta);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(M->getParent());
      o["const"] = M->isConst(); o["static"] = M->isStatic(); o["virt"] = M->isVirtual();
      o["access"] = (int64_t)M->getAccess();
      js::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(mangled(B)); o["overrides"] = std::move(ov);
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (CD->isCopyConstructor()) o["copyctor"] = true;
      if (CD->isMoveConstructor()) o["movector"] = true;
      js::Array in;
      for (auto *I : CD->inits()) {
        js::Object io;
        if (I->isAnyMemberInitializer()) {
          io["f"] = I->getAnyMember()->getNameAsString();
          io["ft"] = type(I->getAnyMember()->getType());
        }
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else io["deleg"] = true;
        io["e"] = expr(I->getInit());
        io["written"] = I->isWritten();
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    o["body"] = stmt(F->getBody());
    return o;
  }

  js::Value record(const CXXRecordDecl *R) {
    js::Object o;
    o["n"] = clsName(R); o["file"] = file(R->getLocation()); o["l"] = line(R->getLocation());
    js::Array fs;
    for (auto *F : R->fields()) {
      js::Object f; f["n"] = F->getNameAsString(); f["t"] = type(F->getType()); f["mutable"] = F->isMutable();
      f["hasinit"] = F->hasInClassInitializer();
      f["access"] = (int64_t)F->getAccess();
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    js::Array bs; for (auto &B : R->bases()) bs.push_back(type(B.getType())); o["bases"] = std::move(bs);
    js::Array ms;
    for (auto *M : R->methods()) {
      js::Object m; m["id"] = mangled(M); m["n"] = M->getNameAsString(); m["const"] = M->isConst();
      m["static"] = M->isStatic(); m["virt"] = M->isVirtual(); m["pure"] = M->isPureVirtual();
      m["deleted"] = M->isDeleted(); m["defaulted"] = M->isDefaulted(); m["implicit"] = M->isImplicit();
      m["userprov"] = M->isUserProvided();
      m["access"] = (int64_t)M->getAccess();
      m["body"] = M->hasBody();
      if (isa<CXXConstructorDecl>(M)) m["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { m["copyctor"] = CD->isCopyConstructor(); m["movector"] = CD->isMoveConstructor(); }
      m["copyassign"] = M->isCopyAssignmentOperator(); m["moveassign"] = M->isMoveAssignmentOperator();
      m["rt"] = type(M->getReturnType());
      js::Array ps; for (auto *P : M->parameters()) ps.push_back(type(P->getType())); m["pt"] = std::move(ps);
      js::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(mangled(B)); m["overrides"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    o["needsImplicitCopyAssign"] = R->needsImplicitCopyAssignment();
    o["hasSimpleCopyAssign"] = R->hasSimpleCopyAssignment();
    o["needsImplicitCopyCtor"] = R->needsImplicitCopyConstructor();
    o["abstract"] = R->isAbstract();
    return o;
  }

  ASTContext &C;
  PrintingPolicy PP;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, std::string> names;
  std::map<const Decl *, int64_t> ids;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Dumper &d, js::OStream &j) : D(d), J(j) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (!D.inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!seen.insert(F->getCanonicalDecl()).second) return true;
    fns.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoot(R)) return true;
    if (!seen.insert(R->getCanonicalDecl()).second) return true;
    recs.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || !V->hasGlobalStorage() || V->getDeclContext()->isDependentContext()) return true;
    if (!D.inRoot(V)) return true;
    if (!seen.insert(V->getCanonicalDecl()).second) return true;
    globals.push_back(V);
    return true;
  }
  void emit() {
    J.objectBegin();
    J.attributeArray("functions", [&] { for (auto *F : fns) J.value(D.function(F)); });
    J.attributeArray("records", [&] { for (auto *R : recs) J.value(D.record(R)); });
    J.attributeArray("globals", [&] {
      for (auto *V : globals) {
        js::Object o; o["n"] = V->getQualifiedNameAsString(); o["t"] = D.type(V->getType());
        o["const"] = V->getType().isConstQualified() || V->isConstexpr();
        o["file"] = D.file(V->getLocation()); o["l"] = D.line(V->getLocation());
        if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = D.expr(V->getInit());
        J.value(std::move(o));
      }
    });
    J.objectEnd();
  }
  Dumper &D;
  js::OStream &J;
  std::set<const Decl *> seen;
  std::vector<const FunctionDecl *> fns;
  std::vector<const CXXRecordDecl *> recs;
  std::vector<const VarDecl *> globals;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    std::error_code ec;
    llvm::raw_fd_ostream os(Out, ec);
    js::OStream J(os);
    Visitor V(D, J);
    V.TraverseDecl(C.getTranslationUnitDecl());
    V.emit();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat, llvm::cl::OneOrMore);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
