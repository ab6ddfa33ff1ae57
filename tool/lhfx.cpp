// lhfx - resolved-program extractor (clang libTooling).
//
// Parses every translation unit given on the command line with the type
// checker of clang 18 and writes one JSON document holding, for every function
// whose definition lies under --root, its type-resolved syntax tree (callees,
// members, conversions and overload choices resolved), plus the class table
// (fields, initialisers, bases, overrides) and global variables.
// It executes nothing of the analysed program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

struct Out {
  std::map<std::string, json::Value> functions, classes, globals, enums;
  std::vector<std::string> errors;
};

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Out &O;
  std::map<const Decl *, int> Ids;

public:
  Dumper(ASTContext &C, Out &O) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), O(O) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = false;
    PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    SM.getFileManager().makeAbsolutePath(P);
    llvm::sys::path::remove_dots(P, true);
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    return llvm::StringRef(fileOf(L)).starts_with(Root);
  }
  std::string rel(SourceLocation L) {
    auto F = fileOf(L);
    if (llvm::StringRef(F).starts_with(Root)) F = F.substr(Root.size());
    return F;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    return Ids[D] = n;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string sty(QualType T) { return T.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  std::string fnKey(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString();
    if (F->getFormalLinkage() == Linkage::Internal && inRoot(F->getLocation())) s = "[" + rel(F->getLocation()) + "]" + s;
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      if (i) s += ", ";
      s += ty(F->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += " const";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) s += "#lambda" + std::to_string(line(M->getParent()->getBeginLoc()));
    return s;
  }
  // kind of a scalar type
  const char *tk(QualType T) {
    T = T.getCanonicalType().getNonReferenceType();
    if (T->isBooleanType()) return "bool";
    if (T->isAnyCharacterType()) return "char";
    if (T->isEnumeralType()) return "enum";
    if (T->isIntegerType()) return T->isUnsignedIntegerType() ? "uint" : "int";
    if (T->isFloatingType()) return "real";
    if (T->isPointerType()) return "ptr";
    if (T->isRecordType()) return "rec";
    if (T->isVoidType()) return "void";
    if (T->isArrayType()) return "arr";
    return "other";
  }

  json::Object mk(const char *K, SourceLocation L) {
    json::Object o;
    o["k"] = K;
    o["l"] = line(L);
    return o;
  }
  json::Value fnRef(const FunctionDecl *F) {
    json::Object o;
    o["key"] = fnKey(F);
    o["name"] = F->getQualifiedNameAsString();
    o["short"] = F->getNameAsString();
    const FunctionDecl *Def = nullptr;
    bool repo = inRoot(F->getLocation());
    (void)Def;
    o["repo"] = repo;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["method"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      o["cls"] = M->getParent()->getQualifiedNameAsString();
    }
    json::Array ps;
    for (auto *P : F->parameters()) {
      auto T = P->getType();
      const char *m = "val";
      if (T->isReferenceType())
        m = T->getPointeeType().isConstQualified() ? "cref" : "ref";
      else if (T->isPointerType())
        m = "ptr";
      ps.push_back(m);
    }
    o["pm"] = std::move(ps);
    o["rt"] = ty(F->getReturnType());
    if (F->getReturnType()->isReferenceType()) o["rref"] = true;
    return o;
  }

  json::Value exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array a;
    for (auto *E : R) a.push_back(expr(E));
    return a;
  }

  json::Value un(const Expr *E, const char *why) {
    auto o = mk("unk", E->getBeginLoc());
    o["why"] = why;
    json::Array subs;
    for (auto *S : E->children())
      if (S)
        if (auto *SE = dyn_cast<Expr>(S)) subs.push_back(expr(SE));
    o["s"] = std::move(subs);
    return o;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    auto V = expr0(E);
    if (auto *o = V.getAsObject())
      if (!o->get("t")) {
        (*o)["t"] = sty(E->getType());
        (*o)["tk"] = tk(E->getType());
      }
    return V;
  }

  json::Value expr0(const Expr *E) {
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      auto D = X->getDecomposedForm();
      auto o = mk("bin", E->getExprLoc());
      o["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
      o["a"] = expr(D.LHS);
      o["b"] = expr(D.RHS);
      o["over"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto o = mk("int", E->getExprLoc());
      o["v"] = (int64_t)X->getValue().getLimitedValue();
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      auto o = mk("char", E->getExprLoc());
      o["v"] = (int64_t)X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto o = mk("real", E->getExprLoc());
      o["v"] = X->getValueAsApproximateDouble();
      return o;
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      auto o = mk("str", E->getExprLoc());
      std::string s = X->getBytes().str();
      o["v"] = json::isUTF8(s) ? s : json::fixUTF8(s);
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = mk("bool", E->getExprLoc());
      o["v"] = X->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E->getExprLoc());
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        auto o = mk("fn", E->getExprLoc());
        o["f"] = fnRef(F);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = mk("int", E->getExprLoc());
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["enum"] = EC->getQualifiedNameAsString();
        return o;
      }
      auto o = mk("var", E->getExprLoc());
      o["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isStaticDataMember()) {
          o["sc"] = "smember";
          o["q"] = V->getQualifiedNameAsString();
        } else if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["sc"] = "global";
          o["q"] = V->getQualifiedNameAsString();
        } else
          o["sc"] = isa<ParmVarDecl>(V) ? "param" : "local";
        if (V->getType()->isReferenceType()) o["ref"] = true;
      } else
        o["sc"] = "other";
      o["id"] = id(D);
      return o;
    }
    if (isa<CXXThisExpr>(E)) return mk("this", E->getExprLoc());
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        auto o = mk("var", E->getExprLoc());
        o["n"] = V->getNameAsString();
        o["sc"] = "smember";
        o["q"] = V->getQualifiedNameAsString();
        o["id"] = id(V);
        return o;
      }
      if (auto *MD = dyn_cast<CXXMethodDecl>(D))
        if (MD->isStatic()) {
          auto o = mk("fn", E->getExprLoc());
          o["f"] = fnRef(MD);
          return o;
        }
      auto o = mk("mem", E->getExprLoc());
      o["b"] = expr(X->getBase());
      o["arrow"] = X->isArrow();
      o["f"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        o["cls"] = FD->getParent()->getQualifiedNameAsString();
        if (FD->getType()->isReferenceType()) o["ref"] = true;
      }
      return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind();
      switch (K) {
      case CK_LValueToRValue:
      case CK_NoOp:
      case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay:
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_ToVoid:
      case CK_BuiltinFnToFnPtr:
      case CK_BitCast:
      case CK_BaseToDerived:
      case CK_LValueBitCast:
        return expr(X->getSubExpr());
      case CK_NullToPointer:
      case CK_NullToMemberPointer:
        return mk("null", E->getExprLoc());
      default: {
        auto o = mk("conv", E->getExprLoc());
        o["ck"] = X->getCastKindName();
        o["e"] = expr(X->getSubExpr());
        o["from"] = tk(X->getSubExpr()->getType());
        if (isa<ExplicitCastExpr>(X)) o["explicit"] = true;
        return o;
      }
      }
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = mk("un", E->getExprLoc());
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        auto o = mk("assign", E->getExprLoc());
        std::string op = "=";
        if (X->isCompoundAssignmentOp()) op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
        o["op"] = op;
        o["a"] = expr(X->getLHS());
        o["b"] = expr(X->getRHS());
        return o;
      }
      auto o = mk("bin", E->getExprLoc());
      o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      auto o = mk("cond", E->getExprLoc());
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = mk("idx", E->getExprLoc());
      o["a"] = expr(X->getBase());
      o["b"] = expr(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto o = mk("sizeof", E->getExprLoc());
      if (!X->isArgumentType()) o["arg"] = X->getArgumentExpr() ? sty(X->getArgumentExpr()->getType()) : "";
      else o["arg"] = sty(X->getArgumentType());
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = mk("opcall", E->getExprLoc());
      o["op"] = getOperatorSpelling(X->getOperator());
      o["post"] = (X->getOperator() == OO_PlusPlus || X->getOperator() == OO_MinusMinus) && X->getNumArgs() == 2;
      if (auto *F = X->getDirectCallee()) o["f"] = fnRef(F);
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = mk("mcall", E->getExprLoc());
      if (auto *F = X->getDirectCallee()) {
        o["f"] = fnRef(F);
        if (isa<CXXConversionDecl>(F)) o["conv"] = true;
      }
      o["o"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        o["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) o["qual"] = true;
      }
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = mk("call", E->getExprLoc());
      if (auto *F = X->getDirectCallee()) o["f"] = fnRef(F);
      else o["fp"] = expr(X->getCallee());
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      if (CD->isCopyOrMoveConstructor() && X->getNumArgs() >= 1) {
        auto o = mk("copy", E->getExprLoc());
        o["e"] = expr(X->getArg(0));
        o["move"] = CD->isMoveConstructor();
        return o;
      }
      auto o = mk("ctor", E->getExprLoc());
      o["f"] = fnRef(CD);
      if (X->requiresZeroInitialization()) o["zero"] = true;
      json::Array a;
      for (unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = mk("new", E->getExprLoc());
      o["ty"] = sty(X->getAllocatedType());
      o["init"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr);
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = mk("delete", E->getExprLoc());
      o["e"] = expr(X->getArgument());
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto o = mk("init", E->getExprLoc());
      if (X->isSemanticForm() || !X->getSemanticForm()) {
      } else
        X = X->getSemanticForm();
      json::Array a;
      for (auto *S : X->inits()) a.push_back(expr(S));
      o["a"] = std::move(a);
      if (auto *RT = X->getType()->getAs<RecordType>()) {
        json::Array fs;
        if (auto *RD = dyn_cast<RecordDecl>(RT->getDecl()))
          for (auto *F : RD->fields()) fs.push_back(F->getNameAsString());
        o["fields"] = std::move(fs);
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E->getExprLoc());
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto o = mk("lambda", E->getExprLoc());
      // a generic lambda: its only instantiation, if there is just one
      CXXMethodDecl *Op = X->getCallOperator();
      const Stmt *LB = X->getBody();
      if (auto *FT = X->getDependentCallOperator()) {
        FunctionDecl *only = nullptr; int cnt = 0;
        for (auto *S : FT->specializations()) if (S->hasBody()) { only = S; cnt++; }
        if (cnt == 1) { Op = cast<CXXMethodDecl>(only); LB = only->getBody(); }
        else { o["k"] = "unk"; o["why"] = "generic lambda"; return o; }
      }
      o["key"] = fnKey(Op);
      json::Array ps, caps;
      for (auto *P : Op->parameters()) {
        json::Object p;
        p["n"] = P->getNameAsString();
        p["id"] = id(P);
        p["ty"] = ty(P->getType());
        p["tk"] = tk(P->getType());
        auto T = P->getType();
        p["m"] = T->isReferenceType() ? (T->getPointeeType().isConstQualified() ? "cref" : "ref") : "val";
        ps.push_back(std::move(p));
      }
      for (auto &c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["params"] = std::move(ps);
      o["caps"] = std::move(caps);
      o["body"] = stmt(LB);
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = mk("throw", E->getExprLoc());
      return o;
    }
    return un(E, E->getStmtClassName());
  }

  json::Value varDecl(const VarDecl *V) {
    auto o = mk("decl", V->getLocation());
    o["n"] = V->getNameAsString();
    o["id"] = id(V);
    o["ty"] = ty(V->getType());
    o["tk"] = tk(V->getType());
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    o["init"] = V->getInit() ? expr(V->getInit()) : json::Value(nullptr);
    return o;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto o = mk("block", S->getBeginLoc());
      json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = mk("block", S->getBeginLoc());
      json::Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = mk("if", S->getBeginLoc());
      o["init"] = X->getInit() ? stmt(X->getInit()) : json::Value(nullptr);
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      o["b"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto o = mk("while", S->getBeginLoc());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      auto o = mk("do", S->getBeginLoc());
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto o = mk("for", S->getBeginLoc());
      o["init"] = stmt(X->getInit());
      o["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
      o["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr);
      o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = mk("rfor", S->getBeginLoc());
      o["var"] = varDecl(X->getLoopVariable());
      o["range"] = expr(X->getRangeInit());
      o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      auto o = mk("return", S->getBeginLoc());
      o["e"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr);
      return o;
    }
    if (isa<BreakStmt>(S)) return mk("break", S->getBeginLoc());
    if (isa<ContinueStmt>(S)) return mk("continue", S->getBeginLoc());
    if (isa<NullStmt>(S)) {
      auto o = mk("block", S->getBeginLoc());
      o["s"] = json::Array();
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = mk("switch", S->getBeginLoc());
      o["c"] = expr(X->getCond());
      // flatten the body: list of {case labels}/statements
      json::Array a;
      std::vector<const Stmt *> items;
      if (auto *B = dyn_cast<CompoundStmt>(X->getBody()))
        for (auto *c : B->body()) items.push_back(c);
      else
        items.push_back(X->getBody());
      for (auto *it : items) {
        const Stmt *c = it;
        while (true) {
          if (auto *CS = dyn_cast<CaseStmt>(c)) {
            auto co = mk("case", c->getBeginLoc());
            co["v"] = expr(CS->getLHS());
            a.push_back(std::move(co));
            c = CS->getSubStmt();
          } else if (auto *DS = dyn_cast<DefaultStmt>(c)) {
            a.push_back(mk("default", c->getBeginLoc()));
            c = DS->getSubStmt();
          } else
            break;
        }
        a.push_back(stmt(c));
      }
      o["s"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = mk("try", S->getBeginLoc());
      o["body"] = stmt(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) hs.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      o["handlers"] = std::move(hs);
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *E = dyn_cast<Expr>(S)) {
      auto o = mk("expr", S->getBeginLoc());
      o["e"] = expr(E);
      return o;
    }
    auto o = mk("unkstmt", S->getBeginLoc());
    o["why"] = S->getStmtClassName();
    return o;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->getBody()) return true;
    if (!inRoot(F->getLocation()) || F->isDependentContext()) return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (F->isImplicit() || F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    std::string key = fnKey(F);
    if (O.functions.count(key)) return true;
    json::Object o;
    o["key"] = key;
    o["name"] = F->getQualifiedNameAsString();
    o["short"] = F->getNameAsString();
    o["file"] = rel(F->getLocation());
    o["l"] = line(F->getLocation());
    o["end"] = line(F->getBody()->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    o["rtk"] = tk(F->getReturnType());
    o["rref"] = F->getReturnType()->isReferenceType();
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["n"] = P->getNameAsString();
      p["id"] = id(P);
      p["ty"] = ty(P->getType());
      p["tk"] = tk(P->getType());
      auto T = P->getType();
      p["m"] = T->isReferenceType() ? (T->getPointeeType().isConstQualified() ? "cref" : "ref") : (T->isPointerType() ? "ptr" : "val");
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["virt"] = M->isVirtual();
      o["static"] = M->isStatic();
      o["access"] = M->getAccess() == AS_public ? "public" : "nonpublic";
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array ins;
      for (auto *I : CD->inits()) {
        json::Object io;
        io["l"] = line(I->getSourceLocation());
        io["written"] = I->isWritten();
        if (I->isAnyMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = sty(QualType(I->getBaseClass(), 0));
        else io["deleg"] = true;
        io["e"] = expr(I->getInit());
        ins.push_back(std::move(io));
      }
      o["inits"] = std::move(ins);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = stmt(F->getBody());
    O.functions.emplace(key, std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation()) || R->isLambda() || R->isDependentContext()) return true;
    std::string name = R->getQualifiedNameAsString();
    if (O.classes.count(name)) return true;
    json::Object o;
    o["name"] = name;
    o["file"] = rel(R->getLocation());
    o["l"] = line(R->getLocation());
    json::Array bs, fs, ms;
    for (auto &B : R->bases()) bs.push_back(sty(B.getType()));
    for (auto *F : R->fields()) {
      json::Object f;
      f["n"] = F->getNameAsString();
      f["ty"] = ty(F->getType());
      f["tk"] = tk(F->getType());
      f["l"] = line(F->getLocation());
      f["init"] = F->hasInClassInitializer() && F->getInClassInitializer() ? expr(F->getInClassInitializer()) : json::Value(nullptr);
      f["hasinit"] = F->hasInClassInitializer();
      fs.push_back(std::move(f));
    }
    bool userCtor = false;
    for (auto *M : R->methods()) {
      json::Object m;
      m["key"] = fnKey(M);
      m["n"] = M->getNameAsString();
      m["virt"] = M->isVirtual();
      m["implicit"] = M->isImplicit();
      m["file"] = rel(M->getLocation());
      m["l"] = line(M->getLocation());
      json::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(fnKey(B));
      m["overrides"] = std::move(ov);
      m["access"] = M->getAccess() == AS_public ? "public" : "nonpublic";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        m["ctor"] = true;
        if (!CD->isImplicit()) userCtor = true;
      }
      ms.push_back(std::move(m));
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["methods"] = std::move(ms);
    o["userctor"] = userCtor;
    o["agg"] = R->isAggregate();
    O.classes.emplace(name, std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    std::string q = V->getQualifiedNameAsString();
    if (O.globals.count(q)) return true;
    auto o = mk("global", V->getLocation());
    o["q"] = q;
    o["file"] = rel(V->getLocation());
    o["ty"] = ty(V->getType());
    o["tk"] = tk(V->getType());
    o["smember"] = V->isStaticDataMember();
    o["init"] = V->getInit() ? expr(V->getInit()) : json::Value(nullptr);
    O.globals.emplace(q, std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
  Out &O;
public:
  Cons(Out &O) : O(O) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C, O);
    D.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
  Out &O;
public:
  Act(Out &O) : O(O) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(O); }
};
class Fac : public tooling::FrontendActionFactory {
  Out &O;
public:
  Fac(Out &O) : O(O) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(O); }
};

int main(int argc, char **argv) {
  // lhfx --root DIR/ --out FILE SOURCE -- FLAGS...
  std::string out;
  std::vector<std::string> srcs, flags;
  int i = 1;
  for (; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--root") Root = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--") { i++; break; }
    else srcs.push_back(a);
  }
  for (; i < argc; i++) flags.push_back(argv[i]);
  Out O;
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, srcs);
  Fac F(O);
  int rc = T.run(&F);
  json::Object top;
  auto put = [&](const char *n, std::map<std::string, json::Value> &m) {
    json::Object o;
    for (auto &p : m) o[p.first] = std::move(p.second);
    top[n] = std::move(o);
  };
  put("functions", O.functions);
  put("classes", O.classes);
  put("globals", O.globals);
  std::error_code EC;
  llvm::raw_fd_ostream os(out, EC);
  os << json::Value(std::move(top)) << "\n";
  return rc;
}
