// Extractor: parses one driver translation unit (which includes /repo's headers and
// instantiates their templates) with clang and writes the resolved, instantiated
// program (functions with structured bodies, records, constants) as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root; // path prefix of the analysed sources
static std::string OutFile;
static bool HadError = false;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const void *, int> TypeIds;
  Array Types;
  std::map<const Decl *, int> VarIds;
  std::set<const CXXRecordDecl *> Records;
  std::vector<const CXXRecordDecl *> RecordQueue;
  std::set<const VarDecl *> Globals;
  std::vector<const VarDecl *> GlobalQueue;
  std::set<const FunctionDecl *> FnSeen;
  std::vector<const FunctionDecl *> FnQueue;
  int NextVar = 1;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.TerseOutput = true;
  }

  std::string loc(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "?";
    std::string f = P.getFilename();
    if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size());
    return f + ":" + std::to_string(P.getLine());
  }
  std::string fileOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? "" : std::string(P.getFilename());
  }
  bool inRoot(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    return f.compare(0, Root.size(), Root) == 0 && f.find("/external/") == std::string::npos;
  }
  // Functions of the driver itself are dumped as well (file under the driver directory)
  std::string DriverFile;
  bool dumpable(const Decl *D) {
    return inRoot(D) || fileOf(D->getLocation()) == DriverFile;
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType CQ = Q.getCanonicalType();
    const void *key = CQ.getAsOpaquePtr();
    auto it = TypeIds.find(key);
    if (it != TypeIds.end()) return it->second;
    int id = (int)Types.size();
    TypeIds[key] = id;
    Types.push_back(nullptr);
    Object o;
    o["s"] = CQ.getAsString(PP);
    if (CQ.isConstQualified()) o["const"] = true;
    if (CQ->isReferenceType()) {
      o["k"] = CQ->isRValueReferenceType() ? "rref" : "ref";
      o["of"] = type(CQ->getPointeeType());
    } else if (CQ->isPointerType()) {
      o["k"] = "ptr";
      o["of"] = type(CQ->getPointeeType());
    } else if (const auto *A = dyn_cast<ConstantArrayType>(CQ.getTypePtr())) {
      o["k"] = "array";
      o["of"] = type(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (CQ->isBooleanType()) {
      o["k"] = "bool";
    } else if (CQ->isEnumeralType()) {
      o["k"] = "enum";
    } else if (CQ->isIntegerType()) {
      o["k"] = CQ->isUnsignedIntegerType() ? "uint" : "int";
      o["bits"] = (int64_t)C.getTypeSize(CQ);
    } else if (CQ->isFloatingType()) {
      o["k"] = "float";
    } else if (CQ->isVoidType()) {
      o["k"] = "void";
    } else if (const auto *R = CQ->getAsCXXRecordDecl()) {
      o["k"] = "record";
      o["name"] = R->getQualifiedNameAsString();
      if (R->isLambda()) o["lambda"] = true;
      if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        Array ta;
        for (const auto &A : S->getTemplateArgs().asArray()) ta.push_back(targ(A));
        o["targs"] = std::move(ta);
      }
      if (const CXXRecordDecl *D = R->getDefinition())
        if (Records.insert(D).second) RecordQueue.push_back(D);
    } else {
      o["k"] = "other";
    }
    Types[id] = std::move(o);
    return id;
  }

  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: {
      llvm::SmallString<16> s; A.getAsIntegral().toString(s, 10);
      return Object{{"i", std::string(s)}};
    }
    case TemplateArgument::Template: {
      std::string s; llvm::raw_string_ostream os(s);
      A.getAsTemplate().print(os, PP, TemplateName::Qualified::AsWritten);
      return Object{{"tt", os.str()}};
    }
    case TemplateArgument::Pack: {
      Array a;
      for (const auto &P : A.pack_elements()) a.push_back(targ(P));
      return Object{{"pack", std::move(a)}};
    }
    default: return Object{{"other", true}};
    }
  }

  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s = NG.getName(F);
    return s;
  }
  int varId(const ValueDecl *V) {
    const Decl *D = V->getCanonicalDecl();
    auto it = VarIds.find(D);
    if (it != VarIds.end()) return it->second;
    return VarIds[D] = NextVar++;
  }

  const FunctionDecl *definitionOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (const FunctionDecl *P = F->getTemplateInstantiationPattern()) (void)P;
    return nullptr;
  }
  void want(const FunctionDecl *F) {
    const FunctionDecl *D = definitionOf(F);
    if (!D) D = F;
    if (D->isDependentContext()) return;
    if (!dumpable(D)) return;
    if (FnSeen.insert(D->getCanonicalDecl()).second) FnQueue.push_back(D);
  }

  Object callee(const FunctionDecl *F) {
    want(F);
    Object o;
    o["id"] = fnId(F);
    o["q"] = F->getQualifiedNameAsString();
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      o["rec"] = type(C.getRecordType(M->getParent()));
      if (M->isImplicit() || M->isDefaulted()) o["implicit"] = true;
      if (const auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
      }
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (inRoot(F)) o["lib"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    if (!dumpable(F)) {
      if (const auto *TA = F->getTemplateSpecializationArgs()) {
        Array ta;
        for (const auto &A : TA->asArray()) ta.push_back(targ(A));
        o["targs"] = std::move(ta);
      }
      Array ps;
      for (auto *P : F->parameters()) ps.push_back(type(P->getType()));
      o["ptypes"] = std::move(ps);
    }
    return o;
  }

  Value apv(const APValue &V) {
    if (V.isInt()) {
      llvm::SmallString<32> s; V.getInt().toString(s, 10);
      return std::string(s);
    }
    if (V.isFloat()) return flt(V.getFloat());
    if (V.isArray()) {
      Array a;
      for (unsigned i = 0; i < V.getArraySize(); ++i)
        a.push_back(i < V.getArrayInitializedElts() ? apv(V.getArrayInitializedElt(i)) : apv(V.getArrayFiller()));
      return a;
    }
    return nullptr;
  }
  std::string flt(llvm::APFloat F) {
    if (F.isInfinity()) return F.isNegative() ? "-inf" : "inf";
    if (F.isNaN()) return "nan";
    bool lost;
    llvm::APFloat D = F;
    llvm::SmallString<64> s;
    D.convert(llvm::APFloat::IEEEquad(), llvm::APFloat::rmNearestTiesToEven, &lost);
    // hexadecimal is exact
    char buf[128];
    D.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
    return std::string(buf);
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    Object o;
    o["t"] = type(E->getType());
    o["l"] = loc(E->getExprLoc());
    if (E->isGLValue()) o["lv"] = true;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
        o["c"] = std::string(s);
      }
    }
    auto set = [&](const char *k) { o["k"] = k; };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      set("int");
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s);
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      set("flt"); o["v"] = flt(X->getValue());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      set("bool"); o["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      set("int"); o["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      set("str"); o["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      set("null");
    } else if (isa<CXXThisExpr>(E)) {
      set("this");
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        set("fn"); o["f"] = callee(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        set("int");
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        o["v"] = std::string(s);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        set("var"); o["id"] = varId(V); o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage()) { o["g"] = V->getQualifiedNameAsString(); global(V); }
      } else {
        set("var"); o["id"] = varId(D); o["n"] = D->getNameAsString();
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        set("mem"); o["b"] = expr(X->getBase()); o["f"] = fieldName(F);
        if (X->isArrow()) o["arrow"] = true;
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        set("var"); o["id"] = varId(V); o["n"] = V->getNameAsString(); o["g"] = V->getQualifiedNameAsString(); global(V);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        set("method"); o["b"] = expr(X->getBase()); o["f"] = callee(F);
        if (X->isArrow()) o["arrow"] = true;
      } else { set("unk"); o["w"] = "member"; }
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      set("sub"); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind K = X->getCastKind();
      switch (K) {
      case CK_LValueToRValue: set("load"); o["e"] = expr(X->getSubExpr()); break;
      case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
      case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
        if (K == CK_DerivedToBase || K == CK_UncheckedDerivedToBase) {
          set("cast"); o["ck"] = "base"; o["e"] = expr(X->getSubExpr());
        } else if (isa<CXXConstCastExpr>(X)) {
          set("cast"); o["ck"] = "constcast"; o["e"] = expr(X->getSubExpr());
        } else return expr(X->getSubExpr());
        break;
      default:
        set("cast"); o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
        if (isa<CXXConstCastExpr>(X)) o["ck"] = "constcast";
      }
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      set("cassign"); o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      o["ct"] = type(X->getComputationResultType());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) set("assign"); else set("bin");
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      set("un"); 
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "post" + op;
      o["op"] = op; o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      set("cond"); o["c0"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      call(o, X, X->getDirectCallee(), nullptr);
      o["opcall"] = getOperatorSpelling(X->getOperator());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      set("call");
      Array as;
      if (auto *M = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        o["obj"] = expr(M->getBase());
        if (M->isArrow()) o["arrow"] = true;
      } else o["objx"] = expr(X->getCallee());
      if (X->getMethodDecl()) o["f"] = callee(X->getMethodDecl());
      for (auto *A : X->arguments()) as.push_back(expr(A));
      o["args"] = std::move(as);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      call(o, X, X->getDirectCallee(), X->getCallee());
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      set("unk"); o["w"] = "inheritedctor";
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      set("ctor"); o["f"] = callee(X->getConstructor());
      Array as;
      for (auto *A : X->arguments()) as.push_back(expr(A));
      o["args"] = std::move(as);
      if (X->requiresZeroInitialization()) o["zero"] = true;
      if (X->isElidable()) o["elide"] = true;
      if (X->isListInitialization()) o["list"] = true;
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      set("new"); o["at"] = type(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->isArray()) o["arr"] = true;
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      set("delete"); o["e"] = expr(X->getArgument());
      if (X->isArrayForm()) o["arr"] = true;
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      set("throw"); if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["et"] = type(X->getSubExpr()->getType()); }
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      set("lambda");
      const CXXRecordDecl *R = X->getLambdaClass();
      o["cls"] = type(C.getRecordType(R));
      if (X->getCallOperator()) { o["f"] = callee(X->getCallOperator()); }
      Array caps; auto ci = X->capture_init_begin(); 
      auto fi = R->field_begin();
      for (auto &cap : X->captures()) {
        Object c;
        c["field"] = fieldName(*fi);
        c["this"] = cap.capturesThis();
        c["byref"] = cap.capturesVariable() && cap.getCaptureKind() == LCK_ByRef;
        if (cap.capturesVariable()) { c["id"] = varId(cap.getCapturedVar()); c["n"] = cap.getCapturedVar()->getNameAsString(); }
        c["init"] = expr(*ci);
        caps.push_back(std::move(c));
        ++ci; ++fi;
      }
      o["caps"] = std::move(caps);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      set("list"); Array as;
      for (auto *I : S->inits()) as.push_back(expr(I));
      o["args"] = std::move(as);
      if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      set("ilist"); o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      set("tmp"); o["e"] = expr(X->getSubExpr());
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      set("zero");
    } else if (isa<UnaryExprOrTypeTraitExpr>(E)) {
      set("sizeof");
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      (void)X; set("str"); o["v"] = "";
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      set("unk"); o["w"] = "stmtexpr"; (void)X;
    } else if (auto *X = dyn_cast<RecoveryExpr>(E)) {
      (void)X; set("unk"); o["w"] = "recovery";
    } else {
      set("unk"); o["w"] = E->getStmtClassName();
    }
    return o;
  }

  void call(Object &o, const CallExpr *X, const FunctionDecl *F, const Expr *CalleeE) {
    o["k"] = "call";
    Array as;
    const CXXMethodDecl *M = dyn_cast_or_null<CXXMethodDecl>(F);
    unsigned i = 0;
    if (M && !M->isStatic() && isa<CXXOperatorCallExpr>(X)) {
      o["obj"] = expr(X->getArg(0)); i = 1;
    }
    for (; i < X->getNumArgs(); ++i) as.push_back(expr(X->getArg(i)));
    o["args"] = std::move(as);
    if (F) o["f"] = callee(F);
    else if (CalleeE) o["fx"] = expr(CalleeE);
  }

  std::string fieldName(const FieldDecl *F) {
    if (!F->getNameAsString().empty()) return F->getNameAsString();
    return "$" + std::to_string(F->getFieldIndex());
  }

  void global(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (Globals.insert(V).second) GlobalQueue.push_back(V);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return Object{{"s", "expr"}, {"e", expr(E)}, {"l", loc(E->getExprLoc())}};
    Object o; o["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["s"] = "block"; Array a; for (auto *B : X->body()) a.push_back(stmt(B)); o["b"] = std::move(a);
      o["el"] = loc(X->getEndLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl"; Array a;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      o["d"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["s"] = "if"; 
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen()); o["e"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["s"] = "for"; o["i"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["n"] = expr(X->getInc()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["s"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["s"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "range";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["range"] = stmt(X->getRangeStmt()); o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond()); o["n"] = expr(X->getInc()); o["v"] = stmt(X->getLoopVarStmt()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["s"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["s"] = "case"; o["c"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["s"] = "default"; o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["s"] = "return"; o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) { o["s"] = "break";
    } else if (isa<ContinueStmt>(S)) { o["s"] = "continue";
    } else if (isa<NullStmt>(S)) { o["s"] = "null";
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "try"; o["b"] = stmt(X->getTryBlock()); Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); Object h;
        if (H->getExceptionDecl()) { h["v"] = var(H->getExceptionDecl()); h["t"] = type(H->getCaughtType()); }
        h["b"] = stmt(H->getHandlerBlock()); h["l"] = loc(H->getBeginLoc());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
    } else if (isa<GCCAsmStmt>(S)) { o["s"] = "asm";
    } else { o["s"] = "unk"; o["w"] = S->getStmtClassName(); }
    return o;
  }

  Value var(const VarDecl *V) {
    Object o; o["id"] = varId(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType()); o["l"] = loc(V->getLocation());
    if (V->getInit() && !V->isCXXForRangeDecl()) o["init"] = expr(V->getInit());
    else if (V->getInit()) o["init"] = expr(V->getInit());
    if (V->isStaticLocal()) o["static"] = true;
    return o;
  }

  Value function(const FunctionDecl *F) {
    Object o;
    o["id"] = fnId(F);
    o["q"] = F->getQualifiedNameAsString();
    o["l"] = loc(F->getLocation());
    o["ret"] = type(F->getReturnType());
    if (F->isInvalidDecl()) o["invalid"] = true;
    if (inRoot(F)) o["lib"] = true;
    Array ps;
    for (auto *P : F->parameters()) {
      Object p; p["id"] = varId(P); p["n"] = P->getNameAsString(); p["t"] = type(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["dflt"] = true;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta;
      for (const auto &A : TA->asArray()) ta.push_back(targ(A));
      o["targs"] = std::move(ta);
    }
    if (F->isInlined()) o["inline"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    o["linkage"] = (int)F->getFormalLinkage() ;
    o["ext"] = F->isExternallyVisible();
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = type(C.getRecordType(M->getParent()));
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isImplicit()) o["implicit"] = true;
      o["access"] = (int)M->getAccess();
      if (const auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
        Array is;
        for (auto *I : K->inits()) {
          Object i;
          if (I->isMemberInitializer()) i["f"] = fieldName(I->getMember());
          else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) i["deleg"] = true;
          i["e"] = expr(I->getInit()); i["w"] = I->isWritten();
          is.push_back(std::move(i));
        }
        o["inits"] = std::move(is);
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (const auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
      if (FPT->hasDynamicExceptionSpec()) {
        Array es; for (auto T : FPT->exceptions()) es.push_back(type(T));
        o["throws"] = std::move(es);
      } else if (FPT->hasNoexceptExceptionSpec() && FPT->canThrow() == CT_Cannot && !F->isImplicit() && !isa<CXXDestructorDecl>(F)) o["noexcept"] = true;
    }
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) { o["body"] = stmt(D->getBody()); o["bl"] = loc(D->getLocation()); }
    return o;
  }

  Value record(const CXXRecordDecl *R) {
    Object o; o["t"] = type(C.getRecordType(R)); o["q"] = R->getQualifiedNameAsString(); o["l"] = loc(R->getLocation());
    if (inRoot(R)) o["lib"] = true;
    if (R->isInvalidDecl()) o["invalid"] = true;
    bool want = inRoot(R) || fileOf(R->getLocation()) == DriverFile || R->isLambda() ||
                fileOf(R->getLocation()).find("tiny_obj") != std::string::npos;
    Array fs, bs;
    if (want) {
      for (auto *F : R->fields()) {
        Object f{{"n", fieldName(F)}, {"t", type(F->getType())}};
        if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
        fs.push_back(std::move(f));
      }
    }
    for (auto &B : R->bases()) bs.push_back(Object{{"t", type(B.getType())}, {"access", (int)B.getAccessSpecifier()}, {"virtual", B.isVirtual()}});
    o["fields"] = std::move(fs); o["bases"] = std::move(bs);
    if (want) o["full"] = true;
    if (R->isAbstract()) o["abstract"] = true;
    if (want && !R->isLambda()) {
      Array ms;
      for (auto *M : R->methods()) {
        if (M->isImplicit()) continue;
        Object m{{"id", fnId(M)}, {"n", M->getNameAsString()}, {"q", M->getQualifiedNameAsString()}, {"access", (int)M->getAccess()}};
        if (M->isDeleted()) m["deleted"] = true;
        if (M->isPureVirtual()) m["pure"] = true;
        if (M->isConst()) m["const"] = true;
        ms.push_back(std::move(m));
        if (!M->isDependentContext()) this->want(M);
      }
      o["methods"] = std::move(ms);
      Array ctors;
      o["dtor_user"] = R->hasUserDeclaredDestructor();
      o["copyctor_user"] = R->hasUserDeclaredCopyConstructor();
      o["movector_user"] = R->hasUserDeclaredMoveConstructor();
      o["copyassign_user"] = R->hasUserDeclaredCopyAssignment();
      o["moveassign_user"] = R->hasUserDeclaredMoveAssignment();
    }
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->hasBody()) return true;
    D.want(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && D.inRoot(V) &&
        !isa<VarTemplateDecl>(V) && !V->isTemplated() && V->isThisDeclarationADefinition() == VarDecl::Definition)
      D.global(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition()) return true;
    if (D.inRoot(R)) D.type(D.C.getRecordType(R));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    if (auto F = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID()))
      D.DriverFile = F->getName().str();
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Array fns, recs, globs;
    size_t fi = 0, ri = 0, gi = 0;
    bool more = true;
    while (more) {
      more = false;
      while (fi < D.FnQueue.size()) { fns.push_back(D.function(D.FnQueue[fi++])); more = true; }
      while (ri < D.RecordQueue.size()) { recs.push_back(D.record(D.RecordQueue[ri++])); more = true; }
      while (gi < D.GlobalQueue.size()) {
        const VarDecl *V = D.GlobalQueue[gi++]; more = true;
        Object o; o["id"] = D.varId(V); o["q"] = V->getQualifiedNameAsString(); o["t"] = D.type(V->getType()); o["l"] = D.loc(V->getLocation());
        if (V->getDefinition() && V->isExternallyVisible() && !V->getDefinition()->isInline() &&
            !isTemplateInstantiation(V->getTemplateSpecializationKind())) o["oddef"] = true;
        const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
        if (I && Def && !Def->getType()->isDependentType() && !I->isValueDependent() && Def->checkForConstantInitialization(*new SmallVector<PartialDiagnosticAt, 4>())) {
          if (const APValue *A = Def->evaluateValue()) o["val"] = D.apv(*A);
        }
        if (Def && D.inRoot(Def)) { o["lib"] = true; o["const"] = Def->getType().isConstQualified() || Def->isConstexpr(); }
        if (I && D.inRoot(V) && !I->isValueDependent()) o["init"] = D.expr(I);
        globs.push_back(std::move(o));
      }
    }
    Object top;
    top["functions"] = std::move(fns);
    top["records"] = std::move(recs);
    top["globals"] = std::move(globs);
    top["types"] = std::move(D.Types);
    top["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << Value(std::move(top)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: extract ROOT OUT FILE -- compiler args
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  Root = argv[1]; OutFile = argv[2];
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {file});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
