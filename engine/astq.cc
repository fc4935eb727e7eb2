// Dumps the resolved syntax tree of the functions defined below a root
// directory as JSON: astq FILE ROOT -- compiler flags
// Template instantiations are listed with their arguments substituted;
// implicit conversions that change no value are skipped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;

struct Dumper {
  ASTContext &C; PrintingPolicy PP;
  std::set<const FunctionDecl *> wanted;
  Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.AnonymousTagLocations = false; PP.FullyQualifiedName = true; }
  std::string ty(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  std::string tyq(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
  unsigned line(SourceLocation L) { return C.getSourceManager().getExpansionLineNumber(L); }
  std::string file(SourceLocation L) { auto &SM = C.getSourceManager(); return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  std::string id(const Decl *D) { char b[32]; snprintf(b, sizeof b, "%p", (const void *)D->getCanonicalDecl()); return b; }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s); D->getNameForDiagnostic(o, PP, true); o.flush(); return s;
  }
  Object fnref(const FunctionDecl *F) {
    Object o{{"id", id(F)}, {"name", F->getNameAsString()}, {"q", F->getQualifiedNameAsString()}, {"t", ty(F->getType())}};
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["rec"] = qn(M->getParent()); o["recq"] = M->getParent()->getQualifiedNameAsString(); if (M->isStatic()) o["static"] = true; if (M->isVirtual()) o["virtual"] = true; }
    if (unsigned B = F->getBuiltinID()) o["builtin"] = (int)B;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a; for (auto &x : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); os.flush(); a.push_back(s); } o["targs"] = std::move(a);
    }
    return o;
  }
  void constant(const Expr *E, Object &o) {
    if (E->isValueDependent() || E->isTypeDependent() || E->getType().isNull() || E->getType()->isVoidType()) return;
    Expr::EvalResult R;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["c"] = s.str().str(); }
    } else if (T->isRealFloatingType()) {
      llvm::APFloat f(0.0);
      if (E->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)) { llvm::SmallString<64> s; f.toString(s, 40); o["fc"] = s.str().str(); }
    }
  }
  const Expr *peel(const Expr *E) {
    for (;;) {
      if (auto *x = dyn_cast<ParenExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<FullExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = x->getSemanticForm();
      else if (auto *x = dyn_cast<CastExpr>(E)) {
        switch (x->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
        case CK_BaseToDerived: case CK_NullToPointer: case CK_ToVoid:
          E = x->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
  }
  Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    Object o;
    constant(E0, o);
    const Expr *E = peel(E0);
    if (!o.get("c") && !o.get("fc")) constant(E, o);
    o["l"] = line(E->getExprLoc()); o["t"] = ty(E0->getType()); o["f"] = base(file(E->getExprLoc()));
    auto set = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CastExpr>(E)) { set("cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["from"] = ty(x->getSubExpr()->getType()); }
    else if (isa<IntegerLiteral>(E) || isa<CharacterLiteral>(E) || isa<CXXBoolLiteralExpr>(E)) { set("int"); }
    else if (isa<FloatingLiteral>(E)) set("float");
    else if (auto *x = dyn_cast<StringLiteral>(E)) { set("str"); o["s"] = x->isOrdinary() || x->isUTF8() ? llvm::json::fixUTF8(x->getString()) : ""; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) set("null");
    else if (isa<CXXThisExpr>(E)) set("this");
    else if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { set("fn"); o["fn"] = fnref(F); }
      else { set("ref"); o["id"] = id(D); o["name"] = D->getNameAsString(); o["q"] = D->getQualifiedNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage()) { o["global"] = true; if (V->getAnyInitializer() && under(V) && depth < 6) { depth++; o["init"] = expr(V->getAnyInitializer()); depth--; } if (V->getType().isConstQualified()) o["const"] = true; } } }
    }
    else if (auto *x = dyn_cast<MemberExpr>(E)) {
      if (auto *M = dyn_cast<FunctionDecl>(x->getMemberDecl())) { set("mfn"); o["fn"] = fnref(M); o["e"] = expr(x->getBase()); }
      else { set("member"); o["name"] = x->getMemberDecl()->getNameAsString(); o["id"] = id(x->getMemberDecl()); o["e"] = expr(x->getBase());
        if (auto *F = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["rec"] = qn(F->getParent()); o["ft"] = ty(F->getType()); if (F->getParent()->isUnion()) o["union"] = true; } }
    }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      set("mcall"); o["obj"] = expr(x->getImplicitObjectArgument());
      if (auto *M = x->getMethodDecl()) o["fn"] = fnref(M); else o["callee"] = expr(x->getCallee());
      o["args"] = args(x->arguments());
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      set("opcall"); o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) o["fn"] = fnref(F);
      o["args"] = args(x->arguments());
    }
    else if (auto *x = dyn_cast<CallExpr>(E)) {
      set("call");
      if (auto *F = x->getDirectCallee()) o["fn"] = fnref(F); else o["callee"] = expr(x->getCallee());
      o["args"] = args(x->arguments());
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      set("construct"); o["fn"] = fnref(x->getConstructor()); o["rec"] = qn(x->getConstructor()->getParent()); o["recq"] = x->getConstructor()->getParent()->getQualifiedNameAsString();
      o["args"] = args(x->arguments()); if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
    }
    else if (auto *x = dyn_cast<CXXNewExpr>(E)) { set("new"); o["at"] = ty(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize()); if (x->getInitializer()) o["init"] = expr(x->getInitializer()); }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { set("delete"); o["e"] = expr(x->getArgument()); o["array"] = x->isArrayForm(); }
    else if (auto *x = dyn_cast<CompoundAssignOperator>(E)) { set("assignop"); o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = ty(x->getComputationResultType()); }
    else if (auto *x = dyn_cast<BinaryOperator>(E)) { set(x->getOpcode() == BO_Assign ? "assign" : "bin"); o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); }
    else if (auto *x = dyn_cast<UnaryOperator>(E)) { set("un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<AbstractConditionalOperator>(E)) { set("cond"); o["i"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) { set("index"); o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); }
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { (void)x; set("int"); }
    else if (auto *x = dyn_cast<InitListExpr>(E)) { set("initlist"); Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["e"] = std::move(a); }
    else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) set("zero");
    else if (auto *x = dyn_cast<LambdaExpr>(E)) {
      set("lambda"); o["call"] = fnref(x->getCallOperator());
      Array caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) { Object k; if (c.capturesVariable()) { k["id"] = id(c.getCapturedVar()); k["name"] = c.getCapturedVar()->getNameAsString(); k["ref"] = c.getCaptureKind() == LCK_ByRef; } else if (c.capturesThis()) k["this"] = true; caps.push_back(std::move(k)); ++ci; }
      o["caps"] = std::move(caps);
      Array ps; for (auto *p : x->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
      o["body"] = stmt(x->getBody());
    }
    else { set("other"); o["kind"] = E->getStmtClassName(); Array a; for (const Stmt *s : E->children()) if (auto *x = dyn_cast_or_null<Expr>(s)) a.push_back(expr(x)); o["e"] = std::move(a); }
    return Value(std::move(o));
  }
  int depth = 0;
  template <class R> Array args(R r) { Array a; for (const Expr *e : r) a.push_back(expr(e)); return a; }
  std::string base(const std::string &f) { size_t p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
  bool under(const Decl *D) { std::string f = file(D->getLocation()); for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true; return false; }
  Object param(const ParmVarDecl *p) { return Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", tyq(p->getType())}}; }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    Object o; o["l"] = line(S->getBeginLoc()); o["f"] = base(file(S->getBeginLoc()));
    auto set = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CompoundStmt>(S)) { set("block"); Array a; for (auto *s : x->body()) a.push_back(stmt(s)); o["s"] = std::move(a); }
    else if (auto *x = dyn_cast<DeclStmt>(S)) { set("decl"); Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); }
    else if (auto *x = dyn_cast<IfStmt>(S)) { set("if"); if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["i"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse()); }
    else if (auto *x = dyn_cast<ForStmt>(S)) { set("for"); o["init"] = stmt(x->getInit()); o["i"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<WhileStmt>(S)) { set("while"); o["i"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<DoStmt>(S)) { set("do"); o["i"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(S)) { set("range"); o["var"] = var(x->getLoopVariable()); o["range"] = expr(x->getRangeInit()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ReturnStmt>(S)) { set("return"); o["e"] = expr(x->getRetValue()); }
    else if (isa<BreakStmt>(S)) set("break");
    else if (isa<ContinueStmt>(S)) set("continue");
    else if (isa<NullStmt>(S)) set("null_stmt");
    else if (auto *x = dyn_cast<SwitchStmt>(S)) { set("switch"); o["i"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CaseStmt>(S)) { set("case"); o["e"] = expr(x->getLHS()); o["body"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<DefaultStmt>(S)) { set("default"); o["body"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<CXXTryStmt>(S)) { set("try"); o["body"] = stmt(x->getTryBlock()); }
    else { set("otherstmt"); o["kind"] = S->getStmtClassName(); }
    return Value(std::move(o));
  }
  Value var(const VarDecl *v) {
    Object o{{"id", id(v)}, {"name", v->getNameAsString()}, {"t", tyq(v->getType())}, {"l", line(v->getLocation())}};
    if (v->getType()->isReferenceType()) o["ref"] = true;
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    return Value(std::move(o));
  }
  Value function(const FunctionDecl *F) {
    Object o = fnref(F);
    o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation()); o["diag"] = qn(F);
    o["inline"] = F->isInlined(); o["def"] = F->isThisDeclarationADefinition(); o["linkage"] = (int)F->getFormalLinkage();
    o["ret"] = ty(F->getReturnType());
    if (F->isTemplated()) o["template"] = true;
    if (F->getTemplatedKind() != FunctionDecl::TK_NonTemplate) o["tinst"] = true;
    Array ps; for (auto *p : F->parameters()) { Object q = param(p); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) q["default"] = expr(p->getDefaultArg()); ps.push_back(std::move(q)); } o["params"] = std::move(ps);
    if (F->isDependentContext()) { o["dependent"] = true; return Value(std::move(o)); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Array in;
      for (auto *I : K->inits()) {
        Object q;
        if (I->isAnyMemberInitializer()) { q["member"] = I->getAnyMember()->getNameAsString(); q["rec"] = qn(I->getAnyMember()->getParent()); }
        else if (I->isBaseInitializer()) q["base"] = ty(QualType(I->getBaseClass(), 0));
        else q["delegate"] = true;
        q["e"] = expr(I->getInit());
        in.push_back(std::move(q));
      }
      o["inits"] = std::move(in);
    }
    if (auto *D = dyn_cast<CXXMethodDecl>(F)) (void)D;
    if (F->isThisDeclarationADefinition() && F->getBody()) o["body"] = stmt(F->getBody());
    return Value(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper D; Array fns, recs, vars;
  std::set<const Decl *> done;
  Visitor(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!D.under(F) || !done.insert(F).second) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    fns.push_back(D.function(F));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !D.under(V) || !done.insert(V).second || V->getType()->isDependentType()) return true;
    Object o{{"name", V->getQualifiedNameAsString()}, {"file", D.file(V->getLocation())}, {"line", D.line(V->getLocation())}, {"t", D.tyq(V->getType())}, {"const", V->getType().isConstQualified() || V->isConstexpr()}, {"linkage", (int)V->getFormalLinkage()}, {"def", (int)V->isThisDeclarationADefinition()}};
    vars.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !D.under(R) || R->isDependentContext() || !done.insert(R).second || R->isLambda()) return true;
    Object o{{"rec", D.qn(R)}, {"line", D.line(R->getLocation())}, {"file", D.file(R->getLocation())}, {"union", R->isUnion()}};
    Array b; for (auto &x : R->bases()) b.push_back(D.ty(x.getType())); o["bases"] = std::move(b);
    Array f; for (auto *x : R->fields()) { Object q{{"name", x->getNameAsString()}, {"t", D.tyq(x->getType())}}; if (x->hasInClassInitializer() && x->getInClassInitializer()) q["init"] = D.expr(x->getInClassInitializer()); f.push_back(std::move(q)); } o["fields"] = std::move(f);
    recs.push_back(std::move(o));
    return true;
  }
};

static Array Includes;
struct IncCB : PPCallbacks {
  SourceManager &SM;
  IncCB(SourceManager &SM) : SM(SM) {}
  void InclusionDirective(SourceLocation H, const Token &, StringRef Name, bool Angled, CharSourceRange, OptionalFileEntryRef File, StringRef, StringRef, const Module *, SrcMgr::CharacteristicKind) override {
    std::string from = SM.getFilename(SM.getExpansionLoc(H)).str();
    Includes.push_back(Object{{"from", from}, {"line", SM.getExpansionLineNumber(H)}, {"name", Name.str()}, {"angled", Angled}, {"to", File ? File->getName().str() : ""}});
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o{{"functions", std::move(V.fns)}, {"records", std::move(V.recs)}, {"vars", std::move(V.vars)}, {"includes", std::move(Includes)}};
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  bool BeginSourceFileAction(CompilerInstance &CI) override { CI.getPreprocessor().addPPCallbacks(std::make_unique<IncCB>(CI.getSourceManager())); return true; }
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  if (argc < 3) return 3;
  { std::string r; for (const char *p = argv[2];; p++) if (!*p || *p == ':') { if (!r.empty()) Roots.push_back(r); r.clear(); if (!*p) break; } else r += *p; }
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {argv[1]});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
