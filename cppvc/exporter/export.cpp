// Exports the clang AST of selected functions (and everything they call whose body is available in
// an allowed directory) as JSON.  No semantic transformation: implicit casts, default arguments and
// default initialisers are made explicit by clang itself; purely syntactic wrappers are dropped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("cppvc-export");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> BodyDirs("body-dir", llvm::cl::desc("dirs whose bodies are exported"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("root function qualified-name (prefix match)"), llvm::cl::cat(Cat));

struct Exporter {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  json::Array Types; std::map<std::string,int> TypeIds;
  std::map<const Decl*,int> DeclIds; int NextDecl = 1;
  std::deque<const FunctionDecl*> Work; std::set<const FunctionDecl*> Seen;
  json::Array Functions; json::Object Records; std::set<std::string> RecordsDone;
  json::Object Enums; json::Object Globals;
  std::deque<const CXXRecordDecl*> RecWork;
  const CXXMethodDecl *CurLambdaOp = nullptr;
  Exporter(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.Bool = true; PP.SuppressUnwrittenScope = false; PP.AnonymousTagLocations = true; PP.SuppressInlineNamespace = 1; PP.SuppressDefaultTemplateArgs = false;
  }
  int declId(const Decl *D) { D = D->getCanonicalDecl(); auto it = DeclIds.find(D); if (it!=DeclIds.end()) return it->second; return DeclIds[D]=NextDecl++; }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os, PP, true); os.flush(); return s; }
  std::string qnameNoTemplate(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); os.flush(); return s; }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L); PresumedLoc P = SM.getPresumedLoc(L); if (P.isInvalid()) return "?";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine()); }
  std::string fileOf(SourceLocation L) { L = SM.getExpansionLoc(L); auto F = SM.getFilename(L); return F.str(); }
  int lineOf(SourceLocation L) { return SM.getPresumedLoc(SM.getExpansionLoc(L)).getLine(); }
  bool inBodyDirs(SourceLocation L) { std::string f = fileOf(L); for (auto &d: BodyDirs) if (f.rfind(d,0)==0) return true; return false; }

  json::Value templArg(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return json::Object{{"ty", type(A.getAsType())}};
      case TemplateArgument::Integral: { llvm::SmallString<32> S; A.getAsIntegral().toString(S,10); return json::Object{{"int", std::string(S)}}; }
      case TemplateArgument::Pack: { json::Array a; for (auto &x: A.pack_elements()) a.push_back(templArg(x)); return json::Object{{"pack", std::move(a)}}; }
      default: { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); os.flush(); return json::Object{{"other", s}}; }
    }
  }
  int type(QualType Q) {
    if (Q.isNull()) return -1;
    Q = C.getCanonicalType(Q);
    std::string s = Q.getAsString(PP);
    // lambda types print identically when on the same line: make unique by decl id
    if (auto *RD = Q->getAsCXXRecordDecl()) if (RD->isLambda()) s += "#" + std::to_string(declId(RD)) + (Q.isConstQualified()?"c":"");
    auto it = TypeIds.find(s); if (it!=TypeIds.end()) return it->second;
    int id = Types.size(); TypeIds[s]=id; Types.push_back(nullptr);
    json::Object o; o["s"]=s; o["const"]=Q.isConstQualified();
    const Type *T = Q.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(T)) { o["k"]="builtin"; o["name"]=B->getName(PP).str();
      if (B->isInteger()) { o["bits"]=(int64_t)C.getTypeSize(T); o["signed"]=B->isSignedInteger(); }
      if (B->isFloatingPoint()) o["bits"]=(int64_t)C.getTypeSize(T); }
    else if (T->isPointerType()) { o["k"]="ptr"; o["to"]=type(T->getPointeeType()); }
    else if (T->isReferenceType()) { o["k"]="ref"; o["rvalue"]=T->isRValueReferenceType(); o["to"]=type(T->getPointeeType()); }
    else if (auto *E = dyn_cast<EnumType>(T)) { o["k"]="enum"; o["name"]=qname(E->getDecl());
      o["bits"]=(int64_t)C.getTypeSize(T); o["signed"]=E->getDecl()->getIntegerType()->isSignedIntegerType();
      json::Array en; for (auto *ec: E->getDecl()->enumerators()) { llvm::SmallString<32> S; ec->getInitVal().toString(S,10); en.push_back(json::Array{ec->getNameAsString(), std::string(S)}); }
      o["enumerators"]=std::move(en); }
    else if (auto *R = T->getAsCXXRecordDecl()) { o["k"]="record"; o["name"]=qnameNoTemplate(R); o["decl"]=declId(R);
      o["lambda"]=R->isLambda();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) { json::Array a; for (auto &x: S->getTemplateArgs().asArray()) a.push_back(templArg(x)); o["targs"]=std::move(a); }
      o["rec"]=s;
      if (R->isCompleteDefinition() || R->getDefinition()) { auto *D=R->getDefinition(); record(D, s); } }
    else if (auto *A = dyn_cast<ConstantArrayType>(T)) { o["k"]="array"; o["to"]=type(A->getElementType()); o["n"]=(int64_t)A->getSize().getZExtValue(); }
    else if (T->isFunctionType()) { o["k"]="function"; }
    else { o["k"]="other"; o["cls"]=T->getTypeClassName(); }
    Types[id]=std::move(o); return id;
  }
  void record(const CXXRecordDecl *D, std::string key) {
    // strip const from key
    if (key.rfind("const ",0)==0) key = key.substr(6);
    if (!RecordsDone.insert(key).second) return;
    json::Object o; json::Array fs;
    bool inBody = inBodyDirs(D->getLocation());
    o["loc"]=locStr(D->getLocation()); o["inbody"]=inBody; o["name"]=qnameNoTemplate(D); o["polymorphic"]=D->isPolymorphic(); o["abstract"]=D->isAbstract();
    json::Array bs;
    for (auto &b: D->bases()) { bs.push_back(type(b.getType())); }
    o["bases"]=std::move(bs);
    bool sys = SM.isInSystemHeader(D->getLocation());
    if (!sys || inBody || D->isLambda()) {
      for (auto *f: D->fields()) { json::Object fo; fo["name"]=f->getNameAsString(); fo["t"]=type(f->getType()); fo["id"]=declId(f); fo["mutable"]=f->isMutable();
        if (f->hasInClassInitializer() && inBody) { if (auto *I=f->getInClassInitializer()) fo["init"]=stmt(I); }
        fs.push_back(std::move(fo)); }
    }
    o["fields"]=std::move(fs);
    Records[key]=std::move(o);
  }
  json::Object calleeInfo(const FunctionDecl *F) {
    json::Object o; 
    if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    o["id"]=declId(F); o["q"]=qnameNoTemplate(F); o["full"]=qname(F);
    o["ret"]=type(F->getReturnType());
    json::Array ps; for (auto *p: F->parameters()) ps.push_back(type(p->getType())); o["params"]=std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) { json::Array a; for (auto &x: TA->asArray()) a.push_back(templArg(x)); o["targs"]=std::move(a); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"]=type(C.getRecordType(M->getParent())); o["virtual"]=M->isVirtual(); o["const"]=M->isConst(); o["static"]=M->isStatic();
      o["lambda"]=M->getParent()->isLambda(); }
    o["name"]=F->getNameAsString();
    o["implicit"]=F->isImplicit() || F->isDefaulted();
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"]= K->isCopyConstructor()? "copy" : K->isMoveConstructor()? "move" : K->isDefaultConstructor()? "default":"other"; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isCopyAssignmentOperator()) o["assign"]="copy"; if (M->isMoveAssignmentOperator()) o["assign"]="move"; }
    const FunctionDecl *Def=nullptr; 
    if (F->hasBody(Def) && inBodyDirs(Def->getLocation())) { o["body"]=true; enqueue(Def); }
    else if (F->isDefaulted() && inBodyDirs(F->getLocation())) { const FunctionDecl *D2=nullptr; if (F->hasBody(D2)) { o["body"]=true; enqueue(D2);} }
    return o;
  }
  void enqueue(const FunctionDecl *F) { F = cast<FunctionDecl>(F); if (Seen.insert(F->getCanonicalDecl()).second) Work.push_back(F); }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto *E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(E->getExpr());
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
    if (auto *E = dyn_cast<AttributedStmt>(S)) return stmt(E->getSubStmt());
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) return stmt(E->getSemanticForm());
    json::Object o; o["k"]=S->getStmtClassName(); o["l"]=lineOf(S->getBeginLoc());
    json::Array c;
    if (auto *E = dyn_cast<Expr>(S)) { o["t"]=type(E->getType()); o["vk"]= E->isLValue()?"l": E->isXValue()?"x":"r";
      // constant evaluation for pure literals in constexpr contexts
      Expr::EvalResult R; (void)R; }
    if (auto *D = dyn_cast<DeclStmt>(S)) { for (auto *d: D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) c.push_back(var(V)); else { json::Object x; x["k"]="OtherDecl"; x["cls"]=d->getDeclKindName(); c.push_back(std::move(x)); } }
      o["c"]=std::move(c); return o; }
    if (auto *I = dyn_cast<IfStmt>(S)) { o["init"]=stmt(I->getInit()); if (I->getConditionVariable()) o["var"]=var(I->getConditionVariable()); o["constexpr"]=I->isConstexpr();
      if (I->isConstexpr()) { if (auto N = I->getNondiscardedCase(C)) { o["nondiscarded"]= *N ? stmt(*N) : json::Value(nullptr); } }
      o["cond"]=stmt(I->getCond()); 
      if (!o.get("nondiscarded")) { o["then"]=stmt(I->getThen()); o["else"]=stmt(I->getElse()); }
      return o; }
    if (auto *F = dyn_cast<ForStmt>(S)) { o["init"]=stmt(F->getInit()); o["cond"]=stmt(F->getCond()); o["inc"]=stmt(F->getInc()); o["body"]=stmt(F->getBody()); if (F->getConditionVariable()) o["var"]=var(F->getConditionVariable()); return o; }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) { o["range"]=stmt(F->getRangeInit()); o["loopvar"]=var(F->getLoopVariable()); o["body"]=stmt(F->getBody()); if (F->getInit()) o["init"]=stmt(F->getInit()); return o; }
    if (auto *W = dyn_cast<WhileStmt>(S)) { o["cond"]=stmt(W->getCond()); if (W->getConditionVariable()) o["var"]=var(W->getConditionVariable()); o["body"]=stmt(W->getBody()); return o; }
    if (auto *W = dyn_cast<DoStmt>(S)) { o["cond"]=stmt(W->getCond()); o["body"]=stmt(W->getBody()); return o; }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { if (W->getInit()) o["init"]=stmt(W->getInit()); if (W->getConditionVariable()) o["var"]=var(W->getConditionVariable()); o["cond"]=stmt(W->getCond()); o["body"]=stmt(W->getBody()); return o; }
    if (auto *W = dyn_cast<CaseStmt>(S)) { o["lhs"]=stmt(W->getLHS()); o["sub"]=stmt(W->getSubStmt()); 
      Expr::EvalResult R; if (W->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> SS; R.Val.getInt().toString(SS,10); o["val"]=std::string(SS);} return o; }
    if (auto *W = dyn_cast<DefaultStmt>(S)) { o["sub"]=stmt(W->getSubStmt()); return o; }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { o["body"]=stmt(T->getTryBlock()); for (unsigned i=0;i<T->getNumHandlers();++i) { auto *H=T->getHandler(i); json::Object h; h["type"]=H->getCaughtType().isNull()?-1:type(H->getCaughtType()); if (H->getExceptionDecl()) h["var"]=var(H->getExceptionDecl()); h["body"]=stmt(H->getHandlerBlock()); c.push_back(std::move(h)); } o["handlers"]=std::move(c); return o; }
    if (auto *L = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> SS; L->getValue().toString(SS,10,L->getType()->isSignedIntegerType()); o["v"]=std::string(SS); return o; }
    if (auto *L = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<64> SS; llvm::APFloat v=L->getValue(); bool li; if (&v.getSemantics()!=&llvm::APFloat::IEEEdouble()) v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven,&li); o["v"]=std::to_string(v.bitcastToAPInt().getZExtValue()); o["d"]=v.convertToDouble(); return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) { o["v"]=L->getValue(); return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(S)) { o["v"]=(int64_t)L->getValue(); return o; }
    if (auto *L = dyn_cast<StringLiteral>(S)) { if (L->getCharByteWidth()==1) { std::string s = L->getString().str(); if (!json::isUTF8(s)) s = json::fixUTF8(s); o["v"]=s; } return o; }
    if (auto *D = dyn_cast<DeclRefExpr>(S)) { auto *V = D->getDecl(); o["id"]=declId(V); o["name"]=V->getNameAsString(); o["dk"]=V->getDeclKindName();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { llvm::SmallString<32> SS; EC->getInitVal().toString(SS,10); o["v"]=std::string(SS); }
      else if (auto *FD = dyn_cast<FunctionDecl>(V)) o["callee"]=calleeInfo(FD);
      else if (auto *VD = dyn_cast<VarDecl>(V)) { if (VD->hasGlobalStorage()) global(VD); }
      else if (auto *BD = dyn_cast<BindingDecl>(V)) { o["binding"]=true; }
      if (D->refersToEnclosingVariableOrCapture()) o["captured"]=true;
      return o; }
    if (auto *M = dyn_cast<MemberExpr>(S)) { o["arrow"]=M->isArrow(); auto *MD=M->getMemberDecl(); o["member"]=MD->getNameAsString(); o["base"]=stmt(M->getBase()); o["bt"]=type(M->getBase()->getType());
      if (auto *FD = dyn_cast<FunctionDecl>(MD)) o["callee"]=calleeInfo(FD); else if (auto *VD = dyn_cast<VarDecl>(MD)) { global(VD); o["id"]=declId(VD); o["static"]=true; } else o["fid"]=declId(MD);
      return o; }
    if (auto *CE = dyn_cast<CastExpr>(S)) { o["ck"]=CE->getCastKindName(); o["sub"]=stmt(CE->getSubExpr()); 
      if (auto *F = CE->getConversionFunction()) if (auto *FF=dyn_cast<FunctionDecl>(F)) o["conv"]=calleeInfo(FF); return o; }
    if (auto *L = dyn_cast<LambdaExpr>(S)) { auto *R=L->getLambdaClass(); o["cls"]=type(C.getRecordType(R)); json::Array caps;
      auto init = L->capture_init_begin();
      for (auto &cap: L->captures()) { json::Object x; if (cap.capturesThis()) { x["this"]=true; x["byref"]= cap.getCaptureKind()==LCK_This; } else if (cap.capturesVariable()) { x["id"]=declId(cap.getCapturedVar()); x["name"]=cap.getCapturedVar()->getNameAsString(); x["byref"]= cap.getCaptureKind()==LCK_ByRef; x["t"]=type(cap.getCapturedVar()->getType()); if (*init) x["init"]=stmt(*init);} caps.push_back(std::move(x)); ++init; }
      o["caps"]=std::move(caps); 
      if (R->isGenericLambda()) { o["generic"]=true; json::Array ops; if (auto *FT = R->getDependentLambdaCallOperator()) (void)FT; 
        if (auto *CO = R->getLambdaCallOperator()) if (auto *FT = CO->getDescribedFunctionTemplate()) for (auto *sp: FT->specializations()) { ops.push_back(declId(sp)); if (sp->hasBody()) enqueue(sp); } o["ops"]=std::move(ops); }
      else if (auto *CO=R->getLambdaCallOperator()) { o["op"]=declId(CO); enqueue(CO); }
      return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(S)) { o["ctor"]=calleeInfo(X->getConstructor()); o["elidable"]=X->isElidable(); o["list"]=X->isListInitialization(); o["zero"]=X->requiresZeroInitialization(); for (auto *a: X->arguments()) c.push_back(stmt(a)); o["c"]=std::move(c); return o; }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) { o["ctor"]=calleeInfo(X->getConstructor()); return o; }
    if (auto *X = dyn_cast<CallExpr>(S)) { if (auto *F = X->getDirectCallee()) o["callee"]=calleeInfo(F);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) o["op"]=getOperatorSpelling(OC->getOperator());
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) { auto *cal=MC->getCallee()->IgnoreParens(); if (auto *ME=dyn_cast<MemberExpr>(cal)) { o["obj"]=stmt(ME->getBase()); o["arrow"]=ME->isArrow(); o["qualified"]=ME->hasQualifier(); o["objt"]=type(ME->getBase()->getType()); } else o["fn"]=stmt(MC->getCallee()); }
      else if (!X->getDirectCallee()) o["fn"]=stmt(X->getCallee());
      for (auto *a: X->arguments()) c.push_back(stmt(a)); o["c"]=std::move(c); return o; }
    if (auto *B = dyn_cast<BinaryOperator>(S)) { o["op"]=B->getOpcodeStr().str(); o["lhs"]=stmt(B->getLHS()); o["rhs"]=stmt(B->getRHS()); if (auto *CA=dyn_cast<CompoundAssignOperator>(S)) o["ct"]=type(CA->getComputationResultType()); return o; }
    if (auto *U = dyn_cast<UnaryOperator>(S)) { o["op"]=UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["postfix"]=U->isPostfix(); o["sub"]=stmt(U->getSubExpr()); return o; }
    if (auto *I = dyn_cast<InitListExpr>(S)) { if (I->isSemanticForm()==false && I->getSemanticForm()) return stmt(I->getSemanticForm()); for (auto *a: I->inits()) c.push_back(stmt(a)); if (I->hasArrayFiller()) o["filler"]=stmt(I->getArrayFiller()); o["c"]=std::move(c); return o; }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) { o["sub"]=stmt(M->getSubExpr()); return o; }
    if (auto *T = dyn_cast<CXXThrowExpr>(S)) { o["sub"]=stmt(T->getSubExpr()); return o; }
    if (auto *N = dyn_cast<CXXNewExpr>(S)) { o["at"]=type(N->getAllocatedType()); o["init"]=stmt(N->getInitializer()); o["array"]=N->isArray(); return o; }
    if (auto *N = dyn_cast<CXXDeleteExpr>(S)) { o["sub"]=stmt(N->getArgument()); return o; }
    if (auto *N = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { Expr::EvalResult R; if (N->EvaluateAsInt(R,C)) { llvm::SmallString<32> SS; R.Val.getInt().toString(SS,10); o["v"]=std::string(SS);} return o; }
    if (auto *N = dyn_cast<TypeTraitExpr>(S)) { if (!N->isValueDependent()) o["v"]=N->getValue(); return o; }
    if (auto *N = dyn_cast<CXXTypeidExpr>(S)) { return o; }
    if (auto *N = dyn_cast<CXXStdInitializerListExpr>(S)) { o["sub"]=stmt(N->getSubExpr()); return o; }
    if (auto *N = dyn_cast<OpaqueValueExpr>(S)) { o["sub"]=stmt(N->getSourceExpr()); return o; }
    if (auto *N = dyn_cast<LabelStmt>(S)) { o["sub"]=stmt(N->getSubStmt()); return o; }
    for (auto *ch: S->children()) c.push_back(stmt(ch));
    o["c"]=std::move(c); return o;
  }
  void global(const VarDecl *V) {
    std::string id = std::to_string(declId(V)); if (Globals.find(id)!=Globals.end()) return;
    Globals[id]=nullptr; json::Object o; o["name"]=qnameNoTemplate(V); o["t"]=type(V->getType()); o["const"]= V->getType().isConstQualified(); o["constexpr"]=V->isConstexpr();
    const VarDecl *Def = V->getInitializingDeclaration(); 
    if (Def && Def->getInit() && !Def->getInit()->isValueDependent()) { 
      if (V->getType().isConstQualified() || V->isConstexpr()) {
        if (V->getType()->isFloatingType()) { llvm::APFloat r(0.0); if (Def->getInit()->EvaluateAsFloat(r, C)) { bool li; if (&r.getSemantics()!=&llvm::APFloat::IEEEdouble()) r.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven,&li); o["fbits"]=std::to_string(r.bitcastToAPInt().getZExtValue()); } }
        else if (V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (Def->getInit()->EvaluateAsInt(R,C)) { llvm::SmallString<32> SS; R.Val.getInt().toString(SS,10); o["ival"]=std::string(SS);} }
      }
      o["init"]=stmt(Def->getInit()); }
    Globals[id]=std::move(o);
  }
  json::Value var(const VarDecl *V) {
    json::Object o; o["k"]="Var"; o["id"]=declId(V); o["name"]=V->getNameAsString(); o["t"]=type(V->getType()); o["l"]=lineOf(V->getLocation()); o["static"]=V->isStaticLocal();
    if (V->getInit() && !isa<ParmVarDecl>(V)) o["init"]=stmt(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { json::Array b; for (auto *x: D->bindings()) { json::Object y; y["id"]=declId(x); y["name"]=x->getNameAsString(); y["t"]=type(x->getType()); if (x->getBinding() && !x->getHoldingVar()) y["e"]=stmt(x->getBinding()); if (auto *HV=x->getHoldingVar()) { y["hv"]=true; if (HV->getInit()) y["e"]=stmt(HV->getInit()); y["hid"]=declId(HV);} b.push_back(std::move(y)); } o["bindings"]=std::move(b); }
    return o;
  }
  void function(const FunctionDecl *F) {
    const FunctionDecl *Def=nullptr; if (!F->hasBody(Def)) return; F=Def;
    json::Object o = calleeInfo(F); o["file"]=fileOf(F->getLocation()); o["line"]=lineOf(F->getLocation()); o["endline"]=lineOf(F->getEndLoc());
    json::Array ps; for (auto *p: F->parameters()) ps.push_back(var(p)); o["args"]=std::move(ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { json::Array is; for (auto *i: K->inits()) { json::Object x; if (i->isMemberInitializer()) { x["field"]=i->getMember()->getNameAsString(); x["ft"]=type(i->getMember()->getType()); } else if (i->isIndirectMemberInitializer()) x["field"]=i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) x["base"]=type(QualType(i->getBaseClass(),0)); else x["delegating"]=true; x["e"]=stmt(i->getInit()); is.push_back(std::move(x)); } o["inits"]=std::move(is); }
    o["bodyst"]=stmt(F->getBody());
    o["noexcept"]=false;
    if (auto *FT = F->getType()->getAs<FunctionProtoType>()) { auto es=FT->getExceptionSpecType(); if (!isUnresolvedExceptionSpec(es)) o["noexcept"]=FT->isNothrow(); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { json::Array ov; for (auto *x: M->overridden_methods()) ov.push_back(declId(x)); o["overrides"]=std::move(ov); }
    Functions.push_back(std::move(o));
  }
  void run(std::vector<const FunctionDecl*> &roots, json::Array &missing) {
    for (auto *f: roots) enqueue(f);
    while (!Work.empty()) { auto *f=Work.front(); Work.pop_front(); function(f); }
  }
};

struct RootFinder : RecursiveASTVisitor<RootFinder> {
  Exporter &E; std::vector<const FunctionDecl*> Found; std::set<std::string> Hit;
  RootFinder(Exporter &E): E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!E.inBodyDirs(F->getLocation())) return true;
    std::string q = E.qnameNoTemplate(F), full = E.qname(F);
    for (auto &r: Roots) {
      bool m = false;
      if (!r.empty() && r.back()=='*') m = full.rfind(r.substr(0,r.size()-1),0)==0 || q.rfind(r.substr(0,r.size()-1),0)==0;
      else m = full==r || q==r;
      if (m) { Found.push_back(F); Hit.insert(r); break; } }
    return true;
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter E(C); RootFinder R(E); R.TraverseDecl(C.getTranslationUnitDecl());
    json::Array missing; for (auto &r: Roots) if (!R.Hit.count(r)) missing.push_back(r);
    E.run(R.Found, missing);
    json::Object o; o["functions"]=std::move(E.Functions); o["types"]=std::move(E.Types); o["records"]=std::move(E.Records); o["globals"]=std::move(E.Globals); o["missing"]=std::move(missing);
    o["errors"]=(int64_t)C.getDiagnostics().hasErrorOccurred();
    std::error_code EC; llvm::raw_fd_ostream os(OutFile, EC); os << json::Value(std::move(o)); os << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  auto OP = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!OP) { llvm::errs() << toString(OP.takeError()); return 2; }
  tooling::ClangTool Tool(OP->getCompilations(), OP->getSourcePathList());
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
