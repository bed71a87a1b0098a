// extract: dumps a compact JSON mini-AST of the C++ functions reachable from the
// requested roots.  It is purely mechanical: it parses the real headers/sources of the
// repository with clang and prints what clang resolved (types, implicit conversions,
// callee declarations, instantiated template bodies).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> RootPats;   // qualified-name prefixes / exact names
static std::string OutFile;
static std::vector<std::string> FollowNS;   // namespaces whose bodies are emitted

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const void*, int> typeIds;
  J::Array types;
  std::map<const Decl*, int> funIds;
  J::Array funs;                // index = id
  std::deque<const FunctionDecl*> work;
  std::map<const Decl*, int> varIds;
  std::map<std::string, J::Object> records;
  std::set<std::string> doneRec;
  int nextVar = 1;

  Dumper(ASTContext &c): C(c), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName=true; }

  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P(PP); 
    D->printQualifiedName(os, P);
    return os.str();
  }
  std::string bareq(const NamedDecl *D) {
    // qualified name without template arguments
    std::string n = D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString();
    if (isa<CXXConstructorDecl>(D)) n = "ctor";
    else if (isa<CXXDestructorDecl>(D)) n = "dtor";
    else if (auto *CV = dyn_cast<CXXConversionDecl>(D)) n = "conv:" + CV->getConversionType().getCanonicalType().getAsString(PP);
    const DeclContext *DC = D->getDeclContext();
    std::string q;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *ND = dyn_cast<NamedDecl>(DC)) {
        if (auto *NS = dyn_cast<NamespaceDecl>(ND)) { if (!NS->isInline() && !NS->isAnonymousNamespace()) q = NS->getNameAsString() + "::" + q; }
        else if (auto *RD = dyn_cast<RecordDecl>(ND)) q = RD->getNameAsString() + "::" + q;
        else if (auto *FD = dyn_cast<FunctionDecl>(ND)) q = FD->getNameAsString() + "()::" + q;
      }
      DC = DC->getParent();
    }
    return q + n;
  }

  int type(QualType T) {
    QualType CT = T.getCanonicalType();
    const void *key = CT.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    J::Object o;
    if (CT.isConstQualified()) o["const"] = true;
    const Type *U = CT.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(U)) {
      o["k"] = isa<RValueReferenceType>(R) ? "rref" : "lref";
      o["e"] = type(R->getPointeeType());
    } else if (auto *P = dyn_cast<PointerType>(U)) {
      o["k"] = "ptr"; o["e"] = type(P->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(U)) {
      o["k"] = "arr"; o["e"] = type(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *B = dyn_cast<BuiltinType>(U)) {
      if (B->isBooleanType()) { o["k"]="bool"; }
      else if (B->isInteger()) { o["k"]="int"; o["bits"]=(int64_t)C.getTypeSize(CT); o["sg"]=B->isSignedInteger(); }
      else if (B->isVoidType()) o["k"]="void";
      else if (B->isFloatingPoint()) o["k"]="float";
      else o["k"]="builtin";
    } else if (auto *E = dyn_cast<EnumType>(U)) {
      o["k"]="enum"; o["name"]=bareq(E->getDecl());
    } else if (auto *R = dyn_cast<RecordType>(U)) {
      o["k"]="rec"; o["name"]=bareq(R->getDecl());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) {
        J::Array args;
        for (auto &a : S->getTemplateArgs().asArray()) args.push_back(targ(a));
        o["args"] = std::move(args);
      }
      if (R->isUnionType()) o["union"]=true;
      record(R->getDecl());
    } else if (auto *F = dyn_cast<FunctionProtoType>(U)) {
      (void)F; o["k"]="fn";
    } else o["k"]="other";
    o["s"] = CT.getAsString(PP);
    types[id] = std::move(o);
    return id;
  }
  J::Value targ(const TemplateArgument &a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return J::Value(type(a.getAsType()));
      case TemplateArgument::Integral: { J::Object o; llvm::SmallString<32> s; a.getAsIntegral().toString(s); o["i"]=s.str().str(); return J::Value(std::move(o)); }
      case TemplateArgument::Pack: { J::Array arr; for (auto &x: a.pack_elements()) arr.push_back(targ(x)); return J::Value(std::move(arr)); }
      default: return J::Value(nullptr);
    }
  }
  void record(const RecordDecl *RD) {
    RD = RD->getDefinition(); if (!RD) return;
    std::string s = C.getRecordType(RD).getCanonicalType().getAsString(PP);
    if (!doneRec.insert(s).second) return;
    // only describe records of the followed namespaces
    if (!follow(RD)) return;
    J::Object o; o["name"]=bareq(RD);
    J::Array fs;
    for (auto *f : RD->fields()) { J::Object fo; fo["n"]=f->getNameAsString(); fo["t"]=type(f->getType()); fs.push_back(std::move(fo)); }
    o["fields"]=std::move(fs);
    records[s] = std::move(o);
  }
  bool follow(const Decl *D) {
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC))
        for (auto &f : FollowNS) if (NS->getNameAsString()==f) return true;
      DC = DC->getParent();
    }
    return false;
  }

  int var(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = varIds.find(D);
    if (it != varIds.end()) return it->second;
    return varIds[D] = nextVar++;
  }
  int fun(const FunctionDecl *FD) {
    const FunctionDecl *K = FD->getCanonicalDecl();
    auto it = funIds.find(K);
    if (it != funIds.end()) return it->second;
    int id = funs.size(); funIds[K]=id; funs.push_back(nullptr);
    J::Object o;
    o["id"]=id; o["q"]=bareq(FD); o["full"]=qname(FD);
    o["ret"]=type(FD->getReturnType());
    J::Array ps;
    const FunctionDecl *Def=nullptr; FD->hasBody(Def);
    const FunctionDecl *PD = Def ? Def : FD;
    for (auto *p : PD->parameters()) { J::Object po; po["n"]=p->getNameAsString(); po["t"]=type(p->getType()); po["id"]=var(p); ps.push_back(std::move(po)); }
    o["params"]=std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"]=type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"]=true;
      if (M->isConst()) o["cm"]=true;
      if (isa<CXXConstructorDecl>(M)) o["kind"]="ctor";
      else if (isa<CXXDestructorDecl>(M)) o["kind"]="dtor";
      else if (isa<CXXConversionDecl>(M)) o["kind"]="conv";
      else o["kind"]="method";
      if (M->isDefaulted() || M->isImplicit()) o["dflt"]=true;
    } else o["kind"]="fn";
    if (auto *TA = FD->getTemplateSpecializationArgs()) { J::Array a; for (auto &x : TA->asArray()) a.push_back(targ(x)); o["targs"]=std::move(a); }
    auto L = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(PD->getLocation()));
    if (L.isValid()) { o["file"]=L.getFilename(); o["line"]=(int64_t)L.getLine(); }
    o["builtin"]=(int64_t)FD->getBuiltinID();
    if (FD->isNoReturn()) o["noreturn"]=true;
    funs[id]=std::move(o);
    if (follow(FD)) work.push_back(FD);
    return id;
  }

  void process() {
    while (!work.empty()) {
      const FunctionDecl *FD = work.front(); work.pop_front();
      const FunctionDecl *Def=nullptr;
      if (!FD->hasBody(Def)) continue;
      int id = funIds[FD->getCanonicalDecl()];
      J::Value body = stmt(Def->getBody());
      J::Array inits;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
        for (auto *I : CD->inits()) {
          J::Object io;
          if (I->isMemberInitializer()) io["f"]=I->getMember()->getNameAsString();
          else if (I->isBaseInitializer()) io["base"]=type(QualType(I->getBaseClass(),0));
          else if (I->isDelegatingInitializer()) io["deleg"]=true;
          io["w"]=I->isWritten();
          io["e"]=expr(I->getInit());
          inits.push_back(std::move(io));
        }
      }
      auto *o = funs[id].getAsObject();
      (*o)["body"]=std::move(body);
      if (!inits.empty()) (*o)["inits"]=std::move(inits);
      (*o)["defd"]=true;
    }
  }

  int64_t line(SourceLocation l) {
    auto L = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l));
    return L.isValid()? (int64_t)L.getLine():0;
  }

  J::Value vdecl(const VarDecl *V) {
    J::Object o; o["n"]=V->getNameAsString(); o["id"]=var(V); o["t"]=type(V->getType());
    if (V->isStaticLocal()) o["static"]=true;
    if (V->getInit()) { o["init"]=expr(V->getInit()); }
    return J::Value(std::move(o));
  }

  J::Value stmt(const Stmt *S) {
    J::Object o;
    if (!S) { return J::Value(nullptr); }
    o["l"]=line(S->getBeginLoc());
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"]="Block"; J::Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["s"]=std::move(a); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) { o["k"]="Decl"; J::Array a; for (auto *d : X->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) { if (auto *DD = dyn_cast<DecompositionDecl>(V)) { J::Value v = vdecl(V); J::Array bs; for (auto *b : DD->bindings()) { J::Object bo; bo["n"]=b->getNameAsString(); bo["id"]=var(b); if (b->getBinding()) bo["e"]=expr(b->getBinding()); bs.push_back(std::move(bo)); } (*v.getAsObject())["bind"]=std::move(bs); a.push_back(std::move(v)); } else a.push_back(vdecl(V)); } } o["d"]=std::move(a); }
    else if (auto *X = dyn_cast<IfStmt>(S)) { 
      if (X->isConstexpr()) { auto ND = X->getNondiscardedCase(C); if (ND) { if (*ND) return stmt(*ND); o["k"]="Block"; o["s"]=J::Array(); return J::Value(std::move(o)); } }
      o["k"]="If"; if (X->getInit()) o["init"]=stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) o["cv"]=stmt(X->getConditionVariableDeclStmt()); o["c"]=expr(X->getCond()); o["t"]=stmt(X->getThen()); if (X->getElse()) o["e"]=stmt(X->getElse()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"]="While"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { o["k"]="Do"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); }
    else if (auto *X = dyn_cast<ForStmt>(S)) { o["k"]="For"; if (X->getInit()) o["i"]=stmt(X->getInit()); if (X->getCond()) o["c"]=expr(X->getCond()); if (X->getInc()) o["inc"]=expr(X->getInc()); o["b"]=stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["k"]="RFor"; o["r"]=expr(X->getRangeInit()); o["v"]=vdecl(X->getLoopVariable()); o["b"]=stmt(X->getBody()); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"]="Ret"; if (X->getRetValue()) o["e"]=expr(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"]="Break";
    else if (isa<ContinueStmt>(S)) o["k"]="Cont";
    else if (isa<NullStmt>(S)) { o["k"]="Block"; o["s"]=J::Array(); }
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"]="Switch"; o["c"]=expr(X->getCond()); o["b"]=stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"]="Case"; o["v"]=expr(X->getLHS()); o["s"]=stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"]="Default"; o["s"]=stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"]="Try"; o["b"]=stmt(X->getTryBlock()); }
    else if (auto *X = dyn_cast<GCCAsmStmt>(S)) {
      o["k"]="Asm"; o["str"]=X->getAsmString()->getString().str();
      J::Array outs, ins;
      for (unsigned i=0;i<X->getNumOutputs();++i) { J::Object p; p["n"]=X->getOutputName(i).str(); p["c"]=X->getOutputConstraint(i).str(); p["e"]=expr(X->getOutputExpr(i)); outs.push_back(std::move(p)); }
      for (unsigned i=0;i<X->getNumInputs();++i) { J::Object p; p["n"]=X->getInputName(i).str(); p["c"]=X->getInputConstraint(i).str(); p["e"]=expr(X->getInputExpr(i)); ins.push_back(std::move(p)); }
      o["out"]=std::move(outs); o["in"]=std::move(ins);
    }
    else if (auto *E = dyn_cast<Expr>(S)) { o["k"]="Expr"; o["e"]=expr(E); }
    else { o["k"]="Unsupported"; o["cls"]=S->getStmtClassName(); }
    return J::Value(std::move(o));
  }

  J::Value expr(const Expr *E) {
    if (!E) return J::Value(nullptr);
    // transparent nodes
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      break;
    }
    J::Object o;
    o["t"]=type(E->getType());
    if (E->isLValue()) o["v"]="l"; else if (E->isXValue()) o["v"]="x";
    auto addargs=[&](llvm::iterator_range<CallExpr::const_arg_iterator> r){ J::Array a; for (auto *x: r) a.push_back(expr(x)); return a; };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; X->getValue().toString(s,10,X->getType()->isSignedIntegerType()); o["k"]="Int"; o["n"]=s.str().str(); }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"]="Int"; o["n"]=std::to_string(X->getValue()); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"]="Bool"; o["n"]=X->getValue(); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"]="Float"; llvm::SmallString<32> s; X->getValue().toString(s); o["n"]=s.str().str(); }
    else if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"]="Str"; o["n"]=X->isOrdinary()?X->getString().str():std::string("?"); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) o["k"]="Null";
    else if (isa<CXXThisExpr>(E)) o["k"]="This";
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(X->getDecl())) { o["k"]="Fn"; o["f"]=fun(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(X->getDecl())) { o["k"]="Int"; llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["n"]=s.str().str(); }
      else if (auto *BD = dyn_cast<BindingDecl>(X->getDecl())) { o["k"]="Var"; o["id"]=var(BD); o["n"]=BD->getNameAsString(); }
      else { auto *V = X->getDecl(); o["k"]="Var"; o["id"]=var(V); o["n"]=V->getNameAsString();
        if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->hasGlobalStorage()) { o["g"]=true; o["q"]=bareq(VD);
          if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["k"]="Int"; o["n"]=s.str().str(); o["cn"]=bareq(VD);} } } }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) { o["k"]="Mem"; o["n"]=F->getNameAsString(); o["b"]=expr(X->getBase()); if (X->isArrow()) o["arrow"]=true; }
      else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { o["k"]="Var"; o["id"]=var(V); o["n"]=V->getNameAsString(); o["g"]=true; o["q"]=bareq(V); }
      else { o["k"]="MemFn"; o["b"]=expr(X->getBase()); if (X->isArrow()) o["arrow"]=true; }
    }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"]="OpCall"; o["op"]=getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["f"]=fun(F);
      o["a"]=addargs(X->arguments());
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"]="MCall";
      if (auto *M = X->getMethodDecl()) o["f"]=fun(M);
      o["o"]=expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->isArrow()) o["arrow"]=true;
      o["a"]=addargs(X->arguments());
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"]="Call";
      if (auto *F = X->getDirectCallee()) o["f"]=fun(F); else o["ce"]=expr(X->getCallee());
      o["a"]=addargs(X->arguments());
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"]="Ctor"; o["f"]=fun(X->getConstructor());
      J::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["a"]=std::move(a);
      if (X->isElidable()) o["elide"]=true;
      if (X->isListInitialization()) o["list"]=true;
      if (X->isStdInitListInitialization()) o["il"]=true;
    }
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; o["k"]="Unsupported"; o["cls"]="InheritedCtor"; }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"]="Cast"; o["ck"]=X->getCastKindName(); o["e"]=expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"]="Un"; o["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"]=X->isPostfix(); o["e"]=expr(X->getSubExpr()); }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"]="CAsg"; o["op"]=X->getOpcodeStr().str(); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); o["ct"]=type(X->getComputationLHSType()); o["rt"]=type(X->getComputationResultType()); }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"]="Bin"; o["op"]=X->getOpcodeStr().str(); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); }
    else if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"]="Cond"; o["c"]=expr(X->getCond()); o["a"]=expr(X->getTrueExpr()); o["b"]=expr(X->getFalseExpr()); }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"]="Sub"; o["a"]=expr(X->getBase()); o["i"]=expr(X->getIdx()); }
    else if (auto *X = dyn_cast<InitListExpr>(E)) { o["k"]="IL"; if (auto *S = X->getSemanticForm()) X = S; J::Array a; for (auto *x : X->inits()) a.push_back(expr(x)); o["a"]=std::move(a); }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"]="New"; o["et"]=type(X->getAllocatedType()); if (X->isArray()) { o["arr"]=true; if (X->getArraySize()) o["n"]=expr(*X->getArraySize()); } if (X->getInitializer()) o["i"]=expr(X->getInitializer()); }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"]="Delete"; o["e"]=expr(X->getArgument()); if (X->isArrayForm()) o["arr"]=true; }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"]="Throw"; if (X->getSubExpr()) o["tt"]=type(X->getSubExpr()->getType()); }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (X->EvaluateAsInt(R,C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["k"]="Int"; o["n"]=s.str().str(); o["sizeof"]=true; } else o["k"]="Unsupported"; }
    else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"]="Zero"; }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"]="Lambda"; auto *M = X->getCallOperator();
      J::Array ps; for (auto *p : M->parameters()) { J::Object po; po["n"]=p->getNameAsString(); po["t"]=type(p->getType()); po["id"]=var(p); ps.push_back(std::move(po)); }
      o["params"]=std::move(ps); o["ret"]=type(M->getReturnType()); o["b"]=stmt(X->getBody());
      J::Array cs; for (auto &c : X->captures()) { if (c.capturesVariable()) { J::Object co; co["id"]=var(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["ref"]=(c.getCaptureKind()==LCK_ByRef); cs.push_back(std::move(co)); } }
      o["cap"]=std::move(cs);
      int id = fun(M); o["f"]=id;
    }
    else if (auto *X = dyn_cast<ChooseExpr>(E)) { return expr(X->getChosenSubExpr()); }
    else if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; o["k"]="Str"; o["n"]="__func__"; }
    else { o["k"]="Unsupported"; o["cls"]=E->getStmtClassName(); }
    return J::Value(std::move(o));
  }
};

struct RootFinder : RecursiveASTVisitor<RootFinder> {
  Dumper &D; std::vector<const FunctionDecl*> roots;
  RootFinder(Dumper &d):D(d){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->isTemplated()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    std::string q = D.bareq(F);
    for (auto &p : RootPats) {
      bool ok = (p.back()=='*') ? (q.compare(0,p.size()-1,p,0,p.size()-1)==0) : q==p;
      if (ok) { roots.push_back(F); break; }
    }
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    RootFinder RF(D); RF.TraverseDecl(C.getTranslationUnitDecl());
    for (auto *f : RF.roots) D.fun(f);
    D.process();
    J::Object out; out["types"]=std::move(D.types); out["funs"]=std::move(D.funs);
    J::Object recs; for (auto &r : D.records) recs[r.first]=std::move(r.second);
    out["records"]=std::move(recs);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
    os << J::Value(std::move(out)); os << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, const char **argv) {
  // extract OUT.json FILE.cc --follow NS,NS --root pat ... -- clang args
  std::string file; std::vector<std::string> args; int i=1;
  OutFile = argv[i++]; file = argv[i++];
  for (; i<argc; ++i) {
    std::string a = argv[i];
    if (a=="--") { ++i; break; }
    if (a=="--follow") FollowNS.push_back(argv[++i]);
    else if (a=="--root") RootPats.push_back(argv[++i]);
  }
  for (; i<argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
