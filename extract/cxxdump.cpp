#include <regex>
#include <fstream>
#include <sstream>
#include "llvm/Support/FileSystem.h"
// cxxdump: dump the typed AST of every function defined under a path prefix
// of a translation unit as JSON.  It is the first stage of the mechanical extraction: nothing
// is interpreted here, implicit nodes are made explicit and types are canonical.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;
static std::vector<std::string> gPrefixes;
static std::string gOut;

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string, Value> records;
  std::set<const CXXRecordDecl*> recSeen;
  std::map<const ValueDecl*, int> ids;
  Dumper(ASTContext &c): C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; }
  int id(const ValueDecl *d) { d = cast<ValueDecl>(d->getCanonicalDecl()); auto it = ids.find(d); if(it!=ids.end()) return it->second; int n = ids.size()+1; ids[d]=n; return n; }
  std::string file(SourceLocation l) { PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getFilename() : ""; }
  int line(SourceLocation l) { PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getLine() : 0; }
  bool inScope(const Decl *d) { std::string f = file(d->getLocation()); llvm::SmallString<256> rp; 
    for(auto &p : gPrefixes) if(f.compare(0,p.size(),p)==0) return true; return false; }
  Value type(QualType q) {
    if(q.isNull()) return nullptr;
    q = C.getCanonicalType(q);
    Object o; if(q.isConstQualified()) o["c"]=1;
    const Type *t = q.getTypePtr();
    if(auto *r = dyn_cast<ReferenceType>(t)) { o["k"]= r->isRValueReferenceType()?"rref":"ref"; o["t"]=type(r->getPointeeType()); }
    else if(auto *p = dyn_cast<PointerType>(t)) { o["k"]="ptr"; o["t"]=type(p->getPointeeType()); }
    else if(auto *b = dyn_cast<BuiltinType>(t)) { o["k"]="b"; o["n"]=b->getName(PP).str(); }
    else if(auto *e = dyn_cast<EnumType>(t)) { o["k"]="enum"; o["n"]=e->getDecl()->getQualifiedNameAsString(); }
    else if(auto *r = dyn_cast<RecordType>(t)) {
      auto *d = r->getDecl(); o["k"]="rec"; o["n"]=d->getQualifiedNameAsString();
      if(auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
        Array a; for(auto &x : s->getTemplateArgs().asArray()) targ(x,a); o["a"]=std::move(a);
      }
      if(auto *cr = dyn_cast<CXXRecordDecl>(d)) record(cr);
    }
    else if(auto *a = dyn_cast<ConstantArrayType>(t)) { o["k"]="arr"; o["t"]=type(a->getElementType()); o["n"]=(int64_t)a->getSize().getZExtValue(); }
    else if(auto *f = dyn_cast<FunctionProtoType>(t)) { o["k"]="fn"; (void)f; }
    else { o["k"]="other"; o["n"]=q.getAsString(PP); }
    return Value(std::move(o));
  }
  void targ(const TemplateArgument &x, Array &a) {
    if(x.getKind()==TemplateArgument::Type) a.push_back(type(x.getAsType()));
    else if(x.getKind()==TemplateArgument::Integral) { llvm::SmallString<32> s; x.getAsIntegral().toString(s,10); a.push_back(std::string(s.str())); }
    else if(x.getKind()==TemplateArgument::Pack) for(auto &y : x.pack_elements()) targ(y,a);
    else a.push_back("?");
  }
  void record(const CXXRecordDecl *d) {
    d = d->getDefinition(); if(!d || recSeen.count(d)) return; recSeen.insert(d);
    if(!inScope(d)) return;
    Object o; Array fs, bs;
    for(auto *f : d->fields()) fs.push_back(Object{{"name",f->getNameAsString()},{"type",type(f->getType())},{"init", f->hasInClassInitializer()?expr(f->getInClassInitializer()):Value(nullptr)}});
    for(auto &b : d->bases()) bs.push_back(type(b.getType()));
    o["fields"]=std::move(fs); o["bases"]=std::move(bs); o["poly"]=d->isPolymorphic();
    records.insert({d->getQualifiedNameAsString(), Value(std::move(o))});
  }
  Value fn(const FunctionDecl *f) {
    Object o; o["q"]=f->getQualifiedNameAsString(); o["sig"]=f->getType().getCanonicalType().getAsString(PP);
    o["id"]=id(f);
    if(auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"]=m->getParent()->getQualifiedNameAsString(); o["virt"]=m->isVirtual(); o["const"]=m->isConst(); o["static"]=m->isStatic();
       if(isa<CXXConversionDecl>(m)) o["conv"]=true; }
    Array ps; for(auto *p : f->parameters()) ps.push_back(type(p->getType())); o["pt"]=std::move(ps);
    if(f->getBuiltinID()) o["builtin"]=true;
    o["implicit"]=f->isImplicit()||f->isDefaulted();
    return Value(std::move(o));
  }
  Value exprs(llvm::ArrayRef<const Expr*> l) { Array a; for(auto *e : l) a.push_back(expr(e)); return Value(std::move(a)); }
  template<class R> Value args(R r) { Array a; for(auto *e : r) a.push_back(expr(e)); return Value(std::move(a)); }
  Value expr(const Expr *e) {
    if(!e) return nullptr;
    // transparent wrappers
    if(auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if(auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if(auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if(auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if(auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if(auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if(auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    Object o; o["t"]=type(e->getType()); o["l"]=line(e->getBeginLoc());
    if(e->isLValue()) o["lv"]=1;
    if(auto *x = dyn_cast<CastExpr>(e)) {
      auto ck = x->getCastKind();
      if(isa<ImplicitCastExpr>(e) || true) {
        if(ck==CK_NoOp || ck==CK_LValueToRValue || ck==CK_FunctionToPointerDecay || ck==CK_BuiltinFnToFnPtr || ck==CK_ConstructorConversion || ck==CK_UserDefinedConversion)
          return expr(x->getSubExpr());
      }
      o["k"]="cast"; o["ck"]=x->getCastKindName(); o["e"]=expr(x->getSubExpr()); return Value(std::move(o));
    }
    if(auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"]="int"; llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); o["v"]=std::string(s.str()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"]="int"; o["v"]=std::to_string((int)(signed char)x->getValue()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"]="bool"; o["v"]=x->getValue(); return Value(std::move(o)); }
    if(auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"]="float"; 
      StringRef src = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(x->getBeginLoc()),SM.getSpellingLoc(x->getEndLoc())),SM,C.getLangOpts());
      llvm::SmallString<32> s; x->getValue().toString(s); o["v"]=std::string(s.str()); o["src"]=src.str(); return Value(std::move(o)); }
    if(auto *x = dyn_cast<StringLiteral>(e)) { o["k"]="str"; Array a; for(unsigned char ch : x->getBytes()) a.push_back((int)ch); o["v"]=std::move(a); return Value(std::move(o)); }
    if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"]="null"; return Value(std::move(o)); }
    if(isa<CXXThisExpr>(e)) { o["k"]="this"; return Value(std::move(o)); }
    if(auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl(); o["name"]=d->getNameAsString();
      if(auto *f = dyn_cast<FunctionDecl>(d)) { o["k"]="fnref"; o["fn"]=fn(f); }
      else if(auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"]="int"; llvm::SmallString<32> s; ec->getInitVal().toString(s,10); o["v"]=std::string(s.str()); o["enumname"]=ec->getQualifiedNameAsString(); }
      else { o["k"]="ref"; o["id"]=id(d); o["q"]=d->getQualifiedNameAsString();
        if(auto *v = dyn_cast<VarDecl>(d)) { o["vk"]= isa<ParmVarDecl>(v)?"param": v->isStaticDataMember()?"sfield": v->hasGlobalStorage()?"global":"local";
          o["vt"]=type(v->getType());
          if(v->hasGlobalStorage() && v->getType().isConstQualified() && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent()) {
            Expr::EvalResult r; if((v->getType()->isIntegralOrEnumerationType()) && v->getAnyInitializer()->EvaluateAsInt(r,C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["cv"]=std::string(s.str()); } } } }
      return Value(std::move(o)); }
    if(auto *x = dyn_cast<MemberExpr>(e)) {
      o["k"]="mem"; o["e"]=expr(x->getBase()); o["arrow"]=x->isArrow(); o["f"]=x->getMemberDecl()->getNameAsString();
      if(auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"]="ref"; o["vk"]="sfield"; o["q"]=v->getQualifiedNameAsString(); o["name"]=v->getNameAsString(); o["id"]=id(v); o["vt"]=type(v->getType()); }
      if(auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["cls"]=fd->getParent()->getQualifiedNameAsString(); o["ft"]=type(fd->getType()); }
      return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXOperatorCallExpr>(e)) { o["k"]="opcall"; o["op"]=getOperatorSpelling(x->getOperator()); o["fn"]= x->getDirectCallee()?fn(x->getDirectCallee()):Value(nullptr); o["args"]=args(x->arguments()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXMemberCallExpr>(e)) { o["k"]="mcall"; auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      o["obj"]=expr(x->getImplicitObjectArgument()); o["arrow"]= me?me->isArrow():false; o["qual"]= me?me->hasQualifier():false;
      o["fn"]= x->getMethodDecl()?fn(x->getMethodDecl()):Value(nullptr); o["args"]=args(x->arguments()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CallExpr>(e)) { o["k"]="call"; o["fn"]= x->getDirectCallee()?fn(x->getDirectCallee()):Value(nullptr); if(!x->getDirectCallee()) o["callee"]=expr(x->getCallee()); o["args"]=args(x->arguments()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXConstructExpr>(e)) { 
      if(x->isElidable() && x->getNumArgs()>=1) return expr(x->getArg(0));
      o["k"]="ctor"; o["fn"]=fn(x->getConstructor()); o["copy"]=x->getConstructor()->isCopyOrMoveConstructor(); o["dflt"]=x->getConstructor()->isDefaultConstructor(); o["args"]=args(x->arguments()); o["zero"]=x->requiresZeroInitialization(); return Value(std::move(o)); }
    if(auto *x = dyn_cast<UnaryOperator>(e)) { o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str()+(x->isPostfix()?"_":""); o["e"]=expr(x->getSubExpr()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CompoundAssignOperator>(e)) { o["k"]="cassign"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); o["ct"]=type(x->getComputationResultType()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<BinaryOperator>(e)) { o["k"]="bin"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"]="cond"; o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"]="sub"; o["a"]=expr(x->getBase()); o["b"]=expr(x->getIdx()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"]="new"; o["at"]=type(x->getAllocatedType()); o["arr"]=x->isArray(); o["init"]=expr(x->getInitializer()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"]="delete"; o["e"]=expr(x->getArgument()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"]="throw"; return Value(std::move(o)); }
    if(auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"]="zeroinit"; return Value(std::move(o)); }
    if(isa<ImplicitValueInitExpr>(e)) { o["k"]="zeroinit"; return Value(std::move(o)); }
    if(auto *x = dyn_cast<InitListExpr>(e)) { o["k"]="initlist"; o["args"]=args(x->inits()); return Value(std::move(o)); }
    if(auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { Expr::EvalResult r; if(x->EvaluateAsInt(r,C)) { o["k"]="int"; llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["v"]=std::string(s.str()); return Value(std::move(o)); } }
    if(auto *x = dyn_cast<LambdaExpr>(e)) { o["k"]="lambda"; Array ps; for(auto *p : x->getCallOperator()->parameters()) ps.push_back(var(p)); o["params"]=std::move(ps); o["body"]=stmt(x->getBody()); return Value(std::move(o)); }
    o["k"]="unsup"; o["n"]=e->getStmtClassName(); return Value(std::move(o));
  }
  Value var(const VarDecl *v) { return Object{{"name",v->getNameAsString()},{"id",id(v)},{"type",type(v->getType())},{"static",v->isStaticLocal()},{"init",v->hasInit()?expr(v->getInit()):Value(nullptr)}}; }
  Value stmt(const Stmt *s) {
    if(!s) return nullptr;
    Object o; o["l"]=line(s->getBeginLoc());
    if(auto *e = dyn_cast<Expr>(s)) { o["k"]="expr"; o["e"]=expr(e); }
    else if(auto *x = dyn_cast<CompoundStmt>(s)) { o["k"]="block"; Array a; for(auto *c : x->body()) a.push_back(stmt(c)); o["s"]=std::move(a); }
    else if(auto *x = dyn_cast<DeclStmt>(s)) { o["k"]="decl"; Array a; for(auto *d : x->decls()) { if(auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); } o["vars"]=std::move(a); }
    else if(auto *x = dyn_cast<IfStmt>(s)) { o["k"]="if"; if(x->getInit()) o["init"]=stmt(x->getInit()); if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); }
    else if(auto *x = dyn_cast<ForStmt>(s)) { o["k"]="for"; o["init"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["body"]=stmt(x->getBody()); }
    else if(auto *x = dyn_cast<WhileStmt>(s)) { o["k"]="while"; if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); }
    else if(auto *x = dyn_cast<DoStmt>(s)) { o["k"]="do"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); }
    else if(auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["k"]="forrange"; o["var"]=var(x->getLoopVariable()); o["range"]=expr(x->getRangeInit()); o["rt"]=type(x->getRangeInit()->getType()); o["body"]=stmt(x->getBody()); }
    else if(isa<BreakStmt>(s)) o["k"]="break";
    else if(isa<ContinueStmt>(s)) o["k"]="continue";
    else if(isa<NullStmt>(s)) o["k"]="null";
    else if(auto *x = dyn_cast<ReturnStmt>(s)) { o["k"]="return"; o["e"]=expr(x->getRetValue()); }
    else if(auto *x = dyn_cast<SwitchStmt>(s)) { o["k"]="switch"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); }
    else if(auto *x = dyn_cast<CaseStmt>(s)) { o["k"]="case"; o["v"]=expr(x->getLHS()); o["s"]=stmt(x->getSubStmt()); }
    else if(auto *x = dyn_cast<DefaultStmt>(s)) { o["k"]="default"; o["s"]=stmt(x->getSubStmt()); }
    else if(auto *x = dyn_cast<CXXTryStmt>(s)) { o["k"]="try"; o["body"]=stmt(x->getTryBlock()); Array a; for(unsigned i=0;i<x->getNumHandlers();i++) a.push_back(stmt(x->getHandler(i)->getHandlerBlock())); o["h"]=std::move(a); }
    else { o["k"]="unsup"; o["n"]=s->getStmtClassName(); }
    return Value(std::move(o));
  }
  Value function(const FunctionDecl *f) {
    Value v = fn(f); Object &o = *v.getAsObject();
    o["file"]=file(f->getLocation()); o["line"]=line(f->getBeginLoc()); o["endline"]=line(f->getEndLoc());
    o["ret"]=type(f->getReturnType());
    Array ps; for(auto *p : f->parameters()) { Object po{{"name",p->getNameAsString()},{"id",id(p)},{"type",type(p->getType())}}; ps.push_back(std::move(po)); }
    o["params"]=std::move(ps);
    if(auto *c = dyn_cast<CXXConstructorDecl>(f)) { o["kind"]="ctor"; Array a; for(auto *i : c->inits()) { Object io; if(i->isAnyMemberInitializer()) io["field"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) io["base"]=type(QualType(i->getBaseClass(),0)); else io["deleg"]=true; io["e"]=expr(i->getInit()); io["written"]=i->isWritten(); a.push_back(std::move(io)); } o["inits"]=std::move(a); }
    else if(isa<CXXDestructorDecl>(f)) o["kind"]="dtor"; else if(isa<CXXMethodDecl>(f)) o["kind"]="method"; else o["kind"]="func";
    o["body"]=stmt(f->getBody());
    return v;
  }
};
struct V : RecursiveASTVisitor<V> {
  Dumper &D; Array fns, globals; V(Dumper &d):D(d){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if(!f->isThisDeclarationADefinition() || !f->hasBody() || f->isDependentContext() || !D.inScope(f)) return true;
    if(f->isDefaulted()||f->isDeleted()) return true;
    if(auto *m = dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
    fns.push_back(D.function(f)); return true; }
  bool VisitVarDecl(VarDecl *v) { if(v->hasGlobalStorage() && !v->isStaticLocal() && D.inScope(v) && !v->getType()->isDependentType()&& !v->getDeclContext()->isDependentContext()) { Object o; o["q"]=v->getQualifiedNameAsString(); o["id"]=D.id(v); o["type"]=D.type(v->getType()); o["init"]= v->hasInit()?D.expr(v->getInit()):Value(nullptr); globals.push_back(std::move(o)); } return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *d) { if(d->isThisDeclarationADefinition() && !d->isDependentContext() && D.inScope(d)) D.record(d); return true; }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override {
  Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
  Object recs; for(auto &p : D.records) recs[p.first]=std::move(p.second);
  std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
  os << Value(Object{{"functions",std::move(v.fns)},{"records",std::move(recs)},{"globals",std::move(v.globals)},{"errors", C.getDiagnostics().hasErrorOccurred()}}) << "\n";
} };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) { // cxxdump OUT PREFIX[,PREFIX] FILE -- flags
  if(argc<5) return 2; gOut=argv[1]; std::string p=argv[2]; size_t b=0; while(b<=p.size()) { size_t c=p.find(',',b); if(c==std::string::npos) c=p.size(); gPrefixes.push_back(p.substr(b,c-b)); b=c+1; }
  std::vector<std::string> flags; for(int i=5;i<argc;i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[3]});
  // BOOST_FOREACH over an already declared variable: the loop assigns that variable (see the shim)
  std::string text; { std::ifstream in(argv[3]); std::stringstream ss; ss << in.rdbuf(); text = ss.str(); }
  text = std::regex_replace(text, std::regex("BOOST_FOREACH\\(([ \t]*[A-Za-z_][A-Za-z_0-9]*[ \t]*),"), "BOOST_FOREACH_ASSIGN($1,");
  { llvm::SmallString<256> ap(argv[3]); llvm::sys::fs::make_absolute(ap); static std::string keep, kept; keep = ap.str().str(); kept = text; tool.mapVirtualFile(keep, kept); }
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } f;
  return tool.run(&f);
}
