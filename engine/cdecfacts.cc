// cdecfacts: libTooling exporter. Walks the type-checked AST of every function
// (and every template instantiation) whose definition lies under --root and
// writes a resolved tree per function as JSON lines.  All rules live in Python.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
using namespace clang;
using std::string;

static string Root;
static std::FILE* Out;
static std::unordered_map<string, int> Strs;
static std::unordered_set<string> Seen;
static long NFn = 0, NRec = 0, NTU = 0;

static string jesc(llvm::StringRef s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void repl(string& s, const char* a, const char* b) {
  size_t p = 0, la = strlen(a), lb = strlen(b);
  while ((p = s.find(a, p)) != string::npos) { s.replace(p, la, b); p += lb; }
}
static int intern(const string& s) {
  auto it = Strs.find(s);
  if (it != Strs.end()) return it->second;
  int i = Strs.size();
  Strs.emplace(s, i);
  fprintf(Out, "{\"k\":\"s\",\"i\":%d,\"v\":%s}\n", i, jesc(s).c_str());
  return i;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::unordered_map<const Type*, int> tyCache;
  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  string file(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l, false);
    if (p.isInvalid()) return "";
    llvm::SmallString<256> b(p.getFilename());
    SM.getFileManager().makeAbsolutePath(b);
    llvm::sys::path::remove_dots(b, true);
    return string(b.str());
  }
  int line(SourceLocation l) { return l.isInvalid() ? 0 : SM.getExpansionLineNumber(l); }
  int col(SourceLocation l) { return l.isInvalid() ? 0 : SM.getExpansionColumnNumber(l); }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = SM.getExpansionLoc(l);
    if (SM.isInSystemHeader(l)) return false;
    string f = file(l);
    return f.compare(0, Root.size(), Root) == 0;
  }
  string tstr(QualType t) {
    if (t.isNull()) return "";
    string s = t.getCanonicalType().getAsString(PP);
    repl(s, "std::__cxx11::", "std::");
    repl(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
    repl(s, "std::basic_string<char>", "std::string");
    repl(s, Root.c_str(), "");
    return s;
  }
  int ty(QualType t) { return intern(tstr(t)); }

  string qname(const NamedDecl* d) {
    string s; llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, PP, true);
    os.flush();
    repl(s, "std::__cxx11::", "std::");
    repl(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
    repl(s, "std::basic_string<char>", "std::string");
    repl(s, Root.c_str(), "");
    return s;
  }
  string plain(const NamedDecl* d) {  // qualified, without template arguments
    string s = d->getQualifiedNameAsString();
    repl(s, "std::__cxx11::", "std::");
    return s;
  }
  string fkey(const FunctionDecl* f) {
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) {
        SourceLocation l = m->getParent()->getLocation();
        string f = file(l); repl(f, Root.c_str(), "");
        return "lambda@" + f + ":" + std::to_string(line(l)) + ":" + std::to_string(col(l));
      }
    string s = qname(f) + "(";
    bool first = true;
    for (auto* p : f->parameters()) { if (!first) s += ","; first = false; s += tstr(p->getType()); }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
    if (f->isMain() || !f->isExternallyVisible()) {
      string fl = file(f->getLocation()); repl(fl, Root.c_str(), "");
      s += "@" + fl;
    }
    return s;
  }
  string patfile(SourceLocation l) { string f = file(l); repl(f, (Root + "/").c_str(), ""); return f; }

  // ------------------------------------------------------------- statements
  std::unordered_map<const Decl*, int> localId;
  int nextLocal = 0, nextNode = 0;
  int lid(const Decl* d) {
    auto it = localId.find(d);
    if (it != localId.end()) return it->second;
    int i = nextLocal++; localId[d] = i; return i;
  }
  static const Expr* strip(const Expr* e) {
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { if (!x->getExpr()) return e; e = x->getExpr(); }
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
            return e;
          default: e = x->getSubExpr();
        }
      } else return e;
    }
  }
  string o;  // output buffer
  void kv(const char* k, const string& v) { o += ",\""; o += k; o += "\":"; o += v; }
  void kvs(const char* k, const string& v) { kv(k, jesc(v)); }
  void kvi(const char* k, long v) { kv(k, std::to_string(v)); }
  void kvt(const char* k, const string& v) { kvi(k, intern(v)); }

  void kids(std::initializer_list<const Stmt*> l) {
    o += ",\"c\":["; bool f = true;
    for (auto* s : l) { if (!f) o += ","; f = false; stmt(s); }
    o += "]";
  }
  template <class R> void kidr(const R& r) {
    o += ",\"c\":["; bool f = true;
    for (auto* s : r) { if (!f) o += ","; f = false; stmt(s); }
    o += "]";
  }
  void head(const char* k, const Stmt* s) {
    o += "{\"k\":\""; o += k; o += "\"";
    kvi("i", nextNode++);
    kvi("l", line(s->getBeginLoc()));
  }
  void declRef(const ValueDecl* d) {
    kvs("n", d->getNameAsString());
    if (auto* f = dyn_cast<FunctionDecl>(d)) { kvs("dk", "fn"); kvt("f", fkey(f)); kvt("fn", plain(f)); }
    else if (auto* e = dyn_cast<EnumConstantDecl>(d)) { kvs("dk", "enum"); kvs("q", plain(d)); kv("v", toStr(e->getInitVal())); }
    else if (auto* p = dyn_cast<ParmVarDecl>(d)) { kvs("dk", "param"); kvi("d", lid(p)); }
    else if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDecl() && !v->isStaticLocal()) { kvs("dk", "local"); kvi("d", lid(v)); }
      else {
        kvs("dk", v->isStaticLocal() ? "slocal" : "global");
        string q = plain(v);
        if (v->isStaticLocal() || !v->isExternallyVisible()) q += "@" + patfile(v->getLocation());
        if (v->isStaticLocal()) q += ":" + std::to_string(line(v->getLocation()));
        kvt("q", q);
      }
    } else if (auto* b = dyn_cast<BindingDecl>(d)) { kvs("dk", "local"); kvi("d", lid(b)); }
    else { kvs("dk", "other"); kvs("q", plain(d)); }
  }
  static string toStr(const llvm::APSInt& v) { llvm::SmallString<40> s; v.toString(s, 10); string r(s.str());
    return r; }
  void constVal(const Expr* e) {
    if (e->getType().isNull() || e->isValueDependent() || e->isTypeDependent() || e->containsErrors()) return;
    if (!e->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, C)) kv("v", toStr(r.Val.getInt()));
  }
  void callee(const FunctionDecl* f) {
    kvt("f", fkey(f)); kvt("fn", plain(f));
    if (f->isNoReturn()) kvi("nr", 1);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) kvi("virt", 1);
      if (m->isStatic()) kvi("st", 1);
      if (m->isConst()) kvi("cm", 1);
    }
    o += ",\"pt\":[";
    bool first = true;
    for (auto* p : f->parameters()) { if (!first) o += ","; first = false; o += std::to_string(ty(p->getType())); }
    o += "]";
    if (f->isVariadic()) kvi("va", 1);
    if (inRootDecl(f)) kvi("own", 1);
  }
  bool inRootDecl(const FunctionDecl* f) { return inRoot(f->getLocation()); }

  void varDecl(const VarDecl* v) {
    o += "{\"k\":\"Var\""; kvi("i", nextNode++); kvi("l", line(v->getLocation()));
    kvs("n", v->getNameAsString()); kvi("d", lid(v)); kvi("t", ty(v->getType()));
    if (v->isStaticLocal()) kvi("static", 1);
    if (v->isStaticLocal()) { string q = plain(v) + "@" + patfile(v->getLocation()) + ":" + std::to_string(line(v->getLocation())); kvt("q", q); }
    if (v->getInit()) kids({v->getInit()});
    o += "}";
  }

  void stmt(const Stmt* s0) {
    if (!s0) { o += "null"; return; }
    const Stmt* s = s0;
    if (auto* e = dyn_cast<Expr>(s)) s = strip(e);
    if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: head("Block", s); kidr(cast<CompoundStmt>(s)->body()); kvi("el", line(s->getEndLoc())); o += "}"; return;
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s); head("If", s);
        kids({i->getInit(), i->getConditionVariableDeclStmt(), i->getCond(), i->getThen(), i->getElse()}); o += "}"; return; }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s); head("For", s);
        kids({f->getInit(), f->getConditionVariableDeclStmt(), f->getCond(), f->getInc(), f->getBody()}); o += "}"; return; }
      case Stmt::WhileStmtClass: {
        auto* f = cast<WhileStmt>(s); head("While", s);
        kids({f->getConditionVariableDeclStmt(), f->getCond(), f->getBody()}); o += "}"; return; }
      case Stmt::DoStmtClass: { auto* f = cast<DoStmt>(s); head("Do", s); kids({f->getBody(), f->getCond()}); o += "}"; return; }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s); head("ForRange", s);
        o += ",\"var\":"; varDeclNoInit(f->getLoopVariable());
        kids({f->getRangeInit(), f->getBody()}); o += "}"; return; }
      case Stmt::SwitchStmtClass: { auto* f = cast<SwitchStmt>(s); head("Switch", s);
        kids({f->getInit(), f->getConditionVariableDeclStmt(), f->getCond(), f->getBody()}); o += "}"; return; }
      case Stmt::CaseStmtClass: { auto* f = cast<CaseStmt>(s); head("Case", s); kids({f->getLHS(), f->getRHS(), f->getSubStmt()}); o += "}"; return; }
      case Stmt::DefaultStmtClass: { auto* f = cast<DefaultStmt>(s); head("Default", s); kids({f->getSubStmt()}); o += "}"; return; }
      case Stmt::BreakStmtClass: head("Break", s); o += "}"; return;
      case Stmt::ContinueStmtClass: head("Continue", s); o += "}"; return;
      case Stmt::ReturnStmtClass: head("Return", s); kids({cast<ReturnStmt>(s)->getRetValue()}); o += "}"; return;
      case Stmt::NullStmtClass: head("Null", s); o += "}"; return;
      case Stmt::GotoStmtClass: head("Goto", s); kvs("n", cast<GotoStmt>(s)->getLabel()->getNameAsString()); o += "}"; return;
      case Stmt::LabelStmtClass: head("Label", s); kvs("n", cast<LabelStmt>(s)->getDecl()->getNameAsString()); kids({cast<LabelStmt>(s)->getSubStmt()}); o += "}"; return;
      case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(s)->getSubStmt()); return;
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s); head("Try", s); o += ",\"c\":["; stmt(t->getTryBlock());
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) { o += ","; stmt(t->getHandler(i)); }
        o += "]}"; return; }
      case Stmt::CXXCatchStmtClass: { auto* c = cast<CXXCatchStmt>(s); head("Catch", s);
        if (c->getExceptionDecl()) { kvi("d", lid(c->getExceptionDecl())); kvs("n", c->getExceptionDecl()->getNameAsString()); kvi("t", ty(c->getExceptionDecl()->getType())); }
        kids({c->getHandlerBlock()}); o += "}"; return; }
      case Stmt::DeclStmtClass: {
        head("Decl", s); o += ",\"c\":["; bool f = true;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* v = dyn_cast<VarDecl>(d)) {
            if (!f) o += ","; f = false; varDecl(v);
            if (auto* dd = dyn_cast<DecompositionDecl>(v))
              for (auto* b : dd->bindings()) { o += ",{\"k\":\"Bind\""; kvi("i", nextNode++); kvi("l", line(b->getLocation())); kvs("n", b->getNameAsString()); kvi("d", lid(b)); kvi("t", ty(b->getType())); o += "}"; }
          }
        }
        o += "]}"; return; }
      case Stmt::CapturedStmtClass: stmt(cast<CapturedStmt>(s)->getCapturedStmt()); return;
      case Stmt::OMPCanonicalLoopClass: stmt(cast<OMPCanonicalLoop>(s)->getLoopStmt()); return;
      default: break;
    }
    if (auto* d = dyn_cast<OMPExecutableDirective>(s)) {
      head("OMP", s);
      kvs("dir", llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str());
      if (auto* cr = dyn_cast<OMPCriticalDirective>(d)) kvs("n", cr->getDirectiveName().getAsString());
      o += ",\"cl\":["; bool f = true;
      for (auto* cl : d->clauses()) {
        if (cl->isImplicit()) continue;
        if (!f) o += ","; f = false;
        o += "{\"k\":" + jesc(llvm::omp::getOpenMPClauseName(cl->getClauseKind()));
        o += ",\"c\":["; bool g = true;
        for (auto* ch : cl->children()) { if (!ch) continue; if (!g) o += ","; g = false; stmt(ch); }
        o += "]}";
      }
      o += "]";
      const Stmt* b = d->hasAssociatedStmt() ? d->getRawStmt() : nullptr;
      kids({b}); o += "}"; return;
    }
    head("OtherStmt", s); kvs("cls", s->getStmtClassName()); o += ",\"c\":["; bool f = true;
    for (auto* ch : s->children()) { if (!f) o += ","; f = false; stmt(ch); }
    o += "]}";
  }
  void varDeclNoInit(const VarDecl* v) {
    o += "{\"k\":\"Var\""; kvi("i", nextNode++); kvi("l", line(v->getLocation())); kvs("n", v->getNameAsString()); kvi("d", lid(v)); kvi("t", ty(v->getType())); 
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      o += ",\"b\":["; bool f = true;
      for (auto* b : dd->bindings()) { if (!f) o += ","; f = false; o += "{\"k\":\"Bind\""; kvi("i", nextNode++); kvi("l", line(b->getLocation())); kvs("n", b->getNameAsString()); kvi("d", lid(b)); kvi("t", ty(b->getType())); o += "}"; }
      o += "]";
    }
    o += "}"; }

  void eh(const char* k, const Expr* e) { head(k, e); kvi("t", ty(e->getType())); }

  void expr(const Expr* e) {
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: { eh("Int", e); auto* x = cast<IntegerLiteral>(e);
        llvm::SmallString<40> sv; x->getValue().toString(sv, 10, x->getType()->isSignedIntegerType()); kv("v", string(sv.str())); o += "}"; return; }
      case Stmt::CharacterLiteralClass: eh("Char", e); kvi("v", cast<CharacterLiteral>(e)->getValue()); o += "}"; return;
      case Stmt::CXXBoolLiteralExprClass: eh("Bool", e); kvi("v", cast<CXXBoolLiteralExpr>(e)->getValue()); o += "}"; return;
      case Stmt::FloatingLiteralClass: { eh("Float", e); llvm::SmallString<32> b; cast<FloatingLiteral>(e)->getValue().toString(b); kvs("v", string(b.str())); o += "}"; return; }
      case Stmt::StringLiteralClass: { eh("Str", e); auto* sl = cast<StringLiteral>(e); if (sl->getCharByteWidth() == 1) kvs("v", sl->getString().str()); o += "}"; return; }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: eh("NullPtr", e); o += "}"; return;
      case Stmt::PredefinedExprClass: eh("Str", e); kvs("v", ""); o += "}"; return;
      case Stmt::CXXThisExprClass: eh("This", e); o += "}"; return;
      case Stmt::DeclRefExprClass: { auto* x = cast<DeclRefExpr>(e); eh("Ref", e); declRef(x->getDecl());
        if (auto* v = dyn_cast<VarDecl>(x->getDecl())) if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v)) constVal(e);
        if (auto* v = dyn_cast<VarDecl>(x->getDecl())) if (v->isLocalVarDecl() && v->getType().isConstQualified()) constVal(e);
        o += "}"; return; }
      case Stmt::MemberExprClass: {
        auto* x = cast<MemberExpr>(e); eh("Mem", e); kvs("n", x->getMemberDecl()->getNameAsString());
        if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) kvt("f", plain(f));
        else if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) { kvi("sv", 1); kvt("f", plain(v)); constVal(e); }
        else if (auto* m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) { kvi("m", 1); kvt("f", fkey(m)); }
        if (x->isArrow()) kvi("a", 1);
        kids({x->getBase()}); o += "}"; return; }
      case Stmt::CXXMemberCallExprClass: {
        auto* x = cast<CXXMemberCallExpr>(e); 
        auto* m = x->getMethodDecl();
        eh("MCall", e);
        if (m) callee(m);
        auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
        if (me && me->hasQualifier()) kvi("qual", 1);
        if (me && me->isArrow()) kvi("a", 1);
        o += ",\"c\":["; if (m) stmt(x->getImplicitObjectArgument()); else stmt(x->getCallee());
        for (auto* a : x->arguments()) { o += ","; stmt(a); }
        o += "]}"; return; }
      case Stmt::CXXOperatorCallExprClass: {
        auto* x = cast<CXXOperatorCallExpr>(e); eh("OCall", e);
        kvs("op", getOperatorSpelling(x->getOperator()));
        if (auto* f = x->getDirectCallee()) { callee(f); if (isa<CXXMethodDecl>(f)) kvi("mem", 1); }
        kidr(x->arguments()); o += "}"; return; }
      case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
        auto* x = cast<CallExpr>(e); eh("Call", e);
        const FunctionDecl* f = x->getDirectCallee();
        if (f) callee(f);
        o += ",\"c\":[";
        bool first = true;
        if (!f) { stmt(x->getCallee()); first = false; }
        for (auto* a : x->arguments()) { if (!first) o += ","; first = false; stmt(a); }
        o += "]"; if (!f) kvi("ind", 1);
        if (f && f->getBuiltinID()) constVal(e);
        o += "}"; return; }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto* x = cast<CXXConstructExpr>(e); 
        if (x->isElidable() && x->getNumArgs() == 1) { stmt(x->getArg(0)); return; }
        eh("Ctor", e); callee(x->getConstructor());
        if (x->getConstructor()->isCopyConstructor()) kvi("copy", 1);
        if (x->getConstructor()->isMoveConstructor()) kvi("move", 1);
        kidr(x->arguments()); o += "}"; return; }
      case Stmt::BinaryOperatorClass: { auto* x = cast<BinaryOperator>(e); eh("Bin", e); kvs("op", x->getOpcodeStr().str()); constVal(e); kids({x->getLHS(), x->getRHS()}); o += "}"; return; }
      case Stmt::CompoundAssignOperatorClass: { auto* x = cast<CompoundAssignOperator>(e); eh("CAssign", e); kvs("op", x->getOpcodeStr().str()); kids({x->getLHS(), x->getRHS()}); o += "}"; return; }
      case Stmt::UnaryOperatorClass: { auto* x = cast<UnaryOperator>(e); eh("Un", e); kvs("op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()); if (x->isPostfix()) kvi("post", 1); constVal(e); kids({x->getSubExpr()}); o += "}"; return; }
      case Stmt::ConditionalOperatorClass: { auto* x = cast<ConditionalOperator>(e); eh("Cond", e); kids({x->getCond(), x->getTrueExpr(), x->getFalseExpr()}); o += "}"; return; }
      case Stmt::BinaryConditionalOperatorClass: { auto* x = cast<BinaryConditionalOperator>(e); eh("Cond", e); kids({x->getCommon(), x->getCommon(), x->getFalseExpr()}); o += "}"; return; }
      case Stmt::ArraySubscriptExprClass: { auto* x = cast<ArraySubscriptExpr>(e); eh("Sub", e); kids({x->getBase(), x->getIdx()}); o += "}"; return; }
      case Stmt::UnaryExprOrTypeTraitExprClass: { auto* x = cast<UnaryExprOrTypeTraitExpr>(e); eh("Sizeof", e); if (x->isArgumentType()) kvi("at", ty(x->getArgumentType())); else kvi("at", ty(x->getArgumentExpr()->getType())); constVal(e); o += "}"; return; }
      case Stmt::InitListExprClass: { auto* x = cast<InitListExpr>(e); if (x->getSemanticForm()) x = x->getSemanticForm(); eh("Init", e); kidr(x->inits()); if (x->hasArrayFiller()) kvi("fill", 1); o += "}"; return; }
      case Stmt::CXXNewExprClass: { auto* x = cast<CXXNewExpr>(e); eh("New", e); kvi("at", ty(x->getAllocatedType())); if (x->isArray()) kvi("arr", 1); if (x->getNumPlacementArgs()) kvi("place", x->getNumPlacementArgs());
        o += ",\"c\":["; if (x->isArray() && x->getArraySize()) stmt(*x->getArraySize()); else o += "null"; o += ","; stmt(x->getInitializer());
        for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) { o += ","; stmt(x->getPlacementArg(i)); } o += "]}"; return; }
      case Stmt::CXXDeleteExprClass: { auto* x = cast<CXXDeleteExpr>(e); eh("Delete", e); if (x->isArrayForm()) kvi("arr", 1); kids({x->getArgument()}); o += "}"; return; }
      case Stmt::CXXThrowExprClass: eh("Throw", e); kids({cast<CXXThrowExpr>(e)->getSubExpr()}); o += "}"; return;
      case Stmt::LambdaExprClass: {
        auto* x = cast<LambdaExpr>(e); eh("Lambda", e); kvt("f", fkey(x->getCallOperator()));
        o += ",\"cap\":["; bool f = true;
        for (auto& c : x->captures()) { if (!f) o += ","; f = false; o += "{\"ref\":"; o += (c.getCaptureKind() == LCK_ByRef ? "1" : "0");
          if (c.capturesVariable()) { kvs("n", c.getCapturedVar()->getNameAsString()); kvi("d", lid(c.getCapturedVar())); } else kvs("n", "this"); o += "}"; }
        o += "],\"par\":["; f = true;
        for (auto* p : x->getCallOperator()->parameters()) { if (!f) o += ","; f = false; o += "{\"n\":" + jesc(p->getNameAsString()); kvi("d", lid(p)); kvi("t", ty(p->getType())); o += "}"; }
        o += "]"; kids({x->getBody()}); o += "}"; return; }
      case Stmt::ImplicitCastExprClass: { auto* x = cast<ImplicitCastExpr>(e); eh("ICast", e); kvs("ck", x->getCastKindName()); kids({x->getSubExpr()}); o += "}"; return; }
      case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto* x = cast<ExplicitCastExpr>(e); eh("Cast", e); kvs("ck", x->getCastKindName()); kvs("sty", x->getStmtClassName()); constVal(e); kids({x->getSubExpr()}); o += "}"; return; }
      case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: eh("ZeroInit", e); o += "}"; return;
      case Stmt::OpaqueValueExprClass: { auto* x = cast<OpaqueValueExpr>(e); if (x->getSourceExpr()) stmt(x->getSourceExpr()); else { eh("Opaque", e); o += "}"; } return; }
      case Stmt::CXXDependentScopeMemberExprClass: { auto* x = cast<CXXDependentScopeMemberExpr>(e); eh("DepMem", e); kvs("n", x->getMember().getAsString()); if (x->isImplicitAccess()) { o += ",\"c\":[]"; } else kids({x->getBase()}); o += "}"; return; }
      case Stmt::UnresolvedLookupExprClass: { eh("DepRef", e); kvs("n", cast<UnresolvedLookupExpr>(e)->getName().getAsString()); o += "}"; return; }
      case Stmt::UnresolvedMemberExprClass: { auto* x = cast<UnresolvedMemberExpr>(e); eh("DepMem", e); kvs("n", x->getMemberName().getAsString()); if (!x->isImplicitAccess()) kids({x->getBase()}); o += "}"; return; }
      default: break;
    }
    eh("Other", e); kvs("cls", e->getStmtClassName()); constVal(e); o += ",\"c\":["; bool f = true;
    for (auto* ch : e->children()) { if (!f) o += ","; f = false; stmt(ch); }
    o += "]}";
  }

  // ------------------------------------------------------------------ decls
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDefaulted() || f->isDeleted()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!inRoot(f->getLocation())) return true;
    bool dep = f->isDependentContext();
    string key = fkey(f) + (dep ? "#dep" : "");
    string loc = file(f->getLocation()) + ":" + std::to_string(line(f->getLocation()));
    if (!Seen.insert("F" + key + "|" + loc).second) return true;
    ++NFn;
    localId.clear(); nextLocal = 0; nextNode = 0; o.clear();
    o += "{\"k\":\"fn\"";
    kvs("key", key); kvs("name", plain(f)); kvs("file", patfile(f->getLocation())); kvi("l", line(f->getLocation()));
    kvi("el", line(f->getEndLoc())); kvi("ret", ty(f->getReturnType()));
    if (dep) kvi("dep", 1);
    if (f->isTemplateInstantiation()) kvi("inst", 1);
    if (f->isNoReturn()) kvi("nr", 1);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      kvs("cls", qname(m->getParent()));
      kvs("clsp", plain(m->getParent()));
      if (m->isVirtual()) kvi("virt", 1);
      if (m->isConst()) kvi("const", 1);
      if (m->isStatic()) kvi("static", 1);
      kvs("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      o += ",\"ovr\":["; bool ff = true;
      for (auto* b : m->overridden_methods()) { if (!ff) o += ","; ff = false; o += jesc(fkey(b)); }
      o += "]";
    }
    if (isa<CXXConstructorDecl>(f)) kvi("ctor", 1);
    if (isa<CXXDestructorDecl>(f)) kvi("dtor", 1);
    if (f->isOverloadedOperator()) kvs("op", getOperatorSpelling(f->getOverloadedOperator()));
    o += ",\"params\":["; bool first = true;
    for (auto* p : f->parameters()) { if (!first) o += ","; first = false;
      o += "{\"n\":" + jesc(p->getNameAsString()); kvi("d", lid(p)); kvi("t", ty(p->getType())); o += "}"; }
    o += "]";
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      if (c->isCopyConstructor()) kvi("copy", 1);
      if (c->isMoveConstructor()) kvi("move", 1);
    }
    o += "}\n{\"k\":\"body\"";
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o += ",\"inits\":["; first = true;
      for (auto* i : c->inits()) {
        if (!first) o += ","; first = false;
        o += "{\"l\":" + std::to_string(line(i->getSourceLocation()));
        if (i->isWritten()) kvi("w", 1);
        if (i->isAnyMemberInitializer()) { kvs("field", i->getAnyMember()->getNameAsString()); }
        else if (i->isDelegatingInitializer()) kvi("deleg", 1);
        else kvs("base", i->getBaseClass() ? tstr(QualType(i->getBaseClass(), 0)) : "");
        if (i->isInClassMemberInitializer()) kvi("dflt", 1);
        o += ",\"c\":["; stmt(i->getInit()); o += "]}";
      }
      o += "]";
    }
    o += ",\"body\":"; stmt(f->getBody());
    o += "}\n";
    fputs(o.c_str(), Out);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!inRoot(r->getLocation())) return true;
    bool dep = r->isDependentContext();
    string key = qname(r) + (dep ? "#dep" : "");
    string loc = file(r->getLocation()) + ":" + std::to_string(line(r->getLocation()));
    if (!Seen.insert("R" + key + "|" + loc).second) return true;
    ++NRec;
    o.clear(); localId.clear(); nextLocal = 0; nextNode = 0;
    o += "{\"k\":\"rec\""; kvs("name", key); kvs("plain", plain(r)); kvs("file", patfile(r->getLocation())); kvi("l", line(r->getLocation())); kvi("el", line(r->getEndLoc()));
    if (dep) kvi("dep", 1);
    if (r->isUnion()) kvi("union", 1);
    if (r->isAggregate()) kvi("agg", 1);
    if (!dep && r->isCompleteDefinition()) { if (r->isPOD()) kvi("pod", 1); if (r->hasUserDeclaredConstructor()) kvi("uctor", 1);
      if (r->hasUserDeclaredCopyConstructor()) kvi("ucopy", 1); if (r->hasUserDeclaredCopyAssignment()) kvi("uassign", 1); if (r->hasUserDeclaredDestructor()) kvi("udtor", 1);
      if (r->isTriviallyCopyable()) kvi("trivcopy", 1);
      if (r->isPolymorphic()) kvi("poly", 1);
      if (r->isAbstract()) kvi("abstract", 1);
      if (auto* dt = r->getDestructor()) { if (dt->isVirtual()) kvi("vdtor", 1); }
      if (r->defaultedCopyConstructorIsDeleted()) kvi("nocopy", 1);
      if (!r->isInvalidDecl()) { o += ",\"bq\":["; bool g = true; for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) { if (!g) o += ","; g = false; o += jesc(qname(br)); } o += "]"; }
      if (!r->isInvalidDecl()) kvi("size", C.getTypeSizeInChars(C.getRecordType(r)).getQuantity()); }
    o += ",\"bases\":["; bool f = true;
    if (r->hasDefinition()) for (auto& b : r->bases()) { if (!f) o += ","; f = false; o += jesc(tstr(b.getType())); }
    o += "],\"fields\":["; f = true;
    const ASTRecordLayout* lay = (!dep && !r->isInvalidDecl()) ? &C.getASTRecordLayout(r) : nullptr;
    for (auto* d : r->fields()) {
      if (!f) o += ","; f = false;
      o += "{\"n\":" + jesc(d->getNameAsString()); kvi("t", ty(d->getType())); kvi("l", line(d->getLocation()));
      if (d->hasInClassInitializer()) kvi("init", 1);
      if (d->isMutable()) kvi("mut", 1);
      if (d->getType()->isScalarType()) kvi("scalar", 1);
      if (lay) kvi("off", lay->getFieldOffset(d->getFieldIndex()) / 8);
      if (!dep && !d->getType()->isDependentType() && !d->getType()->isReferenceType() && !d->getType()->isIncompleteType()) kvi("sz", C.getTypeSizeInChars(d->getType()).getQuantity());
      o += "}";
    }
    o += "],\"methods\":["; f = true;
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      if (!f) o += ","; f = false;
      o += "{\"n\":" + jesc(m->getNameAsString()); kvs("key", fkey(m));
      if (m->isVirtual()) kvi("virt", 1); if (m->isPureVirtual()) kvi("pure", 1); if (m->isDeleted()) kvi("del", 1); if (m->isConst()) kvi("const", 1);
      if (isa<CXXConstructorDecl>(m)) kvi("ctor", 1);
      if (isa<CXXDestructorDecl>(m)) kvi("dtor", 1);
      if (m->isStatic()) kvi("static", 1);
      kvi("l", line(m->getLocation())); kvi("ret", ty(m->getReturnType()));
      kvs("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      o += ",\"pt\":["; { bool g = true; for (auto* p : m->parameters()) { if (!g) o += ","; g = false; o += std::to_string(ty(p->getType())); } } o += "]";
      o += ",\"ovr\":["; { bool g = true; for (auto* b : m->overridden_methods()) { if (!g) o += ","; g = false; o += jesc(fkey(b)); } } o += "]";
      o += "}";
    }
    o += "]}\n"; fputs(o.c_str(), Out);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation()) || e->isDependentContext()) return true;
    string loc = file(e->getLocation()) + ":" + std::to_string(line(e->getLocation()));
    if (!Seen.insert("E" + loc).second) return true;
    o.clear();
    o += "{\"k\":\"enum\""; kvs("name", plain(e)); kvs("file", patfile(e->getLocation())); kvi("l", line(e->getLocation()));
    o += ",\"consts\":["; bool f = true;
    for (auto* c : e->enumerators()) { if (!f) o += ","; f = false; o += "[" + jesc(plain(c)) + "," + toStr(c->getInitVal()) + "]"; }
    o += "]}\n"; fputs(o.c_str(), Out);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v)) return true;
    if (!inRoot(v->getLocation()) || v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return true;
    bool def = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!def && !v->getInit()) return true;
    string q = plain(v);
    if (!v->isExternallyVisible()) q += "@" + patfile(v->getLocation());
    string loc = file(v->getLocation()) + ":" + std::to_string(line(v->getLocation()));
    if (!Seen.insert("V" + q + loc).second) return true;
    o.clear(); localId.clear(); nextLocal = 0; nextNode = 0;
    o += "{\"k\":\"var\""; kvs("name", q); kvs("file", patfile(v->getLocation())); kvi("l", line(v->getLocation())); kvi("t", ty(v->getType()));
    if (v->getInit() && !v->getInit()->isValueDependent()) kids({v->getInit()});
    o += "}\n"; fputs(o.c_str(), Out);
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter e(C);
    e.TraverseDecl(C.getTranslationUnitDecl());
    ++NTU;
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char** argv) {
  // cdecfacts ROOT OUT COMPDB_DIR file...
  if (argc < 5) { std::cerr << "usage: cdecfacts ROOT OUT COMPDB_DIR file...\n"; return 2; }
  Root = argv[1];
  Out = fopen(argv[2], "w");
  string err;
  auto db = tooling::CompilationDatabase::loadFromDirectory(argv[3], err);
  if (!db) { std::cerr << err; return 2; }
  std::vector<string> files(argv + 4, argv + argc);
  tooling::ClangTool tool(*db, files);
  tool.clearArgumentsAdjusters();
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  fprintf(Out, "{\"k\":\"end\",\"tus\":%ld,\"fns\":%ld,\"recs\":%ld,\"rc\":%d}\n", NTU, NFn, NRec, rc);
  fclose(Out);
  return rc;
}
