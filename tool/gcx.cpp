// gcx: extracts a compact, fully resolved program representation (JSON) of the geometry-central sources.
// usage: gcx OUT.json ROOT[,ROOT...] file.cpp... -- compiler flags
// One process analyses several translation units; functions are emitted once per process (keyed by mangled name).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> gRoots;
static std::set<std::string> gSeenFn, gSeenRec, gSeenVar, gSeenEnum;
static llvm::raw_fd_ostream* gOut = nullptr;
static unsigned gErrors = 0;

static void emitLine(const char* what, Object o) {
  o["_"] = what;
  *gOut << Value(std::move(o)) << "\n";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl*, int> ids;
  std::string mainFile;

  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(c.createMangleContext()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;  // explicit instantiations would otherwise be named as written
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  unsigned lineOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  static std::string norm(std::string f) {
    // collapse "/x/../"
    size_t p;
    while ((p = f.find("/../")) != std::string::npos) {
      size_t q = f.rfind('/', p - 1);
      if (q == std::string::npos) break;
      f = f.substr(0, q) + f.substr(p + 3);
    }
    return f;
  }
  bool inRoots(const std::string& f0) {
    std::string f = norm(f0);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string clsName(const CXXRecordDecl* R) { return ty(C.getRecordType(R)); }
  std::string keyOf(const FunctionDecl* F) {
    if (!F) return "";
    if (F->isDependentContext()) return qn(F) + "<dep>";
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto* c = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(c, Ctor_Complete);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(d, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os);
    else os << F->getNameAsString();
    os.flush();
    if (!F->isExternallyVisible() && !isa<CXXMethodDecl>(F)) s += "@" + norm(mainFile);
    else if (F->isInAnonymousNamespace()) s += "@" + norm(mainFile);
    return s;
  }
  int id(const Decl* D) {
    auto it = ids.find(D->getCanonicalDecl());
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D->getCanonicalDecl()] = n;
    return n;
  }

  // ---------- expressions
  Value kids(const Stmt* S) {
    Array a;
    for (const Stmt* c : S->children())
      if (c) {
        if (auto* e = dyn_cast<Expr>(c)) a.push_back(ex(e));
      }
    return a;
  }
  template <class R> Array exs(R range) {
    Array a;
    for (const Expr* e : range) a.push_back(ex(e));
    return a;
  }
  Value ex(const Expr* E) {
    if (!E) return nullptr;
    // transparent nodes
    for (;;) {
      if (auto* x = dyn_cast<ImplicitCastExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<FullExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
        auto* cd = x->getConstructor();
        if (x->getNumArgs() >= 1 && cd->isCopyOrMoveConstructor() && !isa<CXXTemporaryObjectExpr>(E)) {
          bool restDefault = true;
          for (unsigned i = 1; i < x->getNumArgs(); i++)
            if (!isa<CXXDefaultArgExpr>(x->getArg(i))) restDefault = false;
          if (restDefault) { E = x->getArg(0); continue; }
        }
      }
      break;
    }
    Object o;
    o["l"] = lineOf(E->getBeginLoc());
    o["t"] = ty(E->getType());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(E)) {
      Object d;
      d["k"] = "defarg"; d["l"] = lineOf(E->getBeginLoc()); d["t"] = ty(E->getType());
      Array a; a.push_back(ex(x->getExpr())); d["a"] = std::move(a);
      return d;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(E)) {
      o["k"] = "definit"; Array a; a.push_back(ex(x->getExpr())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = x->getDecl();
      o["k"] = "ref"; o["n"] = D->getNameAsString();
      if (auto* v = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(v)) { o["dk"] = "param"; o["d"] = id(v); }
        else if (v->isLocalVarDecl() && !v->isStaticLocal()) { o["dk"] = "local"; o["d"] = id(v); }
        else { o["dk"] = "global"; o["q"] = qn(v); o["d"] = id(v); }
      } else if (auto* f = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["q"] = qn(f); o["m"] = keyOf(f); }
      else if (auto* ec = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qn(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); }
      else if (isa<BindingDecl>(D)) { o["dk"] = "local"; o["d"] = id(D); }
      else { o["dk"] = "other"; o["q"] = qn(D); }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(D)) { // static member
        o["k"] = "ref"; o["dk"] = "global"; o["n"] = v->getNameAsString(); o["q"] = qn(v); return o;
      }
      o["k"] = "mem"; o["n"] = D->getNameAsString();
      if (auto* fd = dyn_cast<FieldDecl>(D)) o["q"] = clsName(cast<CXXRecordDecl>(fd->getParent())) + "::" + fd->getNameAsString();
      else o["q"] = qn(D);
      if (auto* f = dyn_cast<FunctionDecl>(D)) { o["k"] = "memfn"; o["m"] = keyOf(f); }
      if (x->isArrow()) o["ar"] = 1;
      o["b"] = ex(x->getBase());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      const FunctionDecl* F = x->getDirectCallee();
      std::vector<const Expr*> args;
      for (auto* a : x->arguments()) args.push_back(a);
      if (auto* mc = dyn_cast<CXXMemberCallExpr>(E)) {
        if (mc->getImplicitObjectArgument()) o["o"] = ex(mc->getImplicitObjectArgument());
        if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts())) {
          if (me->isArrow()) o["ar"] = 1;
          if (me->hasQualifier()) o["qual"] = 1;
        }
      } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(E)) {
        o["op"] = getOperatorSpelling(oc->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !args.empty()) {
          o["o"] = ex(args[0]);
          args.erase(args.begin());
        }
      }
      if (F) {
        o["f"] = qn(F);
        o["m"] = keyOf(F);
        if (auto* md = dyn_cast<CXXMethodDecl>(F)) {
          o["c"] = clsName(md->getParent());
          o["cn"] = F->getNameAsString();
          if (md->isVirtual()) o["virt"] = 1;
          if (md->isConst()) o["const"] = 1;
        } else o["cn"] = F->getNameAsString();
        if (auto* ta = F->getTemplateSpecializationArgs()) {
          Array t;
          for (auto& A : ta->asArray()) {
            if (A.getKind() == TemplateArgument::Type) t.push_back(ty(A.getAsType()));
            else if (A.getKind() == TemplateArgument::Integral) t.push_back(llvm::toString(A.getAsIntegral(), 10));
          }
          o["ta"] = std::move(t);
        }
      } else {
        o["fe"] = ex(x->getCallee());
      }
      o["a"] = exs(args);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      o["c"] = clsName(x->getConstructor()->getParent());
      o["m"] = keyOf(x->getConstructor());
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = 1;
      if (x->getConstructor()->isImplicit()) o["imp"] = 1;
      Array a;
      for (auto* e : x->arguments()) a.push_back(ex(e));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(E)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      Array a; a.push_back(ex(x->getLHS())); a.push_back(ex(x->getRHS())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : "");
      Array a; a.push_back(ex(x->getSubExpr())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; llvm::SmallString<32> s; x->getValue().toStringUnsigned(s); o["v"] = s.str().str(); return o; }
    if (auto* x = dyn_cast<FloatingLiteral>(E)) { o["k"] = "lit"; llvm::SmallString<32> s; x->getValue().toString(s); o["v"] = s.str().str(); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "lit"; o["v"] = x->getValue() ? "true" : "false"; return o; }
    if (auto* x = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string(); return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(E)) { o["k"] = "lit"; o["v"] = std::to_string(x->getValue()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; Array a; a.push_back(ex(x->getCond())); a.push_back(ex(x->getTrueExpr())); a.push_back(ex(x->getFalseExpr())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; Array a; a.push_back(ex(x->getBase())); a.push_back(ex(x->getIdx())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lam";
      const CXXMethodDecl* op = x->getCallOperator();
      o["ps"] = params(op);
      Array caps;
      for (auto& cp : x->captures()) {
        Object c;
        if (cp.capturesThis()) c["this"] = 1;
        else if (cp.capturesVariable()) { c["n"] = cp.getCapturedVar()->getNameAsString(); c["d"] = id(cp.getCapturedVar()); c["ref"] = cp.getCaptureKind() == LCK_ByRef; }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["m"] = keyOf(op);
      o["r"] = ty(op->getReturnType());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"] = "cast"; Array a; a.push_back(ex(x->getSubExpr())); o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["nt"] = ty(x->getAllocatedType()); if (x->isArray()) o["arr"] = 1;
      Array a;
      if (auto* ce = x->getConstructExpr()) {
        o["m"] = keyOf(ce->getConstructor());
        for (auto* e : ce->arguments()) a.push_back(ex(e));
      } else if (x->getInitializer()) a.push_back(ex(x->getInitializer()));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; Array a; a.push_back(ex(x->getArgument())); o["a"] = std::move(a); return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; Array a; if (x->getSubExpr()) a.push_back(ex(x->getSubExpr())); o["a"] = std::move(a); return o; }
    if (auto* x = dyn_cast<InitListExpr>(E)) {
      o["k"] = "init";
      Array a;
      for (unsigned i = 0; i < x->getNumInits(); i++) if (x->getInit(i)) a.push_back(ex(x->getInit(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; return o; }
    o["k"] = "other"; o["cls"] = E->getStmtClassName(); o["a"] = kids(E);
    return o;
  }
  Array params(const FunctionDecl* F) {
    Array ps;
    for (auto* p : F->parameters()) {
      Object q; q["n"] = p->getNameAsString(); q["d"] = id(p); q["t"] = ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) q["def"] = ex(p->getDefaultArg());
      ps.push_back(std::move(q));
    }
    return ps;
  }
  Value varDecl(const VarDecl* v) {
    Object d; d["n"] = v->getNameAsString(); d["d"] = id(v); d["t"] = ty(v->getType()); d["l"] = lineOf(v->getLocation());
    if (v->isStaticLocal()) { d["st"] = 1; }
    if (v->getInit()) {
      d["i"] = ex(v->getInit());
      if (v->getInitStyle() == VarDecl::CallInit && isa<CXXConstructExpr>(v->getInit()->IgnoreImplicit()) && cast<CXXConstructExpr>(v->getInit()->IgnoreImplicit())->getNumArgs() == 0) d["dflt"] = 1;
    }
    return d;
  }
  // ---------- statements
  Value st(const Stmt* S) {
    if (!S) return nullptr;
    Object o;
    if (auto* e = dyn_cast<Expr>(S)) {
      o["s"] = "expr"; o["l"] = lineOf(S->getBeginLoc()); o["e"] = ex(e);
      return o;
    }
    o["l"] = lineOf(S->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(S)) {
      o["s"] = "block"; Array a; for (auto* c : x->body()) a.push_back(st(c)); o["b"] = std::move(a); o["le"] = lineOf(S->getEndLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl"; Array a;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) {
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
          Array bs; for (auto* b : dd->bindings()) { Object bo; bo["n"] = b->getNameAsString(); bo["d"] = id(b); bo["t"] = ty(b->getType()); bs.push_back(std::move(bo)); }
          Value vd = varDecl(v); (*vd.getAsObject())["binds"] = std::move(bs); a.push_back(std::move(vd));
        } else a.push_back(varDecl(v));
      }
      o["vs"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(S)) {
      o["s"] = "if"; if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["t"] = st(x->getThen()); if (x->getElse()) o["e"] = st(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(S)) {
      o["s"] = "for"; o["init"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["inc"] = ex(x->getInc()); o["b"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "rfor"; o["v"] = varDecl(x->getLoopVariable()); 
      o["v"].getAsObject()->erase("i");
      if (auto* dd = dyn_cast<DecompositionDecl>(x->getLoopVariable())) {
        Array bs; for (auto* b : dd->bindings()) { Object bo; bo["n"] = b->getNameAsString(); bo["d"] = id(b); bo["t"] = ty(b->getType()); bs.push_back(std::move(bo)); }
        (*o["v"].getAsObject())["binds"] = std::move(bs);
      }
      o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(S)) {
      o["s"] = "while"; if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["b"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<SwitchStmt>(S)) { o["s"] = "switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); if (x->isAllEnumCasesCovered()) o["all"] = 1; return o; }
    if (auto* x = dyn_cast<CaseStmt>(S)) { o["s"] = "case"; o["v"] = ex(x->getLHS()); o["b"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["b"] = st(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "continue"; return o; }
    if (auto* x = dyn_cast<ReturnStmt>(S)) { o["s"] = "return"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "try"; o["b"] = st(x->getTryBlock()); Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) a.push_back(st(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
      return o;
    }
    if (isa<NullStmt>(S)) { o["s"] = "null"; return o; }
    if (auto* x = dyn_cast<AttributedStmt>(S)) return st(x->getSubStmt());
    o["s"] = "other"; o["cls"] = S->getStmtClassName();
    return o;
  }

  // ---------- declarations
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (F->isImplicit() || F->isDefaulted() || F->isDeleted()) return true;
    if (!F->getBody()) return true;
    if (auto* md = dyn_cast<CXXMethodDecl>(F)) if (md->getParent()->isLambda()) return true;
    std::string f = norm(fileOf(F->getLocation()));
    if (!inRoots(f)) return true;
    std::string key = keyOf(F);
    if (!gSeenFn.insert(key).second) return true;
    ids.clear();
    Object o;
    o["m"] = key; o["q"] = qn(F); o["n"] = F->getNameAsString(); o["f"] = f; o["l"] = lineOf(F->getLocation()); o["le"] = lineOf(F->getEndLoc());
    o["r"] = ty(F->getReturnType());
    o["ps"] = params(F);
    if (F->getPrimaryTemplate() || F->getTemplateInstantiationPattern()) o["tm"] = 1;
    if (auto* md = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(md->getParent());
      if (md->isVirtual()) o["virt"] = 1;
      if (md->isConst()) o["const"] = 1;
      if (md->isStatic()) o["static"] = 1;
      o["acc"] = (int)md->getAccess();
      Array ov; for (auto* m : md->overridden_methods()) ov.push_back(keyOf(m));
      if (!ov.empty()) o["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
      if (auto* cd = dyn_cast<CXXConstructorDecl>(F)) {
        Array in;
        for (auto* i : cd->inits()) {
          Object q;
          if (i->isAnyMemberInitializer()) q["mem"] = i->getAnyMember()->getNameAsString();
          else if (i->isBaseInitializer()) q["base"] = ty(QualType(i->getBaseClass(), 0));
          else q["deleg"] = 1;
          if (i->isWritten()) q["w"] = 1;
          q["l"] = lineOf(i->getSourceLocation());
          q["e"] = ex(i->getInit());
          in.push_back(std::move(q));
        }
        o["inits"] = std::move(in);
        if (cd->isCopyConstructor()) o["cc"] = 1;
        if (cd->isMoveConstructor()) o["mc"] = 1;
      }
    }
    if (F->isInAnonymousNamespace() || !F->isExternallyVisible()) o["local"] = 1;
    {
      const FunctionDecl* pats[2] = {F, F->getTemplateInstantiationPattern()};
      for (auto* p : pats) if (p) for (auto* rd : p->redecls()) {
        std::string rf = norm(fileOf(rd->getLocation()));
        if (rf.find("/include/") != std::string::npos) o["hd"] = 1;
      }
    }
    o["body"] = st(F->getBody());
    emitLine("fn", std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string f = norm(fileOf(R->getLocation()));
    if (!inRoots(f)) return true;
    std::string n = clsName(R);
    if (!gSeenRec.insert(n).second) return true;
    ids.clear();
    Object o;
    o["n"] = n; o["q"] = qn(R); o["f"] = f; o["l"] = lineOf(R->getLocation());
    Array b; for (auto& x : R->bases()) b.push_back(ty(x.getType())); o["bases"] = std::move(b);
    Array fs;
    for (auto* fd : R->fields()) {
      Object q; q["n"] = fd->getNameAsString(); q["t"] = ty(fd->getType()); q["l"] = lineOf(fd->getLocation()); q["acc"] = (int)fd->getAccess();
      if (fd->hasInClassInitializer()) { q["init"] = 1; if (fd->getInClassInitializer()) q["e"] = ex(fd->getInClassInitializer()); }
      fs.push_back(std::move(q));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto* md : R->methods()) {
      if (md->isImplicit()) { continue; }
      Object q; q["n"] = md->getNameAsString(); q["m"] = keyOf(md); q["r"] = ty(md->getReturnType()); q["acc"] = (int)md->getAccess();
      if (md->isVirtual()) q["virt"] = 1;
      if (md->isPureVirtual()) q["pure"] = 1;
      if (md->isDeleted()) q["del"] = 1;
      if (md->isDefaulted()) q["dft"] = 1;
      if (md->isStatic()) q["static"] = 1;
      if (md->isConst()) q["const"] = 1;
      if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) { q["ctor"] = 1; if (cd->isCopyConstructor()) q["cc"] = 1; if (cd->isMoveConstructor()) q["mc"] = 1; }
      if (md->isCopyAssignmentOperator()) q["ca"] = 1;
      if (md->isMoveAssignmentOperator()) q["ma"] = 1;
      Array ov; for (auto* m : md->overridden_methods()) ov.push_back(keyOf(m));
      if (!ov.empty()) q["ov"] = std::move(ov);
      ms.push_back(std::move(q));
    }
    o["methods"] = std::move(ms);
    emitLine("rec", std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    std::string f = norm(fileOf(E->getLocation()));
    if (!inRoots(f)) return true;
    std::string n = qn(E);
    if (!gSeenEnum.insert(n).second) return true;
    Object o; o["n"] = n; o["f"] = f; o["l"] = lineOf(E->getLocation());
    Array a; for (auto* c : E->enumerators()) a.push_back(c->getNameAsString()); o["cs"] = std::move(a);
    emitLine("enum", std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (V->isLocalVarDecl() && !V->isStaticLocal()) return true;
    if (isa<ParmVarDecl>(V) || !V->hasGlobalStorage()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    std::string f = norm(fileOf(V->getLocation()));
    if (!inRoots(f)) return true;
    std::string key = qn(V) + "@" + f + ":" + std::to_string(lineOf(V->getLocation()));
    if (!gSeenVar.insert(key).second) return true;
    ids.clear();
    Object o; o["q"] = qn(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["f"] = f; o["l"] = lineOf(V->getLocation());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    if (V->getInit() && !isa<InitListExpr>(V->getInit()->IgnoreImplicit())) o["e"] = ex(V->getInit());
    o["stl"] = V->isStaticLocal(); o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    emitLine("var", std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  std::string mainFile;
  CompilerInstance& CI;
  Consumer(CompilerInstance& ci, std::string f) : mainFile(f), CI(ci) {}
  bool skippable(Decl* D) {
    auto& SM = CI.getSourceManager();
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    std::string f = Dumper::norm(SM.getFilename(L).str());
    for (auto& r : gRoots) if (f.compare(0, r.size(), r) == 0) return false;
    return true;
  }
  bool shouldSkipFunctionBody(Decl* D) override {
    // (but a unique_ptr's destructor is what makes the destructor of what it owns exist)
    if (auto* R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) {
      auto n = R->getNameAsString();
      if (n == "unique_ptr" || n == "default_delete" || n == "__uniq_ptr_impl") return false;
    }
    return skippable(D);
  }
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { gErrors++; }
    Dumper d(C);
    d.mainFile = mainFile;
    Object o; o["f"] = Dumper::norm(mainFile); o["err"] = C.getDiagnostics().hasErrorOccurred();
    emitLine("tu", std::move(o));
    d.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Consumer>(CI, f.str());
  }
};
template <class T> struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<T>(); }
};

int main(int argc, const char** argv) {
  std::vector<std::string> files, flags;
  if (argc < 4) return 2;
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); gRoots.push_back(roots.substr(p, q - p)); p = q + 1; }
  bool f = false;
  for (int i = 3; i < argc; i++) {
    if (std::string(argv[i]) == "--") { f = true; continue; }
    (f ? flags : files).push_back(argv[i]);
  }
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[1], ec);
  if (ec) return 2;
  gOut = &out;
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, files);
  Fac<Action> fac;
  int rc = tool.run(&fac);
  out.flush();
  return (rc || gErrors) ? 1 : 0;
}
