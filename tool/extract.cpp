// Clang libTooling front end: dumps the resolved program of one translation unit as compact JSON.
// Nothing of the analysed program is executed; the tool only reads the type-checked syntax tree.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <fstream>
#include <deque>
using namespace clang;
namespace json = llvm::json;
static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> OutFile("out", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root2("root2", llvm::cl::cat(Cat));

struct Err { std::string file; int line; std::string msg; };
static std::vector<Err> Errors;
// remembers where the compiler complained: a specification that no longer fits the code is skipped, not guessed at
struct Diags : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L < DiagnosticsEngine::Error) return;
    Err e; e.line = 0;
    if (I.hasSourceManager() && I.getLocation().isValid()) {
      auto &SM = I.getSourceManager(); auto PL = SM.getPresumedLoc(SM.getExpansionLoc(I.getLocation()));
      if (PL.isValid()) { e.line = PL.getLine(); llvm::SmallString<256> real; if (!llvm::sys::fs::real_path(PL.getFilename(), real)) e.file = std::string(real); else e.file = PL.getFilename(); }
    }
    llvm::SmallString<256> b; I.FormatDiagnostic(b); e.msg = std::string(b);
    llvm::errs() << e.file << ":" << e.line << ": " << e.msg << "\n";
    Errors.push_back(e);
  }
};

struct Dumper {
  ASTContext &C; SourceManager &SM;
  json::Object Types, Functions, Records, Enums, Globals;
  std::map<const Type*, int> dummy;
  std::map<std::string,int> typeId;
  std::map<const Decl*, std::string> ids;
  std::set<std::string> doneFn, doneFnBody, doneRec, doneEnum, doneGlob;
  std::deque<const FunctionDecl*> work;
  json::Array TypeArr;
  std::map<const void*, int> typePtr;
  int nlocal = 0;
  std::map<const Decl*, int> local;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto PL = SM.getPresumedLoc(L);
    if (PL.isInvalid()) return "";
    std::string f = PL.getFilename();
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(f, real)) f = std::string(real);
    return f;
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); auto P = SM.getPresumedLoc(L); return P.isInvalid() ? 0 : P.getLine(); }
  bool inRepoFile(const std::string &f) {
    auto under = [&](const std::string &r) { return !r.empty() && f.rfind(r, 0) == 0 && f.find("/fmt/") == std::string::npos; };
    return under(Root) || under(Root2);
  }
  bool inRepo(const Decl *D) { return inRepoFile(fileOf(D->getLocation())); }

  std::string usr(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    llvm::SmallString<128> buf;
    std::string r;
    if (index::generateUSRForDecl(D, buf)) r = "?" + std::to_string(ids.size());
    else r = std::string(buf);
    ids[D] = r; return r;
  }
  std::string qname(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os); return os.str(); }

  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType Can = T.getCanonicalType();
    auto key = Can.getAsOpaquePtr();
    auto it = typePtr.find(key);
    if (it != typePtr.end()) return it->second;
    int id = TypeArr.size();
    typePtr[key] = id;
    TypeArr.push_back(json::Object{});
    json::Object o;
    PrintingPolicy PP(C.getLangOpts()); PP.FullyQualifiedName = true; PP.SuppressInlineNamespace = true; PP.PrintCanonicalTypes = true;
    o["s"] = Can.getAsString(PP);
    if (Can.isConstQualified()) o["const"] = true;
    const Type *t = Can.getTypePtr();
    if (t->isDependentType()) { o["k"] = "dependent"; }
    else if (auto *B = dyn_cast<BuiltinType>(t)) {
      if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isVoidType()) o["k"] = "void";
      else if (B->isInteger()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(t); o["sg"] = B->isSignedInteger();
        if (t->isAnyCharacterType()) o["char"] = true; }
      else if (B->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int)C.getTypeSize(t); }
      else o["k"] = "other";
    } else if (auto *R = dyn_cast<ReferenceType>(t)) { o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref"; o["to"] = type(R->getPointeeType()); }
    else if (auto *P = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(P->getPointeeType()); }
    else if (auto *E = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["n"] = qname(E->getDecl()); dumpEnum(E->getDecl()); }
    else if (auto *A = dyn_cast<ArrayType>(t)) { o["k"] = "array"; o["to"] = type(A->getElementType()); if (auto *CA = dyn_cast<ConstantArrayType>(t)) o["size"] = (int64_t)CA->getSize().getZExtValue(); }
    else if (auto *RT = dyn_cast<RecordType>(t)) {
      o["k"] = "rec"; auto *D = RT->getDecl(); o["n"] = qname(D);
      if (auto *CX = dyn_cast<CXXRecordDecl>(D)) { if (CX->isLambda()) o["lambda"] = true; }
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        json::Array args;
        std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument &a) {
          if (a.getKind() == TemplateArgument::Type) args.push_back(type(a.getAsType()));
          else if (a.getKind() == TemplateArgument::Integral) args.push_back(json::Object{{"int", a.getAsIntegral().getExtValue()}});
          else if (a.getKind() == TemplateArgument::Pack) for (auto &x : a.pack_elements()) add(x);
          else args.push_back(-1);
        };
        for (auto &a : S->getTemplateArgs().asArray()) add(a);
        o["args"] = std::move(args);
      }
      if (inRepo(D)) { o["repo"] = true; dumpRecord(D); }
    } else if (auto *F = dyn_cast<FunctionType>(t)) { o["k"] = "fn"; o["ret"] = type(F->getReturnType()); }
    else if (auto *MP = dyn_cast<MemberPointerType>(t)) { o["k"] = "mptr"; o["to"] = type(MP->getPointeeType()); }
    else o["k"] = "other";
    TypeArr[id] = std::move(o);
    return id;
  }

  void dumpEnum(const EnumDecl *E) {
    std::string n = qname(E);
    if (!doneEnum.insert(n).second) return;
    if (auto *Def = E->getDefinition()) E = Def;
    if (!inRepo(E)) return;
    json::Array a;
    for (auto *c : E->enumerators()) a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}});
    Enums[n] = json::Object{{"file", fileOf(E->getLocation())}, {"line", lineOf(E->getLocation())}, {"vals", std::move(a)}};
  }
  void dumpRecord(const RecordDecl *D0) {
    const RecordDecl *D = D0->getDefinition(); if (!D) return;
    if (D->isDependentContext()) return;
    std::string key = usr(D);
    if (!doneRec.insert(key).second) return;
    json::Object o; o["n"] = qname(D); o["file"] = fileOf(D->getLocation()); o["line"] = lineOf(D->getLocation()); o["ts"] = type(C.getRecordType(D));
    json::Array f;
    for (auto *F : D->fields()) {
      json::Object fo; fo["n"] = F->getNameAsString(); fo["id"] = usr(F); fo["t"] = type(F->getType()); fo["mutable"] = F->isMutable(); fo["line"] = lineOf(F->getLocation()); fo["access"] = (int)F->getAccess();
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    json::Array b;
    if (auto *CX = dyn_cast<CXXRecordDecl>(D)) {
      for (auto &B : CX->bases()) b.push_back(type(B.getType()));
      o["lambda"] = CX->isLambda();
      json::Array ms;
      for (auto *M : CX->methods()) { if (!M->isImplicit() || M->isUserProvided()) ms.push_back(fnref(M)); }
      o["methods"] = std::move(ms);
    }
    o["bases"] = std::move(b);
    Records[key] = std::move(o);
  }

  std::string fnref(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string key = usr(F);
    if (doneFn.insert(key).second) {
      json::Object o; o["q"] = qname(F); o["n"] = F->getNameAsString();
      o["ret"] = type(F->getReturnType());
      json::Array ps; for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
      o["ptypes"] = std::move(ps);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["method"] = true; o["static"] = M->isStatic(); o["constm"] = M->isConst(); o["cls"] = qname(M->getParent()); o["clst"] = type(C.getRecordType(M->getParent())); o["virtual"] = M->isVirtual(); o["access"] = (int)M->getAccess();}
      if (isa<CXXConstructorDecl>(F)) { auto *CD = cast<CXXConstructorDecl>(F); o["ctor"] = true; o["copy"] = CD->isCopyConstructor(); o["move"] = CD->isMoveConstructor(); o["explicit"] = CD->isExplicit(); }
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(F)) o["conv"] = true;
      if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
      o["defaulted"] = F->isDefaulted(); o["implicit"] = F->isImplicit(); o["deleted"] = F->isDeleted();
      o["noret"] = F->isNoReturn();
      if (auto *FT = F->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow()) o["noexc"] = true;
      if (auto *ta = F->getTemplateSpecializationArgs()) {
        json::Array a; for (auto &x : ta->asArray()) if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType())); o["targs"] = std::move(a);
      }
      const FunctionDecl *Def = nullptr; bool has = F->hasBody(Def);
      const FunctionDecl *where = Def ? Def : F;
      o["file"] = fileOf(where->getLocation()); o["line"] = lineOf(where->getLocation());
      bool rep = inRepoFile(fileOf(where->getLocation())) ;
      const FunctionDecl *pat = where->getTemplateInstantiationPattern();
      if (pat) { rep = inRepoFile(fileOf(pat->getLocation())); }
      o["repo"] = rep;
      if (rep) work.push_back(where);
      Functions[key] = std::move(o);
    }
    return key;
  }

  bool sawConstCast = false;
  void body(const FunctionDecl *F0) {
    const FunctionDecl *F = nullptr;
    if (!F0->hasBody(F)) return;
    if (F->isDependentContext()) return;
    if (!Errors.empty()) {
      std::string f = fileOf(F->getLocation()); int b = lineOf(F->getBeginLoc()), e = lineOf(F->getEndLoc());
      for (auto &x : Errors) if (x.file == f && x.line >= b && x.line <= e) return;
    }
    std::string key = fnref(F);
    if (!doneFnBody.insert(key).second) return;
    json::Object b;
    json::Array ps;
    for (auto *p : F->parameters()) { json::Object po; po["id"] = vid(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(p->getDefaultArg()); ps.push_back(std::move(po)); }
    json::Value bodyv = nullptr;
    json::Array inits;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) { io["field"] = I->getAnyMember()->getNameAsString(); io["ft"] = type(I->getAnyMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit());
        inits.push_back(std::move(io));
      }
    }
    bool outerCC = sawConstCast; sawConstCast = false;
    bodyv = stmt(F->getBody());
    bool cc = sawConstCast; sawConstCast = outerCC || cc;
    json::Object *o = Functions.getObject(key);
    o = Functions.getObject(key);
    (*o)["params"] = std::move(ps);
    (*o)["inits"] = std::move(inits);
    (*o)["body"] = std::move(bodyv);
    (*o)["endline"] = lineOf(F->getEndLoc());
    if (cc) (*o)["constcast"] = true;
    (*o)["internal"] = F->getFormalLinkage() == Linkage::Internal;
  }

  std::string vid(const ValueDecl *V) {
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      VD = VD->getCanonicalDecl();
      if (VD->hasGlobalStorage()) { dumpGlobal(VD); return "G:" + usr(VD); }
      V = VD;
    }
    auto it = local.find(V);
    if (it == local.end()) it = local.emplace(V, nlocal++).first;
    return "v" + std::to_string(it->second);
  }
  void dumpGlobal(const VarDecl *V) {
    std::string key = usr(V);
    if (!doneGlob.insert(key).second) return;
    const VarDecl *Def = V->getDefinition(); if (!Def) Def = V;
    std::string f = fileOf(Def->getLocation());
    json::Object o; o["n"] = qname(V); o["t"] = type(V->getType()); o["file"] = f; o["line"] = lineOf(Def->getLocation());
    o["local"] = V->isStaticLocal(); o["tls"] = V->getTLSKind() != VarDecl::TLS_None; o["constexpr"] = V->isConstexpr();
    o["repo"] = inRepoFile(f); o["isdef"] = (bool)V->getDefinition();
    if (inRepoFile(f)) { const VarDecl *ID; if (auto *I = Def->getAnyInitializer(ID)) { if (!I->isValueDependent() && !I->isTypeDependent()) o["init"] = expr(I); } }
    Globals["G:" + key] = std::move(o);
  }

  json::Value vdecl(const VarDecl *V) {
    json::Object o; o["id"] = vid(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType()); o["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) { o["init"] = expr(V->getInit()); if (V->getInitStyle() == VarDecl::ListInit) o["list"] = true; }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array b; int i = 0;
      for (auto *B : DD->bindings()) { json::Object bo; bo["id"] = vid(B); bo["n"] = B->getNameAsString(); bo["i"] = i++; bo["t"] = type(B->getType());
        if (auto *BE = B->getBinding()) { if (auto *ME = dyn_cast<MemberExpr>(BE->IgnoreImplicit())) bo["f"] = ME->getMemberDecl()->getNameAsString(); }
        b.push_back(std::move(bo)); }
      o["bind"] = std::move(b);
    }
    return std::move(o);
  }

  json::Object N(const char *k, const Stmt *S) { json::Object o; o["k"] = k; o["l"] = lineOf(S->getBeginLoc()); 
     std::string f; 
     return o; }

  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<ChooseExpr>(E)) { E = P->getChosenSubExpr(); continue; }
      if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
      if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
      if (auto *P = dyn_cast<CastExpr>(E)) {
        if (isa<ExplicitCastExpr>(P) && P->getCastKind() == CK_NoOp) {
          QualType A = P->getSubExpr()->getType(), B = P->getType();
          if (A->isPointerType() && B->isPointerType()) { A = A->getPointeeType(); B = B->getPointeeType(); }
          if (A.isConstQualified() && !B.isConstQualified() && (P->isGLValue() || P->getType()->isPointerType())) sawConstCast = true;
        }
        switch (P->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      return E;
    }
  }
  json::Array exprs(llvm::iterator_range<const Expr *const *> r) { json::Array a; for (auto *e : r) a.push_back(expr(e)); return a; }

  json::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    int t = type(E->getType());
    auto mk = [&](const char *k) { json::Object o = N(k, E); o["t"] = t; return o; };
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { auto o = mk("int"); llvm::SmallString<32> s; L->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); o["v"] = std::string(s); return std::move(o); }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { auto o = mk("char"); o["v"] = (int64_t)L->getValue(); return std::move(o); }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { auto o = mk("float"); o["v"] = L->getValueAsApproximateDouble(); return std::move(o); }
    if (auto *L = dyn_cast<StringLiteral>(E)) { auto o = mk("str"); o["v"] = L->isOrdinary() || L->isUTF8() ? json::fixUTF8(L->getString()) : ""; return std::move(o); }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = mk("bool"); o["v"] = L->getValue(); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null");
    if (isa<CXXThisExpr>(E)) return mk("this");
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = R->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = mk("enum"); o["n"] = qname(EC); o["v"] = EC->getInitVal().getExtValue(); return std::move(o); }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = mk("fref"); o["f"] = fnref(F); return std::move(o); }
      auto o = mk("ref"); o["id"] = vid(D); o["n"] = D->getNameAsString(); if (isa<BindingDecl>(D)) o["binding"] = true; return std::move(o);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        auto o = mk("member"); o["b"] = expr(M->getBase()); o["f"] = F->getNameAsString(); o["arrow"] = M->isArrow();
        o["rec"] = qname(F->getParent()); return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { auto o = mk("ref"); o["id"] = vid(V); o["n"] = V->getNameAsString(); return std::move(o); }
      if (auto *F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) { auto o = mk("fref"); o["f"] = fnref(F); o["b"] = expr(M->getBase()); return std::move(o); }
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { auto o = mk("enum"); o["n"] = qname(EC); o["v"] = EC->getInitVal().getExtValue(); return std::move(o); }
    }
    if (auto *Cc = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *F = Cc->getMethodDecl();
      auto o = mk("mcall");
      if (F) o["f"] = fnref(F); 
      if (auto *ME = dyn_cast<MemberExpr>(Cc->getCallee()->IgnoreParenImpCasts())) { o["o"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); o["lv"] = ME->getBase()->isLValue() || ME->isArrow(); }
      else { o["fp"] = expr(Cc->getCallee()); }
      json::Array a; for (auto *x : Cc->arguments()) a.push_back(expr(x)); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *Cc = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = dyn_cast_or_null<FunctionDecl>(Cc->getCalleeDecl());
      auto *MD = dyn_cast_or_null<CXXMethodDecl>(F);
      auto o = mk(MD && !MD->isStatic() ? "mcall" : "call");
      o["op"] = getOperatorSpelling(Cc->getOperator());
      if (F) o["f"] = fnref(F);
      json::Array a; unsigned i = 0;
      for (auto *x : Cc->arguments()) { if (i == 0 && MD && !MD->isStatic()) o["o"] = expr(x); else a.push_back(expr(x)); i++; }
      o["a"] = std::move(a); return std::move(o);
    }
    if (auto *Cc = dyn_cast<CallExpr>(E)) {
      auto *F = Cc->getDirectCallee();
      auto o = mk("call");
      if (F) o["f"] = fnref(F); else o["fp"] = expr(Cc->getCallee());
      json::Array a; for (auto *x : Cc->arguments()) a.push_back(expr(x)); o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *Cc = dyn_cast<CXXConstructExpr>(E)) {
      auto o = mk("ctor"); auto *CD = Cc->getConstructor(); o["f"] = fnref(CD);
      json::Array a; for (auto *x : Cc->arguments()) a.push_back(expr(x)); o["a"] = std::move(a);
      if (CD->isCopyConstructor()) o["copy"] = true; if (CD->isMoveConstructor()) o["move"] = true;
      if (Cc->isListInitialization()) o["list"] = true; if (Cc->isStdInitListInitialization()) o["il"] = true;
      if (Cc->requiresZeroInitialization()) o["zero"] = true;
      if (isa<CXXTemporaryObjectExpr>(E)) o["explicit"] = true;
      return std::move(o);
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      auto o = mk("ilist"); json::Array a; for (auto *x : I->inits()) a.push_back(expr(x)); o["a"] = std::move(a); 
      if (I->hasArrayFiller()) o["filler"] = true;
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero");
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      auto o = mk(B->isAssignmentOp() ? "assign" : "bin"); o["op"] = B->getOpcodeStr().str(); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) { o["ct"] = type(CA->getComputationResultType()); }
      return std::move(o);
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) { auto o = mk("un"); o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix(); o["a"] = expr(U->getSubExpr()); return std::move(o); }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) { auto o = mk("cond"); o["c"] = expr(Q->getCond()); o["a"] = expr(Q->getTrueExpr()); o["b"] = expr(Q->getFalseExpr()); return std::move(o); }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) { auto o = mk("sub"); o["a"] = expr(S->getBase()); o["b"] = expr(S->getIdx()); return std::move(o); }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      auto o = mk("cast"); o["ck"] = K->getCastKindName(); o["a"] = expr(K->getSubExpr()); o["from"] = type(K->getSubExpr()->getType()); o["explicit"] = isa<ExplicitCastExpr>(K); return std::move(o);
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) { auto o = mk("throw"); if (T->getSubExpr()) { o["a"] = expr(T->getSubExpr()); o["tt"] = type(T->getSubExpr()->getType()); } return std::move(o); }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      auto o = mk("lambda"); json::Array caps; unsigned i = 0;
      auto ci = L->capture_init_begin();
      for (auto &c : L->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; co["bystar"] = c.getCaptureKind() == LCK_StarThis; }
        else if (c.capturesVariable()) { auto *VD = cast<ValueDecl>(c.getCapturedVar()); co["id"] = vid(VD); co["n"] = VD->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef;
           if (auto *VV = dyn_cast<VarDecl>(VD)) if (VV->isInitCapture() && VV->hasInit()) co["init"] = expr(VV->getInit()); }
        caps.push_back(std::move(co)); ++i; ++ci;
      }
      o["caps"] = std::move(caps);
      if (auto *CO = L->getCallOperator()) {
        json::Array ps; for (auto *p : CO->parameters()) ps.push_back(json::Object{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps); o["ret"] = type(CO->getReturnType()); o["f"] = usr(CO); o["mutable"] = L->isMutable();
        if (!L->isGenericLambda() && !CO->isDependentContext()) o["body"] = stmt(L->getBody());
        else {
          o["generic"] = true;
          json::Array inst;
          if (auto *FT = CO->getDescribedFunctionTemplate()) for (auto *S : FT->specializations()) {
            const FunctionDecl *Def = nullptr; if (!S->hasBody(Def)) continue;
            json::Array sp; for (auto *p : Def->parameters()) sp.push_back(json::Object{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
            inst.push_back(json::Object{{"f", usr(S)}, {"params", std::move(sp)}, {"body", stmt(Def->getBody())}});
          }
          o["inst"] = std::move(inst);
        }
      }
      return std::move(o);
    }
    if (auto *Nw = dyn_cast<CXXNewExpr>(E)) { auto o = mk("new"); json::Array ch; if (Nw->getInitializer()) ch.push_back(expr(Nw->getInitializer())); o["ch"] = std::move(ch); return std::move(o); }
    // value computed at compile time
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<SizeOfPackExpr>(E) || isa<CXXNoexceptExpr>(E))) {
      Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { auto o = mk("int"); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s); return std::move(o); }
    }
    auto o = mk("other"); o["cls"] = E->getStmtClassName();
    json::Array ch; for (auto *c : E->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce)); else ch.push_back(stmt(c)); }
    o["ch"] = std::move(ch);
    return std::move(o);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto o = N("expr", S); o["e"] = expr(E); return std::move(o); }
    if (auto *Cs = dyn_cast<CompoundStmt>(S)) { auto o = N("block", S); json::Array a; for (auto *c : Cs->body()) a.push_back(stmt(c)); o["a"] = std::move(a); return std::move(o); }
    if (auto *D = dyn_cast<DeclStmt>(S)) { auto o = N("decl", S); json::Array a; for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vdecl(V)); o["a"] = std::move(a); return std::move(o); }
    if (auto *I = dyn_cast<IfStmt>(S)) { auto o = N("if", S); if (I->getInit()) o["init"] = stmt(I->getInit()); if (I->getConditionVariable()) o["cv"] = vdecl(I->getConditionVariable()); o["constexpr"] = I->isConstexpr(); o["c"] = expr(I->getCond()); o["a"] = stmt(I->getThen()); o["b"] = stmt(I->getElse());
      if (I->isConstexpr() && !I->getCond()->isValueDependent()) { bool r; if (I->getCond()->EvaluateAsBooleanCondition(r, C)) o["cval"] = r; }
      return std::move(o); }
    if (auto *F = dyn_cast<ForStmt>(S)) { auto o = N("for", S); o["init"] = stmt(F->getInit()); o["c"] = F->getCond() ? expr(F->getCond()) : json::Value(nullptr); o["inc"] = F->getInc() ? expr(F->getInc()) : json::Value(nullptr); o["body"] = stmt(F->getBody()); return std::move(o); }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) { auto o = N("rfor", S); if (F->getInit()) o["init"] = stmt(F->getInit()); o["var"] = vdecl(F->getLoopVariable()); o["range"] = expr(F->getRangeInit()); o["rt"] = type(F->getRangeInit()->getType()); o["body"] = stmt(F->getBody()); return std::move(o); }
    if (auto *W = dyn_cast<WhileStmt>(S)) { auto o = N("while", S); if (W->getConditionVariable()) o["cv"] = vdecl(W->getConditionVariable()); o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); return std::move(o); }
    if (auto *W = dyn_cast<DoStmt>(S)) { auto o = N("do", S); o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); return std::move(o); }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { auto o = N("ret", S); o["e"] = R->getRetValue() ? expr(R->getRetValue()) : json::Value(nullptr); return std::move(o); }
    if (isa<BreakStmt>(S)) return N("break", S);
    if (isa<ContinueStmt>(S)) return N("continue", S);
    if (isa<NullStmt>(S)) return N("nop", S);
    if (auto *W = dyn_cast<SwitchStmt>(S)) { auto o = N("switch", S); if (W->getInit()) o["init"] = stmt(W->getInit()); o["c"] = expr(W->getCond()); o["body"] = stmt(W->getBody()); o["allenum"] = W->isAllEnumCasesCovered(); return std::move(o); }
    if (auto *K = dyn_cast<CaseStmt>(S)) { auto o = N("case", S); o["v"] = expr(K->getLHS()); o["a"] = stmt(K->getSubStmt()); return std::move(o); }
    if (auto *K = dyn_cast<DefaultStmt>(S)) { auto o = N("default", S); o["a"] = stmt(K->getSubStmt()); return std::move(o); }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { auto o = N("try", S); o["body"] = stmt(T->getTryBlock()); json::Array h; for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); json::Object ho; ho["t"] = H->getCaughtType().isNull() ? -1 : type(H->getCaughtType()); ho["l"] = lineOf(H->getBeginLoc()); if (H->getExceptionDecl()) ho["id"] = vid(H->getExceptionDecl()); ho["body"] = stmt(H->getHandlerBlock()); h.push_back(std::move(ho)); } o["h"] = std::move(h); return std::move(o); }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) { auto o = N("other", S); o["cls"] = "LabelStmt"; json::Array ch; ch.push_back(stmt(L->getSubStmt())); o["ch"] = std::move(ch); return std::move(o); }
    auto o = N("other", S); o["cls"] = S->getStmtClassName();
    json::Array ch; for (auto *c : S->children()) if (c) ch.push_back(stmt(c)); o["ch"] = std::move(ch);
    return std::move(o);
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    const FunctionDecl *pat = F->getTemplateInstantiationPattern();
    std::string f = D.fileOf((pat ? pat : F)->getLocation());
    if (!D.inRepoFile(f)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    D.fnref(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *Vd) {
    if (Vd->hasGlobalStorage() && !Vd->getDeclContext()->isDependentContext() && D.inRepo(Vd)) D.dumpGlobal(Vd->getCanonicalDecl());
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) { if (R->isCompleteDefinition() && !R->isDependentContext() && D.inRepo(R)) D.type(D.C.getRecordType(R)); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (D.inRepo(E)) D.dumpEnum(E); return true; }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    for (auto &e : Errors) if (Root2.empty() || e.file.rfind(Root2, 0) != 0) return;
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.work.empty()) { auto *F = D.work.front(); D.work.pop_front(); D.body(F); }
    json::Object o; o["types"] = std::move(D.TypeArr); o["functions"] = std::move(D.Functions); o["records"] = std::move(D.Records); o["enums"] = std::move(D.Enums); o["globals"] = std::move(D.Globals);
    json::Array es; for (auto &e : Errors) es.push_back(json::Object{{"file", e.file}, {"line", e.line}, {"msg", e.msg}}); o["errors"] = std::move(es);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 3; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  Diags DC; T.setDiagnosticConsumer(&DC);
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
