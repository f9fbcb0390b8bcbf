// cxxdump: exports the resolved (type-checked, template-instantiated) program of one translation unit as JSON.
// Function bodies defined under one of the given roots are written out as small typed trees; everything else
// is referenced by qualified name only.  No code of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

static std::string apstr(const llvm::APSInt &v) {
  llvm::SmallString<32> s;
  v.toString(s, 10);
  return std::string(s.str());
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  json::Array functions, records, enums, globals;
  std::set<const Decl *> doneGlobals, doneRecords;
  std::vector<const VarDecl *> pendingGlobals;
  std::vector<const RecordDecl *> pendingRecords;
  std::map<const FunctionDecl *, int> lambdaSeen;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressScope = false;
    PP.Bool = true;
  }

  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    std::string r = t.getCanonicalType().getAsString(PP);
    // records local to a function print without their scope: keep those of different functions apart
    QualType b = t.getCanonicalType();
    while (true) {
      if (b->isPointerType() || b->isReferenceType()) b = b->getPointeeType();
      else if (auto *at = b->getAsArrayTypeUnsafe()) b = at->getElementType();
      else break;
    }
    if (auto *rd = b->getAsRecordDecl())
      if (rd->getParentFunctionOrMethod() && rd->getIdentifier() && !isa<ClassTemplateSpecializationDecl>(rd)) {
        std::string n = rd->getNameAsString();
        size_t p = r.rfind(n);
        if (p != std::string::npos && (p == 0 || r[p - 1] == ' ' || r[p - 1] == ':')) r.insert(p + n.size(), "_at" + std::to_string(line(rd->getLocation())));
      }
    return r;
  }
  std::string sugar(QualType t) {
    if (t.isNull()) return "";
    PrintingPolicy P2 = C.getPrintingPolicy();
    P2.SuppressTagKeyword = true;
    return t.getAsString(P2);
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool inRoots(SourceLocation l) {
    std::string f = file(l);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string qn(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    return os.str();
  }
  std::string targs(const FunctionDecl *f) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *a = f->getTemplateSpecializationArgs())
      printTemplateArgumentList(os, a->asArray(), PP);
    return os.str();
  }
  const char *mode(QualType t) {
    if (t->isLValueReferenceType()) return t->getPointeeType().isConstQualified() ? "c" : "r";
    if (t->isRValueReferenceType()) return "m";
    if (t->isPointerType()) return t->getPointeeType().isConstQualified() ? "q" : "p";
    return "v";
  }
  json::Object calleeInfo(const FunctionDecl *f) {
    json::Object o;
    o["q"] = qn(f);
    const FunctionDecl *def = nullptr;
    if (f->hasBody(def) && def) o["id"] = id(def);
    else o["id"] = id(f);
    std::string t = targs(f);
    if (!t.empty()) o["t"] = t;
    json::Array pm;
    for (auto *p : f->parameters()) pm.push_back(mode(p->getType()));
    o["pm"] = std::move(pm);
    o["ret"] = ty(f->getReturnType());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
      o["cls"] = ty(C.getRecordType(m->getParent()));
      if (m->getParent()->isLambda()) o["lambda"] = true;
    }
    return o;
  }

  // ---------------------------------------------------------------- expressions
  json::Value E(const Expr *e) {
    if (!e) return nullptr;
    // compile-time constants that are spelled through sizeof / traits
    e = e->IgnoreParens();
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return json::Array{"defarg", E(x->getExpr())};
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
    if (auto *x = dyn_cast<ImplicitCastExpr>(e)) return castE(x, true);
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) return castE(x, false);
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::APSInt v(x->getValue(), !x->getType()->isSignedIntegerType());
      return json::Array{"int", apstr(v), ty(x->getType())};
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) return json::Array{"int", std::to_string(x->getValue()), ty(x->getType())};
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      return json::Array{"float", std::string(s.str()), ty(x->getType())};
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return json::Array{"bool", x->getValue()};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return json::Array{"null"};
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      if (x->getCharByteWidth() == 1) return json::Array{"str", json::fixUTF8(x->getBytes())};
      return json::Array{"str", "?"};
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) return json::Array{"str", "__func__"};
    if (auto *x = dyn_cast<DeclRefExpr>(e)) return declRef(x->getDecl(), x);
    if (auto *x = dyn_cast<CXXThisExpr>(e)) return json::Array{"this"};
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) return declRef(v, x);  // static member
      if (isa<EnumConstantDecl>(d)) return declRef(d, x);
      if (auto *f = dyn_cast<FunctionDecl>(d)) return json::Array{"fn", calleeInfo(f), E(x->getBase())};
      if (auto *fd = dyn_cast<FieldDecl>(d)) noteRecord(fd->getParent());
      return json::Array{"member", E(x->getBase()), d->getNameAsString(), x->isArrow(), ty(x->getType())};
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
      return json::Array{"index", E(x->getBase()), E(x->getIdx()), ty(x->getType()), line(x->getExprLoc())};
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      return json::Array{"un", UnaryOperator::getOpcodeStr(x->getOpcode()).str(), E(x->getSubExpr()), x->isPostfix(),
                         ty(x->getType())};
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e))
      return json::Array{"assign", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS()), ty(x->getComputationResultType()), ty(x->getType()), line(x->getExprLoc())};
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->isAssignmentOp())
        return json::Array{"assign", "=", E(x->getLHS()), E(x->getRHS()), ty(x->getType()), ty(x->getType()), line(x->getExprLoc())};
      return json::Array{"bin", x->getOpcodeStr().str(), E(x->getLHS()), E(x->getRHS()), ty(x->getType()),
                         ty(x->getLHS()->getType())};
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e))
      return json::Array{"cond", E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr()), ty(x->getType())};
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) return json::Array{"int", apstr(r.Val.getInt()), ty(x->getType()), "sizeof"};
      return json::Array{"unk", "sizeof"};
    }
    if (isa<TypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) || isa<CXXNoexceptExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) return json::Array{"int", apstr(r.Val.getInt()), ty(e->getType())};
      return json::Array{"unk", "trait"};
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      auto *op = x->getCallOperator();
      json::Array caps;
      auto ci = x->capture_init_begin();
      for (auto &cap : x->captures()) {
        json::Object o;
        if (cap.capturesVariable()) {
          o["var"] = id(cap.getCapturedVar());
          o["name"] = cap.getCapturedVar()->getNameAsString();
        } else if (cap.capturesThis()) o["this"] = true;
        o["byref"] = cap.getCaptureKind() == LCK_ByRef;
        if (auto *vd = cap.capturesVariable() ? dyn_cast<VarDecl>(cap.getCapturedVar()) : nullptr)
          if (vd->isInitCapture()) o["init"] = E(vd->getInit());
        caps.push_back(std::move(o));
        ++ci;
      }
      const FunctionDecl *f = op;
      json::Array ps;
      json::Object o;
      if (x->isGenericLambda()) {
        // generic: dump every specialization
        if (auto *ft = x->getDependentCallOperator()) {
          json::Array sp;
          for (auto *s : ft->specializations()) { if (s->hasBody()) { dumpFn(s); sp.push_back(id(s)); } }
          return json::Array{"lambda", id(op), std::move(caps), std::move(sp)};
        }
      }
      dumpFn(f);
      return json::Array{"lambda", id(f), std::move(caps)};
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      json::Array a;
      const FunctionDecl *f = x->getDirectCallee();
      if (!f) return json::Array{"unk", "opcall"};
      // resolved callee might be a lambda/functor
      if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        // defaulted copy/move assignment of a value
        auto *m = cast<CXXMethodDecl>(f);
        if ((m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) && (m->isDefaulted() || m->isImplicit() || !inRoots(m->getLocation())))
          return json::Array{"assign", "=", E(x->getArg(0)), E(x->getArg(1)), ty(x->getType()), ty(x->getType()), line(x->getExprLoc())};
        for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
        return json::Array{"mcall", E(x->getArg(0)), calleeInfo(f), std::move(a), line(x->getExprLoc()), false, ty(x->getType())};
      }
      for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      return json::Array{"call", calleeInfo(f), std::move(a), line(x->getExprLoc()), ty(x->getType())};
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      json::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      const Expr *obj = x->getImplicitObjectArgument();
      auto *m = x->getMethodDecl();
      bool arrow = false;
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) arrow = me->isArrow();
      if (!m) return json::Array{"pcall", E(x->getCallee()), std::move(a), line(x->getExprLoc())};
      if (isa<CXXConversionDecl>(m) && 0) {}
      return json::Array{"mcall", E(obj), calleeInfo(m), std::move(a), line(x->getExprLoc()), arrow, ty(x->getType())};
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      json::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      if (auto *f = x->getDirectCallee()) {
        Expr::EvalResult r;
        std::string n = f->getNameAsString();
        if (f->getBuiltinID() && (n == "__builtin_constant_p")) return json::Array{"bool", false};
        return json::Array{"call", calleeInfo(f), std::move(a), line(x->getExprLoc()), ty(x->getType())};
      }
      return json::Array{"pcall", E(x->getCallee()), std::move(a), line(x->getExprLoc())};
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *cd = x->getConstructor();
      if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1 && (cd->isDefaulted() || cd->isImplicit() || !inRoots(cd->getLocation())))
        return E(x->getArg(0));
      json::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
      if (inRoots(cd->getLocation())) noteRecord(cd->getParent());
      return json::Array{"ctor", ty(x->getType()), calleeInfo(cd), std::move(a), line(x->getExprLoc())};
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return json::Array{"ctor", ty(x->getType()), calleeInfo(x->getConstructor()), json::Array{}, line(x->getExprLoc())};
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      json::Array a, names;
      const RecordDecl *rd = x->getType()->getAsRecordDecl();
      if (x->getNumInits() == 1 && !rd && !x->getType()->isArrayType()) return E(x->getInit(0));
      for (unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(E(x->getInit(i)));
      if (rd) {
        noteRecord(rd);
        for (auto *f : rd->fields()) names.push_back(f->getNameAsString());
      }
      json::Value filler = nullptr;
      if (x->hasArrayFiller()) filler = E(x->getArrayFiller());
      return json::Array{"init", ty(x->getType()), std::move(a), std::move(names), std::move(filler)};
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return json::Array{"zero", ty(e->getType())};
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      json::Array a;
      for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) a.push_back(E(x->getPlacementArg(i)));
      return json::Array{"new", ty(x->getAllocatedType()), E(x->getInitializer()), std::move(a),
                         x->isArray() && x->getArraySize() ? E(*x->getArraySize()) : json::Value(nullptr), line(x->getExprLoc())};
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) return json::Array{"delete", E(x->getArgument()), line(x->getExprLoc()), x->isArrayForm()};
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) return json::Array{"throw", E(x->getSubExpr()), line(x->getExprLoc())};
    if (auto *x = dyn_cast<StmtExpr>(e)) return json::Array{"stmtexpr", S(x->getSubStmt())};
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    if (auto *x = dyn_cast<CompoundLiteralExpr>(e)) return E(x->getInitializer());
    if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) return json::Array{"unk", "pseudodtor"};
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) return json::Array{"unk", "typeid"};
    if (auto *x = dyn_cast<ConvertVectorExpr>(e)) return json::Array{"un", "convertvector", E(x->getSrcExpr()), false, ty(x->getType())};
    if (auto *x = dyn_cast<ShuffleVectorExpr>(e)) {
      json::Array a;
      for (unsigned i = 0; i < x->getNumSubExprs(); ++i) a.push_back(E(x->getExpr(i)));
      return json::Array{"shuffle", std::move(a), ty(x->getType())};
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return E(x->getCommonExpr());
    return json::Array{"unk", e->getStmtClassName()};
  }
  json::Value castE(const CastExpr *x, bool implicit) {
    const Expr *s = x->getSubExpr();
    QualType from = s->getType(), to = x->getType();
    switch (x->getCastKind()) {
      case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
      case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_BooleanToSignedIntegral:
      case CK_BitCast: case CK_LValueBitCast: case CK_PointerToIntegral: case CK_IntegralToPointer: case CK_LValueToRValueBitCast:
        return json::Array{"cast", CastExpr::getCastKindName(x->getCastKind()), ty(to), E(s), ty(from), implicit};
      case CK_NullToPointer: return json::Array{"null"};
      case CK_ToVoid: return E(s);
      case CK_Dynamic: return json::Array{"cast", "Dynamic", ty(to), E(s), ty(from), implicit};
      case CK_BaseToDerived: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        return json::Array{"cast", "Base", ty(to), E(s), ty(from), implicit};
      default: return E(s);
    }
  }
  void noteRecord(const RecordDecl *r) {
    if (!r) return;
    r = r->getDefinition();
    if (!r || !doneRecords.insert(r).second) return;
    pendingRecords.push_back(r);
  }
  json::Value declRef(const ValueDecl *d, const Expr *e) {
    if (auto *c = dyn_cast<EnumConstantDecl>(d)) return json::Array{"enum", qn(c), apstr(c->getInitVal()), ty(c->getType())};
    if (auto *f = dyn_cast<FunctionDecl>(d)) return json::Array{"fn", calleeInfo(f)};
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) {
        const VarDecl *def = v->getDefinition() ? v->getDefinition() : v;
        const VarDecl *iv = nullptr;
        if (def->getAnyInitializer(iv) && iv) def = iv;
        bool cst = v->getType().isConstQualified() || v->isConstexpr();
        if (doneGlobals.insert(v->getCanonicalDecl()).second) pendingGlobals.push_back(def);
        // constant-folded value where the compiler knows one
        if (cst && v->getType()->isIntegralOrEnumerationType() && !e->isValueDependent()) {
          Expr::EvalResult r;
          if (e->EvaluateAsInt(r, C)) return json::Array{"int", apstr(r.Val.getInt()), ty(v->getType()), qn(v)};
        }
        return json::Array{"gvar", id(v), qn(v), cst, ty(v->getType())};
      }
      return json::Array{"var", id(v), v->getNameAsString(), v->getType()->isReferenceType(), ty(v->getType())};
    }
    if (auto *b = dyn_cast<BindingDecl>(d)) {
      if (b->getBinding()) return E(b->getBinding());
      return json::Array{"unk", "binding"};
    }
    return json::Array{"var", id(d), d->getNameAsString(), d->getType()->isReferenceType(), ty(d->getType())};
  }

  // ---------------------------------------------------------------- statements
  json::Value declOf(const VarDecl *v) {
    json::Object o;
    o["id"] = id(v);
    o["name"] = v->getNameAsString();
    o["type"] = ty(v->getType());
    o["sugar"] = sugar(v->getType());
    o["ref"] = v->getType()->isReferenceType();
    o["static"] = v->isStaticLocal();
    if (auto *at = C.getAsConstantArrayType(v->getType())) o["array"] = (int64_t)at->getSize().getZExtValue();
    o["line"] = line(v->getLocation());
    o["init"] = v->getInit() ? E(v->getInit()) : json::Value(nullptr);
    if (auto *rd = v->getType()->getAsRecordDecl()) noteRecord(rd);
    return std::move(o);
  }
  // the variables a structured binding of a tuple-like type introduces
  void holding(const DecompositionDecl *dd, json::Array &a) {
    for (auto *b : dd->bindings())
      if (auto *h = b->getHoldingVar()) a.push_back(declOf(h));
  }
  json::Value S(const Stmt *s) {
    if (!s) return json::Array{"block", 0, json::Array{}};
    int ln = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      json::Array a;
      for (auto *c : x->body()) a.push_back(S(c));
      return json::Array{"block", ln, std::move(a)};
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(declOf(v));
        if (auto *dd = dyn_cast<DecompositionDecl>(d)) holding(dd, a);
      }
      return json::Array{"decl", ln, std::move(a)};
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        if (auto br = x->getNondiscardedCase(C)) return *br ? S(*br) : json::Value(json::Array{"block", ln, json::Array{}});
      }
      json::Array pre;
      if (x->getInit()) pre.push_back(S(x->getInit()));
      if (x->getConditionVariableDeclStmt()) pre.push_back(S(x->getConditionVariableDeclStmt()));
      json::Value i = json::Array{"if", ln, E(x->getCond()), S(x->getThen()), S(x->getElse())};
      if (pre.empty()) return i;
      pre.push_back(std::move(i));
      return json::Array{"block", ln, std::move(pre)};
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      json::Array pre;
      if (x->getInit()) pre.push_back(S(x->getInit()));
      pre.push_back(json::Array{"loop", ln, x->getCond() ? E(x->getCond()) : json::Value(nullptr), S(x->getBody()), x->getInc() ? E(x->getInc()) : json::Value(nullptr), false});
      return json::Array{"block", ln, std::move(pre)};
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      if (x->getConditionVariableDeclStmt())
        return json::Array{"loopdecl", ln, S(x->getConditionVariableDeclStmt()), E(x->getCond()), S(x->getBody())};
      return json::Array{"loop", ln, E(x->getCond()), S(x->getBody()), nullptr, false};
    }
    if (auto *x = dyn_cast<DoStmt>(s)) return json::Array{"loop", ln, E(x->getCond()), S(x->getBody()), nullptr, true};
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      json::Value body = S(x->getBody());
      if (auto *dd = dyn_cast<DecompositionDecl>(x->getLoopVariable())) {
        json::Array h;
        holding(dd, h);
        if (!h.empty()) body = json::Array{"block", ln, json::Array{json::Array{"decl", ln, std::move(h)}, std::move(body)}};
      }
      return json::Array{"rangefor", ln, declOf(x->getLoopVariable()), E(x->getRangeInit()), std::move(body)};
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      json::Array pre;
      if (x->getInit()) pre.push_back(S(x->getInit()));
      if (x->getConditionVariableDeclStmt()) pre.push_back(S(x->getConditionVariableDeclStmt()));
      pre.push_back(json::Array{"switch", ln, E(x->getCond()), S(x->getBody())});
      return json::Array{"block", ln, std::move(pre)};
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) return json::Array{"case", ln, E(x->getLHS()), S(x->getSubStmt())};
    if (auto *x = dyn_cast<DefaultStmt>(s)) return json::Array{"default", ln, S(x->getSubStmt())};
    if (isa<BreakStmt>(s)) return json::Array{"break", ln};
    if (isa<ContinueStmt>(s)) return json::Array{"continue", ln};
    if (auto *x = dyn_cast<ReturnStmt>(s)) return json::Array{"return", ln, x->getRetValue() ? E(x->getRetValue()) : json::Value(nullptr)};
    if (auto *x = dyn_cast<GCCAsmStmt>(s)) {
      json::Array o, i, c;
      for (unsigned k = 0; k < x->getNumOutputs(); ++k)
        o.push_back(json::Array{x->getOutputConstraint(k).str(), E(x->getOutputExpr(k)), x->getOutputName(k).str()});
      for (unsigned k = 0; k < x->getNumInputs(); ++k)
        i.push_back(json::Array{x->getInputConstraint(k).str(), E(x->getInputExpr(k)), x->getInputName(k).str()});
      for (unsigned k = 0; k < x->getNumClobbers(); ++k) c.push_back(x->getClobber(k).str());
      return json::Array{"asm", ln, x->getAsmString()->getBytes().str(), std::move(o), std::move(i), std::move(c), x->isVolatile()};
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      json::Array h;
      for (unsigned k = 0; k < x->getNumHandlers(); ++k) h.push_back(S(x->getHandler(k)->getHandlerBlock()));
      return json::Array{"try", ln, S(x->getTryBlock()), std::move(h)};
    }
    if (auto *x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (isa<GotoStmt>(s)) return json::Array{"unkstmt", ln, "goto"};
    if (isa<NullStmt>(s)) return json::Array{"block", ln, json::Array{}};
    if (auto *x = dyn_cast<Expr>(s)) return json::Array{"expr", ln, E(x)};
    return json::Array{"unkstmt", ln, s->getStmtClassName()};
  }

  std::set<const FunctionDecl *> doneFn;
  void dumpFn(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def) || !def) return;
    f = def;
    if (f->isDependentContext() || f->getType()->isDependentType()) return;
    if (!doneFn.insert(f).second) return;
    json::Object o = calleeInfo(f);
    o["id"] = id(f);
    o["file"] = file(f->getLocation());
    o["line"] = line(f->getLocation());
    o["endline"] = line(f->getEndLoc());
    json::Array ps;
    for (auto *p : f->parameters()) {
      json::Object po;
      po["id"] = id(p);
      po["name"] = p->getNameAsString();
      po["type"] = ty(p->getType());
      po["mode"] = mode(p->getType());
      if (p->hasInit() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["default"] = E(p->getInit());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array in;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["delegating"] = true;
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      noteRecord(c->getParent());
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (!m->getParent()->isLambda()) noteRecord(m->getParent());
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["static_linkage"] = !f->isExternallyVisible();
    o["body"] = S(f->getBody());
    functions.push_back(std::move(o));
  }
  void flush() {
    while (!pendingGlobals.empty() || !pendingRecords.empty()) {
      auto pg = std::move(pendingGlobals);
      pendingGlobals.clear();
      for (auto *v : pg) {
        json::Object o;
        o["id"] = id(v);
        o["q"] = qn(v);
        o["type"] = ty(v->getType());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["file"] = file(v->getLocation());
        o["line"] = line(v->getLocation());
        const VarDecl *iv = nullptr;
        const Expr *in = v->getAnyInitializer(iv);
        o["init"] = in && !in->isValueDependent() ? E(in) : json::Value(nullptr);
        globals.push_back(std::move(o));
      }
      auto pr = std::move(pendingRecords);
      pendingRecords.clear();
      for (auto *r : pr) {
        if (r->isDependentContext()) continue;
        json::Object o;
        o["q"] = qn(r);
        o["type"] = ty(C.getRecordType(r));
        o["file"] = file(r->getLocation());
        o["line"] = line(r->getLocation());
        o["union"] = r->isUnion();
        json::Array fs, bs, ms;
        for (auto *f : r->fields()) {
          json::Object fo;
          fo["name"] = f->getNameAsString();
          fo["type"] = ty(f->getType());
          fo["ref"] = f->getType()->isReferenceType();
          if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(C);
          if (auto *in = f->getInClassInitializer()) fo["init"] = E(in);
          fs.push_back(std::move(fo));
        }
        if (auto *c = dyn_cast<CXXRecordDecl>(r))
          for (auto &b : c->bases()) bs.push_back(ty(b.getType()));
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bs);
        records.push_back(std::move(o));
      }
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isThisDeclarationADefinition() && D.inRoots(f->getLocation())) {
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
      D.dumpFn(f);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && !r->isLambda() && D.inRoots(r->getLocation()) && !r->isDependentContext()) D.noteRecord(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!e->isThisDeclarationADefinition() || !D.inRoots(e->getLocation())) return true;
    json::Object o;
    o["q"] = D.qn(e);
    o["file"] = D.file(e->getLocation());
    o["line"] = D.line(e->getLocation());
    json::Array cs;
    for (auto *c : e->enumerators()) cs.push_back(json::Array{c->getNameAsString(), apstr(c->getInitVal())});
    o["consts"] = std::move(cs);
    D.enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->isLocalVarDeclOrParm() || !D.inRoots(v->getLocation()) || v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return true;
    if (isa<ParmVarDecl>(v)) return true;
    if (v->isThisDeclarationADefinition() && D.doneGlobals.insert(v->getCanonicalDecl()).second) D.pendingGlobals.push_back(v);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &c) override {
    Dumper d(c);
    V v(d);
    v.TraverseDecl(c.getTranslationUnitDecl());
    d.flush();
    json::Object top;
    top["functions"] = std::move(d.functions);
    top["records"] = std::move(d.records);
    top["enums"] = std::move(d.enums);
    top["globals"] = std::move(d.globals);
    top["errors"] = (int64_t)c.getDiagnostics().getClient()->getNumErrors();
    llvm::outs() << json::Value(std::move(top)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

// usage: cxxdump ROOT[:ROOT...] file.cc -- flags
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  std::string r = argv[1];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(':', p);
    if (q == std::string::npos) q = r.size();
    if (q > p) Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[2]});
  Fac f;
  return tool.run(&f) ? 1 : 0;
}
