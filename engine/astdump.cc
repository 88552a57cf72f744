// Clang plugin: exports the type-checked program (all functions whose definition lies below a given
// root directory, template instantiations and lambdas included) as one JSON document.
// The Python engine analyses that document; nothing of the target program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

namespace {

class Exporter {
public:
  Exporter(ASTContext& c, std::vector<std::string> roots, std::string out)
    : ctx(c), sm(c.getSourceManager()), roots(std::move(roots)), out(std::move(out)), pp(c.getLangOpts())
  {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.Bool = true;
  }

  ASTContext& ctx;
  SourceManager& sm;
  std::vector<std::string> roots;
  std::string out;
  PrintingPolicy pp;

  std::map<const Decl*, int> declIds;
  json::Object decls;
  std::map<const Type*, std::map<unsigned, int>> typeIds;
  json::Array types;
  std::map<const RecordDecl*, int> recIds;
  json::Array records;
  std::map<std::string, int> fileIds;
  json::Array files;
  json::Array functions;   // ids of functions with an exported body
  json::Array globals;
  std::vector<const FunctionDecl*> queue;
  std::set<const FunctionDecl*> queued;

  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    for (auto& r : roots) if (f.starts_with(r)) return true;
    return false;
  }
  json::Array loc(SourceLocation l) {
    if (l.isInvalid()) return json::Array{-1, 0, 0};
    l = sm.getExpansionLoc(l);
    std::string f = sm.getFilename(l).str();
    auto it = fileIds.find(f);
    int id;
    if (it == fileIds.end()) { id = (int)files.size(); fileIds[f] = id; files.push_back(f); }
    else id = it->second;
    return json::Array{id, (int)sm.getSpellingLineNumber(l), (int)sm.getSpellingColumnNumber(l)};
  }

  static std::string plainName(const NamedDecl* d) {
    std::string s; llvm::raw_string_ostream os(s);
    // Qualified name without template arguments.
    std::vector<std::string> parts;
    const DeclContext* dc = d->getDeclContext();
    parts.push_back(d->getDeclName() ? d->getDeclName().getAsString() : std::string("<anon>"));
    if (auto* c = dyn_cast<CXXConstructorDecl>(d)) parts.back() = "<ctor>";
    else if (isa<CXXDestructorDecl>(d)) parts.back() = "<dtor>";
    else if (isa<CXXConversionDecl>(d)) parts.back() = "<conv>";
    while (dc) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "<anon>" : ns->getName().str());
      } else if (auto* rd = dyn_cast<RecordDecl>(dc)) {
        parts.push_back(rd->getIdentifier() ? rd->getName().str() : std::string("<lambda>"));
      } else if (auto* fd = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(fd->getDeclName().getAsString());
      }
      dc = dc->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (it != parts.rbegin()) os << "::"; os << *it; }
    return os.str();
  }

  int rec(const RecordDecl* r) {
    r = r->getDefinition() ? r->getDefinition() : r;
    auto it = recIds.find(r);
    if (it != recIds.end()) return it->second;
    int id = (int)records.size();
    recIds[r] = id;
    records.push_back(json::Object{});
    json::Object o;
    o["q"] = plainName(r);
    o["full"] = ctx.getTypeDeclType(r).getCanonicalType().getAsString(pp);
    o["repo"] = inRoots(r->getLocation());
    o["l"] = loc(r->getLocation());
    bool lam = false;
    if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
      lam = cr->isLambda();
      o["lambda"] = lam;
      json::Array bs;
      if (cr->hasDefinition())
        for (auto& b : cr->bases())
          if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(rec(br));
      o["bases"] = std::move(bs);
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
        json::Array ta;
        for (auto& a : sp->getTemplateArgs().asArray()) {
          if (a.getKind() == TemplateArgument::Type) ta.push_back(type(a.getAsType()));
          else if (a.getKind() == TemplateArgument::Integral) {
            llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10);
            ta.push_back(json::Object{{"int", s.str().str()}});
          } else ta.push_back(nullptr);
        }
        o["targs"] = std::move(ta);
      }
      if (cr->hasDefinition()) {
        o["empty"] = cr->isEmpty();
      }
    }
    json::Array fs;
    if (inRoots(r->getLocation()) || lam || r->getName() == "gf") {
      for (auto* f : r->fields()) {
        json::Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = type(f->getType());
        fo["mut"] = f->isMutable();
        fo["l"] = loc(f->getLocation());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
    }
    o["fields"] = std::move(fs);
    records[id] = std::move(o);
    return id;
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    unsigned quals = q.getLocalCVRQualifiers();
    const Type* t = q.getTypePtr();
    auto& m = typeIds[t];
    auto it = m.find(quals);
    if (it != m.end()) return it->second;
    int id = (int)types.size();
    m[quals] = id;
    types.push_back(json::Object{});
    json::Object o;
    o["s"] = q.getAsString(pp);
    o["const"] = q.isConstQualified();
    o["volatile"] = q.isVolatileQualified();
    if (t->isBooleanType()) o["k"] = "bool";
    else if (auto* et = t->getAs<EnumType>()) {
      o["k"] = "enum";
      o["q"] = plainName(et->getDecl());
      auto it2 = et->getDecl()->getIntegerType();
      if (!it2.isNull()) { o["bits"] = (int)ctx.getTypeSize(it2); o["sg"] = it2->isSignedIntegerType(); }
      else { o["bits"] = 32; o["sg"] = true; }
      json::Array vs;
      for (auto* e : et->getDecl()->enumerators()) vs.push_back(json::Array{e->getNameAsString(), (int64_t)e->getInitVal().getExtValue()});
      o["vals"] = std::move(vs);
    }
    else if (t->isIntegerType()) { o["k"] = "int"; o["bits"] = (int)ctx.getTypeSize(t); o["sg"] = t->isSignedIntegerType(); }
    else if (t->isRealFloatingType()) { o["k"] = "float"; o["bits"] = (int)ctx.getTypeSize(t); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (t->isPointerType()) { o["k"] = "ptr"; o["p"] = type(t->getPointeeType()); }
    else if (t->isReferenceType()) { o["k"] = "ref"; o["p"] = type(t->getPointeeType()); o["rv"] = t->isRValueReferenceType(); }
    else if (auto* rt = t->getAs<RecordType>()) { o["k"] = "rec"; o["rec"] = rec(rt->getDecl()); }
    else if (auto* at = ctx.getAsConstantArrayType(q)) { o["k"] = "array"; o["p"] = type(at->getElementType()); o["n"] = (int64_t)at->getSize().getZExtValue(); }
    else if (t->isFunctionType()) o["k"] = "func";
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  static const char* exceptName(const FunctionDecl* f) {
    auto* p = f->getType()->getAs<FunctionProtoType>();
    if (!p) return "c";
    auto est = p->getExceptionSpecType();
    if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed) return "unevaluated";
    switch (p->canThrow()) {
      case CT_Cannot: return "noexcept";
      case CT_Can: return "throws";
      default: return "dependent";
    }
  }

  int decl(const Decl* d0) {
    const Decl* d = d0->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = (int)declIds.size();
    declIds[d] = id;
    json::Object o;
    if (auto* nd = dyn_cast<NamedDecl>(d)) o["n"] = nd->getDeclName() ? nd->getDeclName().getAsString() : "";
    if (auto* fd0 = dyn_cast<FunctionDecl>(d)) {
      const FunctionDecl* fd = fd0;
      const FunctionDecl* def = nullptr;
      if (fd->hasBody(def)) fd = def;
      o["k"] = "func";
      o["q"] = plainName(fd);
      o["full"] = [&]{ std::string s; llvm::raw_string_ostream os(s); fd->getNameForDiagnostic(os, pp, true); return os.str(); }();
      o["ret"] = type(fd->getReturnType());
      o["repo"] = inRoots(fd->getLocation());
      o["l"] = loc(fd->getLocation());
      o["exc"] = exceptName(fd);
      o["externC"] = fd->isExternC();
      o["builtin"] = (int)fd->getBuiltinID();
      o["inline"] = fd->isInlined();
      json::Array ps;
      for (auto* p : fd->parameters()) {
        json::Object po;
        po["n"] = p->getNameAsString();
        po["t"] = type(p->getType());
        po["d"] = decl(p);
        ps.push_back(std::move(po));
      }
      o["params"] = std::move(ps);
      if (auto* ta = fd->getTemplateSpecializationArgs()) {
        json::Array a;
        for (auto& x : ta->asArray()) if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType())); else a.push_back(nullptr);
        o["targs"] = std::move(a);
      }
      if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
        o["rec"] = rec(md->getParent());
        o["const"] = md->isConst();
        o["static"] = md->isStatic();
        if (isa<CXXConstructorDecl>(md)) {
          auto* cd = cast<CXXConstructorDecl>(md);
          o["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
          o["explicit"] = cd->isExplicit();
        }
        if (isa<CXXDestructorDecl>(md)) o["dtor"] = true;
        if (md->isCopyAssignmentOperator()) o["assign"] = "copy";
        if (md->isMoveAssignmentOperator()) o["assign"] = "move";
        if (md->getParent()->isLambda()) o["lambda"] = true;
        o["access"] = (int)md->getAccess();
      }
      if (fd->isOverloadedOperator()) o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
      o["defaulted"] = fd->isDefaulted();
      o["deleted"] = fd->isDeleted();
      decls[std::to_string(id)] = std::move(o);
      if (!fd->isDependentContext()) enqueue(fd);
      return id;
    }
    if (auto* vd = dyn_cast<VarDecl>(d)) {
      o["k"] = isa<ParmVarDecl>(vd) ? "param" : "var";
      o["t"] = type(vd->getType());
      o["q"] = plainName(vd);
      o["l"] = loc(vd->getLocation());
      o["repo"] = inRoots(vd->getLocation());
      o["static"] = vd->hasGlobalStorage();
      o["constexpr"] = vd->isConstexpr();
      o["tls"] = vd->getTLSKind() != VarDecl::TLS_None;
    } else if (auto* f = dyn_cast<FieldDecl>(d)) {
      o["k"] = "field";
      o["t"] = type(f->getType());
      o["rec"] = rec(f->getParent());
      o["l"] = loc(f->getLocation());
    } else if (auto* e = dyn_cast<EnumConstantDecl>(d)) {
      o["k"] = "enumc";
      o["v"] = (int64_t)e->getInitVal().getExtValue();
      o["t"] = type(e->getType());
    } else {
      o["k"] = d->getDeclKindName();
    }
    decls[std::to_string(id)] = std::move(o);
    return id;
  }

  void enqueue(const FunctionDecl* fd) {
    if (!inRoots(fd->getLocation())) return;
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def) && !fd->isDefaulted()) return;
    if (!def) def = fd;
    if (def->isDependentContext()) return;
    if (queued.insert(def->getCanonicalDecl()).second) queue.push_back(def);
  }

  json::Value cvOf(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return nullptr;
    if (!e->getType()->isIntegralOrEnumerationType()) return nullptr;
    if (e->isLValue()) return nullptr;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
      llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
      return s.str().str();
    }
    return nullptr;
  }

  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a; for (auto* e : r) a.push_back(expr(e)); return a;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    // Strip nodes without meaning for the analysis.
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto* x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) e = x->getSourceExpr(); else break; }
      else break;
    }
    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = loc(e->getExprLoc());
    if (e->isLValue()) o["lv"] = 1; else if (e->isXValue()) o["lv"] = 2;
    bool lit = false;
    auto K = [&](const char* k) { o["k"] = k; };
    if (auto* x = dyn_cast<IntegerLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); K("Int"); o["v"] = s.str().str(); lit = true; }
    else if (auto* x = dyn_cast<CharacterLiteral>(e)) { K("Int"); o["v"] = std::to_string((int64_t)x->getValue()); lit = true; }
    else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("Bool"); o["v"] = x->getValue(); lit = true; }
    else if (auto* x = dyn_cast<FloatingLiteral>(e)) { K("Float"); o["v"] = x->getValueAsApproximateDouble(); lit = true; }
    else if (auto* x = dyn_cast<StringLiteral>(e)) { K("Str"); o["n"] = (int64_t)x->getByteLength(); if (x->isOrdinary()) { bool ascii = true; for (unsigned char ch : x->getString()) if (ch >= 128) ascii = false; if (ascii) o["v"] = x->getString().str(); } lit = true; }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("Null"); lit = true; }
    else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      K("Ref"); o["d"] = decl(x->getDecl()); o["n"] = x->getDecl()->getNameAsString(); noteVar(x->getDecl());
      o["cap"] = x->refersToEnclosingVariableOrCapture();
    }
    else if (auto* x = dyn_cast<MemberExpr>(e)) {
      K("Member"); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow(); o["m"] = x->getMemberDecl()->getNameAsString();
      o["d"] = decl(x->getMemberDecl()); noteVar(x->getMemberDecl());
    }
    else if (isa<CXXThisExpr>(e)) K("This");
    else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("OpCall"); o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* c = x->getDirectCallee()) o["callee"] = decl(c); else o["fn"] = expr(x->getCallee());
      o["a"] = exprs(x->arguments());
    }
    else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("MCall");
      if (auto* c = x->getMethodDecl()) o["callee"] = decl(c); else o["fn"] = expr(x->getCallee());
      o["obj"] = expr(x->getImplicitObjectArgument());
      bool arrow = false;
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) arrow = me->isArrow();
      o["arrow"] = arrow;
      o["a"] = exprs(x->arguments());
    }
    else if (auto* x = dyn_cast<CallExpr>(e)) {
      K("Call");
      if (auto* c = x->getDirectCallee()) o["callee"] = decl(c); else o["fn"] = expr(x->getCallee());
      o["a"] = exprs(x->arguments());
    }
    else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { K("Ctor"); o["callee"] = decl(x->getConstructor()); o["a"] = json::Array{}; }
    else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      K("Ctor"); o["callee"] = decl(x->getConstructor());
      json::Array a; for (auto* y : x->arguments()) a.push_back(expr(y)); o["a"] = std::move(a);
      o["list"] = x->isListInitialization(); o["elide"] = x->isElidable();
      o["zeroinit"] = x->requiresZeroInitialization();
    }
    else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      K("InitList"); json::Array a; for (auto* y : x->inits()) a.push_back(expr(y)); o["a"] = std::move(a);
    }
    else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { K("StdInitList"); o["e"] = expr(x->getSubExpr()); }
    else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { K("Mat"); o["e"] = expr(x->getSubExpr()); }
    else if (auto* x = dyn_cast<UnaryOperator>(e)) { K("Un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); }
    else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      K("CAssign"); o["op"] = x->getOpcodeStr(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationResultType()); o["clt"] = type(x->getComputationLHSType());
    }
    else if (auto* x = dyn_cast<BinaryOperator>(e)) { K("Bin"); o["op"] = x->getOpcodeStr(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); }
    else if (auto* x = dyn_cast<ConditionalOperator>(e)) { K("Cond"); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
    else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { K("Index"); o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); }
    else if (auto* x = dyn_cast<CastExpr>(e)) {
      K("Cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["expl"] = isa<ExplicitCastExpr>(e);
      if (auto* f = x->getConversionFunction()) if (isa<FunctionDecl>(f)) o["conv"] = decl(f);
      if (isa<CXXConstCastExpr>(e)) o["constcast"] = true;
      if (isa<CXXReinterpretCastExpr>(e)) o["reinterpret"] = true;
    }
    else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      K("Lambda");
      o["op"] = decl(x->getCallOperator());
      enqueueLambda(x->getCallOperator());
      json::Array caps;
      auto init = x->capture_init_begin();
      auto fi = x->getLambdaClass()->field_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; co["bycopy"] = c.getCaptureKind() == LCK_StarThis; }
        else if (c.capturesVariable()) { co["d"] = decl(c.getCapturedVar()); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["init"] = expr(*init); }
        caps.push_back(std::move(co));
        ++init; ++fi;
      }
      o["caps"] = std::move(caps);
    }
    else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      K("New"); o["at"] = type(x->getAllocatedType()); o["array"] = x->isArray();
      if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize());
      json::Array pl; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pl.push_back(expr(x->getPlacementArg(i)));
      o["place"] = std::move(pl);
      if (x->getInitializer()) o["init"] = expr(x->getInitializer());
      if (x->getOperatorNew()) o["opnew"] = decl(x->getOperatorNew());
    }
    else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { K("Delete"); o["array"] = x->isArrayForm(); o["e"] = expr(x->getArgument()); }
    else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { K("Throw"); if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); }
    else if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { K("PseudoDtor"); (void)x; }
    else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { K("SizeOf"); (void)x; }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) K("ZeroInit");
    else if (isa<CXXNoexceptExpr>(e) || isa<TypeTraitExpr>(e)) K("Const");
    else if (auto* x = dyn_cast<StmtExpr>(e)) { K("StmtExpr"); o["s"] = stmt(x->getSubStmt()); }
    else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { K("Typeid"); (void)x; }
    else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { K("ArrayInitLoop"); o["e"] = expr(x->getCommonExpr()); }
    else if (auto* x = dyn_cast<PredefinedExpr>(e)) { K("Str"); (void)x; }
    else { K("Unknown"); o["cls"] = e->getStmtClassName(); }
    if (!lit) {
      auto cv = cvOf(e);
      if (cv.kind() != json::Value::Null) o["cv"] = std::move(cv);
    }
    return o;
  }

  std::set<const VarDecl*> seenGlobals;
  void noteVar(const ValueDecl* d) {
    auto* v = dyn_cast<VarDecl>(d);
    if (!v || !v->hasGlobalStorage()) return;
    v = v->getCanonicalDecl();
    if (!seenGlobals.insert(v).second) return;
    noteGlobal(v);
  }
  void noteGlobal(const VarDecl* v) {
    json::Object o;
    o["d"] = decl(v);
    const VarDecl* def = v->getAnyInitializer() ? v : v;
    if (auto* in = v->getAnyInitializer()) if (!in->isValueDependent()) o["init"] = expr(in);
    (void)def;
    globals.push_back(std::move(o));
  }

  void enqueueLambda(const CXXMethodDecl* m) {
    if (queued.insert(m->getCanonicalDecl()).second) queue.push_back(m);
  }

  json::Value varDecl(const VarDecl* v) {
    json::Object o;
    o["d"] = decl(v);
    o["t"] = type(v->getType());
    o["n"] = v->getNameAsString();
    o["static"] = v->isStaticLocal();
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (v->isStaticLocal() && seenGlobals.insert(v->getCanonicalDecl()).second) noteGlobal(v);
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = loc(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = expr(e); return o; }
    if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; json::Array a; for (auto* c : x->body()) a.push_back(stmt(c)); o["s"] = std::move(a); return o; }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl"; json::Array a;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["v"] = std::move(a); return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If"; if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = stmt(x->getConditionVariableDeclStmt());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse()); return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if (x->getConditionVariableDeclStmt()) o["cvar"] = stmt(x->getConditionVariableDeclStmt()); o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody()); return o; }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody()); return o; }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For"; if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc()); o["s"] = stmt(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "ForRange";
      o["range"] = stmt(x->getRangeStmt()); o["begin"] = stmt(x->getBeginStmt()); o["end"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["var"] = stmt(x->getLoopVarStmt()); o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariableDeclStmt()) o["cvar"] = stmt(x->getConditionVariableDeclStmt()); o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["v"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["s"] = stmt(x->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i); json::Object ho;
        if (!h->getCaughtType().isNull()) ho["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
        if (h->getExceptionDecl()) ho["d"] = decl(h->getExceptionDecl());
        ho["l"] = loc(h->getBeginLoc());
        ho["s"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs); return o;
    }
    if (isa<NullStmt>(s)) { o["k"] = "Null"; return o; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["n"] = x->getName(); o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "Goto"; o["n"] = x->getLabel()->getNameAsString(); return o; }
    o["k"] = "UnknownStmt"; o["cls"] = s->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl* f) {
    int id = decl(f);
    json::Object o;
    o["d"] = id;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto* i : cd->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) { io["m"] = i->getMember()->getNameAsString(); io["t"] = type(i->getMember()->getType()); }
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(i->getInit());
        io["l"] = loc(i->getSourceLocation());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->hasBody()) o["body"] = stmt(f->getBody());
    functions.push_back(std::move(o));
  }

  void finish() {
    for (size_t i = 0; i < queue.size(); ++i) function(queue[i]);
    json::Object top;
    top["types"] = std::move(types);
    top["records"] = std::move(records);
    top["decls"] = std::move(decls);
    top["functions"] = std::move(functions);
    top["globals"] = std::move(globals);
    top["files"] = std::move(files);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) { llvm::errs() << "cannot write " << out << "\n"; return; }
    os << json::Value(std::move(top)) << "\n";
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  explicit Visitor(Exporter& e) : ex(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (f->isDeleted()) return true;
    if (ex.inRoots(f->getLocation())) ex.enqueue(f);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v)) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (v->getType()->isDependentType()) return true;
    if (!ex.inRoots(v->getLocation())) return true;
    if (ex.seenGlobals.insert(v->getCanonicalDecl()).second) ex.noteGlobal(v);
    return true;
  }
  Exporter& ex;
};

class Consumer : public ASTConsumer {
public:
  Consumer(std::vector<std::string> r, std::string o) : roots(std::move(r)), out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Exporter ex(c, roots, out);
    Visitor v(ex);
    v.TraverseDecl(c.getTranslationUnitDecl());
    ex.finish();
  }
  std::vector<std::string> roots;
  std::string out;
};

class Action : public PluginASTAction {
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>(roots, out);
  }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& args) override {
    for (auto& a : args) {
      if (a.rfind("root=", 0) == 0) roots.push_back(a.substr(5));
      else if (a.rfind("out=", 0) == 0) out = a.substr(4);
    }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
  std::vector<std::string> roots;
  std::string out;
};

} // namespace

static FrontendPluginRegistry::Add<Action> X("ntc-astdump", "export the type-checked program as JSON");
