// Dumps the functions and records of one translation unit as JSON.
// Only declarations located below a given directory are dumped; types are
// canonical and structured, so the consumer never parses C++ type names.
//
// usage: cppdump <root-dir> <source> -- <compiler args>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  explicit Dumper(ASTContext& ctx) : m_ctx(ctx), m_sm(ctx.getSourceManager()),
      m_policy(ctx.getLangOpts()) {
    m_policy.SuppressTagKeyword = true;
    m_policy.FullyQualifiedName = true;
    m_policy.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  bool in_root(SourceLocation loc) {
    loc = m_sm.getExpansionLoc(loc);
    auto name = m_sm.getFilename(loc);
    return name.starts_with(g_root);
  }

  bool VisitFunctionDecl(FunctionDecl* fd) {
    if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext())
      return true;
    if (!in_root(fd->getLocation()))
      return true;
    if (auto md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda())
        return true;
    if (fd->isDefaulted() || fd->isImplicit())
      return true;
    add_function(fd);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() ||
        rd->isLambda() || !in_root(rd->getLocation()))
      return true;
    m_records.push_back(record(rd));
    return true;
  }

  bool VisitEnumDecl(EnumDecl* ed) {
    if (!ed->isThisDeclarationADefinition() || !in_root(ed->getLocation()))
      return true;
    json::Object o;
    o["name"] = ed->getQualifiedNameAsString();
    json::Array a;
    for (auto ec : ed->enumerators())
      a.push_back(json::Array{ ec->getNameAsString(),
        ec->getInitVal().getExtValue() });
    o["values"] = std::move(a);
    o["underlying"] = type(ed->getIntegerType());
    m_enums.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl* vd) {
    if (!vd->hasGlobalStorage() || vd->isStaticLocal() ||
        !in_root(vd->getLocation()) || vd->getType()->isDependentType())
      return true;
    if (vd->getDeclContext()->isDependentContext())
      return true;
    json::Object o;
    o["name"] = vd->getQualifiedNameAsString();
    o["id"] = id(vd);
    o["type"] = type(vd->getType());
    if (vd->getInit())
      o["init"] = expr(vd->getInit());
    m_globals.push_back(std::move(o));
    return true;
  }

  void finish(llvm::raw_ostream& os) {
    json::Object o;
    o["functions"] = std::move(m_functions);
    o["records"] = std::move(m_records);
    o["enums"] = std::move(m_enums);
    o["globals"] = std::move(m_globals);
    o["types"] = std::move(m_types);
    os << json::Value(std::move(o));
  }

private:
  int64_t id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = m_ids.find(d);
    if (it == m_ids.end())
      it = m_ids.emplace(d, m_ids.size() + 1).first;
    return it->second;
  }

  int line(SourceLocation loc) { return m_sm.getExpansionLineNumber(loc); }

  // ---- types -----------------------------------------------------------
  int64_t type(QualType qt) {
    qt = qt.getCanonicalType();
    auto key = std::make_pair(qt.getTypePtr(), qt.getLocalFastQualifiers());
    auto it = m_type_ids.find(key);
    if (it != m_type_ids.end())
      return it->second;
    auto index = static_cast<int64_t>(m_types.size());
    m_type_ids[key] = index;
    m_types.push_back(nullptr);
    m_types[index] = make_type(qt);
    return index;
  }

  json::Value template_arg(const TemplateArgument& a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return type(a.getAsType());
      case TemplateArgument::Integral: {
        json::Object o; o["int"] = a.getAsIntegral().getExtValue(); return o; }
      case TemplateArgument::Pack: {
        json::Array arr;
        for (auto& p : a.pack_elements())
          arr.push_back(template_arg(p));
        return json::Object{ { "pack", std::move(arr) } };
      }
      default: return nullptr;
    }
  }

  json::Value make_type(QualType qt) {
    json::Object o;
    if (qt.isConstQualified())
      o["const"] = true;
    auto t = qt.getTypePtr();
    o["str"] = qt.getAsString(m_policy);
    if (auto bt = dyn_cast<BuiltinType>(t)) {
      o["k"] = "builtin";
      o["n"] = qt.getUnqualifiedType().getAsString(m_policy);
    }
    else if (auto et = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["n"] = et->getDecl()->getQualifiedNameAsString();
      o["u"] = type(et->getDecl()->getIntegerType());
    }
    else if (auto rt = dyn_cast<RecordType>(t)) {
      auto rd = rt->getDecl();
      o["k"] = "record";
      o["n"] = rd->getQualifiedNameAsString();
      o["id"] = id(rd);
      if (auto cr = dyn_cast<CXXRecordDecl>(rd)) {
        if (cr->isLambda())
          o["lambda"] = true;
        if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(cr)) {
          json::Array args;
          for (auto& a : sp->getTemplateArgs().asArray())
            args.push_back(template_arg(a));
          o["args"] = std::move(args);
        }
      }
    }
    else if (auto pt = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["t"] = type(pt->getPointeeType());
    }
    else if (auto rt = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rvalue"] = isa<RValueReferenceType>(t);
      o["t"] = type(rt->getPointeeType());
    }
    else if (auto at = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["t"] = type(at->getElementType());
      o["size"] = static_cast<int64_t>(at->getSize().getZExtValue());
    }
    else if (auto ft = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "function";
      o["ret"] = type(ft->getReturnType());
    }
    else {
      o["k"] = "other";
      o["n"] = t->getTypeClassName();
    }
    if (!isa<FunctionType>(t) && !isa<ReferenceType>(t) && !qt->isIncompleteType() &&
        !qt->isDependentType() && !qt->isVoidType() && qt.isTriviallyCopyableType(m_ctx))
      o["sizeof"] = static_cast<int64_t>(m_ctx.getTypeSizeInChars(qt).getQuantity());
    return o;
  }

  // ---- decls -----------------------------------------------------------
  json::Value record(const CXXRecordDecl* rd) {
    json::Object o;
    o["name"] = rd->getQualifiedNameAsString();
    o["type"] = type(QualType(rd->getTypeForDecl(), 0));
    o["file"] = m_sm.getFilename(m_sm.getExpansionLoc(rd->getLocation()));
    o["line"] = line(rd->getLocation());
    json::Array bases;
    for (auto& b : rd->bases())
      bases.push_back(type(b.getType()));
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto f : rd->fields()) {
      json::Object fo;
      fo["name"] = f->getNameAsString();
      fo["id"] = id(f);
      fo["type"] = type(f->getType());
      if (f->isBitField())
        fo["bits"] = f->getBitWidthValue(m_ctx);
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    return o;
  }

  json::Value param(const ParmVarDecl* p) {
    json::Object o;
    o["name"] = p->getNameAsString();
    o["id"] = id(p);
    o["type"] = type(p->getType());
    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg())
      o["default"] = expr(p->getDefaultArg());
    return o;
  }

  void add_function(const FunctionDecl* fd) {
    if (!m_done.insert(fd->getCanonicalDecl()).second)
      return;
    json::Object o;
    o["name"] = fd->getQualifiedNameAsString();
    o["id"] = id(fd);
    o["file"] = m_sm.getFilename(m_sm.getExpansionLoc(fd->getLocation()));
    o["line"] = line(fd->getLocation());
    o["ret"] = type(fd->getReturnType());
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o["class"] = md->getParent()->getQualifiedNameAsString();
      o["const"] = md->isConst();
      o["static"] = md->isStatic();
      if (isa<CXXConstructorDecl>(md))
        o["ctor"] = true;
    }
    if (auto args = fd->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& arg : args->asArray())
        a.push_back(template_arg(arg));
      o["targs"] = std::move(a);
    }
    json::Array params;
    for (auto p : fd->parameters())
      params.push_back(param(p));
    o["params"] = std::move(params);
    if (auto cd = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array inits;
      for (auto i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer())
          io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = type(QualType(i->getBaseClass(), 0));
        else
          io["delegating"] = true;
        io["written"] = i->isWritten();
        io["init"] = expr(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = stmt(fd->getBody());
    m_functions.push_back(std::move(o));
  }

  json::Value var(const VarDecl* vd) {
    json::Object o;
    o["k"] = "var";
    o["name"] = vd->getNameAsString();
    o["id"] = id(vd);
    o["type"] = type(vd->getType());
    o["line"] = line(vd->getLocation());
    if (vd->isStaticLocal())
      o["static"] = true;
    if (vd->getInit())
      o["init"] = expr(vd->getInit());
    if (auto dd = dyn_cast<DecompositionDecl>(vd)) {
      json::Array b;
      for (auto bd : dd->bindings()) {
        json::Object bo;
        bo["name"] = bd->getNameAsString();
        bo["id"] = id(bd);
        bo["type"] = type(bd->getType());
        if (bd->getBinding())
          bo["expr"] = expr(bd->getBinding());
        if (auto hv = bd->getHoldingVar()) {
          bo["hold"] = id(hv);
          if (hv->getInit()) bo["holdinit"] = expr(hv->getInit());
        }
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    return o;
  }

  // ---- statements ------------------------------------------------------
  json::Value stmt(const Stmt* s) {
    if (!s)
      return nullptr;
    if (auto e = dyn_cast<Expr>(s)) {
      json::Object o;
      o["k"] = "expr";
      o["line"] = line(s->getBeginLoc());
      o["e"] = expr(e);
      return o;
    }
    json::Object o;
    o["line"] = line(s->getBeginLoc());
    if (auto c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto x : c->body())
        a.push_back(stmt(x));
      o["body"] = std::move(a);
    }
    else if (auto d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto x : d->decls())
        if (auto vd = dyn_cast<VarDecl>(x))
          a.push_back(var(vd));
      o["vars"] = std::move(a);
    }
    else if (auto i = dyn_cast<IfStmt>(s)) {
      if (i->isConstexpr()) {
        // instantiated: only one branch is live
        if (auto nd = i->getNondiscardedCase(m_ctx)) {
          if (*nd)
            return stmt(*nd);
          o["k"] = "block"; o["body"] = json::Array{}; return o;
        }
      }
      o["k"] = "if";
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (auto cv = i->getConditionVariable()) o["condvar"] = var(cv);
      o["cond"] = expr(i->getCond());
      o["then"] = stmt(i->getThen());
      if (i->getElse()) o["else"] = stmt(i->getElse());
    }
    else if (auto w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (auto cv = w->getConditionVariable()) o["condvar"] = var(cv);
      o["cond"] = expr(w->getCond());
      o["body"] = stmt(w->getBody());
    }
    else if (auto w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["cond"] = expr(w->getCond());
      o["body"] = stmt(w->getBody());
    }
    else if (auto f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (f->getInit()) o["init"] = stmt(f->getInit());
      if (f->getCond()) o["cond"] = expr(f->getCond());
      if (f->getInc()) o["inc"] = expr(f->getInc());
      o["body"] = stmt(f->getBody());
    }
    else if (auto f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "forrange";
      o["var"] = var(f->getLoopVariable());
      o["range"] = expr(f->getRangeInit());
      o["body"] = stmt(f->getBody());
    }
    else if (auto r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      if (r->getRetValue()) o["e"] = expr(r->getRetValue());
    }
    else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (isa<NullStmt>(s)) { o["k"] = "block"; o["body"] = json::Array{}; }
    else if (auto sw = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (sw->getInit()) o["init"] = stmt(sw->getInit());
      o["cond"] = expr(sw->getCond());
      o["body"] = stmt(sw->getBody());
    }
    else if (auto c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["value"] = expr(c->getLHS());
      Expr::EvalResult er;
      if (c->getLHS()->EvaluateAsInt(er, m_ctx))
        o["const"] = er.Val.getInt().getExtValue();
      o["body"] = stmt(c->getSubStmt());
    }
    else if (auto c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["body"] = stmt(c->getSubStmt());
    }
    else if (auto t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["body"] = stmt(t->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto h = t->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) ho["var"] = var(h->getExceptionDecl());
        ho["body"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["handlers"] = std::move(hs);
    }
    else if (auto a = dyn_cast<AttributedStmt>(s)) {
      return stmt(a->getSubStmt());
    }
    else {
      o["k"] = "unsupported";
      o["n"] = s->getStmtClassName();
    }
    return o;
  }

  // ---- expressions -----------------------------------------------------
  void callee(json::Object& o, const FunctionDecl* fd) {
    o["callee"] = fd->getQualifiedNameAsString();
    o["id"] = id(fd);
    auto def = static_cast<const FunctionDecl*>(nullptr);
    if (fd->hasBody(def) && in_root(def->getLocation()) && !def->isDefaulted())
      add_function(def);
    o["inroot"] = in_root(fd->getLocation());
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o["class"] = md->getParent()->getQualifiedNameAsString();
      o["mconst"] = md->isConst();
      o["virtual"] = md->isVirtual();
    }
    if (auto args = fd->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& arg : args->asArray())
        a.push_back(template_arg(arg));
      o["targs"] = std::move(a);
    }
    json::Array pt;
    for (auto p : fd->parameters())
      pt.push_back(type(p->getType()));
    o["ptypes"] = std::move(pt);
  }

  json::Value expr(const Expr* e) {
    if (!e)
      return nullptr;
    // transparent wrappers
    if (auto x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());

    json::Object o;
    o["t"] = type(e->getType());
    if (e->isLValue()) o["lv"] = true;
    o["line"] = line(e->getBeginLoc());

    if (auto x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s; x->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
    }
    else if (auto x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int"; o["v"] = std::to_string(static_cast<int64_t>(static_cast<int>(x->getValue())));
    }
    else if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); }
    else if (auto x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      json::Array a;
      for (unsigned i = 0; i < x->getLength(); ++i)
        a.push_back(static_cast<int64_t>(x->getCodeUnit(i)));
      o["v"] = std::move(a);
    }
    else if (isa<FloatingLiteral>(e)) { o["k"] = "float"; }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; }
    else if (isa<CXXThisExpr>(e)) { o["k"] = "this"; }
    else if (auto x = dyn_cast<DeclRefExpr>(e)) {
      auto d = x->getDecl();
      o["k"] = "ref";
      o["name"] = d->getNameAsString();
      o["qname"] = d->getQualifiedNameAsString();
      o["id"] = id(d);
      if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enumconst";
        o["v"] = std::to_string(ec->getInitVal().getExtValue());
      }
      else if (isa<ParmVarDecl>(d)) o["dk"] = "param";
      else if (auto vd = dyn_cast<VarDecl>(d)) {
        o["dk"] = vd->hasGlobalStorage() && !vd->isStaticLocal() ? "global" : "var";
        if (vd->getType().isConstQualified() || vd->isConstexpr()) {
          Expr::EvalResult er;
          if (e->getType()->isIntegralOrEnumerationType() &&
              e->EvaluateAsInt(er, m_ctx))
            o["v"] = llvm::toString(er.Val.getInt(), 10);
        }
      }
      else if (auto fd = dyn_cast<FunctionDecl>(d)) { o["dk"] = "function"; callee(o, fd); }
      else if (auto bd = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; }
      else o["dk"] = "other";
    }
    else if (auto x = dyn_cast<MemberExpr>(e)) {
      auto md = x->getMemberDecl();
      if (auto vd = dyn_cast<VarDecl>(md)) {   // static member
        o["k"] = "ref"; o["dk"] = "global"; o["name"] = md->getNameAsString();
        o["qname"] = md->getQualifiedNameAsString(); o["id"] = id(md);
        Expr::EvalResult er;
        if (e->EvaluateAsInt(er, m_ctx)) o["v"] = llvm::toString(er.Val.getInt(), 10);
      }
      else {
        o["k"] = "member";
        o["name"] = md->getNameAsString();
        o["id"] = id(md);
        o["arrow"] = x->isArrow();
        o["base"] = expr(x->getBase());
        if (auto fd = dyn_cast<FieldDecl>(md)) {
          o["rec"] = fd->getParent()->getQualifiedNameAsString();
          if (fd->isBitField()) o["bits"] = fd->getBitWidthValue(m_ctx);
        }
      }
    }
    else if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      if (auto md = x->getMethodDecl())
        callee(o, md);
      auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      if (me) { o["arrow"] = me->isArrow(); o["method"] = me->getMemberDecl()->getNameAsString(); }
      o["obj"] = expr(x->getImplicitObjectArgument());
      o["args"] = exprs(x->arguments());
    }
    else if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto fd = x->getDirectCallee())
        callee(o, fd);
      o["args"] = exprs(x->arguments());
    }
    else if (auto x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto fd = x->getDirectCallee()) {
        callee(o, fd);
        if (fd->getBuiltinID()) o["builtin"] = true;
      }
      else
        o["fn"] = expr(x->getCallee());
      o["args"] = exprs(x->arguments());
    }
    else if (auto x = dyn_cast<CXXTemporaryObjectExpr>(e)) construct(o, x);
    else if (auto x = dyn_cast<CXXConstructExpr>(e)) construct(o, x);
    else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "inheritctor";
    }
    else if (auto x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "initlist";
      if (x->isTransparent() && x->getNumInits() == 1)
        return expr(x->getInit(0));
      json::Array a;
      for (auto i : x->inits())
        a.push_back(expr(i));
      o["args"] = std::move(a);
    }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; }
    else if (auto x = dyn_cast<CastExpr>(e)) {
      auto ck = x->getCastKind();
      if (ck == CK_NoOp || ck == CK_UncheckedDerivedToBase || ck == CK_DerivedToBase ||
          ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion ||
          ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) {
        // keep derived-to-base for member access on records with fields
        if (ck == CK_UncheckedDerivedToBase || ck == CK_DerivedToBase) {
          o["k"] = "cast"; o["ck"] = "DerivedToBase"; o["e"] = expr(x->getSubExpr());
          return o;
        }
        if (isa<ImplicitCastExpr>(e) || ck != CK_NoOp || true)
          return expr(x->getSubExpr());
      }
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
    }
    else if (auto x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cassign";
      o["op"] = x->getOpcodeStr();
      o["ct"] = type(x->getComputationResultType());
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
    }
    else if (auto x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "binop";
      o["op"] = x->getOpcodeStr();
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
    }
    else if (auto x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "unop";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["postfix"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
    }
    else if (auto x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    }
    else if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index";
      o["base"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
    }
    else if (auto x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      // for generic lambdas the instantiated call operators are dumped
      auto rd = x->getLambdaClass();
      o["rec"] = id(rd);
      json::Array caps;
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto cv = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (cv->isInitCapture()) co["init"] = expr(cv->getInit());
        }
        else co["this"] = true;
        caps.push_back(std::move(co));
      }
      o["captures"] = std::move(caps);
      json::Array bodies;
      auto add = [&](const CXXMethodDecl* md) {
        json::Object bo;
        json::Array ps;
        for (auto p : md->parameters())
          ps.push_back(param(p));
        bo["params"] = std::move(ps);
        bo["ret"] = type(md->getReturnType());
        bo["id"] = id(md);
        bo["body"] = stmt(md->getBody());
        bodies.push_back(std::move(bo));
      };
      if (auto ft = rd->getDependentLambdaCallOperator()) {
        for (auto sp : ft->specializations())
          if (auto md = dyn_cast<CXXMethodDecl>(sp))
            if (md->getBody())
              add(md);
      }
      else if (auto md = x->getCallOperator())
        add(md);
      o["bodies"] = std::move(bodies);
    }
    else if (auto x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
    }
    else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult er;
      if (e->EvaluateAsInt(er, m_ctx)) { o["k"] = "int"; o["v"] = llvm::toString(er.Val.getInt(), 10); }
      else o["k"] = "unsupported";
    }
    else if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      return expr(x->getSemanticForm());
    }
    else if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "unsupported"; o["n"] = "ArrayInitLoopExpr"; }
    else {
      o["k"] = "unsupported";
      o["n"] = e->getStmtClassName();
    }
    return o;
  }

  void construct(json::Object& o, const CXXConstructExpr* x) {
    o["k"] = "construct";
    auto cd = x->getConstructor();
    callee(o, cd);
    o["copy"] = cd->isCopyConstructor();
    o["move"] = cd->isMoveConstructor();
    o["default"] = cd->isDefaultConstructor();
    o["userprovided"] = cd->isUserProvided();
    o["inherited"] = cd->isInheritingConstructor();
    o["listinit"] = x->isStdInitListInitialization();
    o["args"] = exprs(x->arguments());
  }

  template<typename R>
  json::Array exprs(R&& range) {
    json::Array a;
    for (auto e : range)
      a.push_back(expr(e));
    return a;
  }

  ASTContext& m_ctx;
  SourceManager& m_sm;
  PrintingPolicy m_policy;
  std::map<const Decl*, int64_t> m_ids;
  std::map<std::pair<const Type*, unsigned>, int64_t> m_type_ids;
  std::set<const Decl*> m_done;
  json::Array m_types, m_functions, m_records, m_enums, m_globals;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    d.TraverseDecl(ctx.getTranslationUnitDecl());
    d.finish(llvm::outs());
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char** argv) {
  if (argc < 4) { llvm::errs() << "usage: cppdump <root> <source> -- <args>\n"; return 2; }
  g_root = argv[1];
  std::string src = argv[2];
  int n = argc - 3;
  std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv + 3, err);
  if (!db) { llvm::errs() << "bad args " << err << "\n"; return 2; }
  tooling::ClangTool tool(*db, { src });
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
