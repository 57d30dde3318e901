// Dumps the type-checked syntax tree of every function defined below a given
// root directory as JSON, for consumption by the analyses in this directory.
//
//   astdump OUT.json ROOT FILE -- FLAGS...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_out, g_root;

namespace {
struct Dumper {
  ASTContext &ctx;
  const SourceManager &sm;
  PrintingPolicy pol;
  ASTNameGenerator mangler;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> typeIds;
  std::vector<std::string> types;
  std::set<const EnumDecl *> enums;
  std::set<std::string> doneFns;
  json::Array functions;
  json::Array records;
  std::set<const Decl *> visited;
  std::vector<const FunctionDecl *> pending;

  explicit Dumper(ASTContext &c)
      : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()),
        mangler(c) {
    pol.SuppressTagKeyword = true;
    pol.SuppressInlineNamespace = true;
    pol.AnonymousTagLocations = false;
    pol.Bool = true;
    pol.PrintCanonicalTypes = true;
  }

  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    return ids.try_emplace(d, static_cast<int>(ids.size())).first->second;
  }
  int type(QualType t) {
    if (t.isNull())
      return -1;
    std::string s = t.getCanonicalType().getAsString(pol);
    if (auto *et = t.getNonReferenceType()->getAs<EnumType>())
      enums.insert(et->getDecl());
    auto r = typeIds.try_emplace(s, static_cast<int>(types.size()));
    if (r.second)
      types.push_back(s);
    return r.first->second;
  }
  int line(SourceLocation l) {
    return static_cast<int>(sm.getExpansionLineNumber(l));
  }
  std::string file(SourceLocation l) {
    return sm.getFilename(sm.getExpansionLoc(l)).str();
  }
  bool inRoot(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    return l.isValid() && llvm::StringRef(file(l)).starts_with(g_root);
  }
  std::string qname(const Decl *d) {
    const auto *nd = dyn_cast<NamedDecl>(d);
    if (!nd)
      return "";
    std::string n;
    if (const auto *rd = dyn_cast<CXXRecordDecl>(nd); rd && rd->isLambda())
      n = "(lambda)";
    else {
      llvm::raw_string_ostream os(n);
      PrintingPolicy p = pol;
      DeclarationName name = nd->getDeclName();
      if (isa<CXXConstructorDecl>(nd))
        os << "(ctor)";
      else if (isa<CXXDestructorDecl>(nd))
        os << "(dtor)";
      else if (const auto *cv = dyn_cast<CXXConversionDecl>(nd)) {
        os << "(conv ";
        cv->getConversionType().getCanonicalType().print(os, p);
        os << ")";
      } else
        os << name;
    }
    const DeclContext *dc = nd->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (const auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline() && !ns->isAnonymousNamespace())
          n = ns->getNameAsString() + "::" + n;
      } else if (const auto *rd = dyn_cast<CXXRecordDecl>(dc)) {
        if (rd->isLambda())
          n = "(lambda)::" + n;
        else
          n = rd->getNameAsString() + "::" + n;
      } else if (const auto *ed = dyn_cast<EnumDecl>(dc)) {
        if (ed->isScoped())
          n = ed->getNameAsString() + "::" + n;
        else { // keep uniform: Enum::Value for unscoped too
          n = ed->getNameAsString() + "::" + n;
        }
      } else if (isa<FunctionDecl>(dc)) {
        break;
      }
      dc = dc->getParent();
    }
    return n;
  }
  std::string fnKey(const FunctionDecl *fd) {
    fd = fd->getCanonicalDecl();
    std::string k;
    if (const auto *m = dyn_cast<CXXMethodDecl>(fd);
        m && m->getParent()->isLambda()) {
      SourceLocation l = m->getParent()->getLocation();
      k = "lambda@" + file(l) + ":" + std::to_string(sm.getFileOffset(sm.getExpansionLoc(l))) + "#" +
          std::to_string(id(fd));
      return k;
    }
    k = mangler.getName(fd);
    if (isa<CXXConstructorDecl>(fd) || isa<CXXDestructorDecl>(fd))
      k = "C:" + mangler.getName(fd) + ":" + qname(fd) + ":" +
          fd->getType().getCanonicalType().getAsString(pol) + ":" +
          ctx.getTypeDeclType(cast<CXXMethodDecl>(fd)->getParent())
              .getCanonicalType()
              .getAsString(pol);
    if (!fd->isExternallyVisible())
      k += "@" + file(sm.getLocForStartOfFile(sm.getMainFileID()));
    return k;
  }

  json::Value E(const Stmt *s) {
    if (!s)
      return nullptr;
    return expr(s);
  }
  json::Array list(llvm::ArrayRef<const Stmt *> v) {
    json::Array a;
    for (auto *s : v)
      a.push_back(E(s));
    return a;
  }
  template <class R> json::Array args(R &&r) {
    json::Array a;
    for (const Expr *e : r)
      a.push_back(E(e));
    return a;
  }

  json::Array targs(const FunctionDecl *fd) {
    json::Array a;
    if (const auto *l = fd->getTemplateSpecializationArgs())
      for (const TemplateArgument &t : l->asArray())
        addTArg(a, t);
    return a;
  }
  void addTArg(json::Array &a, const TemplateArgument &t) {
    switch (t.getKind()) {
    case TemplateArgument::Type:
      a.push_back(t.getAsType().getCanonicalType().getAsString(pol));
      break;
    case TemplateArgument::Integral:
      a.push_back(llvm::toString(t.getAsIntegral(), 10));
      break;
    case TemplateArgument::Pack:
      for (const auto &p : t.pack_elements())
        addTArg(a, p);
      break;
    default: {
      std::string s;
      llvm::raw_string_ostream os(s);
      t.print(pol, os, true);
      a.push_back(s);
    }
    }
  }

  json::Object callInfo(const FunctionDecl *fd) {
    json::Object o;
    o["key"] = fnKey(fd);
    o["q"] = qname(fd);
    o["rt"] = type(fd->getReturnType());
    if (inRoot(fd->getLocation()))
      o["repo"] = true;
    json::Array ta = targs(fd);
    if (!ta.empty())
      o["ta"] = std::move(ta);
    json::Array pt;
    for (const ParmVarDecl *p : fd->parameters())
      pt.push_back(type(p->getType()));
    o["pt"] = std::move(pt);
    if (fd->isNoReturn())
      o["noret"] = true;
    if (const auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      o["m"] = true;
      if (m->isConst())
        o["const"] = true;
      if (m->isStatic())
        o["static"] = true;
      if (m->isVirtual())
        o["virt"] = true;
      if (m->getParent()->isLambda())
        o["lam"] = id(m->getParent());
      o["cls"] = type(ctx.getTypeDeclType(m->getParent()));
    }
    if (fd->isOverloadedOperator())
      o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
    if (const FunctionDecl *def = fd->getDefinition();
        def && inRoot(def->getLocation()))
      queue(def);
    else if (const FunctionDecl *pat = fd->getTemplateInstantiationPattern();
             pat && inRoot(pat->getLocation()))
      queue(fd);
    return o;
  }
  void queue(const FunctionDecl *fd) {
    if (visited.insert(fd->getCanonicalDecl()).second)
      pending.push_back(fd);
  }

  json::Value varJson(const VarDecl *v) {
    json::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal())
      o["static"] = true;
    if (v->isConstexpr() || v->getType().isConstQualified())
      o["const"] = true;
    if (v->getInit())
      o["init"] = E(v->getInit());
    if (const auto *dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (const BindingDecl *bd : dd->bindings()) {
        json::Object bo;
        bo["id"] = id(bd);
        bo["n"] = bd->getNameAsString();
        if (const VarDecl *hv = bd->getHoldingVar())
          bo["hid"] = id(hv);
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  json::Value params(const FunctionDecl *fd) {
    json::Array ps;
    for (const ParmVarDecl *p : fd->parameters()) {
      json::Object o;
      o["id"] = id(p);
      o["n"] = p->getNameAsString();
      o["t"] = type(p->getType());
      ps.push_back(std::move(o));
    }
    return ps;
  }

  template <class... T> json::Array N(const char *k, const Stmt *s, T &&...v) {
    json::Array a;
    a.push_back(k);
    a.push_back(line(s->getBeginLoc()));
    (a.push_back(std::forward<T>(v)), ...);
    return a;
  }

  json::Value refTo(const Expr *e, const ValueDecl *d) {
    json::Object o;
    o["t"] = type(d->getType());
    const char *k = "var";
    if (const auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      k = "enumconst";
      o["v"] = llvm::toString(ec->getInitVal(), 10);
      enums.insert(cast<EnumDecl>(ec->getDeclContext()));
      o["enum"] = qname(cast<EnumDecl>(ec->getDeclContext()));
    } else if (const auto *fd = dyn_cast<FunctionDecl>(d)) {
      k = "func";
      o["c"] = callInfo(fd);
    } else if (isa<ParmVarDecl>(d))
      k = "param";
    else if (isa<BindingDecl>(d))
      k = "binding";
    else if (const auto *vd = dyn_cast<VarDecl>(d)) {
      if (vd->isLocalVarDecl())
        k = vd->isStaticLocal() ? "slocal" : "var";
      else {
        k = "global";
        if (vd->getAnyInitializer() && inRoot(vd->getLocation()) && !globals.count(vd->getCanonicalDecl())) {
          globals.insert(vd->getCanonicalDecl());
          json::Object g;
          g["id"] = id(vd);
          g["q"] = qname(vd);
          g["const"] = vd->getType().isConstQualified();
          g["init"] = E(vd->getAnyInitializer());
          globalsJson.push_back(std::move(g));
        }
      }
    }
    o["k"] = k;
    o["id"] = id(d);
    o["q"] = qname(d);
    return N("ref", e, std::move(o));
  }
  std::set<const Decl *> globals;
  json::Array globalsJson;

  json::Value expr(const Stmt *s) {
    if (!s)
      return nullptr;
    // ---- statements
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      json::Array a;
      for (const Stmt *c : cast<CompoundStmt>(s)->body())
        a.push_back(E(c));
      return N("compound", s, std::move(a));
    }
    case Stmt::IfStmtClass: {
      const auto *i = cast<IfStmt>(s);
      if (i->isConstexpr()) {
        if (auto v = i->getNondiscardedCase(ctx)) {
          if (*v)
            return E(*v);
          return N("nullstmt", s);
        }
      }
      return N("if", s, E(i->getInit()),
               i->getConditionVariable()
                   ? json::Value(varJson(i->getConditionVariable()))
                   : json::Value(nullptr),
               E(i->getCond()), E(i->getThen()), E(i->getElse()));
    }
    case Stmt::ForStmtClass: {
      const auto *f = cast<ForStmt>(s);
      return N("for", s, E(f->getInit()), E(f->getCond()), E(f->getInc()),
               E(f->getBody()));
    }
    case Stmt::CXXForRangeStmtClass: {
      const auto *f = cast<CXXForRangeStmt>(s);
      return N("rangefor", s, varJson(f->getLoopVariable()),
               E(f->getRangeInit()), E(f->getBody()), E(f->getInit()));
    }
    case Stmt::WhileStmtClass: {
      const auto *w = cast<WhileStmt>(s);
      return N("while", s, E(w->getCond()), E(w->getBody()),
               w->getConditionVariable()
                   ? json::Value(varJson(w->getConditionVariable()))
                   : json::Value(nullptr));
    }
    case Stmt::DoStmtClass:
      return N("do", s, E(cast<DoStmt>(s)->getBody()),
               E(cast<DoStmt>(s)->getCond()));
    case Stmt::SwitchStmtClass: {
      const auto *w = cast<SwitchStmt>(s);
      return N("switch", s, E(w->getInit()),
               w->getConditionVariable()
                   ? json::Value(varJson(w->getConditionVariable()))
                   : json::Value(nullptr),
               E(w->getCond()), E(w->getBody()));
    }
    case Stmt::CaseStmtClass:
      return N("case", s, E(cast<CaseStmt>(s)->getLHS()),
               E(cast<CaseStmt>(s)->getRHS()),
               E(cast<CaseStmt>(s)->getSubStmt()));
    case Stmt::DefaultStmtClass:
      return N("default", s, E(cast<DefaultStmt>(s)->getSubStmt()));
    case Stmt::BreakStmtClass:
      return N("break", s);
    case Stmt::ContinueStmtClass:
      return N("continue", s);
    case Stmt::NullStmtClass:
      return N("nullstmt", s);
    case Stmt::ReturnStmtClass:
      return N("return", s, E(cast<ReturnStmt>(s)->getRetValue()));
    case Stmt::AttributedStmtClass:
      return E(cast<AttributedStmt>(s)->getSubStmt());
    case Stmt::DeclStmtClass: {
      json::Array a;
      for (const Decl *d : cast<DeclStmt>(s)->decls())
        if (const auto *v = dyn_cast<VarDecl>(d))
          a.push_back(varJson(v));
      return N("decl", s, std::move(a));
    }
    default:
      break;
    }
    const auto *e = dyn_cast<Expr>(s);
    if (!e)
      return N("other", s, s->getStmtClassName());

    if (const auto *x = dyn_cast<ConstantExpr>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<ParenExpr>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<ExprWithCleanups>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<CXXBindTemporaryExpr>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return E(x->getReplacement());
    if (const auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e))
      return E(x->getSemanticForm());
    if (const auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
      return E(x->getSubExpr());
    if (const auto *x = dyn_cast<CXXDefaultArgExpr>(e))
      return E(x->getExpr());
    if (const auto *x = dyn_cast<CXXDefaultInitExpr>(e))
      return E(x->getExpr());
    if (const auto *x = dyn_cast<GenericSelectionExpr>(e))
      return E(x->getResultExpr());
    if (const auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
      json::Array a;
      for (const Expr *i : const_cast<CXXParenListInitExpr *>(x)->getInitExprs())
        a.push_back(E(i));
      return N("initlist", s, type(e->getType()), std::move(a));
    }
    if (const auto *x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
      case CK_PointerToBoolean:
      case CK_IntegralToBoolean:
      case CK_MemberPointerToBoolean:
        return N("tobool", s, E(x->getSubExpr()),
                 type(x->getSubExpr()->getType()));
      case CK_ToVoid:
        return N("tovoid", s, E(x->getSubExpr()));
      case CK_NullToPointer:
        return N("nullptr", s);
      default:
        break;
      }
      if (isa<ImplicitCastExpr>(e))
        return E(x->getSubExpr());
      return N("cast", s, type(e->getType()), E(x->getSubExpr()),
               x->getCastKindName(), type(x->getSubExpr()->getType()));
    }
    if (const auto *x = dyn_cast<DeclRefExpr>(e))
      return refTo(e, x->getDecl());
    if (const auto *x = dyn_cast<MemberExpr>(e)) {
      if (const auto *vd = dyn_cast<VarDecl>(x->getMemberDecl()))
        return refTo(e, vd);
      if (const auto *ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl()))
        return refTo(e, ec);
      if (const auto *md = dyn_cast<CXXMethodDecl>(x->getMemberDecl()))
        return N("memfn", s, E(x->getBase()), callInfo(md));
      return N("member", s, E(x->getBase()), qname(x->getMemberDecl()),
               type(x->getMemberDecl()->getType()), x->isArrow());
    }
    if (const auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      json::Object o;
      if (const auto *fd = x->getDirectCallee())
        o = callInfo(fd);
      else
        o["q"] = "?";
      o["opcall"] = true;
      o["t"] = type(e->getType());
      if (x->getNumArgs())
        o["a0"] = type(x->getArg(0)->getType());
      return N("call", s, std::move(o), args(x->arguments()));
    }
    if (const auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      json::Object o;
      json::Array a;
      if (const auto *fd = x->getMethodDecl()) {
        o = callInfo(fd);
        a.push_back(E(x->getImplicitObjectArgument()));
        if (const auto *me =
                dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          if (me->hasQualifier())
            o.erase("virt");
        }
        o["ot"] = type(x->getImplicitObjectArgument()->getType());
      } else {
        o["q"] = "?";
        a.push_back(E(x->getCallee()));
      }
      o["t"] = type(e->getType());
      for (const Expr *i : x->arguments())
        a.push_back(E(i));
      return N("call", s, std::move(o), std::move(a));
    }
    if (const auto *x = dyn_cast<CallExpr>(e)) {
      json::Object o;
      json::Array a;
      if (const auto *fd = x->getDirectCallee())
        o = callInfo(fd);
      else {
        o["q"] = "?";
        a.push_back(E(x->getCallee()));
      }
      o["t"] = type(e->getType());
      json::Array at;
      for (const Expr *i : x->arguments()) {
        a.push_back(E(i));
        at.push_back(type(i->getType()));
      }
      o["at"] = std::move(at);
      return N("call", s, std::move(o), std::move(a));
    }
    if (const auto *x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *c = x->getConstructor();
      json::Object o = callInfo(c);
      o["t"] = type(e->getType());
      o["rec"] = qname(c->getParent());
      if (c->isCopyConstructor())
        o["copy"] = true;
      if (c->isMoveConstructor())
        o["move"] = true;
      if (c->isDefaulted())
        o["defaulted"] = true;
      json::Array at;
      for (const Expr *i : x->arguments())
        at.push_back(type(i->getType()));
      o["at"] = std::move(at);
      if (inRoot(c->getParent()->getLocation()))
        recordDecl(c->getParent());
      return N("construct", s, std::move(o), args(x->arguments()));
    }
    if (const auto *x = dyn_cast<LambdaExpr>(e)) {
      json::Object o;
      o["id"] = id(x->getLambdaClass());
      json::Array caps;
      auto init = x->capture_init_begin();
      auto field = x->getLambdaClass()->field_begin();
      for (const LambdaCapture &c : x->captures()) {
        json::Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (x->isInitCapture(&c)) co["initcap"] = true;
        }
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        co["init"] = E(*init);
        (void)field;
        caps.push_back(std::move(co));
        ++init;
      }
      o["caps"] = std::move(caps);
      json::Array ops;
      CXXMethodDecl *m = x->getCallOperator();
      auto add = [&](const FunctionDecl *fd) {
        json::Object f;
        f["key"] = fnKey(fd);
        f["params"] = params(fd);
        f["body"] = E(fd->getBody());
        f["rt"] = type(fd->getReturnType());
        ops.push_back(std::move(f));
      };
      if (FunctionTemplateDecl *ft = m->getDescribedFunctionTemplate()) {
        for (FunctionDecl *sp : ft->specializations())
          if (sp->isDefined() || sp->getBody())
            add(sp);
      } else
        add(m);
      o["ops"] = std::move(ops);
      o["file"] = file(x->getBeginLoc());
      return N("lambda", s, std::move(o));
    }
    if (const auto *x = dyn_cast<IntegerLiteral>(e))
      return N("int", s, llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()), type(e->getType()));
    if (const auto *x = dyn_cast<CharacterLiteral>(e))
      return N("char", s, static_cast<int64_t>(x->getValue()));
    if (const auto *x = dyn_cast<StringLiteral>(e)) {
      std::string v = x->getKind() == StringLiteralKind::Ordinary || x->getKind() == StringLiteralKind::UTF8 || x->getKind() == StringLiteralKind::Unevaluated ? x->getString().str() : "?";
      return N("str", s, json::fixUTF8(v));
    }
    if (const auto *x = dyn_cast<CXXBoolLiteralExpr>(e))
      return N("bool", s, x->getValue());
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return N("nullptr", s);
    if (isa<PredefinedExpr>(e))
      return N("str", s, "__func__");
    if (isa<CXXThisExpr>(e))
      return N("this", s, type(e->getType()));
    if (const auto *x = dyn_cast<UnaryOperator>(e))
      return N("un", s, UnaryOperator::getOpcodeStr(x->getOpcode()),
               E(x->getSubExpr()), x->isPostfix(), type(e->getType()));
    if (const auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->isAssignmentOp())
        return N("assign", s, x->getOpcodeStr(), E(x->getLHS()),
                 E(x->getRHS()), type(e->getType()));
      return N("bin", s, x->getOpcodeStr(), E(x->getLHS()), E(x->getRHS()),
               type(x->getLHS()->getType()), type(e->getType()));
    }
    if (const auto *x = dyn_cast<ConditionalOperator>(e))
      return N("cond", s, E(x->getCond()), E(x->getTrueExpr()),
               E(x->getFalseExpr()));
    if (const auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm())
        x = x->getSemanticForm();
      json::Array a;
      for (const Expr *i : x->inits())
        a.push_back(E(i));
      json::Array fields;
      if (const auto *rd = e->getType()->getAsCXXRecordDecl()) {
        for (const auto &b : rd->bases()) { (void)b; fields.push_back("<base>"); }
        for (const FieldDecl *f : rd->fields())
          fields.push_back(qname(f));
      }
      return N("initlist", s, type(e->getType()), std::move(a),
               std::move(fields));
    }
    if (const auto *x = dyn_cast<CXXNewExpr>(e))
      return N("new", s, type(x->getAllocatedType()),
               E(x->getInitializer()), args(x->placement_arguments()));
    if (const auto *x = dyn_cast<CXXDeleteExpr>(e))
      return N("delete", s, E(x->getArgument()));
    if (const auto *x = dyn_cast<ArraySubscriptExpr>(e))
      return N("subscript", s, E(x->getBase()), E(x->getIdx()));
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
      return N("zeroinit", s, type(e->getType()));
    if (const auto *x = dyn_cast<CXXTypeidExpr>(e))
      return N("typeid", s,
               x->isTypeOperand()
                   ? x->getTypeOperand(ctx).getCanonicalType().getAsString()
                   : x->getExprOperand()->getType().getCanonicalType().getAsString());
    Expr::EvalResult r;
    if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx))
      return N("int", s, llvm::toString(r.Val.getInt(), 10), type(e->getType()));
    json::Array ch;
    for (const Stmt *c : e->children())
      ch.push_back(E(c));
    return N("other", s, e->getStmtClassName(), std::move(ch),
             type(e->getType()));
  }

  void function(const FunctionDecl *fd) {
    if (!fd->getBody() && !fd->isDefaulted())
      return;
    if (fd->isDependentContext() || fd->getDescribedFunctionTemplate())
      return;
    if (const auto *m = dyn_cast<CXXMethodDecl>(fd);
        m && m->getParent()->isLambda())
      return;
    std::string k = fnKey(fd);
    if (!doneFns.insert(k).second)
      return;
    json::Object o;
    o["key"] = k;
    o["q"] = qname(fd);
    const FunctionDecl *pat = fd->getTemplateInstantiationPattern();
    SourceLocation loc = (pat ? pat : fd)->getLocation();
    o["file"] = file(loc);
    o["line"] = line(loc);
    if (const Stmt *b = fd->getBody())
      o["end"] = line(b->getEndLoc());
    o["params"] = params(fd);
    o["rt"] = type(fd->getReturnType());
    json::Array ta = targs(fd);
    if (!ta.empty())
      o["ta"] = std::move(ta);
    if (!fd->isExternallyVisible())
      o["internal"] = true;
    if (const auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = qname(m->getParent());
      o["clst"] = type(ctx.getTypeDeclType(m->getParent()));
      recordDecl(m->getParent());
      if (m->isStatic())
        o["static"] = true;
      if (m->isConst())
        o["const"] = true;
      if (m->isVirtual())
        o["virt"] = true;
      json::Array ov;
      for (const CXXMethodDecl *x : m->overridden_methods())
        ov.push_back(qname(x));
      if (!ov.empty())
        o["overrides"] = std::move(ov);
    }
    if (fd->isDefaulted())
      o["defaulted"] = true;
    if (const auto *c = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array inits;
      for (const CXXCtorInitializer *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer())
          io["field"] = qname(i->getAnyMember());
        else if (i->isDelegatingInitializer())
          io["delegate"] = true;
        else
          io["base"] = type(QualType(i->getBaseClass(), 0));
        io["init"] = E(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = E(fd->getBody());
    functions.push_back(std::move(o));
  }

  std::set<const CXXRecordDecl *> doneRecs;
  void recordDecl(const CXXRecordDecl *rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext() || rd->isLambda() ||
        !doneRecs.insert(rd).second)
      return;
    json::Object o;
    o["q"] = qname(rd);
    o["t"] = type(ctx.getTypeDeclType(rd));
    o["file"] = file(rd->getLocation());
    o["line"] = line(rd->getLocation());
    json::Array bases;
    for (const auto &b : rd->bases()) {
      if (const auto *br = b.getType()->getAsCXXRecordDecl()) {
        bases.push_back(qname(br));
        recordDecl(br);
      }
    }
    o["bases"] = std::move(bases);
    if (inRoot(rd->getLocation())) {
      json::Array fields;
      for (const FieldDecl *f : rd->fields()) {
        json::Object fo;
        fo["n"] = qname(f);
        fo["t"] = type(f->getType());
        fo["l"] = line(f->getLocation());
        if (f->hasInClassInitializer() && f->getInClassInitializer())
          fo["init"] = E(f->getInClassInitializer());
        fields.push_back(std::move(fo));
      }
      o["fields"] = std::move(fields);
      json::Array ms;
      for (const CXXMethodDecl *m : rd->methods()) {
        if (m->isImplicit() && !m->isDefaulted())
          continue;
        json::Object mo;
        mo["q"] = qname(m);
        mo["key"] = fnKey(m);
        if (m->isVirtual())
          mo["virt"] = true;
        json::Array ov;
        for (const CXXMethodDecl *x : m->overridden_methods())
          ov.push_back(fnKey(x));
        if (!ov.empty())
          mo["overrides"] = std::move(ov);
        if (m->isDefaulted()) mo["defaulted"] = true;
        if (m->isDeleted()) mo["deleted"] = true;
        mo["l"] = line(m->getLocation());
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
      o["union"] = rd->isUnion();
    }
    records.push_back(std::move(o));
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Dumper &d;
  explicit Finder(Dumper &d) : d(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (!fd->isThisDeclarationADefinition() && !fd->isDefaulted())
      return true;
    const FunctionDecl *pat = fd->getTemplateInstantiationPattern();
    if (d.inRoot((pat ? pat : fd)->getLocation()))
      d.queue(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    if (rd->isThisDeclarationADefinition() &&
        (d.inRoot(rd->getLocation()) ||
         llvm::StringRef(d.qname(rd)).starts_with("clang::")))
      d.recordDecl(rd);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ed) {
    if (d.inRoot(ed->getLocation()))
      d.enums.insert(ed);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred())
      return;
    Dumper d(ctx);
    Finder(d).TraverseDecl(ctx.getTranslationUnitDecl());
    while (!d.pending.empty()) {
      auto p = std::move(d.pending);
      d.pending.clear();
      for (const FunctionDecl *fd : p) {
        const FunctionDecl *def = fd->getDefinition();
        d.function(def ? def : fd);
      }
    }
    json::Object o;
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["globals"] = std::move(d.globalsJson);
    json::Object en;
    for (const EnumDecl *ed : d.enums) {
      const EnumDecl *def = ed->getDefinition();
      if (!def)
        continue;
      json::Array vals;
      for (const EnumConstantDecl *c : def->enumerators())
        vals.push_back(json::Array{c->getNameAsString(),
                                   llvm::toString(c->getInitVal(), 10)});
      en[d.qname(def)] = std::move(vals);
    }
    o["enums"] = std::move(en);
    json::Array ty;
    for (auto &t : d.types)
      ty.push_back(t);
    o["types"] = std::move(ty);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: astdump OUT ROOT FILE -- FLAGS\n";
    return 2;
  }
  g_out = argv[1];
  g_root = argv[2];
  std::string f = argv[3], err;
  int n = argc - 4;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(
      n, argv + 4, err);
  if (!db) {
    llvm::errs() << err;
    return 2;
  }
  tooling::ClangTool tool(*db, {f});
  tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster(
      {"-resource-dir", "/usr/lib/llvm-18/lib/clang/18"},
      tooling::ArgumentInsertPosition::BEGIN));
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
