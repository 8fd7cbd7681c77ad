// astdump: serialises the type-checked program (function bodies, records,
// globals) of one translation unit to JSON for the Python rules.
// usage: astdump FILE OUT.json ROOT -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/AST/ParentMapContext.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gOut;

struct Dumper {
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  std::unique_ptr<ASTNameGenerator> names;
  std::map<std::string, int> types;
  std::vector<std::string> typev;
  std::map<const Decl*, int> declids;
  std::map<std::string, int> files;
  std::vector<std::string> filev;

  Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()), names(new ASTNameGenerator(c)) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
  }

  int typeId(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(pp);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int id = (int)typev.size();
    types[s] = id;
    typev.push_back(s);
    return id;
  }
  int fileId(const std::string& f) {
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int id = (int)filev.size();
    files[f] = id;
    filev.push_back(f);
    return id;
  }
  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declids.find(d);
    if (it != declids.end()) return it->second;
    int id = (int)declids.size() + 1;
    declids[d] = id;
    return id;
  }
  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    return sm.getFilename(l).str();
  }
  int lineOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    return (int)sm.getExpansionLineNumber(l);
  }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    if (f.find(gRoot + "/src/") == 0) return true;
    if (f.find(gRoot + "/include/") == 0) return true;
    return false;
  }
  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    // template args of enclosing/own specialization are kept separately
    return os.str();
  }
  std::string targs(const FunctionDecl* f) {
    std::string s;
    if (auto* a = f->getTemplateSpecializationArgs()) {
      llvm::raw_string_ostream os(s);
      bool first = true;
      for (auto& x : a->asArray()) {
        if (!first) os << ", ";
        first = false;
        if (x.getKind() == TemplateArgument::Type) os << x.getAsType().getCanonicalType().getAsString(pp);
        else x.print(pp, os, true);
      }
      os.flush();
    }
    return s;
  }
  std::string mangled(const Decl* d) {
    if (auto* f = dyn_cast<FunctionDecl>(d)) {
      if (f->isDependentContext()) return "";
      if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        return names->getName(c) ;
    }
    return names->getName(d);
  }
  json::Value call_target(const FunctionDecl* f) {
    json::Object o;
    o["q"] = qname(f);
    std::string ta = targs(f);
    if (!ta.empty()) o["ta"] = ta;
    o["m"] = mangled(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = ctx.getTypeDeclType(m->getParent()).getCanonicalType().getAsString(pp);
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isStatic()) o["static"] = 1;
    }
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(typeId(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = typeId(f->getReturnType());
    if (f->isNoReturn()) o["noret"] = 1;
    if (auto* pt = f->getType()->getAs<FunctionProtoType>()) {
      auto est = pt->getExceptionSpecType();
      if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow) o["ne"] = 1;
    }
    return json::Value(std::move(o));
  }

  json::Value varDecl(const VarDecl* v) {
    json::Object o;
    o["n"] = v->getNameAsString();
    o["d"] = declId(v);
    o["t"] = typeId(v->getType());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getInit()) o["init"] = expr(v->getInit());
    return json::Value(std::move(o));
  }

  json::Value stmtOrNull(const Stmt* s) {
    if (!s) return nullptr;
    return stmt(s);
  }
  json::Value stmt(const Stmt* s) {
    if (auto* e = dyn_cast<Expr>(s)) return expr(e);
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        json::Array a;
        for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
        o["c"] = std::move(a);
        o["e"] = lineOf(s->getEndLoc());
        break;
      }
      case Stmt::NullStmtClass: o["k"] = "null_stmt"; break;
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls())
          if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
        o["v"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        o["k"] = "if";
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
        o["cond"] = expr(i->getCond());
        o["then"] = stmt(i->getThen());
        if (i->getElse()) o["else"] = stmt(i->getElse());
        break;
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        o["k"] = "for";
        if (f->getInit()) o["init"] = stmt(f->getInit());
        if (f->getCond()) o["cond"] = expr(f->getCond());
        if (f->getInc()) o["inc"] = expr(f->getInc());
        o["body"] = stmt(f->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        o["k"] = "rfor";
        o["var"] = varDecl(f->getLoopVariable());
        o["range"] = expr(f->getRangeInit());
        o["body"] = stmt(f->getBody());
        break;
      }
      case Stmt::WhileStmtClass: {
        auto* f = cast<WhileStmt>(s);
        o["k"] = "while";
        if (f->getConditionVariable()) o["var"] = varDecl(f->getConditionVariable());
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        break;
      }
      case Stmt::DoStmtClass: {
        auto* f = cast<DoStmt>(s);
        o["k"] = "do";
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        break;
      }
      case Stmt::SwitchStmtClass: {
        auto* f = cast<SwitchStmt>(s);
        o["k"] = "switch";
        o["cond"] = expr(f->getCond());
        o["body"] = stmt(f->getBody());
        if (f->isAllEnumCasesCovered()) o["allenum"] = 1;
        break;
      }
      case Stmt::CaseStmtClass: {
        auto* f = cast<CaseStmt>(s);
        o["k"] = "case";
        o["val"] = expr(f->getLHS());
        Expr::EvalResult r;
        if (!f->getLHS()->isValueDependent() && f->getLHS()->EvaluateAsInt(r, ctx)) o["ival"] = (int64_t)r.Val.getInt().getExtValue();
        o["body"] = stmt(f->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass: {
        o["k"] = "default";
        o["body"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
        break;
      }
      case Stmt::BreakStmtClass: o["k"] = "break"; break;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
      case Stmt::GotoStmtClass: o["k"] = "goto"; o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString(); break;
      case Stmt::LabelStmtClass: {
        json::Value v = stmt(cast<LabelStmt>(s)->getSubStmt());
        if (auto* vo = v.getAsObject()) (*vo)["label"] = cast<LabelStmt>(s)->getDecl()->getNameAsString();
        return v;
      }
      case Stmt::ReturnStmtClass: {
        o["k"] = "return";
        if (auto* v = cast<ReturnStmt>(s)->getRetValue()) o["v"] = expr(v);
        break;
      }
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["body"] = stmt(t->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < t->getNumHandlers(); i++) {
          auto* h = t->getHandler(i);
          json::Object ho;
          ho["l"] = lineOf(h->getBeginLoc());
          if (h->getExceptionDecl()) {
            ho["t"] = typeId(h->getExceptionDecl()->getType());
            ho["n"] = h->getExceptionDecl()->getNameAsString();
            ho["d"] = declId(h->getExceptionDecl());
          }
          ho["body"] = stmt(h->getHandlerBlock());
          hs.push_back(json::Value(std::move(ho)));
        }
        o["h"] = std::move(hs);
        break;
      }
      default: {
        o["k"] = std::string("S:") + s->getStmtClassName();
        json::Array a;
        for (auto* c : s->children()) if (c) a.push_back(stmt(c));
        o["c"] = std::move(a);
      }
    }
    return json::Value(std::move(o));
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto* e : r) a.push_back(expr(e));
    return a;
  }

  json::Value expr(const Expr* e0) {
    const Expr* e = e0;
    // strip value-preserving wrappers
    while (true) {
      if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
      if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
      if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        auto ck = p->getCastKind();
        if (ck == CK_IntegralCast || ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating || ck == CK_FloatingCast ||
            ck == CK_IntegralToBoolean || ck == CK_PointerToBoolean || ck == CK_FloatingToBoolean) break;
        e = p->getSubExpr(); continue;
      }
      if (auto* p = dyn_cast<CXXConstructExpr>(e)) {
        // elidable copies/moves are invisible
        if (p->isElidable() && p->getNumArgs() == 1) { e = p->getArg(0); continue; }
      }
      break;
    }
    json::Object o;
    o["l"] = lineOf(e->getExprLoc());
    if (!e->getType().isNull()) o["t"] = typeId(e->getType());
    switch (e->getStmtClass()) {
      case Stmt::ImplicitCastExprClass: {
        auto* c = cast<ImplicitCastExpr>(e);
        o["k"] = "icast";
        o["ck"] = c->getCastKindName();
        o["c"] = json::Array{expr(c->getSubExpr())};
        break;
      }
      case Stmt::IntegerLiteralClass: {
        auto v = cast<IntegerLiteral>(e)->getValue();
        o["k"] = "int";
        if (v.getActiveBits() <= 63) o["v"] = (int64_t)v.getZExtValue();
        else { llvm::SmallString<32> ss; v.toStringUnsigned(ss); o["v"] = std::string(ss.str()); }
        break;
      }
      case Stmt::FloatingLiteralClass: {
        o["k"] = "float";
        llvm::SmallString<32> ss;
        cast<FloatingLiteral>(e)->getValue().toString(ss);
        o["v"] = std::string(ss.str());
        break;
      }
      case Stmt::CharacterLiteralClass: o["k"] = "char"; o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue(); break;
      case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? 1 : 0; break;
      case Stmt::CXXNullPtrLiteralExprClass: o["k"] = "nullptr"; break;
      case Stmt::GNUNullExprClass: o["k"] = "nullptr"; break;
      case Stmt::StringLiteralClass: {
        o["k"] = "str";
        auto* s = cast<StringLiteral>(e);
        std::string v = s->isOrdinary() || s->isUTF8() ? s->getString().str() : std::string("?");
        if (!json::isUTF8(v)) v = json::fixUTF8(v);
        o["v"] = v;
        break;
      }
      case Stmt::CXXThisExprClass: o["k"] = "this"; break;
      case Stmt::DeclRefExprClass: {
        auto* d = cast<DeclRefExpr>(e)->getDecl();
        o["k"] = "ref";
        o["n"] = d->getNameAsString();
        o["d"] = declId(d);
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (isa<ParmVarDecl>(v)) o["dk"] = "parm";
          else if (v->hasGlobalStorage()) {
            o["dk"] = "global";
            o["q"] = qname(v);
          } else o["dk"] = "var";
          o["dt"] = typeId(v->getType());
        } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
          o["dk"] = "enum";
          o["q"] = qname(ec);
          o["v"] = (int64_t)ec->getInitVal().getExtValue();
        } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
          o["dk"] = "func";
          o["f"] = call_target(f);
        } else { o["dk"] = "other"; o["q"] = qname(d); }
        break;
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        o["k"] = "mem";
        o["n"] = m->getMemberDecl()->getNameAsString();
        o["q"] = qname(m->getMemberDecl());
        if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) o["f"] = call_target(f);
        if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl())) { (void)v; o["static"] = 1; }
        o["c"] = json::Array{expr(m->getBase())};
        break;
      }
      case Stmt::CXXMemberCallExprClass:
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c = cast<CallExpr>(e);
        o["k"] = "call";
        const FunctionDecl* f = c->getDirectCallee();
        if (f) o["f"] = call_target(f);
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
          if (mc->getImplicitObjectArgument()) {
            o["obj"] = expr(mc->getImplicitObjectArgument());
            if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts()))
              if (me->hasQualifier()) o["nonvirt"] = 1;
          }
          if (!f) o["fn"] = expr(c->getCallee());
        } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(c)) {
          o["op"] = getOperatorSpelling(oc->getOperator());
        } else if (!f) {
          o["fn"] = expr(c->getCallee());
        }
        o["c"] = args(c->arguments());
        break;
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        o["k"] = "ctor";
        o["f"] = call_target(c->getConstructor());
        if (c->getConstructor()->isCopyConstructor()) o["copy"] = 1;
        if (c->getConstructor()->isMoveConstructor()) o["move"] = 1;
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(expr(x));
        o["c"] = std::move(a);
        break;
      }
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        o["k"] = "new";
        o["at"] = typeId(n->getAllocatedType());
        if (n->isArray()) { o["arr"] = 1; if (n->getArraySize()) if (*n->getArraySize()) o["size"] = expr(*n->getArraySize()); }
        json::Array a;
        if (n->getInitializer()) a.push_back(expr(n->getInitializer()));
        o["c"] = std::move(a);
        break;
      }
      case Stmt::CXXDeleteExprClass: {
        o["k"] = "delete";
        o["arr"] = cast<CXXDeleteExpr>(e)->isArrayForm() ? 1 : 0;
        o["c"] = json::Array{expr(cast<CXXDeleteExpr>(e)->getArgument())};
        break;
      }
      case Stmt::CompoundAssignOperatorClass:
      case Stmt::BinaryOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        o["k"] = "bin";
        o["op"] = b->getOpcodeStr().str();
        o["c"] = json::Array{expr(b->getLHS()), expr(b->getRHS())};
        break;
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        o["k"] = "un";
        std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->getOpcode() == UO_PostInc || u->getOpcode() == UO_PostDec) op = "post" + op;
        o["op"] = op;
        o["c"] = json::Array{expr(u->getSubExpr())};
        break;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        o["k"] = "cond";
        o["c"] = json::Array{expr(c->getCond()), expr(c->getTrueExpr()), expr(c->getFalseExpr())};
        break;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* a = cast<ArraySubscriptExpr>(e);
        o["k"] = "sub";
        o["c"] = json::Array{expr(a->getBase()), expr(a->getIdx())};
        break;
      }
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXDynamicCastExprClass: {
        auto* c = cast<ExplicitCastExpr>(e);
        o["k"] = "cast";
        o["s"] = e->getStmtClassName();
        o["ck"] = c->getCastKindName();
        o["c"] = json::Array{expr(c->getSubExpr())};
        break;
      }
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        o["k"] = "lambda";
        json::Array caps;
        for (auto& c : l->captures()) {
          json::Object co;
          co["kind"] = c.getCaptureKind() == LCK_This ? "this" : (c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
          if (c.capturesVariable()) { co["n"] = c.getCapturedVar()->getNameAsString(); co["d"] = declId(c.getCapturedVar()); }
          caps.push_back(json::Value(std::move(co)));
        }
        o["caps"] = std::move(caps);
        json::Array ps;
        if (auto* op = l->getCallOperator()) {
          for (auto* p : op->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString(); po["d"] = declId(p); po["t"] = typeId(p->getType());
            ps.push_back(json::Value(std::move(po)));
          }
          o["rt"] = typeId(op->getReturnType());
          o["m"] = "";
        }
        o["ps"] = std::move(ps);
        o["body"] = stmt(l->getBody());
        break;
      }
      case Stmt::CXXThrowExprClass: {
        o["k"] = "throw";
        json::Array a;
        if (auto* s = cast<CXXThrowExpr>(e)->getSubExpr()) a.push_back(expr(s));
        o["c"] = std::move(a);
        break;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: {
        o["k"] = "sizeof";
        auto* u = cast<UnaryExprOrTypeTraitExpr>(e);
        o["at"] = typeId(u->getTypeOfArgument());
        Expr::EvalResult r;
        if (!u->isValueDependent() && u->EvaluateAsInt(r, ctx)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
        break;
      }
      case Stmt::InitListExprClass: {
        o["k"] = "init";
        json::Array a;
        for (auto* x : cast<InitListExpr>(e)->inits()) a.push_back(expr(x));
        o["c"] = std::move(a);
        break;
      }
      default: {
        o["k"] = std::string("E:") + e->getStmtClassName();
        json::Array a;
        for (auto* c : e->children()) if (c) a.push_back(stmt(c));
        o["c"] = std::move(a);
      }
    }
    return json::Value(std::move(o));
  }

  json::Value function(const FunctionDecl* f) {
    json::Object o;
    auto t = call_target(f);
    o = *t.getAsObject();
    o["d"] = declId(f);
    o["n"] = f->getNameAsString();
    o["file"] = fileId(fileOf(f->getLocation()));
    o["l"] = lineOf(f->getLocation());
    o["e"] = lineOf(f->getEndLoc());
    if (f->isExternC()) o["externc"] = 1;
    if (f->getStorageClass() == SC_Static) o["sc_static"] = 1;
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po;
      po["n"] = p->getNameAsString();
      po["d"] = declId(p);
      po["t"] = typeId(p->getType());
      ps.push_back(json::Value(std::move(po)));
    }
    o["ps"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      json::Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(mangled(x));
      if (!ov.empty()) o["ov"] = std::move(ov);
      if (m->getAccess() == AS_public) o["pub"] = 1;
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = 1;
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) io["field"] = qname(i->getMember());
        else if (i->isDelegatingInitializer()) io["deleg"] = 1;
        else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
        if (i->getInit()) io["v"] = expr(i->getInit());
        in.push_back(json::Value(std::move(io)));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    if (f->doesThisDeclarationHaveABody()) o["body"] = stmt(f->getBody());
    return json::Value(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Dumper& d;
  json::Array funcs, decls, recs, globals, enums;
  std::set<const FunctionDecl*> seen;
  std::set<const void*> seenRec;
  V(Dumper& dd) : d(dd) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (!d.inRoot(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isDefaulted() || f->isDeleted()) return true;
    if (f->doesThisDeclarationHaveABody() && !f->isLateTemplateParsed()) {
      if (!seen.insert(f).second) return true;
      funcs.push_back(d.function(f));
    } else if (!f->isThisDeclarationADefinition()) {
      if (f->isImplicit()) return true;
      if (f->getTemplateInstantiationPattern()) return true;
      decls.push_back(d.function(f));
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!d.inRoot(r->getLocation())) return true;
    if (!seenRec.insert(r).second) return true;
    json::Object o;
    o["q"] = d.qname(r);
    o["t"] = d.ctx.getTypeDeclType(r).getCanonicalType().getAsString(d.pp);
    o["file"] = d.fileId(d.fileOf(r->getLocation()));
    o["l"] = d.lineOf(r->getLocation());
    json::Array bs;
    for (auto& b : r->bases()) bs.push_back(b.getType().getCanonicalType().getAsString(d.pp));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = d.typeId(f->getType());
      if (f->isMutable()) fo["mutable"] = 1;
      if (f->getAccess() == AS_public) fo["pub"] = 1;
      fs.push_back(json::Value(std::move(fo)));
    }
    o["fields"] = std::move(fs);
    if (r->isAbstract()) o["abstract"] = 1;
    recs.push_back(json::Value(std::move(o)));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->getDeclContext()->isDependentContext()) return true;
    if (!d.inRoot(v->getLocation())) return true;
    json::Object o;
    o["q"] = d.qname(v);
    o["t"] = d.typeId(v->getType());
    o["file"] = d.fileId(d.fileOf(v->getLocation()));
    o["l"] = d.lineOf(v->getLocation());
    if (v->isStaticLocal()) o["local"] = 1;
    if (v->getType().isConstQualified() || v->isConstexpr()) o["const"] = 1;
    if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = d.expr(v->getInit());
    globals.push_back(json::Value(std::move(o)));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!d.inRoot(e->getLocation()) || !e->isThisDeclarationADefinition()) return true;
    json::Object o;
    o["q"] = d.qname(e);
    o["file"] = d.fileId(d.fileOf(e->getLocation()));
    o["l"] = d.lineOf(e->getLocation());
    json::Array a;
    for (auto* c : e->enumerators()) a.push_back(json::Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
    o["v"] = std::move(a);
    enums.push_back(json::Value(std::move(o)));
    return true;
  }
};

class C : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) { return; }
    Dumper d(ctx);
    V v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    o["funcs"] = std::move(v.funcs);
    o["decls"] = std::move(v.decls);
    o["recs"] = std::move(v.recs);
    o["globals"] = std::move(v.globals);
    o["enums"] = std::move(v.enums);
    json::Array ts;
    for (auto& t : d.typev) ts.push_back(t);
    o["types"] = std::move(ts);
    json::Array fs;
    for (auto& t : d.filev) fs.push_back(t);
    o["files"] = std::move(fs);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o));
  }
};
class A : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<C>(); }
};

int main(int argc, const char** argv) {
  if (argc < 4) { llvm::errs() << "usage\n"; return 2; }
  std::string file = argv[1];
  gOut = argv[2];
  gRoot = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) { if (std::string(argv[i]) == "--") continue; flags.push_back(argv[i]); }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<A>().get());
  return rc;
}
