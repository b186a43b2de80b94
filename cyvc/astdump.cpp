// astdump: dump the resolved clang AST of every function *defined under a given
// source root* (including template instantiations, constructors and
// destructors) as compact JSON.  This is the only "extraction" step of the
// verifier: it is run on the real translation units on every check.
//
// usage: astdump ROOT OUT.json -- clang-args... file.cc
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot, gOut;

class Dumper {
 public:
  Dumper(ASTContext& c) : ctx(c), pol(c.getPrintingPolicy()) {
    pol.SuppressTagKeyword = true;
    pol.FullyQualifiedName = true;
    pol.SuppressInlineNamespace = true;
    pol.SuppressUnwrittenScope = true;
    pol.PrintCanonicalTypes = true;
    pol.Bool = true;
  }
  ASTContext& ctx;
  PrintingPolicy pol;
  Array types;
  std::map<std::string, int> typeIdx;
  Object functions, classes;
  std::set<const CXXRecordDecl*> seenCls;
  std::map<const Decl*, int> declIds;
  std::string curFn;

  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[d] = n;
    return n;
  }

  std::string tstr(QualType t) { return t.getCanonicalType().getUnqualifiedType().getAsString(pol); }

  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol);
    return os.str();
  }
  // qualified name with template arguments of enclosing classes
  std::string qnameT(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, pol, true);
    return os.str();
  }
  std::string clsName(const CXXRecordDecl* r) { return tstr(ctx.getRecordType(r)); }

  std::string fkey(const FunctionDecl* f) {
    std::string s = qnameT(f);
    // constructors / destructors / operators print fine; normalise class part
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      std::string base = f->getNameInfo().getAsString();
      if (isa<CXXConstructorDecl>(m)) base = "(ctor)";
      if (isa<CXXDestructorDecl>(m)) base = "(dtor)";
      s = clsName(m->getParent()) + "::" + base;
      if (auto* ta = f->getTemplateSpecializationArgs()) {
        std::string t;
        llvm::raw_string_ostream os(t);
        printTemplateArgumentList(os, ta->asArray(), pol);
        s += os.str();
      }
    }
    s += "(";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) s += ",";
      first = false;
      s += tstrCV(p->getType());
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) s += " const";
    return s;
  }
  std::string tstrCV(QualType t) { return t.getCanonicalType().getAsString(pol); }

  int type(QualType q) {
    QualType t = q.getCanonicalType().getUnqualifiedType();
    std::string key = t.getAsString(pol);
    // lvalue vs rvalue refs are distinguished by the string
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int id = types.size();
    typeIdx[key] = id;
    types.push_back(Object{});
    Object o;
    o["s"] = key;
    const Type* ty = t.getTypePtr();
    if (auto* bt = dyn_cast<BuiltinType>(ty)) {
      o["k"] = "b";
      o["n"] = key;
    } else if (auto* pt = dyn_cast<PointerType>(ty)) {
      o["k"] = "p";
      o["to"] = type(pt->getPointeeType());
    } else if (auto* rt = dyn_cast<ReferenceType>(ty)) {
      o["k"] = "r";
      o["to"] = type(rt->getPointeeType());
    } else if (auto* et = dyn_cast<EnumType>(ty)) {
      o["k"] = "e";
      o["n"] = key;
    } else if (auto* at = dyn_cast<ConstantArrayType>(ty)) {
      o["k"] = "a";
      o["to"] = type(at->getElementType());
      o["len"] = (int64_t)at->getSize().getZExtValue();
    } else if (auto* rec = dyn_cast<RecordType>(ty)) {
      o["k"] = "c";
      const auto* rd = dyn_cast<CXXRecordDecl>(rec->getDecl());
      if (rd) {
        std::string nm = qname(rd);
        o["n"] = nm;
        if (rd->isLambda()) o["lambda"] = true;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
          Array a;
          for (auto& ta : sp->getTemplateArgs().asArray()) addTArg(a, ta);
          o["a"] = std::move(a);
        } else if (auto* dc = dyn_cast<ClassTemplateSpecializationDecl>(rd->getDeclContext())) {
          Array a;
          for (auto& ta : dc->getTemplateArgs().asArray()) addTArg(a, ta);
          o["oa"] = std::move(a);
        }
        cls(rd);
      }
    } else {
      o["k"] = "o";
    }
    types[id] = std::move(o);
    return id;
  }
  void addTArg(Array& a, const TemplateArgument& ta) {
    switch (ta.getKind()) {
      case TemplateArgument::Type: a.push_back(type(ta.getAsType())); break;
      case TemplateArgument::Pack:
        for (auto& x : ta.pack_elements()) addTArg(a, x);
        break;
      case TemplateArgument::Integral: {
        Object o;
        llvm::SmallString<16> s;
        ta.getAsIntegral().toString(s, 10);
        o["int"] = s.str().str();
        a.push_back(std::move(o));
        break;
      }
      default: a.push_back(nullptr);
    }
  }

  bool inRoot(SourceLocation l) {
    auto& sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.starts_with(gRoot);
  }
  Object loc(SourceLocation l) {
    auto& sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    Object o;
    auto f = sm.getFilename(l);
    o["f"] = f.str();
    o["l"] = (int64_t)sm.getExpansionLineNumber(l);
    return o;
  }
  int64_t line(SourceLocation l) { return ctx.getSourceManager().getExpansionLineNumber(l); }

  void cls(const CXXRecordDecl* r) {
    r = r->getDefinition();
    if (!r || !seenCls.insert(r).second) return;
    if (r->isDependentContext()) return;
    SourceLocation at = r->getLocation();
    // an explicit instantiation lies in the driver, its template in the tree
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) at = sp->getSpecializedTemplate()->getLocation();
    if (!inRoot(at)) return;
    Object o;
    Array fs;
    for (auto* f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    Array bs;
    for (auto& b : r->bases()) {
      if (auto* br = b.getType()->getAsCXXRecordDecl()) {
        bs.push_back(clsName(br));
        cls(br);
      }
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["poly"] = r->isPolymorphic();
    classes[clsName(r)] = std::move(o);
  }

  Value callee(const FunctionDecl* f, Object& o) {
    o["fn"] = fkey(f);
    o["qn"] = qname(f);
    const FunctionDecl* def = nullptr;
    o["hasdef"] = f->hasBody(def);
    o["inroot"] = inRoot(f->getLocation());
    if (f->getReturnType()->isReferenceType()) o["retref"] = true;
    Array pr;
    for (auto* p : f->parameters()) pr.push_back(type(p->getType()));
    o["pt"] = std::move(pr);
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto& x : ta->asArray()) addTArg(a, x);
      o["ta"] = std::move(a);
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = clsName(m->getParent());
      o["ct"] = type(ctx.getRecordType(m->getParent()));
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
    }
    return nullptr;
  }

  Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto* e : r) a.push_back(expr(e));
    return a;
  }

  Object base(const char* k, const Expr* e) {
    Object o;
    o["k"] = k;
    o["t"] = type(e->getType());
    if (e->isLValue()) o["lv"] = true;
    o["l"] = line(e->getBeginLoc());
    return o;
  }

  Value expr(const Expr* e) {
    if (!e) return nullptr;
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      Object o = base("mat", e);
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      Object o = base("int", e);
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      Object o = base("int", e);
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      Object o = base("flt", e);
      llvm::SmallString<64> s;
      char buf[64];
      llvm::APFloat v = x->getValue();
      bool li;
      v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      snprintf(buf, 64, "%.17g", v.convertToDouble());
      o["v"] = std::string(buf);
      // decimal text as written, for the exact-real reading
      auto& sm = ctx.getSourceManager();
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      Object o = base("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e) || isa<ImplicitValueInitExpr>(e) ||
        isa<CXXScalarValueInitExpr>(e)) {
      return base("zero", e);
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      Object o = base("str", e);
      std::string b;
      if (x->getCharByteWidth() == 1) b = x->getString().str();
      for (auto& c : b) if ((unsigned char)c >= 128) c = '?';
      o["v"] = b;
      return o;
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) {
      Object o = base("str", e);
      o["v"] = "__func__";
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      Object o = base("ref", e);
      o["n"] = d->getNameAsString();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        o["en"] = qname(ec);
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fref";
        callee(f, o);
        return o;
      }
      o["id"] = declId(d);
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
          o["d"] = "l";
        } else {
          o["d"] = "g";
          o["qn"] = v->isStaticLocal() ? (curFn + "::" + v->getNameAsString()) : qnameT(v);
          const VarDecl* dv = nullptr;
          if (v->getType().isConstQualified()) {
            const Expr* init = v->getAnyInitializer(dv);
            if (init && !init->isValueDependent()) {
              o["const"] = true;
              Expr::EvalResult r;
              if (init->EvaluateAsRValue(r, ctx)) {
                if (r.Val.isInt()) {
                  llvm::SmallString<32> s;
                  r.Val.getInt().toString(s, 10);
                  o["cv"] = s.str().str();
                } else if (r.Val.isFloat()) {
                  char buf[64];
                  llvm::APFloat fv = r.Val.getFloat();
                  bool li;
                  fv.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
                  snprintf(buf, 64, "%.17g", fv.convertToDouble());
                  o["cv"] = std::string(buf);
                }
              }
              if (!o.get("cv")) o["ci"] = expr(init);
            }
          }
        }
      } else {
        o["d"] = "?";
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        Object o = base("ref", e);
        o["n"] = d->getNameAsString();
        o["id"] = declId(d);
        o["d"] = "g";
        o["qn"] = qnameT(v);
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        Object o = base("mref", e);
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        callee(f, o);
        return o;
      }
      Object o = base("mem", e);
      o["n"] = d->getNameAsString();
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        if (auto* r = dyn_cast<CXXRecordDecl>(fd->getParent())) {
          o["cls"] = clsName(r);
          cls(r);
        }
      }
      o["b"] = expr(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
      return o;
    }
    if (isa<CXXThisExpr>(e)) return base("this", e);
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      Object o = base("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      Object o = base("cas", e);
      std::string op = x->getOpcodeStr().str();
      o["op"] = op.substr(0, op.size() - 1);
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationLHSType());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      Object o = base("bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      Object o = base("cond", e);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = base("call", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) callee(f, o);
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = base("mcall", e);
      if (auto* f = x->getMethodDecl()) callee(f, o);
      o["obj"] = expr(x->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["arrow"] = me->isArrow();
        if (me->hasQualifier()) o["qual"] = true;
      }
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      Object o = base("call", e);
      if (auto* f = x->getDirectCallee()) callee(f, o);
      else o["ce"] = expr(x->getCallee());
      o["args"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      Object o = base("ctor", e);
      auto* c = x->getConstructor();
      callee(c, o);
      if (c->isCopyConstructor()) o["copy"] = true;
      if (c->isMoveConstructor()) o["move"] = true;
      if (c->isDefaultConstructor()) o["dflt"] = true;
      if (c->isImplicit() || c->isDefaulted()) o["implicit"] = true;
      if (x->isListInitialization()) o["list"] = true;
      Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["args"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Object o = base("new", e);
      o["at"] = type(x->getAllocatedType());
      o["init"] = expr(x->getInitializer());
      if (x->isArray()) o["array"] = true;
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      Object o = base("delete", e);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      Object o = base("cast", e);
      o["ck"] = x->getCastKindName();
      if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      Object o = base("list", e);
      Array a;
      for (auto* i : x->inits()) a.push_back(expr(i));
      o["args"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      Object o = base("throw", e);
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      Object o = base("idx", e);
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Object o = base("int", e);
      Expr::EvalResult r;
      if (x->EvaluateAsRValue(r, ctx) && r.Val.isInt()) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      Object o = base("lambda", e);
      Array caps;
      auto ci = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = declId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (ci != x->capture_init_end()) co["init"] = expr(*ci);
        }
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      Array ps;
      for (auto* p : x->getCallOperator()->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      o["body"] = stmt(x->getBody());
      o["rt"] = type(x->getCallOperator()->getReturnType());
      return o;
    }
    // constant-foldable leftovers (type traits etc.)
    Object o = base("unsup", e);
    o["c"] = e->getStmtClassName();
    return o;
  }

  Object param(const ParmVarDecl* p) {
    Object o;
    o["n"] = p->getNameAsString();
    o["id"] = declId(p);
    o["t"] = type(p->getType());
    return o;
  }

  Object vardecl(const VarDecl* v) {
    Object o;
    o["n"] = v->getNameAsString();
    o["id"] = declId(v);
    o["t"] = type(v->getType());
    if (v->isStaticLocal()) {
      o["static"] = true;
      o["qn"] = curFn + "::" + v->getNameAsString();
    }
    if (v->getInit()) o["i"] = expr(v->getInit());
    return o;
  }

  Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      Array a;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      }
      o["v"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["r"] = expr(x->getRangeInit());
      o["var"] = vardecl(x->getLoopVariable());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* h = x->getHandler(i);
        Object ho;
        if (h->getExceptionDecl()) {
          ho["t"] = type(h->getCaughtType());
          ho["v"] = vardecl(h->getExceptionDecl());
        }
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto* x = dyn_cast<OMPExecutableDirective>(s)) return stmt(x->getInnermostCapturedStmt()->getCapturedStmt());
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(x);
      return o;
    }
    o["k"] = "unsup";
    o["c"] = s->getStmtClassName();
    return o;
  }

  void function(const FunctionDecl* f) {
    if (f->isDependentContext()) return;
    if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted())) return;
    if (!inRoot(f->getLocation())) return;
    if (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda()) return;
    std::string key = fkey(f);
    if (functions.get(key)) return;
    curFn = qname(f);
    Object o;
    o["qn"] = qname(f);
    o["loc"] = loc(f->getLocation());
    o["end"] = line(f->getEndLoc());
    Array ps;
    for (auto* p : f->parameters()) ps.push_back(param(p));
    o["params"] = std::move(ps);
    o["rt"] = type(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = clsName(m->getParent());
      o["ct"] = type(ctx.getRecordType(m->getParent()));
      cls(m->getParent());
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["isctor"] = true;
      if (c->isCopyConstructor()) o["copy"] = true;
      Array is;
      for (auto* i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer()) {
          io["f"] = i->getAnyMember()->getNameAsString();
          io["t"] = type(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer()) {
          io["base"] = tstr(QualType(i->getBaseClass(), 0));
        } else io["deleg"] = true;
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->getBody()) o["body"] = stmt(f->getBody());
    else o["defaulted"] = true;
    functions[key] = std::move(o);
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Dumper d;
  V(ASTContext& c) : d(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) { d.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (r->isThisDeclarationADefinition()) d.cls(r);
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    V v(c);
    v.TraverseDecl(c.getTranslationUnitDecl());
    Object o;
    o["types"] = std::move(v.d.types);
    o["functions"] = std::move(v.d.functions);
    o["classes"] = std::move(v.d.classes);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  gRoot = argv[1];
  gOut = argv[2];
  std::vector<std::string> a;
  std::string file;
  for (int i = 4; i < argc - 1; i++) a.push_back(argv[i]);
  file = argv[argc - 1];
  tooling::FixedCompilationDatabase db(".", a);
  tooling::ClangTool t(db, {file});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
