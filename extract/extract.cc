// Typed-AST extractor: parses one translation unit with clang's own front end
// and writes every function defined in the repository (including template
// instantiations), every record layout and every resolved callee as JSON.
// The Python abstract interpreter works on that JSON only.
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

struct Emitter {
  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pp;
  std::map<const Type *, int> type_ids_ptr;
  std::map<std::string, int> type_ids;
  Array types;
  std::map<std::string, Value> functions;
  std::map<std::string, Value> records;
  std::map<std::string, Value> globals;
  std::map<std::string, Value> enums;
  std::set<std::string> queued;
  std::vector<const FunctionDecl *> fwork;
  std::vector<const CXXRecordDecl *> rwork;
  std::set<const CXXRecordDecl *> rseen;
  std::map<const Decl *, int> decl_ids;
  int next_decl = getenv("DECL_BASE") ? atoi(getenv("DECL_BASE")) : 1;

  explicit Emitter(ASTContext &c)
      : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.SuppressInlineNamespace = true;
    pp.Bool = true;
    pp.UseVoidForZeroParams = false;
    pp.PrintCanonicalTypes = true;
    pp.TerseOutput = true;
  }

  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = decl_ids.find(d);
    if (it != decl_ids.end()) return it->second;
    int id = next_decl++;
    decl_ids[d] = id;
    return id;
  }

  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  int lineOf(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return sm.getExpansionLineNumber(l);
  }
  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    for (auto &r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string typeStr(QualType t) {
    t = t.getCanonicalType();
    std::string s;
    llvm::raw_string_ostream os(s);
    t.print(os, pp);
    return os.str();
  }

  // Name without inline namespaces and without template arguments.
  std::string plainName(const NamedDecl *d) {
    std::vector<std::string> parts;
    auto nm = [&](const NamedDecl *n) -> std::string {
      if (isa<CXXConstructorDecl>(n)) return "(ctor)";
      if (isa<CXXDestructorDecl>(n)) return "(dtor)";
      if (isa<CXXConversionDecl>(n)) return "(conv)";
      if (auto *r = dyn_cast<CXXRecordDecl>(n))
        if (r->isLambda()) return "(lambda)";
      std::string s = n->getDeclName().getAsString();
      return s.empty() ? "(anon)" : s;
    };
    parts.push_back(nm(d));
    const DeclContext *dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
      } else if (auto *n = dyn_cast<NamedDecl>(dc)) {
        parts.push_back(nm(n));
      }
      dc = dc->getParent();
    }
    std::string s;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!s.empty()) s += "::";
      s += *it;
    }
    return s;
  }

  std::string recordName(const CXXRecordDecl *r) {
    QualType t = ctx.getRecordType(r);
    std::string s = typeStr(t);
    if (r->isLambda() || s.find("(lambda") != std::string::npos || s.find("(unnamed") != std::string::npos)
      s += "#" + std::to_string(declId(r));
    return s;
  }

  std::string funcId(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    std::string s;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      s = recordName(m->getParent()) + "::";
      if (isa<CXXConstructorDecl>(m)) s += "(ctor)";
      else if (isa<CXXDestructorDecl>(m)) s += "(dtor)";
      else s += m->getDeclName().getAsString();
    } else {
      s = plainName(f);
      if (!f->isExternallyVisible()) s += "@" + fileOf(f->getLocation());
    }
    if (auto *args = f->getTemplateSpecializationArgs()) {
      s += "<";
      bool first = true;
      for (auto &a : args->asArray()) {
        if (!first) s += ", ";
        first = false;
        llvm::raw_string_ostream os(s);
        a.print(pp, os, true);
      }
      s += ">";
    }
    s += "(";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += typeStr(p->getType());
    }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) s += " const";
    }
    return s;
  }

  int typeId(QualType qt) {
    if (qt.isNull()) return -1;
    QualType t = qt.getCanonicalType();
    std::string key = typeStr(t);
    if (auto *r = t->getAsCXXRecordDecl()) {
      if (r->isLambda()) key = recordName(r);
    }
    auto it = type_ids.find(key);
    if (it != type_ids.end()) return it->second;
    int id = types.size();
    type_ids[key] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = key;
    const Type *ty = t.getTypePtr();
    if (t.isConstQualified()) o["const"] = true;
    if (auto *b = dyn_cast<BuiltinType>(ty)) {
      if (b->getKind() == BuiltinType::Bool) {
        o["k"] = "bool";
        o["w"] = 8;
      } else if (b->isInteger()) {
        o["k"] = "int";
        o["w"] = (int64_t)ctx.getTypeSize(t);
        o["sg"] = b->isSignedInteger();
      } else if (b->isFloatingPoint()) {
        o["k"] = "float";
        o["w"] = (int64_t)ctx.getTypeSize(t);
      } else if (b->getKind() == BuiltinType::Void) {
        o["k"] = "void";
      } else if (b->getKind() == BuiltinType::NullPtr) {
        o["k"] = "nullptr";
      } else {
        o["k"] = "other";
      }
    } else if (auto *p = dyn_cast<PointerType>(ty)) {
      o["k"] = "ptr";
      o["to"] = typeId(p->getPointeeType());
    } else if (auto *p = dyn_cast<ReferenceType>(ty)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(ty);
      o["to"] = typeId(p->getPointeeType());
    } else if (auto *e = dyn_cast<EnumType>(ty)) {
      o["k"] = "enum";
      o["scoped"] = e->getDecl()->isScoped();
      QualType u = e->getDecl()->getIntegerType();
      if (!u.isNull()) {
        o["w"] = (int64_t)ctx.getTypeSize(u);
        o["sg"] = u->isSignedIntegerType();
      }
      emitEnum(e->getDecl());
    } else if (auto *a = dyn_cast<ConstantArrayType>(ty)) {
      o["k"] = "array";
      o["el"] = typeId(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    } else if (auto *a = dyn_cast<ArrayType>(ty)) {
      o["k"] = "array";
      o["el"] = typeId(a->getElementType());
    } else if (auto *r = dyn_cast<RecordType>(ty)) {
      o["k"] = "rec";
      if (auto *cr = dyn_cast<CXXRecordDecl>(r->getDecl())) {
        o["name"] = recordName(cr);
        o["plain"] = plainName(cr);
        bool repo = inRoots(cr->getLocation());
        o["repo"] = repo || cr->isLambda();
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(cr)) {
          Array ta;
          addTArgs(ta, sp->getTemplateArgs().asArray());
          o["ta"] = std::move(ta);
        }
        if (cr->hasDefinition()) {
          auto *def = cr->getDefinition();
          if (!def->isDependentType()) {
            if (!def->isInvalidDecl())
              o["size"] = (int64_t)ctx.getTypeSizeInChars(t).getQuantity();
            o["tcopy"] = def->isTriviallyCopyable();
            if (rseen.insert(def).second) rwork.push_back(def);
          }
        }
      }
    } else if (auto *fp = dyn_cast<FunctionProtoType>(ty)) {
      o["k"] = "func";
      o["ret"] = typeId(fp->getReturnType());
      Array ps;
      for (auto p : fp->param_types()) ps.push_back(typeId(p));
      o["ps"] = std::move(ps);
    } else if (isa<MemberPointerType>(ty)) {
      o["k"] = "memptr";
    } else {
      o["k"] = "other";
      o["cls"] = ty->getTypeClassName();
    }
    types[id] = std::move(o);
    return id;
  }

  void addTArgs(Array &ta, llvm::ArrayRef<TemplateArgument> args) {
    for (auto &a : args) {
      switch (a.getKind()) {
        case TemplateArgument::Type:
          ta.push_back(Object{{"t", typeId(a.getAsType())}});
          break;
        case TemplateArgument::Integral: {
          llvm::SmallString<32> s;
          a.getAsIntegral().toString(s, 10);
          ta.push_back(Object{{"v", s.str().str()}});
          break;
        }
        case TemplateArgument::Pack: {
          addTArgs(ta, a.pack_elements());
          break;
        }
        default:
          ta.push_back(Object{{"o", true}});
      }
    }
  }

  void emitEnum(const EnumDecl *e) {
    e = e->getDefinition() ? e->getDefinition() : e;
    std::string n = typeStr(ctx.getEnumType(e));
    if (enums.count(n)) return;
    Array vals;
    for (auto *c : e->enumerators()) {
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      vals.push_back(Array{c->getNameAsString(), s.str().str()});
    }
    enums.emplace(n, Value(std::move(vals)));
  }

  bool wantFunction(const FunctionDecl *f) {
    if (inRoots(f->getLocation())) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    return false;
  }

  void queueFunction(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def)) return;
    if (!def || def->isDependentContext()) return;
    if (!wantFunction(def)) return;
    std::string id = funcId(def);
    if (!queued.insert(id).second) return;
    fwork.push_back(def);
  }

  void drain() {
    while (!fwork.empty() || !rwork.empty()) {
      if (!rwork.empty()) {
        auto *r = rwork.back();
        rwork.pop_back();
        emitRecord(r);
        continue;
      }
      auto *f = fwork.back();
      fwork.pop_back();
      emitFunction(f);
    }
  }

  void emitRecord(const CXXRecordDecl *r) {
    std::string n = recordName(r);
    if (records.count(n)) return;
    bool repo = inRoots(r->getLocation()) || r->isLambda();
    Object o;
    o["name"] = n;
    o["plain"] = plainName(r);
    o["repo"] = repo;
    o["file"] = fileOf(r->getLocation());
    o["line"] = lineOf(r->getLocation());
    o["poly"] = r->isPolymorphic();
    o["abstract"] = r->isAbstract();
    o["union"] = r->isUnion();
    o["lambda"] = r->isLambda();
    records.emplace(n, Value(nullptr));
    Array bases;
    for (auto &b : r->bases()) {
      auto *bd = b.getType()->getAsCXXRecordDecl();
      if (!bd) continue;
      bases.push_back(Object{{"t", typeId(b.getType())}, {"name", recordName(bd)}, {"virt", b.isVirtual()}});
    }
    o["bases"] = std::move(bases);
    if (repo) {
      Array fields;
      for (auto *f : r->fields()) {
        Object fo;
        fo["name"] = f->getNameAsString().empty() ? ("(anon)" + std::to_string(f->getFieldIndex())) : f->getNameAsString();
        fo["t"] = typeId(f->getType());
        fo["acc"] = (int)f->getAccess();
        if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(ctx);
        if (f->hasInClassInitializer() && f->getInClassInitializer())
          fo["init"] = expr(f->getInClassInitializer());
        fields.push_back(std::move(fo));
      }
      o["fields"] = std::move(fields);
      Array methods;
      for (auto *m : r->methods()) {
        if (m->isDependentContext()) continue;
        methods.push_back(methodInfo(m));
        if (!m->isDeleted()) queueFunction(m);
      }
      o["methods"] = std::move(methods);
      const CXXDestructorDecl *dd = r->getDestructor();
      o["userdtor"] = r->hasUserDeclaredDestructor();
      o["trivdtor"] = r->hasTrivialDestructor();
      if (dd) {
        o["dtor"] = funcId(dd);
        o["dtorvirt"] = dd->isVirtual();
        const FunctionDecl *def = nullptr;
        o["dtordefaulted"] = dd->isDefaulted();
      }
      o["tcopy"] = r->isTriviallyCopyable();
      o["agg"] = r->isAggregate();
    }
    records.find(n)->second = Value(std::move(o));
  }

  Object methodInfo(const CXXMethodDecl *m) {
    Object o;
    o["id"] = funcId(m);
    o["name"] = isa<CXXConstructorDecl>(m) ? std::string("(ctor)") : isa<CXXDestructorDecl>(m) ? std::string("(dtor)") : m->getDeclName().getAsString();
    o["static"] = m->isStatic();
    o["virt"] = m->isVirtual();
    o["pure"] = m->isPureVirtual();
    o["const"] = m->isConst();
    o["acc"] = (int)m->getAccess();
    o["deleted"] = m->isDeleted();
    o["defaulted"] = m->isDefaulted();
    o["implicit"] = m->isImplicit();
    if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
      o["copy"] = c->isCopyConstructor();
      o["move"] = c->isMoveConstructor();
      if (auto *fp = c->getType()->getAs<FunctionProtoType>()) {
        auto es = fp->getExceptionSpecType();
        o["nx"] = es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow;
      }
    }
    Array ov;
    for (auto *b : m->overridden_methods()) ov.push_back(funcId(b));
    o["over"] = std::move(ov);
    o["np"] = (int64_t)m->getNumParams();
    Array ps;
    for (auto *p : m->parameters()) ps.push_back(typeId(p->getType()));
    o["pt"] = std::move(ps);
    addDefaults(o, m);
    o["ret"] = typeId(m->getReturnType());
    return o;
  }

  // default arguments of trailing parameters
  void addDefaults(Object &o, const FunctionDecl *f) {
    Array da;
    for (auto *p : f->parameters()) {
      if (!p->hasDefaultArg() || p->hasUninstantiatedDefaultArg() || p->hasUnparsedDefaultArg()) continue;
      const Expr *e = p->getDefaultArg();
      if (e == nullptr || e->isTypeDependent() || e->isValueDependent() || e->isInstantiationDependent()) continue;
      da.push_back(expr(e));
    }
    if (!da.empty()) o["da"] = std::move(da);
  }

  void emitFunction(const FunctionDecl *f) {
    std::string id = funcId(f);
    if (functions.count(id)) return;
    functions.emplace(id, Value(nullptr));
    Object o;
    o["id"] = id;
    o["name"] = plainName(f);
    o["file"] = fileOf(f->getLocation());
    o["line"] = lineOf(f->getLocation());
    o["ret"] = typeId(f->getReturnType());
    Array ps;
    for (auto *p : f->parameters())
      ps.push_back(Object{{"d", declId(p)}, {"n", p->getNameAsString()}, {"t", typeId(p->getType())}});
    o["params"] = std::move(ps);
    addDefaults(o, f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recordName(m->getParent());
      o["m"] = methodInfo(m);
      const CXXRecordDecl *def = m->getParent()->getDefinition();
      if (def && rseen.insert(def).second) rwork.push_back(def);
    }
    if (auto *args = f->getTemplateSpecializationArgs()) {
      Array ta;
      addTArgs(ta, args->asArray());
      o["ta"] = std::move(ta);
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      Array inits;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isBaseInitializer()) {
          io["k"] = "base";
          io["base"] = recordName(i->getBaseClass()->getAsCXXRecordDecl());
        } else if (i->isDelegatingInitializer()) {
          io["k"] = "deleg";
        } else if (i->isMemberInitializer()) {
          io["k"] = "field";
          io["f"] = i->getMember()->getNameAsString();
          io["ft"] = typeId(i->getMember()->getType());
        } else if (i->isIndirectMemberInitializer()) {
          io["k"] = "ifield";
          io["f"] = i->getAnyMember()->getNameAsString();
        }
        io["e"] = expr(i->getInit());
        io["l"] = lineOf(i->getSourceLocation());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    if (f->getBody()) o["body"] = stmt(f->getBody());
    functions.find(id)->second = Value(std::move(o));
  }

  Value stmtOrNull(const Stmt *s) {
    if (!s) return nullptr;
    return stmt(s);
  }

  Object varDecl(const VarDecl *v) {
    Object o;
    o["d"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto *b : dd->bindings()) {
        Object bo;
        bo["d"] = declId(b);
        bo["n"] = b->getNameAsString();
        if (auto *hv = b->getHoldingVar()) {
          bo["hv"] = varDecl(hv);
        } else if (b->getBinding()) {
          bo["e"] = expr(b->getBinding());
        }
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt *s) {
    Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto *x : c->body()) a.push_back(stmt(x));
      o["b"] = std::move(a);
      return o;
    }
    if (auto *d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      Array a;
      for (auto *x : d->decls())
        if (auto *v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *i = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["cv"] = varDecl(i->getConditionVariable());
      if (i->isConstexpr()) {
        bool b = false;
        if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsBooleanCondition(b, ctx))
          o["c"] = Object{{"k", "Bool"}, {"v", b}};
        else
          o["c"] = expr(i->getCond());
      } else {
        o["c"] = expr(i->getCond());
      }
      o["t"] = stmtOrNull(i->getThen());
      o["e"] = stmtOrNull(i->getElse());
      return o;
    }
    if (auto *w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
      return o;
    }
    if (auto *w = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
      return o;
    }
    if (auto *f = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      o["i"] = stmtOrNull(f->getInit());
      if (f->getConditionVariable()) o["cv"] = varDecl(f->getConditionVariable());
      o["c"] = f->getCond() ? Value(expr(f->getCond())) : Value(nullptr);
      o["u"] = f->getInc() ? Value(expr(f->getInc())) : Value(nullptr);
      o["b"] = stmt(f->getBody());
      return o;
    }
    if (auto *f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "ForRange";
      o["i"] = stmtOrNull(f->getInit());
      o["r"] = expr(f->getRangeInit());
      o["v"] = varDecl(f->getLoopVariable());
      o["b"] = stmt(f->getBody());
      return o;
    }
    if (auto *r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return";
      if (r->getRetValue()) o["e"] = expr(r->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "Break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "Continue";
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "Null";
      return o;
    }
    if (auto *w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (w->getInit()) o["init"] = stmt(w->getInit());
      if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
      return o;
    }
    if (auto *c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["e"] = expr(c->getLHS());
      o["b"] = stmt(c->getSubStmt());
      return o;
    }
    if (auto *c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["b"] = stmt(c->getSubStmt());
      return o;
    }
    if (auto *a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
    if (auto *e = dyn_cast<Expr>(s)) {
      o["k"] = "Expr";
      o["e"] = expr(e);
      return o;
    }
    o["k"] = "Unsupported";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }

  Object callee(const FunctionDecl *f) {
    Object o;
    o["n"] = plainName(f);
    o["id"] = funcId(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = true;
      o["static"] = m->isStatic();
      o["virt"] = m->isVirtual();
      o["const"] = m->isConst();
      o["cls"] = recordName(m->getParent());
      o["mn"] = isa<CXXConstructorDecl>(m) ? std::string("(ctor)") : isa<CXXDestructorDecl>(m) ? std::string("(dtor)") : isa<CXXConversionDecl>(m) ? std::string("(conv)") : m->getDeclName().getAsString();
    }
    if (auto *args = f->getTemplateSpecializationArgs()) {
      Array ta;
      addTArgs(ta, args->asArray());
      o["ta"] = std::move(ta);
    }
    if (f->isNoReturn()) o["noret"] = true;
    bool want = wantFunction(f);
    const FunctionDecl *def = nullptr;
    if (f->hasBody(def) && def) want = want || wantFunction(def);
    o["repo"] = want;
    Array pt;
    for (auto *p : f->parameters()) pt.push_back(typeId(p->getType()));
    o["pt"] = std::move(pt);
    o["ret"] = typeId(f->getReturnType());
    if (f->isVariadic()) o["va"] = true;
    if (want) queueFunction(f);
    return o;
  }

  Value expr(const Expr *e) {
    Object o;
    if (!e) return nullptr;
    // Constants.
    if (!e->isGLValue() && !e->isValueDependent() && !e->isTypeDependent() &&
        e->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["k"] = "Int";
        o["v"] = s.str().str();
        o["t"] = typeId(e->getType());
        return o;
      }
    }
    o["t"] = typeId(e->getType());
    o["l"] = lineOf(e->getExprLoc());
    if (e->isGLValue()) o["lv"] = e->isLValue() ? 1 : 2;
    if (auto *p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
    if (auto *p = dyn_cast<ExprWithCleanups>(e)) {
      o["k"] = "Cleanups";
      o["e"] = expr(p->getSubExpr());
      return o;
    }
    if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Mat";
      if (auto *ext = p->getExtendingDecl()) o["ext"] = declId(ext);
      o["e"] = expr(p->getSubExpr());
      return o;
    }
    if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) {
      o["k"] = "BindTemp";
      o["e"] = expr(p->getSubExpr());
      return o;
    }
    if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
    if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) return expr(p->getExpr());
    if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "StdInitList";
      o["e"] = expr(p->getSubExpr());
      return o;
    }
    if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(p->getSemanticForm());
    if (auto *p = dyn_cast<OpaqueValueExpr>(e)) {
      if (p->getSourceExpr()) return expr(p->getSourceExpr());
    }
    if (auto *p = dyn_cast<UserDefinedLiteral>(e)) {
      o["k"] = "Call";
      if (auto *fd = dyn_cast_or_null<FunctionDecl>(p->getCalleeDecl())) o["f"] = callee(fd);
      o["a"] = exprs(p->arguments());
      return o;
    }
    if (auto *p = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s;
      p->getValue().toString(s, 10, p->getType()->isSignedIntegerType());
      o["k"] = "Int";
      o["v"] = s.str().str();
      return o;
    }
    if (auto *p = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      o["v"] = p->getValueAsApproximateDouble();
      return o;
    }
    if (auto *p = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      if (p->getCharByteWidth() == 1) {
        std::string raw = p->getString().str();
        Array bytes;
        bool ascii = true;
        for (unsigned char c : raw)
          if (c >= 0x80 || c == 0) ascii = false;
        if (ascii) o["v"] = raw;
        else {
          for (unsigned char c : raw) bytes.push_back((int)c);
          o["bytes"] = std::move(bytes);
        }
      }
      return o;
    }
    if (auto *p = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "Str";
      o["v"] = "__func__";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "Zero";
      return o;
    }
    if (auto *p = dyn_cast<DeclRefExpr>(e)) {
      auto *d = p->getDecl();
      o["k"] = "Ref";
      o["d"] = declId(d);
      o["n"] = d->getNameAsString();
      if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "Fn";
        o["f"] = callee(fd);
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) {
          o["k"] = "Global";
          std::string gn = v->isStaticLocal() ? ("(static)" + plainName(v) + "#" + std::to_string(declId(v))) : plainName(v);
          if (auto *ctxr = dyn_cast<CXXRecordDecl>(v->getDeclContext())) gn = recordName(ctxr) + "::" + v->getNameAsString();
          o["g"] = gn;
          if (!globals.count(gn)) {
            globals.emplace(gn, Value(nullptr));
            Object go;
            go["t"] = typeId(v->getType());
            go["const"] = v->getType().isConstQualified() || v->isConstexpr();
            go["repo"] = inRoots(v->getLocation());
            const VarDecl *dv = nullptr;
            if (const Expr *in = v->getAnyInitializer(dv))
              if (!in->isValueDependent() && (inRoots(v->getLocation()))) go["init"] = expr(in);
            globals.find(gn)->second = Value(std::move(go));
          }
        }
      } else if (auto *b = dyn_cast<BindingDecl>(d)) {
        o["k"] = "Ref";
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["k"] = "Int";
        o["v"] = s.str().str();
      }
      return o;
    }
    if (auto *p = dyn_cast<MemberExpr>(e)) {
      auto *md = p->getMemberDecl();
      if (auto *f = dyn_cast<FieldDecl>(md)) {
        o["k"] = "Mem";
        o["f"] = f->getNameAsString().empty() ? ("(anon)" + std::to_string(f->getFieldIndex())) : f->getNameAsString();
        o["own"] = recordName(cast<CXXRecordDecl>(f->getParent()));
        o["arrow"] = p->isArrow();
        o["b"] = expr(p->getBase());
        return o;
      }
      if (auto *v = dyn_cast<VarDecl>(md)) {
        o["k"] = "Global";
        std::string gn = plainName(v);
        if (auto *ctxr = dyn_cast<CXXRecordDecl>(v->getDeclContext())) gn = recordName(ctxr) + "::" + v->getNameAsString();
        o["g"] = gn;
        return o;
      }
      if (auto *m = dyn_cast<CXXMethodDecl>(md)) {
        o["k"] = "MemFn";
        o["f"] = callee(m);
        o["arrow"] = p->isArrow();
        o["b"] = expr(p->getBase());
        return o;
      }
    }
    if (auto *p = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(p->getOperator());
      if (auto *fd = dyn_cast_or_null<FunctionDecl>(p->getCalleeDecl())) o["f"] = callee(fd);
      o["a"] = exprs(p->arguments());
      return o;
    }
    if (auto *p = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      auto *ce = p->getCallee()->IgnoreParens();
      if (auto *me = dyn_cast<MemberExpr>(ce)) {
        o["arrow"] = me->isArrow();
        o["o"] = expr(me->getBase());
        if (me->hasQualifier()) o["qual"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) o["f"] = callee(m);
      } else {
        o["ce"] = expr(ce);
      }
      o["a"] = exprs(p->arguments());
      return o;
    }
    if (auto *p = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      if (auto *fd = p->getDirectCallee()) o["f"] = callee(fd);
      else o["ce"] = expr(p->getCallee());
      o["a"] = exprs(p->arguments());
      return o;
    }
    if (auto *p = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor";
      o["f"] = callee(p->getConstructor());
      o["cls"] = recordName(p->getConstructor()->getParent());
      o["elid"] = p->isElidable();
      o["copy"] = p->getConstructor()->isCopyConstructor();
      o["move"] = p->getConstructor()->isMoveConstructor();
      o["dflt"] = p->getConstructor()->isDefaultConstructor();
      o["triv"] = p->getConstructor()->isTrivial();
      o["dfd"] = p->getConstructor()->isDefaulted();
      o["list"] = p->isListInitialization();
      o["il"] = p->isStdInitListInitialization();
      o["zi"] = p->requiresZeroInitialization();
      Array a;
      for (auto *x : p->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *p = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "InhCtor";
      o["f"] = callee(p->getConstructor());
      o["cls"] = recordName(p->getConstructor()->getParent());
      return o;
    }
    if (auto *p = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      o["at"] = typeId(p->getAllocatedType());
      o["arr"] = p->isArray();
      if (p->isArray() && p->getArraySize() && *p->getArraySize()) o["n"] = expr(*p->getArraySize());
      if (p->getInitializer()) o["e"] = expr(p->getInitializer());
      o["np"] = (int64_t)p->getNumPlacementArgs();
      return o;
    }
    if (auto *p = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete";
      o["arr"] = p->isArrayForm();
      o["e"] = expr(p->getArgument());
      return o;
    }
    if (auto *p = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
      o["post"] = p->isPostfix();
      o["e"] = expr(p->getSubExpr());
      return o;
    }
    if (auto *p = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "CAssign";
      std::string op = p->getOpcodeStr().str();
      o["op"] = op.substr(0, op.size() - 1);
      o["ct"] = typeId(p->getComputationResultType());
      o["lt"] = typeId(p->getComputationLHSType());
      o["L"] = expr(p->getLHS());
      o["R"] = expr(p->getRHS());
      return o;
    }
    if (auto *p = dyn_cast<BinaryOperator>(e)) {
      o["k"] = p->getOpcode() == BO_Assign ? "Assign" : "Bin";
      o["op"] = p->getOpcodeStr().str();
      o["L"] = expr(p->getLHS());
      o["R"] = expr(p->getRHS());
      return o;
    }
    if (auto *p = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = expr(p->getCond());
      o["x"] = expr(p->getTrueExpr());
      o["y"] = expr(p->getFalseExpr());
      return o;
    }
    if (auto *p = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "Unsupported";
      o["cls"] = "BinaryConditionalOperator";
      return o;
    }
    if (auto *p = dyn_cast<CastExpr>(e)) {
      o["k"] = "Cast";
      o["ck"] = p->getCastKindName();
      if (isa<CXXDynamicCastExpr>(p)) o["dyn"] = true;
      if (isa<CXXReinterpretCastExpr>(p)) o["reint"] = true;
      if (isa<ExplicitCastExpr>(p)) o["exp"] = true;
      o["e"] = expr(p->getSubExpr());
      if (p->getCastKind() == CK_UserDefinedConversion)
        if (auto *cf = dyn_cast_or_null<FunctionDecl>(p->getConversionFunction())) o["f"] = callee(cf);
      return o;
    }
    if (auto *p = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Idx";
      o["b"] = expr(p->getBase());
      o["i"] = expr(p->getIdx());
      return o;
    }
    if (auto *p = dyn_cast<InitListExpr>(e)) {
      if (!p->isSemanticForm() && p->getSemanticForm()) p = p->getSemanticForm();
      o["k"] = "InitList";
      Array a;
      for (auto *x : p->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      if (p->hasArrayFiller()) o["fill"] = expr(p->getArrayFiller());
      if (auto *r = p->getType()->getAsCXXRecordDecl()) o["cls"] = recordName(r);
      return o;
    }
    if (auto *p = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      o["cls"] = recordName(p->getLambdaClass());
      Array caps;
      auto fi = p->getLambdaClass()->field_begin();
      auto ii = p->capture_init_begin();
      for (auto &c : p->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["k"] = c.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        } else if (c.capturesVariable()) {
          co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          co["d"] = declId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["t"] = typeId(c.getCapturedVar()->getType());
        }
        if (*ii) co["init"] = expr(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      if (auto *op = p->getCallOperator()) {
        o["f"] = funcId(op);
        if (!p->isGenericLambda()) queueFunction(op);
        else o["generic"] = true;
      }
      if (rseen.insert(p->getLambdaClass()).second) rwork.push_back(p->getLambdaClass());
      return o;
    }
    if (auto *p = dyn_cast<CXXTypeidExpr>(e)) {
      o["k"] = "Typeid";
      return o;
    }
    if (auto *p = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      return o;
    }
    if (auto *p = dyn_cast<StmtExpr>(e)) {
      o["k"] = "StmtExpr";
      o["b"] = stmt(p->getSubStmt());
      return o;
    }
    if (auto *p = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "ArrCopy";
      o["e"] = expr(p->getCommonExpr()->getSourceExpr());
      return o;
    }
    o["k"] = "Unsupported";
    o["cls"] = e->getStmtClassName();
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Emitter &e) : em(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext()) return true;
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (!em.wantFunction(f)) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    em.queueFunction(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isDependentContext() || !r->isThisDeclarationADefinition()) return true;
    if (!em.inRoots(r->getLocation())) return true;
    if (r->isLambda()) return true;
    if (em.rseen.insert(r).second) em.rwork.push_back(r);
    return true;
  }
  Emitter &em;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Emitter em(ctx);
    Visitor v(em);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    em.drain();
    Object out;
    out["errors"] = (int64_t)ctx.getDiagnostics().getClient()->getNumErrors();
    out["types"] = std::move(em.types);
    Object fo, ro, go, eo;
    for (auto &[k, val] : em.functions) fo[k] = std::move(val);
    for (auto &[k, val] : em.records) ro[k] = std::move(val);
    for (auto &[k, val] : em.globals) go[k] = std::move(val);
    for (auto &[k, val] : em.enums) eo[k] = std::move(val);
    out["functions"] = std::move(fo);
    out["records"] = std::move(ro);
    out["globals"] = std::move(go);
    out["enums"] = std::move(eo);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(out));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// usage: extract OUT.json root1,root2 SOURCE -- flags...
int main(int argc, char **argv) {
  if (argc < 5) return 3;
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = roots.find(',', p);
    g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
