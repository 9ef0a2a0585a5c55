// kx: fact extractor for the KaMinPar static checks.
//
// Parses one translation unit with clang and prints the type-checked program
// as JSON lines: functions (with syntax tree and control-flow graph), records,
// enumerations and globals that are defined under the repository root.
// Templates are reported as their instantiations; a pattern without any
// instantiation in the unit is reported as it is ("dep").
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
using llvm::json::OStream;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("kx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::init("/repo/"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string>
    Files("files", llvm::cl::init("^(kaminpar|apps/|examples/|probe/)"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root2("root2", llvm::cl::init(""), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("out", llvm::cl::init("-"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string>
    Map("map", llvm::cl::desc("FILE=CONTENT: read CONTENT wherever FILE is included"), llvm::cl::cat(Cat));
static llvm::cl::opt<bool> NoCFG("no-cfg", llvm::cl::init(false), llvm::cl::cat(Cat));
static llvm::cl::opt<unsigned> MaxInst("max-inst", llvm::cl::init(0), llvm::cl::cat(Cat));

namespace {

struct Ctx {
  ASTContext &ac;
  SourceManager &sm;
  const LangOptions &lo;
  PrintingPolicy pp;
  llvm::raw_ostream &os;
  llvm::Regex re;
  std::unordered_map<std::string, int> strs;
  std::vector<std::string> strv;
  std::unordered_map<const Decl *, int> declIds;
  std::map<std::string, unsigned> instCount;

  Ctx(ASTContext &ac, llvm::raw_ostream &os)
      : ac(ac), sm(ac.getSourceManager()), lo(ac.getLangOpts()), pp(ac.getLangOpts()), os(os),
        re(Files) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
  }
  int str(const std::string &s) {
    auto it = strs.find(s);
    if (it != strs.end())
      return it->second;
    int id = strv.size();
    strs.emplace(s, id);
    strv.push_back(s);
    return id;
  }
  int did(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end())
      return it->second;
    int id = declIds.size() + 1;
    declIds[d] = id;
    return id;
  }
  std::unordered_map<unsigned, std::string> relCache;
  std::string relFile(SourceLocation loc) {
    loc = sm.getExpansionLoc(loc);
    if (loc.isInvalid())
      return "";
    FileID fid = sm.getFileID(loc);
    auto key = fid.getHashValue();
    auto it = relCache.find(key);
    if (it != relCache.end())
      return it->second;
    std::string fn = sm.getFilename(loc).str();
    // normalise
    llvm::SmallString<256> p(fn);
    llvm::sys::path::remove_dots(p, true);
    std::string r = std::string(p.str());
    std::string res;
    if (r.rfind(Root, 0) == 0)
      res = r.substr(Root.size());
    else if (!Root2.empty() && r.rfind(Root2, 0) == 0)
      res = "probe/" + r.substr(Root2.size());
    else
      res = "";
    relCache[key] = res;
    return res;
  }
  bool inRepo(SourceLocation loc) {
    std::string f = relFile(loc);
    return !f.empty() && re.match(f) && f.find("CLI11") == std::string::npos;
  }
  unsigned line(SourceLocation loc) { return sm.getExpansionLineNumber(loc); }
  unsigned col(SourceLocation loc) { return sm.getExpansionColumnNumber(loc); }
  std::string ty(QualType t) {
    if (t.isNull())
      return "";
    return t.getCanonicalType().getAsString(pp);
  }
  std::string sugar(QualType t) {
    if (t.isNull())
      return "";
    return t.getAsString(pp);
  }
  std::string usr(const Decl *d) {
    llvm::SmallString<256> b;
    // the definition may declare by-value parameters const, unlike the first declaration
    if (auto *fd = dyn_cast_or_null<FunctionDecl>(d))
      d = fd->getCanonicalDecl();
    if (index::generateUSRForDecl(d, b))
      return "";
    return std::string(b.str());
  }
};

// Qualified name without template arguments.
static std::string qname(const NamedDecl *d) {
  std::string r = d->getNameAsString();
  if (auto *c = dyn_cast<CXXConstructorDecl>(d))
    r = c->getParent()->getNameAsString();
  else if (auto *c = dyn_cast<CXXDestructorDecl>(d))
    r = "~" + c->getParent()->getNameAsString();
  if (isa<ParmVarDecl>(d))
    return r;
  for (const DeclContext *dc = d->getDeclContext(); dc && !dc->isTranslationUnit();
       dc = dc->getParent()) {
    if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
      if (ns->isInline())
        continue;
      r = (ns->isAnonymousNamespace() ? std::string("(anon)") : ns->getNameAsString()) + "::" + r;
    } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
      r = (rd->getNameAsString().empty() ? std::string("(anon)") : rd->getNameAsString()) + "::" + r;
    } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
      r = fd->getNameAsString() + "()::" + r;
    } else if (auto *ed = dyn_cast<EnumDecl>(dc)) {
      r = ed->getNameAsString() + "::" + r;
    }
  }
  return r;
}

struct Ser {
  Ctx &c;
  OStream &j;
  std::string file;
  int next = 1;
  std::unordered_map<const Stmt *, int> ids;
  std::vector<const LambdaExpr *> lambdas;

  Ser(Ctx &c, OStream &j, std::string file) : c(c), j(j), file(std::move(file)) {}

  void loc(const Stmt *s) {
    SourceLocation b = s->getBeginLoc();
    if (b.isInvalid())
      return;
    // prefer operator/paren location for calls: begin is fine
    j.attribute("l", c.line(b));
    std::string f = c.relFile(b);
    if (f != file)
      j.attribute("f", f);
    if (b.isMacroID()) {
      // names of the macros this came out of, outermost first
      SourceLocation l = b;
      std::vector<std::string> names;
      int guard = 0;
      while (l.isMacroID() && guard++ < 20) {
        StringRef n = Lexer::getImmediateMacroName(l, c.sm, c.lo);
        bool arg = c.sm.isMacroArgExpansion(l);
        names.push_back((arg ? "@" : "") + n.str());
        l = c.sm.getImmediateExpansionRange(l).getBegin();
      }
      std::string m;
      for (auto it = names.rbegin(); it != names.rend(); ++it)
        m += (m.empty() ? "" : ">") + *it;
      j.attribute("m", c.str(m));
    }
  }

  const Stmt *skip(const Stmt *s) {
    while (s) {
      if (auto *e = dyn_cast<ImplicitCastExpr>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<ParenExpr>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<ExprWithCleanups>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<ConstantExpr>(s))
        s = e->getSubExpr();
      else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
        s = e->getReplacement();
      else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s))
        return s;
      else if (auto *e = dyn_cast<AttributedStmt>(s))
        s = e->getSubStmt();
      else if (auto *e = dyn_cast<OpaqueValueExpr>(s))
        s = e->getSourceExpr();
      else
        break;
    }
    return s;
  }
  int idOf(const Stmt *s) {
    if (!s)
      return -1;
    auto it = ids.find(s);
    if (it != ids.end())
      return it->second;
    const Stmt *k = skip(s);
    it = ids.find(k);
    if (it != ids.end())
      return it->second;
    return -1;
  }

  void kids(std::initializer_list<const Stmt *> l) {
    j.attributeArray("c", [&] {
      for (auto *s : l)
        node(s);
    });
  }
  template <class R> void kidsR(R &&r) {
    j.attributeArray("c", [&] {
      for (auto *s : r)
        node(s);
    });
  }

  void fnref(const FunctionDecl *fd) {
    if (!fd)
      return;
    j.attribute("fn", c.str(qname(fd)));
    j.attribute("u", c.str(c.usr(fd)));
    if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      if (m->isVirtual())
        j.attribute("virt", 1);
      if (m->isConst())
        j.attribute("cst", 1);
      if (m->isStatic())
        j.attribute("stat", 1);
    }
    bool nr = fd->isNoReturn();
    if (nr)
      j.attribute("noret", 1);
    if (auto *args = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream o(s);
      bool first = true;
      for (auto &a : args->asArray()) {
        if (!first)
          o << ", ";
        first = false;
        a.print(c.pp, o, true);
      }
      o.flush();
      if (s.size() < 4000)
        j.attribute("ta", c.str(s));
    }
    // which parameters are non-const references / pointers
    std::string pk;
    for (auto *p : fd->parameters()) {
      QualType t = p->getType();
      if (t->isRValueReferenceType())
        pk += 'x';
      else if (t->isLValueReferenceType())
        pk += t->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (t->isPointerType())
        pk += t->getPointeeType().isConstQualified() ? 'q' : 'p';
      else
        pk += 'v';
    }
    if (!pk.empty())
      j.attribute("pk", pk);
  }

  void varDecl(const VarDecl *v) {
    j.object([&] {
      int id = next++;
      j.attribute("k", "Var");
      j.attribute("i", id);
      j.attribute("n", v->getNameAsString());
      j.attribute("d", c.did(v));
      j.attribute("l", c.line(v->getLocation()));
      j.attribute("t", c.str(c.ty(v->getType())));
      j.attribute("st", c.str(c.sugar(v->getType())));
      if (v->isStaticLocal())
        j.attribute("static", 1);
      if (v->getTLSKind() != VarDecl::TLS_None)
        j.attribute("tls", 1);
      if (v->isConstexpr())
        j.attribute("cexpr", 1);
      if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
        j.attributeArray("binds", [&] {
          for (auto *b : dd->bindings())
            j.object([&] {
              j.attribute("n", b->getNameAsString());
              j.attribute("d", c.did(b));
            });
        });
      }
      if (v->hasInit()) {
        if (v->isDirectInit())
          j.attribute("dir", 1);
        kids({v->getInit()});
      }
    });
  }

  void constVal(const Expr *e) {
    if (e->isValueDependent() || e->isTypeDependent())
      return;
    QualType t = e->getType();
    if (t.isNull())
      return;
    if (!t->isIntegralOrEnumerationType() && !t->isRealFloatingType())
      return;
    Expr::EvalResult r;
    if (t->isIntegralOrEnumerationType()) {
      if (e->EvaluateAsInt(r, c.ac, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        j.attribute("cv", std::string(s.str()));
      }
    } else {
      llvm::APFloat f(0.0);
      if (e->EvaluateAsFloat(f, c.ac, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s;
        f.toString(s);
        j.attribute("cv", std::string(s.str()));
      }
    }
  }

  // implicit integral conversions that change the width, outermost last: "it" is the type the value ends up with
  void implicitCasts(const Stmt *s0, const Stmt *s) {
    QualType to;
    bool narrow = false;
    for (const Stmt *x = s0; x && x != s;) {
      if (auto *e = dyn_cast<ImplicitCastExpr>(x)) {
        if (e->getCastKind() == CK_IntegralCast && !e->getType()->isDependentType() &&
            !e->getSubExpr()->getType()->isDependentType()) {
          auto a = c.ac.getTypeSize(e->getSubExpr()->getType());
          auto b = c.ac.getTypeSize(e->getType());
          if (a != b && to.isNull())
            to = e->getType();
          if (b < a)
            narrow = true;
        }
        x = e->getSubExpr();
      } else if (auto *e = dyn_cast<ParenExpr>(x))
        x = e->getSubExpr();
      else if (auto *e = dyn_cast<ExprWithCleanups>(x))
        x = e->getSubExpr();
      else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(x))
        x = e->getSubExpr();
      else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(x))
        x = e->getSubExpr();
      else if (auto *e = dyn_cast<ConstantExpr>(x))
        x = e->getSubExpr();
      else
        break;
    }
    if (!to.isNull()) {
      j.attribute("it", c.str(c.ty(to)));
      if (narrow)
        j.attribute("nar", 1);
    }
  }

  void node(const Stmt *s0) {
    const Stmt *s = skip(s0);
    if (!s) {
      j.value(nullptr);
      return;
    }
    if (auto *da = dyn_cast<CXXDefaultArgExpr>(s)) {
      j.object([&] {
        int id = next++;
        ids[s0] = ids[s] = id;
        j.attribute("k", "DefArg");
        j.attribute("i", id);
        if (!da->getType().isNull())
          constVal(da);
      });
      return;
    }
    if (auto *di = dyn_cast<CXXDefaultInitExpr>(s)) {
      j.object([&] {
        int id = next++;
        ids[s0] = ids[s] = id;
        j.attribute("k", "DefInit");
        j.attribute("i", id);
        kids({di->getExpr()});
      });
      return;
    }
    j.object([&] {
      int id = next++;
      ids[s0] = id;
      ids[s] = id;
      j.attribute("i", id);
      loc(s);
      if (auto *e = dyn_cast<Expr>(s)) {
        if (!e->getType().isNull())
          j.attribute("t", c.str(c.ty(e->getType())));
        implicitCasts(s0, s);
        if (isa<DeclRefExpr>(e) || isa<UnaryExprOrTypeTraitExpr>(e) || isa<BinaryOperator>(e) ||
            isa<UnaryOperator>(e) || isa<CastExpr>(e) || isa<CallExpr>(e) || isa<MemberExpr>(e) ||
            isa<ConditionalOperator>(e) || isa<CXXConstructExpr>(e))
          constVal(e);
      }
      dispatch(s);
    });
  }

  void lambdaBody(const LambdaExpr *le) { lambdas.push_back(le); }

  void dispatch(const Stmt *s) {
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      j.attribute("k", "Compound");
      kidsR(x->body());
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      j.attribute("k", "Decl");
      j.attributeArray("c", [&] {
        for (auto *d : x->decls()) {
          if (auto *v = dyn_cast<VarDecl>(d))
            varDecl(v);
        }
      });
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      j.attribute("k", "If");
      if (x->isConstexpr())
        j.attribute("cexpr", 1);
      // [init, cond, then, else, condvar]
      j.attributeArray("c", [&] {
        node(x->getInit());
        if (x->getConditionVariableDeclStmt())
          node(x->getConditionVariableDeclStmt());
        else
          node(x->getCond());
        node(x->getThen());
        node(x->getElse());
      });
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      j.attribute("k", "For");
      j.attributeArray("c", [&] {
        node(x->getInit());
        node(x->getCond());
        node(x->getInc());
        node(x->getBody());
      });
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      j.attribute("k", "RFor");
      j.attributeArray("c", [&] {
        node(x->getInit());
        varDecl(x->getLoopVariable());
        node(x->getRangeInit());
        node(x->getBody());
      });
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      j.attribute("k", "While");
      j.attributeArray("c", [&] {
        if (x->getConditionVariableDeclStmt())
          node(x->getConditionVariableDeclStmt());
        else
          node(x->getCond());
        node(x->getBody());
      });
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      j.attribute("k", "Do");
      kids({x->getBody(), x->getCond()});
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      j.attribute("k", "Switch");
      if (x->isAllEnumCasesCovered())
        j.attribute("allenum", 1);
      kids({x->getCond(), x->getBody()});
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      j.attribute("k", "Case");
      kids({x->getLHS(), x->getSubStmt()});
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      j.attribute("k", "Default");
      kids({x->getSubStmt()});
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      j.attribute("k", "Return");
      kids({x->getRetValue()});
    } else if (isa<BreakStmt>(s)) {
      j.attribute("k", "Break");
    } else if (isa<ContinueStmt>(s)) {
      j.attribute("k", "Continue");
    } else if (auto *x = dyn_cast<GotoStmt>(s)) {
      j.attribute("k", "Goto");
      j.attribute("n", x->getLabel()->getNameAsString());
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      j.attribute("k", "Label");
      j.attribute("n", std::string(x->getName()));
      kids({x->getSubStmt()});
    } else if (isa<NullStmt>(s)) {
      j.attribute("k", "Empty");
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      j.attribute("k", "Try");
      j.attributeArray("c", [&] {
        node(x->getTryBlock());
        for (unsigned i = 0; i < x->getNumHandlers(); ++i)
          node(x->getHandler(i));
      });
    } else if (auto *x = dyn_cast<CXXCatchStmt>(s)) {
      j.attribute("k", "Catch");
      if (!x->getCaughtType().isNull())
        j.attribute("ct", c.ty(x->getCaughtType()));
      kids({x->getHandlerBlock()});
    } else if (auto *x = dyn_cast<LambdaExpr>(s)) {
      j.attribute("k", "Lambda");
      j.attribute("fid", c.str(c.usr(x->getLambdaClass()) + "#" +
                               std::to_string(c.did(x->getLambdaClass()))));
      j.attributeArray("caps", [&] {
        for (auto &cap : x->captures()) {
          if (!cap.capturesVariable()) {
            if (cap.capturesThis())
              j.object([&] {
                j.attribute("n", "this");
                j.attribute("ref", 1);
              });
            continue;
          }
          j.object([&] {
            j.attribute("n", cap.getCapturedVar()->getNameAsString());
            j.attribute("d", c.did(cap.getCapturedVar()));
            j.attribute("ref", cap.getCaptureKind() == LCK_ByRef ? 1 : 0);
            if (auto *vd = dyn_cast<VarDecl>(cap.getCapturedVar()))
              if (vd->isInitCapture()) {
                j.attribute("initcap", 1);
                if (vd->getInit()) {
                  j.attributeBegin("init");
                  node(vd->getInit());
                  j.attributeEnd();
                }
              }
          });
        }
      });
      lambdaBody(x);
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(s)) {
      j.attribute("k", "OpCall");
      j.attribute("op", getOperatorSpelling(x->getOperator()));
      fnref(x->getDirectCallee());
      if (!x->getDirectCallee()) {
        j.attribute("ind", 1);
      }
      kidsR(x->arguments());
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(s)) {
      // c[0] = object, rest = args
      j.attribute("k", "MCall");
      const FunctionDecl *fd = x->getMethodDecl();
      if (!fd)
        fd = x->getDirectCallee();
      fnref(fd);
      const Expr *callee = x->getCallee()->IgnoreParenImpCasts();
      if (auto *me = dyn_cast<MemberExpr>(callee)) {
        if (me->isArrow())
          j.attribute("arrow", 1);
        if (me->hasQualifier())
          j.attribute("qual", 1);
      } else
        j.attribute("ind", 1);
      j.attributeArray("c", [&] {
        node(x->getImplicitObjectArgument());
        for (auto *a : x->arguments())
          node(a);
      });
    } else if (auto *x = dyn_cast<CallExpr>(s)) {
      j.attribute("k", "Call");
      const FunctionDecl *fd = x->getDirectCallee();
      if (fd) {
        fnref(fd);
        kidsR(x->arguments());
      } else {
        // c[0] = callee expression
        j.attribute("ind", 1);
        j.attributeArray("c", [&] {
          node(x->getCallee());
          for (auto *a : x->arguments())
            node(a);
        });
      }
    } else if (auto *x = dyn_cast<CXXConstructExpr>(s)) {
      j.attribute("k", "Ctor");
      fnref(x->getConstructor());
      if (x->getConstructor()->isCopyConstructor())
        j.attribute("copy", 1);
      if (x->getConstructor()->isMoveConstructor())
        j.attribute("move", 1);
      kidsR(x->arguments());
    } else if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(s)) {
      j.attribute("k", "Ctor");
      j.attribute("dep", 1);
      kidsR(x->arguments());
    } else if (auto *x = dyn_cast<DeclRefExpr>(s)) {
      j.attribute("k", "DRef");
      auto *d = x->getDecl();
      j.attribute("n", d->getNameAsString());
      j.attribute("d", c.did(d));
      if (isa<ParmVarDecl>(d))
        j.attribute("dk", "parm");
      else if (isa<EnumConstantDecl>(d)) {
        j.attribute("dk", "enum");
        j.attribute("q", c.str(qname(d)));
      } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        j.attribute("dk", "func");
        fnref(fd);
      } else if (auto *bd = dyn_cast<BindingDecl>(d)) {
        j.attribute("dk", "bind");
        j.attribute("of", c.did(bd->getDecomposedDecl()));
      } else if (auto *vd = dyn_cast<VarDecl>(d)) {
        if (vd->hasGlobalStorage() && !vd->isStaticLocal()) {
          j.attribute("dk", "global");
          j.attribute("q", c.str(qname(d)));
        } else if (vd->isStaticLocal())
          j.attribute("dk", "slocal");
        else
          j.attribute("dk", "var");
      } else
        j.attribute("dk", "other");
    } else if (auto *x = dyn_cast<MemberExpr>(s)) {
      j.attribute("k", "Mem");
      auto *d = x->getMemberDecl();
      j.attribute("n", d->getNameAsString());
      j.attribute("q", c.str(qname(d)));
      if (x->isArrow())
        j.attribute("arrow", 1);
      if (isa<CXXMethodDecl>(d))
        fnref(cast<CXXMethodDecl>(d));
      kids({x->getBase()});
    } else if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
      j.attribute("k", "Mem");
      j.attribute("dep", 1);
      j.attribute("n", x->getMember().getAsString());
      if (!x->isImplicitAccess())
        kids({x->getBase()});
    } else if (auto *x = dyn_cast<UnresolvedMemberExpr>(s)) {
      j.attribute("k", "Mem");
      j.attribute("dep", 1);
      j.attribute("n", x->getMemberName().getAsString());
      if (!x->isImplicitAccess())
        kids({x->getBase()});
    } else if (auto *x = dyn_cast<UnresolvedLookupExpr>(s)) {
      j.attribute("k", "DRef");
      j.attribute("dep", 1);
      j.attribute("dk", "func");
      j.attribute("n", x->getName().getAsString());
    } else if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(s)) {
      j.attribute("k", "DRef");
      j.attribute("dep", 1);
      j.attribute("dk", "other");
      j.attribute("n", x->getDeclName().getAsString());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(s)) {
      j.attribute("k", "CAssign");
      if (!x->getComputationLHSType().isNull() && !x->getComputationLHSType()->isDependentType())
        j.attribute("ct", c.ty(x->getComputationLHSType()));
      j.attribute("op", std::string(x->getOpcodeStr()));
      kids({x->getLHS(), x->getRHS()});
    } else if (auto *x = dyn_cast<BinaryOperator>(s)) {
      j.attribute("k", "Bin");
      j.attribute("op", std::string(x->getOpcodeStr()));
      kids({x->getLHS(), x->getRHS()});
    } else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
      j.attribute("k", "Bin");
      j.attribute("op", std::string(x->getOpcodeStr()));
      auto d = x->getDecomposedForm();
      kids({d.LHS, d.RHS});
    } else if (auto *x = dyn_cast<UnaryOperator>(s)) {
      j.attribute("k", "Un");
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix())
        op = "p" + op;
      j.attribute("op", op);
      kids({x->getSubExpr()});
    } else if (auto *x = dyn_cast<ConditionalOperator>(s)) {
      j.attribute("k", "Cond");
      kids({x->getCond(), x->getTrueExpr(), x->getFalseExpr()});
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(s)) {
      j.attribute("k", "Sub");
      kids({x->getBase(), x->getIdx()});
    } else if (auto *x = dyn_cast<ExplicitCastExpr>(s)) {
      j.attribute("k", "Cast");
      j.attribute("ck", x->getStmtClassName());
      j.attribute("cast", x->getCastKindName());
      kids({x->getSubExpr()});
    } else if (auto *x = dyn_cast<IntegerLiteral>(s)) {
      j.attribute("k", "Int");
      llvm::SmallString<32> b;
      x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
      j.attribute("v", std::string(b.str()));
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) {
      j.attribute("k", "Bool");
      j.attribute("v", x->getValue() ? "true" : "false");
    } else if (auto *x = dyn_cast<FloatingLiteral>(s)) {
      j.attribute("k", "Float");
      llvm::SmallString<32> b;
      x->getValue().toString(b);
      j.attribute("v", std::string(b.str()));
    } else if (auto *x = dyn_cast<clang::StringLiteral>(s)) {
      j.attribute("k", "Str");
      std::string v;
      if (x->getCharByteWidth() == 1)
        v = x->getString().str();
      j.attribute("v", json::fixUTF8(v));
    } else if (auto *x = dyn_cast<CharacterLiteral>(s)) {
      j.attribute("k", "Char");
      j.attribute("v", std::to_string(x->getValue()));
    } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
      j.attribute("k", "Null");
    } else if (isa<CXXThisExpr>(s)) {
      j.attribute("k", "This");
    } else if (auto *x = dyn_cast<InitListExpr>(s)) {
      j.attribute("k", "InitList");
      if (!x->isSemanticForm() && x->getSemanticForm())
        x = x->getSemanticForm();
      // for records: names of the fields initialised
      if (auto *rd = x->getType().isNull() ? nullptr : x->getType()->getAsRecordDecl()) {
        j.attributeArray("fields", [&] {
          if (auto *cx = dyn_cast<CXXRecordDecl>(rd))
            if (cx->hasDefinition())
              for (auto &b : cx->bases())
                j.value("<base>" + c.ty(b.getType()));
          for (auto *f : rd->fields())
            if (!f->isUnnamedBitfield())
              j.value(f->getNameAsString());
        });
      }
      kidsR(x->inits());
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(s)) {
      j.attribute("k", "StdInit");
      kids({x->getSubExpr()});
    } else if (auto *x = dyn_cast<ParenListExpr>(s)) {
      j.attribute("k", "ParenList");
      j.attributeArray("c", [&] {
        for (unsigned i = 0; i < x->getNumExprs(); ++i)
          node(x->getExpr(i));
      });
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      j.attribute("k", "SizeOf");
      j.attribute("st",
                  c.str(c.ty(x->isArgumentType() ? x->getArgumentType()
                                                 : x->getArgumentExpr()->getType())));
    } else if (auto *x = dyn_cast<CXXNewExpr>(s)) {
      j.attribute("k", "New");
      if (x->isArray())
        j.attribute("arr", 1);
      if (x->getNumPlacementArgs())
        j.attribute("placement", 1);
      j.attributeArray("c", [&] {
        if (x->isArray() && x->getArraySize())
          node(*x->getArraySize());
        if (x->getInitializer())
          node(x->getInitializer());
      });
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(s)) {
      j.attribute("k", "Delete");
      if (x->isArrayForm())
        j.attribute("arr", 1);
      kids({x->getArgument()});
    } else if (auto *x = dyn_cast<CXXThrowExpr>(s)) {
      j.attribute("k", "Throw");
      kids({x->getSubExpr()});
    } else if (auto *x = dyn_cast<AtomicExpr>(s)) {
      j.attribute("k", "Atomic");
      const char *n = "?";
      switch (x->getOp()) {
#define BUILTIN(ID, TYPE, ATTRS)
#define ATOMIC_BUILTIN(ID, TYPE, ATTRS)                                                            \
  case AtomicExpr::AO##ID:                                                                         \
    n = #ID;                                                                                       \
    break;
#include "clang/Basic/Builtins.def"
      }
      j.attribute("op", n);
      // pointer, value, second value; the orders are attributes
      bool cas = x->isCmpXChg();
      if (x->getOp() != AtomicExpr::AO__opencl_atomic_init && x->getOp() != AtomicExpr::AO__c11_atomic_init) {
        Expr::EvalResult er;
        if (x->getOrder() && !x->getOrder()->isValueDependent() && x->getOrder()->EvaluateAsInt(er, c.ac))
          j.attribute("ord", (int64_t)er.Val.getInt().getExtValue());
        Expr::EvalResult ef;
        if (cas && x->getOrderFail() && !x->getOrderFail()->isValueDependent() && x->getOrderFail()->EvaluateAsInt(ef, c.ac))
          j.attribute("ordf", (int64_t)ef.Val.getInt().getExtValue());
      }
      bool load = x->getOp() == AtomicExpr::AO__atomic_load_n ||
                  x->getOp() == AtomicExpr::AO__c11_atomic_load;
      if (cas)
        kids({x->getPtr(), x->getVal1(), x->getVal2()});
      else if (load)
        kids({x->getPtr()});
      else
        kids({x->getPtr(), x->getVal1()});
    } else if (auto *x = dyn_cast<CXXScalarValueInitExpr>(s)) {
      (void)x;
      j.attribute("k", "ZeroInit");
    } else if (isa<ImplicitValueInitExpr>(s)) {
      j.attribute("k", "ZeroInit");
    } else {
      j.attribute("k", "Other");
      j.attribute("cls", s->getStmtClassName());
      kidsR(s->children());
    }
  }

  void cfg(const Decl *d, Stmt *body) {
    CFG::BuildOptions bo;
    bo.PruneTriviallyFalseEdges = true;
    bo.AddEHEdges = false;
    bo.AddInitializers = false;
    bo.AddImplicitDtors = false;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> g = CFG::buildCFG(d, body, &c.ac, bo);
    if (!g)
      return;
    j.attributeObject("cfg", [&] {
      j.attribute("entry", g->getEntry().getBlockID());
      j.attribute("exit", g->getExit().getBlockID());
      j.attributeArray("b", [&] {
        for (auto *b : *g) {
          j.object([&] {
            j.attribute("id", b->getBlockID());
            j.attributeArray("e", [&] {
              int last = -2;
              for (auto &el : *b) {
                if (auto cs = el.getAs<CFGStmt>()) {
                  const Stmt *s = cs->getStmt();
                  int id = idOf(s);
                  if (id < 0) {
                    // synthesised DeclStmt around one variable
                    if (auto *ds = dyn_cast<DeclStmt>(s))
                      for (auto *dd : ds->decls())
                        if (auto *v = dyn_cast<VarDecl>(dd))
                          if (v->hasInit())
                            id = idOf(v->getInit());
                  }
                  if (id >= 0 && id != last) {
                    j.value(id);
                    last = id;
                  }
                }
              }
            });
            if (auto *t = b->getTerminatorStmt())
              j.attribute("t", idOf(t));
            if (auto *tc = b->getTerminatorCondition())
              j.attribute("tc", idOf(tc));
            if (auto *lbl = b->getLabel())
              j.attribute("lbl", idOf(lbl));
            if (b->hasNoReturnElement())
              j.attribute("nr", 1);
            j.attributeArray("s", [&] {
              for (auto &su : b->succs()) {
                if (su.isReachable() && su.getReachableBlock())
                  j.value(su.getReachableBlock()->getBlockID());
                else
                  j.value(nullptr);
              }
            });
          });
        }
      });
    });
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx &c;
  std::set<const FunctionDecl *> done;
  std::set<const Decl *> doneD;
  V(Ctx &c) : c(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  // One record per line, preceded by the strings it uses first, so that a reader can skip whole records.
  void line(llvm::function_ref<void(OStream &)> f, const std::string &tag = "R") {
    std::string buf;
    {
      llvm::raw_string_ostream o(buf);
      OStream j(o, 0);
      j.object([&] { f(j); });
    }
    if (flushed != c.strv.size()) {
      c.os << "S\t";
      OStream j(c.os, 0);
      j.array([&] {
        for (; flushed < c.strv.size(); ++flushed)
          j.value(json::fixUTF8(c.strv[flushed]));
      });
      c.os << "\n";
    }
    c.os << tag << "\t" << buf << "\n";
  }

  void emitFn(const FunctionDecl *fd, const std::string &lambdaId, const std::string &inFn,
              bool dep) {
    if (!done.insert(fd).second)
      return;
    Stmt *body = fd->getBody();
    if (!body)
      return;
    std::string file = c.relFile(fd->getLocation());
    std::vector<const LambdaExpr *> ls;
    std::string me = lambdaId.empty() ? c.usr(fd) : lambdaId;
    line([&](OStream &j) {
      Ser s(c, j, file);
      j.attribute("kind", "fn");
      j.attribute("q", qname(fd));
      j.attribute("n", fd->getNameAsString());
      j.attribute("u", me);
      if (!lambdaId.empty()) {
        j.attribute("lambda", 1);
        j.attribute("in", inFn);
      }
      j.attribute("f", file);
      j.attribute("l", c.line(fd->getLocation()));
      j.attribute("el", c.line(body->getEndLoc()));
      if (dep)
        j.attribute("dep", 1);
      if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
        j.attribute("cls", qname(m->getParent()));
        j.attribute("clst", c.ty(c.ac.getRecordType(m->getParent())));
        j.attribute("clsu", c.usr(m->getParent()));
        if (m->isVirtual())
          j.attribute("virt", 1);
        if (m->isConst())
          j.attribute("cst", 1);
        if (m->isStatic())
          j.attribute("stat", 1);
        const char *acc = m->getAccess() == AS_public      ? "public"
                          : m->getAccess() == AS_protected ? "protected"
                                                           : "private";
        j.attribute("acc", acc);
        if (m->size_overridden_methods())
          j.attributeArray("ov", [&] {
            for (auto *o : m->overridden_methods())
              j.value(c.usr(o));
          });
        if (auto *cc = dyn_cast<CXXConstructorDecl>(m)) {
          j.attribute("ctor", cc->isCopyConstructor()   ? "copy"
                              : cc->isMoveConstructor() ? "move"
                                                        : "other");
          j.attributeArray("inits", [&] {
            for (auto *in : cc->inits()) {
              j.object([&] {
                if (in->isAnyMemberInitializer())
                  j.attribute("n", in->getAnyMember()->getNameAsString());
                else if (in->isBaseInitializer())
                  j.attribute("base", c.ty(QualType(in->getBaseClass(), 0)));
                else
                  j.attribute("deleg", 1);
                if (in->isWritten())
                  j.attribute("w", 1);
                j.attributeBegin("e");
                s.node(in->getInit());
                j.attributeEnd();
              });
            }
          });
        }
        if (isa<CXXDestructorDecl>(m))
          j.attribute("dtor", 1);
      }
      j.attribute("ret", c.ty(fd->getReturnType()));
      j.attribute("sret", c.sugar(fd->getReturnType()));
      j.attributeArray("p", [&] {
        for (auto *p : fd->parameters())
          j.object([&] {
            j.attribute("n", p->getNameAsString());
            j.attribute("d", c.did(p));
            j.attribute("t", c.ty(p->getType()));
            j.attribute("st", c.sugar(p->getType()));
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
                !p->hasUnparsedDefaultArg()) {
              j.attributeBegin("def");
              s.node(p->getDefaultArg());
              j.attributeEnd();
            }
          });
      });
      if (auto *args = fd->getTemplateSpecializationArgs()) {
        j.attributeArray("ta", [&] {
          for (auto &a : args->asArray()) {
            std::string t;
            llvm::raw_string_ostream o(t);
            a.print(c.pp, o, true);
            o.flush();
            j.value(t);
          }
        });
      }
      j.attributeBegin("b");
      s.node(body);
      j.attributeEnd();
      if (!NoCFG && !dep)
        s.cfg(fd, body);
      ls = s.lambdas;
    }, (lambdaId.empty() ? "F" : "L") + std::string(dep ? "1" : "0") + "\t" + me + "\t" + inFn);
    for (auto *le : ls)
      emitLambda(le, me, dep);
  }

  size_t flushed = 0;
  void emitLambda(const LambdaExpr *le, const std::string &in, bool dep) {
    std::string id =
        c.usr(le->getLambdaClass()) + "#" + std::to_string(c.did(le->getLambdaClass()));
    if (auto *ftd = le->getDependentCallOperator()) {
      bool any = false;
      for (auto *sp : ftd->specializations())
        if (sp->getBody() && !sp->isDependentContext()) {
          emitFn(sp, id, in, dep);
          any = true;
        }
      if (!any)
        emitFn(ftd->getTemplatedDecl(), id, in, true);
    } else if (auto *op = le->getCallOperator()) {
      emitFn(op, id, in, dep || op->isDependentContext());
    }
  }

  bool anyInstantiation(const FunctionDecl *fd) {
    // does a described template (function or enclosing class) have instantiated bodies?
    if (auto *ft = fd->getDescribedFunctionTemplate()) {
      for (auto *sp : ft->specializations())
        if (sp->hasBody())
          return true;
    }
    return false;
  }

  std::set<std::string> instLines; // file:line of patterns seen instantiated
  std::vector<const FunctionDecl *> depPending;

  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted())
      return true;
    if (!fd->getBody())
      return true;
    if (!c.inRepo(fd->getLocation()))
      return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(fd))
      if (m->getParent()->isLambda())
        return true;
    if (fd->isImplicit())
      return true;
    std::string key = c.relFile(fd->getLocation()) + ":" + std::to_string(c.line(fd->getLocation())) +
                      ":" + std::to_string(c.col(fd->getLocation()));
    if (fd->isDependentContext()) {
      depPending.push_back(fd);
      return true;
    }
    instLines.insert(key);
    if (MaxInst && fd->getTemplateInstantiationPattern()) {
      if (c.instCount[key]++ >= MaxInst)
        return true;
    }
    emitFn(fd, "", "", false);
    return true;
  }
  void finish() {
    for (auto *fd : depPending) {
      std::string key = c.relFile(fd->getLocation()) + ":" +
                        std::to_string(c.line(fd->getLocation())) + ":" +
                        std::to_string(c.col(fd->getLocation()));
      if (!instLines.count(key))
        emitFn(fd, "", "", true);
    }
  }

  bool VisitEnumDecl(EnumDecl *ed) {
    if (!ed->isThisDeclarationADefinition() || !c.inRepo(ed->getLocation()))
      return true;
    line([&](OStream &j) {
      j.attribute("kind", "enum");
      j.attribute("q", qname(ed));
      j.attribute("f", c.relFile(ed->getLocation()));
      j.attribute("l", c.line(ed->getLocation()));
      j.attributeArray("e", [&] {
        for (auto *e : ed->enumerators())
          j.object([&] {
            j.attribute("n", e->getNameAsString());
            llvm::SmallString<16> b;
            e->getInitVal().toString(b, 10);
            j.attribute("v", std::string(b.str()));
          });
      });
    });
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isLambda() || !c.inRepo(rd->getLocation()))
      return true;
    if (!doneD.insert(rd).second)
      return true;
    line([&](OStream &j) {
      Ser s(c, j, c.relFile(rd->getLocation()));
      j.attribute("kind", "rec");
      j.attribute("q", qname(rd));
      j.attribute("t", c.ty(c.ac.getRecordType(rd)));
      j.attribute("u", c.usr(rd));
      j.attribute("f", c.relFile(rd->getLocation()));
      j.attribute("l", c.line(rd->getLocation()));
      if (rd->isDependentContext())
        j.attribute("dep", 1);
      j.attributeArray("bases", [&] {
        for (auto &b : rd->bases())
          j.value(c.ty(b.getType()));
      });
      j.attributeArray("fields", [&] {
        for (auto *f : rd->fields())
          j.object([&] {
            j.attribute("n", f->getNameAsString());
            j.attribute("t", c.ty(f->getType()));
            j.attribute("st", c.sugar(f->getType()));
            j.attribute("l", c.line(f->getLocation()));
            if (f->isMutable())
              j.attribute("mut", 1);
            j.attribute("acc", f->getAccess() == AS_public ? "public" : "private");
            if (f->hasInClassInitializer() && f->getInClassInitializer()) {
              j.attributeBegin("init");
              s.node(f->getInClassInitializer());
              j.attributeEnd();
            }
          });
      });
      j.attributeArray("methods", [&] {
        for (auto *m : rd->methods())
          if (!m->isImplicit())
            j.object([&] {
              j.attribute("n", m->getNameAsString());
              j.attribute("u", c.usr(m));
              j.attribute("l", c.line(m->getLocation()));
              j.attribute("ret", c.ty(m->getReturnType()));
              if (m->isVirtual())
                j.attribute("virt", 1);
              if (m->isPureVirtual())
                j.attribute("pure", 1);
              if (m->isDeleted())
                j.attribute("del", 1);
              if (m->isConst())
                j.attribute("cst", 1);
              j.attribute("acc", m->getAccess() == AS_public      ? "public"
                                 : m->getAccess() == AS_protected ? "protected"
                                                                  : "private");
              j.attributeArray("p", [&] {
                for (auto *p : m->parameters())
                  j.value(c.ty(p->getType()));
              });
            });
      });
    });
    return true;
  }

  bool VisitVarDecl(VarDecl *vd) {
    if (!vd->hasGlobalStorage() || isa<ParmVarDecl>(vd))
      return true;
    if (vd->isStaticLocal() || !c.inRepo(vd->getLocation()) || vd->getType()->isDependentType())
      return true;
    if (vd->isThisDeclarationADefinition() == VarDecl::DeclarationOnly)
      return true;
    if (vd->getDeclContext()->isDependentContext())
      return true;
    line([&](OStream &j) {
      Ser s(c, j, c.relFile(vd->getLocation()));
      j.attribute("kind", "var");
      j.attribute("q", qname(vd));
      j.attribute("t", c.ty(vd->getType()));
      j.attribute("f", c.relFile(vd->getLocation()));
      j.attribute("l", c.line(vd->getLocation()));
      j.attribute("d", c.did(vd));
      if (vd->getTLSKind() != VarDecl::TLS_None)
        j.attribute("tls", 1);
      if (vd->hasInit() && !vd->getInit()->isValueDependent()) {
        j.attributeBegin("init");
        s.node(vd->getInit());
        j.attributeEnd();
      }
      auto ls = s.lambdas;
    });
    return true;
  }
};

struct Consumer : ASTConsumer {
  // Declarations of this unit only: walking the translation unit would pull in the whole precompiled header.
  std::vector<Decl *> top;
  bool HandleTopLevelDecl(DeclGroupRef g) override {
    for (Decl *d : g)
      if (d && !d->isFromASTFile() && d->getDeclContext()->isTranslationUnit())
        top.push_back(d);
    return true;
  }
  void HandleTranslationUnit(ASTContext &ac) override {
    std::error_code ec;
    std::unique_ptr<llvm::raw_fd_ostream> o;
    llvm::raw_ostream *os = &llvm::outs();
    if (Out != "-") {
      o = std::make_unique<llvm::raw_fd_ostream>(Out, ec);
      os = o.get();
    }
    Ctx c(ac, *os);
    V v(c);
    llvm::SmallPtrSet<Decl *, 32> seen;
    for (Decl *d : top)
      if (seen.insert(d).second && !ac.getSourceManager().isInSystemHeader(d->getLocation()))
        v.TraverseDecl(d);
    v.finish();
    {
      std::string d;
      llvm::raw_string_ostream ds(d);
      json::OStream j(ds);
      j.arrayBegin();
      auto &sm = ac.getSourceManager();
      std::set<std::string> names;
      for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
        names.insert(it->first.getName().str());
      for (auto &n : names)
        j.value(n);
      j.arrayEnd();
      *os << "D\t" << ds.str() << "\n";
    }
    *os << "E\t{\"kind\":\"end\",\"errors\":"
        << (ac.getDiagnostics().hasErrorOccurred() ? "true" : "false") << "}\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, const char **argv) {
  auto p = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!p) {
    llvm::errs() << toString(p.takeError());
    return 2;
  }
  tooling::ClangTool t(p->getCompilations(), p->getSourcePathList());
  std::vector<std::unique_ptr<llvm::MemoryBuffer>> keep;
  for (auto &m : Map) {
    auto i = m.find('=');
    auto b = llvm::MemoryBuffer::getFile(m.substr(i + 1));
    if (!b) {
      llvm::errs() << "cannot read " << m << "\n";
      return 2;
    }
    keep.push_back(std::move(*b));
    t.mapVirtualFile(llvm::StringRef(m).substr(0, i), keep.back()->getBuffer());
  }
  Factory f;
  return t.run(&f);
}
