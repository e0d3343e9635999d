// pdump: type-resolved structured dump of every function body in the project.
// usage: pdump ROOT OUT.json FILE -- flags...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string ROOT, OUTF;

struct Dumper {
  ASTContext                            &C;
  SourceManager                         &SM;
  PrintingPolicy                         PP;
  std::map<std::string, int>             typeIdx;
  Array                                  types;
  std::unordered_map<const Decl *, int>  declIdx;
  std::vector<const Decl *>              declList;
  Array                                  decls;
  std::map<std::string, int>             fileIdx;
  Array                                  files;
  std::unordered_map<const LambdaExpr *, int> lambdas;

  explicit Dumper(ASTContext &c)
      : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword  = true;
    PP.FullyQualifiedName  = true;
    PP.Bool                = true;
    PP.SuppressInlineNamespace = true;
  }

  int file(const std::string &f)
  {
    auto it = fileIdx.find(f);
    if (it != fileIdx.end())
      return it->second;
    int i = fileIdx.size();
    fileIdx.emplace(f, i);
    files.push_back(f);
    return i;
  }

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto fe = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!fe)
      return "";
    llvm::SmallString<256> p(fe->getName());
    SM.getFileManager().makeAbsolutePath(p);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p);
  }
  unsigned line(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
  bool inRepo(SourceLocation L)
  {
    if (L.isInvalid())
      return false;
    std::string f = fileOf(L);
    if (f.compare(0, ROOT.size(), ROOT) != 0)
      return false;
    std::string r = f.substr(ROOT.size());
    return r.compare(0, 5, "/src/") == 0 || r.compare(0, 8, "/extras/") == 0 || r.compare(0, 8, "/_build/") == 0;
  }

  int type(QualType T)
  {
    if (T.isNull())
      return -1;
    std::string s  = T.getAsString(PP);
    auto        it = typeIdx.find(s);
    if (it != typeIdx.end())
      return it->second;
    int i = typeIdx.size();
    typeIdx.emplace(s, i);
    types.push_back(s);
    return i;
  }

  std::string usr(const Decl *D)
  {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b))
      return "";
    return std::string(b);
  }

  int decl(const Decl *D)
  {
    if (!D)
      return -1;
    if (auto *F = dyn_cast<FunctionDecl>(D))
      D = F->getCanonicalDecl();
    else if (auto *V = dyn_cast<VarDecl>(D))
      D = isa<ParmVarDecl>(D) ? D : V->getCanonicalDecl();
    auto it = declIdx.find(D);
    if (it != declIdx.end())
      return it->second;
    int i = declIdx.size();
    declIdx.emplace(D, i);
    declList.push_back(D);
    return i;
  }

  void fillDecls()
  {
    for (size_t i = 0; i < declList.size(); i++) {
      const Decl *D = declList[i];
      Object      o;
      o["u"] = usr(D);
      if (auto *N = dyn_cast<NamedDecl>(D)) {
        o["n"] = N->getNameAsString();
        if (!(isa<VarDecl>(D) && cast<VarDecl>(D)->isLocalVarDeclOrParm()) && !isa<BindingDecl>(D)) {
          std::string qs;
          llvm::raw_string_ostream os(qs);
          N->printQualifiedName(os, PP);
          o["q"] = qs;
        }
      }
      o["l"] = line(D->getLocation());
      if (inRepo(D->getLocation()))
        o["f"] = file(fileOf(D->getLocation()));
      std::string k = "decl";
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        k = "fn";
        o["t"] = type(F->getReturnType());
        Array ps;
        for (auto *P : F->parameters())
          ps.push_back(type(P->getType()));
        o["ps"] = std::move(ps);
        Array pn;
        for (auto *P : F->parameters())
          pn.push_back(P->getNameAsString());
        o["pn"] = std::move(pn);
        if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<CXX11NoReturnAttr>())
          o["nr"] = 1;
        if (auto *TA = F->getTemplateSpecializationArgs()) {
          Array ta;
          for (auto &a : TA->asArray()) {
            std::string              s;
            llvm::raw_string_ostream os(s);
            a.print(PP, os, true);
            ta.push_back(s);
          }
          o["ta"] = std::move(ta);
        }
        if (F->hasAttr<VisibilityAttr>()) {
          o["vis"] = F->getAttr<VisibilityAttr>()->getVisibility() == VisibilityAttr::Default ? "default" : "hidden";
        }
        if (F->isExternC())
          o["xc"] = 1;
        if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F))
          o["st"] = 1;
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
          k = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor"
                                                : isa<CXXConversionDecl>(M)   ? "conv"
                                                                              : "method";
          std::string qs;
          llvm::raw_string_ostream os(qs);
          M->getParent()->printQualifiedName(os, PP);
          o["c"] = qs;
          if (M->isVirtual()) {
            o["v"] = 1;
            if (M->isPureVirtual())
              o["pv"] = 1;
            Array ov;
            for (auto *m : M->overridden_methods())
              ov.push_back(decl(m));
            o["ov"] = std::move(ov);
          }
          if (M->isStatic())
            o["st"] = 1;
          if (M->isConst())
            o["cst"] = 1;
          o["acc"] = (int) M->getAccess();
          if (M->isDefaulted())
            o["def"] = 1;
          if (M->isDeleted())
            o["del"] = 1;
          if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
            if (CD->isCopyOrMoveConstructor())
              o["cm"] = 1;
          }
        }
      } else if (auto *Fd = dyn_cast<FieldDecl>(D)) {
        k = "field";
        o["t"] = type(Fd->getType());
        if (auto *RD = dyn_cast<CXXRecordDecl>(Fd->getParent())) {
          std::string qs;
          llvm::raw_string_ostream os(qs);
          RD->printQualifiedName(os, PP);
          o["c"] = qs;
        }
      } else if (auto *P = dyn_cast<ParmVarDecl>(D)) {
        k = "param";
        o["t"] = type(P->getType());
        o["pi"] = P->getFunctionScopeIndex();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        k = V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "local") : "global";
        if (V->isStaticDataMember())
          k = "sfield";
        o["t"] = type(V->getType());
        if (V->getTLSKind() != VarDecl::TLS_None)
          o["tls"] = 1;
      } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
        k = "enum";
        o["val"] = E->getInitVal().getExtValue();
        o["t"] = type(QualType(cast<EnumDecl>(E->getDeclContext())->getTypeForDecl(), 0));
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        k = "binding";
        o["t"] = type(B->getType());
        if (auto *DD = dyn_cast_or_null<DecompositionDecl>(B->getDecomposedDecl())) {
          o["of"] = decl(DD);
          int bi  = 0;
          for (auto *bb : DD->bindings()) {
            if (bb == B)
              o["bi"] = bi;
            bi++;
          }
        }
      }
      o["k"] = k;
      decls.push_back(std::move(o));
    }
  }

  // ---- macros ----
  struct Mac {
    std::string    name;
    SourceLocation begin;
  };
  // list of project macros from outermost to innermost
  std::vector<Mac> macros(SourceLocation L)
  {
    std::vector<Mac> r;
    while (L.isMacroID()) {
      if (SM.isMacroArgExpansion(L)) {
        // argument: belongs to the spelling site
        L = SM.getImmediateExpansionRange(L).getBegin();
        continue;
      }
      StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      auto      b = SM.getImmediateExpansionRange(L).getBegin();
      if (n.starts_with("PRECICE_"))
        r.push_back({n.str(), b});
      L = b;
    }
    std::reverse(r.begin(), r.end());
    return r;
  }
  // for a location inside macro args the argument text originates in the caller; decide kind
  static std::string kindOf(const std::string &n)
  {
    static const std::map<std::string, std::string> m{
        {"PRECICE_ASSERT", "ASSERT"}, {"PRECICE_DEBUG", "DEBUG"}, {"PRECICE_DEBUG_IF", "DEBUG"}, {"PRECICE_TRACE", "TRACE"}, {"PRECICE_INFO", "INFO"}, {"PRECICE_INFO_IF", "INFO"}, {"PRECICE_WARN", "WARN"}, {"PRECICE_WARN_IF", "WARN"}, {"PRECICE_CHECK", "CHECK"}, {"PRECICE_ERROR", "ERROR"}, {"PRECICE_UNREACHABLE", "UNREACHABLE"}};
    auto it = m.find(n);
    return it == m.end() ? "" : it->second;
  }

  // ---- expressions ----
  Value ex(const Expr *E)
  {
    if (!E)
      return nullptr;
    // strip
    while (true) {
      if (auto *X = dyn_cast<ExprWithCleanups>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<ParenExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E); X && X->getCastKind() == CK_ConstructorConversion)
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
        E = X->getSubExpr();
      else
        break;
    }
    Object o;
    o["l"] = line(E->getBeginLoc());
    if (E->getBeginLoc().isMacroID() && !SM.isMacroArgExpansion(E->getBeginLoc())) {
      auto ms = macros(E->getBeginLoc());
      for (auto &m : ms) {
        auto k = kindOf(m.name);
        if (!k.empty()) {
          o["m"] = k;
          break;
        }
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      o["v"] = X->getValueAsApproximateDouble();
    } else if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = X->isOrdinary() || X->isUTF8() ? llvm::json::fixUTF8(X->getString()) : std::string("<wide>");
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool";
      o["v"] = X->getValue() ? 1 : 0;
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "char";
      o["v"] = (int) X->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (isa<FunctionDecl>(D))
        o["k"] = "fn";
      else if (isa<EnumConstantDecl>(D))
        o["k"] = "enum";
      else
        o["k"] = "var";
      o["d"] = decl(D);
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (isa<FieldDecl>(D)) {
        o["k"] = "mem";
        o["d"] = decl(D);
        o["b"] = ex(X->getBase());
        if (X->isArrow())
          o["ar"] = 1;
      } else if (isa<VarDecl>(D) || isa<EnumConstantDecl>(D)) {
        o["k"] = isa<VarDecl>(D) ? "var" : "enum";
        o["d"] = decl(D);
      } else {
        o["k"] = "memfn";
        o["d"] = decl(D);
        o["b"] = ex(X->getBase());
      }
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      o["t"] = type(X->getType());
      auto *MD = X->getMethodDecl();
      const Expr *cal = X->getCallee()->IgnoreParens();
      if (MD) {
        o["d"] = decl(MD);
        if (auto *ME = dyn_cast<MemberExpr>(cal)) {
          if (ME->performsVirtualDispatch(C.getLangOpts()) && MD->isVirtual())
            o["vd"] = 1;
          if (ME->isArrow())
            o["ar"] = 1;
        }
      } else
        o["fe"] = ex(cal);
      o["o"] = ex(X->getImplicitObjectArgument());
      Array a;
      for (auto *A : X->arguments())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"]  = "call";
      o["t"] = type(X->getType());
      o["op"] = getOperatorSpelling(X->getOperator());
      auto *FD = X->getDirectCallee();
      unsigned s = 0;
      if (FD) {
        o["d"] = decl(FD);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
          o["o"] = ex(X->getArg(0));
          s      = 1;
        }
      } else
        o["fe"] = ex(X->getCallee());
      Array a;
      for (unsigned i = s; i < X->getNumArgs(); i++)
        a.push_back(ex(X->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      o["t"] = type(X->getType());
      if (auto *FD = X->getDirectCallee())
        o["d"] = decl(FD);
      else
        o["fe"] = ex(X->getCallee());
      Array a;
      for (auto *A : X->arguments())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      o["t"] = type(X->getType());
      o["d"] = decl(X->getConstructor());
      Array a;
      for (auto *A : X->arguments())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      o["k"] = "ctor";
      o["t"] = type(X->getType());
      Array a;
      for (auto *A : X->arguments())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        o["k"]  = "asg";
      } else
        o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str();
      o["a"]  = Array{ex(X->getLHS()), ex(X->getRHS())};
      if (X->getOpcode() == BO_Div || X->getOpcode() == BO_Rem)
        o["t"] = type(X->getType());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"]  = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : "");
      o["a"]  = Array{ex(X->getSubExpr())};
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx";
      o["a"] = Array{ex(X->getBase()), ex(X->getIdx())};
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["a"] = Array{ex(X->getCond()), ex(X->getTrueExpr()), ex(X->getFalseExpr())};
    } else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      o["k"] = "defarg";
      o["a"] = Array{ex(X->getExpr())};
    } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      o["k"] = "definit";
      o["a"] = Array{ex(X->getExpr())};
    } else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"]  = "cast";
      o["ck"] = X->getStmtClassName();
      o["t"]  = type(X->getTypeAsWritten());
      o["a"]  = Array{ex(X->getSubExpr())};
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      Array caps;
      unsigned ci = 0;
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) {
        Object co;
        if (c.capturesVariable()) {
          co["d"] = decl(c.getCapturedVar());
          if (X->isInitCapture(&c))
            co["init"] = ex(*ii);
        } else if (c.capturesThis())
          co["this"] = 1;
        co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
        caps.push_back(std::move(co));
        ++ci;
        ++ii;
      }
      o["caps"] = std::move(caps);
      Array ps;
      const Stmt *lbody = X->getBody();
      if (auto *cop = X->getCallOperator()) {
        o["d"] = decl(cop);
        const FunctionDecl *use = cop;
        // generic lambda: the body of an instantiation has resolved calls
        if (auto *FT = cop->getDescribedFunctionTemplate()) {
          Array alts;
          for (auto *S : FT->specializations())
            if (S->hasBody() && S->getBody()) {
              if (use == cop) {
                use   = S;
                lbody = S->getBody();
              } else { // further instantiations, with their own resolved calls
                Object ao;
                ao["d"] = decl(S);
                Array aps;
                for (auto *P : S->parameters())
                  aps.push_back(decl(P));
                ao["p"]    = std::move(aps);
                ao["body"] = st(S->getBody());
                alts.push_back(std::move(ao));
              }
            }
          if (!alts.empty())
            o["alts"] = std::move(alts);
        }
        for (auto *P : use->parameters())
          ps.push_back(decl(P));
      }
      o["p"] = std::move(ps);
      o["body"] = st(lbody);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "init";
      o["t"] = type(X->getType());
      Array a;
      for (auto *A : X->inits())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
      o["k"] = "init";
      Array a;
      for (auto *A : X->getInitExprs())
        a.push_back(ex(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["t"] = type(X->getAllocatedType());
      if (X->isArray())
        o["arr"] = 1;
      Array a;
      if (X->hasInitializer())
        a.push_back(ex(X->getInitializer()));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      o["a"] = Array{ex(X->getArgument())};
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      Array a;
      if (X->getSubExpr()) {
        o["t"] = type(X->getSubExpr()->getType());
        a.push_back(ex(X->getSubExpr()));
      }
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof";
      o["t"] = type(X->isArgumentType() ? X->getArgumentType() : X->getArgumentExpr()->getType());
    } else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
      o["t"] = type(X->getType());
    } else if (isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "zero";
      o["t"] = type(E->getType());
    } else {
      o["k"]   = "?";
      o["cls"] = E->getStmtClassName();
      Array a;
      for (auto *S : E->children())
        if (auto *Ch = dyn_cast_or_null<Expr>(S))
          a.push_back(ex(Ch));
      o["a"] = std::move(a);
      if (auto *X = dyn_cast<UnresolvedLookupExpr>(E))
        o["n"] = X->getName().getAsString();
      if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E))
        o["n"] = X->getMember().getAsString();
      if (auto *X = dyn_cast<UnresolvedMemberExpr>(E))
        o["n"] = X->getMemberName().getAsString();
      if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E))
        o["n"] = X->getDeclName().getAsString();
    }
    return o;
  }

  SourceLocation curMacro;

  // ---- statements ----
  Value var(const VarDecl *V)
  {
    Object o;
    o["d"] = decl(V);
    o["t"] = type(V->getType());
    if (V->getType()->isReferenceType())
      o["ref"] = 1;
    if (V->hasInit())
      o["i"] = ex(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *B : DD->bindings())
        b.push_back(decl(B));
      o["b"] = std::move(b);
    }
    return o;
  }

  Value st(const Stmt *S)
  {
    if (!S)
      return nullptr;
    SourceLocation saved = curMacro;
    std::string    mk;
    {
      SourceLocation B = S->getBeginLoc();
      if (B.isMacroID() && !SM.isMacroArgExpansion(B)) {
        auto ms = macros(B);
        for (auto &m : ms) {
          auto k = kindOf(m.name);
          if (!k.empty()) {
            if (m.begin != curMacro) {
              mk       = k;
              curMacro = m.begin;
            }
            break;
          }
        }
      }
    }
    Value r = st2(S, mk);
    curMacro = saved;
    return r;
  }

  Value st2(const Stmt *S, const std::string &mk)
  {
    Object o;
    o["l"] = line(S->getBeginLoc());
    if (!mk.empty())
      o["m"] = mk;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "blk";
      Array a;
      for (auto *c : X->body())
        a.push_back(st(c));
      o["s"] = std::move(a);
      o["le"] = line(X->getEndLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          a.push_back(var(V));
      o["v"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->getInit())
        o["init"] = st(X->getInit());
      if (X->getConditionVariable())
        o["cv"] = var(X->getConditionVariable());
      o["c"] = ex(X->getCond());
      o["th"] = st(X->getThen());
      if (X->getElse())
        o["el"] = st(X->getElse());
      if (X->isConstexpr())
        o["ce"] = 1;
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (X->getConditionVariable())
        o["cv"] = var(X->getConditionVariable());
      o["c"] = ex(X->getCond());
      o["b"] = st(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = ex(X->getCond());
      o["b"] = st(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      if (X->getInit())
        o["init"] = st(X->getInit());
      if (X->getCond())
        o["c"] = ex(X->getCond());
      if (X->getInc())
        o["inc"] = ex(X->getInc());
      o["b"] = st(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      if (X->getInit())
        o["init"] = st(X->getInit());
      o["v"] = var(X->getLoopVariable());
      o["r"] = ex(X->getRangeInit());
      o["rt"] = type(X->getRangeInit()->getType());
      o["b"] = st(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      o["c"] = ex(X->getCond());
      o["b"] = st(X->getBody());
      if (X->isAllEnumCasesCovered())
        o["all"] = 1;
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["c"] = ex(X->getLHS());
      o["b"] = st(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["b"] = st(X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue())
        o["e"] = ex(X->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "brk";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "cont";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "null";
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = st(X->getTryBlock());
      Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto  *H = X->getHandler(i);
        Object ho;
        ho["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) {
          ho["d"] = decl(H->getExceptionDecl());
          ho["t"] = type(H->getCaughtType());
        }
        ho["b"] = st(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return st(X->getSubStmt());
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      return st(X->getSubStmt());
    } else if (auto *X = dyn_cast<Expr>(S)) {
      o["k"] = "e";
      o["e"] = ex(X);
    } else {
      o["k"]   = "?s";
      o["cls"] = S->getStmtClassName();
      Array a;
      for (auto *c : S->children())
        a.push_back(st(c));
      o["s"] = std::move(a);
    }
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C;
  Dumper      D;
  Array       funcs, classes, gvars;
  std::set<const Decl *> seen;
  explicit V(ASTContext &c)
      : C(c), D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseLambdaExpr(LambdaExpr *) { return true; } // dumped inline

  // prune: do not descend into declarations outside of the repo
  bool TraverseDecl(Decl *X)
  {
    if (!X)
      return true;
    if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
      if (!D.inRepo(X->getLocation()))
        return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(X);
  }

  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (!F->isThisDeclarationADefinition())
      return true;
    if (F->isImplicit() || F->isDeleted())
      return true;
    const Stmt *B = F->getBody();
    if (!F->isDefaulted() && !B)
      return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return true;
    if (!D.inRepo(F->getLocation()))
      return true;
    if (!seen.insert(F).second)
      return true;
    Object o;
    o["d"]  = D.decl(F);
    o["fi"] = D.file(D.fileOf(F->getLocation()));
    o["l"]  = D.line(F->getLocation());
    o["le"] = D.line(F->getEndLoc());
    if (F->isDependentContext())
      o["dep"] = 1;
    if (F->isTemplateInstantiation())
      o["ti"] = 1;
    Array ps;
    for (auto *P : F->parameters())
      ps.push_back(D.decl(P));
    o["p"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object io;
        io["l"] = D.line(I->getSourceLocation());
        if (I->isAnyMemberInitializer())
          io["d"] = D.decl(I->getAnyMember());
        else if (I->isBaseInitializer())
          io["base"] = D.type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          io["deleg"] = 1;
        io["w"] = I->isWritten() ? 1 : 0;
        io["e"] = D.ex(I->getInit());
        in.push_back(std::move(io));
      }
      o["ini"] = std::move(in);
    }
    if (B)
      o["b"] = D.st(B);
    funcs.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isImplicit())
      return true;
    if (!D.inRepo(R->getLocation()))
      return true;
    if (!seen.insert(R).second)
      return true;
    Object o;
    std::string qs;
    llvm::raw_string_ostream os(qs);
    R->printQualifiedName(os, D.PP);
    o["q"] = qs;
    o["u"] = D.usr(R);
    o["fi"] = D.file(D.fileOf(R->getLocation()));
    o["l"] = D.line(R->getLocation());
    Array bs;
    for (auto &B : R->bases())
      bs.push_back(D.type(B.getType()));
    o["bases"] = std::move(bs);
    Array fs;
    for (auto *F : R->fields()) {
      Object fo;
      fo["d"] = D.decl(F);
      fo["t"] = D.type(F->getType());
      if (F->isMutable())
        fo["mut"] = 1;
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        fo["i"] = D.ex(F->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : R->methods())
      if (!M->isImplicit())
        ms.push_back(D.decl(M));
    o["methods"] = std::move(ms);
    if (R->isDependentContext())
      o["dep"] = 1;
    classes.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl *G)
  {
    if (!G->hasGlobalStorage() || G->isStaticLocal() || !G->isThisDeclarationADefinition())
      return true;
    if (!D.inRepo(G->getLocation()) || !seen.insert(G).second)
      return true;
    Object o;
    o["v"] = D.var(G);
    o["fi"] = D.file(D.fileOf(G->getLocation()));
    o["l"] = D.line(G->getLocation());
    gvars.push_back(std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  CompilerInstance &CI;
  explicit Cons(CompilerInstance &ci)
      : CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override
  {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    v.D.fillDecls();
    Object o;
    Array  deps;
    std::set<std::string> ds;
    auto  &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> p(it->first.getName());
      SM.getFileManager().makeAbsolutePath(p);
      llvm::sys::path::remove_dots(p, true);
      std::string s(p);
      if (s.compare(0, ROOT.size(), ROOT) == 0)
        ds.insert(s);
    }
    for (auto &s : ds)
      deps.push_back(s);
    o["errors"]  = CI.getDiagnostics().hasErrorOccurred() ? 1 : 0;
    o["deps"]    = std::move(deps);
    o["funcs"]   = std::move(v.funcs);
    o["classes"] = std::move(v.classes);
    o["gvars"]   = std::move(v.gvars);
    o["decls"]   = std::move(v.D.decls);
    o["types"]   = std::move(v.D.types);
    o["files"]   = std::move(v.D.files);
    std::error_code      ec;
    llvm::raw_fd_ostream os(OUTF, ec);
    os << Value(std::move(o));
  }
};

class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
  {
    return std::make_unique<Cons>(CI);
  }
};

int main(int argc, const char **argv)
{
  if (argc < 5) {
    std::cerr << "usage: pdump ROOT OUT FILE -- flags\n";
    return 3;
  }
  ROOT = argv[1];
  OUTF = argv[2];
  std::string              file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++)
    flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool                tool(db, {file});
  tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-w", tooling::ArgumentInsertPosition::END));
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
