// pmdump: clang libTooling front end.
// Parses one translation unit and writes, as JSON, the *resolved and instantiated* program that is
// reachable from it and defined under the roots given with --root: types, records, functions with
// their statement trees (callees resolved by overload resolution, template arguments substituted,
// constant expressions folded by clang).  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("pmdump");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> typeIds;
  std::vector<Object> types;
  std::map<const CXXRecordDecl *, int> recIds;
  std::deque<std::pair<int, const CXXRecordDecl *>> recQueue;
  std::map<int, Object> records;
  std::map<const FunctionDecl *, int> fnIds;
  std::deque<const FunctionDecl *> fnQueue;
  std::map<int, Object> functions;
  std::map<const ValueDecl *, int> varIds;
  std::map<int, Object> globals;
  int nextVar = 1, nextRec = 1, nextFn = 1;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRoots(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    for (auto &r : Roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str() + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }

  int typeId(QualType T) {
    if (T.isNull()) return 0;
    T = T.getCanonicalType();
    bool isConst = T.isConstQualified();
    const void *key = T.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size() + 1;
    typeIds[key] = id;
    types.emplace_back();
    Object o;
    if (isConst) o["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (auto *BT = U->getAs<BuiltinType>()) {
      if (BT->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (BT->isFloatingPoint()) { o["k"] = "float"; o["s"] = BT->getName(PP).str(); }
      else if (BT->isInteger()) { o["k"] = "int"; o["s"] = BT->getName(PP).str(); o["u"] = BT->isUnsignedInteger(); o["w"] = (int)C.getTypeSize(U); }
      else o["k"] = "void";
    } else if (U->isEnumeralType()) {
      o["k"] = "enum";
      o["s"] = U.getAsString(PP);
    } else if (U->isReferenceType()) {
      o["k"] = "ref";
      o["to"] = typeId(U->getPointeeType());
      if (U->isRValueReferenceType()) o["rv"] = true;
    } else if (U->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = typeId(U->getPointeeType());
    } else if (auto *RD = U->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["r"] = recId(RD);
    } else if (auto *AT = C.getAsConstantArrayType(U)) {
      o["k"] = "arr";
      o["n"] = (int64_t)AT->getSize().getZExtValue();
      o["to"] = typeId(AT->getElementType());
    } else {
      o["k"] = "other";
      o["s"] = U.getAsString(PP);
    }
    types[id - 1] = std::move(o);
    return id;
  }

  Value tmplArg(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return Object{{"t", typeId(A.getAsType())}};
    case TemplateArgument::Integral: return (int64_t)A.getAsIntegral().getExtValue();
    case TemplateArgument::Template: {
      std::string s; llvm::raw_string_ostream os(s);
      A.getAsTemplate().print(os, PP);
      return os.str();
    }
    case TemplateArgument::Pack: {
      Array a;
      for (auto &x : A.pack_elements()) a.push_back(tmplArg(x));
      return std::move(a);
    }
    default: return nullptr;
    }
  }

  int recId(const CXXRecordDecl *RD) {
    RD = RD->getCanonicalDecl();
    auto it = recIds.find(RD);
    if (it != recIds.end()) return it->second;
    int id = nextRec++;
    recIds[RD] = id;
    recQueue.push_back({id, RD});
    return id;
  }
  void dumpRecord(int id, const CXXRecordDecl *RD) {
    Object o;
    o["name"] = RD->getQualifiedNameAsString();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
      Array a;
      for (auto &x : S->getTemplateArgs().asArray()) a.push_back(tmplArg(x));
      o["args"] = std::move(a);
    }
    if (auto *P = dyn_cast<CXXRecordDecl>(RD->getDeclContext())) o["parent"] = recId(P);
    o["full"] = C.getRecordType(RD).getAsString(PP);
    if (o["full"].getAsString()->size() > 600) o["full"] = RD->getQualifiedNameAsString();
    if (const CXXRecordDecl *D = RD->getDefinition()) {
      bool mine = inRoots(D);
      o["mine"] = mine;
      o["loc"] = loc(D->getLocation());
      if (D->isLambda()) o["lambda"] = true;
      Array bases;
      for (auto &b : D->bases())
        if (auto *B = b.getType()->getAsCXXRecordDecl()) bases.push_back(recId(B));
      o["bases"] = std::move(bases);
      if (mine) {
        Array fs;
        for (auto *f : D->fields()) {
          Object fo{{"n", f->getNameAsString()}, {"t", typeId(f->getType())}, {"loc", loc(f->getLocation())}};
          if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for (auto *m : D->methods()) {
          const FunctionDecl *def = nullptr;
          if (m->isDeleted()) continue;
          if (m->hasBody(def) || m->isDefaulted()) {
            if (m->isDependentContext()) continue;
            ms.push_back(fnId(m));
          }
        }
        // member function template specialisations
        for (auto *d : D->decls())
          if (auto *ft = dyn_cast<FunctionTemplateDecl>(d))
            for (auto *s : ft->specializations()) {
              const FunctionDecl *def = nullptr;
              if (s->hasBody(def)) ms.push_back(fnId(s));
            }
        o["methods"] = std::move(ms);
        Object en;
        for (auto *d : D->decls()) {
          if (auto *ed = dyn_cast<EnumDecl>(d))
            for (auto *e : ed->enumerators())
              if (!e->getInitExpr() || !e->getInitExpr()->isValueDependent())
                en[e->getNameAsString()] = (int64_t)e->getInitVal().getExtValue();
          if (auto *vd = dyn_cast<VarDecl>(d))
            if (vd->isStaticDataMember()) {
              const VarDecl *def; const Expr *in = vd->getAnyInitializer(def);
              if (in && !in->isValueDependent()) en["static:" + vd->getNameAsString()] = expr(in);
            }
        }
        o["enums"] = std::move(en);
      }
    }
    records[id] = std::move(o);
  }

  int fnId(const FunctionDecl *F) {
    const FunctionDecl *K = F->getCanonicalDecl();
    auto it = fnIds.find(K);
    if (it != fnIds.end()) return it->second;
    int id = nextFn++;
    fnIds[K] = id;
    fnQueue.push_back(F);
    return id;
  }
  int varId(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = varIds.find(V);
    if (it != varIds.end()) return it->second;
    int id = nextVar++;
    varIds[V] = id;
    return id;
  }

  void dumpFn(const FunctionDecl *F) {
    int id = fnIds[F->getCanonicalDecl()];
    Object o;
    o["name"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = recId(M->getParent());
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virtual"] = true;
    }
    if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &x : TA->asArray()) a.push_back(tmplArg(x));
      o["targs"] = std::move(a);
    }
    o["ret"] = typeId(F->getReturnType());
    Array ps;
    const FunctionDecl *Def = nullptr;
    bool has = F->hasBody(Def);
    const FunctionDecl *D = has ? Def : F;
    for (auto *p : D->parameters())
      ps.push_back(Object{{"n", p->getNameAsString()}, {"id", varId(p)}, {"t", typeId(p->getType())}});
    o["params"] = std::move(ps);
    o["loc"] = loc(D->getLocation());
    o["endloc"] = loc(D->getEndLoc());
    bool mine = inRoots(D);
    o["mine"] = mine;
    if (D->isDefaulted()) o["defaulted"] = true;
    if (D->isTrivial()) o["trivial"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(D)) {
      if (MD->isCopyAssignmentOperator() || MD->isMoveAssignmentOperator()) o["assignop"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
        if (CD->isCopyOrMoveConstructor()) o["copyctor"] = true;
        if (CD->isDefaultConstructor()) o["defctor"] = true;
      }
    }
    if (has && mine && !D->isDependentContext()) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
        Array in;
        for (auto *i : CD->inits()) {
          Object io;
          if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
          else if (i->isBaseInitializer()) io["b"] = recId(i->getBaseClass()->getAsCXXRecordDecl());
          else if (i->isDelegatingInitializer()) io["d"] = true;
          else continue;
          io["w"] = i->isWritten();
          io["e"] = expr(i->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = stmt(D->getBody());
    }
    functions[id] = std::move(o);
  }

  // ---------------------------------------------------------------- expressions
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ArrayToPointerDecay:
        case CK_AtomicToNonAtomic: case CK_BuiltinFnToFnPtr:
          E = X->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array a;
    for (auto *e : R) a.push_back(expr(e));
    return a;
  }

  Object node(const char *k, const Expr *E) {
    Object o;
    o["k"] = k;
    o["t"] = typeId(E->getType());
    if (E->isGLValue()) o["lv"] = 1;
    return o;
  }

  Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    QualType T = E->getType();
    // fold integer constants
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && (T->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        Object o{{"k", "int"}, {"t", typeId(T)}};
        llvm::APSInt V = R.Val.getInt();
        if (V.isSigned() || V.getActiveBits() <= 63) o["v"] = (int64_t)V.getExtValue();
        else o["v"] = std::to_string(V.getZExtValue());
        if (auto *DR = dyn_cast<DeclRefExpr>(E)) if (isa<EnumConstantDecl>(DR->getDecl())) o["enum"] = DR->getDecl()->getNameAsString();
        return std::move(o);
      }
    }
    // named integer constants (possibly accessed through an object)
    if (!E->isValueDependent() && T->isIntegralOrEnumerationType()) {
      const ValueDecl *vd = nullptr;
      if (auto *DR = dyn_cast<DeclRefExpr>(E)) vd = DR->getDecl();
      if (auto *ME = dyn_cast<MemberExpr>(E)) vd = ME->getMemberDecl();
      if (auto *V = dyn_cast_or_null<VarDecl>(vd))
        if (V->mightBeUsableInConstantExpressions(C)) {
          const VarDecl *def = nullptr;
          const Expr *in = V->getAnyInitializer(def);
          if (in && !in->isValueDependent()) {
            APValue *AV = const_cast<VarDecl *>(def)->evaluateValue();
            if (AV && AV->isInt()) {
              Object o{{"k", "int"}, {"t", typeId(T)}, {"v", (int64_t)AV->getInt().getExtValue()}, {"name", V->getNameAsString()}};
              return std::move(o);
            }
          }
        }
    }
    // fold named floating constants (constexpr members)
    if (!E->isValueDependent() && T->isFloatingType()) {
      const Expr *X = E;
      const ValueDecl *vd = nullptr;
      if (auto *DR = dyn_cast<DeclRefExpr>(X)) vd = DR->getDecl();
      if (auto *ME = dyn_cast<MemberExpr>(X)) vd = ME->getMemberDecl();
      if (auto *V = dyn_cast_or_null<VarDecl>(vd))
        if (V->isConstexpr() || (V->isStaticDataMember() && V->getType().isConstQualified())) {
          Expr::EvalResult R;
          bool ok = E->isGLValue() ? false : E->EvaluateAsRValue(R, C);
          if (!ok) {
            const VarDecl *def;
            const Expr *in = V->getAnyInitializer(def);
            if (in && !in->isValueDependent() && in->EvaluateAsRValue(R, C) && R.Val.isFloat()) ok = true;
          }
          if (ok && R.Val.isFloat()) {
            Object o{{"k", "float"}, {"t", typeId(T)}, {"name", V->getNameAsString()}};
            o["v"] = fstr(R.Val.getFloat());
            return std::move(o);
          }
        }
    }
    return exprInner(E);
  }

  std::string fstr(llvm::APFloat F) {
    bool l;
    F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &l);
    char b[64];
    snprintf(b, sizeof b, "%.17g", F.convertToDouble());
    return b;
  }

  Value exprInner(const Expr *E) {
    SourceLocation L = E->getExprLoc();
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object o = node("float", E);
      o["v"] = fstr(X->getValue());
      return std::move(o);
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object o = node("int", E); o["v"] = (int64_t)X->getValue().getZExtValue(); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = node("int", E); o["v"] = X->getValue() ? 1 : 0; return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      Object o = node("str", E); if (X->getCharByteWidth() == 1) o["v"] = llvm::json::fixUTF8(X->getString()); return std::move(o);
    }
    if (isa<CharacterLiteral>(E)) { Object o = node("int", E); o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue(); return std::move(o); }
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Object o = node("fref", E); o["f"] = fnId(F); return std::move(o);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = node("int", E); o["v"] = (int64_t)EC->getInitVal().getExtValue(); o["enum"] = EC->getNameAsString(); return std::move(o);
      }
      Object o = node("var", E);
      o["id"] = varId(D);
      o["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D))
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"] = 1; dumpGlobal(V); }
      return std::move(o);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Object o = node("mref", E); o["f"] = fnId(F); o["b"] = expr(X->getBase()); if (X->isArrow()) o["arrow"] = 1; return std::move(o);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = node("int", E); o["v"] = (int64_t)EC->getInitVal().getExtValue(); o["enum"] = EC->getNameAsString(); return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object o = node("var", E); o["id"] = varId(V); o["n"] = V->getNameAsString(); o["g"] = 1; dumpGlobal(V); return std::move(o);
      }
      Object o = node("mem", E);
      o["n"] = D->getNameAsString();
      o["b"] = expr(X->getBase());
      if (X->isArrow()) o["arrow"] = 1;
      o["loc"] = loc(X->getMemberLoc());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : "");
      o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = node("casg", E);
      std::string op = X->getOpcodeStr().str(); op.pop_back();
      o["op"] = op; o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS());
      o["ct"] = typeId(X->getComputationResultType());
      o["loc"] = loc(L);
      return std::move(o);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object o = node(X->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS());
      o["loc"] = loc(L);
      return std::move(o);
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      Object o = node("cond", E);
      o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = node("idx", E); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); o["loc"] = loc(L); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // elidable copy/move
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      Object o = node("ctor", E);
      o["f"] = fnId(X->getConstructor());
      o["args"] = exprs(X->arguments());
      if (X->isListInitialization()) o["list"] = 1;
      if (X->requiresZeroInitialization()) o["zero"] = 1;
      o["loc"] = loc(L);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object o = node("inhctor", E); o["f"] = fnId(X->getConstructor()); return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = node("call", E);
      o["loc"] = loc(L.isValid() ? L : X->getBeginLoc());
      const FunctionDecl *F = X->getDirectCallee();
      if (F) o["f"] = fnId(F);
      else o["fe"] = expr(X->getCallee());
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
        if (ME) {
          o["obj"] = expr(ME->getBase());
          if (ME->isArrow()) o["arrow"] = 1;
          if (ME->hasQualifier()) o["qual"] = 1;
        } else o["obj"] = expr(MC->getImplicitObjectArgument());
        o["args"] = exprs(X->arguments());
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
        o["opcall"] = std::string(getOperatorSpelling(OC->getOperator()));
        Array a = exprs(X->arguments());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          o["obj"] = std::move(a[0]);
          Array b;
          for (size_t i = 1; i < a.size(); ++i) b.push_back(std::move(a[i]));
          o["args"] = std::move(b);
        } else o["args"] = std::move(a);
      } else o["args"] = exprs(X->arguments());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      Object o = node("cast", E);
      o["ck"] = X->getCastKindName();
      o["e"] = expr(X->getSubExpr());
      // transparent explicit casts
      switch (X->getCastKind()) {
      case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_LValueToRValue:
        return expr(X->getSubExpr());
      default: break;
      }
      return std::move(o);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      Object o = node("ilist", E);
      Array a;
      for (auto *e : S->inits()) a.push_back(expr(e));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { Object o = node("stdilist", E); o["e"] = expr(X->getSubExpr()); return std::move(o); }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("zeroinit", E);
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = node("lambda", E);
      o["f"] = fnId(X->getCallOperator());
      Array caps;
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = 1;
        else if (c.capturesVariable()) { co["id"] = varId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind() == LCK_ByRef; co["init"] = expr(*ii); }
        caps.push_back(std::move(co)); ++ii;
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { Object o = node("new", E); o["init"] = expr(X->getInitializer()); o["at"] = typeId(X->getAllocatedType()); return std::move(o); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object o = node("delete", E); o["e"] = expr(X->getArgument()); return std::move(o); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o = node("throw", E); o["e"] = expr(X->getSubExpr()); o["loc"] = loc(L); return std::move(o); }
    if (isa<PredefinedExpr>(E)) { Object o = node("str", E); o["v"] = "__func__"; return std::move(o); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    Object o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    o["loc"] = loc(L);
    return std::move(o);
  }

  void dumpGlobal(const VarDecl *V) {
    int id = varId(V);
    if (globals.count(id)) return;
    globals[id] = Object();
    Object o;
    o["n"] = V->getQualifiedNameAsString();
    o["t"] = typeId(V->getType());
    o["mine"] = inRoots(V);
    const VarDecl *def;
    const Expr *in = V->getAnyInitializer(def);
    if (in && inRoots(V) && !in->isValueDependent()) o["init"] = expr(in);
    o["const"] = V->getType().isConstQualified();
    globals[id] = std::move(o);
  }

  Value varDecl(const VarDecl *V) {
    Object o;
    o["id"] = varId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    o["loc"] = loc(V->getLocation());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getInit()) o["init"] = expr(V->getInit());
    return std::move(o);
  }

  // ---------------------------------------------------------------- statements
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return Object{{"k", "e"}, {"e", expr(E)}, {"loc", loc(E->getBeginLoc())}};
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Array a;
      for (auto *s : X->body()) a.push_back(stmt(s));
      return Object{{"k", "blk"}, {"a", std::move(a)}};
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Array a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      return Object{{"k", "decl"}, {"a", std::move(a)}};
    }
    std::string L = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<IfStmt>(S)) {
      Object o{{"k", "if"}, {"loc", L}};
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object o{{"k", "for"}, {"loc", L}};
      o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) return Object{{"k", "while"}, {"loc", L}, {"c", expr(X->getCond())}, {"body", stmt(X->getBody())}};
    if (auto *X = dyn_cast<DoStmt>(S)) return Object{{"k", "do"}, {"loc", L}, {"c", expr(X->getCond())}, {"body", stmt(X->getBody())}};
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      return Object{{"k", "range"}, {"loc", L}, {"v", varDecl(X->getLoopVariable())}, {"r", expr(X->getRangeInit())}, {"body", stmt(X->getBody())}};
    }
    if (isa<BreakStmt>(S)) return Object{{"k", "break"}, {"loc", L}};
    if (isa<ContinueStmt>(S)) return Object{{"k", "continue"}, {"loc", L}};
    if (auto *X = dyn_cast<ReturnStmt>(S)) { Object o{{"k", "ret"}, {"loc", L}}; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return std::move(o); }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      // flatten into a list of (labels, stmt)
      Object o{{"k", "switch"}, {"loc", L}, {"c", expr(X->getCond())}};
      Array items;
      if (auto *B = dyn_cast<CompoundStmt>(X->getBody()))
        for (const Stmt *s : B->body()) {
          while (s) {
            if (auto *cs = dyn_cast<CaseStmt>(s)) {
              items.push_back(Object{{"k", "case"}, {"v", expr(cs->getLHS())}}); s = cs->getSubStmt();
            } else if (auto *ds = dyn_cast<DefaultStmt>(s)) {
              items.push_back(Object{{"k", "default"}}); s = ds->getSubStmt();
            } else { items.push_back(stmt(s)); s = nullptr; }
          }
        }
      o["a"] = std::move(items);
      return std::move(o);
    }
    if (isa<NullStmt>(S)) return Object{{"k", "blk"}, {"a", Array()}};
    if (auto *X = dyn_cast<CXXTryStmt>(S)) return stmt(X->getTryBlock());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    return Object{{"k", "unk"}, {"cls", S->getStmtClassName()}, {"loc", L}};
  }

  void run() {
    struct V : RecursiveASTVisitor<V> {
      Dumper &D;
      V(Dumper &D) : D(D) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext()) return true;
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && D.inRoots(Def)) D.fnId(F);
        return true;
      }
    } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!fnQueue.empty() || !recQueue.empty()) {
      while (!fnQueue.empty()) { auto *f = fnQueue.front(); fnQueue.pop_front(); dumpFn(f); }
      while (!recQueue.empty()) { auto p = recQueue.front(); recQueue.pop_front(); dumpRecord(p.first, p.second); }
    }
    Object out;
    Array ty; for (auto &t : types) ty.push_back(std::move(t));
    Object rs, fs, gs;
    for (auto &p : records) rs[std::to_string(p.first)] = std::move(p.second);
    for (auto &p : functions) fs[std::to_string(p.first)] = std::move(p.second);
    for (auto &p : globals) gs[std::to_string(p.first)] = std::move(p.second);
    out["types"] = std::move(ty); out["records"] = std::move(rs); out["functions"] = std::move(fs); out["globals"] = std::move(gs);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << Value(std::move(out));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper(C).run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
