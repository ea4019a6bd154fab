// afdo-extract: dumps a typed syntax tree and a control-flow graph of every
// function defined under --root to JSON.  One translation unit per run.
//
//   afdo-extract --root=/repo --out=F.json FILE -- <clang args>
//
// The JSON is a neutral program representation: all rules live in Python.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("afdo-extract");
static llvm::cl::opt<std::string> Root("root", llvm::cl::init("/repo"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("out", llvm::cl::init("-"), llvm::cl::cat(Cat));

namespace {

class Dumper {
 public:
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
    PP.SuppressDefaultTemplateArgs = false;
    PP.AnonymousTagLocations = true;
  }

  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> ids;  // node ids within the current function
  int next_id = 0;
  std::map<const Decl *, std::string> local_keys;
  std::vector<const LambdaExpr *> pending_lambdas;

  bool inRoot(SourceLocation L, std::string *file = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return false;
    llvm::StringRef n = FE->getName();
    std::string s = n.str();
    if (s.rfind("./", 0) == 0) s = Root + s.substr(1);
    if (s[0] != '/') s = Root + "/" + s;
    // normalise a/../b
    llvm::SmallString<256> P(s);
    llvm::sys::path::remove_dots(P, true);
    s = P.str().str();
    std::string r = Root;
    if (r.back() != '/') r += '/';
    if (s.rfind(r, 0) != 0) return false;
    s = s.substr(r.size());
    if (s.rfind("_build/", 0) == 0) return false;
    if (file) *file = s;
    return true;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  // integer shape: u64/s32/..., p pointer, f64, b (bool), r record, e enum
  std::string shape(QualType T) {
    if (T.isNull() || T->isDependentType()) return "";
    T = T.getCanonicalType().getNonReferenceType();
    if (T->isBooleanType()) return "b";
    if (auto *ET = T->getAs<EnumType>()) {
      auto I = ET->getDecl()->getIntegerType();
      if (I.isNull()) return "e";
      return std::string("e") + std::to_string(C.getTypeSize(I));
    }
    if (T->isIntegerType()) {
      return (T->isUnsignedIntegerType() ? "u" : "s") + std::to_string(C.getTypeSize(T));
    }
    if (T->isFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
    if (T->isPointerType() || T->isNullPtrType()) return "p";
    if (T->isRecordType()) return "r";
    if (T->isArrayType()) return "a";
    if (T->isVoidType()) return "v";
    return "";
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string qnameT(const NamedDecl *D) {  // with template args of the class
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }

  std::string lambdaKey(const CXXRecordDecl *R) {
    std::string f = "?";
    inRoot(R->getLocation(), &f);
    return "lambda@" + f + ":" + std::to_string(line(R->getLocation())) + ":" +
           std::to_string(col(R->getLocation()));
  }

  std::string funKey(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda() && M->getOverloadedOperator() == OO_Call) {
        std::string k = lambdaKey(M->getParent());
        if (M->isFunctionTemplateSpecialization()) {  // generic lambda instance
          k += "(";
          for (auto *P : M->parameters()) k += ty(P->getType()) + ",";
          k += ")";
        }
        return k;
      }
    std::string s = qnameT(F);
    s += "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) s += ",";
      first = false;
      s += ty(P->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += "const";
    return s;
  }

  std::string declKey(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    if (auto *F = dyn_cast<FunctionDecl>(D)) return funKey(F);
    if (auto *FD = dyn_cast<FieldDecl>(D)) return qname(FD);
    bool local = isa<ParmVarDecl>(D) || isa<BindingDecl>(D) ||
                 (isa<VarDecl>(D) && cast<VarDecl>(D)->isLocalVarDecl()) ||
                 (isa<VarDecl>(D) && D->getDeclContext()->isFunctionOrMethod());
    if (!local) return qname(D);
    auto it = local_keys.find(D);
    if (it != local_keys.end()) return it->second;
    std::string k = D->getNameAsString() + "#" + std::to_string(local_keys.size());
    return local_keys[D] = k;
  }

  int idOf(const void *p) {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    return ids[p] = next_id++;
  }

  // Nodes that are looked through.
  const Stmt *skip(const Stmt *S) {
    while (S) {
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (!E->getSourceExpr()) return S; S = E->getSourceExpr(); }
      else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        switch (E->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
          case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
          case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_NullToPointer:
          case CK_BitCast:
            S = E->getSubExpr(); break;
          default: return S;
        }
      } else return S;
    }
    return S;
  }

  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro that is being expanded
    SourceLocation cur = L;
    std::string name;
    while (cur.isMacroID()) {
      name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
      cur = SM.getImmediateMacroCallerLoc(cur);
      if (!cur.isMacroID()) break;
    }
    // getImmediateMacroCallerLoc of a macro *argument* is its spelling; only
    // report tokens that come from the macro body.
    return name;
  }
  bool inMacroArg(SourceLocation L) {
    while (L.isMacroID()) {
      if (!SM.isMacroArgExpansion(L)) return false;
      L = SM.getImmediateSpellingLoc(L);
    }
    return true;
  }

  Value node(const Stmt *S0) {
    const Stmt *S = skip(S0);
    if (!S) return nullptr;
    // every looked-through wrapper shares the id of the node
    int id = idOf(S);
    for (const Stmt *w = S0; w && w != S;) {
      ids[w] = id;
      const Stmt *n = nullptr;
      for (auto *c : w->children()) { n = c; break; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(w)) n = E->getExpr();
      if (auto *E = dyn_cast<OpaqueValueExpr>(w)) n = E->getSourceExpr();
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(w)) n = E->getReplacement();
      w = n;
    }
    Object o;
    o["i"] = id;
    o["k"] = S->getStmtClassName();
    SourceLocation B = S->getBeginLoc();
    o["l"] = line(B);
    if (B.isMacroID() && !inMacroArg(B)) {
      auto m = macroOf(B);
      if (!m.empty()) o["mac"] = m;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = ty(E->getType());
      auto sh = shape(E->getType());
      if (!sh.empty()) o["s"] = sh;
      if (E->isLValue()) o["lv"] = 1;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b;
          R.Val.getInt().toString(b, 10);
          o["cv"] = b.str().str();
        }
      }
    }
    Array ch;
    auto add = [&](const Stmt *c) { ch.push_back(node(c)); };

    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      auto *D = E->getDecl();
      o["n"] = D->getNameAsString();
      o["d"] = declKey(D);
      o["dk"] = D->getDeclKindName();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> b; EC->getInitVal().toString(b, 10); o["cv"] = b.str().str();
      }
      if (auto *BD = dyn_cast<BindingDecl>(D)) {
        if (BD->getBinding()) o["bind"] = node(BD->getBinding());
        if (auto *HV = BD->getHoldingVar()) o["hold"] = declKey(HV);
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) o["q"] = qname(F);
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      auto *D = E->getMemberDecl();
      o["n"] = D->getNameAsString();
      o["d"] = declKey(D);
      o["q"] = qname(D);
      o["dk"] = D->getDeclKindName();
      if (E->isArrow()) o["arrow"] = 1;
      add(E->getBase());
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) {
        o["f"] = qname(F);
        o["fk"] = funKey(F);
        o["fn"] = F->getNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          if (M->isVirtual()) o["virt"] = 1;
          o["cls"] = qname(M->getParent());
          if (M->isConst()) o["mconst"] = 1;
          if (M->isStatic()) o["mstatic"] = 1;
        }
        if (F->isNoReturn()) o["noret"] = 1;
        if (F->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = 1;
        // by-reference/pointer-to-nonconst parameters
        Array pm;
        for (auto *P : F->parameters()) {
          QualType T = P->getType();
          std::string m = "v";
          if (T->isLValueReferenceType()) m = T->getPointeeType().isConstQualified() ? "cr" : "r";
          else if (T->isRValueReferenceType()) m = "rr";
          else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? "cp" : "p";
          pm.push_back(m);
        }
        o["pm"] = std::move(pm);
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
      add(E->getCallee());
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      o["f"] = qname(E->getConstructor());
      o["fk"] = funKey(E->getConstructor());
      o["cls"] = qname(E->getConstructor()->getParent());
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (E->getConstructor()->isDefaultConstructor()) o["defctor"] = 1;
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      add(E->getExpr());
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> b;
      E->getValue().toString(b, 10, E->getType()->isSignedIntegerType());
      o["cv"] = b.str().str();
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      o["cv"] = std::to_string(E->getValue());
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      if (E->getCharByteWidth() == 1) o["str"] = llvm::json::fixUTF8(E->getString());
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["cv"] = E->getValue() ? "1" : "0";
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      o["op"] = E->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
        o["cs"] = shape(CA->getComputationLHSType());
      }
      add(E->getLHS());
      add(E->getRHS());
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) o["post"] = 1;
      add(E->getSubExpr());
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      o["ck"] = E->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) o["expl"] = 1;
      add(E->getSubExpr());
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      o["fk"] = lambdaKey(E->getLambdaClass());
      Array caps;
      auto inits = E->capture_init_begin();
      for (auto &Cp : E->captures()) {
        Object c;
        if (Cp.capturesThis()) c["this"] = 1;
        else if (Cp.capturesVariable()) {
          c["d"] = declKey(Cp.getCapturedVar());
          c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (*inits) c["init"] = node(*inits);
        ++inits;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      pending_lambdas.push_back(E);
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      if (E->getKind() == UETT_SizeOf) {
        o["sizeof"] = ty(E->getTypeOfArgument());
      }
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
      ids[E] = id; ids[Sem] = id;
      if (auto *RT = Sem->getType()->getAs<RecordType>()) {
        // field names in order
        Array fn;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl()))
          for (unsigned i = 0; i < CR->getNumBases(); i++) fn.push_back("<base>");
        for (auto *Fd : RT->getDecl()->fields()) fn.push_back(Fd->getNameAsString());
        o["fields"] = std::move(fn);
        o["rec"] = qname(RT->getDecl());
      }
      for (auto *I : Sem->inits()) {
        if (I && isa<ImplicitValueInitExpr>(I)) { ch.push_back(Object{{"i", idOf(I)}, {"k", "ImplicitValueInitExpr"}, {"t", ty(I->getType())}}); continue; }
        add(I);
      }
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["at"] = ty(E->getAllocatedType());
      if (E->isArray()) o["arr"] = 1;
      if (E->isArray() && E->getArraySize()) o["size"] = node(*E->getArraySize());
      if (E->getInitializer()) o["ctor"] = node(E->getInitializer());
      else if (E->getConstructExpr()) o["ctor"] = node(E->getConstructExpr());
      for (unsigned i = 0; i < E->getNumPlacementArgs(); i++) add(E->getPlacementArg(i));
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      if (E->isArrayForm()) o["arr"] = 1;
      add(E->getArgument());
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) ch.push_back(var(V));
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      o["init"] = I->getInit() ? node(I->getInit()) : Value(nullptr);
      if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable());
      if (I->isConstexpr()) o["constexpr"] = 1;
      add(I->getCond());
      add(I->getThen());
      add(I->getElse());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      if (W->getConditionVariable()) o["cvar"] = var(W->getConditionVariable());
      add(W->getCond());
      add(W->getBody());
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      add(F->getInit()); add(F->getCond()); add(F->getInc()); add(F->getBody());
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      o["range"] = node(F->getRangeInit());
      o["var"] = var(F->getLoopVariable());
      // the desugared pieces must have ids for the CFG
      Array ds;
      if (F->getInit()) ds.push_back(node(F->getInit()));
      ds.push_back(node(F->getRangeStmt()));
      ds.push_back(node(F->getBeginStmt()));
      ds.push_back(node(F->getEndStmt()));
      ds.push_back(node(F->getCond()));
      ds.push_back(node(F->getInc()));
      ds.push_back(node(F->getLoopVarStmt()));
      o["desugar"] = std::move(ds);
      add(F->getBody());
    } else if (auto *W = dyn_cast<SwitchStmt>(S)) {
      if (W->getInit()) o["init"] = node(W->getInit());
      if (W->getConditionVariable()) o["cvar"] = var(W->getConditionVariable());
      add(W->getCond());
      add(W->getBody());
    } else if (auto *K = dyn_cast<CaseStmt>(S)) {
      o["lhs"] = node(K->getLHS());
      Expr::EvalResult R;
      if (K->getLHS()->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); o["cv"] = b.str().str();
      }
      if (K->getRHS()) {
        o["rhs"] = node(K->getRHS());
        if (K->getRHS()->EvaluateAsInt(R, C)) {
          llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); o["cv2"] = b.str().str();
        }
      }
      add(K->getSubStmt());
    } else if (auto *G = dyn_cast<GotoStmt>(S)) {
      o["n"] = G->getLabel()->getNameAsString();
    } else if (auto *L = dyn_cast<LabelStmt>(S)) {
      o["n"] = L->getName();
      add(L->getSubStmt());
    } else if (auto *T = dyn_cast<CXXThisExpr>(S)) {
      if (T->isImplicit()) o["impl"] = 1;
    } else {
      for (auto *c : S->children()) add(c);
    }
    if (!ch.empty()) o["c"] = std::move(ch);
    return o;
  }

  Value var(const VarDecl *V) {
    Object o;
    o["k"] = "VarDecl";
    o["i"] = idOf(V);
    o["n"] = V->getNameAsString();
    o["d"] = declKey(V);
    o["t"] = ty(V->getType());
    o["s"] = shape(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    if (V->getType().isConstQualified()) o["const"] = 1;
    SourceLocation B = V->getLocation();
    if (B.isMacroID() && !inMacroArg(B)) { auto m = macroOf(B); if (!m.empty()) o["mac"] = m; }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *BD : DD->bindings()) {
        Object x{{"n", BD->getNameAsString()}, {"d", declKey(BD)}, {"t", ty(BD->getType())}, {"s", shape(BD->getType())}};
        if (auto *HV = BD->getHoldingVar()) { x["hold"] = declKey(HV); if (HV->hasInit()) x["init"] = node(HV->getInit()); }
        b.push_back(std::move(x));
      }
      o["bindings"] = std::move(b);
    }
    if (auto *CT = C.getAsConstantArrayType(V->getType())) {
      o["alen"] = (int64_t)CT->getSize().getZExtValue();
      o["aelem"] = ty(CT->getElementType());
    }
    if (V->hasInit() && !isa<ParmVarDecl>(V)) o["init"] = node(V->getInit());
    return o;
  }

  Value cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = false;
    BO.setAllAlwaysAdd();
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) return nullptr;
    Object o;
    o["entry"] = (int64_t)G->getEntry().getBlockID();
    o["exit"] = (int64_t)G->getExit().getBlockID();
    Array bs;
    for (auto *B : *G) {
      Object b;
      b["b"] = (int64_t)B->getBlockID();
      Array es;
      for (auto &E : *B) {
        if (auto S = E.getAs<CFGStmt>()) {
          const Stmt *st = S->getStmt();
          auto it = ids.find(st);
          if (it == ids.end()) {
            const Stmt *k = skip(st);
            it = ids.find(k);
          }
          if (it != ids.end()) {
            int id = it->second;
            if (es.empty() || !(es.back().getAsInteger() && *es.back().getAsInteger() == id)) es.push_back(id);
          }
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          es.push_back(Object{{"dtor", declKey(D->getVarDecl())}, {"t", ty(D->getVarDecl()->getType())}});
        } else if (auto I = E.getAs<CFGInitializer>()) {
          auto *CI = I->getInitializer();
          auto it = ids.find(CI);
          if (it != ids.end()) es.push_back(it->second);
        }
      }
      b["e"] = std::move(es);
      if (auto *T = B->getTerminatorStmt()) {
        auto it = ids.find(T);
        if (it == ids.end()) it = ids.find(skip(T));
        if (it != ids.end()) b["term"] = it->second;
        b["tk"] = T->getStmtClassName();
        if (B->getTerminator().isTemporaryDtorsBranch()) b["tdb"] = 1;
      }
      if (auto *T = B->getTerminatorCondition(false)) {
        auto it = ids.find(T);
        if (it == ids.end()) it = ids.find(skip(T));
        if (it != ids.end()) b["cond"] = it->second;
      }
      if (auto *L = B->getLabel()) {
        auto it = ids.find(L);
        if (it != ids.end()) b["label"] = it->second;
      }
      if (B->hasNoReturnElement()) b["noret"] = 1;
      Array ss;
      for (auto &Su : B->succs()) {
        const CFGBlock *R = Su.getReachableBlock();
        if (R) ss.push_back((int64_t)R->getBlockID());
        else ss.push_back(nullptr);
      }
      b["s"] = std::move(ss);
      bs.push_back(std::move(b));
    }
    o["blocks"] = std::move(bs);
    return o;
  }

  Value function(const FunctionDecl *F, const std::string &file, const std::string &parent) {
    ids.clear();
    next_id = 0;
    if (parent.empty()) local_keys.clear();
    Object o;
    o["key"] = funKey(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    o["file"] = file;
    o["line"] = line(F->getLocation());
    o["end"] = line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    o["rets"] = shape(F->getReturnType());
    if (!parent.empty()) o["parent"] = parent;
    if (F->isNoReturn()) o["noret"] = 1;
    if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) o["internal"] = 1;
    if (F->isInlined()) o["inline"] = 1;
    if (F->isTemplateInstantiation()) o["tinst"] = 1;
    Array ps;
    for (auto *P : F->parameters()) {
      Object p{{"n", P->getNameAsString()}, {"d", declKey(P)}, {"t", ty(P->getType())}, {"s", shape(P->getType())}};
      QualType T = P->getType();
      if (T->isReferenceType()) p["ref"] = 1;
      if ((T->isReferenceType() || T->isPointerType()) && T->getPointeeType().isConstQualified()) p["pconst"] = 1;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clsT"] = ty(C.getRecordType(M->getParent()));
      if (M->isConst()) o["const"] = 1;
      if (M->isStatic()) o["static"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(funKey(O));
      if (!ov.empty()) o["over"] = std::move(ov);
      const char *ac = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      o["access"] = ac;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      if (CD->isCopyConstructor()) o["copyctor"] = 1;
      if (CD->isMoveConstructor()) o["movector"] = 1;
      if (CD->isDelegatingConstructor()) o["delegating"] = 1;
      Array is;
      for (auto *I : CD->inits()) {
        Object x;
        if (I->isAnyMemberInitializer()) {
          x["m"] = I->getAnyMember()->getNameAsString();
          x["q"] = qname(I->getAnyMember());
        } else if (I->isBaseInitializer()) {
          x["base"] = ty(QualType(I->getBaseClass(), 0));
        }
        if (I->isWritten()) x["w"] = 1;
        x["i"] = idOf(I);
        x["k"] = "CtorInit";
        x["l"] = line(I->getSourceLocation());
        if (isa<CXXDefaultInitExpr>(I->getInit())) x["definit"] = 1;
        x["init"] = node(I->getInit());
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
    o["body"] = node(F->getBody());
    o["cfg"] = cfg(F);
    return o;
  }

  Value record(const CXXRecordDecl *R, const std::string &file) {
    Object o;
    o["q"] = qname(R);
    o["t"] = ty(C.getRecordType(R));
    o["file"] = file;
    o["line"] = line(R->getLocation());
    Array fs;
    for (auto *F : R->fields()) {
      Object f{{"n", F->getNameAsString()}, {"t", ty(F->getType())}, {"s", shape(F->getType())},
               {"l", line(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["def"] = 1;
      QualType T = F->getType();
      if (T.isConstQualified()) f["const"] = 1;
      if (T->isReferenceType()) f["ref"] = 1;
      if (auto *RD = T->getAsCXXRecordDecl()) {
        f["rec"] = qname(RD);
        if (RD->hasDefinition() && RD->isAggregate()) f["agg"] = 1;
      }
      if (F->hasAttrs()) {
        Array at;
        for (auto *A : F->attrs()) {
          std::string s; llvm::raw_string_ostream os(s); A->printPretty(os, PP); at.push_back(os.str());
        }
        f["attrs"] = std::move(at);
      }
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &B : R->bases()) {
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(qname(BR));
    }
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *M : R->methods()) {
      Object m{{"n", M->getNameAsString()}, {"key", M->isImplicit() && isa<CXXConstructorDecl>(M) ? "implicit" : funKey(M)}};
      if (M->isImplicit()) m["implicit"] = 1;
      if (M->isDefaulted()) m["defaulted"] = 1;
      if (M->isDeleted()) m["deleted"] = 1;
      if (M->isVirtual()) m["virt"] = 1;
      if (M->isPureVirtual()) m["pure"] = 1;
      if (M->isConst()) m["const"] = 1;
      m["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        m["ctor"] = 1;
        if (CD->isDefaultConstructor()) m["defctor"] = 1;
        if (CD->isCopyConstructor()) m["copyctor"] = 1;
        if (CD->isMoveConstructor()) m["movector"] = 1;
      }
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = 1;
      if (M->isCopyAssignmentOperator()) m["copyassign"] = 1;
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    if (R->isAggregate()) o["agg"] = 1;
    if (R->isAbstract()) o["abstract"] = 1;
    if (R->isUnion()) o["union"] = 1;
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Dumper &D) : D(D) {}
  Dumper &D;
  Array funcs, recs, enums, globals;
  std::set<std::string> seen;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  void emit(const FunctionDecl *F, const std::string &file, const std::string &parent) {
    std::string k = D.funKey(F);
    if (!seen.insert(k).second) return;
    auto saved_ids = D.ids; auto saved_next = D.next_id;
    D.pending_lambdas.clear();
    funcs.push_back(D.function(F, file, parent));
    auto pl = D.pending_lambdas;
    for (auto *L : pl) {
      auto *Op = L->getCallOperator();
      if (!Op) continue;
      std::string f2; if (!D.inRoot(L->getBeginLoc(), &f2)) f2 = file;
      if (L->isGenericLambda()) {
        for (auto *I : L->getDependentCallOperator()->specializations())
          if (I->getBody()) emit(I, f2, k);
      } else if (Op->getBody()) emit(Op, f2, k);
    }
    D.ids = saved_ids; D.next_id = saved_next;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->getBody()) return true;
    if (F->isDependentContext()) return true;
    if (F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string file;
    if (!D.inRoot(F->getLocation(), &file)) return true;
    emit(F, file, "");
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string file;
    if (!D.inRoot(R->getLocation(), &file)) return true;
    if (!seen.insert("rec:" + D.ty(D.C.getRecordType(R))).second) return true;
    recs.push_back(D.record(R, file));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition()) return true;
    std::string file;
    if (!D.inRoot(E->getLocation(), &file)) return true;
    Object o;
    o["q"] = D.qname(E);
    o["file"] = file;
    Array cs;
    for (auto *C : E->enumerators()) {
      llvm::SmallString<32> b; C->getInitVal().toString(b, 10);
      cs.push_back(Object{{"n", C->getNameAsString()}, {"v", b.str().str()}});
    }
    o["consts"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !V->isThisDeclarationADefinition()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    std::string file;
    if (!D.inRoot(V->getLocation(), &file)) return true;
    D.ids.clear(); D.next_id = 0; D.local_keys.clear(); D.pending_lambdas.clear();
    Object o;
    o["q"] = D.qname(V);
    o["file"] = file;
    o["line"] = D.line(V->getLocation());
    o["t"] = D.ty(V->getType());
    o["s"] = D.shape(V->getType());
    if (V->getType().isConstQualified()) o["const"] = 1;
    if (V->hasInit()) o["init"] = D.node(V->getInit());
    globals.push_back(std::move(o));
    auto pl = D.pending_lambdas;
    for (auto *L : pl) {
      auto *Op = L->getCallOperator();
      if (Op && Op->getBody() && !L->isGenericLambda()) emit(Op, file, "global:" + D.qname(V));
    }
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance &CI, std::string f) : CI(CI), File(f) {}
  CompilerInstance &CI;
  std::string File;
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["tu"] = File;
    o["functions"] = std::move(V.funcs);
    o["records"] = std::move(V.recs);
    o["enums"] = std::move(V.enums);
    o["globals"] = std::move(V.globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    os << Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Consumer>(CI, F.str());
  }
};
}  // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
