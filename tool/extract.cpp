// Clang plugin: writes the type-checked program of one translation unit as JSON.
// Everything whose expansion lies below the root given as plugin argument is written:
// enums, records, globals with initialisers, functions with body (syntax tree) and CFG.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <string>
#include <vector>
using namespace clang;

namespace {

struct Extract {
  ASTContext &C;
  SourceManager &SM;
  std::string Root;
  llvm::raw_ostream &O;
  std::map<const void *, int> DeclIds;
  std::map<const Stmt *, int> NodeIds;
  int NextNode = 1, NextDecl = 1;
  std::map<const void *, int> TypeIds;
  std::vector<std::string> TypeOut;
  std::vector<std::string> Files;
  std::map<std::string, int> FileIds;

  Extract(ASTContext &C, std::string Root, llvm::raw_ostream &O)
      : C(C), SM(C.getSourceManager()), Root(Root), O(O) {}

  static std::string js(llvm::StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  int fileId(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return -1;
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return -1;
    llvm::SmallString<256> S(P.getFilename());
    llvm::sys::path::remove_dots(S, true);
    std::string f = S.str().str();
    auto it = FileIds.find(f);
    if (it != FileIds.end()) return it->second;
    int id = Files.size();
    Files.push_back(f);
    FileIds[f] = id;
    return id;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getPresumedLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    int f = fileId(L);
    if (f < 0) return false;
    const std::string &n = Files[f];
    return llvm::StringRef(n).starts_with(Root);
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    return DeclIds[D] = NextDecl++;
  }
  // type table: [spelling, canonical, kind, bytes, element/pointee type, array count, record name]
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    const void *key = T.getAsOpaquePtr();
    auto it = TypeIds.find(key);
    if (it != TypeIds.end()) return it->second;
    int id = TypeOut.size();
    TypeIds[key] = id;
    TypeOut.push_back("");
    QualType K = T.getCanonicalType();
    const char *kind = "other";
    int el = -1;
    long long n = -1, size = -1;
    std::string rec;
    if (K->isReferenceType()) { kind = "ref"; el = typeId(K->getPointeeType()); }
    else if (K->isVoidType()) kind = "void";
    else if (K->isBooleanType()) { kind = "bool"; }
    else if (K->isEnumeralType()) { kind = "enum"; if (auto *ET = K->getAs<EnumType>()) rec = ET->getDecl()->getNameAsString(); }
    else if (K->isAnyCharacterType()) kind = K->isSignedIntegerType() ? "char" : "uchar";
    else if (K->isIntegerType()) kind = K->isSignedIntegerType() ? "int" : "uint";
    else if (K->isFloatingType()) kind = "float";
    else if (K->isPointerType()) { kind = "ptr"; el = typeId(K->getPointeeType()); }
    else if (auto *AT = C.getAsConstantArrayType(K)) { kind = "arr"; el = typeId(AT->getElementType()); n = AT->getSize().getZExtValue(); }
    else if (auto *AT = C.getAsArrayType(K)) { kind = "vla"; el = typeId(AT->getElementType()); }
    else if (auto *RT = K->getAs<RecordType>()) {
      kind = "rec"; rec = RT->getDecl()->getNameAsString();
      if (rec.empty()) if (auto *TD = RT->getDecl()->getTypedefNameForAnonDecl()) rec = TD->getNameAsString();
    }
    else if (K->isFunctionType()) kind = "func";
    if (!K->isPlaceholderType() && !K->isIncompleteType() && !K->isFunctionType() && !K->isDependentType() && !K->isVoidType() && !K->isVariableArrayType())
      size = C.getTypeSizeInChars(K).getQuantity();
    std::string s;
    llvm::raw_string_ostream os(s);
    os << "[" << js(T.getAsString()) << "," << js(K.getAsString()) << ",\"" << kind << "\"," << size << "," << el << "," << n << "," << js(rec) << "," << (T.isConstQualified() ? 1 : 0) << "]";
    os.flush();
    TypeOut[id] = s;
    return id;
  }
  void constVal(const Expr *E, std::string &a) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType() && !E->isLValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        a += ",\"v\":"; a += S.str().str();
      }
    } else if (T->isRealFloatingType() && !E->isLValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && R.Val.isFloat() && !R.HasSideEffects) {
        double d; llvm::APFloat F = R.Val.getFloat(); bool li;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        d = F.convertToDouble();
        if (d == d && d < 1e308 && d > -1e308) { char b[64]; snprintf(b, 64, ",\"v\":%.17g", d); a += b; }
      }
    }
  }
  // node: [kind, id, line, type, {attrs}, [children]]
  void node(const char *k, const Stmt *S, int ty, const std::string &attrs, const std::vector<const Stmt *> &kids) {
    int id = NextNode++;
    if (S) NodeIds[S] = id;
    O << "[\"" << k << "\"," << id << "," << (S ? line(S->getBeginLoc()) : 0) << "," << ty << ",{";
    if (!attrs.empty()) O << (attrs[0] == ',' ? attrs.substr(1) : attrs);
    O << "},[";
    bool first = true;
    for (auto *c : kids) {
      if (!first) O << ",";
      first = false;
      if (c) emit(c); else O << "null";
    }
    O << "]]";
  }
  std::string at(const char *k, llvm::StringRef v) { return std::string(",\"") + k + "\":" + js(v); }
  std::string at(const char *k, long long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }

  void refAttrs(const ValueDecl *D, std::string &a) {
    a += at("name", D->getNameAsString());
    a += at("d", declId(D));
    const char *dk = "other";
    if (isa<EnumConstantDecl>(D)) dk = "enum";
    else if (isa<ParmVarDecl>(D)) dk = "parm";
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      dk = V->hasGlobalStorage() ? (V->isStaticLocal() ? "static" : "global") : "var";
      if (V->getTSCSpec() != TSCS_unspecified) dk = "tls";
    } else if (isa<FunctionDecl>(D)) dk = "func";
    a += at("dk", dk);
  }
  void varDecl(const VarDecl *V) {
    std::string a;
    int id = NextNode++;
    O << "[\"var\"," << id << "," << line(V->getLocation()) << "," << typeId(V->getType()) << ",{";
    a += at("name", V->getNameAsString());
    a += at("d", declId(V));
    if (V->isStaticLocal()) a += at("st", 1);
    O << a.substr(1) << "},[";
    if (V->getInit()) emit(V->getInit());
    O << "]]";
  }
  static const Stmt *strip(const Stmt *S) {
    for (;;) {
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CapturedStmt>(S)) S = E->getCapturedStmt();
      else if (auto *E = dyn_cast<AttributedStmt>(S)) S = E->getSubStmt();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        switch (E->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay: case CK_BitCast: case CK_BuiltinFnToFnPtr:
          S = E->getSubExpr(); break;
        default: return S;
        }
      } else return S;
    }
  }
  void emit(const Stmt *S0) {
    const Stmt *S = strip(S0);
    std::string a;
    int ty = -1;
    const Expr *E = dyn_cast<Expr>(S);
    if (E) { ty = typeId(E->getType()); constVal(E, a); }
    std::vector<const Stmt *> kids;
    auto dflt = [&]() { for (auto *c : S->children()) kids.push_back(c); };
    const char *k = nullptr;
    if (auto *X = dyn_cast<DeclRefExpr>(S)) { k = "ref"; refAttrs(X->getDecl(), a); }
    else if (auto *X = dyn_cast<MemberExpr>(S)) {
      k = "mem"; a += at("name", X->getMemberDecl()->getNameAsString());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        std::string r = FD->getParent()->getNameAsString();
        if (r.empty()) if (auto *TD = FD->getParent()->getTypedefNameForAnonDecl()) r = TD->getNameAsString();
        a += at("rec", r);
      }
      if (X->isArrow()) a += at("arrow", 1);
      kids.push_back(X->getBase());
    }
    else if (isa<IntegerLiteral>(S) || isa<CXXBoolLiteralExpr>(S)) k = "int";
    else if (isa<CharacterLiteral>(S)) k = "chr";
    else if (isa<FloatingLiteral>(S)) k = "flt";
    else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { k = "null"; a = at("v", 0); }
    else if (auto *X = dyn_cast<StringLiteral>(S)) { k = "str"; if (X->getCharByteWidth() == 1) a += at("s", X->getString()); }
    else if (auto *X = dyn_cast<BinaryOperator>(S)) { k = "bin"; a += at("op", X->getOpcodeStr()); dflt(); }
    else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      k = "un"; std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      a += at("op", op); dflt();
    }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) { k = "idx"; kids = {X->getBase(), X->getIdx()}; }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      k = "call"; if (auto *F = X->getDirectCallee()) a += at("fn", F->getNameAsString());
      kids.push_back(nullptr);
      for (auto *c : X->arguments()) kids.push_back(c);
      a += at("opcall", 1);
    }
    else if (auto *X = dyn_cast<CallExpr>(S)) {
      k = "call";
      if (auto *F = X->getDirectCallee()) {
        a += at("fn", F->getNameAsString()); a += at("d", declId(F));
        if (F->isNoReturn()) a += at("noret", 1);
      }
      kids.push_back(X->getCallee());
      for (auto *c : X->arguments()) kids.push_back(c);
    }
    else if (auto *X = dyn_cast<CastExpr>(S)) {
      k = "cast"; a += at("ck", X->getCastKindName());
      if (isa<ImplicitCastExpr>(S)) a += at("imp", 1);
      kids.push_back(X->getSubExpr());
    }
    else if (isa<ConditionalOperator>(S)) { k = "cond"; dflt(); }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      k = "sizeof"; a += at("of", typeId(X->getTypeOfArgument()));
      if (!X->isArgumentType()) kids.push_back(X->getArgumentExpr());
    }
    else if (auto *X = dyn_cast<InitListExpr>(S)) {
      k = "init"; const InitListExpr *Y = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *c : Y->inits()) kids.push_back(c);
    }
    else if (isa<ImplicitValueInitExpr>(S)) k = "zero";
    else if (auto *X = dyn_cast<CXXConstructExpr>(S)) { k = "ctor"; a += at("fn", X->getConstructor()->getNameAsString()); dflt(); }
    else if (isa<CompoundStmt>(S)) { k = "block"; dflt(); }
    else if (auto *X = dyn_cast<IfStmt>(S)) { k = "if"; kids = {X->getCond(), X->getThen(), X->getElse()}; }
    else if (auto *X = dyn_cast<ForStmt>(S)) { k = "for"; kids = {X->getInit(), X->getCond(), X->getInc(), X->getBody()}; }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { k = "while"; kids = {X->getCond(), X->getBody()}; }
    else if (auto *X = dyn_cast<DoStmt>(S)) { k = "do"; kids = {X->getBody(), X->getCond()}; }
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { k = "switch"; kids = {X->getCond(), X->getBody()}; }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { k = "case"; kids = {X->getLHS(), X->getRHS(), X->getSubStmt()}; }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { k = "default"; kids = {X->getSubStmt()}; }
    else if (isa<BreakStmt>(S)) k = "break";
    else if (isa<ContinueStmt>(S)) k = "continue";
    else if (isa<ReturnStmt>(S)) { k = "return"; dflt(); }
    else if (isa<NullStmt>(S)) k = "nop";
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      int id = NextNode++;
      NodeIds[S] = id;
      O << "[\"decl\"," << id << "," << line(S->getBeginLoc()) << ",-1,{},[";
      bool first = true;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!first) O << ","; first = false; varDecl(V); }
      O << "]]";
      return;
    }
    else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) { omp(X); return; }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { k = "range"; kids = {X->getRangeInit(), X->getBody()}; }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { k = "goto"; a += at("label", X->getLabel()->getName()); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { k = "label"; a += at("label", X->getName()); kids = {X->getSubStmt()}; }
    else { k = "other"; a += at("cls", S->getStmtClassName()); dflt(); }
    node(k, S, ty, a, kids);
  }
  void omp(const OMPExecutableDirective *D) {
    int id = NextNode++;
    NodeIds[D] = id;
    O << "[\"omp\"," << id << "," << line(D->getBeginLoc()) << ",-1,{\"dir\":"
      << js(llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind())) << ",\"cl\":[";
    bool first = true;
    for (auto *Cl : D->clauses()) {
      if (Cl->isImplicit()) continue;
      if (!first) O << ",";
      first = false;
      O << "{\"k\":" << js(llvm::omp::getOpenMPClauseName(Cl->getClauseKind())) << ",\"vars\":[";
      auto vars = [&](auto *X) {
        bool f = true;
        for (auto *V : X->varlists()) {
          auto *R = dyn_cast<DeclRefExpr>(V->IgnoreParenImpCasts());
          if (!R) continue;
          if (!f) O << ",";
          f = false;
          O << "[" << js(R->getDecl()->getNameAsString()) << "," << declId(R->getDecl()) << "]";
        }
      };
      std::string extra;
      if (auto *X = dyn_cast<OMPPrivateClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPFirstprivateClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPLastprivateClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPSharedClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPReductionClause>(Cl)) { vars(X); extra = at("op", X->getNameInfo().getAsString()); }
      else if (auto *X = dyn_cast<OMPCopyinClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPLinearClause>(Cl)) vars(X);
      else if (auto *X = dyn_cast<OMPDefaultClause>(Cl)) extra = at("default", X->getDefaultKind() == llvm::omp::OMP_DEFAULT_none ? "none" : "shared");
      O << "]" << extra;
      if (auto *X = dyn_cast<OMPCollapseClause>(Cl)) { O << ",\"n\":"; emit(X->getNumForLoops()); }
      O << "}";
    }
    O << "]},[";
    if (D->hasAssociatedStmt()) {
      const Stmt *B = D->isStandaloneDirective() ? nullptr : D->getRawStmt();
      if (B) emit(B);
    }
    O << "]]";
  }
  void cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.PruneTriviallyFalseEdges = false;
    BO.AddEHEdges = false;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) { O << "null"; return; }
    auto nid = [&](const Stmt *S) -> int {
      if (!S) return 0;
      auto it = NodeIds.find(strip(S));
      return it == NodeIds.end() ? 0 : it->second;
    };
    O << "{\"entry\":" << G->getEntry().getBlockID() << ",\"exit\":" << G->getExit().getBlockID() << ",\"b\":{";
    bool fb = true;
    for (auto *B : *G) {
      if (!fb) O << ",";
      fb = false;
      O << "\"" << B->getBlockID() << "\":[[";
      bool f = true;
      int prev = 0;
      for (auto &El : *B) {
        if (auto CS = El.getAs<CFGStmt>()) {
          const Stmt *S = CS->getStmt();
          int n = nid(S);
          if (!n || n == prev) continue;
          if (!f) O << ",";
          f = false;
          O << n;
          prev = n;
        }
      }
      const Stmt *T = B->getTerminatorStmt();
      O << "]," << nid(T) << "," << nid(B->getTerminatorCondition(false)) << "," << nid(B->getLabel()) << ",[";
      f = true;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
        if (!f) O << ",";
        f = false;
        const CFGBlock *T2 = I->getReachableBlock();
        if (!T2) T2 = I->getPossiblyUnreachableBlock();
        O << (T2 ? (int)T2->getBlockID() : -1);
      }
      O << "]," << (B->hasNoReturnElement() ? 1 : 0) << "]";
    }
    O << "}}";
  }
  void function(const FunctionDecl *F) {
    O << "{\"name\":" << js(F->getNameAsString()) << ",\"d\":" << declId(F) << ",\"file\":" << fileId(F->getLocation())
      << ",\"line\":" << line(F->getLocation()) << ",\"end\":" << line(F->getEndLoc())
      << ",\"static\":" << (F->getStorageClass() == SC_Static ? 1 : 0)
      << ",\"ret\":" << typeId(F->getReturnType()) << ",\"params\":[";
    bool f = true;
    for (auto *P : F->parameters()) {
      if (!f) O << ",";
      f = false;
      O << "[" << js(P->getNameAsString()) << "," << declId(P) << "," << typeId(P->getType()) << "]";
    }
    O << "],\"body\":";
    emit(F->getBody());
    O << ",\"cfg\":";
    cfg(F);
    O << "}";
  }
  void run(TranslationUnitDecl *TU) {
    std::vector<const FunctionDecl *> Fs, Protos;
    std::vector<const VarDecl *> Vs;
    std::vector<const EnumDecl *> Es;
    std::vector<const RecordDecl *> Rs;
    std::vector<const DeclContext *> Work{TU};
    while (!Work.empty()) {
      auto *DC = Work.back(); Work.pop_back();
      for (auto *D : DC->decls()) {
        if (auto *L = dyn_cast<LinkageSpecDecl>(D)) { Work.push_back(L); continue; }
        if (auto *N = dyn_cast<NamespaceDecl>(D)) { if (inRoot(D->getLocation())) Work.push_back(N); continue; }
        if (!inRoot(D->getLocation())) continue;
        if (auto *F = dyn_cast<FunctionDecl>(D)) { if (F->doesThisDeclarationHaveABody() && !F->isDependentContext()) Fs.push_back(F); else Protos.push_back(F); }
        else if (auto *V = dyn_cast<VarDecl>(D)) Vs.push_back(V);
        else if (auto *E = dyn_cast<EnumDecl>(D)) { if (E->isCompleteDefinition()) Es.push_back(E); }
        else if (auto *R = dyn_cast<RecordDecl>(D)) { if (R->isCompleteDefinition()) Rs.push_back(R); }
      }
    }
    O << "{\"enums\":[";
    bool f = true;
    for (auto *E : Es) {
      if (!f) O << ",";
      f = false;
      O << "{\"name\":" << js(E->getNameAsString()) << ",\"file\":" << fileId(E->getLocation()) << ",\"line\":" << line(E->getLocation()) << ",\"c\":[";
      bool g = true;
      for (auto *K : E->enumerators()) {
        if (!g) O << ",";
        g = false;
        llvm::SmallString<32> S; K->getInitVal().toString(S, 10);
        O << "[" << js(K->getNameAsString()) << "," << S.str() << "]";
      }
      O << "]}";
    }
    O << "],\n\"records\":[";
    f = true;
    for (auto *R : Rs) {
      if (!f) O << ",";
      f = false;
      std::string n = R->getNameAsString();
      if (n.empty()) if (auto *TD = R->getTypedefNameForAnonDecl()) n = TD->getNameAsString();
      O << "{\"name\":" << js(n) << ",\"file\":" << fileId(R->getLocation()) << ",\"line\":" << line(R->getLocation()) << ",\"f\":[";
      bool g = true;
      for (auto *K : R->fields()) {
        if (!g) O << ",";
        g = false;
        O << "[" << js(K->getNameAsString()) << "," << typeId(K->getType()) << "," << line(K->getLocation()) << "]";
      }
      O << "]}";
    }
    O << "],\n\"protos\":[";
    f = true;
    for (auto *F : Protos) {
      if (!f) O << ",";
      f = false;
      O << "{\"name\":" << js(F->getNameAsString()) << ",\"file\":" << fileId(F->getLocation()) << ",\"line\":" << line(F->getLocation()) << ",\"ret\":" << typeId(F->getReturnType()) << ",\"params\":[";
      bool g = true;
      for (auto *P : F->parameters()) { if (!g) O << ","; g = false; O << "[" << js(P->getNameAsString()) << "," << typeId(P->getType()) << "]"; }
      O << "]}";
    }
    O << "],\n\"globals\":[";
    f = true;
    for (auto *V : Vs) {
      if (!f) O << ",";
      f = false;
      O << "{\"file\":" << fileId(V->getLocation()) << ",\"def\":" << (V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? 1 : 0)
        << ",\"static\":" << (V->getStorageClass() == SC_Static ? 1 : 0) << ",\"n\":";
      varDecl(V);
      O << "}";
    }
    O << "],\n\"functions\":[";
    f = true;
    for (auto *F : Fs) {
      if (!f) O << ",\n";
      f = false;
      function(F);
    }
    O << "],\n\"types\":[";
    for (size_t i = 0; i < TypeOut.size(); i++) O << (i ? "," : "") << TypeOut[i];
    O << "],\n\"files\":[";
    for (size_t i = 0; i < Files.size(); i++) O << (i ? "," : "") << js(Files[i]);
    O << "]}\n";
  }
};

class Consumer : public ASTConsumer {
  std::string Root, Out;
public:
  Consumer(std::string R, std::string O) : Root(R), Out(O) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    if (EC) return;
    Extract X(C, Root, OS);
    X.run(C.getTranslationUnitDecl());
  }
};
class Action : public PluginASTAction {
  std::string Root, Out;
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>(Root, Out);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &A) override {
    for (auto &s : A) {
      if (llvm::StringRef(s).starts_with("root=")) Root = s.substr(5);
      if (llvm::StringRef(s).starts_with("out=")) Out = s.substr(4);
    }
    return true;
  }
};
} // namespace
static FrontendPluginRegistry::Add<Action> X("force-extract", "write the program as JSON");
