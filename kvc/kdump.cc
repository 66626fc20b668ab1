// kdump: dumps the typed AST of every instantiated function whose body lies under a given
// source prefix (argv[2], comma separated) as one JSON document on stdout.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>

#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> prefixes;

static Value ext(const llvm::APSInt& v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  llvm::SmallString<32> s;
  v.toString(s, 10);
  return s.str().str();
}

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  std::map<const Type*, int> tids;
  std::vector<Value> types;
  std::map<const Decl*, int> fids;
  std::vector<const FunctionDecl*> flist;
  std::map<const Decl*, int> vids;
  Array gvars;
  std::set<const Decl*> gseen;
  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  int lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool inScope(SourceLocation l) {
    auto f = fileOf(l);
    for (auto& p : prefixes)
      if (f.rfind(p, 0) == 0) return true;
    return false;
  }

  int vid(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = vids.find(d);
    if (it != vids.end()) return it->second;
    int n = vids.size();
    vids[d] = n;
    return n;
  }

  int tid(QualType q) {
    if (q.isNull()) return -1;
    q = C.getCanonicalType(q).getUnqualifiedType();
    const Type* t = q.getTypePtr();
    auto it = tids.find(t);
    if (it != tids.end()) return it->second;
    int id = types.size();
    tids[t] = id;
    types.push_back(nullptr);
    Object o;
    if (auto* bt = dyn_cast<BuiltinType>(t)) {
      o["k"] = "b";
      o["n"] = bt->getName(C.getPrintingPolicy()).str();
    } else if (auto* rt = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(t);
      o["to"] = tid(rt->getPointeeType());
      o["const"] = rt->getPointeeType().isConstQualified();
    } else if (auto* pt = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = tid(pt->getPointeeType());
      o["const"] = pt->getPointeeType().isConstQualified();
    } else if (auto* at = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["to"] = tid(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (auto* et = dyn_cast<EnumType>(t)) {
      o["k"] = "e";
      o["n"] = et->getDecl()->getQualifiedNameAsString();
      o["u"] = tid(et->getDecl()->getIntegerType());
      Object cs;
      for (auto* e : et->getDecl()->enumerators()) cs[e->getName().str()] = ext(e->getInitVal());
      o["consts"] = std::move(cs);
    } else if (auto* rt = dyn_cast<RecordType>(t)) {
      auto* rd = rt->getDecl();
      o["k"] = "r";
      o["n"] = rd->getQualifiedNameAsString();
      if (auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        Array a;
        for (auto& ta : cs->getTemplateArgs().asArray()) pushArg(a, ta);
        o["targs"] = std::move(a);
      }
      if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) o["lambda"] = cr->isLambda();
      if (auto* ctx = dyn_cast<RecordDecl>(rd->getDeclContext())) o["outer"] = tid(C.getRecordType(ctx));
      auto* def = rd->getDefinition();
      if (def && inScope(def->getLocation())) {
        Array fs;
        for (auto* f : def->fields()) {
          Object fo;
          fo["n"] = f->getName().str();
          fo["t"] = tid(f->getType());
          fo["mut"] = f->isMutable();
          if (f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isTypeDependent()) fo["init"] = expr(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        if (auto* cr = dyn_cast<CXXRecordDecl>(def))
          for (auto& b : cr->bases()) bs.push_back(tid(b.getType()));
        o["bases"] = std::move(bs);
        o["file"] = fileOf(def->getLocation());
      } else if (def) {
        if (auto* cr = dyn_cast<CXXRecordDecl>(def)) {
          Array bs;
          for (auto& b : cr->bases()) bs.push_back(tid(b.getType()));
          o["bases"] = std::move(bs);
        }
      }
    } else if (auto* ft = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn";
      o["ret"] = tid(ft->getReturnType());
    } else {
      o["k"] = "?";
      o["n"] = q.getAsString();
    }
    types[id] = std::move(o);
    return id;
  }

  void pushArg(Array& a, const TemplateArgument& ta) {
    switch (ta.getKind()) {
      case TemplateArgument::Type: a.push_back(tid(ta.getAsType())); break;
      case TemplateArgument::Integral: {
        Object o;
        o["int"] = ext(ta.getAsIntegral());
        a.push_back(std::move(o));
        break;
      }
      case TemplateArgument::Pack:
        for (auto& x : ta.pack_elements()) pushArg(a, x);
        break;
      default: a.push_back(nullptr);
    }
  }

  int fid(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def) && def) f = def;
    else f = f->getCanonicalDecl();
    auto it = fids.find(f);
    if (it != fids.end()) return it->second;
    int n = flist.size();
    fids[f] = n;
    flist.push_back(f);
    return n;
  }

  Value var(const VarDecl* v) {
    Object o;
    o["k"] = "Var";
    o["d"] = vid(v);
    o["n"] = v->getName().str();
    o["t"] = tid(v->getType());
    o["l"] = lineOf(v->getLocation());
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto* b : dd->bindings()) {
        Object bo;
        bo["d"] = vid(b);
        bo["n"] = b->getName().str();
        bo["t"] = tid(b->getType());
        if (auto* hv = b->getHoldingVar()) bo["hv"] = var(hv);
        else if (b->getBinding()) bo["e"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["binds"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return expr(e);
    Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decls";
      Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["s"] = std::move(a);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      if (x->isConstexpr()) o["cx"] = true;
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      o["init"] = stmt(x->getInit());
      o["c"] = x->getCond() ? expr(x->getCond()) : Value(nullptr);
      o["inc"] = x->getInc() ? expr(x->getInc()) : Value(nullptr);
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "ForRange";
      o["init"] = stmt(x->getInit());
      o["range"] = stmt(x->getRangeStmt());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["var"] = var(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["v"] = expr(x->getLHS());
      if (x->getRHS()) o["v2"] = expr(x->getRHS());
      o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["s"] = stmt(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "Break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "Continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "Null";
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return";
      o["e"] = x->getRetValue() ? expr(x->getRetValue()) : Value(nullptr);
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["body"] = stmt(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        Object ho;
        ho["t"] = h->getExceptionDecl() ? tid(h->getCaughtType()) : -1;
        if (h->getExceptionDecl()) ho["var"] = var(h->getExceptionDecl());
        ho["body"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else {
      o["k"] = "Unsup";
      o["n"] = s->getStmtClassName();
    }
    return o;
  }

  template <class R>
  Array exprs(R r) {
    Array a;
    for (auto* x : r) a.push_back(expr(x));
    return a;
  }

  Value expr(const Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    Object o;
    o["t"] = tid(e->getType());
    o["l"] = lineOf(e->getBeginLoc());
    if (e->isLValue()) o["lv"] = 1;
    else if (e->isXValue()) o["lv"] = 2;
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Temp";
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "Int";
        llvm::SmallString<32> es;
        ec->getInitVal().toString(es, 10);
        o["v"] = es.str().str();
      } else if (auto* fd = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "Fn";
        o["fn"] = fid(fd);
      } else {
        o["k"] = "Ref";
        o["d"] = vid(d);
        o["n"] = d->getName().str();
        if (auto* vd = dyn_cast<VarDecl>(d)) {
          if (vd->hasGlobalStorage() && !vd->isStaticLocal()) {
            o["g"] = vd->getQualifiedNameAsString();
            auto* def = vd->getAnyInitializer() ? vd : vd;
            if (gseen.insert(vd->getCanonicalDecl()).second) {
              Object go;
              go["d"] = vid(vd);
              go["n"] = vd->getQualifiedNameAsString();
              go["t"] = tid(vd->getType());
              go["const"] = vd->getType().isConstQualified();
              go["tls"] = vd->getTLSKind() != VarDecl::TLS_None;
              const VarDecl* iv = nullptr;
              auto* in = vd->getAnyInitializer(iv);
              if (in && inScope(in->getBeginLoc()) && !in->isValueDependent()) go["init"] = expr(in);
              gvars.push_back(std::move(go));
            }
            (void)def;
          }
        }
      }
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      o["obj"] = expr(x->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
      if (auto* md = x->getMethodDecl()) o["fn"] = fid(md);
      o["args"] = exprs(x->arguments());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* fd = x->getDirectCallee()) {
        o["fn"] = fid(fd);
        o["m"] = isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic();
      }
      o["args"] = exprs(x->arguments());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      if (auto* fd = x->getDirectCallee()) o["fn"] = fid(fd);
      else o["callee"] = expr(x->getCallee());
      o["args"] = exprs(x->arguments());
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor";
      o["fn"] = fid(x->getConstructor());
      o["args"] = exprs(x->arguments());
      o["list"] = x->isListInitialization();
      if (x->isStdInitListInitialization()) o["silist"] = true;
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["cm"] = x->getConstructor()->isMoveConstructor() ? "move" : "copy";
      if (x->requiresZeroInitialization()) o["zero"] = true;
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      o["k"] = "Mem";
      o["b"] = expr(x->getBase());
      o["arrow"] = x->isArrow();
      o["n"] = x->getMemberDecl()->getName().str();
      if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["f"] = (int)fd->getFieldIndex();
        o["rec"] = tid(C.getRecordType(fd->getParent()));
      } else if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["sv"] = vd->getQualifiedNameAsString();
        o["d"] = vid(vd);
      } else if (auto* md = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
        o["fn"] = fid(md);
      }
    } else if (auto* x = dyn_cast<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      if (isa<ExplicitCastExpr>(e)) o["x"] = true;
      if (auto* cf = x->getConversionFunction())
        if (auto* fd = dyn_cast<FunctionDecl>(cf)) o["fn"] = fid(fd);
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "AssignOp";
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["ct"] = tid(x->getComputationResultType());
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "Bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Bool";
      o["v"] = x->getValue();
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "Int";
      o["v"] = std::to_string(x->getValue());
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
    } else if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "Str";
      std::string str = x->getString().str();
      if (!llvm::json::isUTF8(str)) str = llvm::json::fixUTF8(str);
      o["v"] = str;
    } else if (isa<CXXNullPtrLiteralExpr>(e)) {
      o["k"] = "Null";
    } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "Zero";
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "InitList";
      o["s"] = exprs(x->inits());
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
    } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "StdInit";
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      Array cs;
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["byref"] = c.getCaptureKind() == LCK_This;
        } else if (c.capturesVariable()) {
          co["d"] = vid(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getName().str();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["ct"] = tid(c.getCapturedVar()->getType());
        }
        co["init"] = *ii ? expr(*ii) : Value(nullptr);
        cs.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(cs);
      o["op"] = fid(x->getCallOperator());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Sub";
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : Value(nullptr);
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      o["e"] = x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr);
    } else if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, C) && r.Val.isInt()) {
        o["k"] = e->getType()->isBooleanType() ? "Bool" : "Int";
        if (e->getType()->isBooleanType()) o["v"] = r.Val.getInt().getBoolValue();
        else {
          llvm::SmallString<32> es;
          r.Val.getInt().toString(es, 10);
          o["v"] = es.str().str();
        }
      } else {
        o["k"] = "Unsup";
        o["n"] = e->getStmtClassName();
      }
    } else {
      o["k"] = "Unsup";
      o["n"] = e->getStmtClassName();
    }
    return o;
  }

  Value func(const FunctionDecl* f) {
    Object o;
    o["n"] = f->getQualifiedNameAsString();
    o["ret"] = tid(f->getReturnType());
    o["l"] = lineOf(f->getLocation());
    o["file"] = fileOf(f->getLocation());
    Array ps;
    for (auto* p : f->parameters()) {
      Object po;
      po["d"] = vid(p);
      po["n"] = p->getName().str();
      po["t"] = tid(p->getType());
      ps.push_back(std::move(po));
    }
    o["p"] = std::move(ps);
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto& x : ta->asArray()) pushArg(a, x);
      o["targs"] = std::move(a);
    }
    if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = tid(C.getRecordType(md->getParent()));
      o["static"] = md->isStatic();
      o["const"] = md->isConst();
      if (md->getParent()->isLambda()) o["lambda"] = true;
    }
    if (f->isDependentContext()) o["dep"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      if (cd->isCopyConstructor()) o["cm"] = "copy";
      if (cd->isMoveConstructor()) o["cm"] = "move";
      if (cd->isDefaultConstructor()) o["defctor"] = true;
      if (cd->doesThisDeclarationHaveABody() && inScope(cd->getLocation())) {
        Array is;
        for (auto* in : cd->inits()) {
          Object io;
          if (in->isMemberInitializer()) {
            io["f"] = (int)in->getMember()->getFieldIndex();
            io["n"] = in->getMember()->getName().str();
          } else if (in->isBaseInitializer()) {
            io["base"] = tid(QualType(in->getBaseClass(), 0));
          } else {
            io["deleg"] = true;
          }
          io["e"] = expr(in->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
      if (md->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (md->isMoveAssignmentOperator()) o["assign"] = "move";
    }
    if (f->doesThisDeclarationHaveABody() && inScope(f->getLocation()) && f->getBody()) {
      o["body"] = stmt(f->getBody());
    }
    return o;
  }
};

class Collector : public RecursiveASTVisitor<Collector> {
 public:
  Dumper& D;
  std::vector<const FunctionDecl*> fs;
  explicit Collector(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (!D.inScope(f->getLocation())) return true;
    fs.push_back(f);
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(c);
    Collector col(d);
    col.TraverseDecl(c.getTranslationUnitDecl());
    for (auto* f : col.fs) d.fid(f);
    Array funcs;
    for (size_t i = 0; i < d.flist.size(); ++i) funcs.push_back(d.func(d.flist[i]));
    Object root;
    root["funcs"] = std::move(funcs);
    root["gvars"] = std::move(d.gvars);
    Array ts;
    for (auto& t : d.types) ts.push_back(std::move(t));
    root["types"] = std::move(ts);
    llvm::outs() << Value(std::move(root)) << "\n";
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
class Fac : public tooling::FrontendActionFactory {
 public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

// usage: kdump SRC PREFIX[,PREFIX...] -- flags
int main(int argc, const char** argv) {
  std::string src = argv[1];
  std::string p = argv[2];
  size_t pos = 0;
  while (true) {
    auto n = p.find(',', pos);
    prefixes.push_back(p.substr(pos, n == std::string::npos ? n : n - pos));
    if (n == std::string::npos) break;
    pos = n + 1;
  }
  std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
  if (!db) return 2;
  std::vector<std::string> srcs{src};
  tooling::ClangTool t(*db, srcs);
  Fac f;
  return t.run(&f);
}
