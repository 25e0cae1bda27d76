// astdump: typed syntax trees of every function defined in the repository (after template instantiation), as JSON.
//   astdump OUT.json ROOTDIR SOURCE -- compiler arguments
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ASTContext.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
using namespace clang;
namespace J = llvm::json;
static std::string OUT, ROOT;
struct Dumper {
    ASTContext &C; SourceManager &SM; std::map<const Decl *, int> ids; PrintingPolicy PP;
    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; }
    std::string ty(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(PP); }
    int id(const Decl *d) { if (!d) return -1; d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; return ids[d] = n; }
    int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    std::string file(SourceLocation l) { auto e = SM.getExpansionLoc(l); auto f = SM.getFilename(e); llvm::SmallString<256> p(f); if (!f.empty()) { SM.getFileManager().makeAbsolutePath(p); llvm::sys::path::remove_dots(p, true); } return p.str().str(); }
    std::string fname(const FunctionDecl *f) {
        std::string s; llvm::raw_string_ostream o(s); f->getNameForDiagnostic(o, PP, true);
        o << "("; bool c = false; for (auto *p : f->parameters()) { if (c) o << ", "; c = true; o << ty(p->getType()); } o << ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) o << " const";
        return o.str();
    }
    J::Value list(std::initializer_list<J::Value> v) { return J::Array(v); }
    J::Value fun(const FunctionDecl *f) {      // description of a callee
        if (!f) return nullptr;
        J::Object o; o["n"] = fname(f); o["q"] = f->getQualifiedNameAsString(); o["s"] = f->getNameAsString();
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["m"] = true; if (m->isConst()) o["c"] = true; if (m->isStatic()) o["st"] = true; o["cls"] = ty(C.getRecordType(m->getParent())); }
        J::Array ps; for (auto *p : f->parameters()) ps.push_back(ty(p->getType())); o["p"] = std::move(ps); o["r"] = ty(f->getReturnType());
        if (f->isVariadic()) o["va"] = true;
        auto fl = file(f->getLocation()); if (fl.find(ROOT) == 0) o["repo"] = true;
        if (f->isDefaulted() || f->isImplicit()) o["imp"] = true;
        return J::Value(std::move(o));
    }
    J::Value ex(const Expr *e) {
        if (!e) return nullptr;
        if (auto *x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<ConstantExpr>(e)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<ExprWithCleanups>(e)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
        if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
            if (x->getCastKind() == CK_IntegralCast || x->getCastKind() == CK_FloatingToIntegral || x->getCastKind() == CK_IntegralToFloating)
                return J::Object{{"k", "conv"}, {"t", ty(e->getType())}, {"a", J::Array{ex(x->getSubExpr())}}, {"l", line(e->getBeginLoc())}};
            return ex(x->getSubExpr());
        }
        J::Object o; o["t"] = ty(e->getType()); o["l"] = line(e->getBeginLoc());
        J::Array a;
        auto kids = [&](const Stmt *s) { for (auto *c : s->children()) if (auto *y = dyn_cast_or_null<Expr>(c)) a.push_back(ex(y)); };
        if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
            if (isa<CXXFunctionalCastExpr>(e) && e->getType()->isRecordType()) return ex(x->getSubExpr());
            o["k"] = "conv"; o["xp"] = true; a.push_back(ex(x->getSubExpr())); }
        else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fn"; o["f"] = fun(f); }
            else if (isa<EnumConstantDecl>(d)) { o["k"] = "lit"; o["v"] = llvm::toString(cast<EnumConstantDecl>(d)->getInitVal(), 10); }
            else { o["k"] = "var"; o["id"] = id(d); o["n"] = d->getNameAsString();
                if (auto *v = dyn_cast<VarDecl>(d)) { o["s"] = isa<ParmVarDecl>(v) ? "param" : v->isLocalVarDecl() && !v->isStaticLocal() ? "local" : "global"; o["vt"] = ty(v->getType()); }
                else if (auto *b = dyn_cast<BindingDecl>(d)) { o["s"] = "binding"; o["vt"] = ty(b->getType()); if (b->getBinding()) o["b"] = ex(b->getBinding()); } }
        } else if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *f = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["k"] = "fn"; o["f"] = fun(f); a.push_back(ex(x->getBase())); }
            else { o["k"] = "mem"; o["n"] = x->getMemberDecl()->getNameAsString(); o["arrow"] = x->isArrow(); a.push_back(ex(x->getBase()));
                if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["ft"] = ty(fd->getType()); o["cls"] = ty(C.getRecordType(fd->getParent())); } else o["static"] = true; }
        } else if (isa<CXXThisExpr>(e)) o["k"] = "this";
        else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) { o["k"] = "call"; o["f"] = fun(x->getMethodDecl()); o["obj"] = ex(x->getImplicitObjectArgument());
            if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
            for (auto *y : x->arguments()) a.push_back(ex(y)); }
        else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) { o["k"] = "call"; o["op"] = getOperatorSpelling(x->getOperator()); o["f"] = fun(x->getDirectCallee());
            auto *m = dyn_cast_or_null<CXXMethodDecl>(x->getDirectCallee()); unsigned i = 0;
            for (auto *y : x->arguments()) { if (i++ == 0 && m && !m->isStatic()) o["obj"] = ex(y); else a.push_back(ex(y)); } }
        else if (auto *x = dyn_cast<CallExpr>(e)) { o["k"] = "call"; o["f"] = fun(x->getDirectCallee()); if (!x->getDirectCallee()) o["callee"] = ex(x->getCallee()); for (auto *y : x->arguments()) a.push_back(ex(y)); }
        else if (auto *x = dyn_cast<CXXConstructExpr>(e)) { 
            o["k"] = "ctor"; o["f"] = fun(x->getConstructor()); if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true; for (auto *y : x->arguments()) a.push_back(ex(y)); }
        else if (auto *x = dyn_cast<BinaryOperator>(e)) { o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); a.push_back(ex(x->getLHS())); a.push_back(ex(x->getRHS())); }
        else if (auto *x = dyn_cast<UnaryOperator>(e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; a.push_back(ex(x->getSubExpr())); }
        else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; a.push_back(ex(x->getBase())); a.push_back(ex(x->getIdx())); }
        else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) { o["k"] = "cond"; a.push_back(ex(x->getCond())); a.push_back(ex(x->getTrueExpr())); a.push_back(ex(x->getFalseExpr())); }
        else if (auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "lit"; o["v"] = llvm::toString(x->getValue(), 10, false); }
        else if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "lit"; o["v"] = x->getValueAsApproximateDouble(); }
        else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "lit"; o["v"] = x->getValue(); }
        else if (auto *x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "lit"; if (x->isOrdinary()) o["v"] = x->getString().str(); }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "lit"; o["v"] = "null"; }
        else if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["at"] = ty(x->getAllocatedType()); if (x->isArray()) { o["array"] = true; if (x->getArraySize()) a.push_back(ex(*x->getArraySize())); } else if (x->getInitializer()) a.push_back(ex(x->getInitializer())); }
        else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; if (x->isArrayForm()) o["array"] = true; a.push_back(ex(x->getArgument())); }
        else if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) a.push_back(ex(x->getSubExpr())); }
        else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; if (x->isArgumentType()) o["of"] = ty(x->getArgumentType()); else o["of"] = ty(x->getArgumentExpr()->getType()); }
        else if (auto *x = dyn_cast<InitListExpr>(e)) { o["k"] = "init"; for (auto *y : x->inits()) a.push_back(ex(y)); }
        else if (auto *x = dyn_cast<LambdaExpr>(e)) { o["k"] = "lambda"; o["body"] = st(x->getBody()); 
            J::Array ps; for (auto *p : x->getCallOperator()->parameters()) ps.push_back(par(p)); o["params"] = std::move(ps);
            J::Array cs; for (auto &c : x->captures()) if (c.capturesVariable()) cs.push_back(J::Array{id(c.getCapturedVar()), c.getCaptureKind() == LCK_ByRef}); else if (c.capturesThis()) cs.push_back(J::Array{"this", true}); o["caps"] = std::move(cs); }
        else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "lit"; o["v"] = "0"; }
        else { o["k"] = std::string("?") + e->getStmtClassName(); kids(e); }
        if (!a.empty()) o["a"] = std::move(a);
        return J::Value(std::move(o));
    }
    J::Value par(const VarDecl *p) { return J::Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}}; }
    J::Value st(const Stmt *s) {
        if (!s) return nullptr;
        if (auto *e = dyn_cast<Expr>(s)) return J::Object{{"k", "expr"}, {"l", line(s->getBeginLoc())}, {"e", ex(e)}};
        J::Object o; o["l"] = line(s->getBeginLoc()); o["el"] = line(s->getEndLoc());
        if (auto *x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; J::Array b; for (auto *y : x->body()) b.push_back(st(y)); o["b"] = std::move(b); }
        else if (auto *x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; J::Array b;
            for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { J::Object q{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}, {"l", line(v->getLocation())}}; if (v->isStaticLocal()) q["static"] = true; if (v->getInit()) q["init"] = ex(v->getInit());
                if (auto *dd = dyn_cast<DecompositionDecl>(d)) { J::Array bs; for (auto *bb : dd->bindings()) { J::Object z{{"id", id(bb)}, {"n", bb->getNameAsString()}}; if (bb->getBinding()) z["e"] = ex(bb->getBinding()); bs.push_back(std::move(z)); } q["bind"] = std::move(bs); }
                b.push_back(std::move(q)); }
            o["d"] = std::move(b); }
        else if (auto *x = dyn_cast<IfStmt>(s)) { o["k"] = "if"; if (x->getInit()) o["init"] = st(x->getInit()); if (auto *d = x->getConditionVariableDeclStmt()) o["cv"] = st(d); o["c"] = ex(x->getCond()); o["then"] = st(x->getThen()); o["else"] = st(x->getElse()); }
        else if (auto *x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["init"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["inc"] = ex(x->getInc()); o["body"] = st(x->getBody()); }
        else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; o["v"] = par(x->getLoopVariable()); o["range"] = ex(x->getRangeInit()); o["body"] = st(x->getBody()); if (x->getInit()) o["init"] = st(x->getInit());
            if (auto *dd = dyn_cast<DecompositionDecl>(x->getLoopVariable())) { J::Array bs; for (auto *bb : dd->bindings()) bs.push_back(J::Object{{"id", id(bb)}, {"n", bb->getNameAsString()}}); o["bind"] = std::move(bs); } }
        else if (auto *x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (auto *d = x->getConditionVariableDeclStmt()) o["cv"] = st(d); o["c"] = ex(x->getCond()); o["body"] = st(x->getBody()); }
        else if (auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = ex(x->getCond()); o["body"] = st(x->getBody()); }
        else if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); }
        else if (isa<BreakStmt>(s)) o["k"] = "break";
        else if (isa<ContinueStmt>(s)) o["k"] = "continue";
        else if (isa<NullStmt>(s)) o["k"] = "null";
        else if (auto *x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString(); }
        else if (auto *x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["n"] = x->getDecl()->getNameAsString(); o["b"] = J::Array{st(x->getSubStmt())}; }
        else if (auto *x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = ex(x->getCond()); o["body"] = st(x->getBody()); }
        else if (auto *x = dyn_cast<SwitchCase>(s)) { o["k"] = isa<CaseStmt>(s) ? "case" : "default"; if (auto *c = dyn_cast<CaseStmt>(s)) o["c"] = ex(c->getLHS()); o["b"] = J::Array{st(x->getSubStmt())}; }
        else if (auto *x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["body"] = st(x->getTryBlock()); J::Array h; for (unsigned i = 0; i < x->getNumHandlers(); i++) h.push_back(st(x->getHandler(i)->getHandlerBlock())); o["h"] = std::move(h); }
        else { o["k"] = std::string("?") + s->getStmtClassName(); J::Array b; for (auto *c : s->children()) b.push_back(st(c)); o["b"] = std::move(b); }
        return J::Value(std::move(o));
    }
};
struct V : RecursiveASTVisitor<V> {
    Dumper D; J::Object fs; J::Object rs;
    V(ASTContext &c) : D(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
        if (f->isDefaulted() || f->isImplicit()) return true;
        auto fl = D.file(f->getLocation()); if (fl.find(ROOT) != 0) return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        J::Object o; o["file"] = fl; o["line"] = D.line(f->getLocation()); o["end"] = D.line(f->getEndLoc()); o["f"] = D.fun(f);
        J::Array ps; for (auto *p : f->parameters()) ps.push_back(D.par(p)); o["params"] = std::move(ps);
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) { J::Array is; for (auto *i : c->inits()) { J::Object q; if (i->isAnyMemberInitializer()) q["n"] = i->getAnyMember()->getNameAsString(); else q["base"] = true; q["e"] = D.ex(i->getInit()); q["w"] = i->isWritten(); is.push_back(std::move(q)); } o["inits"] = std::move(is); o["ctor"] = true; }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        o["body"] = D.st(f->getBody()); if (f->isInvalidDecl()) o["bad"] = true;
        fs[D.fname(f)] = std::move(o);
        return true;
    }
    // how a class is copied or moved: by its author's code, member by member, or not at all
    static const char *member(CXXRecordDecl *r, bool assign, bool move) {
        auto kind = [&](FunctionDecl *m) { return m->isDeleted() ? "deleted" : m->isDefaulted() || m->isImplicit() ? "default" : "user"; };
        if (assign) { for (auto *m : r->methods()) if (move ? m->isMoveAssignmentOperator() : m->isCopyAssignmentOperator()) return kind(m); }
        else for (auto *m : r->ctors()) if (move ? m->isMoveConstructor() : m->isCopyConstructor()) return kind(m);
        bool moves = r->hasUserDeclaredMoveConstructor() || r->hasUserDeclaredMoveAssignment();
        if (!move) return moves ? "deleted" : "default";
        if (moves || r->hasUserDeclaredCopyConstructor() || r->hasUserDeclaredCopyAssignment() || r->hasUserDeclaredDestructor()) return "none";
        return "default";
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if (D.file(r->getLocation()).find(ROOT) != 0) return true;
        J::Array f; for (auto *x : r->fields()) f.push_back(J::Array{x->getNameAsString(), D.ty(x->getType())});
        J::Array b; for (auto &x : r->bases()) b.push_back(D.ty(x.getType()));
        J::Object fi; for (auto *x : r->fields()) if (x->hasInClassInitializer()) { if (auto *e = x->getInClassInitializer()) fi[x->getNameAsString()] = D.ex(e); }
        rs[D.ty(D.C.getRecordType(r))] = J::Object{{"fields", std::move(f)}, {"bases", std::move(b)}, {"file", D.file(r->getLocation())}, {"line", D.line(r->getLocation())},
            {"copyctor", r->hasUserDeclaredCopyConstructor()}, {"dtor", r->hasUserDeclaredDestructor()}, {"init", std::move(fi)},
            {"cctor", member(r, false, false)}, {"cassign", member(r, true, false)}, {"mctor", member(r, false, true)}, {"massign", member(r, true, true)}};
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec; llvm::raw_fd_ostream os(OUT, ec);
        os << J::Value(J::Object{{"functions", std::move(v.fs)}, {"records", std::move(v.rs)}});
    }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
    OUT = argv[1]; ROOT = argv[2]; std::string src = argv[3];
    std::vector<std::string> args{"astdump"}; for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    args.push_back("-fsyntax-only"); args.push_back(src);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Act>(), fm.get());
    return inv.run() ? 0 : 1;
}
