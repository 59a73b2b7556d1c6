// dgx: extracts the *resolved* program (template instantiations, generic-lambda
// instantiations, overload-resolved callees, OpenMP directives) of every
// function defined under the given source roots, as one JSON record per line.
// Nothing is executed: this is a clang front-end pass.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::vector<std::string> Roots;
static std::string OutPath;

static std::string jesc(llvm::StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

class X {
  public:
    ASTContext& C;
    SourceManager& SM;
    std::string& out;  // current buffer
    std::ofstream& os;
    std::unordered_map<const void*, int> ids;
    std::unordered_map<std::string, int> types;
    std::unordered_map<std::string, int> files;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> seen;
    std::set<const VarDecl*> gseen;
    std::deque<const VarDecl*> gwork;
    std::set<const CXXRecordDecl*> rseen;
    std::deque<const CXXRecordDecl*> rwork;
    std::set<const FunctionDecl*> eseen;
    std::deque<const FunctionDecl*> ework;

    X(ASTContext& c, std::string& b, std::ofstream& o) : C(c), SM(c.getSourceManager()), out(b), os(o) {}

    int id(const void* p) {
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        int n = ids.size() + 1;
        ids[p] = n;
        return n;
    }
    std::pair<std::string, unsigned> loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        if (p.isInvalid()) return {"", 0};
        return {p.getFilename(), p.getLine()};
    }
    bool inRoots(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = loc(l).first;
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string ctxName(const DeclContext* d) {
        std::string s;
        while (d && !d->isTranslationUnit()) {
            std::string n;
            if (auto* ns = dyn_cast<NamespaceDecl>(d)) n = ns->isAnonymousNamespace() ? "(anon)" : ns->getName().str();
            else if (auto* rd = dyn_cast<RecordDecl>(d)) {
                if (auto* cr = dyn_cast<CXXRecordDecl>(d); cr && cr->isLambda()) n = "(lambda)";
                else n = rd->getName().str();
            } else if (auto* fd = dyn_cast<FunctionDecl>(d)) n = fd->getNameAsString();
            else if (auto* ed = dyn_cast<EnumDecl>(d)) n = ed->getName().str();
            if (!n.empty() && !(isa<NamespaceDecl>(d) && cast<NamespaceDecl>(d)->isInline())) s = s.empty() ? n : n + "::" + s;
            d = d->getParent();
        }
        return s;
    }
    std::string qn(const NamedDecl* d) {
        std::string c = ctxName(d->getDeclContext());
        std::string n = d->getNameAsString();
        if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) n = cd->getParent()->getName().str();
        if (auto* dd = dyn_cast<CXXDestructorDecl>(d)) n = "~" + dd->getParent()->getName().str();
        return c.empty() ? n : c + "::" + n;
    }
    std::string targ(const TemplateArgument& a, int depth) {
        switch (a.getKind()) {
            case TemplateArgument::Type: return tstr(a.getAsType(), depth + 1);
            case TemplateArgument::Integral: return llvm::toString(a.getAsIntegral(), 10);
            case TemplateArgument::Pack: {
                std::string s;
                for (auto& p : a.pack_elements()) { if (!s.empty()) s += ","; s += targ(p, depth); }
                return s;
            }
            case TemplateArgument::Template: return a.getAsTemplate().getAsTemplateDecl() ? a.getAsTemplate().getAsTemplateDecl()->getNameAsString() : "?";
            default: return "?";
        }
    }
    std::string tstr(QualType q, int depth = 0) {
        if (q.isNull()) return "?";
        q = q.getCanonicalType();
        std::string cv = q.isConstQualified() ? "const " : "";
        if (auto* r = q->getAs<ReferenceType>()) return tstr(r->getPointeeType(), depth) + "&";
        if (auto* p = q->getAs<PointerType>()) return cv + tstr(p->getPointeeType(), depth) + "*";
        if (auto* at = dyn_cast<ConstantArrayType>(q.getTypePtr()))
            return tstr(at->getElementType(), depth) + "[" + llvm::toString(at->getSize(), 10, false) + "]";
        if (auto* e = q->getAs<EnumType>()) return cv + "enum " + qn(e->getDecl());
        if (auto* r = q->getAs<RecordType>()) {
            auto* rd = r->getDecl();
            std::string n = qn(rd);
            if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
                if (cr->isLambda()) return cv + "(lambda)" + std::to_string(id(cr->getCanonicalDecl()));
                needRecord(cr);
            }
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                if (depth < 4) {
                    std::string s;
                    for (auto& a : sp->getTemplateArgs().asArray()) {
                        if (!s.empty()) s += ",";
                        s += targ(a, depth);
                    }
                    if (s.size() < 160) n += "<" + s + ">";
                    else n += "<#" + std::to_string(id(rd->getCanonicalDecl())) + ">";
                }
            }
            return cv + n;
        }
        if (q->isFunctionType()) return "fn";
        PrintingPolicy P(C.getLangOpts());
        P.Bool = 1;
        std::string s = q.getAsString(P);
        if (s.size() > 80) s.resize(80);
        return s;
    }
    int ty(QualType q) {
        std::string s = tstr(q);
        auto it = types.find(s);
        if (it != types.end()) return it->second;
        int n = types.size();
        types[s] = n;
        return n;
    }
    void needRecord(const CXXRecordDecl* r) {
        r = r->getDefinition();
        if (!r || r->isDependentContext() || !inRoots(r->getLocation())) return;
        if (rseen.insert(r).second) rwork.push_back(r);
    }
    const FunctionDecl* need(const FunctionDecl* f) {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def)) {
            if (eseen.insert(f->getCanonicalDecl()).second) ework.push_back(f);
            return f->getCanonicalDecl();
        }
        if (def && !def->isDependentContext() && inRoots(def->getLocation()) && !def->isDefaulted()) {
            if (seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
        } else if (eseen.insert(f->getCanonicalDecl()).second) ework.push_back(f);
        return f->getCanonicalDecl();
    }
    void put(const std::string& s) { out += s; }
    void num(long long n) { out += std::to_string(n); }
    unsigned line(SourceLocation l) { return loc(l).second; }

    void head(const char* tag, const Stmt* s) {
        put("[\""); put(tag); put("\","); num(line(s->getBeginLoc()));
    }
    void headT(const char* tag, const Expr* e) {
        head(tag, e); put(","); num(ty(e->getType()));
    }
    void list(llvm::ArrayRef<const Expr*> v) {
        put("[");
        bool f = true;
        for (auto* e : v) { if (!f) put(","); f = false; expr(e); }
        put("]");
    }
    template <class It> void args(It b, It e) {
        put("[");
        bool f = true;
        for (; b != e; ++b) { if (!f) put(","); f = false; expr(*b); }
        put("]");
    }
    void callee(const FunctionDecl* f) {
        if (!f) { put("0,\"\""); return; }
        num(id(need(f))); put(","); put(jesc(qn(f)));
    }
    void stmtOrNull(const Stmt* s) { if (s) stmt(s); else put("null"); }
    void exprOrNull(const Expr* s) { if (s) expr(s); else put("null"); }

    void vardecl(const VarDecl* v) {
        put("["); num(id(v->getCanonicalDecl())); put(","); put(jesc(v->getNameAsString())); put(","); num(ty(v->getType())); put(",");
        if (v->getInit() && !v->getInit()->isValueDependent()) expr(v->getInit()); else if (v->getInit()) expr(v->getInit()); else put("null");
        put(v->isStaticLocal() ? ",1]" : ",0]");
    }
    // names declared in the head of a statement: a block around it
    int scoped(const Stmt* s, const Stmt* init, const Stmt* var) {
        if (!init && !var) return 0;
        head("{", s); put(",[");
        if (init) { stmt(init); put(","); }
        if (var) { stmt(var); put(","); }
        return 1;
    }
    void stmt(const Stmt* s) {
        if (!s) { put("null"); return; }
        if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                head("{", s); put(",[");
                bool f = true;
                for (auto* c : cast<CompoundStmt>(s)->body()) { if (!f) put(","); f = false; stmt(c); }
                put("]]");
                return;
            }
            case Stmt::DeclStmtClass: {
                head("decl", s); put(",[");
                bool f = true;
                for (auto* d : cast<DeclStmt>(s)->decls())
                    if (auto* v = dyn_cast<VarDecl>(d)) { if (!f) put(","); f = false; vardecl(v); }
                put("]]");
                return;
            }
            case Stmt::NullStmtClass: head("null", s); put("]"); return;
            case Stmt::IfStmtClass: {
                auto* i = cast<IfStmt>(s);
                int n = scoped(s, i->getInit(), i->getConditionVariableDeclStmt());
                head("if", s); put(",");
                expr(i->getCond()); put(","); stmtOrNull(i->getThen()); put(","); stmtOrNull(i->getElse());
                put("]");
                if (n) put("]]");
                return;
            }
            case Stmt::ForStmtClass: {
                auto* i = cast<ForStmt>(s);
                head("for", s); put(",");
                stmtOrNull(i->getInit()); put(","); exprOrNull(i->getCond()); put(","); exprOrNull(i->getInc()); put(",");
                stmt(i->getBody()); put("]");
                return;
            }
            case Stmt::WhileStmtClass: {
                auto* i = cast<WhileStmt>(s);
                head("while", s); put(","); expr(i->getCond()); put(","); stmt(i->getBody()); put("]");
                return;
            }
            case Stmt::DoStmtClass: {
                auto* i = cast<DoStmt>(s);
                head("do", s); put(","); stmt(i->getBody()); put(","); expr(i->getCond()); put("]");
                return;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto* i = cast<CXXForRangeStmt>(s);
                head("rfor", s); put(",");
                const VarDecl* v = i->getLoopVariable();
                put("["); num(id(v->getCanonicalDecl())); put(","); put(jesc(v->getNameAsString())); put(","); num(ty(v->getType())); put("],");
                expr(i->getRangeInit()); put(","); stmt(i->getBody()); put("]");
                return;
            }
            case Stmt::ReturnStmtClass: head("ret", s); put(","); exprOrNull(cast<ReturnStmt>(s)->getRetValue()); put("]"); return;
            case Stmt::BreakStmtClass: head("break", s); put("]"); return;
            case Stmt::ContinueStmtClass: head("cont", s); put("]"); return;
            case Stmt::SwitchStmtClass: {
                auto* i = cast<SwitchStmt>(s);
                int n = scoped(s, i->getInit(), i->getConditionVariableDeclStmt());
                head("switch", s); put(","); expr(i->getCond()); put(","); stmt(i->getBody()); put("]");
                if (n) put("]]");
                return;
            }
            case Stmt::CaseStmtClass: {
                auto* i = cast<CaseStmt>(s);
                head("case", s); put(","); expr(i->getLHS()); put(","); stmtOrNull(i->getSubStmt()); put("]");
                return;
            }
            case Stmt::DefaultStmtClass: head("default", s); put(","); stmtOrNull(cast<DefaultStmt>(s)->getSubStmt()); put("]"); return;
            case Stmt::CXXTryStmtClass: {
                auto* t = cast<CXXTryStmt>(s);
                head("try", s); put(","); stmt(t->getTryBlock()); put(",[");
                for (unsigned i = 0; i < t->getNumHandlers(); ++i) { if (i) put(","); stmt(t->getHandler(i)->getHandlerBlock()); }
                put("]]");
                return;
            }
            case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(s)->getSubStmt()); return;
            case Stmt::LabelStmtClass: stmt(cast<LabelStmt>(s)->getSubStmt()); return;
            default: break;
        }
        if (auto* d = dyn_cast<OMPExecutableDirective>(s)) {
            head("omp", s); put(","); put(jesc(llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()))); put(",[");
            bool f = true;
            for (auto* c : d->clauses()) {
                if (!f) put(",");
                f = false;
                std::string cs;
                put("["); put(jesc(llvm::omp::getOpenMPClauseName(c->getClauseKind()))); put(",[");
                bool g = true;
                for (auto* ch : c->children()) { if (!ch) continue; if (!g) put(","); g = false; stmt(ch); }
                put("]]");
            }
            put("],");
            if (d->hasAssociatedStmt()) {
                const Stmt* a = d->getAssociatedStmt();
                while (auto* cs = dyn_cast<CapturedStmt>(a)) a = cs->getCapturedStmt();
                stmt(a);
            } else put("null");
            put("]");
            return;
        }
        head("ostmt", s); put(","); put(jesc(s->getStmtClassName())); put(",[");
        bool f = true;
        for (auto* c : s->children()) { if (!c) continue; if (!f) put(","); f = false; stmt(c); }
        put("]]");
    }
    void declref(const Expr* e, const ValueDecl* d) {
        if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
            headT("enum", e); put(","); put(jesc(qn(ec))); put(","); put(llvm::toString(ec->getInitVal(), 10)); put("]");
            return;
        }
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            headT("fref", e); put(","); callee(f); put("]");
            return;
        }
        headT("ref", e); put(","); num(id(d->getCanonicalDecl())); put(",");
        const char* k = "v";
        if (auto* v = dyn_cast<VarDecl>(d)) {
            if (isa<ParmVarDecl>(v)) k = "p";
            else if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                k = "g";
                if (gseen.insert(v->getCanonicalDecl()).second) gwork.push_back(v);
            }
        }
        put(jesc(k[0] == 'g' ? qn(d) : d->getNameAsString())); put(",\""); put(k); put("\"]");
    }
    void expr(const Expr* e) {
        if (!e) { put("null"); return; }
        // strip
        if (auto* p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
        if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
        if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) return expr(p->getExpr());
        if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(p->getSubExpr());
        if (auto* p = dyn_cast<ArrayInitLoopExpr>(e)) return expr(p->getCommonExpr());
        if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (p->getSourceExpr()) return expr(p->getSourceExpr()); }
        if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
            switch (p->getCastKind()) {
                case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
                case CK_PointerToBoolean: case CK_IntegralCast: case CK_FloatingCast:
                    headT("cast", e); put(","); put(jesc(p->getCastKindName())); put(","); expr(p->getSubExpr()); put("]");
                    return;
                default: return expr(p->getSubExpr());
            }
        }
        if (auto* p = dyn_cast<ExplicitCastExpr>(e)) {
            if (auto* f = dyn_cast<CXXFunctionalCastExpr>(e)) {
                if (isa<CXXConstructExpr>(f->getSubExpr()->IgnoreImplicit()) || isa<InitListExpr>(f->getSubExpr()->IgnoreImplicit())) return expr(f->getSubExpr());
            }
            headT("cast", e); put(","); put(jesc(p->getCastKindName())); put(","); expr(p->getSubExpr()); put("]");
            return;
        }
        switch (e->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                headT("int", e); put(","); put(llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, e->getType()->isSignedIntegerType())); put("]");
                return;
            }
            case Stmt::FloatingLiteralClass: {
                headT("flt", e); put(",");
                SourceLocation l = SM.getSpellingLoc(e->getBeginLoc());
                std::string t = Lexer::getSpelling(Token(), SM, C.getLangOpts());
                llvm::SmallString<64> buf;
                t = Lexer::getSourceText(CharSourceRange::getTokenRange(l, l), SM, C.getLangOpts()).str();
                put(jesc(t)); put(",");
                llvm::SmallString<64> b2;
                cast<FloatingLiteral>(e)->getValue().toString(b2, 20);
                put(jesc(b2)); put("]");
                return;
            }
            case Stmt::CXXBoolLiteralExprClass: headT("bool", e); put(cast<CXXBoolLiteralExpr>(e)->getValue() ? ",1]" : ",0]"); return;
            case Stmt::CharacterLiteralClass: headT("chr", e); put(","); num(cast<CharacterLiteral>(e)->getValue()); put("]"); return;
            case Stmt::StringLiteralClass: {
                auto* s = cast<StringLiteral>(e);
                headT("str", e); put(","); put(s->isOrdinary() ? jesc(s->getString()) : "\"?\""); put("]");
                return;
            }
            case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: headT("nullptr", e); put("]"); return;
            case Stmt::DeclRefExprClass: return declref(e, cast<DeclRefExpr>(e)->getDecl());
            case Stmt::MemberExprClass: {
                auto* m = cast<MemberExpr>(e);
                auto* d = m->getMemberDecl();
                if (isa<VarDecl>(d) || isa<EnumConstantDecl>(d)) return declref(e, d);
                headT("mem", e); put(","); expr(m->getBase()); put(","); put(jesc(d->getNameAsString())); put(","); num(m->isArrow());
                if (auto* f = dyn_cast<FunctionDecl>(d)) { put(","); num(id(need(f))); }
                else if (auto* fd = dyn_cast<FieldDecl>(d)) { put(",0,"); put(jesc(qn(fd->getParent()))); }
                put("]");
                return;
            }
            case Stmt::CXXThisExprClass: headT("this", e); put("]"); return;
            case Stmt::UnaryOperatorClass: {
                auto* u = cast<UnaryOperator>(e);
                std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                if (u->isPostfix()) op = "p" + op;
                headT("un", e); put(","); put(jesc(op)); put(","); expr(u->getSubExpr()); put("]");
                return;
            }
            case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
                auto* b = cast<BinaryOperator>(e);
                headT("bin", e); put(","); put(jesc(b->getOpcodeStr())); put(","); expr(b->getLHS()); put(","); expr(b->getRHS()); put("]");
                return;
            }
            case Stmt::ConditionalOperatorClass: {
                auto* c = cast<ConditionalOperator>(e);
                headT("cond", e); put(","); expr(c->getCond()); put(","); expr(c->getTrueExpr()); put(","); expr(c->getFalseExpr()); put("]");
                return;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto* a = cast<ArraySubscriptExpr>(e);
                headT("idx", e); put(","); expr(a->getBase()); put(","); expr(a->getIdx()); put("]");
                return;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto* c = cast<CXXMemberCallExpr>(e);
                headT("mcall", e); put(","); callee(c->getMethodDecl()); put(","); exprOrNull(c->getImplicitObjectArgument()); put(",");
                args(c->arg_begin(), c->arg_end()); put("]");
                return;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto* c = cast<CXXOperatorCallExpr>(e);
                headT("ocall", e); put(","); callee(c->getDirectCallee()); put(","); put(jesc(getOperatorSpelling(c->getOperator()))); put(",");
                args(c->arg_begin(), c->arg_end()); put("]");
                return;
            }
            case Stmt::CallExprClass: {
                auto* c = cast<CallExpr>(e);
                if (auto* f = c->getDirectCallee()) {
                    headT("call", e); put(","); callee(f); put(","); args(c->arg_begin(), c->arg_end()); put("]");
                } else {
                    headT("icall", e); put(","); expr(c->getCallee()); put(","); args(c->arg_begin(), c->arg_end()); put("]");
                }
                return;
            }
            case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
                auto* c = cast<CXXConstructExpr>(e);
                if (c->getNumArgs() == 1 && c->getConstructor()->isCopyOrMoveConstructor()) {
                    headT("copy", e); put(","); expr(c->getArg(0)); put("]");
                    return;
                }
                headT("ctor", e); put(","); callee(c->getConstructor()); put(","); args(c->arg_begin(), c->arg_end());
                put(c->isListInitialization() ? ",1]" : ",0]");
                return;
            }
            case Stmt::CXXInheritedCtorInitExprClass: headT("ctor", e); put(",0,\"inherited\",[],0]"); return;
            case Stmt::InitListExprClass: {
                auto* i = cast<InitListExpr>(e);
                headT("init", e); put(","); put("[");
                for (unsigned k = 0; k < i->getNumInits(); ++k) { if (k) put(","); expr(i->getInit(k)); }
                put("]]");
                return;
            }
            case Stmt::LambdaExprClass: {
                auto* l = cast<LambdaExpr>(e);
                headT("lambda", e); put(","); num(id(l->getLambdaClass()->getCanonicalDecl())); put(",");
                auto* op = l->getCallOperator();
                bool gen = l->isGenericLambda();
                if (!gen) num(id(need(op))); else {
                    put("0");
                    if (op)
                        if (auto* ft = op->getDescribedFunctionTemplate())
                            for (auto* sp : ft->specializations())
                                if (sp->hasBody()) need(sp);
                }
                put(",[");
                bool f = true;
                for (auto& cap : l->captures()) {
                    if (!f) put(",");
                    f = false;
                    put("[");
                    if (cap.capturesThis()) put("0,\"this\",0");
                    else if (cap.capturesVariable()) { num(id(cap.getCapturedVar()->getCanonicalDecl())); put(","); put(jesc(cap.getCapturedVar()->getNameAsString())); put(cap.getCaptureKind() == LCK_ByRef ? ",1" : ",0"); }
                    else put("0,\"?\",0");
                    put("]");
                }
                put("]]");
                return;
            }
            case Stmt::CXXThrowExprClass: headT("throw", e); put(","); exprOrNull(cast<CXXThrowExpr>(e)->getSubExpr()); put("]"); return;
            case Stmt::CXXNewExprClass: {
                auto* n = cast<CXXNewExpr>(e);
                headT("new", e); put(","); exprOrNull(n->getInitializer()); put("]");
                return;
            }
            case Stmt::CXXDeleteExprClass: headT("delete", e); put(","); expr(cast<CXXDeleteExpr>(e)->getArgument()); put("]"); return;
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: headT("zero", e); put("]"); return;
            case Stmt::UnaryExprOrTypeTraitExprClass: {
                Expr::EvalResult r;
                headT("sizeof", e); put(",");
                if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) put(llvm::toString(r.Val.getInt(), 10)); else put("null");
                put("]");
                return;
            }
            default: break;
        }
        headT("opaque", e); put(","); put(jesc(e->getStmtClassName())); put(",[");
        bool f = true;
        for (auto* c : e->children()) { if (!c) continue; if (!f) put(","); f = false; stmt(c); }
        put("]]");
    }
    void flush() { os << out << "\n"; out.clear(); }

    void function(const FunctionDecl* f) {
        auto l = loc(f->getLocation());
        put("{\"k\":\"fn\",\"id\":"); num(id(f->getCanonicalDecl()));
        put(",\"name\":"); put(jesc(qn(f)));
        put(",\"file\":"); put(jesc(l.first)); put(",\"line\":"); num(l.second);
        put(",\"sig\":"); put(jesc(tstr(f->getReturnType())));
        put(",\"ret\":"); num(ty(f->getReturnType()));
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            std::string s;
            for (auto& a : ta->asArray()) { if (!s.empty()) s += ","; s += targ(a, 0); }
            put(",\"targs\":"); put(jesc(s));
        }
        put(",\"cls\":");
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            put(jesc(tstr(C.getRecordType(m->getParent()))));
            put(m->isStatic() ? ",\"static\":1" : ",\"static\":0");
            put(m->isVirtual() ? ",\"virtual\":1" : ",\"virtual\":0");
            needRecord(m->getParent());
            if (m->getParent()->isLambda()) { put(",\"lambda\":"); num(id(m->getParent()->getCanonicalDecl())); 
                if (auto* pf = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParent())) { put(",\"encl\":"); num(id(pf->getCanonicalDecl())); put(",\"enclname\":"); put(jesc(qn(pf))); } }
        } else put("null");
        put(",\"params\":[");
        bool fst = true;
        std::string sig;
        for (auto* p : f->parameters()) {
            if (!fst) put(",");
            fst = false;
            put("["); num(id(p->getCanonicalDecl())); put(","); put(jesc(p->getNameAsString())); put(","); num(ty(p->getType())); put("]");
            if (!sig.empty()) sig += ",";
            sig += tstr(p->getType());
        }
        put("],\"psig\":"); put(jesc(sig));
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            put(",\"inits\":[");
            bool g = true;
            for (auto* i : c->inits()) {
                if (!g) put(",");
                g = false;
                put("[");
                if (i->isMemberInitializer()) put(jesc(i->getMember()->getNameAsString()));
                else if (i->isBaseInitializer()) put(jesc("base:" + tstr(QualType(i->getBaseClass(), 0))));
                else put("\"delegating\"");
                put(","); num(i->isWritten()); put(","); expr(i->getInit()); put("]");
            }
            put("]");
        }
        put(",\"noexcept\":0,\"body\":");
        stmt(f->getBody());
        put("}");
        flush();
    }
    void external(const FunctionDecl* f) {
        put("{\"k\":\"ext\",\"id\":"); num(id(f->getCanonicalDecl()));
        put(",\"name\":"); put(jesc(qn(f)));
        std::string sig;
        for (auto* p : f->parameters()) { if (!sig.empty()) sig += ";"; sig += tstr(p->getType()); }
        put(",\"psig\":"); put(jesc(sig));
        put(",\"ret\":"); num(ty(f->getReturnType()));
        std::string s;
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            for (auto& a : ta->asArray()) { if (!s.empty()) s += ";"; s += targ(a, 0); }
        }
        put(",\"targs\":"); put(jesc(s));
        int c = 1;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) c = m->isConst() || m->isStatic();
        put(",\"const\":"); num(c);
        auto* m = dyn_cast<CXXMethodDecl>(f);
        put(",\"cls\":"); put(m ? jesc(tstr(C.getRecordType(m->getParent()))) : "null");
        put(",\"defaulted\":"); num(f->isDefaulted());
        put("}");
        flush();
    }
    void record(const CXXRecordDecl* r) {
        auto l = loc(r->getLocation());
        put("{\"k\":\"rec\",\"id\":"); num(id(r->getCanonicalDecl()));
        put(",\"name\":"); put(jesc(qn(r))); put(",\"type\":"); put(jesc(tstr(C.getRecordType(r))));
        put(",\"file\":"); put(jesc(l.first)); put(",\"line\":"); num(l.second);
        put(",\"bases\":[");
        bool f = true;
        for (auto& b : r->bases()) { if (!f) put(","); f = false; put(jesc(tstr(b.getType()))); }
        put("],\"fields\":[");
        f = true;
        for (auto* fd : r->fields()) {
            if (!f) put(",");
            f = false;
            put("["); put(jesc(fd->getNameAsString())); put(","); num(ty(fd->getType())); put(",");
            if (fd->hasInClassInitializer() && fd->getInClassInitializer()) expr(fd->getInClassInitializer()); else put("null");
            put(","); num(line(fd->getLocation())); put("]");
        }
        put("],\"lambda\":"); put(r->isLambda() ? "1" : "0");
        put(",\"methods\":[");
        f = true;
        for (auto* m : r->methods()) {
            if (m->isImplicit()) continue;
            if (!f) put(",");
            f = false;
            put("["); put(jesc(m->getNameAsString())); put(","); num(id(m->getCanonicalDecl())); put(","); num(m->isPureVirtual()); put("]");
        }
        put("]}");
        flush();
    }
    void global(const VarDecl* v) {
        const VarDecl* d = v->getDefinition();
        if (!d) d = v;
        const VarDecl* iv = nullptr;
        const Expr* init = v->getAnyInitializer(iv);
        auto l = loc(v->getLocation());
        put("{\"k\":\"var\",\"id\":"); num(id(v->getCanonicalDecl())); put(",\"name\":"); put(jesc(qn(v)));
        put(",\"file\":"); put(jesc(l.first)); put(",\"line\":"); num(l.second);
        put(",\"type\":"); num(ty(v->getType())); put(",\"init\":");
        if (init && inRoots(v->getLocation())) expr(init); else put("null");
        put(",\"cv\":");
        std::string cv = "null";
        if (init && v->getType().isConstQualified() && !init->isValueDependent()) {
            Expr::EvalResult r;
            if (v->getType()->isIntegralOrEnumerationType() && init->EvaluateAsInt(r, C)) cv = llvm::toString(r.Val.getInt(), 10);
        }
        put(cv); put("}");
        flush();
    }
    void drain() {
        bool any = true;
        while (any) {
            any = false;
            while (!work.empty()) { auto* f = work.front(); work.pop_front(); function(f); any = true; }
            while (!gwork.empty()) { auto* v = gwork.front(); gwork.pop_front(); global(v); any = true; }
            while (!ework.empty()) { auto* f = ework.front(); ework.pop_front(); external(f); any = true; }
            while (!rwork.empty()) { auto* r = rwork.front(); rwork.pop_front(); record(r); any = true; }
        }
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    X& x;
    explicit V(X& x) : x(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseStmt(Stmt*) { return true; }  // bodies handled by the worklist
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || f->isDependentContext() || f->isDefaulted() || f->isDeleted()) return true;
        if (!f->hasBody()) return true;
        if (!x.inRoots(f->getLocation())) return true;
        x.need(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext()) x.needRecord(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->hasGlobalStorage() && !v->isStaticLocal() && x.inRoots(v->getLocation()) && !v->getType()->isDependentType() && !v->getDeclContext()->isDependentContext())
            if (x.gseen.insert(v->getCanonicalDecl()).second) x.gwork.push_back(v);
        return true;
    }
};

class Cons : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        std::ofstream os(OutPath);
        std::string buf;
        X x(C, buf, os);
        V v(x);
        v.TraverseDecl(C.getTranslationUnitDecl());
        x.drain();
        std::vector<std::string> t(x.types.size());
        for (auto& p : x.types) t[p.second] = p.first;
        buf = "{\"k\":\"types\",\"types\":[";
        for (size_t i = 0; i < t.size(); ++i) { if (i) buf += ","; buf += jesc(t[i]); }
        buf += "]}\n{\"k\":\"end\"}";
        os << buf << "\n";
    }
};
class Act : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char** argv) {
    // dgx OUT ROOT[,ROOT..] SOURCE -- clang args
    if (argc < 5) return 2;
    OutPath = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while (p != std::string::npos) { size_t q = r.find(',', p); Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? q : q + 1; }
    std::string src = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db("/", args);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
