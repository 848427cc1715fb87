// vifx: exports the resolved, instantiated program (clang AST) of the vif headers/tools as JSON lines.
// One line per function definition whose source lies under a given root; last line is a summary.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;
static bool PatternsToo = false;
static bool Merge = false;

static std::string flatten(llvm::json::Value const& v) {
    std::string s;
    llvm::raw_string_ostream os(s);
    os << v;
    os.flush();
    return s;
}

struct Exporter : public RecursiveASTVisitor<Exporter> {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    llvm::raw_ostream& OS;
    std::map<const Decl*, int> ids;
    std::set<const FunctionDecl*> done;
    std::unordered_map<std::string, int> types;
    std::vector<std::string> typev;
    unsigned nfun = 0, npat = 0;
    std::set<std::string> seenUSR;

    Exporter(ASTContext& c, llvm::raw_ostream& o) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), OS(o) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string f = fileOf(L);
        for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
    std::string locKey(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str() + ":" + std::to_string(SM.getSpellingLineNumber(L)) + ":" +
               std::to_string(SM.getSpellingColumnNumber(L));
    }
    int idOf(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    int typeId(QualType q) {
        std::string s = q.isNull() ? std::string("?") : q.getCanonicalType().getAsString(PP);
        auto it = types.find(s);
        if (it != types.end()) return it->second;
        int n = (int)typev.size();
        types[s] = n;
        typev.push_back(s);
        return n;
    }
    std::map<const Decl*, std::string> usrs;
    std::unique_ptr<ASTNameGenerator> NG;
    std::string usr(const Decl* d) {
        auto it = usrs.find(d);
        if (it != usrs.end()) return it->second;
        std::string s = usrImpl(d);
        usrs[d] = s;
        return s;
    }
    std::string usrImpl(const Decl* d) {
        if (auto* fd = dyn_cast<FunctionDecl>(d)) {
            if (!fd->isDependentContext()) {
                if (!NG) NG.reset(new ASTNameGenerator(C));
                std::string s = NG->getName(fd);
                if (!s.empty()) return s;
            }
        }
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf)) return "?" + std::to_string(idOf(d));
        return std::string(buf.str());
    }
    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p2 = PP;
        d->printQualifiedName(os, p2);
        os.flush();
        return s;
    }
    const FunctionDecl* patternOf(const FunctionDecl* f) {
        if (auto* p = f->getTemplateInstantiationPattern()) return p;
        return f;
    }

    // ---------- expressions -----------
    Value ex(const Expr* e) {
        if (!e) return nullptr;
        return exImpl(e);
    }
    void put(Object& o, const Expr* e) {
        o["l"] = line(e->getExprLoc());
        o["t"] = typeId(e->getType());
    }
    Array exs(llvm::ArrayRef<const Expr*> v) {
        Array a;
        for (auto* e : v) a.push_back(ex(e));
        return a;
    }
    template <typename R>
    Array exr(R&& r) {
        Array a;
        for (auto* e : r) a.push_back(ex(e));
        return a;
    }
    void calleeInfo(Object& o, const FunctionDecl* fd) {
        o["fn"] = qname(fd);
        o["u"] = usr(fd);
        const FunctionDecl* def = fd;
        fd->isDefined(def);
        if (!def) def = fd;
        const FunctionDecl* p = patternOf(def);
        o["pk"] = locKey(p->getLocation());
        if (fd->isNoReturn()) o["nr"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            if (m->isStatic()) o["st"] = true;
            if (m->isConst()) o["cm"] = true;
            if (m->isVirtual()) o["virt"] = true;
            o["cls"] = typeId(C.getRecordType(m->getParent()));
        }
        // param kinds: by ref / by const ref / value / rref
        std::string k;
        for (auto* p : fd->parameters()) {
            QualType t = p->getType();
            if (t->isRValueReferenceType()) k += 'm';
            else if (t->isLValueReferenceType()) k += t.getNonReferenceType().isConstQualified() ? 'c' : 'r';
            else if (t->isPointerType()) k += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            else k += 'v';
        }
        o["pm"] = k;
        if (auto* ft = fd->getType()->getAs<FunctionProtoType>()) {
            if (isNoexceptExceptionSpec(ft->getExceptionSpecType()) && ft->canThrow() == CT_Cannot) o["nx"] = true;
            if (ft->isVariadic()) o["va"] = true;
        }
    }
    Value exImpl(const Expr* e) {
        // strip
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                auto ck = p->getCastKind();
                switch (ck) {
                case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
                case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
                case CK_FloatingCast: case CK_BooleanToSignedIntegral:
                    break;
                default:
                    e = p->getSubExpr();
                    continue;
                }
            }
            break;
        }
        Object o;
        put(o, e);
        // constants
        if (!e->isValueDependent() && !e->isTypeDependent()) {
            QualType t = e->getType();
            if (t->isIntegralOrEnumerationType() && !isa<CallExpr>(e)) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
                    o["k"] = t->isBooleanType() ? "bool" : "int";
                    llvm::SmallString<32> s;
                    r.Val.getInt().toString(s, 10);
                    o["v"] = std::string(s.str());
                    if (auto* dr = dyn_cast<DeclRefExpr>(e)) o["n"] = dr->getDecl()->getNameAsString();
                    return o;
                }
            }
        }
        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["imp"] = true;
            o["e"] = ex(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            o["k"] = "cast"; o["ck"] = x->getCastKindName();
            if (isa<CXXConstCastExpr>(x)) o["cc"] = true;
            if (isa<CXXReinterpretCastExpr>(x)) o["rc"] = true;
            o["st"] = typeId(x->getSubExpr()->getType());
            o["e"] = ex(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fref"; calleeInfo(o, fd); return o;
            }
            o["k"] = "ref"; o["n"] = d->getNameAsString(); o["id"] = idOf(d);
            if (auto* vd = dyn_cast<VarDecl>(d)) {
                if (vd->hasGlobalStorage()) { o["g"] = qname(vd); if (vd->isStaticLocal()) o["sl"] = true; }
                if (isa<ParmVarDecl>(vd)) o["p"] = true;
                if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "mref"; calleeInfo(o, fd); o["b"] = ex(x->getBase()); return o;
            }
            if (auto* vd = dyn_cast<VarDecl>(d)) {
                o["k"] = "ref"; o["n"] = vd->getNameAsString(); o["id"] = idOf(vd); o["g"] = qname(vd);
                return o;
            }
            o["k"] = "mem"; o["f"] = d->getNameAsString(); o["b"] = ex(x->getBase());
            if (auto* f = dyn_cast<FieldDecl>(d)) o["o"] = typeId(C.getRecordType(f->getParent()));
            if (x->isArrow()) o["ar"] = true;
            return o;
        }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "call"; o["op"] = getOperatorSpelling(x->getOperator());
            auto* fd = x->getDirectCallee();
            Array a;
            unsigned start = 0;
            if (fd) {
                calleeInfo(o, fd);
                if (isa<CXXMethodDecl>(fd) && x->getNumArgs() > 0) { o["obj"] = ex(x->getArg(0)); start = 1; }
            }
            for (unsigned i = start; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "call";
            if (auto* fd = x->getMethodDecl()) {
                calleeInfo(o, fd);
                if (isa<CXXConversionDecl>(fd)) o["conv"] = true;
            } else o["ce"] = ex(x->getCallee());
            o["obj"] = ex(x->getImplicitObjectArgument());
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->isArrow()) o["ar"] = true;
            o["a"] = exr(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            if (auto* fd = x->getDirectCallee()) calleeInfo(o, fd);
            else o["ce"] = ex(x->getCallee());
            o["a"] = exr(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* cd = x->getConstructor();
            if (x->isElidable() && x->getNumArgs() >= 1) {
                return ex(x->getArg(0));
            }
            o["k"] = "ctor"; calleeInfo(o, cd);
            if (cd->isCopyConstructor()) o["cp"] = true;
            if (cd->isMoveConstructor()) o["mv"] = true;
            if (x->isListInitialization()) o["il"] = true;
            o["a"] = exr(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin"; o["op"] = x->getOpcodeStr().str();
            o["x"] = ex(x->getLHS()); o["y"] = ex(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["e"] = ex(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond"; o["c"] = ex(x->getCond()); o["x"] = ex(x->getTrueExpr()); o["y"] = ex(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "sub"; o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "flt"; o["v"] = x->getValueAsApproximateDouble() == x->getValueAsApproximateDouble() &&
                std::abs(x->getValueAsApproximateDouble()) < 1e300 ? Value(x->getValueAsApproximateDouble()) : Value(nullptr);
            return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = llvm::json::fixUTF8(x->getCharByteWidth() == 1 ? x->getString() : "?"); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            auto* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            o["k"] = "init"; o["a"] = exr(s->inits());
            if (s->hasArrayFiller()) o["fill"] = true;
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; return o; }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda"; 
            auto* op = x->getCallOperator();
            o["u"] = usr(op);
            o["id"] = idOf(x->getLambdaClass());
            Array caps;
            for (auto it = x->capture_begin(); it != x->capture_end(); ++it) {
                Object c;
                if (it->capturesThis()) c["this"] = true;
                else if (it->capturesVariable()) { c["id"] = idOf(it->getCapturedVar()); c["n"] = it->getCapturedVar()->getNameAsString(); }
                c["ref"] = it->getCaptureKind() == LCK_ByRef;
                c["impl"] = it->isImplicit();
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            o["p"] = params(op);
            o["rt"] = typeId(op->getReturnType());
            o["mut"] = x->isMutable();
            o["body"] = st(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = ex(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new"; o["at"] = typeId(x->getAllocatedType()); if (x->isArray()) { o["arr"] = true; if (auto s = x->getArraySize()) o["n"] = ex(*s); }
            if (x->getNumPlacementArgs()) o["plc"] = true;
            o["i"] = ex(x->getInitializer());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "del"; if (x->isArrayForm()) o["arr"] = true; o["e"] = ex(x->getArgument()); return o; }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { return ex(x->getSourceExpr()); }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { (void)x; o["k"] = "typeid"; return o; }
        if (auto* x = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["s"] = st(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { (void)x; o["k"] = "str"; o["v"] = "?"; return o; }
        o["k"] = "other"; o["c"] = e->getStmtClassName();
        Array a;
        for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
        o["a"] = std::move(a);
        return o;
    }

    // ---------- statements -----------
    Value varDecl(const VarDecl* v) {
        Object o;
        o["id"] = idOf(v); o["n"] = v->getNameAsString(); o["t"] = typeId(v->getType()); o["l"] = line(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true; if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (v->getInit()) o["init"] = ex(v->getInit());
        return o;
    }
    Array params(const FunctionDecl* f) {
        Array a;
        for (auto* p : f->parameters()) {
            Object o;
            o["id"] = idOf(p); o["n"] = p->getNameAsString(); o["t"] = typeId(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["d"] = true;
            a.push_back(std::move(o));
        }
        return a;
    }
    Value st(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) return ex(e);
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block"; Array a; for (auto* c : x->body()) a.push_back(st(c)); o["s"] = std::move(a);
            o["le"] = line(x->getRBracLoc());
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl"; Array a;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            o["v"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            if (x->getBeginLoc().isMacroID()) o["mac"] = Lexer::getImmediateMacroName(x->getBeginLoc(), SM, C.getLangOpts()).str();
            if (auto* v = x->getConditionVariable()) o["var"] = varDecl(v);
            o["c"] = ex(x->getCond()); o["x"] = st(x->getThen()); o["y"] = st(x->getElse()); return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for"; o["i"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["n"] = ex(x->getInc()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody());
            if (auto* v = x->getConditionVariable()) o["var"] = varDecl(v);
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor"; o["var"] = varDecl(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = ex(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "brk"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case"; o["v"] = ex(x->getLHS());
            // record enumerator name
            if (auto* dr = dyn_cast<DeclRefExpr>(x->getLHS()->IgnoreParenImpCasts())) o["n"] = dr->getDecl()->getNameAsString();
            else if (auto* ce = dyn_cast<ConstantExpr>(x->getLHS())) if (auto* dr = dyn_cast<DeclRefExpr>(ce->getSubExpr()->IgnoreParenImpCasts())) o["n"] = dr->getDecl()->getNameAsString();
            o["b"] = st(x->getSubStmt()); return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = st(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try"; o["b"] = st(x->getTryBlock());
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* c = x->getHandler(i);
                Object ho; ho["l"] = line(c->getBeginLoc());
                if (auto* v = c->getExceptionDecl()) { ho["var"] = varDecl(v); }
                else ho["any"] = true;
                ho["b"] = st(c->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h); return o;
        }
        if (isa<NullStmt>(s)) { o["k"] = "null_stmt"; return o; }
        if (auto* x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString(); return o; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["n"] = x->getName(); o["b"] = st(x->getSubStmt()); return o; }
        o["k"] = "ostmt"; o["c"] = s->getStmtClassName();
        return o;
    }

    void emitFunction(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
        if (f->isDependentContext()) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isDependentContext()) return;
        if (f->isInvalidDecl()) return;
        if (!inRoots(f->getLocation())) return;
        if (!done.insert(f).second) return;
        std::string u = usr(f);
        if (!seenUSR.insert(u).second) return;
        ++nfun;
        Object o;
        o["k"] = "fun";
        o["fn"] = qname(f);
        o["n"] = f->getNameAsString();
        o["u"] = u;
        const FunctionDecl* p = patternOf(f);
        o["pk"] = locKey(p->getLocation());
        o["file"] = fileOf(p->getLocation());
        o["l"] = line(p->getLocation());
        o["le"] = line(p->getEndLoc());
        o["rt"] = typeId(f->getReturnType());
        if (f->isInlined()) o["inl"] = true;
        if (p != f || f->getTemplateSpecializationKind() != TSK_Undeclared) o["inst"] = true;
        if (f->isNoReturn()) o["nr"] = true;
        if (f->isDefaulted()) o["dflt"] = true;
        if (f->getStorageClass() == SC_Static) o["stat"] = true;
        if (auto* ft = f->getType()->getAs<FunctionProtoType>()) {
            if (ft->getExceptionSpecType() != EST_Unevaluated && ft->getExceptionSpecType() != EST_Uninstantiated && ft->canThrow() == CT_Cannot) o["nx"] = true;
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = typeId(C.getRecordType(m->getParent()));
            o["cn"] = qname(m->getParent());
            if (m->isStatic()) o["st"] = true;
            if (m->isConst()) o["cm"] = true;
            if (m->getParent()->isLambda()) o["lam"] = true;
            o["acc"] = (int)m->getAccess();
            if (m->isCopyAssignmentOperator()) o["cas"] = true;
            if (m->isMoveAssignmentOperator()) o["mas"] = true;
        }
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            o["ck"] = "ctor";
            if (cd->isCopyConstructor()) o["cpc"] = true;
            if (cd->isMoveConstructor()) o["mvc"] = true;
            Array inits;
            for (auto* i : cd->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                if (i->isWritten()) io["w"] = true;
                io["e"] = ex(i->getInit());
                io["l"] = line(i->getSourceLocation());
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        if (isa<CXXDestructorDecl>(f)) o["ck"] = "dtor";
        if (isa<CXXConversionDecl>(f)) o["ck"] = "conv";
        o["p"] = params(f);
        if (f->getBody()) o["body"] = st(f->getBody());
        OS << flatten(std::move(o)) << "\n";
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        emitFunction(f);
        // pattern list for coverage accounting
        if (f->isThisDeclarationADefinition() && f->isDependentContext() && inRoots(f->getLocation())) {
            Object o; o["k"] = "pat"; o["fn"] = qname(f); o["pk"] = locKey(f->getLocation()); o["l"] = line(f->getLocation());
            OS << flatten(std::move(o)) << "\n"; ++npat;
        }
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (isa<ParmVarDecl>(v)) return true;
        if (!v->hasGlobalStorage()) return true;
        if (!inRoots(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext()) {
            if (!v->isStaticLocal()) return true;
        }
        if (!v->isThisDeclarationADefinition() && !v->isStaticDataMember()) return true;
        Object o;
        o["k"] = "gvar"; o["fn"] = qname(v); o["t"] = typeId(v->getType()); o["file"] = fileOf(v->getLocation()); o["l"] = line(v->getLocation());
        o["const"] = v->getType().isConstQualified(); o["cx"] = v->isConstexpr(); o["sl"] = v->isStaticLocal(); 
        o["sdm"] = v->isStaticDataMember();
        o["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition;
        o["ext"] = v->hasExternalFormalLinkage();
        o["stat"] = v->getStorageClass() == SC_Static;
        o["tls"] = v->getTSCSpec() != TSCS_unspecified;
        if (v->isStaticLocal()) if (auto* fd = dyn_cast<FunctionDecl>(v->getDeclContext())) o["in"] = qname(fd);
        o["tmplinst"] = v->isTemplated() || v->getTemplateSpecializationKind() != TSK_Undeclared || v->getDescribedVarTemplate() != nullptr;
        if (!v->getDeclContext()->isDependentContext() && v->getInit() && !v->getInit()->isValueDependent()) o["init"] = ex(v->getInit());
        OS << flatten(std::move(o)) << "\n";
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition()) return true;
        if (!inRoots(r->getLocation())) return true;
        if (r->isDependentContext() || r->isLambda()) return true;
        Object o;
        o["k"] = "rec"; o["fn"] = qname(r); o["t"] = typeId(C.getRecordType(r)); o["l"] = line(r->getLocation()); o["file"] = fileOf(r->getLocation());
        Array fs;
        for (auto* f : r->fields()) {
            Object fo; fo["n"] = f->getNameAsString(); fo["t"] = typeId(f->getType()); fo["acc"] = (int)f->getAccess(); fo["l"] = line(f->getLocation());
            fo["mut"] = f->isMutable();
            if (f->hasInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto& b : r->bases()) bs.push_back(typeId(b.getType()));
        o["bases"] = std::move(bs);
        auto sm = [&](bool has, bool user) { return user ? 2 : (has ? 1 : 0); };
        o["udtor"] = r->hasUserDeclaredDestructor();
        o["ucopy"] = r->hasUserDeclaredCopyConstructor();
        o["umove"] = r->hasUserDeclaredMoveConstructor();
        o["ucas"] = r->hasUserDeclaredCopyAssignment();
        o["umas"] = r->hasUserDeclaredMoveAssignment();
        bool cpdel = false, casdel = false;
        for (auto* c : r->ctors()) if (c->isCopyConstructor()) cpdel = c->isDeleted() || c->getAccess() == AS_private;
        for (auto* m : r->methods()) if (m->isCopyAssignmentOperator()) casdel = m->isDeleted();
        o["cpdel"] = cpdel; o["casdel"] = casdel;
        o["scopy"] = r->hasSimpleCopyConstructor(); o["smove"] = r->hasSimpleMoveConstructor();
        (void)sm;
        OS << flatten(std::move(o)) << "\n";
        return true;
    }
    void finish(unsigned errs) {
        Object o; o["k"] = "end"; o["nfun"] = nfun; o["npat"] = npat; o["errors"] = errs;
        Array t; for (auto& s : typev) t.push_back(llvm::json::fixUTF8(s));
        o["types"] = std::move(t);
        OS << flatten(std::move(o)) << "\n";
    }
};

struct Consumer : public ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& c) : CI(c) {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        if (ec) { llvm::errs() << "cannot write " << OutFile << "\n"; exit(3); }
        Exporter e(ctx, os);
        e.TraverseDecl(ctx.getTranslationUnitDecl());
        e.finish(ctx.getDiagnostics().getClient()->getNumErrors());
    }
};
struct Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char** argv) {
    std::vector<std::string> flags;
    std::string file;
    std::vector<std::pair<std::string,std::string>> maps;   // analyse PATH with the contents of FILE
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "-o") OutFile = argv[++i];
        else if (a == "--map") { maps.push_back({argv[i+1], argv[i+2]}); i += 2; }
        else if (a == "--root") Roots.push_back(argv[++i]);
        else file = a;
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    std::vector<std::unique_ptr<llvm::MemoryBuffer>> bufs;
    for (auto& m : maps) {
        auto b = llvm::MemoryBuffer::getFile(m.second);
        if (!b) { llvm::errs() << "cannot read " << m.second << "\n"; return 3; }
        bufs.push_back(std::move(*b));
        tool.mapVirtualFile(m.first, bufs.back()->getBuffer());
    }
    return tool.run(tooling::newFrontendActionFactory<Action>().get()) == 2 ? 2 : 0;
}
