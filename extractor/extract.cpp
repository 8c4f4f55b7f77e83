// log-surgeon fact extractor: parses one translation unit with clang's front end and dumps the
// *resolved* program (types, callees, template instantiations, constants) of every function whose
// definition lives under a given source root, as JSON statement/expression trees.
// usage: extract ROOT OUT.json FILE -- clang-args...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {
class Dumper {
public:
    explicit Dumper(ASTContext& ctx) : m_ctx(ctx), m_sm(ctx.getSourceManager()), m_pp(ctx.getPrintingPolicy()) {
        m_pp.PrintCanonicalTypes = true;
        m_pp.SuppressTagKeyword = true;
    }

    std::string usr(Decl const* d) {
        llvm::SmallString<256> buf;
        if (index::generateUSRForDecl(d, buf)) {
            return "?";
        }
        std::string id(buf.str());
        // the lambdas of one template function share their USR
        if (auto const* md = dyn_cast<CXXMethodDecl>(d); md != nullptr && md->getParent()->isLambda()) {
            auto loc = m_sm.getExpansionLoc(md->getParent()->getBeginLoc());
            id += "@" + std::to_string(m_sm.getFileOffset(loc));
        }
        return id;
    }

    std::string file_of(SourceLocation loc) {
        loc = m_sm.getExpansionLoc(loc);
        auto p = m_sm.getPresumedLoc(loc);
        if (p.isInvalid()) return "";
        std::string f = p.getFilename();
        if (f.rfind(g_root, 0) == 0) f = f.substr(g_root.size());
        return f;
    }

    bool in_root(SourceLocation loc) {
        loc = m_sm.getExpansionLoc(loc);
        auto p = m_sm.getPresumedLoc(loc);
        if (p.isInvalid()) return false;
        return std::string(p.getFilename()).rfind(g_root, 0) == 0;
    }

    unsigned line_of(SourceLocation loc) {
        auto p = m_sm.getPresumedLoc(m_sm.getExpansionLoc(loc));
        return p.isInvalid() ? 0 : p.getLine();
    }

    std::string type_str(QualType t) { return t.getCanonicalType().getAsString(m_pp); }

    std::string rec_of(QualType t) {
        t = t.getNonReferenceType();
        while (t->isPointerType()) t = t->getPointeeType();
        if (auto const* r = t->getAsCXXRecordDecl()) return r->getQualifiedNameAsString();
        return "";
    }

    std::string qname(NamedDecl const* d) {
        if (auto const* fd = dyn_cast<FunctionDecl>(d)) {
            if (auto const* md = dyn_cast<CXXMethodDecl>(fd)) {
                std::string n;
                if (isa<CXXConstructorDecl>(md)) n = "<ctor>";
                else if (isa<CXXDestructorDecl>(md)) n = "<dtor>";
                else if (isa<CXXConversionDecl>(md)) n = "<conv>";
                else n = md->getNameAsString();
                return md->getParent()->getQualifiedNameAsString() + "::" + n;
            }
        }
        return d->getQualifiedNameAsString();
    }

    std::string var_id(ValueDecl const* d) {
        // unique per declaration in this unit
        auto it = m_var_ids.find(d->getCanonicalDecl());
        if (it != m_var_ids.end()) return it->second;
        std::string s = d->getNameAsString() + "@" + std::to_string(m_var_ids.size());
        m_var_ids[d->getCanonicalDecl()] = s;
        return s;
    }

    json::Value callee(FunctionDecl const* fd, json::Object& o) {
        o["q"] = qname(fd);
        FunctionDecl const* def = fd;
        o["fn"] = usr(def);
        if (auto const* md = dyn_cast<CXXMethodDecl>(fd)) {
            if (md->isVirtual()) o["virt"] = true;
            if (md->isConst()) o["cm"] = true;
            if (md->isStatic()) o["static"] = true;
        }
        if (fd->isNoReturn()) o["noret"] = true;
        json::Array pm;
        for (auto const* p : fd->parameters()) {
            pm.push_back(pass_mode(p->getType()));
        }
        o["pm"] = std::move(pm);
        return nullptr;
    }

    // how an argument is passed: v(alue), r (mutable ref), c (const ref), m (rvalue ref),
    // p (pointer to mutable), q (pointer to const)
    std::string pass_mode(QualType t) {
        t = t.getCanonicalType();
        if (t->isRValueReferenceType()) return "m";
        if (t->isLValueReferenceType()) return t.getNonReferenceType().isConstQualified() ? "c" : "r";
        if (t->isPointerType()) return t->getPointeeType().isConstQualified() ? "q" : "p";
        return "v";
    }

    json::Value args(llvm::ArrayRef<Expr const*> as) {
        json::Array a;
        for (auto const* e : as) a.push_back(expr(e));
        return a;
    }

    template <typename R>
    json::Value args_range(R r) {
        json::Array a;
        for (auto const* e : r) a.push_back(expr(e));
        return a;
    }

    void add_common(Expr const* e, json::Object& o) {
        o["l"] = line_of(e->getBeginLoc());
        if (!o.get("t")) o["t"] = type_str(e->getType());
        auto rec = rec_of(e->getType());
        if (!rec.empty()) o["rec"] = rec;
        if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()
            && e->isPRValue())
        {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, m_ctx, Expr::SE_NoSideEffects)) {
                auto const& v = r.Val.getInt();
                if (v.getSignificantBits() <= 64 || v.getActiveBits() <= 64) {
                    o["cv"] = v.isSigned() ? v.getSExtValue() : static_cast<int64_t>(v.getZExtValue());
                }
            }
        }
    }

    json::Value expr(Expr const* e0) {
        if (e0 == nullptr) return nullptr;
        json::Object o = expr_obj(e0);
        return json::Value(std::move(o));
    }

    bool known_const(Expr const* e0, json::Object& o) {
        if (e0->isValueDependent() || e0->isTypeDependent()) return false;
        if (!e0->getType()->isIntegralOrEnumerationType()) return false;
        Expr::EvalResult r;
        if (!e0->EvaluateAsInt(r, m_ctx, Expr::SE_NoSideEffects)) return false;
        auto const& v = r.Val.getInt();
        o["cv"] = v.isSigned() ? v.getSExtValue() : static_cast<int64_t>(v.getZExtValue());
        return true;
    }

    json::Object expr_obj(Expr const* e0) {
        Expr const* e = e0;
        int64_t narrow = 0;
        // strip wrappers that carry no meaning for the analyses
        while (true) {
            if (auto const* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto const* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto const* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto const* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto const* x = dyn_cast<ImplicitCastExpr>(e)) {
                auto k = x->getCastKind();
                if (k == CK_IntegralCast) {
                    auto from = m_ctx.getTypeSize(x->getSubExpr()->getType());
                    auto to = m_ctx.getTypeSize(x->getType());
                    if (to < from) narrow = static_cast<int64_t>(to);
                }
                e = x->getSubExpr();
                continue;
            }
            if (auto const* x = dyn_cast<CXXConstructExpr>(e)) {
                // elidable / copy / move construction from one operand: keep but mark
                break;
            }
            break;
        }
        json::Object o = raw(e);
        if (narrow) o["narrow"] = narrow;
        add_common(e, o);
        if (!o.get("cv")) known_const(e0, o);
        return o;
    }

    json::Object raw(Expr const* e) {
        json::Object o;
        if (auto const* x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            return o;
        }
        if (auto const* x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "int";
            o["ch"] = true;
            return o;
        }
        if (isa<CXXBoolLiteralExpr>(e)) { o["k"] = "int"; o["bool"] = true; return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (auto const* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            if (x->getCharByteWidth() == 1) {
                std::string s = x->getString().str();
                if (json::isUTF8(s)) o["v"] = s; else o["v"] = json::fixUTF8(s);
            } else {
                std::string s;
                for (unsigned i = 0; i < x->getLength(); ++i) {
                    auto c = x->getCodeUnit(i);
                    s += (c < 128) ? static_cast<char>(c) : '?';
                }
                o["v"] = s;
            }
            return o;
        }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto const* x = dyn_cast<DeclRefExpr>(e)) {
            auto const* d = x->getDecl();
            o["k"] = "ref";
            o["n"] = d->getNameAsString();
            if (auto const* b = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "binding";
                o["id"] = var_id(b);
                return o;
            }
            if (auto const* v = dyn_cast<VarDecl>(d)) {
                if (v->isStaticDataMember() || (v->hasGlobalStorage() && !v->isStaticLocal())) {
                    o["dk"] = "global";
                    o["id"] = qname(v);
                    if (v->getType().isConstQualified()) o["const"] = true;
                    global(v);
                } else if (v->isStaticLocal()) {
                    o["dk"] = "slocal";
                    o["id"] = var_id(v);
                    o["st"] = type_str(v->getType());
                    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
                    if (v->getType().isConstQualified()) o["const"] = true;
                } else {
                    o["dk"] = isa<ParmVarDecl>(v) ? "param" : "local";
                    o["id"] = var_id(v);
                    if (v->getType()->isReferenceType()) o["isref"] = true;
                }
                return o;
            }
            if (auto const* f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func";
                callee(f, o);
                return o;
            }
            if (isa<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["id"] = qname(d);
                return o;
            }
            o["dk"] = "other";
            return o;
        }
        if (auto const* x = dyn_cast<MemberExpr>(e)) {
            auto const* d = x->getMemberDecl();
            if (auto const* v = dyn_cast<VarDecl>(d)) {  // static member through object
                o["k"] = "ref"; o["dk"] = "global"; o["id"] = qname(v); o["n"] = v->getNameAsString();
                global(v);
                return o;
            }
            o["k"] = "mem";
            o["f"] = qname(d);
            o["n"] = d->getNameAsString();
            o["b"] = expr(x->getBase());
            if (x->isArrow()) o["arrow"] = true;
            if (isa<CXXMethodDecl>(d)) { o["k"] = "memfn"; callee(cast<CXXMethodDecl>(d), o); }
            return o;
        }
        if (auto const* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "call";
            if (auto const* md = x->getMethodDecl()) {
                callee(md, o);
                auto const* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                if (me != nullptr) {
                    o["obj"] = expr(me->getBase());
                    if (me->isArrow()) o["arrow"] = true;
                    if (me->hasQualifier()) o["qualcall"] = true;
                }
            } else {
                o["q"] = "?memptr";
                o["obj"] = expr(x->getCallee());
            }
            o["args"] = args_range(x->arguments());
            return o;
        }
        if (auto const* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "call";
            o["opc"] = getOperatorSpelling(x->getOperator());
            if (auto const* fd = x->getDirectCallee()) {
                callee(fd, o);
                if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
                    o["obj"] = expr(x->getArg(0));
                    json::Array a;
                    for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
                    o["args"] = std::move(a);
                } else {
                    o["args"] = args_range(x->arguments());
                }
            } else {
                o["q"] = "?op";
                o["args"] = args_range(x->arguments());
            }
            return o;
        }
        if (auto const* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            return raw_stripped(x->getSemanticForm());
        }
        if (auto const* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            if (auto const* fd = x->getDirectCallee()) {
                callee(fd, o);
            } else {
                o["q"] = "?indirect";
                o["obj"] = expr(x->getCallee());
            }
            o["args"] = args_range(x->arguments());
            return o;
        }
        if (auto const* x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "ctor";
            auto const* cd = x->getConstructor();
            callee(cd, o);
            o["cls"] = cd->getParent()->getQualifiedNameAsString();
            if (cd->isCopyConstructor()) o["copy"] = true;
            if (cd->isMoveConstructor()) o["move"] = true;
            if (cd->isDefaulted()) o["dflt"] = true;
            if (x->isListInitialization()) o["list"] = true;
            if (x->requiresZeroInitialization()) o["zero"] = true;
            o["args"] = args_range(x->arguments());
            return o;
        }
        if (auto const* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
            return cast_obj("fcast", x);
        }
        if (auto const* x = dyn_cast<CXXDynamicCastExpr>(e)) { return cast_obj("dcast", x); }
        if (auto const* x = dyn_cast<ExplicitCastExpr>(e)) { return cast_obj("cast", x); }
        if (auto const* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "asg";
            o["op"] = x->getOpcodeStr().str();
            o["lhs"] = expr(x->getLHS());
            o["rhs"] = expr(x->getRHS());
            return o;
        }
        if (auto const* x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign) {
                o["k"] = "asg";
                o["op"] = "=";
                o["lhs"] = expr(x->getLHS());
                o["rhs"] = expr(x->getRHS());
            } else {
                o["k"] = "bin";
                o["op"] = x->getOpcodeStr().str();
                o["lhs"] = expr(x->getLHS());
                o["rhs"] = expr(x->getRHS());
            }
            return o;
        }
        if (auto const* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto const* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto const* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            return o;
        }
        if (auto const* x = dyn_cast<InitListExpr>(e)) {
            o["k"] = "init";
            auto const* sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            json::Array a;
            for (auto const* i : sem->inits()) a.push_back(expr(i));
            o["elems"] = std::move(a);
            if (auto const* r = sem->getType()->getAsCXXRecordDecl()) {
                json::Array fs;
                for (auto const* f : r->fields()) fs.push_back(qname(f));
                o["fields"] = std::move(fs);
            }
            return o;
        }
        if (auto const* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            auto const* op = x->getCallOperator();
            o["fn"] = usr(op);
            Stmt const* lbody = x->getBody();
            bool open = op->isDependentContext() || x->isGenericLambda();
            if (auto* ft = x->getDependentCallOperator(); ft != nullptr && x->isGenericLambda()) {
                // the instantiation in use has types and resolved calls
                for (auto const* sp : ft->specializations()) {
                    if (auto const* md = dyn_cast<CXXMethodDecl>(sp); md != nullptr && md->getBody() != nullptr) {
                        op = md;
                        lbody = md->getBody();
                        open = false;
                        break;
                    }
                }
            }
            json::Array ps;
            for (auto const* p : op->parameters()) ps.push_back(param(p));
            o["params"] = std::move(ps);
            o["ret"] = type_str(op->getReturnType());
            json::Array cs;
            for (auto const& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                if (c.capturesVariable()) {
                    co["id"] = var_id(c.getCapturedVar());
                    co["byref"] = (c.getCaptureKind() == LCK_ByRef);
                }
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
            if (open) o["generic"] = true;
            if (x->isMutable()) o["mutable"] = true;
            o["body"] = stmt(lbody);
            return o;
        }
        if (auto const* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["cls"] = rec_of(x->getAllocatedType());
            o["at"] = type_str(x->getAllocatedType());
            if (x->isArray()) o["array"] = true;
            if (x->getConstructExpr() != nullptr) o["ctor"] = expr(x->getConstructExpr());
            else if (x->getInitializer() != nullptr) o["ctor"] = expr(x->getInitializer());
            return o;
        }
        if (auto const* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto const* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto const* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; return o; }
        if (auto const* x = dyn_cast<ImplicitValueInitExpr>(e)) { o["k"] = "zeroinit"; return o; }
        if (auto const* x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"] = "zeroinit"; return o; }
        if (isa<FloatingLiteral>(e)) { o["k"] = "float"; return o; }
        if (auto const* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return raw_stripped(x->getSourceExpr()); }
        if (auto const* x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "arrcopy"; o["e"] = expr(x->getCommonExpr()); return o; }
        if (auto const* x = dyn_cast<PseudoObjectExpr>(e)) { (void)x; }
        o["k"] = "other";
        o["cls"] = e->getStmtClassName();
        json::Array ch;
        for (auto const* c : e->children()) {
            if (c != nullptr && isa<Expr>(c)) ch.push_back(expr(cast<Expr>(c)));
        }
        o["ch"] = std::move(ch);
        return o;
    }

    json::Object raw_stripped(Expr const* e) { return expr_obj(e); }

    json::Object cast_obj(char const* k, ExplicitCastExpr const* x) {
        json::Object o;
        o["k"] = k;
        o["ck"] = x->getCastKindName();
        o["to"] = type_str(x->getTypeAsWritten());
        auto r = rec_of(x->getTypeAsWritten());
        if (!r.empty()) o["torec"] = r;
        auto const* sub = x->getSubExpr();
        if (x->getType()->isIntegralOrEnumerationType() && sub->getType()->isIntegralOrEnumerationType()) {
            auto from = m_ctx.getTypeSize(sub->IgnoreImpCasts()->getType());
            auto to = m_ctx.getTypeSize(x->getType());
            if (to < from) o["narrow"] = static_cast<int64_t>(to);
        }
        o["e"] = expr(sub);
        return o;
    }

    json::Object param(ParmVarDecl const* p) {
        json::Object o;
        o["n"] = p->getNameAsString();
        o["id"] = var_id(p);
        o["t"] = type_str(p->getType());
        o["pm"] = pass_mode(p->getType());
        auto r = rec_of(p->getType());
        if (!r.empty()) o["rec"] = r;
        return o;
    }

    json::Value var(VarDecl const* v) {
        json::Object o;
        o["n"] = v->getNameAsString();
        o["id"] = var_id(v);
        o["t"] = type_str(v->getType());
        o["l"] = line_of(v->getLocation());
        auto r = rec_of(v->getType());
        if (!r.empty()) o["rec"] = r;
        if (v->getType()->isReferenceType()) o["isref"] = true;
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->getType().isConstQualified()) o["const"] = true;
        if (v->getInit() != nullptr) o["init"] = expr(v->getInit());
        if (auto const* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            for (auto const* b : dd->bindings()) {
                json::Object bo;
                bo["n"] = b->getNameAsString();
                bo["id"] = var_id(b);
                bo["t"] = type_str(b->getType());
                if (auto const* be = b->getBinding()) {
                    if (auto const* me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts()))
                        bo["field"] = qname(me->getMemberDecl());
                }
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return json::Value(std::move(o));
    }

    json::Value stmt(Stmt const* s) {
        if (s == nullptr) return nullptr;
        json::Object o;
        o["l"] = line_of(s->getBeginLoc());
        if (auto const* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            json::Array a;
            for (auto const* c : x->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            o["el"] = line_of(x->getEndLoc());
        } else if (auto const* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                auto nd = x->getNondiscardedCase(m_ctx);
                if (nd.has_value()) {
                    if (*nd == nullptr) { o["k"] = "null"; return json::Value(std::move(o)); }
                    return stmt(*nd);
                }
            }
            o["k"] = "if";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["then"] = stmt(x->getThen());
            if (x->getElse()) o["else"] = stmt(x->getElse());
        } else if (auto const* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        } else if (auto const* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        } else if (auto const* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            o["body"] = stmt(x->getBody());
        } else if (auto const* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["var"] = var(x->getLoopVariable());
            o["range"] = expr(x->getRangeInit());
            o["body"] = stmt(x->getBody());
        } else if (auto const* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            if (x->getRetValue()) o["e"] = expr(x->getRetValue());
        } else if (isa<BreakStmt>(s)) {
            o["k"] = "break";
        } else if (isa<ContinueStmt>(s)) {
            o["k"] = "continue";
        } else if (auto const* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array a;
            for (auto const* d : x->decls()) {
                if (auto const* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            }
            o["vars"] = std::move(a);
        } else if (isa<NullStmt>(s)) {
            o["k"] = "null";
        } else if (auto const* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
        } else if (auto const* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["v"] = expr(x->getLHS());
            o["s"] = stmt(x->getSubStmt());
        } else if (auto const* x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["s"] = stmt(x->getSubStmt());
        } else if (auto const* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["body"] = stmt(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) hs.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
            o["handlers"] = std::move(hs);
        } else if (auto const* x = dyn_cast<AttributedStmt>(s)) {
            return stmt(x->getSubStmt());
        } else if (auto const* x = dyn_cast<LabelStmt>(s)) {
            return stmt(x->getSubStmt());
        } else if (auto const* x = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = expr(x);
        } else {
            o["k"] = "other";
            o["cls"] = s->getStmtClassName();
        }
        return json::Value(std::move(o));
    }

    void global(VarDecl const* v) {
        v = v->getCanonicalDecl();
        auto q = qname(v);
        VarDecl const* def = v->getDefinition() ? v->getDefinition() : v;
        if (m_globals.count(q)) return;
        m_globals.insert(q);
        if (!in_root(def->getLocation())) return;
        json::Object o;
        o["q"] = q;
        o["t"] = type_str(def->getType());
        o["file"] = file_of(def->getLocation());
        o["l"] = line_of(def->getLocation());
        o["const"] = def->getType().isConstQualified() || def->isConstexpr();
        o["tls"] = def->getTLSKind() != VarDecl::TLS_None;
        if (def->getAnyInitializer()) {
            o["init"] = expr(def->getAnyInitializer());
        }
        globals.push_back(std::move(o));
    }

    void function(FunctionDecl const* fd) {
        if (!fd->isThisDeclarationADefinition()) return;
        if (fd->isDependentContext()) return;
        if (!in_root(fd->getLocation())) return;
        if (auto const* md = dyn_cast<CXXMethodDecl>(fd)) {
            if (md->getParent()->isLambda()) return;
        }
        Stmt const* body = fd->getBody();
        if (body == nullptr && !(isa<CXXConstructorDecl>(fd) && !fd->isDefaulted())) return;
        auto id = usr(fd);
        if (m_done.count(id)) return;
        m_done.insert(id);
        json::Object o;
        o["id"] = id;
        o["q"] = qname(fd);
        o["file"] = file_of(fd->getLocation());
        o["l"] = line_of(fd->getLocation());
        o["ret"] = type_str(fd->getReturnType());
        auto rr = rec_of(fd->getReturnType());
        if (!rr.empty()) o["retrec"] = rr;
        if (auto const* md = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = md->getParent()->getQualifiedNameAsString();
            o["clst"] = type_str(m_ctx.getRecordType(md->getParent()));
            if (md->isConst()) o["const"] = true;
            if (md->isStatic()) o["static"] = true;
            if (md->isVirtual()) o["virt"] = true;
            o["access"] = static_cast<int>(md->getAccess());
            json::Array ov;
            for (auto const* x : md->overridden_methods()) ov.push_back(usr(x));
            o["over"] = std::move(ov);
        }
        if (fd->isDefaulted()) o["defaulted"] = true;
        if (fd->getStorageClass() == SC_Static) o["internal"] = true;
        json::Array ps;
        for (auto const* p : fd->parameters()) ps.push_back(param(p));
        o["params"] = std::move(ps);
        if (auto const* cd = dyn_cast<CXXConstructorDecl>(fd)) {
            if (cd->isCopyConstructor()) o["copyctor"] = true;
            if (cd->isMoveConstructor()) o["movector"] = true;
            json::Array is;
            for (auto const* i : cd->inits()) {
                json::Object io;
                if (i->isMemberInitializer()) io["field"] = qname(i->getMember());
                else if (i->isBaseInitializer()) io["base"] = rec_of(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                io["written"] = i->isWritten();
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = stmt(body);
        functions.push_back(std::move(o));
    }

    void record(CXXRecordDecl const* rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda()) return;
        // an explicit instantiation lies where its template does
        auto const* pattern = rd->getTemplateInstantiationPattern();
        auto const where = pattern != nullptr ? pattern->getLocation() : rd->getLocation();
        if (!in_root(where)) return;
        auto t = type_str(m_ctx.getRecordType(rd));
        if (m_recs.count(t)) return;
        m_recs.insert(t);
        json::Object o;
        o["q"] = rd->getQualifiedNameAsString();
        o["t"] = t;
        o["file"] = file_of(where);
        o["l"] = line_of(where);
        json::Array bs;
        for (auto const& b : rd->bases()) bs.push_back(rec_of(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto const* f : rd->fields()) {
            json::Object fo;
            fo["q"] = qname(f);
            fo["n"] = f->getNameAsString();
            fo["t"] = type_str(f->getType());
            fo["ts"] = f->getType().getAsString(m_pp);
            fo["l"] = line_of(f->getLocation());
            auto r = rec_of(f->getType());
            if (!r.empty()) fo["rec"] = r;
            fo["access"] = static_cast<int>(f->getAccess());
            fo["const"] = f->getType().isConstQualified();
            fo["mutable"] = f->isMutable();
            if (f->hasInClassInitializer() && f->getInClassInitializer() != nullptr)
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto const* m : rd->methods()) {
            json::Object mo;
            mo["q"] = qname(m);
            mo["id"] = usr(m);
            mo["const"] = m->isConst();
            mo["access"] = static_cast<int>(m->getAccess());
            mo["deleted"] = m->isDeleted();
            mo["defaulted"] = m->isDefaulted();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["implicit"] = m->isImplicit();
            mo["ret"] = type_str(m->getReturnType());
            if (auto const* c = dyn_cast<CXXConstructorDecl>(m)) {
                mo["copy"] = c->isCopyConstructor();
                mo["move"] = c->isMoveConstructor();
            }
            json::Array ov;
            for (auto const* x : m->overridden_methods()) ov.push_back(usr(x));
            mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
    }

    void enumeration(EnumDecl const* ed) {
        if (!in_root(ed->getLocation())) return;
        json::Object o;
        o["q"] = ed->getQualifiedNameAsString();
        json::Object vs;
        for (auto const* c : ed->enumerators()) vs[c->getNameAsString()] = c->getInitVal().getExtValue();
        o["vals"] = std::move(vs);
        enums.push_back(std::move(o));
    }

    json::Array functions, records, enums, globals;

private:
    ASTContext& m_ctx;
    SourceManager& m_sm;
    PrintingPolicy m_pp;
    std::map<Decl const*, std::string> m_var_ids;
    std::set<std::string> m_done, m_recs, m_globals;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(Dumper& d) : m_d(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* fd) { m_d.function(fd); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) { m_d.record(rd); return true; }
    bool VisitEnumDecl(EnumDecl* ed) { m_d.enumeration(ed); return true; }
    bool VisitVarDecl(VarDecl* v) {
        if (v->hasGlobalStorage() && !v->isStaticLocal() && m_d.in_root(v->getLocation())
            && !v->getDeclContext()->isDependentContext())
            m_d.global(v);
        return true;
    }
private:
    Dumper& m_d;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["enums"] = std::move(d.enums);
        o["globals"] = std::move(d.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o)) << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
}  // namespace

int main(int argc, char const** argv) {
    if (argc < 5) {
        llvm::errs() << "usage: extract ROOT OUT FILE -- args\n";
        return 2;
    }
    g_root = argv[1];
    g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.emplace_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
