// Fact extractor: clang AST + CFG of one translation unit -> JSON (stdout).
// Everything the rules judge comes from the resolved program written here:
// functions, control-flow graphs, expression nodes with resolved callees and
// fields, classes and enums.  No source text is emitted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::string RepoPrefix;   // absolute prefix of analysed sources
static std::string OutFile;

static std::string qname(const NamedDecl* d) {
    // qualified name without template arguments
    std::string out;
    std::vector<std::string> parts;
    const Decl* cur = d;
    while (cur) {
        if (auto* nd = dyn_cast<NamedDecl>(cur)) {
            std::string n;
            if (isa<CXXConstructorDecl>(nd)) n = "{ctor}";
            else if (isa<CXXDestructorDecl>(nd)) n = "{dtor}";
            else if (auto* cd = dyn_cast<CXXConversionDecl>(nd))
                n = "{conv}" + cd->getConversionType().getCanonicalType().getAsString();
            else n = nd->getNameAsString();
            if (isa<NamespaceDecl>(nd) && n.empty()) n = "{anon}";
            if (auto* ns = dyn_cast<NamespaceDecl>(nd))
                if (ns->isInline()) n = "";
            if (isa<RecordDecl>(nd) && n.empty()) n = "{anonrec}";
            if (!n.empty()) parts.push_back(n);
        }
        const DeclContext* dc = cur->getDeclContext();
        while (dc && isa<LinkageSpecDecl>(dc)) dc = dc->getParent();
        if (!dc || dc->isTranslationUnit()) break;
        cur = cast<Decl>(dc);
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
        if (!out.empty()) out += "::";
        out += *it;
    }
    const std::string pre = "sofa::pbrpc::";
    if (out.compare(0, pre.size(), pre) == 0) out = out.substr(pre.size());
    return out;
}

static int64_t i64(llvm::APSInt v) {
    // values above INT64_MAX are clamped: only their being "huge" matters
    if (v.isUnsigned() && v.getActiveBits() > 63) return INT64_MAX;
    if (v.getSignificantBits() > 64) return v.isNegative() ? INT64_MIN : INT64_MAX;
    return v.isUnsigned() ? (int64_t)v.getZExtValue() : v.getSExtValue();
}
class Extractor {
public:
    Extractor(ASTContext& c) : ctx(c), sm(c.getSourceManager()) {}
    ASTContext& ctx;
    SourceManager& sm;
    json::Array functions, classes, enums, vars;
    std::set<std::string> seenFn, seenCls, seenEnum;

    std::string fileOf(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
        if (!fe) return "";
        llvm::SmallString<256> p(fe->getName());
        if (auto rp = fe->getFileEntry().tryGetRealPathName(); !rp.empty()) return rp.str();
        return p.str().str();
    }
    unsigned lineOf(SourceLocation l) { return sm.getExpansionLineNumber(l); }
    bool inRepo(SourceLocation l, std::string* file = nullptr) {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l);
        if (f.compare(0, RepoPrefix.size(), RepoPrefix) != 0) return false;
        std::string rel = f.substr(RepoPrefix.size());
        if (!rel.empty() && rel[0] == '/') rel = rel.substr(1);
        if (rel.compare(0, 15, "src/sofa/pbrpc/") != 0) return false;
        if (rel.find("smart_ptr/") != std::string::npos) return false;
        if (rel.find(".pb.") != std::string::npos) return false;
        if (file) *file = rel;
        return true;
    }
    std::string fnKey(const FunctionDecl* f) {
        std::string k = qname(f) + "(";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) k += ",";
            first = false;
            k += typeStr(p->getType());
        }
        k += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) k += "c";
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                k += "@" + std::to_string(lineOf(f->getBeginLoc()));
        return k;
    }
    std::string typeStr(QualType t) {
        PrintingPolicy pp(ctx.getLangOpts());
        pp.SuppressTagKeyword = true;
        pp.SuppressUnwrittenScope = true;
        std::string s = t.getCanonicalType().getAsString(pp);
        // drop our namespace and template arguments noise
        size_t p;
        while ((p = s.find("sofa::pbrpc::")) != std::string::npos) s.erase(p, 13);
        return s;
    }
    json::Object typeInfo(QualType t) {
        json::Object o;
        t = t.getCanonicalType();
        bool ref = false;
        if (auto* r = t->getAs<ReferenceType>()) { t = r->getPointeeType(); ref = true; }
        if (ref) o["ref"] = 1;
        if (t.isVolatileQualified()) o["vol"] = 1;
        if (t.isConstQualified()) o["cst"] = 1;
        if (t->isIntegralOrEnumerationType() && !t->isDependentType()) {
            if (t->isBooleanType()) o["b"] = 1;
            else {
                o["w"] = (int64_t)ctx.getIntWidth(t);
                o["s"] = t->isSignedIntegerOrEnumerationType() ? 1 : 0;
                if (t->isEnumeralType()) o["e"] = 1;
            }
        } else if (t->isPointerType()) o["p"] = 1;
        else if (t->isFloatingType()) o["f"] = 1;
        o["n"] = typeStr(t.getUnqualifiedType());
        return o;
    }
    int internType(QualType t, json::Array& tab, std::map<std::string,int>& idx) {
        std::string k = t.getCanonicalType().getAsString();
        auto it = idx.find(k);
        if (it != idx.end()) return it->second;
        int n = idx.size();
        idx[k] = n;
        tab.push_back(typeInfo(t));
        return n;
    }
    json::Array types; std::map<std::string,int> typeIdx;
    int T(QualType t) { return internType(t, types, typeIdx); }

    // ---------------- per function
    struct Fn {
        std::map<const Stmt*, int> ids;
        json::Array nodes;
        std::map<const ValueDecl*, int> vars;
        json::Array varTab;
    };
    Fn* cur = nullptr;

    int varId(const ValueDecl* v) {
        v = cast<ValueDecl>(v->getCanonicalDecl());
        auto it = cur->vars.find(v);
        if (it != cur->vars.end()) return it->second;
        int n = cur->vars.size();
        cur->vars[v] = n;
        json::Object o;
        o["name"] = v->getNameAsString();
        o["t"] = T(v->getType());
        if (auto* p = dyn_cast<ParmVarDecl>(v)) {
            o["kind"] = "param";
            o["idx"] = (int64_t)p->getFunctionScopeIndex();
        } else if (auto* vd = dyn_cast<VarDecl>(v)) {
            if (vd->isLocalVarDecl() && !vd->isStaticLocal()) o["kind"] = "local";
            else { o["kind"] = "global"; o["q"] = qname(vd); 
                Expr::EvalResult r;
                if (vd->getType().isConstQualified() && vd->hasInit() && !vd->getInit()->isValueDependent()
                    && vd->getType()->isIntegralOrEnumerationType() && vd->getInit()->EvaluateAsInt(r, ctx))
                    o["v"] = i64(r.Val.getInt());
            }
        } else o["kind"] = "other";
        o["line"] = (int64_t)lineOf(v->getLocation());
        cur->varTab.push_back(std::move(o));
        return n;
    }

    static const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                auto k = x->getCastKind();
                if (k == CK_IntegralCast || k == CK_IntegralToBoolean ||
                    k == CK_FloatingToIntegral || k == CK_IntegralToFloating ||
                    k == CK_UserDefinedConversion)
                    { if (k == CK_UserDefinedConversion) { e = x->getSubExpr(); continue; } break; }
                e = x->getSubExpr();
            } else break;
        }
        return e;
    }

    json::Array argsOf(llvm::ArrayRef<const Expr*> a) {
        json::Array r;
        for (auto* x : a) r.push_back(node(x));
        return r;
    }

    void callee(json::Object& o, const FunctionDecl* f) {
        o["f"] = fnKey(f);
        o["n"] = qname(f);
        if (f->isNoReturn()) o["noret"] = 1;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isConst()) o["const"] = 1;
            o["cls"] = qname(m->getParent());
        }
        json::Array pt;
        for (auto* p : f->parameters()) pt.push_back(T(p->getType()));
        o["pt"] = std::move(pt);
        std::string file;
        if (inRepo(f->getLocation(), &file)) o["repo"] = 1;
    }

    int node(const Stmt* s) {
        if (!s) return -1;
        if (auto* e = dyn_cast<Expr>(s)) s = strip(e);
        auto it = cur->ids.find(s);
        if (it != cur->ids.end()) return it->second;
        json::Object o;
        // children first so ids are topologically ordered
        fill(o, s);
        int id = cur->nodes.size();
        cur->ids[s] = id;
        o["l"] = (int64_t)lineOf(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = T(e->getType());
            if (e->isGLValue()) o["lv"] = 1;
            if (!o.get("v") && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType()
                && e->isPRValue()) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
                    o["v"] = i64(r.Val.getInt());
                }
            }
        }
        cur->nodes.push_back(std::move(o));
        return id;
    }

    void fill(json::Object& o, const Stmt* s) {
        if (auto* e = dyn_cast<IntegerLiteral>(s)) { o["k"] = "lit"; (void)e; return; }
        if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) { o["k"] = "lit"; o["v"] = e->getValue() ? 1 : 0; return; }
        if (auto* e = dyn_cast<CharacterLiteral>(s)) { o["k"] = "lit"; o["v"] = (int64_t)e->getValue(); return; }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "null"; o["v"] = 0; return; }
        if (auto* e = dyn_cast<StringLiteral>(s)) { o["k"] = "str"; if (e->getCharByteWidth()==1) { std::string b = e->getString().str(); bool ok=true; for (unsigned char c : b) if (c<9||c>126) ok=false; o["s"] = ok ? b : std::string("<bin>"); } return; }
        if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return; }
        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            if (auto* ec = dyn_cast<EnumConstantDecl>(e->getDecl())) {
                o["k"] = "enumc"; o["n"] = qname(ec); o["v"] = i64(ec->getInitVal()); return;
            }
            if (auto* f = dyn_cast<FunctionDecl>(e->getDecl())) { o["k"] = "fnref"; callee(o, f); return; }
            if (auto* v = dyn_cast<ValueDecl>(e->getDecl())) { o["k"] = "var"; o["i"] = varId(v); return; }
        }
        if (auto* e = dyn_cast<MemberExpr>(s)) {
            if (auto* fd = dyn_cast<FieldDecl>(e->getMemberDecl())) {
                o["k"] = "mem"; o["b"] = node(e->getBase()); o["fld"] = qname(fd);
                if (e->isArrow()) o["arrow"] = 1;
                return;
            }
            if (auto* vd = dyn_cast<VarDecl>(e->getMemberDecl())) { o["k"] = "var"; o["i"] = varId(vd); return; }
            if (auto* ec = dyn_cast<EnumConstantDecl>(e->getMemberDecl())) {
                o["k"] = "enumc"; o["n"] = qname(ec); o["v"] = i64(ec->getInitVal()); return; }
            if (auto* f = dyn_cast<FunctionDecl>(e->getMemberDecl())) { o["k"] = "fnref"; callee(o, f); o["b"] = node(e->getBase()); return; }
        }
        if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
            o["k"] = "mcall";
            const Expr* obj = e->getImplicitObjectArgument();
            const Expr* cal = e->getCallee()->IgnoreParens();
            if (auto* m = e->getMethodDecl()) {
                callee(o, m);
                if (auto* me = dyn_cast<MemberExpr>(cal)) {
                    if (me->hasQualifier()) o["nonvirt"] = 1;
                    if (me->isArrow()) o["arrow"] = 1;
                }
            } else o["fx"] = node(cal);
            o["o"] = node(obj);
            std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
            o["a"] = argsOf(a);
            return;
        }
        if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            o["k"] = "ocall";
            o["op"] = getOperatorSpelling(e->getOperator());
            if (auto* f = e->getDirectCallee()) {
                callee(o, f);
                if (isa<CXXMethodDecl>(f)) o["meth"] = 1;
            }
            std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
            o["a"] = argsOf(a);
            return;
        }
        if (auto* e = dyn_cast<CallExpr>(s)) {
            o["k"] = "call";
            if (auto* f = e->getDirectCallee()) callee(o, f);
            else o["fx"] = node(e->getCallee());
            std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
            o["a"] = argsOf(a);
            return;
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            // elide copy/move of temporaries
            o["k"] = "ctor";
            callee(o, e->getConstructor());
            if (e->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
            std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
            o["a"] = argsOf(a);
            return;
        }
        if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s)) {
            o["k"] = "cast"; o["ck"] = e->getCastKindName(); o["x"] = node(e->getSubExpr()); return;
        }
        if (auto* e = dyn_cast<CastExpr>(s)) {
            o["k"] = "cast"; o["ck"] = e->getCastKindName(); o["x"] = node(e->getSubExpr());
            if (isa<ImplicitCastExpr>(e)) o["impl"] = 1;
            return;
        }
        if (auto* e = dyn_cast<BinaryOperator>(s)) {
            o["k"] = e->isAssignmentOp() ? "asg" : (e->isLogicalOp() ? "log" : "bin");
            o["op"] = e->getOpcodeStr().str();
            o["x"] = node(e->getLHS()); o["y"] = node(e->getRHS());
            return;
        }
        if (auto* e = dyn_cast<UnaryOperator>(s)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) op = "p" + op;
            o["op"] = op; o["x"] = node(e->getSubExpr());
            return;
        }
        if (auto* e = dyn_cast<ConditionalOperator>(s)) {
            o["k"] = "cond"; o["c"] = node(e->getCond()); o["x"] = node(e->getTrueExpr()); o["y"] = node(e->getFalseExpr()); return;
        }
        if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) { o["k"] = "sub"; o["x"] = node(e->getBase()); o["y"] = node(e->getIdx()); return; }
        if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            o["k"] = "new"; o["cls"] = typeStr(e->getAllocatedType());
            if (e->isArray()) { o["arr"] = 1; if (e->getArraySize()) o["n_"] = node(*e->getArraySize()); }
            if (e->getInitializer()) o["x"] = node(e->getInitializer());
            return;
        }
        if (auto* e = dyn_cast<CXXDeleteExpr>(s)) { o["k"] = "del"; o["x"] = node(e->getArgument()); 
            if (e->isArrayForm()) o["arr"] = 1; return; }
        if (auto* e = dyn_cast<CXXThrowExpr>(s)) { o["k"] = "throw"; if (e->getSubExpr()) o["x"] = node(e->getSubExpr()); return; }
        if (auto* e = dyn_cast<LambdaExpr>(s)) {
            o["k"] = "lambda"; callee(o, e->getCallOperator()); return;
        }
        if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { o["k"] = "sizeof"; (void)e; return; }
        if (auto* e = dyn_cast<InitListExpr>(s)) {
            o["k"] = "ilist"; json::Array a; for (unsigned i = 0; i < e->getNumInits(); ++i) a.push_back(node(e->getInit(i))); o["a"] = std::move(a); return;
        }
        if (auto* e = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (e->getRetValue()) o["x"] = node(e->getRetValue()); return; }
        if (auto* e = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array a;
            for (auto* d : e->decls()) if (auto* vd = dyn_cast<VarDecl>(d)) {
                json::Object v; v["i"] = varId(vd);
                if (vd->getInit()) v["x"] = node(vd->getInit());
                if (vd->isStaticLocal()) v["st"] = 1;
                a.push_back(std::move(v));
            }
            o["d"] = std::move(a);
            return;
        }
        if (auto* e = dyn_cast<CXXScalarValueInitExpr>(s)) { o["k"] = "zinit"; (void)e; if (e->getType()->isScalarType()) o["v"] = 0; return; }
        if (auto* e = dyn_cast<ImplicitValueInitExpr>(s)) { o["k"] = "zinit"; (void)e; return; }
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) { o["k"] = "silist"; o["x"] = node(e->getSubExpr()); return; }
        if (auto* e = dyn_cast<FloatingLiteral>(s)) { o["k"] = "flt"; o["fv"] = e->getValueAsApproximateDouble(); return; }
        o["k"] = "other"; o["sc"] = s->getStmtClassName();
        json::Array a;
        for (auto* c : s->children()) if (c && isa<Expr>(c)) a.push_back(node(c));
        o["a"] = std::move(a);
    }

    void addFunction(const FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
        if (!f->getBody()) return;
        if (f->isDependentContext()) return;
        std::string file;
        if (!inRepo(f->getLocation(), &file)) return;
        if (f->isImplicit()) return;
        std::string key = fnKey(f);
        if (!seenFn.insert(key).second) return;
        Fn fn; Fn* saved = cur; cur = &fn;
        json::Object o;
        o["key"] = key; o["name"] = qname(f); o["file"] = file; 
        o["line"] = (int64_t)lineOf(f->getLocation());
        o["ret"] = T(f->getReturnType());
        json::Array ps;
        for (auto* p : f->parameters()) ps.push_back(varId(p));
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qname(m->getParent());
            if (m->isStatic()) o["static"] = 1;
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isConst()) o["const"] = 1;
            json::Array ov;
            std::set<std::string> seen;
            std::vector<const CXXMethodDecl*> st(m->begin_overridden_methods(), m->end_overridden_methods());
            while (!st.empty()) { auto* x = st.back(); st.pop_back(); if (seen.insert(fnKey(x)).second) ov.push_back(fnKey(x));
                st.insert(st.end(), x->begin_overridden_methods(), x->end_overridden_methods()); }
            o["ov"] = std::move(ov);
            o["acc"] = (int64_t)m->getAccess();
            if (isa<CXXConstructorDecl>(m)) o["ctor"] = 1;
            if (isa<CXXDestructorDecl>(m)) o["dtor"] = 1;
        }
        // try/catch: cfg has try blocks
        CFG::BuildOptions bo;
        bo.AddImplicitDtors = true; bo.AddInitializers = true; bo.AddEHEdges = false;
        bo.setAllAlwaysAdd();
        bo.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(f, f->getBody(), &ctx, bo);
        if (!cfg) { o["nocfg"] = 1; }
        else {
            json::Array blocks;
            for (auto* b : *cfg) {
                json::Object bb; bb["id"] = (int64_t)b->getBlockID();
                json::Array el;
                for (auto& e : *b) {
                    if (auto cs = e.getAs<CFGStmt>()) {
                        const Stmt* s = cs->getStmt();
                        if (auto* ex = dyn_cast<Expr>(s)) { if (strip(ex) != ex) continue; }
                        int n = node(s); json::Array pr; el.push_back(n);
                    } else if (auto ci = e.getAs<CFGInitializer>()) {
                        auto* in = ci->getInitializer();
                        json::Object x;
                        if (in->isAnyMemberInitializer()) x["fld"] = qname(in->getAnyMember());
                        else x["base"] = 1;
                        x["x"] = node(in->getInit());
                        x["l"] = (int64_t)lineOf(in->getSourceLocation());
                        json::Object w; w["init"] = std::move(x); el.push_back(std::move(w));
                    } else if (auto ad = e.getAs<CFGAutomaticObjDtor>()) {
                        json::Object w, x; x["i"] = varId(ad->getVarDecl()); x["t"] = T(ad->getVarDecl()->getType());
                        x["l"] = (int64_t)lineOf(ad->getTriggerStmt()->getEndLoc());
                        w["dtor"] = std::move(x); el.push_back(std::move(w));
                    }
                }
                bb["e"] = std::move(el);
                json::Array su;
                for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                    const CFGBlock* sb = it->getReachableBlock();
                    su.push_back(sb ? (int64_t)sb->getBlockID() : (int64_t)-1);
                }
                bb["s"] = std::move(su);
                if (auto* t = b->getTerminatorStmt()) {
                    bb["tk"] = t->getStmtClassName();
                    bb["tl"] = (int64_t)lineOf(t->getBeginLoc());
                    if (isa<SwitchStmt>(t)) { bb["c"] = node(cast<SwitchStmt>(t)->getCond()); }
                    else if (b->succ_size() >= 2) { if (auto* c = b->getLastCondition()) bb["c"] = node(c); }
                }
                if (auto* lab = b->getLabel()) {
                    if (auto* cs = dyn_cast<CaseStmt>(lab)) {
                        Expr::EvalResult r;
                        if (cs->getLHS()->EvaluateAsInt(r, ctx)) bb["case"] = i64(r.Val.getInt());
                        if (cs->getRHS()) { if (cs->getRHS()->EvaluateAsInt(r, ctx)) bb["caseHi"] = i64(r.Val.getInt()); }
                    } else if (isa<DefaultStmt>(lab)) bb["default"] = 1;
                    else if (isa<CXXCatchStmt>(lab)) bb["catch"] = 1;
                }
                if (b->hasNoReturnElement()) bb["noret"] = 1;
                blocks.push_back(std::move(bb));
            }
            o["blocks"] = std::move(blocks);
            o["entry"] = (int64_t)cfg->getEntry().getBlockID();
            o["exit"] = (int64_t)cfg->getExit().getBlockID();
            // catch handlers
            json::Array tr;
            for (auto it = cfg->try_blocks_begin(); it != cfg->try_blocks_end(); ++it) tr.push_back((int64_t)(*it)->getBlockID());
            o["tries"] = std::move(tr);
        }
        // nodes inside try statements (for exception containment)
        json::Array intry;
        collectTry(f->getBody(), intry, false);
        o["intry"] = std::move(intry);
        o["nodes"] = std::move(fn.nodes);
        o["vars"] = std::move(fn.varTab);
        cur = saved;
        functions.push_back(std::move(o));
    }
    void collectTry(const Stmt* s, json::Array& out, bool in) {
        if (!s) return;
        if (auto* t = dyn_cast<CXXTryStmt>(s)) {
            bool all = false;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto* h = t->getHandler(i);
                if (!h->getExceptionDecl()) all = true;
                else { std::string n = typeStr(h->getCaughtType()); if (n.find("std::exception") != std::string::npos || n.find("std::runtime_error") != std::string::npos) all = true; }
                collectTry(h->getHandlerBlock(), out, in);
            }
            collectTry(t->getTryBlock(), out, in || all);
            return;
        }
        if (in) { const Stmt* k = s; if (auto* e = dyn_cast<Expr>(s)) k = strip(e);
            auto it = cur->ids.find(k); if (it != cur->ids.end()) out.push_back(it->second); }
        for (auto* c : s->children()) collectTry(c, out, in);
    }

    void addClass(const CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return;
        std::string file;
        if (!inRepo(r->getLocation(), &file)) return;
        std::string n = qname(r);
        if (!seenCls.insert(n).second) return;
        json::Object o; o["name"] = n; o["file"] = file; o["line"] = (int64_t)lineOf(r->getLocation());
        json::Array fs;
        for (auto* f : r->fields()) {
            json::Object x; x["n"] = qname(f); x["t"] = T(f->getType());
            if (f->hasInClassInitializer()) x["ini"] = 1;
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto& b : r->bases()) if (auto* c = b.getType()->getAsCXXRecordDecl()) bs.push_back(qname(c));
        o["bases"] = std::move(bs);
        json::Array ms;
        for (auto* m : r->methods()) if (!m->isImplicit()) { 
            json::Object x; x["f"] = fnKey(m); x["n"] = qname(m); if (m->isVirtual()) x["virt"] = 1; if (m->isPureVirtual()) x["pure"] = 1; x["acc"] = (int64_t)m->getAccess();
            json::Array ov; for (auto i = m->begin_overridden_methods(); i != m->end_overridden_methods(); ++i) ov.push_back(fnKey(*i));
            x["ov"] = std::move(ov);
            ms.push_back(std::move(x)); }
        o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
    }
    void addEnum(const EnumDecl* e) {
        std::string f = fileOf(e->getLocation());
        // enums of generated protocol headers matter as well
        std::string n = qname(e);
        if (!inRepo(e->getLocation()) && f.find(".pb.h") == std::string::npos) return;
        if (!seenEnum.insert(n).second) return;
        json::Object o; o["name"] = n; json::Object v;
        for (auto* c : e->enumerators()) v[c->getNameAsString()] = i64(c->getInitVal());
        o["v"] = std::move(v);
        enums.push_back(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Extractor& x;
    V(Extractor& e) : x(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) { x.addFunction(f); return true; }
    bool VisitLambdaExpr(LambdaExpr* l) { x.addFunction(l->getCallOperator()); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { x.addClass(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { x.addEnum(e); return true; }
};
class C : public ASTConsumer {
    void HandleTranslationUnit(ASTContext& ctx) override {
        Extractor e(ctx);
        V v(e);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(e.functions);
        o["classes"] = std::move(e.classes);
        o["enums"] = std::move(e.enums);
        o["types"] = std::move(e.types);
        o["errors"] = (int64_t)ctx.getDiagnostics().hasErrorOccurred();
        std::error_code ec;
        llvm::raw_fd_ostream out(OutFile, ec);
        out << json::Value(std::move(o)) << "\n";
    }
};
class A : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<C>(); }
};
int main(int argc, char** argv) {
    // extract REPO OUT FILE -- flags...
    if (argc < 5) return 2;
    RepoPrefix = argv[1]; OutFile = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<A>().get());
}
