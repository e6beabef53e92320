// SPOC contract verifier: AST extractor.
//
// Parses one translation unit with clang and writes, as JSON, every function
// body that is defined in a file below a given root (/repo, or the driver that
// instantiates library templates): fully resolved, after template
// instantiation and with all implicit conversions made explicit.  Nothing is
// hand written or abstracted here: whatever node the extractor does not know is
// emitted as {"k":"unsupported"} and the verifier refuses to reason about it.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <fstream>
#include <sstream>

using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> roots;
static std::string outfile;

struct Ex
{
    ASTContext &C;
    SourceManager &SM;
    std::map<const Type *, int> tids;
    js::Array types;
    std::map<const Decl *, int> vids;
    js::Object functions;
    js::Object globals;
    std::map<const FunctionDecl *, std::string> fkeys;
    std::set<std::string> usedkeys;
    std::set<const FunctionDecl *> emitted;
    std::vector<const FunctionDecl *> work;
    std::unique_ptr<ASTNameGenerator> NG;

    Ex (ASTContext &C) : C (C), SM (C.getSourceManager ()), NG (new ASTNameGenerator (C)) {}

    bool in_roots (SourceLocation l)
    {
        if (l.isInvalid ()) return false;
        l = SM.getExpansionLoc (l);
        if (SM.isInSystemHeader (l)) return false;
        auto f = SM.getFilename (l);
        for (auto &r : roots)
            if (f.starts_with (r)) return true;
        return false;
    }
    std::string loc (SourceLocation l)
    {
        if (l.isInvalid ()) return "?";
        l = SM.getExpansionLoc (l);
        return SM.getFilename (l).str () + ":" + std::to_string (SM.getSpellingLineNumber (l));
    }
    int line (SourceLocation l)
    {
        if (l.isInvalid ()) return 0;
        return SM.getExpansionLineNumber (l);
    }
    int vid (const Decl *d)
    {
        d = d->getCanonicalDecl ();
        auto i = vids.find (d);
        if (i != vids.end ()) return i->second;
        int n = vids.size () + 1;
        vids[d] = n;
        return n;
    }
    js::Value targs (const TemplateArgumentList &l)
    {
        js::Array a;
        for (auto &t : l.asArray ()) targ (t, a);
        return a;
    }
    void targ (const TemplateArgument &t, js::Array &a)
    {
        switch (t.getKind ())
        {
            case TemplateArgument::Type: a.push_back (type (t.getAsType ())); break;
            case TemplateArgument::Integral: {
                llvm::SmallString<32> s; t.getAsIntegral ().toString (s, 10);
                a.push_back (std::string ("#") + s.c_str ()); break; }
            case TemplateArgument::Pack:
                for (auto &x : t.pack_elements ()) targ (x, a);
                break;
            default: a.push_back ("?"); break;
        }
    }
    std::string qname (const NamedDecl *d)
    {
        // qualified name without template arguments and inline namespaces
        std::vector<std::string> parts;
        auto nm = [&] (const NamedDecl *x) -> std::string {
            if (auto *cd = dyn_cast<CXXConstructorDecl> (x)) return cd->getParent ()->getNameAsString ();
            return x->getNameAsString ();
        };
        parts.push_back (nm (d));
        const DeclContext *dc = d->getDeclContext ();
        while (dc)
        {
            if (auto *ns = dyn_cast<NamespaceDecl> (dc))
            {
                if (!ns->isInline () && !ns->isAnonymousNamespace ()) parts.push_back (ns->getNameAsString ());
            }
            else if (auto *r = dyn_cast<RecordDecl> (dc)) parts.push_back (r->getNameAsString ());
            else if (auto *f = dyn_cast<FunctionDecl> (dc)) { parts.push_back (f->getNameAsString ()); }
            dc = dc->getParent ();
        }
        std::string s;
        for (auto i = parts.rbegin (); i != parts.rend (); ++i)
        {
            if (i->empty ()) continue;
            if (!s.empty ()) s += "::";
            s += *i;
        }
        return s;
    }
    int type (QualType q)
    {
        q = q.getCanonicalType ();
        bool cst = q.isConstQualified ();
        const Type *key = q.getTypePtr ();
        auto i = tids.find (key);
        if (i != tids.end ()) return i->second;
        int id = types.size ();
        tids[key] = id;
        types.push_back (nullptr);
        js::Object o;
        o["s"] = q.getUnqualifiedType ().getAsString (C.getPrintingPolicy ());
        (void) cst;
        const Type *t = key;
        if (t->isBooleanType ()) o["k"] = "bool";
        else if (auto *et = dyn_cast<EnumType> (t))
        {
            o["k"] = "int"; o["enum"] = qname (et->getDecl ());
            auto it = et->getDecl ()->getIntegerType ();
            if (!it.isNull ()) { o["bits"] = (int64_t) C.getTypeSize (it); o["signed"] = it->isSignedIntegerType (); }
        }
        else if (t->isIntegerType ())
        {
            o["k"] = "int"; o["bits"] = (int64_t) C.getTypeSize (t); o["signed"] = t->isSignedIntegerType ();
        }
        else if (t->isRealFloatingType ()) { o["k"] = "float"; o["bits"] = (int64_t) C.getTypeSize (t); }
        else if (t->isVoidType ()) o["k"] = "void";
        else if (t->isNullPtrType ()) o["k"] = "nullptr";
        else if (auto *p = dyn_cast<PointerType> (t))
        {
            o["k"] = "ptr"; o["to"] = type (p->getPointeeType ()); o["const"] = p->getPointeeType ().isConstQualified ();
        }
        else if (auto *r = dyn_cast<ReferenceType> (t))
        {
            o["k"] = "ref"; o["to"] = type (r->getPointeeType ());
            o["const"] = r->getPointeeType ().isConstQualified (); o["rv"] = isa<RValueReferenceType> (r);
        }
        else if (auto *a = dyn_cast<ConstantArrayType> (t))
        {
            o["k"] = "array"; o["to"] = type (a->getElementType ()); o["n"] = (int64_t) a->getSize ().getZExtValue ();
        }
        else if (auto *f = dyn_cast<FunctionProtoType> (t))
        {
            o["k"] = "func"; o["ret"] = type (f->getReturnType ());
            js::Array ps; for (auto pt : f->param_types ()) ps.push_back (type (pt));
            o["params"] = std::move (ps);
        }

        else if (auto *rt = dyn_cast<RecordType> (t))
        {
            o["k"] = "record";
            auto *rd = rt->getDecl ();
            o["name"] = qname (rd);
            if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl> (rd)) o["targs"] = targs (sp->getTemplateArgs ());
            auto *crd = dyn_cast<CXXRecordDecl> (rd);
            if (crd && crd->isLambda ()) { o["lambda"] = true; o["name"] = "lambda"; }
            bool mine = in_roots (rd->getLocation ());
            o["mine"] = mine;
            bool cstruct = !mine && !rd->isInStdNamespace () && isa<TranslationUnitDecl> (rd->getDeclContext ());
            if (rd->getDefinition () && (mine || cstruct) && !(crd && crd->isLambda ()))
            {
                rd = rd->getDefinition ();
                const ASTRecordLayout &L = C.getASTRecordLayout (rd);
                o["size"] = (int64_t) L.getSize ().getQuantity ();
                js::Array fs;
                if (crd)
                {
                    js::Array bs;
                    for (auto &b : crd->getDefinition ()->bases ()) bs.push_back (type (b.getType ()));
                    if (!bs.empty ()) o["bases"] = std::move (bs);
                }
                for (auto *f : rd->fields ())
                {
                    js::Object fo;
                    fo["name"] = f->getNameAsString ();
                    fo["type"] = type (f->getType ());
                    fo["off"] = (int64_t) L.getFieldOffset (f->getFieldIndex ()) / 8;
                    if (f->hasInClassInitializer () && f->getInClassInitializer ()) fo["init"] = expr (f->getInClassInitializer ());
                    fs.push_back (std::move (fo));
                }
                o["fields"] = std::move (fs);
            }
        }
        else o["k"] = "other";
        types[id] = std::move (o);
        return id;
    }

    // ---------------------------------------------------------------- functions
    std::string fkey (const FunctionDecl *f)
    {
        if (auto *d = f->getDefinition ()) f = d;
        f = f->getCanonicalDecl ();
        auto i = fkeys.find (f);
        if (i != fkeys.end ()) return i->second;
        std::string k;
        auto *m = dyn_cast<CXXMethodDecl> (f);
        if (m && m->getParent ()->isLambda ())
            k = "lambda@" + loc (f->getBeginLoc ()) + ":" + std::to_string (SM.getSpellingColumnNumber (SM.getExpansionLoc (f->getBeginLoc ())));
        else
            k = NG->getName (f);
        if (k.empty ()) k = qname (f);
        std::string b = k;
        int n = 1;
        while (usedkeys.count (k)) k = b + "#" + std::to_string (++n);
        usedkeys.insert (k);
        fkeys[f] = k;
        return k;
    }
    js::Object callee (const FunctionDecl *f)
    {
        js::Object o;
        const FunctionDecl *def = f->getDefinition ();
        if (!def && f->getTemplateInstantiationPattern ()) def = nullptr;
        o["q"] = qname (f);
        js::Array ps;
        for (auto *p : f->parameters ()) ps.push_back (type (p->getType ()));
        o["ps"] = std::move (ps);
        o["ret"] = type (f->getReturnType ());
        if (auto *ta = f->getTemplateSpecializationArgs ()) o["targs"] = targs (*ta);
        if (auto *m = dyn_cast<CXXMethodDecl> (f))
        {
            o["cls"] = type (C.getRecordType (m->getParent ()));
            if (m->isConst ()) o["const"] = true;
            if (m->isStatic ()) o["static"] = true;
            if (auto *c = dyn_cast<CXXConstructorDecl> (m))
            {
                if (c->isCopyConstructor ()) o["ctor"] = "copy";
                else if (c->isMoveConstructor ()) o["ctor"] = "move";
                else if (c->isDefaultConstructor ()) o["ctor"] = "default";
                else o["ctor"] = "other";
                if (c->isImplicit () || c->isDefaulted ()) o["implicit"] = true;
            }
            else
            {
                if (m->isCopyAssignmentOperator ()) o["asg"] = "copy";
                if (m->isMoveAssignmentOperator ()) o["asg"] = "move";
                if (m->isImplicit () || m->isDefaulted ()) o["implicit"] = true;
            }
        }
        if (f->isVariadic ()) o["variadic"] = true;
        if (def && in_roots (def->getLocation ()) && !def->isDependentContext ())
        {
            o["key"] = fkey (def);
            work.push_back (def);
        }
        return o;
    }
    void emit (const FunctionDecl *f)
    {
        f = f->getDefinition ();
        if (!f || f->isDependentContext () || !f->hasBody ()) return;
        if (!in_roots (f->getLocation ())) return;
        if (!emitted.insert (f->getCanonicalDecl ()).second) return;
        if (auto *m = dyn_cast<CXXMethodDecl> (f))
            if (m->isImplicit () && !m->getParent ()->isLambda ()) return;
        js::Object o = callee (f);
        std::string k = fkey (f);
        o["key"] = k;
        o["file"] = SM.getFilename (SM.getExpansionLoc (f->getLocation ())).str ();
        o["line"] = line (f->getLocation ());
        o["endline"] = line (f->getEndLoc ());
        js::Array ps;
        for (auto *p : f->parameters ())
        {
            js::Object po;
            po["id"] = vid (p); po["name"] = p->getNameAsString (); po["t"] = type (p->getType ());
            ps.push_back (std::move (po));
        }
        o["params"] = std::move (ps);
        if (auto *c = dyn_cast<CXXConstructorDecl> (f))
        {
            js::Array is;
            for (auto *i : c->inits ())
            {
                js::Object io;
                if (i->isMemberInitializer ()) { io["field"] = i->getMember ()->getNameAsString (); io["ft"] = type (i->getMember ()->getType ()); }
                else if (i->isDelegatingInitializer ()) io["delegate"] = true;
                else io["base"] = true;
                io["e"] = expr (i->getInit ());
                is.push_back (std::move (io));
            }
            o["inits"] = std::move (is);
        }
        o["body"] = stmt (f->getBody ());
        functions[k] = std::move (o);
    }

    // ---------------------------------------------------------------- expressions
    js::Object node (const char *k, const Expr *e)
    {
        js::Object o; o["k"] = k; o["t"] = type (e->getType ()); o["l"] = line (e->getExprLoc ());
        if (e->isGLValue ()) o["lv"] = true;
        return o;
    }
    js::Array exprs (llvm::ArrayRef<const Expr *> a)
    {
        js::Array r; for (auto *e : a) r.push_back (expr (e)); return r;
    }
    template<typename R> js::Array args (R &&rng)
    {
        js::Array r; for (const Expr *e : rng) { if (isa<CXXDefaultArgExpr> (e)) e = cast<CXXDefaultArgExpr> (e)->getExpr (); r.push_back (expr (e)); } return r;
    }
    js::Value intlit (const Expr *e, const llvm::APSInt &v)
    {
        auto o = node ("int", e);
        llvm::SmallString<32> s; v.toString (s, 10);
        o["v"] = std::string (s.c_str ());
        return o;
    }
    js::Value expr (const Expr *e)
    {
        if (!e) return nullptr;
        if (auto *x = dyn_cast<ParenExpr> (e)) return expr (x->getSubExpr ());
        if (auto *x = dyn_cast<ExprWithCleanups> (e)) return expr (x->getSubExpr ());
        if (auto *x = dyn_cast<CXXBindTemporaryExpr> (e)) return expr (x->getSubExpr ());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr> (e)) return expr (x->getReplacement ());
        if (auto *x = dyn_cast<CXXDefaultArgExpr> (e)) return expr (x->getExpr ());
        if (auto *x = dyn_cast<CXXDefaultInitExpr> (e)) return expr (x->getExpr ());
        if (auto *x = dyn_cast<OpaqueValueExpr> (e)) if (x->getSourceExpr ()) return expr (x->getSourceExpr ());
        if (auto *x = dyn_cast<ConstantExpr> (e)) return expr (x->getSubExpr ());
        if (auto *x = dyn_cast<CXXFunctionalCastExpr> (e)) { if (x->getCastKind () == CK_ConstructorConversion || x->getCastKind () == CK_NoOp) return expr (x->getSubExpr ()); }
        if (auto *x = dyn_cast<MaterializeTemporaryExpr> (e))
        {
            auto o = node ("mat", e); o["e"] = expr (x->getSubExpr ()); return o;
        }
        if (auto *x = dyn_cast<IntegerLiteral> (e))
        {
            llvm::APSInt v (x->getValue (), !x->getType ()->isSignedIntegerType ()); return intlit (e, v);
        }
        if (auto *x = dyn_cast<CharacterLiteral> (e))
        {
            auto o = node ("int", e); o["v"] = std::to_string ((int64_t) (signed char) x->getValue ()); return o;
        }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr> (e)) { auto o = node ("bool", e); o["v"] = x->getValue (); return o; }
        if (auto *x = dyn_cast<FloatingLiteral> (e))
        {
            auto o = node ("float", e);
            char b[64]; snprintf (b, sizeof b, "%.17g", x->getValue ().convertToDouble ()); o["v"] = std::string (b); return o;
        }
        if (auto *x = dyn_cast<StringLiteral> (e))
        {
            auto o = node ("str", e);
            js::Array a; for (unsigned i = 0; i < x->getLength (); ++i) a.push_back ((int64_t) (int8_t) x->getCodeUnit (i));
            o["v"] = std::move (a); return o;
        }
        if (isa<CXXNullPtrLiteralExpr> (e) || isa<GNUNullExpr> (e)) return node ("null", e);
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr> (e))
        {
            Expr::EvalResult r;
            if (x->EvaluateAsInt (r, C)) return intlit (e, r.Val.getInt ());
        }
        if (auto *x = dyn_cast<PredefinedExpr> (e)) return expr (x->getFunctionName ());
        if (auto *x = dyn_cast<SourceLocExpr> (e)) { (void) x; return node ("opaque", e); }
        if (auto *x = dyn_cast<DeclRefExpr> (e))
        {
            auto o = node ("ref", e);
            const ValueDecl *d = x->getDecl ();
            o["name"] = d->getNameAsString ();
            if (auto *ec = dyn_cast<EnumConstantDecl> (d)) return intlit (e, ec->getInitVal ());
            if (auto *f = dyn_cast<FunctionDecl> (d)) { o["k"] = "fref"; o["f"] = callee (f); return o; }
            o["id"] = vid (d);
            if (auto *v = dyn_cast<VarDecl> (d))
            {
                if (v->hasGlobalStorage () && !v->isLocalVarDecl ())
                {
                    o["global"] = qname (v);
                    global (v);
                }
                if (v->isStaticLocal ()) { o["static"] = true; if (v->getInit ()) o["sinit"] = expr (v->getInit ()); }
                if (x->refersToEnclosingVariableOrCapture ()) o["cap"] = true;
            }
            else if (auto *b = dyn_cast<BindingDecl> (d))
            {
                o["k"] = "binding"; o["e"] = b->getBinding () ? expr (b->getBinding ()) : js::Value (nullptr);
            }
            return o;
        }
        if (auto *x = dyn_cast<MemberExpr> (e))
        {
            if (auto *f = dyn_cast<FunctionDecl> (x->getMemberDecl ()))
            {
                auto o = node ("mfref", e); o["f"] = callee (f); o["base"] = expr (x->getBase ()); o["arrow"] = x->isArrow (); return o;
            }
            if (auto *v = dyn_cast<VarDecl> (x->getMemberDecl ()))
            {
                auto o = node ("ref", e); o["name"] = v->getNameAsString (); o["id"] = vid (v); o["global"] = qname (v); global (v); return o;
            }
            auto o = node ("member", e); o["base"] = expr (x->getBase ()); o["arrow"] = x->isArrow ();
            o["f"] = x->getMemberDecl ()->getNameAsString (); return o;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr> (e))
        {
            auto o = node ("index", e); o["base"] = expr (x->getBase ()); o["i"] = expr (x->getIdx ()); return o;
        }
        if (auto *x = dyn_cast<CompoundAssignOperator> (e))
        {
            auto o = node ("opassign", e); std::string op = x->getOpcodeStr ().str (); op.pop_back (); o["op"] = op;
            o["a"] = expr (x->getLHS ()); o["b"] = expr (x->getRHS ());
            o["ct"] = type (x->getComputationLHSType ()); o["rt"] = type (x->getComputationResultType ()); return o;
        }
        if (auto *x = dyn_cast<BinaryOperator> (e))
        {
            auto o = node ("bin", e); o["op"] = x->getOpcodeStr ().str (); o["a"] = expr (x->getLHS ()); o["b"] = expr (x->getRHS ()); return o;
        }
        if (auto *x = dyn_cast<UnaryOperator> (e))
        {
            auto o = node ("un", e); o["op"] = UnaryOperator::getOpcodeStr (x->getOpcode ()).str ();
            if (x->isPostfix ()) o["post"] = true;
            o["e"] = expr (x->getSubExpr ()); return o;
        }
        if (auto *x = dyn_cast<ConditionalOperator> (e))
        {
            auto o = node ("cond", e); o["c"] = expr (x->getCond ()); o["a"] = expr (x->getTrueExpr ()); o["b"] = expr (x->getFalseExpr ()); return o;
        }
        if (auto *x = dyn_cast<CastExpr> (e))
        {
            auto o = node ("cast", e); o["ck"] = x->getCastKindName (); o["e"] = expr (x->getSubExpr ());
            if (isa<ExplicitCastExpr> (x)) o["expl"] = true;
            return o;
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr> (e))
        {
            auto o = node ("opcall", e);
            o["op"] = std::string (getOperatorSpelling (x->getOperator ()));
            if (auto *f = x->getDirectCallee ()) o["f"] = callee (f); else o["fe"] = expr (x->getCallee ());
            o["args"] = args (x->arguments ()); return o;
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr> (e))
        {
            auto o = node ("mcall", e);
            if (auto *f = x->getMethodDecl ()) o["f"] = callee (f); else return unsup ("member pointer call", e);
            const Expr *c = x->getCallee ()->IgnoreParens ();
            if (auto *me = dyn_cast<MemberExpr> (c)) { o["obj"] = expr (me->getBase ()); o["arrow"] = me->isArrow (); }
            else return unsup ("member call form", e);
            o["args"] = args (x->arguments ()); return o;
        }
        if (auto *x = dyn_cast<CallExpr> (e))
        {
            auto o = node ("call", e);
            if (auto *f = x->getDirectCallee ()) o["f"] = callee (f); else o["fe"] = expr (x->getCallee ());
            o["args"] = args (x->arguments ()); return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr> (e))
        {
            auto o = node ("ctor", e);
            o["f"] = callee (x->getConstructor ());
            o["args"] = args (x->arguments ());
            if (x->isElidable ()) o["elide"] = true;
            if (x->isListInitialization ()) o["list"] = true;
            if (x->requiresZeroInitialization ()) o["zero"] = true;
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr> (e))
        {
            if (x->isSemanticForm () == false && x->getSemanticForm ()) x = x->getSemanticForm ();
            auto o = node ("initlist", e); js::Array a;
            for (auto *i : x->inits ()) a.push_back (expr (i));
            o["a"] = std::move (a); return o;
        }
        if (isa<ImplicitValueInitExpr> (e) || isa<CXXScalarValueInitExpr> (e)) return node ("zeroinit", e);
        if (auto *x = dyn_cast<CXXStdInitializerListExpr> (e))
        {
            auto o = node ("stdinit", e);
            const Expr *s = x->getSubExpr ()->IgnoreImplicit ();
            if (auto *m = dyn_cast<MaterializeTemporaryExpr> (s)) s = m->getSubExpr ();
            auto *il = dyn_cast<InitListExpr> (s);
            if (!il) return unsup ("initializer_list", e);
            js::Array a; for (auto *i : il->inits ()) a.push_back (expr (i));
            o["a"] = std::move (a); return o;
        }
        if (auto *x = dyn_cast<LambdaExpr> (e))
        {
            auto o = node ("lambda", e);
            auto *cl = x->getLambdaClass ();
            js::Array caps;
            auto ci = x->capture_init_begin ();
            for (auto &c : x->captures ())
            {
                js::Object co;
                if (c.capturesThis ()) co["this"] = true;
                else if (c.capturesVariable ())
                {
                    co["id"] = vid (c.getCapturedVar ());
                    co["name"] = c.getCapturedVar ()->getNameAsString ();
                    co["ref"] = c.getCaptureKind () == LCK_ByRef;
                    auto *vd = dyn_cast<VarDecl> (c.getCapturedVar ());
                    if (vd && vd->isInitCapture ()) co["ic"] = expr (vd->getInit ());
                    co["t"] = type (c.getCapturedVar ()->getType ());
                }
                else co["other"] = true;
                ++ci;
                caps.push_back (std::move (co));
            }
            o["caps"] = std::move (caps);
            o["mutable"] = x->isMutable ();
            if (x->isGenericLambda ())
            {
                o["generic"] = true;
                js::Array is;
                if (auto *ft = x->getCallOperator ()->getDescribedFunctionTemplate ())
                    for (auto *sp : ft->specializations ()) if (sp->getDefinition () && sp->hasBody ()) { is.push_back (callee (sp)); work.push_back (sp); }
                o["insts"] = std::move (is);
            }
            else
            {
                auto *op = cl->getLambdaCallOperator ();
                o["f"] = callee (op);
                o["key"] = fkey (op);
                work.push_back (op);
            }
            return o;
        }
        if (isa<CXXThisExpr> (e)) return node ("this", e);
        if (auto *x = dyn_cast<CXXThrowExpr> (e))
        {
            auto o = node ("throw", e); if (x->getSubExpr ()) o["e"] = expr (x->getSubExpr ()); return o;
        }
        if (auto *x = dyn_cast<CXXTypeidExpr> (e))
        {
            auto o = node ("typeid", e);
            if (x->isTypeOperand ()) o["ty"] = type (x->getTypeOperand (C)); else o["e"] = expr (x->getExprOperand ());
            return o;
        }
        if (auto *x = dyn_cast<PseudoObjectExpr> (e)) return expr (x->getResultExpr ());
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator> (e)) return expr (x->getSemanticForm ());
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr> (e)) { (void) x; return unsup ("inherited ctor", e); }
        {
            Expr::EvalResult r;
            if (!e->isValueDependent () && e->getType ()->isIntegralOrEnumerationType () && e->EvaluateAsInt (r, C)) return intlit (e, r.Val.getInt ());
        }
        return unsup (e->getStmtClassName (), e);
    }
    js::Value unsup (const char *what, const Expr *e)
    {
        auto o = node ("unsupported", e); o["what"] = what; return o;
    }
    std::set<const VarDecl *> gdone;
    void global (const VarDecl *v)
    {
        v = v->getCanonicalDecl ();
        if (!gdone.insert (v).second) return;
        js::Object o;
        o["name"] = qname (v); o["t"] = type (v->getType ()); o["const"] = v->getType ().isConstQualified () || v->isConstexpr ();
        const VarDecl *d = nullptr;
        const Expr *in = v->getAnyInitializer (d);
        if (in && in_roots (v->getLocation ())) o["init"] = expr (in);
        else if (in && v->isConstexpr ())
        {
            if (v->getType ()->isIntegralOrEnumerationType ()) { auto *av = d->evaluateValue (); if (av && av->isInt ()) o["init"] = intlit (in, av->getInt ()); }
            else if (v->getType ()->isFloatingType ()) { auto *av = d->evaluateValue (); if (av && av->isFloat ()) { auto n = node ("float", in); char b[64]; snprintf (b, sizeof b, "%.17g", av->getFloat ().convertToDouble ()); n["v"] = std::string (b); o["init"] = std::move (n); } }
        }
        else if (in && v->getType ()->isIntegralOrEnumerationType () && v->getType ().isConstQualified ())
        {
            if (auto *av = d->evaluateValue ()) if (av->isInt ()) o["init"] = intlit (in, av->getInt ());
        }
        globals[qname (v)] = std::move (o);
    }

    // ---------------------------------------------------------------- statements
    js::Object snode (const char *k, const Stmt *s)
    {
        js::Object o; o["k"] = k; o["l"] = line (s->getBeginLoc ()); return o;
    }
    js::Value vardecl (const VarDecl *v)
    {
        js::Object o; o["id"] = vid (v); o["name"] = v->getNameAsString (); o["t"] = type (v->getType ());
        if (v->getType ().isConstQualified ()) o["const"] = true;
        if (v->isStaticLocal ()) o["static"] = true;
        if (v->hasInit ()) o["init"] = expr (v->getInit ());
        if (auto *dd = dyn_cast<DecompositionDecl> (v))
        {
            js::Array b; for (auto *x : dd->bindings ()) { js::Object bo; bo["id"] = vid (x); bo["name"] = x->getNameAsString (); if (x->getHoldingVar ()) { bo["hold"] = vid (x->getHoldingVar ()); } b.push_back (std::move (bo)); }
            o["bindings"] = std::move (b);
        }
        return o;
    }
    js::Value stmt (const Stmt *s)
    {
        if (!s) return nullptr;
        if (auto *e = dyn_cast<Expr> (s)) { auto o = snode ("expr", s); o["e"] = expr (e); return o; }
        if (auto *x = dyn_cast<CompoundStmt> (s)) { auto o = snode ("block", s); js::Array a; for (auto *i : x->body ()) a.push_back (stmt (i)); o["b"] = std::move (a); return o; }
        if (auto *x = dyn_cast<DeclStmt> (s))
        {
            auto o = snode ("decl", s); js::Array a;
            for (auto *d : x->decls ()) { if (auto *v = dyn_cast<VarDecl> (d)) a.push_back (vardecl (v)); }
            o["d"] = std::move (a); return o;
        }
        if (auto *x = dyn_cast<IfStmt> (s))
        {
            if (x->isConstexpr ())
            {
                if (auto n = x->getNondiscardedCase (C)) { if (*n) return stmt (*n); return snode ("null", s); }
            }
            auto o = snode ("if", s);
            if (x->getInit ()) o["init"] = stmt (x->getInit ());
            if (x->getConditionVariableDeclStmt ()) o["cv"] = stmt (x->getConditionVariableDeclStmt ());
            o["c"] = expr (x->getCond ()); o["a"] = stmt (x->getThen ()); if (x->getElse ()) o["b"] = stmt (x->getElse ()); return o;
        }
        if (auto *x = dyn_cast<ForStmt> (s))
        {
            auto o = snode ("for", s); if (x->getInit ()) o["init"] = stmt (x->getInit ()); if (x->getCond ()) o["c"] = expr (x->getCond ());
            if (x->getInc ()) o["inc"] = expr (x->getInc ()); o["b"] = stmt (x->getBody ()); return o;
        }
        if (auto *x = dyn_cast<WhileStmt> (s))
        {
            auto o = snode ("while", s);
            if (x->getConditionVariableDeclStmt ()) o["cv"] = stmt (x->getConditionVariableDeclStmt ());
            o["c"] = expr (x->getCond ()); o["b"] = stmt (x->getBody ()); return o;
        }
        if (auto *x = dyn_cast<DoStmt> (s)) { auto o = snode ("do", s); o["c"] = expr (x->getCond ()); o["b"] = stmt (x->getBody ()); return o; }
        if (auto *x = dyn_cast<CXXForRangeStmt> (s))
        {
            auto o = snode ("rfor", s); if (x->getInit ()) o["init"] = stmt (x->getInit ());
            o["range"] = expr (x->getRangeInit ()); o["var"] = vardecl (x->getLoopVariable ()); o["b"] = stmt (x->getBody ()); return o;
        }
        if (auto *x = dyn_cast<SwitchStmt> (s))
        {
            auto o = snode ("switch", s); if (x->getInit ()) o["init"] = stmt (x->getInit ());
            if (x->getConditionVariableDeclStmt ()) o["cv"] = stmt (x->getConditionVariableDeclStmt ());
            o["c"] = expr (x->getCond ()); o["b"] = stmt (x->getBody ()); return o;
        }
        if (auto *x = dyn_cast<CaseStmt> (s))
        {
            auto o = snode ("case", s); o["v"] = expr (x->getLHS ());
            Expr::EvalResult r; if (x->getLHS ()->EvaluateAsInt (r, C)) { llvm::SmallString<32> t; r.Val.getInt ().toString (t, 10); o["cv"] = std::string (t.c_str ()); }
            if (x->getRHS ()) { o["range"] = true; if (x->getRHS ()->EvaluateAsInt (r, C)) { llvm::SmallString<32> t; r.Val.getInt ().toString (t, 10); o["cv2"] = std::string (t.c_str ()); } }
            o["b"] = stmt (x->getSubStmt ()); return o;
        }
        if (auto *x = dyn_cast<DefaultStmt> (s)) { auto o = snode ("default", s); o["b"] = stmt (x->getSubStmt ()); return o; }
        if (auto *x = dyn_cast<ReturnStmt> (s)) { auto o = snode ("return", s); if (x->getRetValue ()) o["e"] = expr (x->getRetValue ()); return o; }
        if (isa<BreakStmt> (s)) return snode ("break", s);
        if (isa<ContinueStmt> (s)) return snode ("continue", s);
        if (isa<NullStmt> (s)) return snode ("null", s);
        if (auto *x = dyn_cast<AttributedStmt> (s)) return stmt (x->getSubStmt ());
        if (auto *x = dyn_cast<CXXTryStmt> (s))
        {
            auto o = snode ("try", s); o["b"] = stmt (x->getTryBlock ()); js::Array h;
            for (unsigned i = 0; i < x->getNumHandlers (); ++i)
            {
                auto *c = x->getHandler (i); js::Object co;
                if (c->getExceptionDecl ()) { co["var"] = vardecl (c->getExceptionDecl ()); co["t"] = type (c->getCaughtType ().getNonReferenceType ()); }
                co["b"] = stmt (c->getHandlerBlock ()); h.push_back (std::move (co));
            }
            o["h"] = std::move (h); return o;
        }
        if (auto *x = dyn_cast<OMPExecutableDirective> (s))
        {
            auto o = snode ("omp", s);
            o["dir"] = llvm::omp::getOpenMPDirectiveName (x->getDirectiveKind ()).str ();
            js::Array cl;
            for (auto *c : x->clauses ())
            {
                if (!c) continue;
                js::Object co; co["n"] = llvm::omp::getOpenMPClauseName (c->getClauseKind ()).str (); js::Array vs;
                for (auto *e : c->children ())
                    if (auto *ex = dyn_cast_or_null<Expr> (e))
                        if (auto *r = dyn_cast<DeclRefExpr> (ex->IgnoreParenImpCasts ()))
                            vs.push_back (vid (dyn_cast<VarDecl> (r->getDecl ())));
                co["v"] = std::move (vs); cl.push_back (std::move (co));
            }
            o["clauses"] = std::move (cl);
            if (x->hasAssociatedStmt ())
            {
                const Stmt *b = x->getAssociatedStmt ();
                while (auto *cs = dyn_cast<CapturedStmt> (b)) b = cs->getCapturedStmt ();
                o["b"] = stmt (b);
            }
            return o;
        }
        auto o = snode ("unsupported", s); o["what"] = s->getStmtClassName (); return o;
    }
};

struct V : RecursiveASTVisitor<V>
{
    Ex &X;
    explicit V (Ex &X) : X (X) {}
    bool shouldVisitTemplateInstantiations () const { return true; }
    bool shouldVisitImplicitCode () const { return false; }
    bool VisitFunctionDecl (FunctionDecl *f)
    {
        if (f->isThisDeclarationADefinition () && !f->isDependentContext ()) X.emit (f);
        return true;
    }
};

struct Cons : ASTConsumer
{
    void HandleTranslationUnit (ASTContext &C) override
    {
        Ex X (C);
        V v (X);
        v.TraverseDecl (C.getTranslationUnitDecl ());
        while (!X.work.empty ()) { auto *f = X.work.back (); X.work.pop_back (); X.emit (f); }
        js::Object o;
        // macros/asserts state
        o["errors"] = C.getDiagnostics ().hasErrorOccurred ();
        o["types"] = std::move (X.types);
        o["functions"] = std::move (X.functions);
        o["globals"] = std::move (X.globals);
        std::error_code ec;
        llvm::raw_fd_ostream f (outfile, ec);
        f << js::Value (std::move (o));
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons> (); }
};

// usage: extract OUT.json FILE root[,root...] -- clang flags
int main (int argc, char **argv)
{
    outfile = argv[1];
    std::string file = argv[2];
    std::stringstream rs (argv[3]);
    for (std::string r; std::getline (rs, r, ',');) roots.push_back (r);
    std::vector<std::string> a;
    for (int i = 5; i < argc; ++i) a.push_back (argv[i]);
    std::ifstream in (file);
    std::stringstream ss; ss << in.rdbuf ();
    return clang::tooling::runToolOnCodeWithArgs (std::make_unique<Act> (), ss.str (), a, file, "spoc-extract") ? 0 : 1;
}
