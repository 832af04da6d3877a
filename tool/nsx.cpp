// nsx: dump the resolved program (declarations, structured statements, typed
// expressions with resolved callees) of /repo sources as JSON lines.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> gPrefixes;      // files whose functions are dumped
static std::set<std::string> gSeen;             // USRs already dumped (per process)
static std::map<std::string, int> gTypes;       // canonical spelling -> id
static std::unique_ptr<llvm::raw_fd_ostream> gOut;
static int gErrors = 0;

static void emit(Object o) { *gOut << Value(std::move(o)) << "\n"; }

static std::string safe(llvm::StringRef s) {
    if (llvm::json::isUTF8(s)) return s.str();
    return llvm::json::fixUTF8(s);
}

class Dumper {
public:
    Dumper(ASTContext &ctx) : C(ctx), SM(ctx.getSourceManager()), PP(ctx.getLangOpts()) {
        PP.FullyQualifiedName = true;
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    int nextId = 1;

    int idOf(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        return ids[d] = nextId++;
    }
    static std::string usr(const Decl *d) {
        llvm::SmallString<256> buf;
        if (auto *fd = dyn_cast<FunctionDecl>(d)) d = fd->getCanonicalDecl();
        if (index::generateUSRForDecl(d, buf)) return "";
        std::string r = std::string(buf.str());
        return r;
    }
    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l, false);
        if (p.isInvalid()) return "";
        llvm::SmallString<256> f(p.getFilename());
        if (auto fe = SM.getFileEntryForID(SM.getFileID(l))) {
            auto rp = fe->tryGetRealPathName();
            if (!rp.empty()) f = rp;
        }
        return std::string(f.str());
    }
    int lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inScope(SourceLocation l) {
        if (l.isInvalid()) return false;
        auto f = fileOf(l);
        for (auto &p : gPrefixes) if (llvm::StringRef(f).starts_with(p)) return true;
        return false;
    }
    std::string qn(const NamedDecl *d) {
        std::string s;
        if (auto *v = dyn_cast<VarDecl>(d)) {
            // a local static is named after its function
            if (v->isStaticLocal()) {
                if (auto *f = dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod())) return qn(f) + "::" + v->getNameAsString();
            }
        }
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        os.flush();
        return safe(s);
    }
    std::string recName(const TagDecl *r) {
        // includes template arguments
        QualType t = C.getTypeDeclType(r);
        if (auto *rd = dyn_cast<CXXRecordDecl>(r)) {
            if (rd->isLambda()) return "lambda@" + usr(rd->getLambdaCallOperator());
            if (!rd->getDeclName() && !rd->getTypedefNameForAnonDecl()) return "anon@" + usr(rd);
        }
        return safe(t.getCanonicalType().getAsString(PP));
    }
    int typeId(QualType t) {
        if (t.isNull()) return -1;
        t = t.getCanonicalType();
        std::string key = safe(t.getAsString(PP));
        if (auto *rt = t->getAs<RecordType>()) {
            auto *rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
            if (rd && (rd->isLambda() || (!rd->getDeclName() && !rd->getTypedefNameForAnonDecl())))
                key = (t.isConstQualified() ? "const " : "") + recName(rd);
        }
        auto it = gTypes.find(key);
        if (it != gTypes.end()) return it->second;
        int id = gTypes.size();
        gTypes[key] = id;
        Object o;
        o["kind"] = "type";
        o["id"] = id;
        o["s"] = key;
        if (t.isConstQualified()) o["const"] = true;
        if (t.isVolatileQualified()) o["volatile"] = true;
        QualType u = t.getUnqualifiedType();
        if (u->isDependentType()) o["k"] = "dep";
        else if (u->isVoidType()) o["k"] = "void";
        else if (u->isBooleanType()) { o["k"] = "bool"; o["w"] = 1; o["u"] = true; }
        else if (u->isEnumeralType()) {
            o["k"] = "enum";
            auto *ed = u->castAs<EnumType>()->getDecl();
            o["rec"] = recName(ed);
            if (!ed->getIntegerType().isNull()) {
                o["w"] = (int64_t)C.getIntWidth(ed->getIntegerType());
                o["u"] = ed->getIntegerType()->isUnsignedIntegerType();
            }
        }
        else if (u->isIntegralType(C)) { o["k"] = "int"; o["w"] = (int64_t)C.getIntWidth(u); o["u"] = u->isUnsignedIntegerType(); }
        else if (u->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(u); }
        else if (u->isNullPtrType()) o["k"] = "nullptr";
        else if (u->isPointerType()) { o["k"] = "ptr"; o["p"] = typeId(u->getPointeeType()); }
        else if (u->isReferenceType()) { o["k"] = u->isRValueReferenceType() ? "rref" : "ref"; o["p"] = typeId(u->getPointeeType()); }
        else if (u->isMemberPointerType()) { o["k"] = "memptr"; }
        else if (u->isFunctionType()) o["k"] = "func";
        else if (auto *at = C.getAsArrayType(u)) {
            o["k"] = "array"; o["p"] = typeId(at->getElementType());
            if (auto *ca = dyn_cast<ConstantArrayType>(at)) o["n"] = (int64_t)ca->getSize().getZExtValue();
        }
        else if (u->isRecordType()) {
            o["k"] = "rec";
            auto *rd = u->castAs<RecordType>()->getDecl();
            o["rec"] = recName(rd);
            if (auto *cx = dyn_cast<CXXRecordDecl>(rd)) {
                o["q"] = qn(cx);
                if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(cx)) {
                    Array a;
                    for (auto &ta : sp->getTemplateArgs().asArray()) tmplArg(a, ta);
                    o["targs"] = std::move(a);
                }
                if (cx->hasDefinition()) {
                    if (cx->hasTrivialDestructor()) o["trivdtor"] = true;
                    if (cx->isTriviallyCopyable()) o["trivcopy"] = true;
                    auto *dd = cx->getDestructor();
                    if (dd) o["dtor"] = usr(dd);
                } else o["incomplete"] = true;
            }
        }
        else o["k"] = "other";
        if (!u->isDependentType() && !u->isPlaceholderType() && !u->isUndeducedType() && !u->isIncompleteType() && !u->isFunctionType() && !u->isVoidType() && !u->isReferenceType())
            o["size"] = (int64_t)C.getTypeSizeInChars(u).getQuantity();
        emit(std::move(o));
        if (u->isRecordType())
            if (auto *cx = dyn_cast<CXXRecordDecl>(u->castAs<RecordType>()->getDecl()))
                record(cx);
        if (auto *et = u->getAs<EnumType>()) enumDecl(et->getDecl());
        return id;
    }
    void tmplArg(Array &a, const TemplateArgument &ta) {
        switch (ta.getKind()) {
            case TemplateArgument::Type: a.push_back(typeId(ta.getAsType())); break;
            case TemplateArgument::Integral: {
                Object o; o["int"] = toInt(ta.getAsIntegral()); a.push_back(std::move(o)); break; }
            case TemplateArgument::Pack: { Array p; for (auto &x : ta.pack_elements()) tmplArg(p, x); a.push_back(std::move(p)); break; }
            default: a.push_back(nullptr);
        }
    }
    static Value toInt(const llvm::APSInt &v) {
        if (v.isSigned() ? v.getSignificantBits() <= 63 : v.getActiveBits() <= 62) return v.getExtValue();
        llvm::SmallString<40> s; v.toString(s, 10);
        Object o; o["big"] = std::string(s.str()); return o;
    }
    void record(const CXXRecordDecl *rd) {
        rd = rd->getDefinition();
        if (!rd || rd->isDependentContext() || rd->isInvalidDecl()) return;
        std::string name = recName(rd);
        if (!gSeen.insert("R:" + name).second) return;
        bool scoped = inScope(rd->getLocation());
        Object o;
        o["kind"] = "record";
        o["rec"] = name;
        o["q"] = qn(rd);
        o["file"] = fileOf(rd->getLocation());
        o["line"] = lineOf(rd->getLocation());
        if (rd->isUnion()) o["union"] = true;
        if (rd->isLambda()) o["lambda"] = true;
        if (rd->isAnonymousStructOrUnion()) o["anon"] = true;
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
            Array a;
            for (auto &ta : sp->getTemplateArgs().asArray()) tmplArg(a, ta);
            o["targs"] = std::move(a);
        }
        Array bases;
        for (auto &b : rd->bases()) { Object bo; bo["t"] = typeId(b.getType()); bo["virt"] = b.isVirtual(); bases.push_back(std::move(bo)); }
        o["bases"] = std::move(bases);
        if (rd->hasTrivialDestructor()) o["trivdtor"] = true;
        if (scoped) {
            // how copies come about: by the compiler, by code of the class, or not at all
            auto kind = [](const FunctionDecl *f) { return f->isDeleted() ? "deleted" : f->isUserProvided() ? "user" : "implicit"; };
            const char *cc = nullptr, *ca = nullptr;
            for (auto *k : rd->ctors()) if (k->isCopyConstructor()) cc = kind(k);
            for (auto *m : rd->methods()) if (m->isCopyAssignmentOperator()) ca = kind(m);
            bool moves = rd->hasUserDeclaredMoveConstructor() || rd->hasUserDeclaredMoveAssignment();
            if (!cc) cc = moves || rd->defaultedCopyConstructorIsDeleted() ? "deleted" : "implicit";
            if (!ca) {
                ca = moves ? "deleted" : "implicit";
                for (auto *f : rd->fields()) if (f->getType().isConstQualified() || f->getType()->isReferenceType()) ca = "deleted";
            }
            o["copyctor"] = cc; o["copyassign"] = ca;
        }
        if (scoped) {
            Array fields;
            for (auto *f : rd->fields()) {
                Object fo;
                fo["n"] = f->getNameAsString();
                fo["id"] = fieldName(f);
                fo["t"] = typeId(f->getType());
                if (f->isBitField() && !f->getBitWidth()->isValueDependent()) fo["bits"] = (int64_t)f->getBitWidthValue(rd->getASTContext());
                fo["acc"] = (int)f->getAccess();
                fo["line"] = lineOf(f->getLocation());
                if (f->isMutable()) fo["mutable"] = true;
                if (f->isAnonymousStructOrUnion()) fo["anon"] = true;
                if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                fields.push_back(std::move(fo));
            }
            o["fields"] = std::move(fields);
            Array ms;
            for (auto *m : rd->methods()) {
                Object mo;
                mo["n"] = m->getNameAsString();
                mo["key"] = usr(m);
                if (m->isVirtual()) mo["virt"] = true;
                if (m->isPureVirtual()) mo["pure"] = true;
                if (m->isConst()) mo["const"] = true;
                if (m->isStatic()) mo["static"] = true;
                if (m->isDeleted()) mo["deleted"] = true;
                if (m->isImplicit()) mo["implicit"] = true;
                if (m->isDefaulted()) mo["defaulted"] = true;
                mo["acc"] = (int)m->getAccess();
                Array ov;
                for (auto *b : m->overridden_methods()) ov.push_back(usr(b));
                if (!ov.empty()) mo["over"] = std::move(ov);
                if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
                    mo["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
                }
                if (m->isCopyAssignmentOperator()) mo["asg"] = "copy";
                if (m->isMoveAssignmentOperator()) mo["asg"] = "move";
                mo["line"] = lineOf(m->getLocation());
                ms.push_back(std::move(mo));
            }
            o["methods"] = std::move(ms);
        }
        emit(std::move(o));
    }
    void enumDecl(const EnumDecl *ed) {
        ed = ed->getDefinition();
        if (!ed) return;
        std::string name = recName(ed);
        if (!gSeen.insert("E:" + name).second) return;
        Object o;
        o["kind"] = "enum";
        o["rec"] = name;
        o["file"] = fileOf(ed->getLocation());
        o["line"] = lineOf(ed->getLocation());
        Array cs;
        for (auto *c : ed->enumerators()) { Array p; p.push_back(c->getNameAsString()); p.push_back(toInt(c->getInitVal())); cs.push_back(std::move(p)); }
        o["consts"] = std::move(cs);
        emit(std::move(o));
    }
    std::string fieldName(const FieldDecl *f) {
        return f->getNameAsString().empty() ? ("anon" + std::to_string(f->getFieldIndex())) : f->getNameAsString();
    }

    // ---------------------------------------------------------------- exprs
    Value varDecl(const VarDecl *v) {
        Object o;
        o["k"] = "Var";
        o["d"] = idOf(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["l"] = lineOf(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->hasGlobalStorage()) o["q"] = qn(v);
        if (v->hasInit()) o["init"] = expr(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto *b : dd->bindings()) {
                Object bo; bo["d"] = idOf(b); bo["n"] = b->getNameAsString();
                if (b->getBinding()) bo["e"] = expr(b->getBinding());
                if (auto *hv = b->getHoldingVar()) { bo["hv"] = varDecl(hv); }
                bs.push_back(std::move(bo));
            }
            o["bind"] = std::move(bs);
        }
        return o;
    }
    Value args(llvm::ArrayRef<const Expr *> as) {
        Array a;
        for (auto *e : as) a.push_back(expr(e));
        return a;
    }
    template <typename R> Value argRange(R r) {
        Array a;
        for (const Expr *e : r) a.push_back(expr(e));
        return a;
    }
    void calleeInfo(Object &o, const FunctionDecl *fd) {
        o["fn"] = usr(fd);
        o["q"] = qn(fd);
        if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = recName(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["mconst"] = true;
        }
        if (fd->isNoReturn() || fd->hasAttr<NoReturnAttr>() || fd->hasAttr<AnalyzerNoReturnAttr>()) o["noret"] = true;
        Array pt;
        for (auto *p : fd->parameters()) pt.push_back(typeId(p->getType()));
        o["pt"] = std::move(pt);
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            Array a;
            for (auto &x : ta->asArray()) tmplArg(a, x);
            o["targs"] = std::move(a);
        }
    }
    static const char *ck(CastKind k) { return CastExpr::getCastKindName(k); }

    Value expr(const Expr *e) {
        if (!e) return nullptr;
        Object o;
        e = e->IgnoreParens();
        switch (e->getStmtClass()) {
            case Stmt::ExprWithCleanupsClass: {
                Object r; r["k"] = "Full"; r["e"] = expr(cast<ExprWithCleanups>(e)->getSubExpr());
                r["l"] = lineOf(e->getExprLoc());
                return r;
            }
            case Stmt::ConstantExprClass:
                return expr(cast<ConstantExpr>(e)->getSubExpr());
            case Stmt::SubstNonTypeTemplateParmExprClass:
                return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
            case Stmt::MaterializeTemporaryExprClass: {
                Object r; r["k"] = "Mat"; r["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
                r["t"] = typeId(e->getType());
                if (cast<MaterializeTemporaryExpr>(e)->getExtendingDecl()) r["ext"] = true;
                return r;
            }
            case Stmt::CXXBindTemporaryExprClass: {
                Object r; r["k"] = "Bind"; r["e"] = expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
                r["t"] = typeId(e->getType());
                return r;
            }
            case Stmt::CXXDefaultArgExprClass: {
                Value v = expr(cast<CXXDefaultArgExpr>(e)->getExpr());
                if (auto *ob = v.getAsObject()) (*ob)["defarg"] = true;
                return v;
            }
            case Stmt::CXXDefaultInitExprClass:
                return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
            case Stmt::CXXRewrittenBinaryOperatorClass:
                return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
            default: break;
        }
        o["t"] = typeId(e->getType());
        o["l"] = lineOf(e->getExprLoc());
        if (e->isGLValue()) o["lv"] = e->isXValue() ? 2 : 1;
        // constant folding of integral prvalues
        if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
            (e->getType()->isIntegralOrEnumerationType())) {
            Expr::EvalResult r;
            if (!isa<CXXBoolLiteralExpr>(e) && !isa<IntegerLiteral>(e) &&
                e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["c"] = toInt(r.Val.getInt());
        }
        switch (e->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                o["k"] = "Int";
                llvm::APSInt v(cast<IntegerLiteral>(e)->getValue(), e->getType()->isUnsignedIntegerType());
                o["v"] = toInt(v); break; }
            case Stmt::CharacterLiteralClass: o["k"] = "Int"; o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue(); break;
            case Stmt::CXXBoolLiteralExprClass: o["k"] = "Int"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? 1 : 0; break;
            case Stmt::FloatingLiteralClass: {
                o["k"] = "Float";
                llvm::SmallString<40> s; cast<FloatingLiteral>(e)->getValue().toString(s); o["v"] = std::string(s.str()); break; }
            case Stmt::StringLiteralClass: {
                o["k"] = "Str";
                auto *sl = cast<StringLiteral>(e);
                if (sl->getCharByteWidth() == 1) o["v"] = safe(sl->getString()); else o["v"] = "<wide>";
                break; }
            case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "Null"; break;
            case Stmt::CXXThisExprClass: o["k"] = "This"; break;
            case Stmt::PredefinedExprClass: o["k"] = "Str"; o["v"] = "<func>"; break;
            case Stmt::DeclRefExprClass: {
                auto *d = cast<DeclRefExpr>(e)->getDecl();
                o["k"] = "Ref";
                o["n"] = d->getNameAsString();
                if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "enumc"; o["v"] = toInt(ec->getInitVal()); o["q"] = qn(ec); }
                else if (auto *pv = dyn_cast<ParmVarDecl>(d)) { o["dk"] = "param"; o["d"] = idOf(pv); }
                else if (auto *v = dyn_cast<VarDecl>(d)) {
                    if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["dk"] = "global"; o["q"] = qn(v); globalVar(v); }
                    else { o["dk"] = v->isStaticLocal() ? "slocal" : "local"; if (v->isStaticLocal()) o["q"] = qn(v); }
                    o["d"] = idOf(v);
                }
                else if (auto *b = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; o["d"] = idOf(b); }
                else if (auto *fd = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; calleeInfo(o, fd); }
                else { o["dk"] = "other"; o["q"] = qn(d); }
                break; }
            case Stmt::MemberExprClass: {
                auto *me = cast<MemberExpr>(e);
                o["k"] = "Mem";
                o["b"] = expr(me->getBase());
                if (me->isArrow()) o["arrow"] = true;
                auto *d = me->getMemberDecl();
                if (auto *f = dyn_cast<FieldDecl>(d)) { o["n"] = fieldName(f); o["cls"] = recName(f->getParent()); if (f->isAnonymousStructOrUnion()) o["anon"] = true; }
                else if (auto *v = dyn_cast<VarDecl>(d)) { o["k"] = "Ref"; o["dk"] = "global"; o["q"] = qn(v); o["n"] = v->getNameAsString(); o["d"] = idOf(v); globalVar(v); }
                else if (auto *fd = dyn_cast<FunctionDecl>(d)) { o["k"] = "MemFn"; calleeInfo(o, fd); o["n"] = d->getNameAsString(); }
                else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "Ref"; o["dk"] = "enumc"; o["v"] = toInt(ec->getInitVal()); o["q"] = qn(ec); o["n"] = d->getNameAsString(); }
                break; }
            case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
                auto *ce = cast<CallExpr>(e);
                if (auto *pd = dyn_cast<CXXPseudoDestructorExpr>(ce->getCallee()->IgnoreParens())) {
                    o["k"] = "PseudoDtor"; o["e"] = expr(pd->getBase());
                    if (pd->isArrow()) o["arrow"] = true;
                    break;
                }
                o["k"] = "Call";
                auto *fd = ce->getDirectCallee();
                unsigned skip = 0;
                if (fd) {
                    calleeInfo(o, fd);
                    o["n"] = fd->getNameAsString();
                    if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) {
                        o["obj"] = expr(mc->getImplicitObjectArgument());
                        if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                            if (me->isArrow()) o["arrow"] = true;
                            if (me->hasQualifier()) o["qual"] = true;
                        }
                    } else if (isa<CXXOperatorCallExpr>(e)) {
                        o["oper"] = true;
                        if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) { o["obj"] = expr(ce->getArg(0)); skip = 1; }
                    }
                } else {
                    o["ind"] = expr(ce->getCallee());
                }
                Array a;
                for (unsigned i = skip; i < ce->getNumArgs(); i++) a.push_back(expr(ce->getArg(i)));
                o["a"] = std::move(a);
                break; }
            case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
                auto *ce = cast<CXXConstructExpr>(e);
                o["k"] = "Construct";
                calleeInfo(o, ce->getConstructor());
                auto *cd = ce->getConstructor();
                o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
                if (ce->isElidable()) o["elid"] = true;
                if (ce->isListInitialization()) o["list"] = true;
                if (ce->requiresZeroInitialization()) o["zero"] = true;
                if (cd->isTrivial()) o["triv"] = true;
                Array a;
                for (unsigned i = 0; i < ce->getNumArgs(); i++) a.push_back(expr(ce->getArg(i)));
                o["a"] = std::move(a);
                break; }
            case Stmt::CXXInheritedCtorInitExprClass: {
                o["k"] = "Construct"; calleeInfo(o, cast<CXXInheritedCtorInitExpr>(e)->getConstructor()); o["ck"] = "inherited"; o["a"] = Array(); break; }
            case Stmt::UnaryOperatorClass: {
                auto *u = cast<UnaryOperator>(e);
                o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                if (u->isPostfix()) o["post"] = true;
                o["e"] = expr(u->getSubExpr()); break; }
            case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
                auto *b = cast<BinaryOperator>(e);
                o["k"] = b->isAssignmentOp() ? "Asg" : "Bin";
                o["op"] = b->getOpcodeStr().str();
                o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS());
                if (auto *ca = dyn_cast<CompoundAssignOperator>(e)) { o["ct"] = typeId(ca->getComputationResultType()); }
                break; }
            case Stmt::ConditionalOperatorClass: {
                auto *c = cast<ConditionalOperator>(e);
                o["k"] = "Cond"; o["c0"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); break; }
            case Stmt::BinaryConditionalOperatorClass: {
                auto *c = cast<BinaryConditionalOperator>(e);
                o["k"] = "BCond"; o["c0"] = expr(c->getCommon()); o["b"] = expr(c->getFalseExpr()); break; }
            case Stmt::ArraySubscriptExprClass: {
                auto *a = cast<ArraySubscriptExpr>(e);
                o["k"] = "Idx"; o["a"] = expr(a->getBase()); o["b"] = expr(a->getIdx()); break; }
            case Stmt::CXXFunctionalCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass:
            case Stmt::ImplicitCastExprClass: {
                auto *c = cast<CastExpr>(e);
                o["k"] = "Cast"; o["ck"] = ck(c->getCastKind());
                if (!isa<ImplicitCastExpr>(e)) o["ex"] = e->getStmtClass() == Stmt::CXXDynamicCastExprClass ? "dynamic" : e->getStmtClass() == Stmt::CXXStaticCastExprClass ? "static" : "c";
                o["e"] = expr(c->getSubExpr());
                break; }
            case Stmt::CXXNewExprClass: {
                auto *n = cast<CXXNewExpr>(e);
                o["k"] = "New"; o["at"] = typeId(n->getAllocatedType());
                if (n->isArray()) { o["array"] = true; if (n->getArraySize()) o["size"] = expr(*n->getArraySize()); }
                if (n->getInitializer()) o["init"] = expr(n->getInitializer());
                Array a; for (unsigned i = 0; i < n->getNumPlacementArgs(); i++) a.push_back(expr(n->getPlacementArg(i)));
                o["place"] = std::move(a); break; }
            case Stmt::CXXDeleteExprClass: {
                auto *d = cast<CXXDeleteExpr>(e);
                o["k"] = "Delete"; o["e"] = expr(d->getArgument()); if (d->isArrayForm()) o["array"] = true; break; }
            case Stmt::CXXThrowExprClass: o["k"] = "Throw"; o["e"] = expr(cast<CXXThrowExpr>(e)->getSubExpr()); break;
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "Zero"; break;
            case Stmt::CXXNoexceptExprClass: case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::SizeOfPackExprClass: o["k"] = "Trait"; break;
            case Stmt::InitListExprClass: {
                auto *il = cast<InitListExpr>(e);
                if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
                o["k"] = "InitList"; o["a"] = argRange(il->inits());
                if (il->hasArrayFiller()) o["fill"] = true;
                break; }
            case Stmt::CXXStdInitializerListExprClass: o["k"] = "StdInit"; o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); break;
            case Stmt::LambdaExprClass: {
                auto *le = cast<LambdaExpr>(e);
                o["k"] = "Lambda";
                Array caps;
                auto ci = le->capture_init_begin();
                for (auto &cp : le->captures()) {
                    Object co;
                    if (cp.capturesThis()) { co["this"] = true; if (cp.getCaptureKind() == LCK_StarThis) co["copy"] = true; }
                    else if (cp.capturesVariable()) {
                        auto *v = cp.getCapturedVar();
                        co["d"] = idOf(v); co["n"] = v->getNameAsString();
                        if (cp.getCaptureKind() == LCK_ByRef) co["ref"] = true;
                        if (le->isInitCapture(&cp)) { co["initcap"] = true; }
                    }
                    if (*ci) co["init"] = expr(*ci);
                    ++ci;
                    caps.push_back(std::move(co));
                }
                o["caps"] = std::move(caps);
                auto *op = le->getCallOperator();
                o["fn"] = usr(op);
                if (auto *ft = le->getDependentCallOperator()) {
                    Array sp;
                    for (auto *s : ft->specializations()) { sp.push_back(usr(s)); lambdaFn(s, le); }
                    o["specs"] = std::move(sp);
                } else lambdaFn(op, le);
                break; }
            case Stmt::CXXTypeidExprClass: o["k"] = "Typeid"; break;
            case Stmt::StmtExprClass: o["k"] = "StmtExpr"; o["s"] = stmt(cast<StmtExpr>(e)->getSubStmt()); break;
            case Stmt::OpaqueValueExprClass: o["k"] = "Opaque"; if (cast<OpaqueValueExpr>(e)->getSourceExpr()) o["e"] = expr(cast<OpaqueValueExpr>(e)->getSourceExpr()); break;
            case Stmt::ArrayInitLoopExprClass: o["k"] = "ArrayCopy"; o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()); break;
            default:
                o["k"] = "Other"; o["sc"] = e->getStmtClassName();
                { Array ch; for (auto *c : e->children()) if (auto *x = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(x)); o["ch"] = std::move(ch); }
        }
        return o;
    }
    std::vector<std::pair<const CXXMethodDecl *, const LambdaExpr *>> pendingLambdas;
    void lambdaFn(const FunctionDecl *f, const LambdaExpr *le) {
        // same id space as the enclosing function: emit inline
        auto *d = f; const FunctionDecl *def = nullptr;
        if (!d->hasBody(def)) return;
        if (def->isDependentContext()) return;
        function(def, true);
    }
    void globalVar(const VarDecl *v) {
        if (auto *d = v->getDefinition()) v = d;
        if (!inScope(v->getLocation())) return;
        if (v->getDeclContext()->isDependentContext()) return;
        std::string q = qn(v);
        std::string key = "G:" + q + (v->isThisDeclarationADefinition() ? ":def" : "");
        if (!gSeen.insert(key).second) return;
        Object o;
        o["kind"] = "global";
        o["q"] = q;
        o["n"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["file"] = fileOf(v->getLocation());
        o["line"] = lineOf(v->getLocation());
        if (v->isThisDeclarationADefinition()) o["def"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->hasInit() && !v->getInit()->isValueDependent()) o["init"] = expr(v->getInit());
        emit(std::move(o));
    }

    // ---------------------------------------------------------------- stmts
    Value stmt(const Stmt *s) {
        if (!s) return nullptr;
        Object o;
        o["l"] = lineOf(s->getBeginLoc());
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                o["k"] = "Block"; Array a; for (auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c)); o["s"] = std::move(a);
                o["le"] = lineOf(s->getEndLoc()); return o; }
            case Stmt::DeclStmtClass: {
                o["k"] = "Decl"; Array a;
                for (auto *d : cast<DeclStmt>(s)->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
                o["v"] = std::move(a); return o; }
            case Stmt::IfStmtClass: {
                auto *i = cast<IfStmt>(s); o["k"] = "If";
                if (i->isConstexpr()) {
                    o["constexpr"] = true;
                }
                if (i->getInit()) o["init"] = stmt(i->getInit());
                if (i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
                o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); if (i->getElse()) o["b"] = stmt(i->getElse()); return o; }
            case Stmt::WhileStmtClass: {
                auto *w = cast<WhileStmt>(s); o["k"] = "While";
                if (w->getConditionVariable()) o["var"] = varDecl(w->getConditionVariable());
                o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); return o; }
            case Stmt::DoStmtClass: { auto *w = cast<DoStmt>(s); o["k"] = "Do"; o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); return o; }
            case Stmt::ForStmtClass: {
                auto *f = cast<ForStmt>(s); o["k"] = "For";
                if (f->getInit()) o["init"] = stmt(f->getInit());
                if (f->getConditionVariable()) o["var"] = varDecl(f->getConditionVariable());
                if (f->getCond()) o["c"] = expr(f->getCond());
                if (f->getInc()) o["inc"] = expr(f->getInc());
                o["body"] = stmt(f->getBody()); return o; }
            case Stmt::CXXForRangeStmtClass: {
                auto *f = cast<CXXForRangeStmt>(s); o["k"] = "RangeFor";
                o["range"] = expr(f->getRangeInit());
                o["var"] = varDecl(f->getLoopVariable());
                o["body"] = stmt(f->getBody()); return o; }
            case Stmt::SwitchStmtClass: {
                auto *w = cast<SwitchStmt>(s); o["k"] = "Switch";
                if (w->getInit()) o["init"] = stmt(w->getInit());
                if (w->getConditionVariable()) o["var"] = varDecl(w->getConditionVariable());
                o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); return o; }
            case Stmt::CaseStmtClass: {
                auto *c = cast<CaseStmt>(s); o["k"] = "Case"; o["v"] = expr(c->getLHS());
                if (!c->getLHS()->isValueDependent()) { Expr::EvalResult r; if (c->getLHS()->EvaluateAsInt(r, C)) o["c"] = toInt(r.Val.getInt()); }
                o["s"] = stmt(c->getSubStmt()); return o; }
            case Stmt::DefaultStmtClass: o["k"] = "Default"; o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); return o;
            case Stmt::BreakStmtClass: o["k"] = "Break"; return o;
            case Stmt::ContinueStmtClass: o["k"] = "Continue"; return o;
            case Stmt::ReturnStmtClass: { o["k"] = "Return"; if (auto *r = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(r); return o; }
            case Stmt::GotoStmtClass: o["k"] = "Goto"; o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString(); return o;
            case Stmt::LabelStmtClass: o["k"] = "Label"; o["n"] = cast<LabelStmt>(s)->getDecl()->getNameAsString(); o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt()); return o;
            case Stmt::NullStmtClass: o["k"] = "Null"; return o;
            case Stmt::CXXTryStmtClass: {
                auto *t = cast<CXXTryStmt>(s); o["k"] = "Try"; o["body"] = stmt(t->getTryBlock());
                Array hs;
                for (unsigned i = 0; i < t->getNumHandlers(); i++) {
                    auto *h = t->getHandler(i); Object ho; ho["t"] = h->getCaughtType().isNull() ? -1 : typeId(h->getCaughtType());
                    if (h->getExceptionDecl()) ho["var"] = varDecl(h->getExceptionDecl());
                    ho["body"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
                o["h"] = std::move(hs); return o; }
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::GCCAsmStmtClass: {
                auto *a = cast<GCCAsmStmt>(s); o["k"] = "Asm"; o["v"] = safe(a->getAsmString()->getString());
                Array outs; for (unsigned i = 0; i < a->getNumOutputs(); i++) outs.push_back(expr(a->getOutputExpr(i))); o["out"] = std::move(outs);
                Array cs; for (unsigned i = 0; i < a->getNumOutputs(); i++) cs.push_back(safe(a->getOutputConstraint(i))); o["oc"] = std::move(cs);
                return o; }
            default: break;
        }
        if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = expr(e); return o; }
        o["k"] = "OtherStmt"; o["sc"] = s->getStmtClassName();
        return o;
    }

    void function(const FunctionDecl *f, bool isLambda = false) {
        if (f->isInvalidDecl() || f->isDependentContext()) return;
        const FunctionDecl *def = nullptr;
        bool has = f->hasBody(def);
        if (!has) {
            if (f->isDefaulted() && !f->isDeleted() && f->isThisDeclarationADefinition() && !f->isImplicit()) def = f; else return;
        }
        f = def;
        if (f->isDependentContext()) return;
        std::string key = usr(f);
        if (key.empty()) return;
        if (isLambda) key = usr(f);
        if (!gSeen.insert("F:" + key).second) return;
        Object o;
        o["kind"] = "func";
        o["key"] = key;
        o["q"] = qn(f);
        o["n"] = f->getNameAsString();
        o["file"] = fileOf(f->getLocation());
        o["line"] = lineOf(f->getLocation());
        o["ret"] = typeId(f->getReturnType());
        if (isLambda) o["lambda"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto *pt = f->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()) && pt->isNothrow()) o["noex"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = recName(m->getParent());
            record(m->getParent());
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isVirtual()) o["virt"] = true;
            o["acc"] = (int)m->getAccess();
            if (m->getRefQualifier() == RQ_RValue) o["rvq"] = true;
            Array ov; for (auto *b : m->overridden_methods()) ov.push_back(usr(b)); if (!ov.empty()) o["over"] = std::move(ov);
            if (m->isCopyAssignmentOperator()) o["asg"] = "copy";
            if (m->isMoveAssignmentOperator()) o["asg"] = "move";
        }
        if (auto *ta = f->getTemplateSpecializationArgs()) { Array a; for (auto &x : ta->asArray()) tmplArg(a, x); o["targs"] = std::move(a); }
        Array ps;
        for (auto *p : f->parameters()) {
            Object po; po["d"] = idOf(p); po["n"] = p->getNameAsString(); po["t"] = typeId(p->getType()); ps.push_back(std::move(po)); }
        o["params"] = std::move(ps);
        if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
            Array is;
            for (auto *i : cd->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) {
                    auto *m = i->getAnyMember();
                    io["f"] = fieldName(m); io["ft"] = typeId(m->getType()); io["cls"] = recName(m->getParent());
                } else if (i->isDelegatingInitializer()) io["deleg"] = true;
                else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
                if (i->isWritten()) io["w"] = true;
                io["e"] = expr(i->getInit());
                io["l"] = lineOf(i->getSourceLocation());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if (f->getBody()) o["body"] = stmt(f->getBody());
        o["lend"] = lineOf(f->getEndLoc());
        emit(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper &D;
    explicit Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (!f->isThisDeclarationADefinition()) return true;
        SourceLocation l = f->getLocation();
        if (!D.inScope(l)) return true;
        D.ids.clear(); D.nextId = 1;
        D.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (r->isThisDeclarationADefinition() && D.inScope(r->getLocation()) && !r->isDependentContext()) D.record(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) { if (e->isThisDeclarationADefinition() && D.inScope(e->getLocation()) && !e->isDependentContext()) D.enumDecl(e); return true; }
    bool VisitVarDecl(VarDecl *v) {
        if (v->hasGlobalStorage() && !v->isStaticLocal() && D.inScope(v->getLocation())) { D.globalVar(v); }
        return true;
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance &CI;
public:
    explicit Consumer(CompilerInstance &ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext &ctx) override {
        auto &diags = CI.getDiagnostics();
        std::string main;
        if (auto fe = ctx.getSourceManager().getFileEntryRefForID(ctx.getSourceManager().getMainFileID())) main = std::string(fe->getName());
        { Object o; o["kind"] = "tu"; o["file"] = main; o["errors"] = (int)CI.getDiagnosticClient().getNumErrors(); emit(std::move(o)); }
        if (diags.hasErrorOccurred()) { gErrors++; }
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override {
        ci.getFrontendOpts().SkipFunctionBodies = false;
        return std::make_unique<Consumer>(ci);
    }
};
class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: nsx OUT PREFIX[,PREFIX..] FILE... -- flags
int main(int argc, const char **argv) {
    if (argc < 4) return 2;
    std::error_code ec;
    gOut = std::make_unique<llvm::raw_fd_ostream>(argv[1], ec);
    if (ec) { llvm::errs() << "cannot open " << argv[1] << "\n"; return 2; }
    llvm::SmallVector<llvm::StringRef, 4> ps;
    llvm::StringRef(argv[2]).split(ps, ',');
    for (auto p : ps) gPrefixes.push_back(p.str());
    std::vector<std::string> files, flags;
    bool f = true;
    for (int i = 3; i < argc; i++) {
        if (std::string(argv[i]) == "--") { f = false; continue; }
        (f ? files : flags).push_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    Factory fac;
    int rc = tool.run(&fac);
    gOut->flush();
    return rc;
}
