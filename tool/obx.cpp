// obx: exports a compact, resolved view of the code of a translation unit
// (function bodies after template instantiation, class layouts, evaluated
// constant tables) as JSON. All the deciding rules live in /verif/sa.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprConcepts.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::string gOut, gRoot, gExtraRoot;

namespace
{

struct Exporter {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    llvm::raw_ostream &os;
    std::unordered_map<const void *, int> declIds;
    std::map<std::string, int> typeIds;
    std::vector<std::string> types;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::deque<const FunctionDecl *> work;
    std::set<const FunctionDecl *> seenF;
    std::set<const VarDecl *> seenV;
    std::deque<const VarDecl *> workV;
    std::set<const CXXRecordDecl *> seenR;
    std::deque<const CXXRecordDecl *> workR;

    Exporter(ASTContext &c, llvm::raw_ostream &o) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), os(o)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressInlineNamespace = true;
    }

    int did(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.emplace(D, (int)declIds.size() + 1);
        return it.first->second;
    }
    int tid(QualType T)
    {
        std::string s = T.getCanonicalType().getAsString(PP);
        auto it = typeIds.emplace(s, (int)types.size());
        if (it.second) types.push_back(s);
        return it.first->second;
    }
    std::string fileOf(SourceLocation L)
    {
        L = SM.getFileLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    bool inRepo(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        std::string f = fileOf(L);
        return f.compare(0, gRoot.size(), gRoot) == 0 || (!gExtraRoot.empty() && f.compare(0, gExtraRoot.size(), gExtraRoot) == 0);
    }
    void loc(SourceLocation L)
    {
        if (L.isInvalid()) return;
        L = SM.getFileLoc(L);
        std::string f = fileOf(L);
        auto it = fileIds.emplace(f, (int)files.size());
        if (it.second) files.push_back(f);
        os << ",\"L\":[" << it.first->second << "," << SM.getSpellingLineNumber(L) << "]";
    }
    void str(llvm::StringRef s)
    {
        os << '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\')
                os << '\\' << (char)c;
            else if (c < 32 || c >= 127) {
                char buf[8];
                snprintf(buf, sizeof buf, "\\u%04x", c);
                os << buf;
            } else
                os << (char)c;
        }
        os << '"';
    }
    std::string qname(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        PrintingPolicy P2 = PP;
        D->printQualifiedName(o, P2);
        o.flush();
        return s;
    }
    std::string cname(const DeclContext *DC)
    {
        // Qualified name without template arguments.
        std::string r;
        std::vector<std::string> parts;
        for (; DC && !DC->isTranslationUnit(); DC = DC->getParent()) {
            if (auto *ND = dyn_cast<NamespaceDecl>(DC)) {
                if (ND->isInline()) continue;
                parts.push_back(ND->isAnonymousNamespace() ? "(anon)" : ND->getNameAsString());
            } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
                parts.push_back(RD->isLambda() ? "(lambda)" : RD->getNameAsString());
            } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(FD->getNameAsString() + "()");
            }
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) r += *it + "::";
        return r;
    }
    std::string dname(const NamedDecl *D)
    {
        return cname(D->getDeclContext()) + D->getNameAsString();
    }
    std::string targs(const FunctionDecl *F)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        if (auto *A = F->getTemplateSpecializationArgs()) {
            printTemplateArgumentList(o, A->asArray(), PP);
        }
        o.flush();
        return s;
    }

    void intval(const llvm::APSInt &v)
    {
        llvm::SmallString<64> s;
        v.toString(s, 10);
        os << '"' << s << '"';
    }

    bool constInt(const Expr *E, llvm::APSInt &out)
    {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        QualType T = E->getType();
        if (!(T->isIntegralOrEnumerationType())) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
        if (R.HasSideEffects || !R.Val.isInt()) return false;
        out = R.Val.getInt();
        return true;
    }

    void cv(const Expr *E)
    {
        llvm::APSInt v;
        if (constInt(E, v)) {
            os << ",\"cv\":";
            intval(v);
        }
    }

    void needF(const FunctionDecl *F)
    {
        if (!F) return;
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def && !Def->isDependentContext()) {
            if (inRepo(Def->getLocation()) && seenF.insert(Def->getCanonicalDecl()).second) work.push_back(Def);
        }
    }
    void needR(const CXXRecordDecl *R)
    {
        if (!R) return;
        R = R->getDefinition();
        if (!R || R->isDependentContext()) return;
        if (!inRepo(R->getLocation())) return;
        if (seenR.insert(R).second) workR.push_back(R);
    }
    void needV(const VarDecl *V)
    {
        if (!V) return;
        if (!(V->hasGlobalStorage())) return;
        if (!inRepo(V->getLocation())) return;
        if (V->getType()->isDependentType()) return;
        if (seenV.insert(V->getCanonicalDecl()).second) workV.push_back(V);
    }

    void kids(llvm::ArrayRef<const Expr *> v)
    {
        os << "[";
        bool f = true;
        for (auto *e : v) {
            if (!f) os << ",";
            f = false;
            expr(e);
        }
        os << "]";
    }

    void funcref(const FunctionDecl *F)
    {
        needF(F);
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) Def = F;
        os << ",\"f\":" << did(Def) << ",\"q\":";
        str(dname(F));
        if (F->getTemplateSpecializationArgs()) {
            os << ",\"ta\":";
            str(targs(F));
        }
        if (F->isNoReturn()) os << ",\"nr\":1";
        os << ",\"rt\":" << tid(F->getReturnType());
        os << ",\"pr\":\"";
        for (auto *P : F->parameters()) {
            QualType T = P->getType();
            if (T->isLValueReferenceType())
                os << (T.getNonReferenceType().isConstQualified() ? 'c' : 'r');
            else if (T->isRValueReferenceType())
                os << 'm';
            else if (T->isPointerType())
                os << (T->getPointeeType().isConstQualified() ? 'q' : 'p');
            else
                os << 'v';
        }
        os << '"';
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isStatic()) os << ",\"st\":1";
            if (M->isConst()) os << ",\"cm\":1";
            os << ",\"cls\":" << tid(C.getRecordType(M->getParent()));
        }
    }

    void expr(const Expr *E)
    {
        if (!E) {
            os << "null";
            return;
        }
        // Transparent wrappers.
        while (true) {
            if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
            if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
            if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
            if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); continue; }
            if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
            if (auto *X = dyn_cast<ChooseExpr>(E)) { E = X->getChosenSubExpr(); continue; }
            if (auto *X = dyn_cast<CastExpr>(E)) {
                auto k = X->getCastKind();
                if (k == CK_LValueToRValue || k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_ArrayToPointerDecay
                    || k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase || k == CK_ConstructorConversion
                    || k == CK_UserDefinedConversion || k == CK_NullToPointer) {
                    E = X->getSubExpr();
                    continue;
                }
            }
            break;
        }
        os << "{\"k\":";
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            llvm::SmallString<64> s;
            X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
            os << "\"int\",\"v\":\"" << s << "\",\"t\":" << tid(E->getType());
        } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            os << "\"int\",\"v\":\"" << (X->getValue() ? 1 : 0) << "\",\"t\":" << tid(E->getType());
        } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            os << "\"int\",\"v\":\"" << X->getValue() << "\",\"t\":" << tid(E->getType());
        } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            os << "\"null\"";
        } else if (auto *X = dyn_cast<StringLiteral>(E)) {
            os << "\"str\",\"v\":";
            str(X->isOrdinary() || X->isUTF8() ? X->getString() : llvm::StringRef("?"));
        } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            llvm::SmallString<64> s;
            X->getValue().toString(s);
            os << "\"flt\",\"v\":\"" << s << "\",\"t\":" << tid(E->getType());
        } else if (isa<CXXThisExpr>(E)) {
            os << "\"this\"";
        } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            os << "\"ref\",\"n\":";
            str(D->getNameAsString());
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                os << ",\"dk\":\"func\"";
                funcref(F);
            } else {
                os << ",\"d\":" << did(D);
                if (auto *V = dyn_cast<VarDecl>(D)) {
                    needV(V);
                    os << ",\"dk\":\"" << (isa<ParmVarDecl>(V) ? "parm" : V->isStaticLocal() ? "slocal" : V->hasGlobalStorage() ? "glob" : "var") << "\"";
                    if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                        os << ",\"q\":";
                        str(dname(V));
                    }
                    if (X->refersToEnclosingVariableOrCapture()) os << ",\"cap\":1";
                } else if (isa<EnumConstantDecl>(D)) {
                    os << ",\"dk\":\"enum\",\"q\":";
                    str(dname(D));
                } else if (auto *B = dyn_cast<BindingDecl>(D)) {
                    os << ",\"dk\":\"bind\"";
                } else
                    os << ",\"dk\":\"other\"";
            }
            os << ",\"t\":" << tid(D->getType());
            cv(E);
        } else if (auto *X = dyn_cast<MemberExpr>(E)) {
            os << "\"mem\",\"n\":";
            str(X->getMemberDecl()->getNameAsString());
            os << ",\"q\":";
            str(dname(X->getMemberDecl()));
            os << ",\"d\":" << did(X->getMemberDecl());
            os << ",\"t\":" << tid(E->getType()) << ",\"b\":";
            expr(X->getBase());
            if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
                needV(V);
                os << ",\"dk\":\"glob\"";
                cv(E);
            }
        } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            auto *CD = X->getConstructor();
            needF(CD);
            os << "\"ctor\"";
            funcref(CD);
            os << ",\"t\":" << tid(E->getType());
            if (CD->isCopyConstructor()) os << ",\"cc\":1";
            if (CD->isMoveConstructor()) os << ",\"mc\":1";
            if (CD->isDefaultConstructor()) os << ",\"dc\":1";
            if (X->isListInitialization()) os << ",\"li\":1";
            os << ",\"a\":";
            std::vector<const Expr *> v(X->arg_begin(), X->arg_end());
            kids(v);
        } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            os << "\"ctor\"";
            funcref(X->getConstructor());
            os << ",\"t\":" << tid(E->getType()) << ",\"inh\":1,\"a\":[]";
        } else if (auto *X = dyn_cast<CallExpr>(E)) {
            os << "\"call\"";
            const FunctionDecl *F = X->getDirectCallee();
            std::vector<const Expr *> args;
            bool method = false;
            if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
                if (auto *O = M->getImplicitObjectArgument()) {
                    args.push_back(O);
                    method = true;
                }
            }
            bool hasOp = false;
            for (auto *a : X->arguments()) args.push_back(a);
            if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) {
                os << ",\"op\":";
                str(getOperatorSpelling(O->getOperator()));
                hasOp = true;
                if (F && isa<CXXMethodDecl>(F)) {
                    method = true;
                }
            }
            (void)hasOp;
            if (method) os << ",\"m\":1";
            if (F) {
                funcref(F);
            } else {
                os << ",\"fe\":";
                expr(X->getCallee());
            }
            os << ",\"t\":" << tid(E->getType());
            loc(E->getExprLoc());
            os << ",\"a\":";
            kids(args);
            if (F && (F->isConstexpr() || F->getBuiltinID())) cv(E);
        } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
            if (X->isAssignmentOp()) {
                os << "\"asg\",\"op\":";
                str(X->getOpcodeStr());
            } else {
                os << "\"bin\",\"op\":";
                str(X->getOpcodeStr());
            }
            os << ",\"t\":" << tid(E->getType());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) os << ",\"ct\":" << tid(CA->getComputationResultType());
            loc(X->getOperatorLoc());
            os << ",\"a\":[";
            expr(X->getLHS());
            os << ",";
            expr(X->getRHS());
            os << "]";
            if (!X->isAssignmentOp()) cv(E);
        } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
            os << "\"un\",\"op\":";
            str(UnaryOperator::getOpcodeStr(X->getOpcode()));
            if (X->isPostfix()) os << ",\"post\":1";
            os << ",\"t\":" << tid(E->getType());
            loc(X->getOperatorLoc());
            os << ",\"a\":[";
            expr(X->getSubExpr());
            os << "]";
        } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
            os << "\"cond\",\"t\":" << tid(E->getType()) << ",\"a\":[";
            expr(X->getCond());
            os << ",";
            expr(X->getTrueExpr());
            os << ",";
            expr(X->getFalseExpr());
            os << "]";
        } else if (auto *X = dyn_cast<CastExpr>(E)) {
            os << "\"cast\",\"c\":";
            str(X->getCastKindName());
            os << ",\"t\":" << tid(E->getType());
            if (isa<ExplicitCastExpr>(X)) os << ",\"x\":1";
            os << ",\"a\":[";
            expr(X->getSubExpr());
            os << "]";
            cv(E);
        } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            os << "\"idx\",\"t\":" << tid(E->getType());
            loc(X->getRBracketLoc());
            os << ",\"a\":[";
            expr(X->getBase());
            os << ",";
            expr(X->getIdx());
            os << "]";
        } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
            os << "\"lambda\",\"t\":" << tid(E->getType()) << ",\"ops\":[";
            std::vector<const FunctionDecl *> ops = closureOps(X->getLambdaClass());
            for (size_t i = 0; i < ops.size(); ++i) {
                needF(ops[i]);
                os << (i ? "," : "") << did(ops[i]);
            }
            os << "],\"caps\":[";
            bool f = true;
            auto ii = X->capture_init_begin();
            for (auto &cap : X->captures()) {
                if (!f) os << ",";
                f = false;
                os << "{\"r\":" << (cap.getCaptureKind() == LCK_ByRef ? 1 : 0);
                if (cap.capturesThis())
                    os << ",\"this\":1";
                else if (cap.capturesVariable()) {
                    auto *V = cap.getCapturedVar();
                    os << ",\"d\":" << did(V) << ",\"n\":";
                    str(V->getNameAsString());
                    if (V->isInitCapture()) {
                        os << ",\"init\":";
                        expr(cast<VarDecl>(V)->getInit());
                        os << ",\"vt\":" << tid(V->getType());
                    }
                }
                os << "}";
                ++ii;
            }
            os << "]";
            loc(X->getBeginLoc());
        } else if (auto *X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            os << "\"init\",\"t\":" << tid(E->getType()) << ",\"a\":";
            std::vector<const Expr *> v;
            for (auto *e : X->inits()) v.push_back(e);
            kids(v);
        } else if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) {
            os << "\"init\",\"t\":" << tid(E->getType()) << ",\"a\":";
            std::vector<const Expr *> v;
            for (auto *e : X->getInitExprs()) v.push_back(e);
            kids(v);
        } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            os << "\"throw\"";
            loc(X->getThrowLoc());
            if (X->getSubExpr()) {
                os << ",\"tt\":" << tid(X->getSubExpr()->getType()) << ",\"a\":[";
                expr(X->getSubExpr());
                os << "]";
            }
        } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            os << "\"new\",\"t\":" << tid(X->getAllocatedType());
            loc(X->getBeginLoc());
            os << ",\"pl\":[";
            for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) {
                if (i) os << ",";
                expr(X->getPlacementArg(i));
            }
            os << "],\"a\":[";
            if (X->getInitializer()) expr(X->getInitializer());
            os << "]";
            if (X->isArray() && X->getArraySize() && *X->getArraySize()) {
                os << ",\"n\":";
                expr(*X->getArraySize());
            }
        } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            os << "\"delete\",\"a\":[";
            expr(X->getArgument());
            os << "]";
            loc(X->getBeginLoc());
        } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            os << "\"zero\",\"t\":" << tid(E->getType());
        } else if (isa<UnaryExprOrTypeTraitExpr>(E)) {
            auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
            os << "\"sizeof\",\"t\":" << tid(E->getType()) << ",\"at\":" << tid(U->getTypeOfArgument());
            cv(E);
        } else if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) {
            os << "\"pdtor\",\"a\":[";
            expr(X->getBase());
            os << "]";
        } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
            os << "\"typeid\"";
            if (X->isTypeOperand()) os << ",\"at\":" << tid(X->getTypeOperand(C));
        } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
            os << "\"arrcopy\",\"a\":[";
            expr(X->getCommonExpr()->getSourceExpr());
            os << "]";
        } else {
            os << "\"x:" << E->getStmtClassName() << "\",\"t\":" << tid(E->getType());
            cv(E);
            os << ",\"a\":[";
            bool f = true;
            for (auto *c : E->children()) {
                if (auto *ce = dyn_cast_or_null<Expr>(c)) {
                    if (!f) os << ",";
                    f = false;
                    expr(ce);
                }
            }
            os << "]";
        }
        os << "}";
    }

    std::vector<const FunctionDecl *> closureOps(const CXXRecordDecl *R)
    {
        std::vector<const FunctionDecl *> ops;
        if (!R) return ops;
        if (auto *M = R->getLambdaCallOperator()) {
            if (auto *T = M->getDescribedFunctionTemplate()) {
                for (auto *S : T->specializations()) ops.push_back(S);
            } else
                ops.push_back(M);
        }
        return ops;
    }

    void var(const VarDecl *V)
    {
        os << "{\"d\":" << did(V) << ",\"n\":";
        str(V->getNameAsString());
        os << ",\"t\":" << tid(V->getType());
        if (V->isStaticLocal()) os << ",\"static\":1";
        if (V->getTSCSpec() != TSCS_unspecified) os << ",\"tls\":1";
        if (V->isConstexpr()) os << ",\"cx\":1";
        loc(V->getLocation());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            os << ",\"binds\":[";
            bool f = true;
            for (auto *B : D->bindings()) {
                if (!f) os << ",";
                f = false;
                os << "{\"d\":" << did(B) << ",\"n\":";
                str(B->getNameAsString());
                if (auto *HV = B->getHoldingVar()) {
                    os << ",\"h\":";
                    os << did(HV);
                    os << ",\"hi\":";
                    expr(HV->getInit());
                } else if (B->getBinding()) {
                    os << ",\"e\":";
                    expr(B->getBinding());
                }
                os << "}";
            }
            os << "]";
        }
        if (V->getInit()) {
            os << ",\"init\":";
            expr(V->getInit());
        }
        os << "}";
    }

    void stmt(const Stmt *S)
    {
        if (!S) {
            os << "null";
            return;
        }
        if (auto *E = dyn_cast<Expr>(S)) {
            os << "{\"s\":\"expr\"";
            loc(E->getBeginLoc());
            os << ",\"e\":";
            expr(E);
            os << "}";
            return;
        }
        os << "{\"s\":";
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            os << "\"block\",\"b\":[";
            bool f = true;
            for (auto *c : X->body()) {
                if (!f) os << ",";
                f = false;
                stmt(c);
            }
            os << "]";
        } else if (auto *X = dyn_cast<DeclStmt>(S)) {
            os << "\"decl\"";
            loc(X->getBeginLoc());
            os << ",\"v\":[";
            bool f = true;
            for (auto *d : X->decls()) {
                if (auto *V = dyn_cast<VarDecl>(d)) {
                    if (!f) os << ",";
                    f = false;
                    var(V);
                }
            }
            os << "]";
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            os << "\"if\"";
            loc(X->getIfLoc());
            if (X->isConstexpr()) os << ",\"cx\":1";
            if (X->getInit()) {
                os << ",\"init\":";
                stmt(X->getInit());
            }
            if (X->getConditionVariableDeclStmt()) {
                os << ",\"cvd\":";
                stmt(X->getConditionVariableDeclStmt());
            }
            os << ",\"c\":";
            expr(X->getCond());
            if (X->isConstexpr()) {
                auto nd = X->getNondiscardedCase(C);
                if (nd) {
                    os << ",\"taken\":";
                    stmt(*nd);
                    os << "}";
                    return;
                }
            }
            os << ",\"th\":";
            stmt(X->getThen());
            os << ",\"el\":";
            stmt(X->getElse());
        } else if (auto *X = dyn_cast<ForStmt>(S)) {
            os << "\"for\"";
            loc(X->getForLoc());
            os << ",\"init\":";
            stmt(X->getInit());
            os << ",\"c\":";
            expr(X->getCond());
            os << ",\"inc\":";
            expr(X->getInc());
            os << ",\"b\":";
            stmt(X->getBody());
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            os << "\"while\"";
            loc(X->getWhileLoc());
            os << ",\"c\":";
            expr(X->getCond());
            os << ",\"b\":";
            stmt(X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) {
            os << "\"do\"";
            loc(X->getDoLoc());
            os << ",\"c\":";
            expr(X->getCond());
            os << ",\"b\":";
            stmt(X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            os << "\"rfor\"";
            loc(X->getForLoc());
            os << ",\"v\":";
            var(X->getLoopVariable());
            os << ",\"r\":";
            expr(X->getRangeInit());
            os << ",\"b\":";
            stmt(X->getBody());
        } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
            os << "\"ret\"";
            loc(X->getReturnLoc());
            os << ",\"e\":";
            expr(X->getRetValue());
        } else if (isa<BreakStmt>(S)) {
            os << "\"break\"";
        } else if (isa<ContinueStmt>(S)) {
            os << "\"cont\"";
        } else if (isa<NullStmt>(S)) {
            os << "\"null\"";
        } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
            os << "\"switch\"";
            loc(X->getSwitchLoc());
            os << ",\"c\":";
            expr(X->getCond());
            os << ",\"b\":";
            stmt(X->getBody());
        } else if (auto *X = dyn_cast<CaseStmt>(S)) {
            os << "\"case\",\"v\":";
            expr(X->getLHS());
            os << ",\"b\":";
            stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
            os << "\"default\",\"b\":";
            stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            os << "\"try\"";
            loc(X->getTryLoc());
            os << ",\"b\":";
            stmt(X->getTryBlock());
            os << ",\"h\":[";
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                if (i) os << ",";
                auto *H = X->getHandler(i);
                os << "{\"ct\":";
                if (H->getExceptionDecl())
                    os << tid(H->getCaughtType());
                else
                    os << "null";
                os << ",\"b\":";
                stmt(H->getHandlerBlock());
                os << "}";
            }
            os << "]";
        } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
            os << "\"block\",\"b\":[";
            stmt(X->getSubStmt());
            os << "]";
        } else {
            os << "\"x:" << S->getStmtClassName() << "\",\"b\":[";
            bool f = true;
            for (auto *c : S->children())
                if (c) {
                    if (!f) os << ",";
                    f = false;
                    stmt(c);
                }
            os << "]";
        }
        os << "}";
    }

    void func(const FunctionDecl *F)
    {
        os << "{\"R\":\"func\",\"id\":" << did(F) << ",\"q\":";
        str(dname(F));
        os << ",\"n\":";
        str(F->getNameAsString());
        std::string ta = targs(F);
        if (!ta.empty()) {
            os << ",\"ta\":";
            str(ta);
        }
        if (auto *P = F->getTemplateInstantiationPattern()) {
            os << ",\"pat\":" << did(P);
        }
        loc(F->getLocation());
        os << ",\"ret\":" << tid(F->getReturnType());
        if (F->isDefaulted()) os << ",\"def\":1";
        auto *FPT = F->getType()->getAs<FunctionProtoType>();
        if (FPT && FPT->canThrow() == CT_Cannot) os << ",\"nx\":1";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            os << ",\"cls\":" << tid(C.getRecordType(M->getParent())) << ",\"clsq\":";
            str(dname(M->getParent()));
            if (M->isStatic()) os << ",\"st\":1";
            if (M->isConst()) os << ",\"cm\":1";
            if (M->getParent()->isLambda()) {
                os << ",\"lam\":1";
                needR(M->getParent());
            } else
                needR(M->getParent());
            if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
                os << ",\"kind\":\"ctor\"";
                if (CD->isCopyConstructor()) os << ",\"cc\":1";
                if (CD->isMoveConstructor()) os << ",\"mc\":1";
                os << ",\"inits\":[";
                bool f = true;
                for (auto *I : CD->inits()) {
                    if (!f) os << ",";
                    f = false;
                    os << "{\"w\":" << (I->isWritten() ? 1 : 0);
                    if (I->isAnyMemberInitializer()) {
                        os << ",\"m\":";
                        str(I->getAnyMember()->getNameAsString());
                        os << ",\"d\":" << did(I->getAnyMember());
                    } else if (I->isBaseInitializer())
                        os << ",\"base\":" << tid(QualType(I->getBaseClass(), 0));
                    else
                        os << ",\"deleg\":1";
                    os << ",\"e\":";
                    expr(I->getInit());
                    os << "}";
                }
                os << "]";
            } else if (isa<CXXDestructorDecl>(M))
                os << ",\"kind\":\"dtor\"";
            if (M->isCopyAssignmentOperator()) os << ",\"ca\":1";
            if (M->isMoveAssignmentOperator()) os << ",\"ma\":1";
        }
        os << ",\"params\":[";
        bool f = true;
        for (auto *P : F->parameters()) {
            if (!f) os << ",";
            f = false;
            os << "{\"d\":" << did(P) << ",\"n\":";
            str(P->getNameAsString());
            os << ",\"t\":" << tid(P->getType()) << "}";
        }
        os << "],\"body\":";
        stmt(F->getBody());
        os << "}\n";
    }

    void apv(const APValue &v)
    {
        switch (v.getKind()) {
            case APValue::Int:
                intval(v.getInt());
                break;
            case APValue::Array: {
                os << "[";
                unsigned n = v.getArraySize();
                for (unsigned i = 0; i < n; ++i) {
                    if (i) os << ",";
                    if (i < v.getArrayInitializedElts())
                        apv(v.getArrayInitializedElt(i));
                    else if (v.hasArrayFiller())
                        apv(v.getArrayFiller());
                    else
                        os << "null";
                }
                os << "]";
                break;
            }
            case APValue::Struct: {
                os << "{\"b\":[";
                for (unsigned i = 0; i < v.getStructNumBases(); ++i) {
                    if (i) os << ",";
                    apv(v.getStructBase(i));
                }
                os << "],\"f\":[";
                for (unsigned i = 0; i < v.getStructNumFields(); ++i) {
                    if (i) os << ",";
                    apv(v.getStructField(i));
                }
                os << "]}";
                break;
            }
            default:
                os << "null";
        }
    }

    void gvar(const VarDecl *V)
    {
        os << "{\"R\":\"gvar\",\"id\":" << did(V) << ",\"q\":";
        str(dname(V));
        os << ",\"t\":" << tid(V->getType());
        loc(V->getLocation());
        if (V->isStaticLocal()) os << ",\"static\":1";
        if (V->getTSCSpec() != TSCS_unspecified) os << ",\"tls\":1";
        std::string s;
        {
            llvm::raw_string_ostream o(s);
            if (auto *VS = dyn_cast<VarTemplateSpecializationDecl>(V)) {
                printTemplateArgumentList(o, VS->getTemplateArgs().asArray(), PP);
            } else if (auto *RD = dyn_cast<ClassTemplateSpecializationDecl>(V->getDeclContext())) {
                printTemplateArgumentList(o, RD->getTemplateArgs().asArray(), PP);
            }
        }
        if (!s.empty()) {
            os << ",\"ta\":";
            str(s);
        }
        const VarDecl *Def = V->getDefinition(C);
        if (!Def) Def = V;
        const VarDecl *ID = nullptr;
        if (const Expr *I = Def->getAnyInitializer(ID)) {
            if (!I->isValueDependent() && !Def->getType()->isReferenceType()) {
                bool ok = false;
                if (Def->getType().isConstQualified() || Def->isConstexpr()) {
                    if (auto *v = ID->evaluateValue()) {
                        os << ",\"val\":";
                        apv(*v);
                        ok = true;
                    }
                }
                if (!ok) {
                    os << ",\"init\":";
                    expr(I);
                }
            } else if (!I->isValueDependent()) {
                os << ",\"init\":";
                expr(I);
            }
        }
        os << "}\n";
    }

    void rec(const CXXRecordDecl *R)
    {
        os << "{\"R\":\"rec\",\"id\":" << did(R) << ",\"q\":";
        str(dname(R));
        os << ",\"t\":" << tid(C.getRecordType(R));
        loc(R->getLocation());
        if (R->isLambda()) os << ",\"lam\":1";
        os << ",\"fields\":[";
        bool f = true;
        for (auto *F : R->fields()) {
            if (!f) os << ",";
            f = false;
            os << "{\"n\":";
            str(F->getNameAsString());
            os << ",\"d\":" << did(F) << ",\"t\":" << tid(F->getType()) << ",\"acc\":" << (int)F->getAccess() << "}";
        }
        os << "],\"bases\":[";
        f = true;
        for (auto &B : R->bases()) {
            if (!f) os << ",";
            f = false;
            os << tid(B.getType());
        }
        os << "],\"methods\":[";
        f = true;
        for (auto *D : R->decls()) {
            const FunctionDecl *M = dyn_cast<CXXMethodDecl>(D);
            bool tmpl = false;
            if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
                M = FT->getTemplatedDecl();
                tmpl = true;
            }
            if (!M || M->isImplicit()) continue;
            if (!f) os << ",";
            f = false;
            os << "{\"n\":";
            str(M->getNameAsString());
            os << ",\"acc\":" << (int)M->getAccess();
            if (tmpl) os << ",\"tm\":1";
            if (M->isDeleted()) os << ",\"del\":1";
            if (M->isDefaulted()) os << ",\"def\":1";
            auto *FPT = M->getType()->getAs<FunctionProtoType>();
            if (FPT && !M->isDependentContext() && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType())
                && FPT->canThrow() == CT_Cannot)
                os << ",\"nx\":1";
            if (auto *MD = dyn_cast<CXXMethodDecl>(M)) {
                if (MD->isStatic()) os << ",\"st\":1";
                if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
                    os << ",\"kind\":\"ctor\"";
                    if (CD->isCopyConstructor()) os << ",\"cc\":1";
                    if (CD->isMoveConstructor()) os << ",\"mc\":1";
                }
                if (MD->isCopyAssignmentOperator()) os << ",\"ca\":1";
                if (MD->isMoveAssignmentOperator()) os << ",\"ma\":1";
            }
            os << "}";
        }
        os << "]}\n";
    }

    void drain()
    {
        while (!work.empty() || !workV.empty() || !workR.empty()) {
            if (!work.empty()) {
                auto *F = work.front();
                work.pop_front();
                func(F);
            } else if (!workV.empty()) {
                auto *V = workV.front();
                workV.pop_front();
                gvar(V);
            } else {
                auto *R = workR.front();
                workR.pop_front();
                rec(R);
            }
        }
    }
};

struct Seeder : RecursiveASTVisitor<Seeder> {
    Exporter &X;
    explicit Seeder(Exporter &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitLambdaBody() const
    {
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->doesThisDeclarationHaveABody() && !F->isDependentContext()) X.needF(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (!V->isStaticLocal() && V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext()
            && !isa<VarTemplatePartialSpecializationDecl>(V) && !V->getDescribedVarTemplate())
            X.needV(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (!R->isLambda()) X.needR(R);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        Exporter X(C, os);
        Seeder S(X);
        S.TraverseDecl(C.getTranslationUnitDecl());
        X.drain();
        os << "{\"R\":\"types\",\"v\":[";
        for (size_t i = 0; i < X.types.size(); ++i) {
            if (i) os << ",";
            X.str(X.types[i]);
        }
        os << "]}\n{\"R\":\"files\",\"v\":[";
        for (size_t i = 0; i < X.files.size(); ++i) {
            if (i) os << ",";
            X.str(X.files[i]);
        }
        os << "]}\n";
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// obx OUT ROOT[,EXTRA] SOURCE -- flags...
int main(int argc, const char **argv)
{
    if (argc < 4) return 2;
    gOut = argv[1];
    gRoot = argv[2];
    auto c = gRoot.find(',');
    if (c != std::string::npos) {
        gExtraRoot = gRoot.substr(c + 1);
        gRoot = gRoot.substr(0, c);
    }
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    std::vector<std::string> srcs{argv[3]};
    tooling::ClangTool T(DB, srcs);
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
