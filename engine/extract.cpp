// Extractor: parses one translation unit with clang and prints, as JSON, the type-resolved program of
// every non-dependent function defined below the given source roots: its control-flow graph (clang's own
// CFG, every subexpression its own element, implicit destructors of automatic objects included), with
// resolved callees, fields, constants, class hierarchy and override relations.  No rule lives here.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root to extract"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
class Ex {
public:
	ASTContext &C; SourceManager &SM; PrintingPolicy PP;
	std::map<const Decl*, int> declIds; std::vector<const Decl*> declList;
	std::map<const CXXRecordDecl*, int> clsIds; std::vector<const CXXRecordDecl*> clsList;
	std::map<std::string, int> tyIds; std::vector<json::Value> tyList;
	Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.Bool = true; }

	std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); if (L.isInvalid()) return ""; auto F = SM.getFilename(L); return realp(F.str()); }
	std::map<std::string,std::string> rp;
	std::string realp(const std::string &s) { auto it = rp.find(s); if (it != rp.end()) return it->second; llvm::SmallString<256> o; if (llvm::sys::fs::real_path(s, o)) o = s; return rp[s] = o.str().str(); }
	unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
	bool inRoot(SourceLocation L) { if (L.isInvalid()) return false; auto f = file(L); for (auto &r : Roots) if (llvm::StringRef(f).starts_with(r)) return true; return false; }

	static void qn(const DeclContext *DC, std::string &o) {
		if (!DC || DC->isTranslationUnit()) return;
		qn(DC->getParent(), o);
		if (auto *N = dyn_cast<NamespaceDecl>(DC)) { if (N->isInline() || N->isAnonymousNamespace()) return; o += N->getNameAsString() + "::"; }
		else if (auto *R = dyn_cast<RecordDecl>(DC)) o += R->getNameAsString() + "::";
		else if (auto *F = dyn_cast<FunctionDecl>(DC)) o += F->getNameAsString() + "::";
	}
	static std::string name(const NamedDecl *D) {
		if (isa<CXXConstructorDecl>(D)) return "<ctor>";
		if (isa<CXXDestructorDecl>(D)) return "<dtor>";
		if (auto *CV = dyn_cast<CXXConversionDecl>(D)) return "operator " + CV->getConversionType().getCanonicalType().getAsString();
		return D->getNameAsString();
	}
	static std::string qname(const NamedDecl *D) { std::string o; qn(D->getDeclContext(), o); return o + name(D); }

	int cls(const CXXRecordDecl *R) {
		if (!R) return -1;
		R = R->getCanonicalDecl();
		auto it = clsIds.find(R); if (it != clsIds.end()) return it->second;
		int id = clsList.size(); clsIds[R] = id; clsList.push_back(R); return id;
	}
	int ty(QualType T) {
		if (T.isNull()) return -1;
		QualType Q = T.getCanonicalType();
		std::string s = Q.getAsString(PP);
		auto it = tyIds.find(s); if (it != tyIds.end()) return it->second;
		int id = tyList.size(); tyIds[s] = id; tyList.push_back(nullptr);
		json::Object o; o["s"] = s;
		QualType B = Q; bool ref = false, ptr = false;
		if (B->isReferenceType()) { ref = true; B = B->getPointeeType(); }
		if (B->isPointerType()) { ptr = true; B = B->getPointeeType(); }
		if (ref) o["ref"] = 1; if (ptr) o["ptr"] = 1;
		if (B.isConstQualified()) o["const"] = 1;
		if (auto *R = B->getAsCXXRecordDecl()) o["cls"] = cls(R);
		if (!Q->isDependentType() && !Q->isReferenceType() && Q->isIntegralOrEnumerationType()) { o["int"] = (int64_t)C.getTypeSize(Q); o["sg"] = Q->isSignedIntegerOrEnumerationType(); }
		if (Q->isBooleanType()) o["bool"] = 1;
		if (auto *A = C.getAsConstantArrayType(Q)) o["arr"] = (int64_t)A->getSize().getZExtValue();
		if (!Q->isDependentType() && !Q->isPlaceholderType() && !Q->isIncompleteType() && !Q->isReferenceType() && !Q->isFunctionType() && !Q->isVoidType()) o["size"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
		tyList[id] = std::move(o); return id;
	}
	const Decl *canon(const Decl *D) {
		if (auto *F = dyn_cast<FunctionDecl>(D)) return F->getCanonicalDecl();
		return D->getCanonicalDecl();
	}
	int decl(const Decl *D) {
		if (!D) return -1;
		D = canon(D);
		auto it = declIds.find(D); if (it != declIds.end()) return it->second;
		int id = declList.size(); declIds[D] = id; declList.push_back(D); return id;
	}

	json::Object declJson(int id) {
		const Decl *D = declList[id]; json::Object o; o["id"] = id;
		if (auto *N = dyn_cast<NamedDecl>(D)) { o["n"] = name(N); o["qn"] = qname(N); }
		o["f"] = file(D->getLocation()); o["l"] = (int64_t)line(D->getLocation());
		if (auto *F = dyn_cast<FunctionDecl>(D)) {
			o["k"] = "fn"; o["ty"] = ty(F->getReturnType());
			if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
				o["cls"] = cls(M->getParent());
				if (M->isVirtual()) o["virt"] = 1;
				if (M->isPureVirtual()) o["pure"] = 1;
				if (M->isStatic()) o["static"] = 1;
				if (M->isConst()) o["const"] = 1;
				if (isa<CXXConstructorDecl>(M)) o["ctor"] = 1;
				if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
				o["acc"] = (int)M->getAccess();
				json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(decl(x)); if (!ov.empty()) o["ov"] = std::move(ov);
				if (M->isImplicit()) o["implicit"] = 1;
			}
			json::Array ps; for (auto *P : F->parameters()) { json::Object p; p["id"] = decl(P); p["n"] = P->getNameAsString(); p["ty"] = ty(P->getType()); if (P->hasDefaultArg()) p["def"] = 1; ps.push_back(std::move(p)); }
			o["ps"] = std::move(ps);
			if (F->isVariadic()) o["variadic"] = 1;
			if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) if (isNoexceptExceptionSpec(FPT->getExceptionSpecType()) || FPT->getExceptionSpecType() == EST_DynamicNone) o["nothrow"] = 1;
		} else if (auto *Fd = dyn_cast<FieldDecl>(D)) {
			o["k"] = "field"; o["ty"] = ty(Fd->getType()); o["cls"] = cls(dyn_cast<CXXRecordDecl>(Fd->getParent())); o["acc"] = (int)Fd->getAccess(); if (Fd->isMutable()) o["mut"] = 1;
		} else if (auto *V = dyn_cast<VarDecl>(D)) {
			o["k"] = isa<ParmVarDecl>(V) ? "parm" : "var"; o["ty"] = ty(V->getType());
			if (V->isStaticDataMember()) { o["sdm"] = 1; o["cls"] = cls(dyn_cast<CXXRecordDecl>(V->getDeclContext())); }
			if (V->isStaticLocal()) o["slocal"] = 1;
			if (V->hasGlobalStorage()) o["global"] = 1;
			if (auto *cv = evalVar(V)) o["cv"] = *cv;
		} else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
			o["k"] = "enumc"; o["cv"] = E->getInitVal().getExtValue(); o["ty"] = ty(E->getType());
		} else o["k"] = D->getDeclKindName();
		return o;
	}
	std::map<const VarDecl*, int64_t> vcache;
	int64_t *evalVar(const VarDecl *V) {
		if (!V->getType()->isIntegralOrEnumerationType() || !V->getType().isConstQualified()) return nullptr;
		const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def); if (!I || I->isValueDependent()) return nullptr;
		Expr::EvalResult R; if (!I->EvaluateAsInt(R, C)) return nullptr;
		vcache[V] = R.Val.getInt().getExtValue(); return &vcache[V];
	}

	// ---- functions
	struct FnCtx { std::map<const Stmt*, int> ids; std::vector<json::Value> st; };
	FnCtx *F = nullptr;

	int stmt(const Stmt *S) {
		if (!S) return -1;
		auto it = F->ids.find(S); if (it != F->ids.end()) return it->second;
		int id = F->st.size(); F->ids[S] = id; F->st.push_back(nullptr);
		json::Object o; o["l"] = (int64_t)line(S->getBeginLoc());
		json::Array ch;
		bool kids = true;
		if (auto *E = dyn_cast<Expr>(S)) {
			o["ty"] = ty(E->getType()); if (E->isGLValue()) o["lv"] = 1;
			if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
				Expr::EvalResult R; if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { auto &v = R.Val.getInt(); if (v.getSignificantBits() <= 64) o["cv"] = v.isUnsigned() ? (int64_t)v.getZExtValue() : v.getSExtValue(); }
			}
		}
		if (auto *D = dyn_cast<DeclRefExpr>(S)) { o["k"] = "ref"; o["d"] = decl(D->getDecl()); kids = false; }
		else if (auto *M = dyn_cast<MemberExpr>(S)) { o["k"] = "mem"; o["d"] = decl(M->getMemberDecl()); if (M->isArrow()) o["arrow"] = 1; if (M->hasQualifier()) o["qual"] = 1; }
		else if (isa<CXXThisExpr>(S)) { o["k"] = "this"; kids = false; }
		else if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
			o["k"] = "call"; auto *MD = X->getMethodDecl(); if (MD) o["d"] = decl(MD);
			o["obj"] = stmt(X->getImplicitObjectArgument());
			if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow(); if (MD && MD->isVirtual() && ME->performsVirtualDispatch(C.getLangOpts())) o["vd"] = 1; }
			else { o["callee"] = stmt(X->getCallee()); }
			for (auto *A : X->arguments()) ch.push_back(stmt(A)); kids = false;
		} else if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
			o["k"] = "call"; o["op"] = getOperatorSpelling(X->getOperator());
			auto *FD = X->getDirectCallee(); if (FD) o["d"] = decl(FD);
			auto *MD = dyn_cast_or_null<CXXMethodDecl>(FD);
			unsigned b = 0; if (MD && !MD->isStatic() && X->getNumArgs() > 0) { o["obj"] = stmt(X->getArg(0)); b = 1; if (MD->isVirtual()) o["vd"] = 1; }
			for (unsigned i = b; i < X->getNumArgs(); ++i) ch.push_back(stmt(X->getArg(i))); kids = false;
		} else if (auto *X = dyn_cast<CallExpr>(S)) {
			o["k"] = "call"; auto *FD = X->getDirectCallee(); if (FD) { o["d"] = decl(FD); if (auto *TA = FD->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : TA->asArray()) { if (a.getKind() == TemplateArgument::Type) ta.push_back(ty(a.getAsType())); else ta.push_back(nullptr); } o["ta"] = std::move(ta); } } else o["callee"] = stmt(X->getCallee());
			for (auto *A : X->arguments()) ch.push_back(stmt(A)); kids = false;
		} else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
			o["k"] = "ctor"; o["d"] = decl(X->getConstructor()); o["cls"] = cls(X->getConstructor()->getParent());
			for (auto *A : X->arguments()) ch.push_back(stmt(A)); kids = false;
		} else if (auto *X = dyn_cast<BinaryOperator>(S)) { o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); }
		else if (auto *X = dyn_cast<UnaryOperator>(S)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = 1; }
		else if (auto *X = dyn_cast<IntegerLiteral>(S)) { o["k"] = "lit"; kids = false; (void)X; }
		else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { o["k"] = "lit"; kids = false; (void)X; }
		else if (auto *X = dyn_cast<CharacterLiteral>(S)) { o["k"] = "lit"; kids = false; (void)X; }
		else if (auto *X = dyn_cast<clang::StringLiteral>(S)) { o["k"] = "str"; if (X->getCharByteWidth() == 1) { auto s = X->getBytes(); if (json::isUTF8(s)) o["v"] = s.str(); } kids = false; }
		else if (auto *X = dyn_cast<FloatingLiteral>(S)) { o["k"] = "flt"; o["v"] = X->getValueAsApproximateDouble(); kids = false; }
		else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { o["k"] = "null"; kids = false; }
		else if (auto *X = dyn_cast<CastExpr>(S)) { o["k"] = "cast"; o["ck"] = X->getCastKindName(); if (isa<ExplicitCastExpr>(S)) o["expl"] = 1; ch.push_back(stmt(X->getSubExpr())); kids = false; }
		else if (isa<ParenExpr>(S) || isa<ExprWithCleanups>(S) || isa<MaterializeTemporaryExpr>(S) || isa<CXXBindTemporaryExpr>(S) || isa<ConstantExpr>(S) || isa<SubstNonTypeTemplateParmExpr>(S)) { o["k"] = "pass"; if (isa<MaterializeTemporaryExpr>(S)) o["mat"] = 1; }
		else if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { o["k"] = "pass"; ch.push_back(stmt(X->getExpr())); kids = false; }
		else if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) { o["k"] = "pass"; ch.push_back(stmt(X->getExpr())); kids = false; }
		else if (isa<ConditionalOperator>(S)) o["k"] = "cond";
		else if (isa<ArraySubscriptExpr>(S)) o["k"] = "idx";
		else if (auto *X = dyn_cast<CXXNewExpr>(S)) { o["k"] = "new"; o["aty"] = ty(X->getAllocatedType()); if (X->isArray()) { o["arr"] = 1; auto sz = X->getArraySize(); if (sz && *sz) o["asz"] = stmt(*sz); } }
		else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { o["k"] = "delete"; if (X->isArrayForm()) o["arr"] = 1; }
		else if (auto *X = dyn_cast<DeclStmt>(S)) {
			o["k"] = "decl"; json::Array vs;
			for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { json::Object v; v["d"] = decl(V); if (V->getInit()) { v["i"] = stmt(V->getInit()); } vs.push_back(std::move(v)); }
			o["vs"] = std::move(vs); kids = false;
		} else if (isa<ReturnStmt>(S)) o["k"] = "ret";
		else if (isa<CXXThrowExpr>(S)) o["k"] = "throw";
		else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { o["k"] = "sizeof"; kids = false; (void)X; }
		else if (auto *X = dyn_cast<LambdaExpr>(S)) { o["k"] = "lambda"; o["d"] = decl(X->getCallOperator()); json::Array cp; auto ci = X->capture_init_begin(); for (auto c = X->capture_begin(); c != X->capture_end(); ++c, ++ci) { json::Object q; if (c->capturesVariable()) { q["d"] = decl(c->getCapturedVar()); q["byref"] = c->getCaptureKind() == LCK_ByRef; } else if (c->capturesThis()) q["this"] = 1; if (*ci) q["i"] = stmt(*ci); cp.push_back(std::move(q)); } o["cap"] = std::move(cp); kids = false; }
		else if (auto *X = dyn_cast<InitListExpr>(S)) { o["k"] = "init"; (void)X; }
		else if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) { o["k"] = "zero"; kids = false; }
		else if (auto *X = dyn_cast<CXXCatchStmt>(S)) { o["k"] = "catch"; if (X->getExceptionDecl()) { o["d"] = decl(X->getExceptionDecl()); o["cty"] = ty(X->getCaughtType()); } kids = false; }
		else { o["k"] = std::string(S->getStmtClassName()); if (!isa<Expr>(S)) kids = false; }
		if (kids) for (auto *c : S->children()) ch.push_back(stmt(c));
		if (!ch.empty()) o["c"] = std::move(ch);
		F->st[id] = std::move(o); return id;
	}

	static const Stmt *condOf(const CFGBlock *B) { return B->getTerminatorCondition(false); }

	json::Value fn(const FunctionDecl *FD) {
		FnCtx ctx; F = &ctx;
		json::Object o; o["id"] = decl(FD);
		o["l"] = (int64_t)line(FD->getBeginLoc()); o["le"] = (int64_t)line(FD->getEndLoc()); o["f"] = file(FD->getLocation());
		json::Array ps; for (auto *P : FD->parameters()) ps.push_back(decl(P)); o["ps"] = std::move(ps);
		CFG::BuildOptions BO; BO.AddImplicitDtors = true; BO.AddInitializers = true; BO.AddEHEdges = false; BO.AddTemporaryDtors = false; BO.AddCXXDefaultInitExprInCtors = true; BO.PruneTriviallyFalseEdges = true;
		BO.setAllAlwaysAdd();
		auto cfg = CFG::buildCFG(FD, FD->getBody(), &C, BO);
		if (!cfg) { llvm::errs() << "no CFG for " << qname(FD) << "\n"; o["nocfg"] = 1; F = nullptr; return o; }
		json::Array bl; 
		for (unsigned i = 0; i < cfg->getNumBlockIDs(); ++i) bl.push_back(nullptr);
		for (const CFGBlock *B : *cfg) {
			json::Object b; json::Array el;
			for (const CFGElement &E : *B) {
				if (auto S = E.getAs<CFGStmt>()) el.push_back(stmt(S->getStmt()));
				else if (auto I = E.getAs<CFGInitializer>()) {
					json::Object q; auto *ci = I->getInitializer(); q["k"] = "init";
					if (ci->isAnyMemberInitializer()) q["d"] = decl(ci->getAnyMember());
					else if (ci->isBaseInitializer()) q["base"] = cls(ci->getBaseClass()->getAsCXXRecordDecl());
					else if (ci->isDelegatingInitializer()) q["deleg"] = 1;
					q["i"] = stmt(ci->getInit()); q["l"] = (int64_t)line(ci->getSourceLocation()); el.push_back(std::move(q));
				} else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
					json::Object q; q["k"] = "dtor"; q["d"] = decl(D->getVarDecl()); auto *dd = D->getDestructorDecl(C); if (dd) q["fn"] = decl(dd); q["l"] = (int64_t)line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : FD->getEndLoc()); el.push_back(std::move(q));
				} else if (auto D = E.getAs<CFGMemberDtor>()) { json::Object q; q["k"] = "mdtor"; q["d"] = decl(D->getFieldDecl()); el.push_back(std::move(q)); }
				else if (auto D = E.getAs<CFGBaseDtor>()) { json::Object q; q["k"] = "bdtor"; if (auto *R = D->getBaseSpecifier()->getType()->getAsCXXRecordDecl()) { q["base"] = cls(R); if (auto *dd = R->getDestructor()) q["fn"] = decl(dd); } el.push_back(std::move(q)); }
			}
			b["e"] = std::move(el);
			json::Array su; for (auto &S : B->succs()) { auto *R = S.getReachableBlock(); su.push_back(R ? (int64_t)R->getBlockID() : (int64_t)-1); }
			b["s"] = std::move(su);
			if (auto *T = B->getTerminatorStmt()) { b["t"] = T->getStmtClassName(); b["tl"] = (int64_t)line(T->getBeginLoc()); if (auto *cd = B->getTerminatorCondition(false)) b["tc"] = stmt(cd); if (auto *bo = dyn_cast<BinaryOperator>(T)) b["top"] = bo->getOpcodeStr().str(); b["tid"] = isa<Expr>(T) ? stmt(T) : -1; }
			if (auto *L = B->getLabel()) { if (auto *CS = dyn_cast<CaseStmt>(L)) { Expr::EvalResult R; if (CS->getLHS()->EvaluateAsInt(R, C)) b["case"] = R.Val.getInt().getExtValue(); if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, C)) b["case2"] = R.Val.getInt().getExtValue(); } else if (isa<DefaultStmt>(L)) b["default"] = 1; else if (auto *CT = dyn_cast<CXXCatchStmt>(L)) { b["catch"] = CT->getExceptionDecl() ? ty(CT->getCaughtType()) : -1; } }
			if (B->hasNoReturnElement()) b["noret"] = 1;
			bl[B->getBlockID()] = std::move(b);
		}
		// blocks inside try: innermost enclosing try statement's terminator block
		o["b"] = std::move(bl); o["entry"] = (int64_t)cfg->getEntry().getBlockID(); o["exit"] = (int64_t)cfg->getExit().getBlockID();
		json::Array trs; collectTry(FD->getBody(), trs, ctx); if (!trs.empty()) o["try"] = std::move(trs);
		json::Array st; for (auto &s : ctx.st) st.push_back(std::move(s)); o["st"] = std::move(st);
		F = nullptr; return o;
	}
	void collectTry(const Stmt *S, json::Array &out, FnCtx &ctx) {
		if (!S) return;
		if (auto *T = dyn_cast<CXXTryStmt>(S)) { json::Array ids; std::set<int> s; subs(T->getTryBlock(), ctx, s); for (int i : s) ids.push_back(i); json::Object o; o["s"] = std::move(ids); o["l"] = (int64_t)line(T->getBeginLoc()); out.push_back(std::move(o)); }
		for (auto *c : S->children()) collectTry(c, out, ctx);
	}
	void subs(const Stmt *S, FnCtx &ctx, std::set<int> &o) { if (!S) return; auto it = ctx.ids.find(S); if (it != ctx.ids.end()) o.insert(it->second); for (auto *c : S->children()) subs(c, ctx, o); }

	json::Value clsJson(int id) {
		const CXXRecordDecl *R = clsList[id]; json::Object o; o["id"] = id; o["n"] = R->getNameAsString(); o["qn"] = qname(R);
		o["full"] = C.getRecordType(R).getCanonicalType().getAsString(PP);
		o["f"] = file(R->getLocation());
		bool proj = inRoot(R->getLocation());
		if (auto *D = R->getDefinition()) {
			if (!D->isDependentType()) { json::Array b; for (auto &B : D->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) b.push_back(cls(BR)); o["b"] = std::move(b); }
			if (proj && !D->isDependentType()) {
				json::Array fs, ms; for (auto *f : D->fields()) fs.push_back(decl(f)); for (auto *m : D->methods()) ms.push_back(decl(m));
				o["fs"] = std::move(fs); o["ms"] = std::move(ms); o["proj"] = 1;
				o["copyable"] = D->hasSimpleCopyConstructor() ? 1 : 0;
				json::Array en; for (auto *x : D->decls()) { if (auto *E = dyn_cast<EnumDecl>(x)) for (auto *c : E->enumerators()) en.push_back(decl(c)); if (auto *V = dyn_cast<VarDecl>(x)) en.push_back(decl(V)); } o["consts"] = std::move(en);
			}
		}
		if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) { json::Array a; for (auto &x : TS->getTemplateArgs().asArray()) { if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType())); else if (x.getKind() == TemplateArgument::Integral) { json::Object q; q["cv"] = x.getAsIntegral().getExtValue(); a.push_back(std::move(q)); } else a.push_back(nullptr); } o["ta"] = std::move(a); }
		return o;
	}
};

class V : public RecursiveASTVisitor<V> {
public:
	Ex &E; std::vector<const FunctionDecl*> fns; std::set<const FunctionDecl*> seen;
	V(Ex &E) : E(E) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && E.inRoot(R->getLocation())) E.cls(R); return true; }
	bool VisitFunctionDecl(FunctionDecl *F) {
		if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
		if (!E.inRoot(F->getLocation()) || F->isInvalidDecl()) return true;
		if (seen.insert(F->getCanonicalDecl()).second) fns.push_back(F);
		return true;
	}
};

// every member function of every class template specialisation the unit uses is instantiated, so that
// the analysed program does not depend on which members the unit happens to call
class Inst : public RecursiveASTVisitor<Inst> {
public:
	Ex &E; std::vector<FunctionDecl*> todo;
	Inst(Ex &E) : E(E) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool VisitCXXRecordDecl(CXXRecordDecl *R) {
		if (R->isDependentContext() || !R->isThisDeclarationADefinition() || !E.inRoot(R->getLocation())) return true;
		for (auto *M : R->methods()) {
			if (M->isDeleted() || M->isInvalidDecl() || M->isPureVirtual() || M->hasBody()) continue;
			auto *P = M->getTemplateInstantiationPattern(); if (!P || !P->isDefined()) continue;
			todo.push_back(M);
		}
		return true;
	}
};
class Cons : public SemaConsumer {
	Sema *S = nullptr; std::set<FunctionDecl*> tried;
public:
	void InitializeSema(Sema &s) override { S = &s; }
	void ForgetSema() override { S = nullptr; }
	// runs while the parser is still live, at the marker declaration that ends every witness unit
	bool HandleTopLevelDecl(DeclGroupRef D) override {
		if (!S || !D.isSingleDecl()) return true;
		auto *VD = dyn_cast<VarDecl>(D.getSingleDecl()); if (!VD || VD->getName() != "vp_witness_end") return true;
		ASTContext &C = S->getASTContext(); if (C.getDiagnostics().hasErrorOccurred()) return true;
		Ex E(C);
		auto &DE = C.getDiagnostics(); bool old = DE.getSuppressAllDiagnostics(); DE.setSuppressAllDiagnostics(true);
		for (int round = 0; round < 6 && S; ++round) {
			Inst I(E); I.TraverseDecl(C.getTranslationUnitDecl());
			if (I.todo.empty()) break;
			bool any = false;
			for (auto *F : I.todo) { if (F->hasBody()) continue; if (!tried.insert(F).second) continue; any = true; S->InstantiateFunctionDefinition(F->getLocation(), F, true, true); S->PerformPendingInstantiations(); }
			if (!any) break;
		}
		for (auto *F : tried) if (F->isInvalidDecl()) llvm::errs() << "note: cannot be instantiated: " << Ex::qname(F) << "\n";
		DE.setSuppressAllDiagnostics(old);
		return true;
	}
	void HandleTranslationUnit(ASTContext &C) override {
		if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "compile error\n"; return; }
		Ex E(C);
		V v(E); v.TraverseDecl(C.getTranslationUnitDecl());
		std::error_code ec; llvm::raw_fd_ostream OS(Out, ec); if (ec) { llvm::errs() << "cannot write\n"; exit(3); }
		OS << "{\"fns\":[";
		bool first = true;
		for (auto *F : v.fns) { if (!first) OS << ",\n"; first = false; OS << E.fn(F); }
		OS << "],\n\"classes\":[";
		// class/decl/type tables grow while being printed
		std::vector<json::Value> cs, ds; size_t ci = 0, di = 0;
		while (ci < E.clsList.size() || di < E.declList.size()) { while (di < E.declList.size()) ds.push_back(E.declJson(di++)); if (ci < E.clsList.size()) cs.push_back(E.clsJson(ci++)); }
		for (size_t i = 0; i < cs.size(); ++i) { if (i) OS << ",\n"; OS << cs[i]; }
		OS << "],\n\"decls\":["; for (size_t i = 0; i < ds.size(); ++i) { if (i) OS << ",\n"; OS << ds[i]; }
		OS << "],\n\"types\":["; for (size_t i = 0; i < E.tyList.size(); ++i) { if (i) OS << ",\n"; OS << E.tyList[i]; }
		OS << "]}\n";
	}
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); } };
}
int main(int argc, const char **argv) {
	auto P = tooling::CommonOptionsParser::create(argc, argv, Cat); if (!P) { llvm::errs() << P.takeError(); return 3; }
	tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
	return T.run(tooling::newFrontendActionFactory<Act>().get());
}
