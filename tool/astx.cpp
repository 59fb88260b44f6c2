/* astx: mechanical extraction of the functions of one translation unit of /repo/src.

   Usage: astx SOURCE ROOTDIR -- clang flags...

   Prints one JSON object: types, records, vars, functions.  A function's body is emitted when its
   definition lies under ROOTDIR (functions of the main file and of the headers it includes, and everything
   they reach by template instantiation); everything else is emitted as a declaration only.  The tree that is
   emitted is clang's own type-checked tree: implicit conversions, overload resolution, default
   arguments and default member initialisers have all been made explicit by the compiler front end.
   What is dropped: comments, source positions below line granularity, parentheses, attributes, and
   constant expressions are replaced by the value the front end computes for them. */

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string rootdir;

struct Emitter {
	ASTContext& C;
	SourceManager& SM;
	std::unique_ptr<MangleContext> MC;
	Array types, functions, vars, records;
	std::map<std::string, int> typeIds;
	std::map<const FunctionDecl*, std::string> funcKeys;
	std::map<const VarDecl*, int> varIds;
	std::map<const CXXRecordDecl*, std::string> recKeys;
	std::set<std::string> seenKeys;
	std::deque<const FunctionDecl*> work;
	std::deque<const CXXRecordDecl*> recwork;
	const FunctionDecl* current = nullptr;

	Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}

	bool inRepo(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto f = SM.getFilename(l);
		return f.startswith(rootdir) || SM.getFileID(l) == SM.getMainFileID();
	}
	int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
	std::string file(SourceLocation l) {
		auto f = SM.getFilename(SM.getExpansionLoc(l)).str();
		if (f.rfind(rootdir, 0) == 0) f = f.substr(rootdir.size());
		return f;
	}

	std::string qname(const NamedDecl* d) {
		std::string s = d->getQualifiedNameAsString();
		for (const char* x : {"__cxx11::", "__1::", "std::_V2::"}) {
			std::string n = x, r = "";
			if (n == "std::_V2::") r = "std::";
			size_t p;
			while ((p = s.find(n)) != std::string::npos) s.replace(p, n.size(), r);
		}
		return s;
	}

	int addType(Object o) {
		std::string s;
		llvm::raw_string_ostream os(s);
		os << Value(Object(o));
		os.flush();
		auto i = typeIds.find(s);
		if (i != typeIds.end()) return i->second;
		int id = types.size();
		typeIds[s] = id;
		types.push_back(std::move(o));
		return id;
	}

	Array targs(llvm::ArrayRef<TemplateArgument> as) {
		Array r;
		for (auto& a : as) {
			switch (a.getKind()) {
			case TemplateArgument::Type: r.push_back(tid(a.getAsType())); break;
			case TemplateArgument::Integral: r.push_back(llvm::toString(a.getAsIntegral(), 10)); break;
			case TemplateArgument::Pack: for (auto& v : targs(a.pack_elements())) r.push_back(v); break;
			default: r.push_back("?");
			}
		}
		return r;
	}

	int tid(QualType q) {
		q = q.getCanonicalType();
		const Type* t = q.getTypePtr();
		Object o;
		if (auto r = dyn_cast<ReferenceType>(t)) {
			o["k"] = "ref"; o["p"] = tid(r->getPointeeType()); o["rv"] = isa<RValueReferenceType>(r);
			o["c"] = r->getPointeeType().isConstQualified();
		} else if (auto p = dyn_cast<PointerType>(t)) {
			o["k"] = "ptr"; o["p"] = tid(p->getPointeeType());
		} else if (auto a = dyn_cast<ConstantArrayType>(t)) {
			o["k"] = "array"; o["e"] = tid(a->getElementType()); o["n"] = (int64_t) a->getSize().getZExtValue();
		} else if (auto a = dyn_cast<ArrayType>(t)) {
			o["k"] = "array"; o["e"] = tid(a->getElementType()); o["n"] = -1;
		} else if (auto e = dyn_cast<EnumType>(t)) {
			o["k"] = "enum"; o["n"] = qname(e->getDecl());
			auto it = e->getDecl()->getIntegerType();
			if (!it.isNull()) { o["w"] = (int64_t) C.getTypeSize(it); o["s"] = it->isSignedIntegerType(); }
			Array cs;
			if (e->getDecl()->getDefinition() && inRepo(e->getDecl()->getDefinition()->getLocation()))
				for (auto ec : e->getDecl()->getDefinition()->enumerators())
					cs.push_back(Array{ec->getNameAsString(), llvm::toString(ec->getInitVal(), 10)});
			o["cs"] = std::move(cs);
		} else if (auto b = dyn_cast<BuiltinType>(t)) {
			if (b->isBooleanType()) { o["k"] = "bool"; }
			else if (b->isVoidType()) { o["k"] = "void"; }
			else if (b->isNullPtrType()) { o["k"] = "nullptr"; }
			else if (b->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int64_t) C.getTypeSize(t); }
			else if (b->isInteger()) { o["k"] = "int"; o["w"] = (int64_t) C.getTypeSize(t); o["s"] = b->isSignedInteger();
				o["n"] = b->getName(C.getPrintingPolicy()).str(); }
			else { o["k"] = "other"; o["n"] = b->getName(C.getPrintingPolicy()).str(); }
		} else if (auto r = dyn_cast<RecordType>(t)) {
			auto d = r->getDecl();
			o["k"] = "rec"; o["n"] = qname(d);
			if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(d)) o["a"] = targs(s->getTemplateArgs().asArray());
			if (auto cd = dyn_cast<CXXRecordDecl>(d)) {
				if (cd->isLambda()) o["n"] = "lambda@" + file(cd->getLocation()) + ":" + std::to_string(line(cd->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(cd->getLocation()));
				else if (auto def = cd->getDefinition()) if (inRepo(def->getLocation())) o["r"] = recKey(def);
			}
		} else if (auto f = dyn_cast<FunctionProtoType>(t)) {
			o["k"] = "func"; o["r"] = tid(f->getReturnType());
			Array ps; for (auto p : f->param_types()) ps.push_back(tid(p));
			o["ps"] = std::move(ps);
		} else if (auto m = dyn_cast<MemberPointerType>(t)) {
			o["k"] = "mptr"; o["p"] = tid(m->getPointeeType());
		} else {
			o["k"] = "other"; o["n"] = q.getAsString();
		}
		return addType(std::move(o));
	}

	std::string recKey(const CXXRecordDecl* d) {
		d = d->getDefinition() ? d->getDefinition() : d;
		auto i = recKeys.find(d);
		if (i != recKeys.end()) return i->second;
		std::string s;
		llvm::raw_string_ostream os(s);
		auto pp = C.getPrintingPolicy();
		pp.SuppressTagKeyword = true;
		pp.FullyQualifiedName = true;
		C.getRecordType(d).getCanonicalType().print(os, pp);
		os.flush();
		recKeys[d] = s;
		recwork.push_back(d);
		return s;
	}

	std::string key(const FunctionDecl* f) {
		if (auto d = f->getDefinition()) f = d; else f = f->getCanonicalDecl();
		auto i = funcKeys.find(f);
		if (i != funcKeys.end()) return i->second;
		std::string s;
		llvm::raw_string_ostream os(s);
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
		else if (auto d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
		else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
		else os << f->getNameAsString();
		os.flush();
		if (f->isStatic() && f->getDeclContext()->isFileContext()) s += "@" + file(f->getLocation());
		if (f->isInAnonymousNamespace()) s += "@" + file(f->getLocation());
		funcKeys[f] = s;
		work.push_back(f);
		return s;
	}

	Object localVar(const VarDecl* v) {
		Object o;
		o["id"] = vid(v); o["n"] = v->getNameAsString(); o["t"] = tid(v->getType());
		return o;
	}

	int vid(const VarDecl* v) {
		v = v->getCanonicalDecl();
		if (auto d = v->getDefinition()) v = d;
		auto i = varIds.find(v);
		if (i != varIds.end()) return i->second;
		int id = varIds.size();
		varIds[v] = id;
		if (v->hasGlobalStorage()) {
			Object o;
			o["id"] = id; o["n"] = qname(v); o["t"] = tid(v->getType()); o["global"] = true;
			o["static_local"] = v->isStaticLocal();
			o["key"] = (v->isStaticLocal() || v->getFormalLinkage() == Linkage::Internal)
				? qname(v) + "@" + file(v->getLocation()) + ":" + std::to_string(line(v->getLocation())) : qname(v);
			o["repo"] = inRepo(v->getLocation());
			if (inRepo(v->getLocation()) && v->getAnyInitializer()) o["init"] = ex(v->getAnyInitializer());
			vars.push_back(std::move(o));
		}
		return id;
	}

	// ---- expressions
	Object mk(const char* k, const Expr* e) {
		Object o; o["k"] = k; o["t"] = tid(e->getType());
		return o;
	}

	Value exOpt(const Expr* e) { if (!e) return nullptr; return ex(e); }

	std::string fltstr(const llvm::APFloat& f) {
		llvm::APFloat g = f;
		bool lose;
		g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
		char buf[64];
		snprintf(buf, sizeof buf, "%a", g.convertToDouble());
		return buf;
	}

	Array args(llvm::ArrayRef<const Expr*> as) { Array r; for (auto a : as) r.push_back(ex(a)); return r; }
	template <class R> Array argsR(R as) { Array r; for (auto a : as) r.push_back(ex(a)); return r; }

	Value ex(const Expr* e) {
		e = e->IgnoreParens();
		// constant folding by the front end
		if (e->isPRValue() && !e->isValueDependent() && !isa<InitListExpr>(e)) {
			auto ty = e->getType();
			if (ty->isIntegralOrEnumerationType() && !isa<CXXThrowExpr>(e)) {
				Expr::EvalResult r;
				if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects && !r.HasUndefinedBehavior) {
					Object o = mk("int", e);
					o["v"] = llvm::toString(r.Val.getInt(), 10);
					return o;
				}
			} else if (ty->isRealFloatingType()) {
				llvm::APFloat f(0.0);
				if (e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)) {
					Object o = mk("flt", e);
					o["v"] = fltstr(f);
					return o;
				}
			}
		}
		switch (e->getStmtClass()) {
		case Stmt::ConstantExprClass: return ex(cast<ConstantExpr>(e)->getSubExpr());
		case Stmt::ExprWithCleanupsClass: {
			Object o = mk("cleanups", e); o["e"] = ex(cast<ExprWithCleanups>(e)->getSubExpr()); return o;
		}
		case Stmt::MaterializeTemporaryExprClass: {
			auto m = cast<MaterializeTemporaryExpr>(e);
			Object o = mk("mat", e); o["e"] = ex(m->getSubExpr());
			o["ext"] = m->getExtendingDecl() != nullptr;
			return o;
		}
		case Stmt::CXXBindTemporaryExprClass: {
			Object o = mk("bind", e); o["e"] = ex(cast<CXXBindTemporaryExpr>(e)->getSubExpr()); return o;
		}
		case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
		case Stmt::CXXDefaultArgExprClass: return ex(cast<CXXDefaultArgExpr>(e)->getExpr());
		case Stmt::CXXDefaultInitExprClass: { Object o = mk("definit", e); o["e"] = ex(cast<CXXDefaultInitExpr>(e)->getExpr()); return o; }
		case Stmt::CXXStdInitializerListExprClass: {
			Object o = mk("initlist", e); o["e"] = ex(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return o;
		}
		case Stmt::StringLiteralClass: {
			auto s = cast<StringLiteral>(e);
			Object o = mk("str", e);
			Array b;
			for (unsigned i = 0; i < s->getLength(); ++i) b.push_back((int64_t) s->getCodeUnit(i));
			o["v"] = std::move(b);
			return o;
		}
		case Stmt::PredefinedExprClass: { Object o = mk("str", e); o["v"] = Array(); return o; }
		case Stmt::CXXNullPtrLiteralExprClass:
		case Stmt::GNUNullExprClass: return mk("null", e);
		case Stmt::CXXThisExprClass: return mk("this", e);
		case Stmt::DeclRefExprClass: {
			auto d = cast<DeclRefExpr>(e);
			if (auto v = dyn_cast<VarDecl>(d->getDecl())) {
				Object o = mk("var", e); o["id"] = vid(v); o["n"] = v->getNameAsString();
				o["g"] = v->hasGlobalStorage();
				return o;
			}
			if (auto f = dyn_cast<FunctionDecl>(d->getDecl())) {
				Object o = mk("fn", e); o["f"] = key(f); o["n"] = qname(f); return o;
			}
			if (auto f = dyn_cast<FieldDecl>(d->getDecl())) {
				Object o = mk("fieldref", e); o["n"] = f->getNameAsString(); return o;
			}
			Object o = mk("unsup", e); o["w"] = "declref"; return o;
		}
		case Stmt::MemberExprClass: {
			auto m = cast<MemberExpr>(e);
			if (auto v = dyn_cast<VarDecl>(m->getMemberDecl())) {
				Object o = mk("var", e); o["id"] = vid(v); o["n"] = v->getNameAsString(); o["g"] = true; return o;
			}
			Object o = mk("member", e);
			o["arrow"] = m->isArrow();
			o["e"] = ex(m->getBase());
			o["n"] = m->getMemberDecl()->getNameAsString();
			if (auto f = dyn_cast<CXXMethodDecl>(m->getMemberDecl())) o["f"] = key(f);
			else if (auto f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
				o["cls"] = qname(f->getParent());
			}
			return o;
		}
		case Stmt::CXXMemberCallExprClass: {
			auto c = cast<CXXMemberCallExpr>(e);
			Object o = mk("mcall", e);
			o["l"] = line(e->getBeginLoc());
			auto md = c->getMethodDecl();
			if (!md) { o["k"] = "unsup"; o["w"] = "member pointer call"; return o; }
			o["f"] = key(md); o["n"] = qname(md);
			auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
			o["arrow"] = me && me->isArrow();
			o["virt"] = md->isVirtual() && !(me && me->hasQualifier());
			o["this"] = ex(c->getImplicitObjectArgument());
			o["args"] = args(llvm::ArrayRef(c->getArgs(), c->getNumArgs()));
			return o;
		}
		case Stmt::CXXOperatorCallExprClass:
		case Stmt::UserDefinedLiteralClass:
		case Stmt::CallExprClass: {
			auto c = cast<CallExpr>(e);
			Object o = mk("call", e);
			o["l"] = line(e->getBeginLoc());
			if (auto f = c->getDirectCallee()) {
				o["f"] = key(f); o["n"] = qname(f);
				if (auto oc = dyn_cast<CXXOperatorCallExpr>(e)) {
					o["op"] = getOperatorSpelling(oc->getOperator());
					if (auto md = dyn_cast<CXXMethodDecl>(f)) { o["meth"] = !md->isStatic(); o["virt"] = md->isVirtual(); }
				}
				if (auto md = dyn_cast<CXXMethodDecl>(f)) if (md->isStatic()) o["static"] = true;
				if (f->getPrimaryTemplate() && f->getTemplateSpecializationArgs()) o["ta"] = targs(f->getTemplateSpecializationArgs()->asArray());
			} else {
				o["callee"] = ex(c->getCallee());
			}
			o["args"] = args(llvm::ArrayRef(c->getArgs(), c->getNumArgs()));
			return o;
		}
		case Stmt::CXXTemporaryObjectExprClass:
		case Stmt::CXXConstructExprClass: {
			auto c = cast<CXXConstructExpr>(e);
			Object o = mk("construct", e);
			o["l"] = line(e->getBeginLoc());
			o["f"] = key(c->getConstructor()); o["n"] = qname(c->getConstructor());
			auto cd = c->getConstructor();
			o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() && c->getNumArgs() == 0 ? "default" : "other";
			o["elid"] = c->isElidable();
			o["zero"] = c->requiresZeroInitialization();
			o["il"] = c->isListInitialization();
			o["args"] = args(llvm::ArrayRef(c->getArgs(), c->getNumArgs()));
			return o;
		}
		case Stmt::CXXInheritedCtorInitExprClass: { Object o = mk("unsup", e); o["w"] = "inherited ctor"; return o; }
		case Stmt::ImplicitCastExprClass:
		case Stmt::CStyleCastExprClass:
		case Stmt::CXXStaticCastExprClass:
		case Stmt::CXXReinterpretCastExprClass:
		case Stmt::CXXConstCastExprClass:
		case Stmt::CXXDynamicCastExprClass:
		case Stmt::CXXFunctionalCastExprClass: {
			auto c = cast<CastExpr>(e);
			Object o = mk("cast", e);
			o["ck"] = c->getCastKindName();
			o["exp"] = !isa<ImplicitCastExpr>(e);
			o["e"] = ex(c->getSubExpr());
			if (!isa<ImplicitCastExpr>(e)) o["l"] = line(e->getBeginLoc());
			if (c->getCastKind() == CK_UncheckedDerivedToBase || c->getCastKind() == CK_DerivedToBase || c->getCastKind() == CK_BaseToDerived) {
				Array p;
				for (auto b : c->path()) p.push_back(tid(b->getType()));
				o["path"] = std::move(p);
			}
			return o;
		}
		case Stmt::CompoundAssignOperatorClass: {
			auto b = cast<CompoundAssignOperator>(e);
			Object o = mk("cassign", e);
			o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
			o["ct"] = tid(b->getComputationResultType());
			o["lt"] = tid(b->getComputationLHSType());
			o["a"] = ex(b->getLHS()); o["b"] = ex(b->getRHS());
			o["l"] = line(b->getOperatorLoc());
			return o;
		}
		case Stmt::BinaryOperatorClass: {
			auto b = cast<BinaryOperator>(e);
			Object o = mk(b->isAssignmentOp() ? "assign" : "bin", e);
			o["op"] = b->getOpcodeStr().str();
			o["a"] = ex(b->getLHS()); o["b"] = ex(b->getRHS());
			o["l"] = line(b->getOperatorLoc());
			return o;
		}
		case Stmt::UnaryOperatorClass: {
			auto u = cast<UnaryOperator>(e);
			Object o = mk("un", e);
			o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
			if (u->getOpcode() == UO_PostInc || u->getOpcode() == UO_PostDec) o["post"] = true;
			o["e"] = ex(u->getSubExpr());
			o["l"] = line(u->getOperatorLoc());
			return o;
		}
		case Stmt::ConditionalOperatorClass: {
			auto c = cast<ConditionalOperator>(e);
			Object o = mk("cond", e);
			o["c"] = ex(c->getCond()); o["a"] = ex(c->getTrueExpr()); o["b"] = ex(c->getFalseExpr());
			return o;
		}
		case Stmt::ArraySubscriptExprClass: {
			auto a = cast<ArraySubscriptExpr>(e);
			Object o = mk("index", e);
			o["a"] = ex(a->getBase()); o["b"] = ex(a->getIdx());
			o["l"] = line(e->getBeginLoc());
			return o;
		}
		case Stmt::InitListExprClass: {
			auto i = cast<InitListExpr>(e);
			if (i->isSyntacticForm() && i->getSemanticForm()) i = i->getSemanticForm();
			Object o = mk("init", e);
			if (i->isTransparent() && i->getNumInits() == 1) return ex(i->getInit(0));
			o["es"] = args(llvm::ArrayRef(i->getInits(), i->getNumInits()));
			if (i->hasArrayFiller()) o["filler"] = ex(i->getArrayFiller());
			return o;
		}
		case Stmt::ImplicitValueInitExprClass:
		case Stmt::CXXScalarValueInitExprClass: return mk("zero", e);
		case Stmt::LambdaExprClass: {
			auto l = cast<LambdaExpr>(e);
			Object o = mk("lambda", e);
			Array caps;
			auto init = l->capture_init_begin();
			for (auto& c : l->captures()) {
				Object k;
				if (c.capturesThis()) k["this"] = true;
				else if (c.capturesVariable()) {
					if (auto v = dyn_cast<VarDecl>(c.getCapturedVar())) { k["id"] = vid(v); k["n"] = v->getNameAsString(); }
					k["ref"] = c.getCaptureKind() == LCK_ByRef;
				}
				if (*init) k["e"] = ex(*init);
				++init;
				caps.push_back(std::move(k));
			}
			o["caps"] = std::move(caps);
			Array ps;
			for (auto p : l->getCallOperator()->parameters()) ps.push_back(localVar(p));
			o["params"] = std::move(ps);
			o["ret"] = tid(l->getCallOperator()->getReturnType());
			o["body"] = st(l->getBody());
			o["l"] = line(e->getBeginLoc());
			o["mut"] = l->isMutable();
			return o;
		}
		case Stmt::CXXThrowExprClass: {
			Object o = mk("throw", e);
			o["e"] = exOpt(cast<CXXThrowExpr>(e)->getSubExpr());
			o["l"] = line(e->getBeginLoc());
			return o;
		}
		case Stmt::CXXNewExprClass: {
			auto n = cast<CXXNewExpr>(e);
			Object o = mk("new", e);
			o["at"] = tid(n->getAllocatedType());
			o["array"] = n->isArray();
			if (n->isArray() && n->getArraySize()) o["size"] = ex(*n->getArraySize());
			o["init"] = exOpt(n->getInitializer());
			o["l"] = line(e->getBeginLoc());
			return o;
		}
		case Stmt::CXXDeleteExprClass: {
			auto n = cast<CXXDeleteExpr>(e);
			Object o = mk("delete", e);
			o["array"] = n->isArrayForm();
			o["e"] = ex(n->getArgument());
			o["l"] = line(e->getBeginLoc());
			return o;
		}
		case Stmt::UnaryExprOrTypeTraitExprClass: break;
		default: break;
		}
		Object o = mk("unsup", e);
		o["w"] = e->getStmtClassName();
		o["l"] = line(e->getBeginLoc());
		return o;
	}

	// ---- statements
	Value stOpt(const Stmt* s) { if (!s) return nullptr; return st(s); }

	Object declVar(const VarDecl* v) {
		Object o = localVar(v);
		if (v->hasGlobalStorage()) o["static"] = true;
		o["init"] = exOpt(v->getInit());
		o["l"] = line(v->getLocation());
		return o;
	}

	Value st(const Stmt* s) {
		Object o;
		o["l"] = line(s->getBeginLoc());
		if (auto e = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = ex(e); return o; }
		switch (s->getStmtClass()) {
		case Stmt::CompoundStmtClass: {
			Array b; for (auto c : cast<CompoundStmt>(s)->body()) b.push_back(st(c));
			o["k"] = "block"; o["b"] = std::move(b); return o;
		}
		case Stmt::NullStmtClass: o["k"] = "nop"; return o;
		case Stmt::DeclStmtClass: {
			Array ds;
			for (auto d : cast<DeclStmt>(s)->decls())
				if (auto v = dyn_cast<VarDecl>(d)) ds.push_back(declVar(v));
			o["k"] = "decl"; o["ds"] = std::move(ds); return o;
		}
		case Stmt::IfStmtClass: {
			auto i = cast<IfStmt>(s);
			o["k"] = "if";
			if (i->getInit()) o["init"] = st(i->getInit());
			if (auto v = i->getConditionVariable()) o["cv"] = declVar(v);
			o["c"] = ex(i->getCond()); o["a"] = st(i->getThen()); o["b"] = stOpt(i->getElse());
			return o;
		}
		case Stmt::ForStmtClass: {
			auto f = cast<ForStmt>(s);
			o["k"] = "for"; o["init"] = stOpt(f->getInit()); o["c"] = exOpt(f->getCond()); o["inc"] = exOpt(f->getInc()); o["b"] = st(f->getBody());
			return o;
		}
		case Stmt::WhileStmtClass: {
			auto f = cast<WhileStmt>(s);
			o["k"] = "while"; o["c"] = ex(f->getCond()); o["b"] = st(f->getBody());
			if (auto v = f->getConditionVariable()) o["cv"] = declVar(v);
			return o;
		}
		case Stmt::DoStmtClass: {
			auto f = cast<DoStmt>(s);
			o["k"] = "do"; o["c"] = ex(f->getCond()); o["b"] = st(f->getBody());
			return o;
		}
		case Stmt::CXXForRangeStmtClass: {
			auto f = cast<CXXForRangeStmt>(s);
			o["k"] = "forrange";
			o["range"] = ex(f->getRangeInit());
			auto v = f->getLoopVariable();
			o["var"] = localVar(v);
			o["varinit"] = exOpt(v->getInit());
			if (auto bs = f->getBeginStmt()) {
				if (auto bv = dyn_cast<VarDecl>(bs->getSingleDecl())) { o["bid"] = vid(bv); o["bt"] = tid(bv->getType()); }
			}
			o["b"] = st(f->getBody());
			return o;
		}
		case Stmt::ReturnStmtClass: o["k"] = "return"; o["e"] = exOpt(cast<ReturnStmt>(s)->getRetValue()); return o;
		case Stmt::BreakStmtClass: o["k"] = "break"; return o;
		case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
		case Stmt::SwitchStmtClass: {
			auto w = cast<SwitchStmt>(s);
			o["k"] = "switch"; o["c"] = ex(w->getCond()); o["b"] = st(w->getBody());
			if (auto v = w->getConditionVariable()) o["cv"] = declVar(v);
			return o;
		}
		case Stmt::CaseStmtClass: {
			auto c = cast<CaseStmt>(s);
			o["k"] = "case"; o["v"] = ex(c->getLHS());
			if (c->getRHS()) o["v2"] = ex(c->getRHS());
			o["b"] = stOpt(c->getSubStmt());
			return o;
		}
		case Stmt::DefaultStmtClass: o["k"] = "default"; o["b"] = stOpt(cast<DefaultStmt>(s)->getSubStmt()); return o;
		case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(s)->getSubStmt());
		case Stmt::CXXTryStmtClass: {
			auto t = cast<CXXTryStmt>(s);
			o["k"] = "try"; o["b"] = st(t->getTryBlock());
			Array hs;
			for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
				auto h = t->getHandler(i);
				Object ho;
				if (auto v = h->getExceptionDecl()) { ho["var"] = localVar(v); ho["t"] = tid(h->getCaughtType().getNonReferenceType()); }
				ho["b"] = st(h->getHandlerBlock());
				hs.push_back(std::move(ho));
			}
			o["hs"] = std::move(hs);
			return o;
		}
		default: o["k"] = "unsup"; o["w"] = s->getStmtClassName(); return o;
		}
	}

	void emitFunction(const FunctionDecl* f) {
		std::string k = key(f);
		if (!seenKeys.insert(k).second) return;
		if (auto d = f->getDefinition()) f = d;
		Object o;
		o["key"] = k; o["n"] = qname(f); o["ret"] = tid(f->getReturnType());
		o["file"] = file(f->getLocation()); o["l"] = line(f->getLocation());
		bool repo = inRepo(f->getLocation());
		o["repo"] = repo;
		Array ps;
		for (auto p : f->parameters()) {
			auto v = localVar(p);
			if (repo && !f->isDependentContext() && p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) {
				v["def"] = ex(p->getDefaultArg());
			}
			ps.push_back(std::move(v));
		}
		o["params"] = std::move(ps);
		if (f->getTemplateSpecializationArgs()) o["ta"] = targs(f->getTemplateSpecializationArgs()->asArray());
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = tid(C.getRecordType(m->getParent()));
			o["static"] = m->isStatic();
			o["const"] = m->isConst();
			o["virt"] = m->isVirtual();
			Array ov;
			for (auto x : m->overridden_methods()) ov.push_back(key(x));
			o["ov"] = std::move(ov);
		}
		o["fk"] = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "method" : "fn";
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
		if (auto c = dyn_cast<CXXMethodDecl>(f)) { if (c->isCopyAssignmentOperator()) o["ca"] = "copy"; if (c->isMoveAssignmentOperator()) o["ca"] = "move"; }
		o["defaulted"] = f->isDefaulted();
		o["implicit"] = f->isImplicit();
		o["variadic"] = f->isVariadic();
		const FunctionDecl* def = nullptr;
		if (repo && f->hasBody(def) && !f->isDependentContext()) {
			current = def;
			if (auto c = dyn_cast<CXXConstructorDecl>(def)) {
				Array is;
				for (auto i : c->inits()) {
					Object io;
					if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
					else if (i->isBaseInitializer()) io["base"] = tid(QualType(i->getBaseClass(), 0));
					else io["deleg"] = true;
					io["e"] = ex(i->getInit());
					io["written"] = i->isWritten();
					is.push_back(std::move(io));
				}
				o["inits"] = std::move(is);
			}
			if (!(f->isDefaulted() && !f->isUserProvided()) || isa<CXXConstructorDecl>(def)) o["body"] = st(def->getBody());
		}
		functions.push_back(std::move(o));
	}

	void emitRecord(const CXXRecordDecl* d) {
		Object o;
		o["key"] = recKeys[d]; o["n"] = qname(d);
		o["file"] = file(d->getLocation()); o["l"] = line(d->getLocation());
		o["union"] = d->isUnion();
		Array fs, bs, vm;
		for (auto f : d->fields()) {
			Object fo;
			fo["n"] = f->getNameAsString(); fo["t"] = tid(f->getType());
			if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
			fs.push_back(std::move(fo));
		}
		for (auto& b : d->bases()) bs.push_back(tid(b.getType()));
		for (auto m : d->methods()) if (m->isVirtual()) vm.push_back(key(m));
		if (auto dt = d->getDestructor()) if (dt->isUserProvided()) o["dtor"] = key(dt);
		o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["vm"] = std::move(vm);
		records.push_back(std::move(o));
	}
};

struct Roots : RecursiveASTVisitor<Roots> {
	Emitter& E; FileID main;
	Roots(Emitter& e) : E(e), main(e.SM.getMainFileID()) {}
	bool VisitFunctionDecl(FunctionDecl* f) {
		if (f->isThisDeclarationADefinition() && !f->isDependentContext() && !f->isImplicit()) {
			auto l = E.SM.getExpansionLoc(f->getLocation());
			if (E.inRepo(l) || E.SM.getFileID(l) == main) {
				auto m = dyn_cast<CXXMethodDecl>(f);
				if (!(m && m->getParent()->isLambda())) E.key(f);
			}
		}
		return true;
	}
	bool shouldVisitTemplateInstantiations() const { return false; }
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext& C) override {
		if (C.getDiagnostics().hasErrorOccurred()) return;
		Emitter E(C);
		Roots R(E);
		R.TraverseDecl(C.getTranslationUnitDecl());
		while (!E.work.empty() || !E.recwork.empty()) {
			if (!E.work.empty()) { auto f = E.work.front(); E.work.pop_front(); E.emitFunction(f); }
			else { auto r = E.recwork.front(); E.recwork.pop_front(); E.emitRecord(r); }
		}
		Object o;
		o["types"] = std::move(E.types); o["records"] = std::move(E.records);
		o["vars"] = std::move(E.vars); o["functions"] = std::move(E.functions);
		llvm::outs() << Value(std::move(o)) << "\n";
	}
};

struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	std::string src = argv[1];
	rootdir = argv[2];
	std::vector<std::string> flags;
	for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
