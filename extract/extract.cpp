// Extracts a typed, desugared AST (JSON) of every function with a body that belongs to the
// target namespaces (and lambdas in them), template instantiations included.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <cstring>
using namespace clang;
namespace json = llvm::json;
static std::string OutFile, RootDir;

struct Ex
{
	ASTContext& C; SourceManager& SM; std::unique_ptr<MangleContext> MC;
	json::Object types, records, funcs, globals;
	std::map<const Type*, std::string> tid; std::map<std::string,int> tnames;
	std::set<const FunctionDecl*> done; std::vector<const FunctionDecl*> queue;
	std::map<const ValueDecl*, int> ids; int nextid = 1;
	const FunctionDecl* cur = nullptr;

	Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}

	bool inTarget(const Decl* d)
	{
		auto loc = SM.getExpansionLoc(d->getLocation());
		if(loc.isInvalid()) return false;
		auto f = SM.getFilename(loc);
		llvm::StringRef r = RootDir;
		while(!r.empty()) { auto p = r.split(':'); if(f.starts_with(p.first)) return true; r = p.second; }
		return false;
	}
	std::string qn(const Decl* d)
	{
		const NamedDecl* nd = dyn_cast<NamedDecl>(d);
		std::string s = nd ? nd->getNameAsString() : "";
		if(auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(d); cs && inTarget(cs))
			s += targs(cs->getTemplateArgs());
		if(auto* rd = dyn_cast<CXXRecordDecl>(d); rd && rd->isLambda())
			s = "lambda" + std::to_string(SM.getExpansionLineNumber(rd->getLocation())) + "_" + std::to_string(SM.getExpansionColumnNumber(rd->getLocation()));
		else if(auto* rd = dyn_cast<CXXRecordDecl>(d); rd && s.empty())
			s = "anon" + std::to_string(SM.getExpansionLineNumber(rd->getLocation()));
		if(isa<CXXConstructorDecl>(d)) s = "#ctor";
		if(isa<CXXDestructorDecl>(d)) s = "#dtor";
		const DeclContext* dc = d->getDeclContext();
		while(dc && !dc->isTranslationUnit())
		{
			if(auto* ns = dyn_cast<NamespaceDecl>(dc))
			{ if(ns->isInline() || ns->isAnonymousNamespace()) { dc = dc->getParent(); continue; } return qn(ns) + "::" + s; }
			if(auto* r = dyn_cast<CXXRecordDecl>(dc)) return qn(r) + "::" + s;
			if(auto* f = dyn_cast<FunctionDecl>(dc)) return qn(f) + "::" + s;
			dc = dc->getParent();
		}
		return s;
	}
	std::string targs(const TemplateArgumentList& l)
	{
		std::string s = "<"; bool first = true;
		for(auto& a : l.asArray())
		{
			if(!first) s += ","; first = false;
			if(a.getKind() == TemplateArgument::Type) s += tname(a.getAsType());
			else if(a.getKind() == TemplateArgument::Integral) { llvm::SmallString<16> t; a.getAsIntegral().toString(t); s += t.c_str(); }
			else s += "?";
		}
		return s + ">";
	}
	std::string tname(QualType q)
	{
		q = q.getCanonicalType().getUnqualifiedType();
		if(auto* rt = q->getAs<RecordType>()) { std::string s = qn(rt->getDecl());
			if(auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl()); cs && !inTarget(cs)) s += targs(cs->getTemplateArgs());
			return s; }
		PrintingPolicy pp(C.getLangOpts());
		return q.getAsString(pp);
	}
	std::string ty(QualType q0)
	{
		QualType q = q0.getCanonicalType(); bool cst = q.isConstQualified(); q = q.getUnqualifiedType();
		const Type* t = q.getTypePtr();
		auto it = tid.find(t); if(it != tid.end()) return it->second;
		json::Object o; std::string id;
		if(q->isDependentType()) { tid[t] = "?dep"; return "?dep"; }
		if(q->isBooleanType()) { id = "bool"; o["k"] = "bool"; }
		else if(q->isVoidType()) { id = "void"; o["k"] = "void"; }
		else if(auto* et = q->getAs<EnumType>()) {
			id = "enum " + qn(et->getDecl()); o["k"] = "enum";
			QualType u = et->getDecl()->getIntegerType();
			if(u.isNull()) { o["w"] = 32; o["s"] = false; } else { o["w"] = (int64_t)C.getTypeSize(u); o["s"] = u->isSignedIntegerType(); }
		}
		else if(q->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(q); o["s"] = q->isSignedIntegerType(); id = tname(q); }
		else if(q->isFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(q); id = tname(q); }
		else if(q->isMemberPointerType()) { o["k"] = "memptr"; id = q.getAsString(); }
		else if(q->isNullPtrType()) { o["k"] = "ptr"; o["to"] = "void"; id = "nullptr_t"; }
		else if(auto* p = q->getAs<PointerType>()) { std::string to = ty(p->getPointeeType()); bool c = p->getPointeeType().isConstQualified(); id = (c ? "const " : "") + to + "*"; o["k"] = "ptr"; o["to"] = to; o["c"] = c; }
		else if(auto* p = q->getAs<ReferenceType>()) { std::string to = ty(p->getPointeeType()); bool c = p->getPointeeType().isConstQualified(); bool rv = q->isRValueReferenceType(); id = (c ? "const " : "") + to + (rv ? "&&" : "&"); o["k"] = "ref"; o["to"] = to; o["c"] = c; o["rv"] = rv; }
		else if(auto* at = C.getAsConstantArrayType(q)) { std::string of = ty(at->getElementType()); int64_t n = at->getSize().getZExtValue(); id = of + "[" + std::to_string(n) + "]"; o["k"] = "arr"; o["of"] = of; o["n"] = n; }
		else if(q->isFunctionType()) { o["k"] = "fn"; id = q.getAsString(); }
		else if(auto* rt = q->getAs<RecordType>()) {
			id = tname(q); o["k"] = "rec"; tid[t] = id; o["name"] = id; types[id] = std::move(o); rec(rt->getDecl(), id); return id;
		}
		else { o["k"] = "other"; id = "other:" + q.getAsString(); }
		(void)cst;
		tid[t] = id; types[id] = std::move(o); return id;
	}
	void rec(RecordDecl* rd0, const std::string& id)
	{
		if(records.find(id) != records.end()) return;
		records[id] = nullptr;
		json::Object o; RecordDecl* rd = rd0->getDefinition(); 
		o["std"] = !inTarget(rd0);
		o["qn"] = qn(rd0);
		if(auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(rd0))
		{
			o["tmpl"] = qn(cs->getSpecializedTemplate());
			json::Array a; 
			for(auto& x : cs->getTemplateArgs().asArray())
			{ if(x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType())); else if(x.getKind() == TemplateArgument::Integral) a.push_back(x.getAsIntegral().getSExtValue()); else a.push_back(nullptr); }
			o["targs"] = std::move(a);
		}
		if(rd && !rd->isInvalidDecl() && !rd->isDependentType())
		{
			auto& L = C.getASTRecordLayout(rd);
			o["size"] = (int64_t)L.getSize().getQuantity(); o["union"] = rd->isUnion();
			bool isstd = !inTarget(rd0);
			if(!isstd)
			{
				json::Array fs; unsigned i = 0;
				for(auto* f : rd->fields())
				{
					json::Object fo; fo["n"] = fname(f); fo["t"] = ty(f->getType()); fo["off"] = (int64_t)L.getFieldOffset(i++); fo["bf"] = f->isBitField();
					if(f->isBitField()) fo["bw"] = (int64_t)f->getBitWidthValue(C);
					fs.push_back(std::move(fo));
				}
				o["fields"] = std::move(fs);
			}
			if(auto* cr = dyn_cast<CXXRecordDecl>(rd))
			{
				json::Array bs; for(auto& b : cr->bases()) { auto* br = b.getType()->getAsCXXRecordDecl(); if(br) { json::Object bo; bo["t"] = ty(b.getType()); if(!b.isVirtual()) bo["off"] = (int64_t)L.getBaseClassOffset(br).getQuantity(); bs.push_back(std::move(bo)); } }
				o["bases"] = std::move(bs); o["poly"] = cr->isPolymorphic(); o["triv"] = cr->isTriviallyCopyable(); o["lambda"] = cr->isLambda();
				if(!isstd) for(auto* m : cr->methods()) if(!m->isDependentContext() && (m->isVirtual() || m->isOverloadedOperator() || isa<CXXConstructorDecl>(m))) enq(m);
				if(!isstd) for(auto* d : cr->decls()) if(auto* ct = dyn_cast<FunctionTemplateDecl>(d)) (void)ct;
			}
		}
		records[id] = std::move(o);
	}
	std::string fname(const FieldDecl* f) { std::string n = f->getNameAsString(); if(n.empty()) n = "#f" + std::to_string(f->getFieldIndex()); return n; }
	std::string fkey(const FunctionDecl* f)
	{
		f = f->getCanonicalDecl();
		std::string s; llvm::raw_string_ostream os(s);
		if(auto* c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
		else if(auto* d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
		else if(MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
		else os << f->getNameAsString();
		os.flush(); 
		if(f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace()) s += "@" + SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
		return s;
	}
	void enq(const FunctionDecl* f)
	{
		if(!f) return; f = f->getCanonicalDecl();
		if(!inTarget(f) && !(f->getDefinition() && inTarget(f->getDefinition()))) return;
		if(f->isDependentContext()) return;
		if(done.insert(f).second) queue.push_back(f);
	}
	std::string loc(SourceLocation l) { l = SM.getExpansionLoc(l); std::string f = SM.getFilename(l).str(); auto p = f.rfind('/'); if(p != std::string::npos) f = f.substr(p+1); return f + ":" + std::to_string(SM.getExpansionLineNumber(l)); }
	int vid(const ValueDecl* d) { d = cast<ValueDecl>(d->getCanonicalDecl()); auto it = ids.find(d); if(it != ids.end()) return it->second; return ids[d] = nextid++; }

	json::Value fref(const FunctionDecl* f)
	{
		enq(f);
		if(auto* d = f->getDefinition()) enq(d);
		json::Object o; o["qn"] = qn(f); 
		if(inTarget(f)) o["key"] = fkey(f); 
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) { o["virt"] = m->isVirtual(); o["static"] = m->isStatic(); o["cls"] = tname(C.getRecordType(m->getParent())); o["const"] = m->isConst();
			if(auto* cd = dyn_cast<CXXConstructorDecl>(m)) { if(cd->isCopyConstructor()) o["cc"] = "copy"; else if(cd->isMoveConstructor()) o["cc"] = "move"; else if(cd->isDefaultConstructor()) o["cc"] = "default"; }
			if(m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asg"] = true;
			o["triv"] = m->isTrivial() || (m->isDefaulted()); }
		json::Array ps; for(auto* p : f->parameters()) ps.push_back(ty(p->getType())); o["pt"] = std::move(ps);
		o["ret"] = ty(f->getReturnType());
		if(auto* ta = f->getTemplateSpecializationArgs()) { json::Array a; for(auto& x : ta->asArray()) { if(x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType())); else if(x.getKind() == TemplateArgument::Integral) a.push_back(x.getAsIntegral().getSExtValue()); else a.push_back(nullptr); } o["ta"] = std::move(a); }
		return o;
	}
	static json::Object mk(const char* k) { json::Object o; o["k"] = k; return o; }
	json::Value cst(const Expr* e, const llvm::APSInt& v)
	{
		auto o = mk("int"); o["t"] = ty(e->getType()); llvm::SmallString<24> s; v.toString(s, 10); o["v"] = std::string(s.c_str()); return o;
	}
	json::Value E(const Expr* e)
	{
		if(!e) return nullptr;
		if(e->isValueDependent() || e->isTypeDependent()) { return mk("dependent"); }
		if(e->isPRValue() && (e->getType()->isIntegralOrEnumerationType()))
		{
			Expr::EvalResult r;
			if(!e->HasSideEffects(C) && e->EvaluateAsInt(r, C)) return cst(e, r.Val.getInt());
		}
		auto o = E0(e);
		if(auto* ob = o.getAsObject()) { if(ob->find("t") == ob->end()) (*ob)["t"] = ty(e->getType()); if(e->isGLValue()) (*ob)["lv"] = true; if(ob->find("loc")==ob->end() && (isa<CallExpr>(e) || isa<CXXThrowExpr>(e) || isa<CXXConstructExpr>(e) || isa<ArraySubscriptExpr>(e) || isa<UnaryOperator>(e))) (*ob)["loc"] = loc(e->getBeginLoc()); }
		return o;
	}
	json::Value E0(const Expr* e)
	{
		switch(e->getStmtClass())
		{
		case Stmt::ParenExprClass: return E(cast<ParenExpr>(e)->getSubExpr());
		case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(e)->getSubExpr());
		case Stmt::ExprWithCleanupsClass: return E(cast<ExprWithCleanups>(e)->getSubExpr());
		case Stmt::CXXBindTemporaryExprClass: return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
		case Stmt::SubstNonTypeTemplateParmExprClass: return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
		case Stmt::CXXDefaultArgExprClass: return E(cast<CXXDefaultArgExpr>(e)->getExpr());
		case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(e)->getExpr());
		case Stmt::MaterializeTemporaryExprClass: { auto o = mk("mat"); o["e"] = E(cast<MaterializeTemporaryExpr>(e)->getSubExpr()); return o; }
		case Stmt::CXXStdInitializerListExprClass: { auto o = mk("ilist"); o["e"] = E(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return o; }
		case Stmt::IntegerLiteralClass: { return cst(e, llvm::APSInt(cast<IntegerLiteral>(e)->getValue(), e->getType()->isUnsignedIntegerType())); }
		case Stmt::CharacterLiteralClass: { auto o = mk("int"); o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue()); return o; }
		case Stmt::CXXBoolLiteralExprClass: { auto o = mk("int"); o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? "1" : "0"; return o; }
		case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return mk("null");
		case Stmt::FloatingLiteralClass: { auto o = mk("float"); o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); return o; }
		case Stmt::StringLiteralClass: { auto o = mk("str"); auto* s = cast<StringLiteral>(e); json::Array a; for(unsigned i = 0; i < s->getLength(); ++i) a.push_back((int64_t)s->getCodeUnit(i)); o["v"] = std::move(a); o["cw"] = (int64_t)s->getCharByteWidth(); return o; }
		case Stmt::CXXThisExprClass: return mk("this");
		case Stmt::DeclRefExprClass: {
			auto* d = cast<DeclRefExpr>(e)->getDecl();
			if(auto* f = dyn_cast<FunctionDecl>(d)) { auto o = mk("fn"); o["f"] = fref(f); return o; }
			if(auto* ec = dyn_cast<EnumConstantDecl>(d)) return cst(e, ec->getInitVal());
			auto* v = dyn_cast<VarDecl>(d);
			if(v && (v->hasGlobalStorage()))
			{
				auto o = mk("glob"); std::string n = qn(v); o["n"] = n;
				if(globals.find(n) == globals.end()) { json::Object g; globals[n] = nullptr; g["t"] = ty(v->getType()); const VarDecl* dv; const Expr* in = v->getAnyInitializer(dv); g["const"] = v->getType().isConstQualified();
					if(in && !in->isValueDependent()) g["init"] = E(in);
					globals[n] = std::move(g); }
				return o;
			}
			auto o = mk("var"); o["n"] = d->getNameAsString(); o["id"] = vid(d); return o; }
		case Stmt::MemberExprClass: {
			auto* m = cast<MemberExpr>(e); auto* d = m->getMemberDecl();
			if(auto* f = dyn_cast<FieldDecl>(d)) { auto o = mk("mem"); o["e"] = E(m->getBase()); o["arrow"] = m->isArrow(); o["f"] = fname(f); o["own"] = tname(C.getRecordType(f->getParent())); return o; }
			if(auto* f = dyn_cast<FunctionDecl>(d)) { auto o = mk("memfn"); o["e"] = E(m->getBase()); o["arrow"] = m->isArrow(); o["f"] = fref(f); o["qual"] = m->hasQualifier(); return o; }
			if(auto* v = dyn_cast<VarDecl>(d)) { auto o = mk("glob"); std::string n = qn(v); o["n"] = n; if(globals.find(n) == globals.end()) { json::Object g; g["t"] = ty(v->getType()); const VarDecl* dv; const Expr* in = v->getAnyInitializer(dv); if(in && !in->isValueDependent()) g["init"] = E(in); g["const"] = v->getType().isConstQualified(); globals[n] = std::move(g); } return o; }
			return mk("unsupported"); }
		case Stmt::ArraySubscriptExprClass: { auto* a = cast<ArraySubscriptExpr>(e); auto o = mk("sub"); o["b"] = E(a->getBase()); o["i"] = E(a->getIdx()); return o; }
		case Stmt::UnaryOperatorClass: { auto* u = cast<UnaryOperator>(e); auto o = mk("un"); o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["e"] = E(u->getSubExpr());
			if(u->getOpcode() == UO_AddrOf) if(auto* dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens())) if(auto* fd = dyn_cast<CXXMethodDecl>(dr->getDecl())) { auto p = mk("pmf"); p["f"] = fref(fd); return p; }
			return o; }
		case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: { auto* b = cast<BinaryOperator>(e); auto o = mk("bin"); o["op"] = b->getOpcodeStr().str(); o["a"] = E(b->getLHS()); o["b"] = E(b->getRHS());
			if(auto* ca = dyn_cast<CompoundAssignOperator>(e)) { o["ct"] = ty(ca->getComputationResultType()); o["clt"] = ty(ca->getComputationLHSType()); } return o; }
		case Stmt::ConditionalOperatorClass: { auto* c = cast<ConditionalOperator>(e); auto o = mk("cond"); o["c"] = E(c->getCond()); o["a"] = E(c->getTrueExpr()); o["b"] = E(c->getFalseExpr()); return o; }
		case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXDynamicCastExprClass: {
			auto* c = cast<CastExpr>(e); auto o = mk("cast"); o["ck"] = c->getCastKindName(); o["e"] = E(c->getSubExpr()); return o; }
		case Stmt::CXXMemberCallExprClass: { auto* c = cast<CXXMemberCallExpr>(e); auto o = mk("mcall"); 
			auto* md = c->getMethodDecl(); 
			if(!md) { o["k"] = "pmfcall"; o["callee"] = E(c->getCallee()); json::Array a; for(auto* x : c->arguments()) a.push_back(E(x)); o["args"] = std::move(a); return o; }
			o["f"] = fref(md); o["obj"] = E(c->getImplicitObjectArgument());
			if(auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); o["qual"] = me->hasQualifier(); }
			o["objt"] = tname(c->getObjectType());
			json::Array a; for(auto* x : c->arguments()) a.push_back(E(x)); o["args"] = std::move(a); return o; }
		case Stmt::CXXOperatorCallExprClass: case Stmt::CallExprClass: { auto* c = cast<CallExpr>(e); auto o = mk("call"); json::Array a; for(auto* x : c->arguments()) a.push_back(E(x)); 
			if(auto* f = c->getDirectCallee()) { o["f"] = fref(f); if(isa<CXXMethodDecl>(f) && isa<CXXOperatorCallExpr>(e) && !cast<CXXMethodDecl>(f)->isStatic()) o["mop"] = true; }
			else o["callee"] = E(c->getCallee());
			o["args"] = std::move(a); return o; }
		case Stmt::CXXTemporaryObjectExprClass: case Stmt::CXXConstructExprClass: { auto* c = cast<CXXConstructExpr>(e); auto o = mk("ctor"); o["f"] = fref(c->getConstructor()); json::Array a; for(auto* x : c->arguments()) a.push_back(E(x)); o["args"] = std::move(a); o["zero"] = c->requiresZeroInitialization(); o["elide"] = c->isElidable(); return o; }
		case Stmt::CXXNewExprClass: { auto* n = cast<CXXNewExpr>(e); auto o = mk("new"); o["at"] = ty(n->getAllocatedType()); if(n->isArray()) { auto as = n->getArraySize(); o["n"] = as ? E(*as) : json::Value(nullptr); } o["init"] = E(n->getInitializer()); return o; }
		case Stmt::CXXDeleteExprClass: { auto o = mk("delete"); o["e"] = E(cast<CXXDeleteExpr>(e)->getArgument()); return o; }
		case Stmt::CXXThrowExprClass: { auto o = mk("throw"); o["e"] = E(cast<CXXThrowExpr>(e)->getSubExpr()); return o; }
		case Stmt::InitListExprClass: { auto o = mk("init"); auto* il = cast<InitListExpr>(e); if(il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm(); json::Array a; for(auto* x : il->inits()) a.push_back(E(x)); o["a"] = std::move(a); if(il->hasArrayFiller()) o["filler"] = true; return o; }
		case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return mk("zero");
		case Stmt::UnaryExprOrTypeTraitExprClass: return mk("unsupported");
		case Stmt::CXXInheritedCtorInitExprClass: return mk("unsupported");
		case Stmt::LambdaExprClass: { auto* l = cast<LambdaExpr>(e); auto o = mk("lambda"); ty(e->getType()); json::Array caps; auto fi = l->getLambdaClass()->field_begin();
			auto ci = l->capture_init_begin();
			for(auto& cp : l->captures()) { json::Object co; co["field"] = fname(*fi); 
				if(cp.capturesThis()) co["this"] = true; else { co["var"] = vid(cp.getCapturedVar()); co["ref"] = cp.getCaptureKind() == LCK_ByRef; co["n"] = cp.getCapturedVar()->getNameAsString(); } co["init"] = E(*ci); co["t"] = ty((*fi)->getType()); ++fi; ++ci; caps.push_back(std::move(co)); }
			o["caps"] = std::move(caps); o["f"] = fref(l->getCallOperator()); return o; }
		case Stmt::OpaqueValueExprClass: return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
		default: { auto o = mk("unsupported"); o["what"] = e->getStmtClassName(); return o; }
		}
	}
	json::Value V(const VarDecl* v)
	{
		json::Object o; o["n"] = v->getNameAsString(); o["id"] = vid(v); o["t"] = ty(v->getType()); o["init"] = E(v->getInit()); o["static"] = v->isStaticLocal(); return o;
	}
	json::Value S(const Stmt* s)
	{
		if(!s) return nullptr;
		json::Object o;
		if(auto* e = dyn_cast<Expr>(s)) { o = mk("expr"); o["e"] = E(e); o["loc"] = loc(s->getBeginLoc()); return o; }
		switch(s->getStmtClass())
		{
		case Stmt::CompoundStmtClass: { o = mk("block"); json::Array a; for(auto* x : cast<CompoundStmt>(s)->body()) a.push_back(S(x)); o["b"] = std::move(a); break; }
		case Stmt::DeclStmtClass: { o = mk("decl"); json::Array a; for(auto* d : cast<DeclStmt>(s)->decls()) if(auto* v = dyn_cast<VarDecl>(d)) { if(v->isStaticLocal() || v->hasGlobalStorage()) { continue; } a.push_back(V(v)); } o["v"] = std::move(a); break; }
		case Stmt::IfStmtClass: { auto* i = cast<IfStmt>(s); o = mk("if"); o["init"] = S(i->getInit()); o["cv"] = i->getConditionVariable() ? V(i->getConditionVariable()) : json::Value(nullptr); o["c"] = E(i->getCond()); o["a"] = S(i->getThen()); o["b"] = S(i->getElse()); break; }
		case Stmt::ForStmtClass: { auto* f = cast<ForStmt>(s); o = mk("for"); o["init"] = S(f->getInit()); o["c"] = E(f->getCond()); o["inc"] = E(f->getInc()); o["b"] = S(f->getBody()); break; }
		case Stmt::WhileStmtClass: { auto* f = cast<WhileStmt>(s); o = mk("while"); o["c"] = E(f->getCond()); o["b"] = S(f->getBody()); break; }
		case Stmt::DoStmtClass: { auto* f = cast<DoStmt>(s); o = mk("do"); o["c"] = E(f->getCond()); o["b"] = S(f->getBody()); break; }
		case Stmt::CXXForRangeStmtClass: { auto* f = cast<CXXForRangeStmt>(s); o = mk("forrange"); json::Array a; a.push_back(S(f->getRangeStmt())); a.push_back(S(f->getBeginStmt())); a.push_back(S(f->getEndStmt())); o["pre"] = std::move(a); o["c"] = E(f->getCond()); o["inc"] = E(f->getInc()); o["var"] = S(f->getLoopVarStmt()); o["b"] = S(f->getBody()); break; }
		case Stmt::SwitchStmtClass: { auto* w = cast<SwitchStmt>(s); o = mk("switch"); o["c"] = E(w->getCond()); o["b"] = S(w->getBody()); break; }
		case Stmt::CaseStmtClass: { auto* c = cast<CaseStmt>(s); o = mk("case"); o["v"] = E(c->getLHS()); o["b"] = S(c->getSubStmt()); break; }
		case Stmt::DefaultStmtClass: { o = mk("default"); o["b"] = S(cast<DefaultStmt>(s)->getSubStmt()); break; }
		case Stmt::BreakStmtClass: o = mk("break"); break;
		case Stmt::ContinueStmtClass: o = mk("continue"); break;
		case Stmt::NullStmtClass: o = mk("nop"); break;
		case Stmt::ReturnStmtClass: { o = mk("return"); o["e"] = E(cast<ReturnStmt>(s)->getRetValue()); break; }
		case Stmt::CXXTryStmtClass: { auto* t = cast<CXXTryStmt>(s); o = mk("try"); o["b"] = S(t->getTryBlock()); json::Array a; for(unsigned i = 0; i < t->getNumHandlers(); ++i) { auto* h = t->getHandler(i); json::Object ho; if(h->getExceptionDecl()) { ho["t"] = ty(h->getCaughtType()); ho["v"] = V(h->getExceptionDecl()); } ho["b"] = S(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"] = std::move(a); break; }
		case Stmt::LabelStmtClass: return S(cast<LabelStmt>(s)->getSubStmt());
		default: o = mk("unsupported"); o["what"] = s->getStmtClassName();
		}
		o["loc"] = loc(s->getBeginLoc());
		return o;
	}
	void func(const FunctionDecl* f)
	{
		const FunctionDecl* d = nullptr;
		if(!f->isDefined(d)) { 
			if(auto* m = dyn_cast<CXXMethodDecl>(f); m && m->isVirtual()) {
				json::Object o; o["qn"] = qn(f); json::Array ov; for(auto* x : m->overridden_methods()) ov.push_back(fkey(x)); o["over"] = std::move(ov); o["pure"] = true; o["cls"] = tname(C.getRecordType(m->getParent())); funcs[fkey(f)] = std::move(o); }
			return; }
		if(d->isDependentContext()) return;
		std::string key = fkey(f);
		if(funcs.find(key) != funcs.end()) return;
		json::Object o; o["qn"] = qn(f); o["loc"] = loc(d->getLocation()); o["ret"] = ty(d->getReturnType());
		o["endloc"] = loc(d->getEndLoc());
		if(auto* ta = d->getTemplateSpecializationArgs()) { json::Array a; for(auto& x : ta->asArray()) { if(x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType())); else a.push_back(nullptr); } o["ta"] = std::move(a); }
		json::Array ps; for(auto* p : d->parameters()) { json::Object po; po["n"] = p->getNameAsString(); po["id"] = vid(p); po["t"] = ty(p->getType()); ps.push_back(std::move(po)); }
		o["params"] = std::move(ps);
		o["access"] = (int64_t)d->getAccess();
		if(auto* m = dyn_cast<CXXMethodDecl>(d))
		{
			o["cls"] = tname(C.getRecordType(m->getParent())); ty(C.getRecordType(m->getParent())); o["static"] = m->isStatic(); o["const"] = m->isConst(); o["virt"] = m->isVirtual();
			json::Array ov; for(auto* x : m->overridden_methods()) ov.push_back(fkey(x)); o["over"] = std::move(ov);
			if(auto* c = dyn_cast<CXXConstructorDecl>(d)) { json::Array in; for(auto* i : c->inits()) { json::Object io; if(i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0)); else if(i->isMemberInitializer()) { io["f"] = fname(i->getMember()); io["ft"] = ty(i->getMember()->getType()); } else if(i->isIndirectMemberInitializer()) io["ind"] = true; else io["deleg"] = true; io["e"] = E(i->getInit()); in.push_back(std::move(io)); } o["inits"] = std::move(in); }
			o["defaulted"] = d->isDefaulted();
		}
		o["body"] = S(d->getBody());
		funcs[key] = std::move(o);
	}
	void run()
	{
		struct Vis : RecursiveASTVisitor<Vis> { Ex& x; Vis(Ex& x) : x(x) {} bool shouldVisitTemplateInstantiations() const { return true; } bool shouldVisitImplicitCode() const { return true; }
			bool VisitFunctionDecl(FunctionDecl* f) { x.enq(f); return true; }
			bool VisitCXXRecordDecl(CXXRecordDecl* r) { if(x.inTarget(r) && !r->isDependentType() && r->isCompleteDefinition()) x.ty(x.C.getRecordType(r)); return true; } } v(*this);
		v.TraverseDecl(C.getTranslationUnitDecl());
		while(!queue.empty()) { auto* f = queue.back(); queue.pop_back(); func(f); }
		json::Object o; o["types"] = std::move(types); o["records"] = std::move(records); o["funcs"] = std::move(funcs); o["globals"] = std::move(globals);
		std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << json::Value(std::move(o)); 
	}
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext& c) override { if(c.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "parse errors\n"; exit(3); } Ex(c).run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char** argv)
{
	// extract OUT ROOT FILE -- flags
	if(argc < 4) return 2;
	OutFile = argv[1]; RootDir = argv[2]; std::string file = argv[3];
	std::vector<std::string> args; for(int i = 4; i < argc; ++i) args.push_back(argv[i]);
	auto db = tooling::FixedCompilationDatabase(".", args);
	tooling::ClangTool tool(db, { file });
	return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
