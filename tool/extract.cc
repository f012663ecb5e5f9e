/* Dumps the type-checked syntax tree of the functions, classes, enums and global
   variables of one translation unit that are defined below a given root directory.

   usage: extract ROOT OUT.json SOURCE -- CLANG-FLAGS...

   Output is one JSON object; see py/ir.py for the reader.  Implicit conversions
   which do not change a value, temporaries, parentheses and elidable copies are
   removed, all names are resolved, template instantiations are dumped as the
   instantiated code. */

#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using std::string;

static string root_dir;
static string out_file;
static int error_count = 0;

namespace {

class Dumper
{
public:
	Dumper(ASTContext& c)
		: ctx(c)
		, sm(c.getSourceManager())
		, policy(c.getLangOpts())
		, o(buffer)
		, j(o)
	{
		policy.SuppressTagKeyword = true;
		policy.Bool = true;
		policy.FullyQualifiedName = true;
		policy.PrintCanonicalTypes = true;
		policy.SuppressUnwrittenScope = true;
	}

	ASTContext& ctx;
	SourceManager& sm;
	PrintingPolicy policy;
	string buffer;
	llvm::raw_string_ostream o;
	llvm::json::OStream j;
	std::map<Decl const*, int> ids;
	std::vector<CXXMethodDecl const*> pending_lambdas;
	std::set<Decl const*> done;
	std::map<string, int> types;
	std::vector<string> type_list;

	string file_of(SourceLocation l)
	{
		l = sm.getExpansionLoc(l);
		return sm.getFilename(l).str();
	}

	int line_of(SourceLocation l)
	{
		if (l.isInvalid()) {
			return 0;
		}
		return sm.getExpansionLineNumber(l);
	}

	bool in_root(SourceLocation l)
	{
		if (l.isInvalid()) {
			return false;
		}
		auto f = file_of(l);
		return f.compare(0, root_dir.size(), root_dir) == 0;
	}

	int id(Decl const* d)
	{
		d = d->getCanonicalDecl();
		auto i = ids.find(d);
		if (i == ids.end()) {
			i = ids.emplace(d, int(ids.size()) + 1).first;
		}
		return i->second;
	}

	string tstr(QualType t)
	{
		return t.getCanonicalType().getAsString(policy);
	}

	int type(QualType t)
	{
		if (t.isNull()) {
			return -1;
		}
		auto s = tstr(t);
		auto i = types.find(s);
		if (i == types.end()) {
			i = types.emplace(s, int(type_list.size())).first;
			type_list.push_back(s);
		}
		return i->second;
	}

	string qname(NamedDecl const* d)
	{
		string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, policy);
		/* Add arguments of class template specialisations */
		return os.str();
	}

	string class_name(CXXRecordDecl const* d)
	{
		if (d->isLambda()) {
			auto m = d->getLambdaCallOperator();
			return "lambda@" + file_of(d->getLocation()) + ":" + std::to_string(line_of(d->getLocation())) + ":" + std::to_string(sm.getExpansionColumnNumber(d->getLocation())) + (m ? "" : "?");
		}
		return tstr(ctx.getTypeDeclType(d));
	}

	string fkey(FunctionDecl const* f)
	{
		f = f->getCanonicalDecl();
		string s;
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->getParent()->isLambda()) {
				return class_name(m->getParent());
			}
			s = class_name(m->getParent()) + "::" + (isa<CXXConstructorDecl>(m) ? string("(ctor)") : isa<CXXDestructorDecl>(m) ? string("(dtor)") : m->getNameAsString());
		} else {
			s = qname(f);
			if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace()) {
				s += "@" + file_of(f->getLocation()).substr(file_of(f->getLocation()).rfind('/') + 1);
			}
		}
		if (auto a = f->getTemplateSpecializationArgs()) {
			s += "<";
			bool first = true;
			for (auto const& i: a->asArray()) {
				if (!first) {
					s += ",";
				}
				first = false;
				llvm::raw_string_ostream os(s);
				i.print(policy, os, true);
			}
			s += ">";
		}
		s += "(";
		bool first = true;
		for (auto p: f->parameters()) {
			if (!first) {
				s += ",";
			}
			first = false;
			s += tstr(p->getType());
		}
		if (f->isVariadic()) {
			s += ",...";
		}
		s += ")";
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->isConst()) {
				s += " const";
			}
			if (m->getRefQualifier() == RQ_LValue) {
				s += " &";
			} else if (m->getRefQualifier() == RQ_RValue) {
				s += " &&";
			}
		}
		return s;
	}

	string plain(FunctionDecl const* f)
	{
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			auto c = m->getParent();
			if (c->isLambda()) {
				return "lambda";
			}
			string s = qname(c);
			return s + "::" + (isa<CXXConstructorDecl>(m) ? string("(ctor)") : isa<CXXDestructorDecl>(m) ? string("(dtor)") : m->getNameAsString());
		}
		return qname(f);
	}

	/* ---------------------------------------------------------------- */

	Expr const* strip(Expr const* e)
	{
		while (true) {
			if (auto p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
			if (auto p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) { return e; } e = p->getSourceExpr(); continue; }
			if (auto p = dyn_cast<ImplicitCastExpr>(e)) {
				switch (p->getCastKind()) {
				case CK_IntegralCast:
				case CK_IntegralToFloating:
				case CK_FloatingToIntegral:
				case CK_FloatingCast:
				case CK_IntegralToBoolean:
				case CK_PointerToBoolean:
				case CK_FloatingToBoolean:
					return e;
				default:
					e = p->getSubExpr();
					continue;
				}
			}
			if (auto p = dyn_cast<CXXConstructExpr>(e)) {
				/* A copy or move of a temporary or local of the same class is the value itself */
				if (p->getConstructor()->isCopyOrMoveConstructor() && p->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(p)) {
					bool others_default = true;
					for (unsigned i = 1; i < p->getNumArgs(); ++i) {
						if (!isa<CXXDefaultArgExpr>(p->getArg(i))) {
							others_default = false;
						}
					}
					if (others_default && ctx.hasSameUnqualifiedType(p->getType(), p->getArg(0)->getType())) {
						e = p->getArg(0);
						continue;
					}
				}
			}
			return e;
		}
	}

	void common(Expr const* e)
	{
		j.attribute("l", line_of(e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc()));
		j.attribute("t", type(e->getType()));
	}

	void try_const(Expr const* e)
	{
		if (e->isValueDependent() || e->isTypeDependent() || e->getType().isNull()) {
			return;
		}
		if (e->getType()->isIntegralOrEnumerationType()) {
			Expr::EvalResult r;
			if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
				auto v = r.Val.getInt();
				if (v.getSignificantBits() <= 64) {
					j.attribute("cv", v.isSigned() ? v.getSExtValue() : int64_t(v.getZExtValue()));
				}
			}
		} else if (e->getType()->isRealFloatingType()) {
			Expr::EvalResult r;
			if (e->EvaluateAsRValue(r, ctx) && !r.HasSideEffects && r.Val.isFloat()) {
				auto f = r.Val.getFloat();
				bool lose;
				f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
				if (f.isFinite()) {
					j.attribute("cf", f.convertToDouble());
				}
			}
		}
	}

	void expr_attr(char const* name, Expr const* e)
	{
		j.attributeBegin(name);
		expr(e);
		j.attributeEnd();
	}

	template <class T>
	void args_attr(T const& range)
	{
		j.attributeBegin("a");
		j.arrayBegin();
		for (auto i: range) {
			expr(i);
		}
		j.arrayEnd();
		j.attributeEnd();
	}

	void var_ref(ValueDecl const* d)
	{
		if (auto v = dyn_cast<VarDecl>(d)) {
			j.attribute("e", "var");
			j.attribute("n", v->getNameAsString());
			j.attribute("id", id(v));
			if (isa<ParmVarDecl>(v)) {
				j.attribute("k", "param");
			} else if (v->isStaticDataMember()) {
				j.attribute("k", "smem");
				j.attribute("q", qname(v));
			} else if (v->isStaticLocal()) {
				j.attribute("k", "slocal");
			} else if (v->hasGlobalStorage()) {
				j.attribute("k", "global");
				j.attribute("q", qname(v));
			} else {
				j.attribute("k", "local");
			}
		} else if (auto b = dyn_cast<BindingDecl>(d)) {
			j.attribute("e", "var");
			j.attribute("n", b->getNameAsString());
			j.attribute("id", id(b));
			j.attribute("k", "local");
		} else if (auto f = dyn_cast<FunctionDecl>(d)) {
			j.attribute("e", "fn");
			j.attribute("fn", fkey(f));
			j.attribute("q", plain(f));
		} else if (auto c = dyn_cast<EnumConstantDecl>(d)) {
			j.attribute("e", "enum");
			j.attribute("n", c->getNameAsString());
			j.attribute("q", qname(cast<NamedDecl>(c->getDeclContext())) + "::" + c->getNameAsString());
			j.attribute("cv", c->getInitVal().getExtValue());
		} else {
			j.attribute("e", "other");
			j.attribute("n", d->getNameAsString());
		}
	}

	void callee(FunctionDecl const* f)
	{
		j.attribute("fn", fkey(f));
		j.attribute("q", plain(f));
		j.attribute("m", f->getNameAsString());
		if (in_root(f->getLocation())) {
			j.attribute("in", 1);
		}
		auto const* proto = f->getType()->getAs<FunctionProtoType>();
		if (proto && !isUnresolvedExceptionSpec(proto->getExceptionSpecType()) && proto->isNothrow()) {
			j.attribute("nt", 1);
		}
		if (f->isNoReturn()) {
			j.attribute("nr", 1);
		}
		if (f->isExternC()) {
			j.attribute("c", 1);
		}
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->isConst()) {
				j.attribute("cm", 1);
			}
			if (m->isStatic()) {
				j.attribute("sm", 1);
			}
		}
		/* which arguments may be written through: references/pointers to non-const */
		j.attributeBegin("mp");
		j.arrayBegin();
		for (auto p: f->parameters()) {
			auto t = p->getType();
			int v = 0;
			if ((t->isReferenceType() || t->isPointerType()) && !t->getPointeeType().isConstQualified()) {
				v = t->isRValueReferenceType() ? 2 : 1;
			}
			j.value(v);
		}
		j.arrayEnd();
		j.attributeEnd();
	}

	void expr(Expr const* e)
	{
		if (!e) {
			j.value(nullptr);
			return;
		}

		e = strip(e);
		j.objectBegin();
		expr_body(e);
		j.objectEnd();
	}

	void expr_body(Expr const* e)
	{
		common(e);
		if (auto p = dyn_cast<DeclRefExpr>(e)) {
			var_ref(p->getDecl());
			if (isa<VarDecl>(p->getDecl())) {
				try_const(e);
			}
		} else if (auto p = dyn_cast<MemberExpr>(e)) {
			auto d = p->getMemberDecl();
			if (auto f = dyn_cast<FieldDecl>(d)) {
				j.attribute("e", "mem");
				j.attribute("f", f->getNameAsString());
				if (f->getNameAsString().empty()) {
					j.attribute("anon", 1);
				}
				j.attribute("q", qname(f->getParent()));
				expr_attr("b", p->getBase());
			} else if (auto v = dyn_cast<VarDecl>(d)) {
				var_ref(v);
				try_const(e);
			} else if (auto f = dyn_cast<CXXMethodDecl>(d)) {
				j.attribute("e", "mfn");
				j.attribute("fn", fkey(f));
				j.attribute("q", plain(f));
				expr_attr("b", p->getBase());
			} else {
				var_ref(d);
			}
		} else if (auto p = dyn_cast<CXXOperatorCallExpr>(e)) {
			j.attribute("e", "call");
			j.attribute("op", getOperatorSpelling(p->getOperator()));
			auto f = p->getDirectCallee();
			if (f) {
				callee(f);
				auto m = dyn_cast<CXXMethodDecl>(f);
				if (m && p->getNumArgs() > 0) {
					expr_attr("o", p->getArg(0));
					std::vector<Expr const*> rest(p->arg_begin() + 1, p->arg_end());
					args_attr(rest);
					return;
				}
			}
			args_attr(p->arguments());
		} else if (auto p = dyn_cast<CXXMemberCallExpr>(e)) {
			j.attribute("e", "call");
			if (auto f = p->getMethodDecl()) {
				callee(f);
				auto me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens());
				if (f->isVirtual() && me && !me->hasQualifier()) {
					j.attribute("v", 1);
				}
				if (isa<CXXConversionDecl>(f)) {
					j.attribute("conv", 1);
				}
			} else {
				expr_attr("f", p->getCallee());
			}
			expr_attr("o", p->getImplicitObjectArgument());
			args_attr(p->arguments());
		} else if (auto p = dyn_cast<CallExpr>(e)) {
			j.attribute("e", "call");
			if (auto f = p->getDirectCallee()) {
				callee(f);
			} else {
				expr_attr("f", p->getCallee());
			}
			args_attr(p->arguments());
		} else if (auto p = dyn_cast<CXXConstructExpr>(e)) {
			j.attribute("e", "ctor");
			callee(p->getConstructor());
			j.attribute("cls", qname(p->getConstructor()->getParent()));
			if (p->getConstructor()->isCopyConstructor()) {
				j.attribute("copy", 1);
			}
			if (p->getConstructor()->isMoveConstructor()) {
				j.attribute("copy", 2);
			}
			if (isa<CXXTemporaryObjectExpr>(p)) {
				j.attribute("tmp", 1);
			}
			args_attr(p->arguments());
		} else if (auto p = dyn_cast<CXXNewExpr>(e)) {
			j.attribute("e", "new");
			j.attribute("nt_", type(p->getAllocatedType()));
			if (p->isArray()) {
				j.attribute("arr", 1);
				if (p->getArraySize()) {
					expr_attr("n", *p->getArraySize());
				}
			}
			if (p->getInitializer()) {
				expr_attr("x", p->getInitializer());
			}
		} else if (auto p = dyn_cast<CXXDeleteExpr>(e)) {
			j.attribute("e", "delete");
			if (p->isArrayForm()) {
				j.attribute("arr", 1);
			}
			expr_attr("x", p->getArgument());
		} else if (auto p = dyn_cast<UnaryOperator>(e)) {
			j.attribute("e", "un");
			string s = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
			if (p->isPostfix()) {
				s = "post" + s;
			}
			j.attribute("op", s);
			try_const(e);
			expr_attr("x", p->getSubExpr());
		} else if (auto p = dyn_cast<BinaryOperator>(e)) {
			j.attribute("e", p->isAssignmentOp() ? "asg" : "bin");
			j.attribute("op", p->getOpcodeStr().str());
			try_const(e);
			expr_attr("x", p->getLHS());
			expr_attr("y", p->getRHS());
		} else if (auto p = dyn_cast<AbstractConditionalOperator>(e)) {
			j.attribute("e", "cond");
			expr_attr("c", p->getCond());
			expr_attr("x", p->getTrueExpr());
			expr_attr("y", p->getFalseExpr());
		} else if (auto p = dyn_cast<CastExpr>(e)) {
			if (isa<ImplicitCastExpr>(p)) {
				j.attribute("e", "icast");
			} else {
				j.attribute("e", "cast");
				j.attribute("ck", isa<CXXConstCastExpr>(p) ? "const" : isa<CXXReinterpretCastExpr>(p) ? "reinterpret" : isa<CXXDynamicCastExpr>(p) ? "dynamic" : isa<CXXStaticCastExpr>(p) ? "static" : isa<CXXFunctionalCastExpr>(p) ? "func" : "c");
			}
			j.attribute("kind", p->getCastKindName());
			try_const(e);
			expr_attr("x", p->getSubExpr());
		} else if (auto p = dyn_cast<IntegerLiteral>(e)) {
			j.attribute("e", "int");
			j.attribute("cv", p->getValue().getSignificantBits() <= 64 ? int64_t(p->getValue().getZExtValue()) : 0);
		} else if (auto p = dyn_cast<CharacterLiteral>(e)) {
			j.attribute("e", "int");
			j.attribute("ch", 1);
			j.attribute("cv", int64_t(p->getValue()));
		} else if (auto p = dyn_cast<CXXBoolLiteralExpr>(e)) {
			j.attribute("e", "bool");
			j.attribute("cv", p->getValue() ? 1 : 0);
		} else if (auto p = dyn_cast<FloatingLiteral>(e)) {
			j.attribute("e", "float");
			auto f = p->getValue();
			bool lose;
			f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
			j.attribute("cf", f.convertToDouble());
		} else if (auto p = dyn_cast<clang::StringLiteral>(e)) {
			j.attribute("e", "str");
			if (p->getCharByteWidth() == 1) {
				auto s = p->getString();
				j.attribute("s", llvm::json::isUTF8(s) ? s.str() : llvm::json::fixUTF8(s));
			}
		} else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
			j.attribute("e", "null");
		} else if (isa<CXXThisExpr>(e)) {
			j.attribute("e", "this");
		} else if (auto p = dyn_cast<LambdaExpr>(e)) {
			j.attribute("e", "lambda");
			j.attribute("fn", fkey(p->getCallOperator()));
			pending_lambdas.push_back(p->getCallOperator());
			j.attributeBegin("caps");
			j.arrayBegin();
			auto init = p->capture_init_begin();
			for (auto i = p->capture_begin(); i != p->capture_end(); ++i, ++init) {
				j.objectBegin();
				if (i->capturesThis()) {
					j.attribute("k", "this");
				} else if (i->capturesVariable()) {
					j.attribute("k", i->getCaptureKind() == LCK_ByRef ? "ref" : "copy");
					j.attribute("id", id(i->getCapturedVar()));
					j.attribute("n", i->getCapturedVar()->getNameAsString());
				}
				j.objectEnd();
			}
			j.arrayEnd();
			j.attributeEnd();
		} else if (auto p = dyn_cast<ArraySubscriptExpr>(e)) {
			j.attribute("e", "idx");
			expr_attr("b", p->getBase());
			expr_attr("i", p->getIdx());
		} else if (auto p = dyn_cast<CXXThrowExpr>(e)) {
			j.attribute("e", "throw");
			if (p->getSubExpr()) {
				expr_attr("x", p->getSubExpr());
			}
		} else if (auto p = dyn_cast<InitListExpr>(e)) {
			j.attribute("e", "list");
			auto s = p->isSemanticForm() ? p : p->getSemanticForm();
			if (!s) {
				s = p;
			}
			if (auto r = e->getType()->getAsCXXRecordDecl()) {
				j.attribute("cls", qname(r));
			}
			std::vector<Expr const*> v;
			for (unsigned i = 0; i < s->getNumInits(); ++i) {
				v.push_back(s->getInit(i));
			}
			args_attr(v);
		} else if (auto p = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			j.attribute("e", "sizeof");
			try_const(e);
			if (!p->isArgumentType()) {
				expr_attr("x", p->getArgumentExpr());
			} else {
				j.attribute("ty", type(p->getArgumentType()));
			}
		} else if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) {
			j.attribute("e", "defarg");
			try_const(e);
			expr_attr("x", p->getExpr());
		} else if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) {
			j.attribute("e", "definit");
			expr_attr("x", p->getExpr());
		} else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
			j.attribute("e", "zero");
		} else if (auto p = dyn_cast<CXXTypeidExpr>(e)) {
			j.attribute("e", "typeid");
			(void) p;
		} else if (auto p = dyn_cast<StmtExpr>(e)) {
			j.attribute("e", "stmtexpr");
			j.attributeBegin("x");
			stmt(p->getSubStmt());
			j.attributeEnd();
		} else {
			j.attribute("e", "other");
			j.attribute("cls", e->getStmtClassName());
			std::vector<Expr const*> v;
			for (auto c: e->children()) {
				if (auto x = dyn_cast_or_null<Expr>(c)) {
					v.push_back(x);
				}
			}
			args_attr(v);
		}
	}

	/* ---------------------------------------------------------------- */

	string macro_of(SourceLocation l)
	{
		if (!l.isMacroID()) {
			return "";
		}
		/* outermost macro */
		while (true) {
			auto up = sm.getImmediateMacroCallerLoc(l);
			if (!up.isMacroID()) {
				break;
			}
			l = up;
		}
		return Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts()).str();
	}

	void var_decl(VarDecl const* v)
	{
		j.attribute("s", "decl");
		j.attribute("l", line_of(v->getLocation()));
		j.attribute("n", v->getNameAsString());
		j.attribute("id", id(v));
		j.attribute("t", type(v->getType()));
		if (v->isStaticLocal()) {
			j.attribute("static", 1);
		}
		if (v->getType()->isReferenceType()) {
			j.attribute("ref", 1);
		}
		if (auto at = ctx.getAsConstantArrayType(v->getType())) {
			j.attribute("alen", int64_t(at->getSize().getZExtValue()));
		}
		if (v->getInit()) {
			expr_attr("x", v->getInit());
		}
	}

	void stmt_attr(char const* n, Stmt const* s)
	{
		if (!s) {
			return;
		}
		j.attributeBegin(n);
		stmt(s);
		j.attributeEnd();
	}

	void stmt(Stmt const* s)
	{
		if (!s) {
			j.value(nullptr);
			return;
		}

		if (auto e = dyn_cast<Expr>(s)) {
			j.objectBegin();
			j.attribute("s", "expr");
			j.attribute("l", line_of(s->getBeginLoc()));
			auto m = macro_of(s->getBeginLoc());
			if (!m.empty()) {
				j.attribute("macro", m);
			}
			expr_attr("x", e);
			j.objectEnd();
			return;
		}

		if (auto d = dyn_cast<DeclStmt>(s)) {
			/* possibly several variables: wrap in a transparent block */
			std::vector<VarDecl const*> vars;
			for (auto i: d->decls()) {
				if (auto v = dyn_cast<VarDecl>(i)) {
					vars.push_back(v);
				}
			}
			if (vars.size() == 1) {
				j.objectBegin();
				var_decl(vars[0]);
				j.objectEnd();
				return;
			}
			j.objectBegin();
			j.attribute("s", "decls");
			j.attribute("l", line_of(s->getBeginLoc()));
			j.attributeBegin("b");
			j.arrayBegin();
			for (auto v: vars) {
				j.objectBegin();
				var_decl(v);
				j.objectEnd();
			}
			j.arrayEnd();
			j.attributeEnd();
			j.objectEnd();
			return;
		}

		j.objectBegin();
		j.attribute("l", line_of(s->getBeginLoc()));
		auto m = macro_of(s->getBeginLoc());
		if (!m.empty()) {
			j.attribute("macro", m);
		}
		if (auto p = dyn_cast<CompoundStmt>(s)) {
			j.attribute("s", "block");
			j.attribute("el", line_of(p->getRBracLoc()));
			j.attributeBegin("b");
			j.arrayBegin();
			for (auto i: p->body()) {
				stmt(i);
			}
			j.arrayEnd();
			j.attributeEnd();
		} else if (auto p = dyn_cast<IfStmt>(s)) {
			j.attribute("s", "if");
			if (p->getInit()) {
				stmt_attr("init", p->getInit());
			}
			if (p->getConditionVariable()) {
				j.attributeBegin("var");
				j.objectBegin();
				var_decl(p->getConditionVariable());
				j.objectEnd();
				j.attributeEnd();
			}
			expr_attr("c", p->getCond());
			stmt_attr("x", p->getThen());
			stmt_attr("y", p->getElse());
		} else if (auto p = dyn_cast<ForStmt>(s)) {
			j.attribute("s", "for");
			stmt_attr("init", p->getInit());
			if (p->getCond()) {
				expr_attr("c", p->getCond());
			}
			if (p->getInc()) {
				expr_attr("inc", p->getInc());
			}
			stmt_attr("x", p->getBody());
		} else if (auto p = dyn_cast<WhileStmt>(s)) {
			j.attribute("s", "while");
			if (p->getConditionVariable()) {
				j.attributeBegin("var");
				j.objectBegin();
				var_decl(p->getConditionVariable());
				j.objectEnd();
				j.attributeEnd();
			}
			expr_attr("c", p->getCond());
			stmt_attr("x", p->getBody());
		} else if (auto p = dyn_cast<DoStmt>(s)) {
			j.attribute("s", "do");
			expr_attr("c", p->getCond());
			stmt_attr("x", p->getBody());
		} else if (auto p = dyn_cast<CXXForRangeStmt>(s)) {
			j.attribute("s", "rfor");
			expr_attr("r", p->getRangeInit());
			j.attributeBegin("var");
			j.objectBegin();
			auto v = p->getLoopVariable();
			j.attribute("s", "decl");
			j.attribute("l", line_of(v->getLocation()));
			j.attribute("n", v->getNameAsString());
			j.attribute("id", id(v));
			j.attribute("t", type(v->getType()));
			if (v->getType()->isReferenceType()) {
				j.attribute("ref", 1);
			}
			j.objectEnd();
			j.attributeEnd();
			stmt_attr("x", p->getBody());
		} else if (auto p = dyn_cast<SwitchStmt>(s)) {
			j.attribute("s", "switch");
			expr_attr("c", p->getCond());
			stmt_attr("x", p->getBody());
		} else if (auto p = dyn_cast<CaseStmt>(s)) {
			j.attribute("s", "case");
			expr_attr("v", p->getLHS());
			Expr::EvalResult r;
			if (!p->getLHS()->isValueDependent() && p->getLHS()->EvaluateAsInt(r, ctx)) {
				j.attribute("cv", r.Val.getInt().getExtValue());
			}
			stmt_attr("x", p->getSubStmt());
		} else if (auto p = dyn_cast<DefaultStmt>(s)) {
			j.attribute("s", "default");
			stmt_attr("x", p->getSubStmt());
		} else if (auto p = dyn_cast<ReturnStmt>(s)) {
			j.attribute("s", "return");
			if (p->getRetValue()) {
				expr_attr("x", p->getRetValue());
			}
		} else if (isa<BreakStmt>(s)) {
			j.attribute("s", "break");
		} else if (isa<ContinueStmt>(s)) {
			j.attribute("s", "continue");
		} else if (auto p = dyn_cast<CXXTryStmt>(s)) {
			j.attribute("s", "try");
			stmt_attr("x", p->getTryBlock());
			j.attributeBegin("h");
			j.arrayBegin();
			for (unsigned i = 0; i < p->getNumHandlers(); ++i) {
				auto h = p->getHandler(i);
				j.objectBegin();
				j.attribute("l", line_of(h->getBeginLoc()));
				if (h->getExceptionDecl()) {
					j.attribute("t", type(h->getExceptionDecl()->getType()));
					j.attribute("id", id(h->getExceptionDecl()));
					if (auto r = h->getCaughtType().getNonReferenceType()->getAsCXXRecordDecl()) {
						j.attribute("cls", qname(r));
					}
				}
				stmt_attr("x", h->getHandlerBlock());
				j.objectEnd();
			}
			j.arrayEnd();
			j.attributeEnd();
		} else if (isa<NullStmt>(s)) {
			j.attribute("s", "null");
		} else if (auto p = dyn_cast<AttributedStmt>(s)) {
			j.attribute("s", "wrap");
			stmt_attr("x", p->getSubStmt());
		} else if (auto p = dyn_cast<LabelStmt>(s)) {
			j.attribute("s", "label");
			j.attribute("n", string(p->getName()));
			stmt_attr("x", p->getSubStmt());
		} else if (auto p = dyn_cast<GotoStmt>(s)) {
			j.attribute("s", "goto");
			j.attribute("n", p->getLabel()->getNameAsString());
		} else {
			j.attribute("s", "other");
			j.attribute("cls", s->getStmtClassName());
		}
		j.objectEnd();
	}

	/* ---------------------------------------------------------------- */

	void function(FunctionDecl const* f)
	{
		FunctionDecl const* def = nullptr;
		if (!f->hasBody(def) || !def) {
			return;
		}
		f = def;
		if (f->isDependentContext() || !done.insert(f).second || f->isInvalidDecl() || f->isDefaulted()) {
			return;
		}
		if (!in_root(f->getLocation())) {
			return;
		}

		j.objectBegin();
		j.attribute("key", fkey(f));
		j.attribute("q", plain(f));
		j.attribute("n", f->getNameAsString());
		j.attribute("file", file_of(f->getLocation()));
		j.attribute("l", line_of(f->getLocation()));
		j.attribute("el", line_of(f->getEndLoc()));
		j.attribute("ret", type(f->getReturnType()));
		if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace()) {
			j.attribute("internal", 1);
		}
		if (f->isOverloadedOperator()) {
			j.attribute("op", getOperatorSpelling(f->getOverloadedOperator()));
		}
		if (f->isTemplateInstantiation()) {
			j.attribute("inst", 1);
		}
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			j.attribute("cls", m->getParent()->isLambda() ? string("lambda") : qname(m->getParent()));
			j.attribute("clst", class_name(m->getParent()));
			if (m->isConst()) {
				j.attribute("const", 1);
			}
			if (m->isStatic()) {
				j.attribute("static", 1);
			}
			if (m->isVirtual()) {
				j.attribute("virtual", 1);
				j.attributeBegin("over");
				j.arrayBegin();
				for (auto i: m->overridden_methods()) {
					j.value(fkey(i));
				}
				j.arrayEnd();
				j.attributeEnd();
			}
			j.attribute("access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
		}
		j.attribute("kind", isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXMethodDecl>(f) ? (cast<CXXMethodDecl>(f)->getParent()->isLambda() ? "lambda" : "method") : "func");
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
			if (c->isCopyConstructor()) {
				j.attribute("special", "copy");
			} else if (c->isMoveConstructor()) {
				j.attribute("special", "move");
			} else if (c->isDefaultConstructor()) {
				j.attribute("special", "default");
			}
		} else if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->isCopyAssignmentOperator()) {
				j.attribute("special", "copyassign");
			} else if (m->isMoveAssignmentOperator()) {
				j.attribute("special", "moveassign");
			}
		}
		j.attributeBegin("params");
		j.arrayBegin();
		for (auto p: f->parameters()) {
			j.objectBegin();
			j.attribute("n", p->getNameAsString());
			j.attribute("id", id(p));
			j.attribute("t", type(p->getType()));
			if (p->getType()->isReferenceType()) {
				j.attribute("ref", 1);
			}
			if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
				expr_attr("d", p->getDefaultArg());
			}
			j.objectEnd();
		}
		j.arrayEnd();
		j.attributeEnd();
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
			j.attributeBegin("inits");
			j.arrayBegin();
			for (auto i: c->inits()) {
				j.objectBegin();
				j.attribute("l", line_of(i->getSourceLocation()));
				if (i->isWritten()) {
					j.attribute("w", 1);
				}
				if (i->isAnyMemberInitializer()) {
					j.attribute("f", i->getAnyMember()->getNameAsString());
				} else if (i->isBaseInitializer()) {
					j.attribute("base", tstr(QualType(i->getBaseClass(), 0)));
				} else if (i->isDelegatingInitializer()) {
					j.attribute("deleg", 1);
				}
				expr_attr("x", i->getInit());
				j.objectEnd();
			}
			j.arrayEnd();
			j.attributeEnd();
		}
		stmt_attr("body", f->getBody());
		j.objectEnd();

		while (!pending_lambdas.empty()) {
			auto l = pending_lambdas.back();
			pending_lambdas.pop_back();
			function(l);
		}
	}

	void record(CXXRecordDecl const* r)
	{
		if (!r->isCompleteDefinition() || r->isDependentContext() || r->isLambda() || !in_root(r->getLocation()) || !done.insert(r).second) {
			return;
		}
		j.objectBegin();
		j.attribute("q", qname(r));
		j.attribute("t", class_name(r));
		j.attribute("file", file_of(r->getLocation()));
		j.attribute("l", line_of(r->getLocation()));
		j.attributeBegin("bases");
		j.arrayBegin();
		for (auto const& b: r->bases()) {
			auto d = b.getType()->getAsCXXRecordDecl();
			j.value(d ? qname(d) : tstr(b.getType()));
		}
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("fields");
		j.arrayBegin();
		for (auto f: r->fields()) {
			j.objectBegin();
			j.attribute("n", f->getNameAsString());
			j.attribute("t", type(f->getType()));
			j.attribute("l", line_of(f->getLocation()));
			j.attribute("access", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private");
			if (f->isMutable()) {
				j.attribute("mutable", 1);
			}
			if (auto at = ctx.getAsConstantArrayType(f->getType())) {
				j.attribute("alen", int64_t(at->getSize().getZExtValue()));
			}
			if (f->getInClassInitializer()) {
				expr_attr("x", f->getInClassInitializer());
			}
			j.objectEnd();
		}
		j.arrayEnd();
		j.attributeEnd();
		j.attributeBegin("methods");
		j.arrayBegin();
		for (auto m: r->methods()) {
			j.objectBegin();
			j.attribute("n", isa<CXXConstructorDecl>(m) ? string("(ctor)") : isa<CXXDestructorDecl>(m) ? string("(dtor)") : m->getNameAsString());
			j.attribute("key", fkey(m));
			j.attribute("l", line_of(m->getLocation()));
			j.attribute("access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
			if (m->isImplicit()) {
				j.attribute("implicit", 1);
			}
			if (m->isDeleted()) {
				j.attribute("deleted", 1);
			}
			if (m->isDefaulted()) {
				j.attribute("defaulted", 1);
			}
			if (m->isUserProvided()) {
				j.attribute("user", 1);
			}
			if (m->isPureVirtual()) {
				j.attribute("pure", 1);
			}
			if (m->isVirtual()) {
				j.attribute("virtual", 1);
			}
			if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
				if (c->isCopyConstructor()) {
					j.attribute("special", "copy");
				} else if (c->isMoveConstructor()) {
					j.attribute("special", "move");
				}
			} else if (m->isCopyAssignmentOperator()) {
				j.attribute("special", "copyassign");
			} else if (m->isMoveAssignmentOperator()) {
				j.attribute("special", "moveassign");
			}
			j.objectEnd();
		}
		j.arrayEnd();
		j.attributeEnd();
		/* implicitly declared special members that exist even if not materialised */
		j.attribute("copyable", r->hasCopyConstructorWithConstParam() || r->needsImplicitCopyConstructor());
		j.attribute("hascopyctor", !r->defaultedCopyConstructorIsDeleted() && (r->needsImplicitCopyConstructor() || r->hasSimpleCopyConstructor() || r->hasUserDeclaredCopyConstructor() || r->hasTrivialCopyConstructor()));
		j.attribute("usercopyctor", r->hasUserDeclaredCopyConstructor());
		j.attribute("usercopyassign", r->hasUserDeclaredCopyAssignment());
		j.attribute("usermovector", r->hasUserDeclaredMoveConstructor());
		j.attribute("usermoveassign", r->hasUserDeclaredMoveAssignment());
		j.attribute("userdtor", r->hasUserDeclaredDestructor());
		j.objectEnd();
	}
};


class Collect : public RecursiveASTVisitor<Collect>
{
public:
	Collect(Dumper& d_) : d(d_) {}
	Dumper& d;
	std::vector<FunctionDecl const*> functions;
	std::vector<CXXRecordDecl const*> records;
	std::vector<EnumDecl const*> enums;
	std::vector<VarDecl const*> vars;

	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }

	bool TraverseDecl(Decl* x)
	{
		if (!x) {
			return true;
		}
		/* Skip whole top-level declarations that are outside the root, for speed */
		if (!isa<TranslationUnitDecl>(x) && !isa<NamespaceDecl>(x) && !isa<LinkageSpecDecl>(x) && x->getDeclContext()->isFileContext()) {
			if (!d.in_root(x->getLocation())) {
				return true;
			}
		}
		return RecursiveASTVisitor<Collect>::TraverseDecl(x);
	}

	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if (f->isThisDeclarationADefinition() && d.in_root(f->getLocation())) {
			functions.push_back(f);
		}
		return true;
	}

	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		if (r->isThisDeclarationADefinition() && d.in_root(r->getLocation())) {
			records.push_back(r);
		}
		return true;
	}

	bool VisitEnumDecl(EnumDecl* e)
	{
		if (e->isThisDeclarationADefinition() && d.in_root(e->getLocation())) {
			enums.push_back(e);
		}
		return true;
	}

	bool VisitVarDecl(VarDecl* v)
	{
		if (v->hasGlobalStorage() && !v->isStaticLocal() && v->isThisDeclarationADefinition() && !v->getDeclContext()->isDependentContext() && d.in_root(v->getLocation())) {
			vars.push_back(v);
		}
		return true;
	}
};


class Consumer : public ASTConsumer
{
public:
	/* Declarations parsed in this translation unit, i.e. not those from the precompiled header */
	std::vector<Decl*> top;

	/* Declarations deserialised from the precompiled header */
	void HandleInterestingDecl(DeclGroupRef) override {}

	bool HandleTopLevelDecl(DeclGroupRef g) override
	{
		for (auto i: g) {
			top.push_back(i);
		}
		return true;
	}

	void HandleTranslationUnit(ASTContext& ctx) override
	{
		error_count = ctx.getDiagnostics().getClient()->getNumErrors();
		Dumper d(ctx);
		Collect c(d);
		auto const copy = top;
		for (auto i: copy) {
			c.TraverseDecl(i);
		}

		d.j.objectBegin();
		d.j.attribute("errors", error_count);
		d.j.attributeBegin("functions");
		d.j.arrayBegin();
		for (auto f: c.functions) {
			if (auto m = dyn_cast<CXXMethodDecl>(f)) {
				if (m->getParent()->isLambda()) {
					continue;
				}
			}
			d.function(f);
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		d.j.attributeBegin("globals");
		d.j.arrayBegin();
		for (auto v: c.vars) {
			d.j.objectBegin();
			d.var_decl(v);
			d.j.attribute("q", d.qname(v));
			d.j.attribute("file", d.file_of(v->getLocation()));
			d.j.objectEnd();
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		/* lambdas in initialisers of globals */
		d.j.attributeBegin("functions2");
		d.j.arrayBegin();
		while (!d.pending_lambdas.empty()) {
			auto l = d.pending_lambdas.back();
			d.pending_lambdas.pop_back();
			d.function(l);
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		d.j.attributeBegin("records");
		d.j.arrayBegin();
		for (auto r: c.records) {
			d.record(r);
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		d.j.attributeBegin("enums");
		d.j.arrayBegin();
		for (auto e: c.enums) {
			d.j.objectBegin();
			d.j.attribute("q", d.qname(e));
			d.j.attribute("file", d.file_of(e->getLocation()));
			d.j.attribute("l", d.line_of(e->getLocation()));
			d.j.attributeBegin("c");
			d.j.arrayBegin();
			for (auto i: e->enumerators()) {
				d.j.arrayBegin();
				d.j.value(i->getNameAsString());
				d.j.value(i->getInitVal().getExtValue());
				d.j.value(d.line_of(i->getLocation()));
				d.j.arrayEnd();
			}
			d.j.arrayEnd();
			d.j.attributeEnd();
			d.j.objectEnd();
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		d.j.attributeBegin("types");
		d.j.arrayBegin();
		for (auto const& t: d.type_list) {
			d.j.value(t);
		}
		d.j.arrayEnd();
		d.j.attributeEnd();
		d.j.objectEnd();
		d.o.flush();

		std::error_code ec;
		llvm::raw_fd_ostream out(out_file, ec);
		if (ec) {
			llvm::errs() << "cannot write " << out_file << "\n";
			exit(3);
		}
		out << d.buffer;
	}
};


class Action : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

}


int
main(int argc, char** argv)
{
	if (argc < 5) {
		llvm::errs() << "usage: extract ROOT OUT SOURCE -- FLAGS\n";
		return 2;
	}
	root_dir = argv[1];
	out_file = argv[2];
	string source = argv[3];
	std::vector<string> flags;
	for (int i = 5; i < argc; ++i) {
		flags.push_back(argv[i]);
	}
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {source});
	auto r = tool.run(tooling::newFrontendActionFactory<Action>().get());
	return r ? 1 : 0;
}
