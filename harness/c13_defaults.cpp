// default arguments: one registration per callable argument count
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;

struct Fn { const char *qname, *prefix, *names[3], *call; unsigned n; bool ctor, method; unsigned first; };

// number of arguments a registration line takes, by its pybind11::arg() entries; checks that they are the first ones, in order
static int args_of(string const &l, Fn const &f)
{
	unsigned k = count(l, "pybind11::arg(\"");
	if( k > f.n ) return -1;
	string expect;
	for( unsigned i = 0; i < k; ++i ) expect += ", pybind11::arg(\"" + string(f.names[i]) + "\")";
	return has(l, expect) ? (int)k : -1;
}

// constructors that copy an object and have more parameters
static void copies()
{
	bool sym = sym_mode();
	unsigned b = pick("b.default", 2), c = pick("c.default", 2), x = pick("x.default", 2), abstract = pick("abstract", 3), sa = choose("S.access", 3), ta = choose("T.access", 3); // 0: no virtual methods, 1: virtual, 2: pure
	sym_assume(b <= c);
	auto d = [&](unsigned def, const char *v) { return def ? string(v) : string(); };
	static const char *AS[] = {"public", "protected", "private"};
	string h = string("#pragma once\nnamespace n {\nstruct S { S(int);\n") + AS[sym ? 0 : sa] + ": S(S const &a, int b" + d(b, " = 1") + ", double c" + d(c, " = 2") + ");\npublic:\n" + (abstract == 2 ? "virtual int v() = 0;\n" : abstract ? "virtual int v();\n" : "") + "};\n"
		"struct T { T();\n" + AS[sym ? 0 : ta] + ": T(T &a, bool x" + d(x, " = true") + "); };\n}\n";
	on_ast = [&](clang::ASTContext &ctx) {
		auto *s = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(ctx.getTranslationUnitDecl(), "n::S::S", 1)), *t = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(ctx.getTranslationUnitDecl(), "n::T::T", 1));
		if( !s or !t ) { check(false, "no-declaration"); return; }
		s->setAccess((clang::AccessSpecifier)sa);
		t->setAccess((clang::AccessSpecifier)ta);
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	sa = (unsigned)sym_value(sa), ta = (unsigned)sym_value(ta);
	sym_reach(("count" + num(b + c)).c_str());
	string S = abstract == 2 ? "PyCallBack_n_S" : "n::S";
	check(count(r.code, "pybind11::init<const struct n::S &, int, double>(), pybind11::arg(\"a\"), pybind11::arg(\"b\"), pybind11::arg(\"c\") )") == (sa == 0), "every-argument-count-once");
	check(count(r.code, "[](const struct n::S & a0, int const & a1){ return new " + S + "(a0, a1); }") == (sa ? 0 : c), "every-argument-count-once");
	check(count(r.code, "[](const struct n::S & a0, int const & a1){ return new PyCallBack_n_S(a0, a1); }") == (abstract and sa == 0 ? c : 0), "every-argument-count-once");
	string copy = abstract == 2 ? "cl.def(pybind11::init<PyCallBack_n_S const &>())" : "[](n::S const &o){ return new n::S(o); }";
	check(b ? count(r.code, copy) == (sa == 0) : count(r.code, copy) <= 1, "every-argument-count-once"); // otherwise the class has an implicit copy constructor
	check(not has(r.code, "(a0); }"), "one-registration-per-argument-count");
	check(count(r.code, "pybind11::init<struct n::T &, bool>(), pybind11::arg(\"a\"), pybind11::arg(\"x\") )") == (ta == 0), "every-argument-count-once");
	check(count(r.code, "[](n::T &o){ return new n::T(o); }") == (ta ? 0 : x), "every-argument-count-once");
	for( auto &l : lines_with(r.code, "pybind11::init") )
		if( has(l, "a0") or has(l, "init<const") or has(l, "init<struct") ) observe(l);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 3 ) return copies();
	std::vector<Fn> fns;
	if( which == 0 ) {
		fns.push_back({"n::f", "\tM(\"n\").def(\"f\", ", {"a", "b", "c"}, "n::f(", 3, false, false, 0});
		fns.push_back({"n::S::m", "cl.def(\"m\", ", {"a", "b", "c"}, "o.m(", 3, false, true, 0});
		fns.push_back({"n::S::s", "cl.def_static(\"s\", ", {"a", "b", "c"}, "n::S::s(", 3, false, false, 0});
	}
	else if( which == 2 ) { // instantiations of function templates, methods that a using declaration makes accessible
		fns.push_back({"n::tf", "\tM(\"n\").def(\"tf\", ", {"a", "b", "c"}, "n::tf<int>(", 3, false, false, 0});
		fns.push_back({"n::S::tm", "cl.def(\"tm\", ", {"a", "b", ""}, "o.tm<int>(", 2, false, true, 0});
		fns.push_back({"n::B::u", "cl.def(\"u\", ", {"a", "b", "c"}, "o.u(", 3, false, true, 0});
	}
	else {
		fns.push_back({"n::S::S", "cl.def( pybind11::init", {"a", "b", "c"}, "new n::S(", 3, true, false, 0});
		fns.push_back({"n::v", "\tM(\"n\").def(\"v\", ", {"a", "b", ""}, "n::v(", 2, false, false, 0});
		fns.push_back({"n::r", "\tM(\"n\").def(\"r\", ", {"a", "g", "c"}, "n::r(", 3, false, false, 0});
	}
	bool sym = sym_mode();
	std::vector<std::vector<unsigned>> bits;
	for( auto &f : fns ) {
		std::vector<unsigned> b;
		unsigned sum = 0, prev = 0;
		for( unsigned i = 0; i < f.n; ++i ) {
			unsigned x = choose((string(f.qname) + ".def" + num(i)).c_str(), 2);
			sym_assume(prev <= x); // C++ only allows trailing defaults
			prev = x;
			sum += x;
			b.push_back(x);
		}
		f.first = f.n - sum;
		bits.push_back(b);
	}
	auto d = [&](string const &q, unsigned i, string const &v) -> string {
		if( not sym )
			for( unsigned k = 0; k < fns.size(); ++k )
				if( q == fns[k].qname and bits[k][i] ) return " = " + v;
		return "";
	};
	string h = "#pragma once\nnamespace n {\nstruct P { P(); P(P const &); };\n";
	h += "int f(int a" + d("n::f", 0, "1") + ", P const &b" + d("n::f", 1, "P()") + ", double c" + d("n::f", 2, "2.0") + ");\n";
	h += "int v(int a" + d("n::v", 0, "1") + ", double b" + d("n::v", 1, "2.0") + ", ...);\n";
	h += "int one(double x);\n";
	if( which == 2 ) {
		h += "template <class T> T tf(int a" + d("n::tf", 0, "1") + ", P const &b" + d("n::tf", 1, "P()") + ", double c" + d("n::tf", 2, "2.0") + ") { return T(); }\ntemplate int tf<int>(int, P const &, double);\n";
		h += "template <class... T> void pk(int a, int b = 2, T... c) {}\ntemplate void pk<>(int, int);\ntemplate void pk<int, double>(int, int, int, double);\n";
		h += "struct B { protected: int u(int a" + d("n::B::u", 0, "1") + ", P *b" + d("n::B::u", 1, "nullptr") + ", double c" + d("n::B::u", 2, "3") + "); };\nstruct D : B { using B::u; };\n";
	}
	h += "int r(int a" + d("n::r", 0, "1") + ", double (&g)(double)" + d("n::r", 1, "*(double(*)(double))0") + ", bool c" + d("n::r", 2, "true") + ");\n";
	h += "struct S {\n";
	h += "S(int a" + d("n::S::S", 0, "1") + ", P b" + d("n::S::S", 1, "P()") + ", double c" + d("n::S::S", 2, "3") + ");\n";
	h += "int m(int a" + d("n::S::m", 0, "1") + ", P *b" + d("n::S::m", 1, "nullptr") + ", double c" + d("n::S::m", 2, "3") + ") const;\n";
	h += "static int s(int a" + d("n::S::s", 0, "1") + ", P *b" + d("n::S::s", 1, "nullptr") + ", double c" + d("n::S::s", 2, "3") + ");\n";
	if( which == 2 ) h += "template <class T> T tm(double a" + d("n::S::tm", 0, "1") + ", P *b" + d("n::S::tm", 1, "nullptr") + ") { return T(); }\n";
	h += "};\n";
	if( which == 2 ) h += "template int S::tm<int>(double, P *);\n";
	h += "}\n";
	on_ast = [&](clang::ASTContext &c) {
		for( unsigned k = 0; k < fns.size(); ++k ) {
			auto *nd = find(c.getTranslationUnitDecl(), fns[k].qname);
			auto *f = llvm::dyn_cast_or_null<clang::FunctionDecl>(nd);
			if( auto *t = llvm::dyn_cast_or_null<clang::FunctionTemplateDecl>(nd) ) f = *t->spec_begin();
			if( !f ) { check(false, "no-declaration"); return; }
			for( unsigned i = 0; i < fns[k].n; ++i ) set_attr(f->getParamDecl(i), A_defarg, bits[k][i]);
		}
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	for( auto &f : fns ) {
		unsigned first = (unsigned)sym_value(f.first);
		bool fn_ref = string(f.qname) == "n::r", variadic = string(f.qname) == "n::v" or string(f.qname) == "n::B::u", templ = string(f.qname) == "n::tf" or string(f.qname) == "n::S::tm";
		if( fn_ref ) first = f.n; // lambdas are not generated when a parameter has a function type
		std::vector<string> lines;
		for( auto &l : lines_with(r.code, f.prefix) )
			if( not f.ctor or has(l, "pybind11::arg(") or has(l, "[](){ return new n::S()") ) lines.push_back(l);
		sym_reach(("count" + num(f.n - first)).c_str());
		check(lines.size() == f.n - first + 1, "one-registration-per-argument-count");
		unsigned seen[5] = {0, 0, 0, 0, 0};
		for( auto &l : lines ) {
			int k = args_of(l, f);
			check(k >= 0, "argument-names-in-order");
			if( k < 0 ) continue;
			++seen[k];
			if( (unsigned)k < f.n or variadic ) { // forwards exactly the first k arguments
				string call = f.call;
				for( int i = 0; i < k; ++i ) call += (i ? ", a" : "a") + num(i);
				check(has(l, call + ");"), "forwards-the-given-arguments");
				for( int i = 0; i < k; ++i ) check(count(l, " a" + num(i)) + count(l, "(a" + num(i)) == 2, "one-parameter-per-argument");
				check(not has(l, " a" + num(k)), "no-extra-parameter");
			}
			else if( not f.ctor ) check(has(l, "&" + string(f.qname) + (templ ? "<int>" : "") + ","), "full-signature-bound-directly");
		}
		for( unsigned k = first; k <= f.n; ++k ) check(seen[k] == 1, "every-argument-count-once");
	}
	if( which == 2 ) { // the values of a pack are never left out
		check(count(r.code, "def(\"pk\"") == 3, "one-registration-per-argument-count");
		check(count(r.code, "return n::pk(a0);") == 1 and count(r.code, "&n::pk, ") == 1 and count(r.code, "&n::pk<int, double>, ") == 1, "every-argument-count-once");
		check(count(r.code, "[](n::D &o") == count(r.code, "cl.def(\"u\""), "called-on-the-derived-class");
	}
	observe(r.code);
}
