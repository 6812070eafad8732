// registrations refer to exactly the function they stand for: its qualified name, result, parameters, qualifiers and template arguments
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
struct T { const char *spelled, *canonical; bool ok; unsigned kind; }; // kind: 0 by value, 1 const value, 2 pointer or reference
static const T types[] = {
	{"int", "int", true, 0}, {"bool", "bool", true, 0}, {"n::P", "n::P", true, 0}, {"n::P const &", "const n::P &", true, 2}, {"n::PP", "n::P *", true, 2}, {"const n::P *", "const n::P *", true, 2},
	{"n::E", "n::E", true, 0}, {"n::F const &", "const n::F &", true, 2}, {"n::X<n::P> &", "n::X<n::P> &", true, 2}, {"n::X<n::S::J> const &", "const n::X<n::S::J> &", true, 2}, {"n::Y<n::E, 3>", "n::Y<n::E, 3>", true, 0},
	{"n::Z<n::F::f1> &", "n::Z<n::F::f1> &", true, 2}, {"n::K<int, bool> *", "n::K<int, bool> *", true, 2}, {"n::TT<n::X> const *", "const n::TT<n::X> *", true, 2}, {"unsigned long const", "const unsigned long", true, 1}, {"n::S::I", "n::S::I", true, 0},
	{"int const *const", "const int *const", true, 2}, {"n::U &", "n::U &", true, 2}, {"n::P &&", "", false, 0}, {"char **", "", false, 0}, {"n::FP", "", false, 0}, {"n::MP", "", false, 0}, {"n::MF const &", "", false, 0}};
static const unsigned N = sizeof(types) / sizeof(types[0]);
static const char *QUAL[] = {"", " const", " &", " const &", " &&", " volatile"};

// without keywords that may be left out, and without blanks
static string norm(string s)
{
	for( string k : {"struct ", "class ", "enum ", "union "} )
		for( size_t i = 0; (i = s.find(k, i)) != string::npos; )
			if( i == 0 or not (isalnum((unsigned char)s[i - 1]) or s[i - 1] == '_') ) s.erase(i, k.size()); else ++i;
	string r;
	for( char c : s ) if( c != ' ' and c != '\t' ) r += c;
	return r;
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0); // 0 function, 1 method, 2 static method, 3 method made accessible by a using declaration, 4 instantiation of a function template, 5 method of an instantiation of a class template, 6 variadic function, 7 virtual method, 8 constructor, 9 static method made accessible by a using declaration
	bool sym = sym_mode();
	unsigned a = choose("parameter", N), r = choose("result", N), def = choose("default", 2);
	bool method = which == 1 or which == 3 or which == 5 or which == 7;
	unsigned q = method ? pick("qualifier", 6) : 0;
	if( not sym_param("all", 0) ) sym_assume((a < 4) | (r < 4));
	if( which == 8 ) sym_assume(r == 0);
	if( q ) sym_assume((a < 3) & (r < 3));
	string A = sym ? "int" : types[a].spelled, R = sym ? "int" : types[r].spelled, D = not sym and def ? " = 1" : "";
	string sig = "(" + A + " a, int b" + D + (which == 6 ? ", ...)" : ")") + QUAL[q] + ";\n";
	string h = "#pragma once\nnamespace n {\nstruct P { P(); P(P const &); };\nenum E { e0 };\nenum class F { f0, f1 };\ntemplate <class T> struct X { X() {} };\ntemplate <class T, int N> struct Y { Y() {} };\ntemplate <F f> struct Z { Z() {} };\ntemplate <class... T> struct K { K() {} };\n"
		"template <template <class> class T> struct TT { TT() {} };\ntypedef P *PP;\nunion U { int a; };\ntypedef void (*FP)(int);\ntypedef int P::*MP;\ntypedef int (P::*MF)(int);\nstruct S { struct I { I(); }; enum J { j0 }; };\n"
		"template struct X<P>;\ntemplate struct X<S::J>;\ntemplate struct Y<E, 3>;\ntemplate struct Z<F::f1>;\ntemplate struct K<int, bool>;\ntemplate struct TT<X>;\n}\nnamespace z {\n";
	for( unsigned i = 0; i < N; ++i ) h += "void t" + num(i) + "(" + types[i].spelled + ");\n";
	h += "}\nnamespace m {\nvoid f(bool, bool);\nstruct O { void f(bool, bool); friend void hidden(O const &); friend void seen(O const &); };\nvoid seen(O const &);\n";
	string name = "f", cls, fn, inst; // cls: class of the object, with ::; fn: qualified name; inst: template arguments
	if( which == 0 or which == 6 ) h += R + " f" + sig, fn = "m::f";
	else if( which == 1 ) h += "struct C { " + R + " f" + sig + " };\n", cls = "m::C::", fn = "m::C::f";
	else if( which == 2 ) h += "struct C { static " + R + " f" + sig + " };\n", fn = "m::C::f";
	else if( which == 3 ) h += "struct B { protected: " + R + " f" + sig + " };\nstruct C : B { using B::f; };\n", cls = "m::C::", fn = "m::C::f";
	else if( which == 4 ) h += "template <class T, int N, class... V> " + R + " f(" + A + " a, int b" + D + ");\ntemplate <> " + R + " f<n::P, -2, int, bool>(" + A + " a, int b);\n", fn = "m::f", inst = "<n::P,-2,int,bool>";
	else if( which == 7 ) h += "struct C { virtual ~C(); virtual " + R + " f" + sig + " };\n", cls = "m::C::", fn = "m::C::f";
	else if( which == 9 ) h += "struct B { protected: static " + R + " f" + sig + " };\nstruct C : B { using B::f; };\n", fn = "m::C::f";
	else if( which == 8 ) h += "struct C { C" + sig + " };\n", fn = "m::C::C";
	else h += "template <class T, int N> struct C { " + R + " f" + sig + " };\ntemplate struct C<n::P, 2>;\n", cls = "m::C<n::P,2>::", fn = "m::C<n::P,2>::f";
	h += "}\n";
	on_ast = [&](clang::ASTContext &ctx) {
		auto *tu = ctx.getTranslationUnitDecl();
		clang::FunctionDecl *f = nullptr;
		if( which == 4 ) {
			if( auto *t = llvm::dyn_cast_or_null<clang::FunctionTemplateDecl>(find(tu, "m::f", 1)) )
				for( auto *s : t->specializations() ) f = s;
		}
		else if( which == 5 ) {
			if( auto *t = llvm::dyn_cast_or_null<clang::ClassTemplateDecl>(find(tu, "m::C")) )
				for( auto *s : t->specializations() )
					for( auto *m : s->methods() ) if( not m->isImplicit() ) f = m;
		}
		else f = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, which == 3 or which == 9 ? "m::B::f" : fn, which == 0 or which == 6 ? 1 : 0));
		if( !f ) { check(false, "no-declaration"); return; }
		a = (unsigned)sym_value(a), r = (unsigned)sym_value(r);
		auto type = [&](unsigned i) { auto *t = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, "z::t" + num(i))); check(t, "no-declaration"); return t ? (uint64_t)t->getParamDecl(0)->getOriginalType().getAsOpaquePtr() : 0; };
		set_attr(f, A_rettype, type(r));
		set_attr(f->getParamDecl(0), A_origtype, type(a));
		set_attr(f->getParamDecl(0), A_type, type(a));
		set_attr(f->getParamDecl(1), A_defarg, def);
	};
	Result res = run(h, "", {"--bind", "m", "--single-file", "--skip-line-number"});
	check(res.rc == 0 and not res.thrown, "succeeds");
	a = (unsigned)sym_value(a), r = (unsigned)sym_value(r), def = (unsigned)sym_value(def);
	bool ok = types[a].ok and types[r].ok and q < 4, lambda = which == 3 or which == 6 or which == 9, stat = which == 2 or which == 9;
	// where it is registered
	string code = res.code;
	if( which == 8 ) { // constructors
		string list = norm(types[a].canonical);
		auto all = lines_with(code, "cl.def( pybind11::init");
		unsigned full = 0, shorter = 0;
		for( auto &l : all ) {
			string n = norm(l), p = list + (types[a].kind == 0 ? "const&" : types[a].kind == 1 ? "&" : "") + "a0";
			full += has(n, "cl.def(pybind11::init<" + list + ",int>(),");
			shorter += has(n, "cl.def(pybind11::init([](" + p + "){returnnewm::C(a0);}),");
		}
		check(full == (ok ? 1u : 0u), "refers-to-the-function");
		check(shorter == (ok and def ? 1u : 0u), "shorter-form-calls-the-function");
		check(has(code, "pybind11::class_<m::C,"), "class-registered");
		string c = code.substr(code.find("pybind11::class_<m::C,"));
		c = c.substr(0, c.find("\n\t}\n"));
		check(count(c, "pybind11::init") == full + shorter, "nothing-else-registered");
		sym_reach(not ok ? "not-usable" : def ? "both" : "one");
		observe(res.code);
		return;
	}
	if( which == 7 ) { // override
		size_t b = code.find("struct PyCallBack_m_C "), e = b == string::npos ? b : code.find("\n};\n", b);
		string o = e == string::npos ? "" : norm(code.substr(b, e - b)), result = norm(types[r].canonical);
		// types it gave names to
		for( size_t i = 0; (i = o.find("\nusing", i)) != string::npos; ) {
			size_t eq = o.find('=', i), end = o.find(';', i);
			if( eq == string::npos or end == string::npos or eq > end ) { ++i; continue; }
			string alias = o.substr(i + 6, eq - i - 6), what = o.substr(eq + 1, end - eq - 1);
			o.erase(i, end + 1 - i);
			for( size_t k = 0; (k = o.find(alias, k)) != string::npos; k += what.size() ) o.replace(k, alias.size(), what);
		}
		check(count(o, "override{") == (ok ? 1u : 0u), "overridden-iff-usable");
		if( ok ) {
			check(has(o, "\n" + result + "f(" + norm(types[a].canonical) + "a0,inta1)" + norm(QUAL[q]) + "override{"), "overrides-the-function");
			check(has(o, "returnpybind11::detail::cast_safe<" + result + ">(std::move(o));") and has(o, "returnpybind11::detail::cast_ref<" + result + ">(std::move(o),caster);") and has(o, "returnC::f(a0,a1);"), "override-returns-its-result");
		}
	}
	if( cls.size() or stat ) {
		string c = which == 5 ? "m::C<n::P,2>" : "m::C";
		size_t b = code.find("pybind11::class_<" + c + ","), e = b == string::npos ? b : code.find("\n\t}\n", b);
		check(e != string::npos, "class-registered");
		code = e == string::npos ? "" : code.substr(b, e - b);
	}
	string def_ = stat ? "cl.def_static(\"f\", " : cls.size() ? "cl.def(\"f\", " : "M(\"m\").def(\"f\", ";
	std::vector<string> ls;
	for( auto &l : lines_with(code, def_) )
		if( cls.size() or stat or not has(l, "(bool, bool)") ) ls.push_back(l);
	check(ls.size() == (ok ? 1u + def : 0u), "registered-iff-usable");
	string p = norm(types[a].canonical) + (types[a].kind == 0 ? "const&" : types[a].kind == 1 ? "&" : "") + "a0", result = norm(types[r].canonical);
	string object = cls.size() ? cls.substr(0, cls.size() - 2) + (q & 1 ? "const" : "") + "&o," : "", call = (cls.size() ? "o.f" : fn) + inst;
	string address = "(" + result + "(" + cls + "*)(" + norm(types[a].canonical) + ",int)" + norm(QUAL[q]) + ")&" + fn + inst + ",";
	unsigned full = 0, shorter = 0;
	for( auto &l : ls ) {
		string n = norm(l);
		if( lambda ? has(n, "[](" + object + p + ",intconst&a1)->" + result + "{return" + call + "(a0,a1);},") : has(n, address) ) ++full;
		if( has(n, "[](" + object + p + ")->" + result + "{return" + call + "(a0);},") ) ++shorter;
		for( auto k : {") -> struct ", ") -> class ", ") -> enum ", ") -> const struct ", ") -> const class ", ") -> const enum "} ) check(not has(l, k), "result-can-be-used-in-lambda"); // gcc takes it for a definition
	}
	check(full == (ok ? 1u : 0u), "refers-to-the-function");
	check(shorter == (ok and def ? 1u : 0u), "shorter-form-calls-the-function");
	sym_reach(not ok ? "not-usable" : def ? "both" : "one");
	// other functions of that name
	check(count_lines(res.code, "M(\"m\").def(\"f\", ", "(void (*)(bool, bool)) &m::f,") == 1 and count_lines(res.code, "cl.def(\"f\", ", "(void (m::O::*)(bool, bool)) &m::O::f,") == 1, "other-functions-of-that-name");
	check(count(res.code, "hidden") == 0 and count_lines(res.code, "M(\"m\").def(\"seen\", ", "(void (*)(const struct m::O &)) &m::seen,") == 1, "friends-iff-they-have-a-name");
	observe(res.code);
}
