// includes: every generated file includes the headers of what it registers and of the types this uses, and what the configuration says
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;
struct T { const char *spelled; std::set<string> needs; };
static const std::vector<T> types = {{"int", {}}, {"t::A const &", {"a.hpp"}}, {"t::A *", {"a.hpp"}}, {"t::A", {"a.hpp"}}, {"t::E", {"e.hpp"}}, {"t::X<t::B> &", {"x.hpp", "b.hpp"}}, {"t::X<t::X<t::E>> *", {"x.hpp", "e.hpp"}}, {"t::AP", {"a.hpp"}},
	{"t::X<t::A *> const &", {"x.hpp", "a.hpp"}}, {"t::Y<int, char, t::B> *", {"x.hpp", "b.hpp"}}, {"t::K<t::B, t::E> &", {"x.hpp", "b.hpp", "e.hpp"}}, {"t::V<(t::E)0> &", {"x.hpp", "e.hpp"}}, {"t::W<t::U> const &", {"u.hpp", "w.hpp"}}, {"t::W2<int, t::U> *", {"u.hpp", "w.hpp"}}, {"t::D1<&t::gv> &", {"w.hpp", "g.hpp"}}, {"t::D2<int, t::fn> &", {"w.hpp", "g.hpp"}}};
static const char *all[] = {"g.hpp", "w.hpp", "u.hpp", "a.hpp", "b.hpp", "e.hpp", "x.hpp", "z.hpp", "c1.hpp", "c2.hpp"};

static void check_file(string const &text, std::set<string> const &needs, bool exact)
{
	for( auto *h : all ) {
		unsigned n = count(text, string("#include <") + h + ">\n");
		if( needs.count(h) ) check(n == 1, "needed-header-included"), sym_reach("needed");
		else if( exact ) check(n == 0, "other-header-not-included"), sym_reach("not-needed");
	}
}
static string file_with(Result const &r, string const &what)
{
	for( auto &f : r.files )
		if( has(f.second, what) ) return f.second;
	check(false, "registered");
	return "";
}
// headers and forward declarations of the types
static string types_header()
{
	headers = {{"a.hpp", "#pragma once\nnamespace t { struct A { A(); A(A const &); }; }\n", true}, {"b.hpp", "#pragma once\nnamespace t { struct B { B(); }; }\n", true}, {"e.hpp", "#pragma once\nnamespace t { enum E : int { e0 }; }\n", true},
		{"x.hpp", "#pragma once\nnamespace t { template <class T> struct X { X() {} }; template <class A, class B, class C> struct Y { Y() {} }; template <class... T> struct K { K() {} }; enum E : int; template <E e> struct V { V() {} }; }\n", true}, {"w.hpp", "#pragma once\nnamespace t { template <template <class> class T> struct W { W() {} }; template <class A, template <class> class T> struct W2 { W2() {} }; template <int *p> struct D1 { D1() {} }; template <class A, void (*p)(int)> struct D2 { D2() {} }; }\n", true}, {"g.hpp", "#pragma once\nnamespace t { extern int gv; void fn(int); }\n", true}, {"u.hpp", "#pragma once\nnamespace t { template <class T> struct U { U() {} }; }\n", true}, {"i.hpp", "#pragma once\n#include <a.hpp>\n#include <b.hpp>\n#include <e.hpp>\n#include <x.hpp>\n#include <w.hpp>\ntemplate struct t::Y<int, char, t::B>;\ntemplate struct t::K<t::B, t::E>;\ntemplate struct t::V<(t::E)0>;\ntemplate struct t::W<t::U>;\ntemplate struct t::W2<int, t::U>;\ntemplate struct t::D1<&t::gv>;\ntemplate struct t::D2<int, t::fn>;\ntemplate struct t::X<t::B>;\ntemplate struct t::X<t::E>;\ntemplate struct t::X<t::X<t::E>>;\ntemplate struct t::X<t::A *>;\n", true}, {"z.hpp", "#pragma once\nnamespace t { struct Z {}; }\n", true}, {"c1.hpp", "#pragma once\nint c1();\n", true}, {"c2.hpp", "#pragma once\nint c2();\n", true}};
	return "#pragma once\n#include <u.hpp>\n#include <g.hpp>\nnamespace t { struct A; struct B; enum E : int; template <class T> struct X; template <class A, class B, class C> struct Y; template <class... T> struct K; template <E e> struct V; template <template <class> class T> struct W; template <class A, template <class> class T> struct W2; template <int *p> struct D1; template <class A, void (*p)(int)> struct D2; typedef A *AP; }\n";
}
static std::vector<uint64_t> canonical(clang::ASTContext &ctx)
{
	std::vector<uint64_t> q;
	for( unsigned i = 0; i < types.size(); ++i ) {
		auto *t = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(ctx.getTranslationUnitDecl(), "z::t" + num(i)));
		check(t, "no-declaration");
		q.push_back(t ? (uint64_t)t->getParamDecl(0)->getOriginalType().getAsOpaquePtr() : 0);
	}
	return q;
}

// one registration per file; a symbolic type in each of two places of a signature
static void signatures(unsigned which)
{
	bool sym = sym_mode();
	string h = types_header() + "namespace z {\n";
	for( unsigned i = 0; i < types.size(); ++i ) h += "void t" + num(i) + "(" + types[i].spelled + ");\n";
	h += "}\nnamespace n {\n";
	std::vector<string> slots = which == 0 ? std::vector<string>{"f", "S"} : which == 1 ? std::vector<string>{"g", "m"} : std::vector<string>{"r", "st"};
	std::vector<unsigned> c;
	for( auto &s : slots ) c.push_back(choose(s.c_str(), types.size()));
	auto type = [&](string const &slot) {
		for( unsigned i = 0; i < slots.size(); ++i ) if( slots[i] == slot ) return string(sym ? "int" : types[c[i]].spelled);
		return string("int");
	};
	h += "void f(" + type("f") + " a);\n" + type("g") + " g(int a);\nstruct S { S(" + type("S") + " a, int b); void m(int b, " + type("m") + " a); " + type("r") + " r() const; static void st(" + type("st") + " a); };\nvoid o(int);\n}\n";
	// and a configured class, namespace and global include
	char ic = line("include_for_class n::S <c1.hpp>", "#+"), in = line("include_for_namespace n <c2.hpp>", "#+"), skip = line("include <a.hpp>", "#-");
	on_ast = [&](clang::ASTContext &ctx) {
		auto *tu = ctx.getTranslationUnitDecl();
		auto q = canonical(ctx);
		for( unsigned i = 0; i < slots.size(); ++i ) {
			string s = slots[i];
			auto *f = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, (s == "f" or s == "g" ? "n::" : "n::S::") + s));
			if( !f ) { check(false, "no-declaration"); return; }
			c[i] = (unsigned)sym_value(c[i]);
			if( s == "g" or s == "r" ) set_attr(f, A_rettype, q[c[i]]);
			else set_attr(f->getParamDecl(s == "m" ? 1 : 0), A_origtype, q[c[i]]);
		}
	};
	Result r = run(h, config, {"--bind", "n", "--max-file-size", "1", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	std::map<string, std::set<string>> needs;
	for( unsigned i = 0; i < slots.size(); ++i ) {
		c[i] = (unsigned)sym_value(c[i]);
		string s = slots[i];
		needs[s == "f" or s == "g" ? s : "S"].insert(types[c[i]].needs.begin(), types[c[i]].needs.end());
	}
	if( val(ic) == '+' ) needs["S"].insert("c1.hpp");
	for( string s : {"f", "g", "o", "S"} ) {
		auto n = needs[s];
		if( val(in) == '+' ) n.insert("c2.hpp");
		if( val(skip) == '-' ) n.erase("a.hpp");
		string text = file_with(r, s == "S" ? "class_<n::S, " : "(\"n\").def(\"" + s + "\"");
		check_file(text, n, true);
		check(count(text, "#include <h.hpp>\n") == 1, "own-header-included");
	}
	for( auto &f : r.files ) {
		if( has(f.second, "class_<t::A, ") ) check_file(f.second, val(skip) == '-' ? std::set<string>{} : std::set<string>{"a.hpp"}, true);
		if( has(f.second, "enum_<t::E>") ) check_file(f.second, {"e.hpp"}, true);
		if( has(f.second, "class_<t::X<t::B>, ") ) check_file(f.second, {"x.hpp", "b.hpp"}, true);
		if( has(f.second, "class_<t::X<t::A *>, ") and val(skip) != '-' ) check_file(f.second, {"x.hpp", "a.hpp"}, true);
	}
	observe(r.all);
}

// a chain of classes and an instantiated function, all of a namespace in one file or one each: the order in which declarations are visited does not matter
static void chain(bool split)
{
	bool sym = sym_mode();
	string h = types_header() + "namespace z {\n";
	for( unsigned i = 0; i < types.size(); ++i ) h += "void t" + num(i) + "(" + types[i].spelled + ");\n";
	unsigned c = choose("M", types.size());
	string t = sym ? "int" : types[c].spelled;
	h += "}\nnamespace n {\nstruct L; struct M; struct K { void k(L *); };\nstruct L { void l(M *); };\nstruct M { struct I { void i(M *); }; void m(" + t + "); };\n";
	h += "struct V { virtual ~V(); virtual void v(t::E); };\nstruct W : V { void w(); };\ntemplate <class T> void i(T *) {}\ntemplate <class T> int j(int) { return 0; }\nstruct Q { template <class T> void q(int) {} template <class T> static int qs(T) { return 0; } };\n}\n";
	headers.push_back({"inst.hpp", "#pragma once\n#include <a.hpp>\n#include <b.hpp>\n#include <e.hpp>\ntemplate void n::i<t::A>(t::A *);\ntemplate int n::j<t::B>(int);\ntemplate void n::Q::q<t::B>(int);\ntemplate int n::Q::qs<t::E>(t::E);\n", true});
	std::vector<char> flags;
	for( string s : {"n::K", "n::L", "n::V", "n::W"} ) flags.push_back(line("class " + s, "#-"));
	on_ast = [&](clang::ASTContext &ctx) {
		auto q = canonical(ctx);
		auto *f = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(ctx.getTranslationUnitDecl(), "n::M::m"));
		if( !f ) { check(false, "no-declaration"); return; }
		c = (unsigned)sym_value(c);
		set_attr(f->getParamDecl(0), A_origtype, q[c]);
	};
	std::vector<string> args = {"--bind", "n", "--skip-line-number"};
	if( split ) args.push_back("--max-file-size"), args.push_back("1");
	Result r = run(h, config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	c = (unsigned)sym_value(c);
	check_file(file_with(r, "class_<n::M, "), types[c].needs, false);
	check_file(file_with(r, "(\"n\").def(\"i\""), {"a.hpp"}, false);
	check_file(file_with(r, "(\"n\").def(\"j\""), {"b.hpp"}, false);
	check_file(file_with(r, "class_<n::Q, "), {"b.hpp", "e.hpp"}, false);
	if( val(flags[2]) != '-' ) check_file(file_with(r, "class_<n::V, "), {"e.hpp"}, false);
	// the override class of W overrides the method of V
	if( val(flags[3]) != '-' and has(r.all, "struct PyCallBack_n_W ") ) check_file(file_with(r, "struct PyCallBack_n_W "), {"e.hpp"}, false), sym_reach("inherited");
	for( auto &f : r.files ) check(not has(f.second, "z.hpp"), "unused-header-not-included");
	observe(r.all);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which < 3 ) signatures(which);
	else chain(which == 4);
}
