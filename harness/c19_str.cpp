// string conversion: __str__ for exactly the classes that have an insertion operator
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;
static const string stream = "#pragma once\nnamespace std { template <class C> class basic_ostream {}; typedef basic_ostream<char> ostream; template <class C> class basic_istream {}; typedef basic_istream<char> istream; }\n";

// registration of X among the generated text: from its class_ line to the end of its scope
static string block(string const &code, string const &X)
{
	size_t b = code.find("pybind11::class_<" + X + ", ");
	check(b != string::npos, "class-registered");
	if( b == string::npos ) return "";
	size_t e = code.find("pybind11::class_<", b + 1), e2 = code.find("\n}\n", b);
	if( e == string::npos or e2 < e ) e = e2;
	return code.substr(b, e == string::npos ? e : e - b);
}
// X has a string conversion by an operator of the given namespace (or none: op == nullptr)
static void check_class(string const &code, string const &X, const char *op)
{
	auto ls = lines_with(block(code, X), "\"__str__\"");
	check(ls.size() == (op ? 1u : 0u), op ? "has-str" : "has-no-str");
	sym_reach(op ? "str" : "no-str");
	if( not op or ls.size() != 1 ) return;
	string const &l = ls[0];
	check(has(l, "cl.def(\"__str__\", [](" + X + " const &o)"), "str-of-own-class");
	string ns = op;
	bool visible = ns.empty() ? not has(l, "using namespace") : (has(l, " using namespace " + ns + "; ") and has(l, "s << o;")) or has(l, ns + "::operator<<(s, o)");
	check(visible, "operator-visible");
	check(has(l, "std::ostringstream s;") and has(l, "return s.str();"), "str-returns-text");
}

struct Op { const char *ret, *p1, *p2, *cls; };
// forms of the first operator: exact ones, and others that are not insertion operators of the class
static const std::vector<Op> ops = {
	{"std::ostream &", "std::ostream &", "int", 0}, {"std::ostream &", "std::ostream &", "n::A const &", "n::A"}, {"std::ostream &", "std::ostream &", "n::B const &", "n::B"}, {"std::ostream &", "std::ostream &", "k::A const &", "k::A"},
	{"std::ostream &", "std::ostream &", "n::T<int> const &", "n::T<int>"}, {"std::ostream &", "std::ostream &", "n::T<n::A> const &", "n::T<n::A>"}, {"std::ostream &", "std::ostream &", "O::I const &", "O::I"},
	{"std::ostream &", "std::ostream &", "n::A const *", 0}, {"void", "std::ostream &", "n::A const &", 0}, {"std::istream &", "std::ostream &", "n::A const &", 0}, {"std::ostream &", "std::istream &", "n::A const &", 0}, {"std::ostream &", "n::B &", "n::A const &", 0},
	{"std::ostream &", "std::ostream &", "D const &", "D"}, {"std::ostream &", "std::ostream &", "n::U<int> const &", "n::U<int>"}};
static const std::vector<unsigned> second = {0, 2, 3, 4, 6, 12};
static const char *classes[] = {"n::A", "n::B", "k::A", "n::T<int>", "n::T<n::A>", "O::I", "O", "D", "n::U<int>"};

static void operators(bool split)
{
	bool sym = sym_mode();
	unsigned c0 = choose("op0", ops.size()), c1 = choose("op1", second.size());
	string types = stream + "namespace n { struct A {}; class B {}; template <class X> struct T {}; template <class X> class U {}; template struct T<int>; template struct T<A>; template class U<int>; }\nnamespace k { struct A {}; }\nclass O { public: struct I {}; };\nclass D; struct D : n::A {};\n";
	string z = "namespace z {\n";
	for( unsigned i = 0; i < ops.size(); ++i ) z += string(ops[i].ret) + " t" + num(i) + "(" + ops[i].p1 + ", " + ops[i].p2 + ");\n";
	types += z + "}\n";
	auto text = [&](unsigned i) { return sym ? string("int operator<<(n::A &, n::A &);\n") : string(ops[i].ret) + " operator<<(" + ops[i].p1 + ", " + ops[i].p2 + ");\n"; };
	// the second one is that of a namespace which neither the classes nor the streams belong to
	headers = {{"types.hpp", types, true}, {"op0.hpp", "#pragma once\n#include <types.hpp>\nnamespace n {\n" + text(c0) + "}\n", true}, {"op1.hpp", "#pragma once\n#include <types.hpp>\nnamespace z { namespace y {\n" + text(sym ? 0 : second[c1]) + "} }\n", true}};
	for( unsigned i = 1; i < second.size(); ++i ) sym_assume(not (c1 == i and c0 == second[i])); // would be ambiguous
	char skip[2] = {line("function n::A::__str__", "#-"), line("function n::T::__str__", "#-")};
	on_ast = [&](clang::ASTContext &ctx) {
		auto *tu = ctx.getTranslationUnitDecl();
		for( unsigned k = 0; k < 2; ++k ) {
			auto *f = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, k ? "z::y::operator<<" : "n::operator<<"));
			unsigned i = k ? second[sym_value(c1)] : (unsigned)sym_value(c0);
			auto *t = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, "z::t" + num(i)));
			if( !f or !t ) { check(false, "no-declaration"); return; }
			set_attr(f, A_rettype, (uint64_t)t->getReturnType().getAsOpaquePtr());
			for( unsigned p = 0; p < 2; ++p ) {
				set_attr(f->getParamDecl(p), A_origtype, (uint64_t)t->getParamDecl(p)->getOriginalType().getAsOpaquePtr());
				set_attr(f->getParamDecl(p), A_type, (uint64_t)t->getParamDecl(p)->getType().getAsOpaquePtr());
			}
		}
	};
	std::vector<string> args = {"--bind", "", "--skip", "z", "--skip-line-number"};
	if( split ) args.push_back("--max-file-size"), args.push_back("1");
	else args.push_back("--single-file");
	Result r = run("", config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	const Op *o[2] = {&ops[sym_value(c0)], &ops[second[sym_value(c1)]]};
	string last;
	for( string X : classes ) {
		bool skipped = (X == "n::A" and val(skip[0]) == '-') or (X.compare(0, 5, "n::T<") == 0 and val(skip[1]) == '-');
		const char *op = nullptr;
		for( unsigned k = 0; k < 2; ++k )
			if( o[k]->cls and X == o[k]->cls and not skipped ) op = k ? "z::y" : "n";
		if( not split ) check_class(r.code, X, op);
		else if( X != "O::I" ) {
			for( auto &f : r.files ) {
				if( not has(f.second, "pybind11::class_<" + X + ", ") ) continue;
				string nested = "O::I";
				if( X != "O" ) check_class(f.second, X, op);
				for( unsigned k = 0; k < 2; ++k ) {
					bool needed = op and string(op) == (k ? "z::y" : "n");
					if( X == "O" ) needed = o[k]->cls and nested == o[k]->cls;
					check(count(f.second, "#include <op" + num(k) + ".hpp>\n") == (needed ? 1u : 0u), needed ? "operator-header-included" : "operator-header-not-included");
				}
			}
		}
	}
	check(not has(r.all, ".def(\"__lshift__\""), "not-registered-as-operator");
	observe(r.all);
}

// templates, friends and nested classes, each skipped or not
static void templates()
{
	string h = stream +
		"namespace a {\n"
		"struct S {};\nclass K { friend std::ostream &operator<<(std::ostream &, K const &); };\n"
		"template <class X> struct T1 {};\ntemplate <class X> std::ostream &operator<<(std::ostream &, T1<X> const &);\n"
		"template <class X, class Y> class T2 {};\ntemplate <class X, class Y> std::ostream &operator<<(std::ostream &, T2<X, Y> const &);\n"
		"template <class X> class F1 { friend std::ostream &operator<<(std::ostream &o, F1 const &) { return o; } };\n"
		"template <class X> struct N1 {};\nstd::ostream &operator<<(std::ostream &, N1<bool> const &);\nstd::ostream &operator<<(std::ostream &, N1<N1<bool> *> const &);\n"
		"template <class X> struct P1 {};\ntemplate <class X> std::ostream &operator<<(std::ostream &, P1<X> &);\n"
		"namespace b { template <class X> struct T1 {}; template <class X> struct N1 {}; template <class X> std::ostream &operator<<(std::ostream &, N1<X> const &); struct S {}; }\n"
		"struct O { struct I {}; class J { public: struct L {}; }; template <class X> struct T1 {}; T1<int> m(); };\nstd::ostream &operator<<(std::ostream &, O::I const &);\nstd::ostream &operator<<(std::ostream &, O::J::L const &);\n"
		"}\nstruct G : a::K {};\nstruct H {};\nstd::ostream &operator<<(std::ostream &, a::b::S const &);\nstd::ostream &operator<<(std::ostream &, H const &);\n"
		"template struct a::T1<int>;\ntemplate struct a::T1<a::S>;\ntemplate struct a::b::T1<int>;\ntemplate class a::T2<int, a::S>;\ntemplate class a::F1<int>;\ntemplate struct a::N1<int>;\ntemplate struct a::N1<bool>;\ntemplate struct a::N1<a::N1<bool> *>;\ntemplate struct a::b::N1<int>;\ntemplate struct a::P1<int>;\n";
	struct C { string name; const char *op; };
	std::vector<C> cs = {{"a::S", 0}, {"a::K", "a"}, {"a::T1<int>", "a"}, {"a::T1<a::S>", "a"}, {"a::T2<int,a::S>", "a"}, {"a::F1<int>", "a"}, {"a::N1<int>", 0}, {"a::N1<bool>", "a"}, {"a::N1<a::N1<bool> *>", "a"}, {"a::P1<int>", 0}, {"a::b::T1<int>", 0}, {"a::b::N1<int>", "a::b"}, {"a::b::S", ""},
		{"a::O", 0}, {"a::O::I", "a"}, {"a::O::J", 0}, {"a::O::J::L", "a"}, {"G", 0}, {"H", ""}};
	std::vector<std::vector<string>> groups = {{"a::K", "a::T1<int>", "a::T1", "a::O::I", "H"}, {"a::F1<int>", "a::b::S", "a::T2", "a::b::N1<int>", "a::O::J::L"}};
	auto &g = groups[sym_param("group", 0)];
	std::map<string, char> skip;
	for( auto &s : g ) skip[s] = line("function " + s + "::__str__", "#-");
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	for( auto &c : cs ) {
		string plain = c.name.substr(0, c.name.find('<'));
		bool skipped = (skip.count(c.name) and val(skip[c.name]) == '-') or (skip.count(plain) and val(skip[plain]) == '-');
		check_class(r.code, c.name, skipped ? nullptr : c.op);
	}
	observe(r.code);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which < 2 ) operators(which == 1);
	else templates();
}
