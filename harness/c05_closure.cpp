// types that registered functions, methods and constructors use are registered too, wherever they are declared; types nobody uses are not
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;
struct T { const char *spelled; const char *needs; bool ok; }; // needs: A, E, T or B; ok: can be part of a signature
static const T types[] = {
	{"int", "", true}, {"m::A const &", "A", true}, {"m::A *", "A", true}, {"m::E", "E", true}, {"m::T<int> &", "T", true}, {"m::B", "B", true}, {"m::AP", "A", true}, {"m::AR", "A", true},
	{"m::A const *", "A", true}, {"m::E const &", "E", true}, {"m::T<int> const *", "T", true}, {"m::F *", "", false}, {"m::A **", "", false}, {"m::A *&", "A", true}};
static const unsigned N = sizeof(types) / sizeof(types[0]);

extern "C" void harness_main()
{
	bool sym = sym_mode();
	unsigned which = sym_param("which", 0);
	string h = "#pragma once\nnamespace m {\nstruct A { A(); A(A const &); };\ntypedef A *AP;\ntypedef A const &AR;\nenum E { e0 };\nstruct F;\ntemplate <class X> struct T { T() {} X x; };\ntemplate struct T<int>;\n"
		"struct C { C(); C(C const &); };\nstruct D { D(); };\nstruct G { G(); };\nenum H { h0 };\nstruct BB { BB(); BB(BB const &); };\nstruct B : BB { B(); B(B const &); void b(C &); protected: void p(D *); };\n}\nnamespace z {\n";
	for( unsigned i = 0; i < N; ++i ) h += "void t" + num(i) + "(" + types[i].spelled + ");\n";
	h += "}\nnamespace n {\n";
	std::vector<string> slots = which == 0 ? std::vector<string>{"f", "S"} : which == 1 ? std::vector<string>{"g", "m"} : std::vector<string>{"r", "st"};
	std::vector<unsigned> c;
	auto type = [&](string const &slot) {
		for( unsigned i = 0; i < slots.size(); ++i ) if( slots[i] == slot ) return string(sym ? "int" : types[c[i]].spelled);
		return string("int");
	};
	for( auto &s : slots ) c.push_back(choose(s.c_str(), N));
	string ex = which == 0 and pick("explicit", 2) ? "explicit " : "";
	h += "void f(" + type("f") + " a);\n" + type("g") + " g(int a);\nstruct S { " + ex + "S(" + type("S") + " a, int b); void m(int b, " + type("m") + " a); " + type("r") + " r() const; static void st(" + type("st") + " a); };\n}\n";
	char sa = line("class m::A", "#-"), se = line("enum m::E", "#-");
	on_ast = [&](clang::ASTContext &ctx) {
		auto *tu = ctx.getTranslationUnitDecl();
		std::vector<uint64_t> q;
		for( unsigned i = 0; i < N; ++i ) {
			auto *t = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, "z::t" + num(i)));
			if( !t ) { check(false, "no-declaration"); return; }
			q.push_back((uint64_t)t->getParamDecl(0)->getOriginalType().getAsOpaquePtr());
		}
		for( unsigned i = 0; i < slots.size(); ++i ) {
			string s = slots[i];
			auto *f = llvm::dyn_cast_or_null<clang::FunctionDecl>(find(tu, (s == "f" or s == "g" ? "n::" : "n::S::") + s));
			if( !f ) { check(false, "no-declaration"); return; }
			c[i] = (unsigned)sym_value(c[i]);
			if( s == "g" or s == "r" ) set_attr(f, A_rettype, q[c[i]]);
			else set_attr(f->getParamDecl(s == "m" ? 1 : 0), A_origtype, q[c[i]]);
		}
	};
	Result r = run(h, config, {"--bind", "n", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	sa = val(sa);
	se = val(se);
	std::set<string> need;
	for( unsigned i = 0; i < slots.size(); ++i ) {
		c[i] = (unsigned)sym_value(c[i]);
		T const &t = types[c[i]];
		bool uses_a = string(t.needs) == "A";
		bool bound = t.ok and not(uses_a and sa == '-');
		string s = slots[i];
		unsigned n = s == "S" ? count(r.code, "pybind11::init<") : s == "st" ? count(r.code, "def_static(\"st\"") : count(r.code, "def(\"" + s + "\"");
		check(n == (bound ? 1u : 0u), "signature-bound-iff-its-types-are-usable");
		if( bound and t.needs[0] ) need.insert(t.needs);
		sym_reach(bound ? "bound" : "not-bound");
	}
	auto reg = [&](string const &text, bool want) { check(count(r.code, text) == (want ? 1u : 0u), "type-registered-iff-used"); };
	reg("pybind11::class_<m::A, std::shared_ptr<m::A>> cl(M(\"m\"), ", need.count("A"));
	reg("pybind11::enum_<m::E>(M(\"m\"), ", need.count("E") and se != '-');
	reg("pybind11::class_<m::T<int>, std::shared_ptr<m::T<int>>> cl(M(\"m\"), ", need.count("T"));
	reg("pybind11::class_<m::B, std::shared_ptr<m::B>, m::BB> cl(M(\"m\"), ", need.count("B"));
	reg("pybind11::class_<m::BB, std::shared_ptr<m::BB>> cl(M(\"m\"), ", need.count("B"));
	reg("pybind11::class_<m::C, std::shared_ptr<m::C>> cl(M(\"m\"), ", need.count("B"));
	reg("pybind11::class_<m::D,", false);
	reg("pybind11::class_<m::G,", false);
	reg("pybind11::enum_<m::H>", false);
	if( se == '-' ) need.erase("E");
	reg("{\"\", \"m\"},", not need.empty());
	reg("pybind11::class_<n::S, std::shared_ptr<n::S>> cl(", true);
	check(not has(r.code, "{\"\", \"z\"}"), "unused-namespace-not-created");
	observe(r.code);
}
