// call policies: what the configuration asks for is what each registration carries
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
static const char *T[] = {"int", "P *", "P &", "P const &", "P", "const P *"};
static const char *DIR[] = {"default_static_pointer_return_value_policy", "default_static_lvalue_reference_return_value_policy", "default_static_rvalue_reference_return_value_policy",
	"default_member_pointer_return_value_policy", "default_member_lvalue_reference_return_value_policy", "default_member_rvalue_reference_return_value_policy", "default_call_guard", "prefix_for_static_member_functions"};

extern "C" void harness_main()
{
	bool sym = sym_mode();
	unsigned which = sym_param("which", 0);
	string config;
	bool on[8];
	string value[8];
	string first(8, '#');
	sym_bytes(&first[0], 8, "directive");
	sym_alphabet(&first[0], 8, "#+");
	for( unsigned i = 0; i < 8; ++i ) {
		if( which == 0 and i >= 6 ) sym_assume(first[i] == '#');
		if( which == 1 and i < 6 ) sym_assume(first[i] == '+');
		value[i] = "v" + num(i) + sym_string(("value" + num(i)).c_str(), 2, 2, "aZ_:");
		config += first.substr(i, 1) + DIR[i] + " " + value[i] + "\n";
		on[i] = first[i] == '+';
	}
	unsigned rt[4] = {1, 2, 3, 5}, st = 0;
	for( unsigned i = 0; i < 4; ++i )
		if( which == 1 ) rt[i] = i == 1 ? rt[0] : choose(("return" + num(i)).c_str(), i == 2 ? 2 : 6); // both free functions with the same return type
	st = choose("static", 2); // n::S::s is static or not
	auto t = [&](unsigned i) { return string(sym ? "int" : T[rt[i]]); };
	string h = "#pragma once\nnamespace n {\nstruct P { P(); P(P const &); };\nP *v0(); P &v1(); P const &v2(); P v3(); P const *v4();\n";
	h += t(0) + " f(int a);\n" + t(1) + " fd(int a, int b = 1, int c = 4, int d = 5);\n";
	h += "struct S {\n" + string(not sym and st ? "static " : "") + t(2) + " s(int a, int b = 2);\n" + t(3) + " m(int a, int b = 3) const;\n};\nstruct D : S { using S::m; };\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		static const char *V[] = {"n::v0", "n::v1", "n::v2", "n::v3", "n::v4"};
		uint64_t q[6];
		auto *F = llvm::cast<clang::FunctionDecl>(find(tu, "n::f"));
		q[0] = (uint64_t)F->getReturnType().getAsOpaquePtr();
		unsigned ord[5] = {1, 2, 3, 4, 5};
		for( unsigned i = 0; i < 5; ++i ) q[ord[i]] = (uint64_t)llvm::cast<clang::FunctionDecl>(find(tu, V[i]))->getReturnType().getAsOpaquePtr();
		static const char *fn[] = {"n::f", "n::fd", "n::S::s", "n::S::m"};
		for( unsigned i = 0; i < 4; ++i ) {
			uint64_t v = q[0];
			for( unsigned k = 1; k < 6; ++k ) v = rt[i] == k ? q[k] : v;
			set_attr(find(tu, fn[i]), A_rettype, v);
		}
		set_attr(find(tu, "n::S::s"), A_static, st);
	};
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	static const char *py[] = {"f", "fd", "s", "m"};
	static const unsigned regs[] = {1, 4, 2, 4}; // m: in its class and, through the using declaration, in a derived one
	st = (unsigned)sym_value(st);
	for( unsigned i = 0; i < 8; ++i ) on[i] = sym_value(on[i]) == 1;
	for( unsigned i = 0; i < 4; ++i ) {
		bool is_static = i < 2 or (i == 2 and st == 1);
		string name = py[i];
		if( i == 2 and st == 1 and on[7] ) name = value[7] + name;
		string def = "\tcl.def(\"";
		if( i < 2 ) def = "\tM(\"n\").def(\"";
		else if( is_static ) def = "\tcl.def_static(\"";
		def += name + "\", ";
		auto ls = lines_with(r.code, def);
		check(ls.size() == regs[i], "registered-under-the-configured-name");
		unsigned k = (unsigned)sym_value(rt[i]);
		int pol = (k == 1 or k == 5) ? (is_static ? 0 : 3) : (k == 2 or k == 3) ? (is_static ? 1 : 4) : -1;
		string expect = pol < 0 ? "" : on[pol] ? value[pol] : "pybind11::return_value_policy::automatic";
		for( auto &l : ls ) {
			size_t q = l.rfind("\", "); // end of the documentation string
			size_t a = l.find(", pybind11::arg(\"a\")");
			check(a != string::npos, "argument-names");
			if( a == string::npos ) continue;
			size_t d = l.rfind('"', a);
			string between = d == string::npos ? "" : l.substr(d + 1, a - d - 1);
			check(between == (pol < 0 ? "" : ", " + expect), "return-policy-of-its-kind");
			string guard = ", pybind11::call_guard<" + value[6] + ">()";
			check((count(l, guard) == 1) == on[6] and (count(l, "call_guard") == 1) == on[6], "call-guard-iff-configured");
			sym_reach(pol < 0 ? "none" : is_static ? "static" : "member");
			(void)q;
		}
	}
	observe(r.code);
}
