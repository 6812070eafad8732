// module hierarchy: every namespace with a registration, and every namespace that encloses it, is created once, before its children, and registrations go to their own namespace
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;

struct Reg { string ns, text; bool bound; }; // text of the registration after M("ns")

// what the generated code creates, and the list of modules
static void check_modules(Result const &r, std::vector<Reg> const &regs, bool single)
{
	std::set<string> want;
	for( auto &g : regs ) {
		if( not g.bound ) continue;
		string ns = g.ns;
		while( ns.size() ) {
			want.insert(ns);
			size_t p = ns.rfind("::");
			ns = p == string::npos ? "" : ns.substr(0, p);
		}
	}
	std::vector<string> created;
	std::set<string> exists;
	size_t b = r.code.find("sub_modules {\n"), e = r.code.find("\n\t};\n", b == string::npos ? 0 : b);
	check(b != string::npos and e != string::npos and count(r.code, "sub_modules {\n") == 1, "list-of-submodules");
	if( b == string::npos or e == string::npos ) return;
	for( auto &l : lines_with(r.code.substr(b + 13, e - b - 13), "{\"") ) {
		size_t m = l.find("\", \""), x = l.find("\"},");
		check(l.compare(0, 4, "\t\t{\"") == 0 and m != string::npos and x != string::npos, "pair");
		if( m == string::npos or x == string::npos ) return;
		string parent = l.substr(4, m - 4), last = l.substr(m + 4, x - m - 4);
		check(last.size() and not has(last, ":"), "last-name");
		check(parent.empty() or exists.count(parent), "parent-created-before-child");
		string full = parent.empty() ? last : parent + "::" + last;
		check(exists.insert(full).second, "created-once");
		created.push_back(full);
	}
	check(exists == want, "exactly-the-namespaces-needed");
	// the list of modules, in the same order
	string list = r.modules;
	if( single ) {
		size_t p = r.code.find("// Modules list file: ");
		p = p == string::npos ? p : r.code.find("\n// ", p);
		size_t q = p == string::npos ? p : r.code.find("\n", p + 4);
		list = q == string::npos ? "?" : r.code.substr(p + 4, q - p - 4);
		check(r.modules.empty(), "single-file-writes-no-list");
	}
	string expected;
	for( auto &c : created ) {
		for( size_t i = 0; i < c.size(); ++i )
			if( c[i] == ':' ) { expected += '.'; ++i; }
			else expected += c[i];
		expected += ' ';
	}
	check(list == expected, "modules-listed");
	for( auto &g : regs ) {
		check(count(r.all, g.text) == (g.bound ? 1u : 0u), "registered-once-iff-requested");
		if( g.bound ) check(count(r.all, "M(\"" + g.ns + "\")" + (g.text[0] == '.' ? "" : ", ") + g.text) == 1, "registered-in-own-namespace"), sym_reach(g.ns.empty() ? "global" : "submodule");
		else sym_reach("not-bound");
	}
}

static void names(bool single)
{
	bool sym = sym_mode();
	unsigned n = sym_param("functions", 2), depth = sym_param("depth", 3);
	string h = "#pragma once\n";
	std::vector<string> ns;
	for( unsigned i = 0; i < n; ++i ) {
		ns.push_back(sym_qname("ns" + num(i), 0, depth, "ab", sym_param("seg", 1)));
		string open, close;
		if( not sym ) {
			string s = ns[i] + (ns[i].size() ? "::" : "");
			for( size_t b = 0, e; (e = s.find("::", b)) != string::npos; b = e + 2 ) open += "namespace " + s.substr(b, e - b) + " { ", close += " }";
		}
		h += open + "void f" + num(i) + "(int);" + close + "\n";
	}
	std::vector<string> args = {"--bind", "", "--skip-line-number"};
	if( single ) args.push_back("--single-file");
	on_ast = [&](clang::ASTContext &c) {
		for( unsigned i = 0; i < n; ++i ) {
			auto *d = find(c.getTranslationUnitDecl(), "f" + num(i));
			check(d, "no-declaration");
			if( d ) set_name(d, "f" + num(i), (ns[i].size() ? ns[i] + "::" : "") + "f" + num(i));
		}
	};
	Result r = run(h, "", args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	std::vector<Reg> regs;
	for( unsigned i = 0; i < n; ++i ) regs.push_back({ns[i], ".def(\"f" + num(i) + "\", ", true});
	check_modules(r, regs, single);
	observe(r.all);
	observe(r.modules);
}

static void kinds(bool single)
{
	string h = "#pragma once\n"
		"namespace a { namespace b { struct C {}; } }\n"
		"namespace a { namespace b { namespace c { enum E { e0 }; } } }\n"
		"namespace ab { template <class T> struct T1 {}; namespace k { template <class T> void g(T) {} } }\n"
		"namespace b { namespace a { struct D { struct N { enum M { m0 }; }; }; } }\n"
		"namespace k { namespace u { void h(ab::T1<int>); } }\n"
		"namespace z { struct Z {}; namespace y { struct Y : Z {}; } }\n"
		"template void ab::k::g<int>(int);\ntemplate struct ab::T1<int>;\n"
		"enum F { f0 };\n";
	struct X { string ns, text, directive; char c; };
	std::vector<X> xs = {
		{"a::b", "\"C\", ", "class a::b::C", '#'}, {"a::b::c", "\"E\", ", "enum a::b::c::E", '#'}, {"ab::k", ".def(\"g\", ", "function ab::k::g", '#'},
		{"b::a", "\"D\", ", "class b::a::D", '#'}, {"k::u", ".def(\"h\", ", "function k::u::h", '#'}, {"z::y", "\"Y\", ", "class z::y::Y", '#'}, {"", "\"F\", ", "enum F", '#'}};
	for( auto &x : xs ) x.c = x.ns.empty() ? line(x.directive, "#+") : line(x.directive, "#-");
	std::vector<string> args = {"--bind", "a", "--bind", "ab::k", "--bind", "b", "--bind", "k", "--bind", "z::y", "--skip-line-number"};
	if( single ) args.push_back("--single-file");
	Result r = run(h, config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	std::vector<Reg> regs;
	for( auto &x : xs ) regs.push_back({x.ns, x.text, x.ns.empty() ? val(x.c) == '+' : val(x.c) != '-'});
	// an instantiation and a base from namespaces that are otherwise not bound
	regs.push_back({"ab", "\"T1_int_t\", ", regs[4].bound});
	regs.push_back({"z", "\"Z\", ", regs[5].bound});
	check_modules(r, regs, single);
	observe(r.all);
	observe(r.modules);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 0 ) names(sym_param("single", 0));
	else kinds(sym_param("single", 0));
}
