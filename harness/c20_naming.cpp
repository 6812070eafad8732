// names: Python names of classes, and names of the override classes
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;

static bool identifier(string const &s)
{
	if( s.empty() or (s[0] >= '0' and s[0] <= '9') ) return false;
	for( char c : s )
		if( not((c >= 'a' and c <= 'z') or (c >= 'A' and c <= 'Z') or (c >= '0' and c <= '9') or c == '_') ) return false;
	return true;
}
struct Struct { string name, base; };
static std::vector<Struct> structs(string const &code)
{
	std::vector<Struct> r;
	string sep = " : public ";
	for( auto &l : lines_with(code, "struct PyCallBack_") ) {
		size_t p = l.find(sep), e = l.rfind(" {");
		check(l.compare(0, 7, "struct ") == 0 and p != string::npos and e != string::npos and e > p, "override-class-line");
		if( p == string::npos or e == string::npos or e < p ) continue;
		r.push_back({l.substr(7, p - 7), l.substr(p + sep.size(), e - p - sep.size())});
	}
	return r;
}
// every override class has a valid name of its own, and is used where its own class is registered and nowhere else; returns number of them
static unsigned check_structs(string const &code)
{
	auto v = structs(code);
	for( unsigned i = 0; i < v.size(); ++i ) {
		check(identifier(v[i].name), "override-class-name-is-an-identifier");
		for( unsigned j = 0; j < i; ++j ) check(v[i].name != v[j].name, "override-class-names-differ"), check(v[i].base != v[j].base, "one-override-class-per-class");
		check(count_lines(code, "pybind11::class_<" + v[i].base + ", std::shared_ptr<" + v[i].base + ">, " + v[i].name + "> cl(") == 1, "override-class-used-by-own-class");
		check(count_lines(code, "> cl(", ", " + v[i].name + "> cl(") == 1, "override-class-used-once");
	}
	return v.size();
}

static void trampolines()
{
	bool sym = sym_mode();
	string h = "#pragma once\n", ns[2], name[2], q[2];
	unsigned dmax = sym_param("depth", 2), nmax = sym_param("len", 3);
	for( unsigned i = 0; i < 2; ++i ) {
		ns[i] = sym_qname("ns" + num(i), 0, i ? dmax - 1 : dmax, "a_", 1);
		name[i] = sym_string(("name" + num(i)).c_str(), 1, i ? nmax : nmax - 1, "a_");
		q[i] = (ns[i].size() ? ns[i] + "::" : "") + name[i];
	}
	// valid C++: different classes, and none has the name of a namespace
	sym_assume(not (q[0].size() == q[1].size() and memcmp(q[0].data(), q[1].data(), q[0].size()) == 0));
	for( unsigned i = 0; i < 2; ++i )
		for( unsigned j = 0; j < 2; ++j )
			if( ns[j].size() >= q[i].size() and (ns[j].size() == q[i].size() or ns[j].compare(q[i].size(), 2, "::") == 0) ) sym_assume(memcmp(ns[j].data(), q[i].data(), q[i].size()) != 0);
	for( unsigned i = 0; i < 2; ++i ) {
		string open, close;
		if( not sym ) {
			string s = ns[i] + (ns[i].size() ? "::" : "");
			for( size_t b = 0, e; (e = s.find("::", b)) != string::npos; b = e + 2 ) open += "namespace " + s.substr(b, e - b) + " { ", close += " }";
		}
		string n = sym ? "C" + num(i) : name[i];
		h += open + "struct " + n + " { virtual void m" + num(i) + "(int) const; };" + close + "\n";
	}
	on_ast = [&](clang::ASTContext &c) {
		for( unsigned i = 0; i < 2; ++i ) {
			auto *d = find(c.getTranslationUnitDecl(), "C" + num(i));
			check(d, "no-declaration");
			if( d ) set_name(d, name[i], q[i]);
		}
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	check(check_structs(r.code) == 2, "both-classes-overridable");
	for( unsigned i = 0; i < 2; ++i ) check(count_lines(r.code, "pybind11::class_<" + q[i] + ", ", "> cl(M(\"" + ns[i] + "\"), \"" + name[i] + "\", ") == 1, "registered-under-own-name");
	auto v = structs(r.code);
	string o;
	for( auto &s : v ) o += s.name + " " + s.base + "\n";
	observe(o);
	sym_reach(v.size() == 2 and v[0].name.size() == v[1].name.size() ? "same-length" : "other");
}

static void instantiations()
{
	string h = "#pragma once\nnamespace n {\nstruct A { virtual void m(); };\nenum E { e0 };\n"
		"template <class T> struct T1 { struct I { virtual void g(); }; };\ntemplate <class T, int i> struct T2 { virtual void f(); };\ntemplate <class... T> struct T3 {};\n"
		"namespace k { struct A { virtual void m(); }; template <class T> struct T1 {}; }\n"
		"struct T1_int__I { virtual void m(); };\nstruct T1_n_A__I { virtual void m(); };\nstruct T1_int { virtual void m(); };\n}\nstruct n_A { virtual void m(); };\n";
	struct X { const char *type, *python; char c; };
	std::vector<X> xs = {
		{"n::T1<int>", "T1_int_t", 0}, {"n::T1<int *>", "T1_int__star__t", 0}, {"n::T1<n::A>", "T1_n_A_t", 0}, {"n::T1<const n::A &>", "T1_const_n_A__ref__t", 0},
		{"n::T1<n::T1<n::A>>", "T1_n_T1_n_A_t", 0}, {"n::T1<unsigned long>", "T1_unsigned_long_t", 0}, {"n::T1<bool>", "T1_bool_t", 0}, {"n::T2<n::A,1>", "T2_n_A_1_t", 0},
		{"n::T2<n::T1<n::A *>,1>", "T2_n_T1_n_A__star__1_t", 0}, {"n::T3<int, n::A, bool>", "T3_int_n_A_bool_t", 0}, {"n::T3<>", "T3_t", 0}, {"n::T1<n::E>", "T1_n_E_t", 0},
		{"n::T1<n::k::T1<n::k::A>>", "T1_n_k_T1_n_k_A_t", 0}};
	for( auto &x : xs ) h += string("template struct ") + x.type + ";\n";
	// which of them are there is symbolic, in groups
	unsigned g = sym_param("group", 0);
	std::vector<std::vector<unsigned>> groups = {{0, 1, 2, 3, 8}, {4, 5, 6, 7}, {9, 10, 11, 12}};
	for( unsigned i : groups[g] ) xs[i].c = line(string("class ") + xs[i].type, "#-");
	char own = line("class n::T1_int__I", "#-"), own2 = line("class n_A", "#-");
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	unsigned expected = 4; // n::A n::k::A n::T1_n_A__I n::T1_int
	expected += (val(own) != '-') + (val(own2) != '-');
	for( auto &x : xs ) {
		// an instantiation is skipped as well when one of its arguments is
		bool bound = (x.c == 0 or val(x.c) != '-') and not (string(x.type) == "n::T1<n::T1<n::A>>" and xs[2].c and val(xs[2].c) == '-'), t1 = string(x.type).compare(0, 6, "n::T1<") == 0, t2 = string(x.type).compare(0, 6, "n::T2<") == 0;
		if( bound and (t1 or t2) ) ++expected;
		string reg = string("pybind11::class_<") + x.type + ", std::shared_ptr<" + x.type + ">";
		check(count(r.code, reg) == (bound ? 1u : 0u), "instantiation-registered");
		if( not bound ) { sym_reach("skipped"); continue; }
		check(count_lines(r.code, reg, string("> cl(M(\"n\"), \"") + x.python + "\", ") == 1, "instantiation-name");
		if( t1 ) {
			string in = string("pybind11::class_<") + x.type + "::I, ";
			check(count_lines(r.code, in, "> cl(enclosing_class, \"I\", ") == 1, "nested-name");
		}
		sym_reach("bound");
	}
	for( const char *s : {"n::T1_n_A__I", "n::T1_int"} ) check(count_lines(r.code, string("pybind11::class_<") + s + ", ", string("> cl(M(\"n\"), \"") + (s + 3) + "\", ") == 1, "class-name");
	check(check_structs(r.code) == expected, "override-classes");
	observe(r.code);
}

extern "C" void harness_main()
{
	if( sym_param("which", 0) == 0 ) trampolines();
	else instantiations();
}
