// explicit directives: they decide before any namespace rule, the more specific one first, skip before bind
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
static string config;
static unsigned nd = 0;
// a directive line that is absent (a comment), + or -; returns the symbolic first character
static char line(string const &text, const char *kinds = "#+-")
{
	string s = "#";
	string id = "d" + num(nd++) + ":" + text;
	sym_bytes(&s[0], 1, id.c_str());
	sym_alphabet(&s[0], 1, kinds);
	config += s + text + "\n";
	return s[0];
}
static int decide(char specific, char generic) // 1 bind, -1 skip, 0 not named
{
	if( specific == '-' ) return -1;
	if( specific == '+' ) return 1;
	return generic == '-' ? -1 : generic == '+' ? 1 : 0;
}
static char val(char c) { return (char)sym_value((unsigned char)c); }
static void is(string const &code, string const &text, bool shown, const char *id)
{
	check(count(code, text) == (shown ? 1u : 0u), id);
	sym_reach(shown ? "bound" : "skipped");
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	std::vector<string> args = {"--single-file", "--skip-line-number"};
	string pre = "#pragma once\nnamespace n {\nstruct P { P(); };\n";
	if( which == 0 ) { // overloaded functions
		char ns = line("namespace n"), g = line("function n::f"), s = line("function n::f( double,const struct n::P & )"), i = line("function n::f(int)"), o = line("function n::ff");
		Result r = run(pre + "void f(int a);\nvoid f(double a, P const &b);\nvoid fu(P a);\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		ns = val(ns), g = val(g), s = val(s), i = val(i), o = val(o);
		auto want = [&](char sp, char ge) { int d = decide(sp, ge); return d ? d > 0 : ns == '+'; };
		is(r.code, "def(\"f\", (void (*)(int)) &n::f", want(i, g), "function-as-directed");
		is(r.code, "def(\"f\", (void (*)(double, const struct n::P &)) &n::f", want(s, g), "function-as-directed");
		is(r.code, "def(\"fu\", ", ns == '+', "other-functions-by-namespace-rules");
		observe(r.code);
	}
	else if( which == 1 ) { // function templates
		char ns = line("namespace n"), g = line("function n::t"), s = line("function n::t<int>(int)");
		Result r = run(pre + "template <typename T> void t(T a) {}\ntemplate void t<int>(int);\ntemplate void t<double>(double);\nvoid u(int a);\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		ns = val(ns), g = val(g), s = val(s);
		auto want = [&](char sp, char ge) { int d = decide(sp, ge); return d ? d > 0 : ns == '+'; };
		is(r.code, "def(\"t\", (void (*)(int)) &n::t<int>", want(s, g), "template-function-as-directed");
		is(r.code, "def(\"t\", (void (*)(double)) &n::t<double>", want('#', g), "template-function-as-directed");
		is(r.code, "def(\"u\", ", ns == '+', "other-functions-by-namespace-rules");
		observe(r.code);
	}
	else if( which == 2 ) { // class, function that uses it
		char ns = line("namespace n"), c = line("class n::S"), h = line("function n::h"), k = line("function n::k(int)");
		Result r = run(pre + "struct S { S(); };\nvoid h(S const &a);\nS *k(int a);\nvoid u(int a);\n}\nnamespace m { void v(n::S &a); void w(int a); }\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		ns = val(ns), c = val(c), h = val(h), k = val(k);
		bool skip = c == '-' or (c == '#' and ns == '-'), bind = (c == '+' or ns == '+') and not skip;
		auto fn = [&](char d) { return d == '-' ? false : d == '+' ? true : (ns != '-' and not skip and (ns == '+' or bind)); };
		bool H = fn(h), K = fn(k), V = bind;
		is(r.code, "def(\"h\", ", H, "function-bound-with-its-class-and-skipped-with-it");
		is(r.code, "def(\"k\", ", K, "function-bound-with-its-class-and-skipped-with-it");
		is(r.code, "def(\"v\", ", V, "function-bound-with-its-class-and-skipped-with-it");
		is(r.code, "def(\"u\", ", ns == '+', "other-functions-by-namespace-rules");
		is(r.code, "def(\"w\", ", false, "other-namespaces-untouched");
		is(r.code, "pybind11::class_<n::S,", not skip and (bind or H or K), "class-as-directed");
		observe(r.code);
	}
	else if( which == 3 ) { // class template
		char ns = line("namespace n"), g = line("class n::T"), s = line("class n::T<int>"), m = line("function n::T::m", "#-"), mi = line("function n::T<int>::m(int)");
		Result r = run(pre + "template <typename A> struct T { T() {} void m(A a) {} void k(A a) {} };\ntemplate struct T<int>;\ntemplate struct T<double>;\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		ns = val(ns), g = val(g), s = val(s), m = val(m), mi = val(mi);
		auto want = [&](char sp, char ge) { int d = decide(sp, ge); return d ? d > 0 : ns == '+'; };
		bool I = want(s, g), D = want('#', g);
		is(r.code, "pybind11::class_<n::T<int>,", I, "specialisation-as-directed");
		is(r.code, "pybind11::class_<n::T<double>,", D, "specialisation-as-directed");
		// members of a class that is named are bound although their namespace is skipped only when they are not skipped with it
		bool by_ns = ns != '-';
		is(r.code, "def(\"k\", (void (n::T<int>::*)(int))", I and by_ns, "members-of-the-specialisation");
		is(r.code, "def(\"k\", (void (n::T<double>::*)(double))", D and by_ns, "members-of-the-specialisation");
		bool M = mi == '-' ? false : mi == '+' ? true : m == '-' ? false : by_ns;
		is(r.code, "def(\"m\", (void (n::T<int>::*)(int))", I and M, "member-as-directed");
		is(r.code, "def(\"m\", (void (n::T<double>::*)(double))", D and m != '-' and by_ns, "member-as-directed");
		observe(r.code);
	}
	else if( which == 4 ) { // members: methods, constructors, fields, enumerations, nested classes
		char m = line("function n::S::m"), mi = line("function n::S::m( int )"), c = line("function n::S::S(int)", "#-"), f = line("field n::S :: x"), e = line("enum n::S::E"), i = line("class n::S::I");
		args.push_back("--bind");
		args.push_back("n");
		Result r = run(pre + "struct S { S(); S(int a); void m(int a); void m(double a); int x; int xx; enum E { e0 }; enum EE { e1 }; struct I { I(); int z; }; struct II { II(); }; void ui(I *a); };\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		m = val(m), mi = val(mi), c = val(c), f = val(f), e = val(e), i = val(i);
		is(r.code, "def(\"m\", (void (n::S::*)(int))", decide(mi, m) >= 0, "method-as-directed");
		is(r.code, "def(\"m\", (void (n::S::*)(double))", decide('#', m) >= 0, "method-as-directed");
		is(r.code, "pybind11::init<int>()", c != '-', "constructor-as-directed");
		is(r.code, "\"x\", &n::S::x", f != '-', "field-as-directed");
		is(r.code, "\"xx\", &n::S::xx", true, "other-members-untouched");
		is(r.code, "pybind11::enum_<n::S::E>", e != '-', "nested-enumeration-as-directed");
		is(r.code, "pybind11::enum_<n::S::EE>", true, "other-members-untouched");
		is(r.code, "pybind11::class_<n::S::I,", i != '-', "nested-class-as-directed");
		is(r.code, "pybind11::class_<n::S::II,", true, "other-members-untouched");
		is(r.code, "def(\"ui\"", i != '-', "users-of-a-skipped-class-skipped");
		observe(r.code);
	}
	else if( which == 6 ) { // everything that uses a skipped class
		char S = line("class n::S"), TS = line("class n::T<n::S>"), a = line("function n::U::a", "#+"), ns = line("namespace m", "#-"), M = line("class m::M", "#+");
		args.push_back("--bind");
		args.push_back("n");
		Result r = run("#pragma once\nnamespace m { struct M { M(); }; enum E { e0 }; }\n" + pre.substr(13) + "struct S { S(); };\ntemplate <class A> struct T { T() {} };\ntemplate struct T<S>;\ntemplate struct T<S *>;\ntemplate struct T<int>;\ntemplate struct T<T<S>>;\ntemplate struct T<m::M>;\n"
			"struct U { U(S *u, int w); U(int u); void a(S const &u); void b(int w, T<S> *u); S *c(); static void d(m::M const &u); void e(int u); void e2(T<S *> &u); };\nvoid f(T<S> &a);\nT<T<S>> *g(int a);\nvoid h(m::M &&a);\nm::M k();\nvoid l(T<m::M> const &a);\nvoid o(m::E a);\n"
			"template <class... A> struct K { K() {} };\ntemplate struct K<int, S>;\ntemplate struct K<int>;\nvoid p(K<int, S> &a);\nvoid p2(K<int> &a);\ntemplate <class... A> void q(int) {}\ntemplate void q<S>(int);\ntemplate <class A> void q2(int) {}\ntemplate void q2<m::M>(int);\n"
			"template <class A, class B, class C> struct T3 { T3() {} static void st(C *u); };\ntemplate struct T3<int, long, S>;\ntemplate struct T3<int, long, m::M const *>;\ntemplate struct T3<int, long, char>;\ntemplate <class A, int N, class... B> struct T4 { T4() {} };\ntemplate struct T4<int, 3, char, long, S const &>;\ntemplate struct T4<int, 3, char, long>;\n"
			"typedef S const *SP;\nvoid r(int a, int b, int c, S const &d);\nvoid rd(int a, S const *b = 0);\nvoid rt(int a, SP const &b);\nvoid ra(S a[2]);\nS const &rr();\nvoid rv(int a, char b = 0);\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		S = val(S), TS = val(TS), a = val(a), ns = val(ns), M = val(M);
		bool s = S != '-', ts = decide(TS, s ? '+' : '-') > 0, m = M == '+' or ns != '-';
		is(r.code, "pybind11::class_<n::S,", s, "class-as-directed");
		is(r.code, "pybind11::class_<n::T<n::S>,", ts, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T<n::S *>,", s, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T<int>,", true, "other-classes-untouched");
		is(r.code, "pybind11::class_<n::T<n::T<n::S>>,", ts, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T<m::M>,", m, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::U,", true, "other-classes-untouched");
		is(r.code, "pybind11::init<struct n::S *, int>()", s, "users-of-a-skipped-class-skipped");
		is(r.code, "pybind11::init<int>()", true, "other-members-untouched");
		is(r.code, ".def(\"a\", ", s or a == '+', "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"b\", ", ts, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"c\", ", s, "users-of-a-skipped-class-skipped");
		is(r.code, ".def_static(\"d\", ", m, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"e\", ", true, "other-members-untouched");
		is(r.code, ".def(\"e2\", ", s, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"f\", ", ts, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"g\", ", ts, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"k\", ", m, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"l\", ", m, "users-of-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::K<int, n::S>,", s, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::K<int>,", true, "other-classes-untouched");
		is(r.code, ".def(\"p\", ", s, "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"p2\", ", true, "other-functions-untouched");
		is(r.code, ".def(\"q\", ", s, "instantiation-with-a-skipped-class-skipped");
		is(r.code, ".def(\"q2\", ", m, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T3<int,long,n::S>,", s, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T3<int,long,const m::M *>,", m, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T3<int,long,char>,", true, "other-classes-untouched");
		is(r.code, "pybind11::class_<n::T4<int,3,char, long, const n::S &>,", s, "instantiation-with-a-skipped-class-skipped");
		is(r.code, "pybind11::class_<n::T4<int,3,char, long>,", true, "other-classes-untouched");
		is(r.code, ".def(\"r\", ", s, "users-of-a-skipped-class-skipped");
		check(count(r.code, ".def(\"rd\", ") == (s ? 2u : 0u), "users-of-a-skipped-class-skipped");
		if( not s ) check(not has(r.code, ".def(\"rt\", "), "users-of-a-skipped-class-skipped");
		if( not s ) check(not has(r.code, ".def(\"ra\", "), "users-of-a-skipped-class-skipped");
		is(r.code, ".def(\"rr\", ", s, "users-of-a-skipped-class-skipped");
		check(count(r.code, ".def(\"rv\", ") == 2, "other-functions-untouched");
		observe(r.code);
	}
	else { // enumerations
		char ns = line("namespace n"), e = line("enum n::E");
		char nn = line("namespace n::k"), f = line("enum  n::k::F");
		Result r = run(pre + "enum E { e0 };\nenum EE { e1 };\nnamespace k { enum class F { f0 }; enum G { g0 }; } }\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		ns = val(ns), e = val(e), nn = val(nn), f = val(f);
		char inner = nn == '#' ? ns : nn;
		is(r.code, "pybind11::enum_<n::E>", e == '#' ? ns == '+' : e == '+', "enumeration-as-directed");
		is(r.code, "pybind11::enum_<n::k::F>", f == '#' ? inner == '+' : f == '+', "enumeration-as-directed");
		is(r.code, "pybind11::enum_<n::EE>", ns == '+', "other-enumerations-by-namespace-rules");
		is(r.code, "pybind11::enum_<n::k::G>", inner == '+', "other-enumerations-by-namespace-rules");
		observe(r.code);
	}
}
