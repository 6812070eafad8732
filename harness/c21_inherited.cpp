// members and constructors a class gets from elsewhere: using declarations, bases of instantiations, implicit constructors
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;
static const char *AS[] = {"public", "protected", "private"};

// registration of X: from its class_ line to that of the next class
static string block(string const &code, string const &X)
{
	size_t b = code.find("pybind11::class_<" + X + ", ");
	check(b != string::npos and count(code, "pybind11::class_<" + X + ", ") == 1, "class-registered");
	if( b == string::npos ) return "";
	size_t e = code.find("pybind11::class_<", b + 1), e2 = code.find("\n}\n", b);
	if( e == string::npos or e2 < e ) e = e2;
	return code.substr(b, e == string::npos ? e : e - b);
}
static void is(string const &s, string const &a, string const &b, bool shown, const char *id)
{
	unsigned n = count_lines(s, a, b);
	check(n <= 1 and (n == 1) == shown, id);
	sym_reach(n ? "shown" : "hidden");
}
static clang::CXXRecordDecl *spec(clang::ASTContext &c, string const &q)
{
	auto *t = llvm::dyn_cast_or_null<clang::ClassTemplateDecl>(find(c.getTranslationUnitDecl(), q));
	if( t ) for( auto *s : t->specializations() ) return s;
	return nullptr;
}
static string acc(unsigned a) { return string(sym_mode() ? "public" : AS[a]) + ": "; }

// methods and data members made public, or not, by using declarations
static void usings()
{
	// access of the members of the base (private ones can not be named by using declarations), of the using declarations and of the base
	bool methods = sym_param("methods", 1);
	auto pick_ = [&](const char *n, unsigned k, bool m) { return m == methods ? choose(n, k) : 0u; };
	unsigned m0 = pick_("m0", 2, true), m1 = pick_("m1", 2, true), st = pick_("st", 2, true), f = pick_("f", 2, false), g = pick_("g", 2, false), um = pick_("using m", 3, true), us = pick_("using st", 3, true), uf = pick_("using f", 3, false), ug = pick_("using g", 3, false), ba = choose("base", 3);
	char skip = line("function n::B::m(double) const", methods ? "#-" : "#"), skf = line("field n::B::f", methods ? "#" : "#-");
	string h = "#pragma once\nnamespace n {\nstruct P { P(); };\nclass B {\n";
	h += acc(m0) + "int m(int a);\n" + acc(m1) + "P *m(double a) const;\n" + acc(st) + "static int st(int a, int b = 1);\n" + acc(f) + "int f;\n" + acc(g) + "const int g = 1;\npublic: B(); int other(int); int of;\n};\n";
	h += "class D : " + string(sym_mode() ? "public" : AS[ba]) + " B {\n" + acc(um) + "using B::m;\n" + acc(us) + "using B::st;\n" + acc(uf) + "using B::f;\n" + acc(ug) + "using B::g;\npublic: D(); int own(int a);\n};\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		struct X { const char *name; unsigned nth; unsigned a; };
		for( auto x : {X{"n::B::m", 0, m0}, X{"n::B::m", 1, m1}, X{"n::B::st", 0, st}, X{"n::B::f", 0, f}, X{"n::B::g", 0, g}, X{"n::D::m", 0, um}, X{"n::D::st", 0, us}, X{"n::D::f", 0, uf}, X{"n::D::g", 0, ug}} ) {
			auto *d = find(tu, x.name, x.nth);
			if( !d ) { check(false, "no-declaration"); return; }
			d->setAccess((clang::AccessSpecifier)x.a);
		}
		auto *D = llvm::dyn_cast_or_null<clang::CXXRecordDecl>(find(tu, "n::D"));
		if( !D or D->getNumBases() != 1 ) { check(false, "no-declaration"); return; }
		set_attr(D->bases_begin(), A_baseacc, ba);
	};
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	string B = block(r.code, "n::B"), D = block(r.code, "n::D");
	bool s = val(skip) == '-', sf = val(skf) == '-';
	is(B, "cl.def(\"m\", ", "(n::B::*)(int)", m0 == 0, "own-method-iff-public");
	is(B, "cl.def(\"m\", ", "(n::B::*)(double) const", (m1 == 0) & not s, "own-method-iff-public");
	is(B, "\"f\", &n::B::f)", "", (f == 0) & not sf, "own-field-iff-public");
	is(D, "cl.def(\"m\", [](n::D &o, int", "return o.m(a0);", um == 0, "method-lifted-iff-using-is-public");
	is(D, "cl.def(\"m\", [](n::D const &o, double", "return o.m(a0);", (um == 0) & not s, "method-lifted-iff-using-is-public");
	check(count(D, ".def(\"m\"") == (um == 0) * (s ? 1u : 2u), "lifted-once");
	is(D, "cl.def_static(\"st\", [](int", "return n::D::st(a0);", us == 0, "static-method-lifted-iff-using-is-public");
	is(D, "cl.def_static(\"st\", [](int", "return n::D::st(a0, a1);", us == 0, "static-method-lifted-iff-using-is-public");
	check(count(D, "\"st\"") == (us == 0) * 2u, "lifted-once");
	is(D, "cl.def_readwrite(\"f\", &n::D::f)", "", (uf == 0) & not sf, "field-lifted-iff-using-is-public");
	is(D, "cl.def_readonly(\"g\", &n::D::g)", "", ug == 0, "field-lifted-iff-using-is-public");
	check((count(D, "\"f\"") == ((uf == 0) & not sf)) & (count(D, "\"g\"") == (ug == 0)), "lifted-once");
	check(not has(D, "\"other\"") and not has(D, "\"of\"") and not has(D, "n::B::"), "nothing-else-lifted");
	is(D, "cl.def(\"own\", ", "", true, "own-method-iff-public");
	observe(r.code);
}

// inherited constructors
static void constructors()
{
	unsigned a[3], d[3];
	for( unsigned i = 0; i < 3; ++i ) a[i] = choose(("access" + num(i)).c_str(), 3), d[i] = choose(("deleted" + num(i)).c_str(), 2);
	string h = "#pragma once\nnamespace n {\nstruct P { P(); };\nclass B {\n";
	static const char *ctors[] = {"B(int a)", "B(P const &a, double b = 2)", "B(P *a)"};
	for( unsigned i = 0; i < 3; ++i ) h += acc(a[i]) + ctors[i] + (not sym_mode() and d[i] ? " = delete" : "") + ";\n";
	h += "public: B();\nB(B const &);\nB(B &&);\n};\nclass D : public B { public: using B::B; D(P *a, int b); };\nclass E : public B { public: E(int a); };\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		for( unsigned i = 0; i < 3; ++i ) {
			auto *x = find(c.getTranslationUnitDecl(), "n::B::B", i);
			if( !x ) { check(false, "no-declaration"); return; }
			x->setAccess((clang::AccessSpecifier)a[i]);
			set_attr(x, A_deleted, d[i]);
		}
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	bool s[3];
	for( unsigned i = 0; i < 3; ++i ) s[i] = sym_value(a[i]) == 0 and sym_value(d[i]) == 0;
	for( string X : {"n::B", "n::D", "n::E"} ) {
		string b = block(r.code, X);
		bool in = X != "n::E";
		is(b, "pybind11::init<int>()", "", X == "n::E" or s[0], "constructor-iff-public");
		is(b, "pybind11::init<const struct n::P &, double>()", "", in and s[1], "constructor-iff-public");
		is(b, "pybind11::init( [](const struct n::P & a0){ return new " + X + "(a0); } )", "", in and s[1], "constructor-iff-public");
		is(b, "pybind11::init<struct n::P *>()", "", in and s[2], "constructor-iff-public");
		is(b, "pybind11::init<struct n::P *, int>()", "", X == "n::D", "own-constructor");
		is(b, "pybind11::init( [](){ return new " + X + "(); } )", "", in, "default-constructor");
		if( X == "n::D" ) check(not has(b, "n::B &"), "copy-and-move-constructors-not-inherited");
	}
	observe(r.code);
}

// a class without constructors has a default constructor exactly when its bases and members have
static void implicit()
{
	bool sym = sym_mode();
	struct T { const char *type, *array; bool ok; };
	static const std::vector<T> ts = {{"int", "", true}, {"int &", "", false}, {"const int", "", false}, {"P", "", true}, {"ND", "", false}, {"PR", "", false}, {"DL", "", false}, {"IM", "", false}, {"PT", "", false}, {"ND", "[2]", false}, {"P", "[2]", true}, {"const P", "", true},
		{"TC", "", true}, {"ND *", "", true}, {"DD", "", false}, {"const PD", "", false}, {"const PI", "", true}, {"PI", "", true}, {"UN", "", false}, {"UI", "", true}, {"DA", "", true}, {"int &&", "", false}, {"P &&", "", false}};
	static const std::vector<T> ti = {{"int", "", true}, {"const int", "", true}, {"ND", "", true}};
	unsigned f = choose("field", ts.size()), g = choose("initialised field", ti.size()), ba = choose("base constructor", 3), bd = choose("deleted", 2);
	string h = "#pragma once\nnamespace n {\nstruct P { P(); };\nstruct ND { ND(int); };\nclass PR { PR(); };\nstruct DL { DL() = delete; };\nstruct IM { ND x; };\nclass PT { protected: PT(); };\nstruct TC { template <class T = int> TC(T = T()); };\nclass DD { public: DD(); private: ~DD(); };\n"
		"struct PD { int x; };\nstruct PI { int x = 1; };\nstruct UN { union { P p; int i; }; };\nstruct UI { union { int i; P *p; }; };\nstruct DA { DA(int a = 1); };\nstruct A : ND { A(); };\n";
	if( sym ) for( unsigned i = 0; i < ts.size(); ++i ) h += "extern " + string(ts[i].type) + " t" + num(i) + ts[i].array + ";\n";
	h += "class B {\n" + acc(ba) + "B()" + (not sym and bd ? " = delete" : "") + ";\npublic: B(int); };\n";
	h += "struct S : B { " + string(sym ? "int f" : string(ts[f].type) + " f" + ts[f].array) + "; " + (sym ? "int" : ti[g].type) + " g{1}; static ND s; };\n";
	h += "struct S1 : A {};\nstruct S2 : S1 { int x; };\nstruct S3 : ND {};\nstruct S4 : PT {};\nstruct S5 : B { S5(int); };\nstruct S6 { int : 3; int y; };\nstruct S7 : virtual P, S6 { P p; };\nstruct S8 { const int b : 3; };\nstruct S9 { int b : 3; const P c[2]; static const int q; };\nstruct S10 { const int b[2]; };\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		auto *F = find(tu, "n::S::f"), *G = find(tu, "n::S::g"), *B = find(tu, "n::B::B");
		f = (unsigned)sym_value(f), g = (unsigned)sym_value(g);
		auto type = [&](string const &n) { auto *d = llvm::dyn_cast_or_null<clang::ValueDecl>(find(tu, n)); return d ? (uint64_t)d->getType().getAsOpaquePtr() : 0; };
		static const unsigned same[] = {0, 2, 4};
		uint64_t tf = type("n::t" + num(f)), tg = type("n::t" + num(same[g]));
		if( !F or !G or !B or !tf or !tg ) { check(false, "no-declaration"); return; }
		set_attr(F, A_type, tf);
		set_attr(G, A_type, tg);
		B->setAccess((clang::AccessSpecifier)ba);
		set_attr(B, A_deleted, bd);
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	f = (unsigned)sym_value(f);
	bool base = sym_value(ba) != 2 and sym_value(bd) == 0;
	struct X { const char *name; bool ok; };
	for( auto x : {X{"S", base and ts[f].ok}, X{"S1", true}, X{"S2", true}, X{"S3", false}, X{"S4", true}, X{"S5", false}, X{"S6", true}, X{"S7", true}, X{"S8", false}, X{"S9", true}, X{"S10", false}, X{"IM", false}, X{"PD", true}, X{"PI", true}, X{"UN", false}, X{"UI", true}, X{"A", true}, X{"ND", false}} ) {
		string q = string("n::") + x.name;
		is(block(r.code, q), "pybind11::init( [](){ return new " + q + "(); } )", "", x.ok, x.ok ? "has-default-constructor" : "has-no-default-constructor");
	}
	// copy constructors are declared, or not, for reasons of their own
	for( auto &l : lines_with(r.code, "(){ return new ") ) observe(l);
}

// instantiations also get the public members of their public bases
static void bases()
{
	unsigned a1 = choose("TD", 3), a2 = choose("TE", 3), a3 = choose("X", 3);
	string h = "#pragma once\nnamespace n {\nstruct Q { int q(int a); int qf; };\n";
	auto bacc = [](unsigned a) { return string(sym_mode() ? "public" : AS[a]) + " "; };
	h += "template <class T> class TB { public: T bf; T bm(T a); static int bs(T a); protected: int bp(int a); int bpf; };\n";
	h += "template <class T> class TD : " + bacc(a1) + "TB<T> { public: T dm(T a); int df; private: int dp(int a); };\n";
	h += "template <class T> class TE : " + bacc(a2) + "TD<T>, public Q { public: int em(int a); };\n";
	h += "class X : " + bacc(a3) + "TB<double> { public: int xm(int a); };\ntemplate class TE<int>;\n}\n";
	char skip = line("class n::TB<int>", "#-"), skq = line("class n::Q", "#-"), skm = line("function n::TD::dm", "#-");
	on_ast = [&](clang::ASTContext &c) {
		auto *D = spec(c, "n::TD"), *E = spec(c, "n::TE"), *X = llvm::dyn_cast_or_null<clang::CXXRecordDecl>(find(c.getTranslationUnitDecl(), "n::X"));
		if( !D or !E or !X ) { check(false, "no-declaration"); return; }
		set_attr(D->bases_begin(), A_baseacc, a1);
		set_attr(E->bases_begin(), A_baseacc, a2);
		set_attr(X->bases_begin(), A_baseacc, a3);
	};
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	bool p1 = sym_value(a1) == 0 and val(skip) != '-', p2 = sym_value(a2) == 0, q = val(skq) != '-', dm = val(skm) != '-';
	struct Y { const char *cls; bool tb, td, te, q; };
	for( auto y : {Y{"n::TE<int>", p1 and p2, p2, true, q}, Y{"n::TD<int>", p1, true, false, false}} ) {
		string b = block(r.code, y.cls);
		is(b, "cl.def_readwrite(\"bf\", &n::TB<int>::bf)", "", y.tb, "members-of-public-base");
		is(b, "cl.def(\"bm\", ", "&n::TB<int>::bm", y.tb, "members-of-public-base");
		is(b, "cl.def_static(\"bs\", ", "&n::TB<int>::bs", y.tb, "members-of-public-base");
		is(b, "cl.def(\"dm\", ", "&n::TD<int>::dm", y.td and dm, "members-of-public-base");
		is(b, "cl.def_readwrite(\"df\", &n::TD<int>::df)", "", y.td, "members-of-public-base");
		is(b, "cl.def(\"em\", ", "", y.te, "members-of-public-base");
		is(b, "cl.def(\"q\", ", "&n::Q::q", y.q, "members-of-public-base");
		is(b, "cl.def_readwrite(\"qf\", &n::Q::qf)", "", y.q, "members-of-public-base");
		check(not has(b, "\"bp\"") and not has(b, "\"bpf\"") and not has(b, "\"dp\""), "inaccessible-members-never");
	}
	string x = block(r.code, "n::X");
	check(not has(x, "\"bf\"") and not has(x, "\"bm\"") and not has(x, "\"bs\""), "classes-inherit-in-python");
	is(x, "cl.def(\"xm\", ", "", true, "own-method-iff-public");
	observe(r.code);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 0 ) usings();
	else if( which == 1 ) constructors();
	else if( which == 2 ) implicit();
	else bases();
}
