// members: exactly the public, non-deleted, bindable ones are exposed, each once
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
static const char *AS[] = {"public", "protected", "private"};
struct M { string decl, qname; unsigned nth; unsigned acc, del; bool can_delete; };
static std::vector<M> ms;
static unsigned add(string const &decl, string const &qname, unsigned nth, bool can_delete)
{
	M m = {decl, qname, nth, choose(("acc:" + qname + "#" + num(nth)).c_str(), 3), can_delete ? choose(("del:" + qname + "#" + num(nth)).c_str(), 2) : 0u, can_delete};
	ms.push_back(m);
	return ms.size() - 1;
}
static bool shown(unsigned i) { return (ms[i].acc == 0) & (ms[i].del == 0); }

// data member of each kind of type: writable, read only or not exposed
struct W { const char *spelled; unsigned how; }; // how: 0 writable, 1 read only, 2 as Y is assigned, 3 as Y is assigned by a derived class, 4 not exposed
static const W ws[] = {{"int", 0}, {"bool", 0}, {"n::E", 0}, {"n::P", 0}, {"n::V", 0}, {"n::V2", 0}, {"n::G", 0}, {"n::L", 0}, {"n::X<int>", 0}, {"const int", 1}, {"const n::P", 1}, {"n::Q", 1}, {"n::R", 1}, {"n::K", 1}, {"n::U", 1}, {"n::M", 1}, {"n::MA", 1}, {"n::QB", 1},
	{"n::X<const int>", 1}, {"n::X<n::Q>", 1}, {"n::Nc", 1}, {"n::Y", 2}, {"n::YT", 2}, {"n::YM", 2}, {"n::YA", 2}, {"n::X<n::Y>", 2}, {"n::YB", 3}, {"n::YC", 3}, {"int *", 4}, {"int &", 4}, {"n::P *", 4}, {"n::P const &", 4}, {"int[2]", 4}, {"n::FP", 4}, {"n::MP", 4}};
static void writable()
{
	bool sym = sym_mode();
	const unsigned N = sizeof(ws) / sizeof(ws[0]);
	unsigned t = choose("type", N), acc = choose("access", 3), yacc = choose("assignment.access", 3), ydel = choose("assignment.deleted", 2);
	string h = "#pragma once\nnamespace n {\nenum E { e0 };\nstruct P { P(); P(P const &); };\nstruct Q { Q(); Q(Q const &); Q &operator=(Q const &) = delete; };\nstruct R { R(); int &r; };\nstruct K { K(); const int k; };\nstruct U { U(); R r; };\nstruct M { M(); M(M const &); M(M &&); };\n"
		"struct MA { MA(); MA &operator=(MA &&); };\nstruct QB : Q { QB(); };\nstruct V { V(); V &operator=(V); };\nstruct V2 { V2(); V2 &operator=(V2 &); V2 &operator=(V2 const &); };\nstruct G { G(); template <class T> G &operator=(T const &); };\nstruct L { L(); L &operator=(int) = delete; };\nstruct Nc { Nc(); Nc &operator=(Nc &); };\n"
		"template <class T> struct X { X(); T v; };\nstruct Y { Y();\n" + string(sym ? "public" : AS[yacc]) + ": Y &operator=(Y const &)" + (not sym and ydel ? " = delete" : "") + ";\n};\ntypedef Y YT;\nstruct YM { YM(); Y y; };\nstruct YA { YA(); Y y[2][2]; };\nstruct YB : Y { YB(); };\nstruct YC : YB { YC(); };\n"
		"typedef void (*FP)(int);\ntypedef int P::*MP;\n}\nnamespace z {\nstruct T { T();\n";
	for( unsigned i = 0; i < N; ++i ) h += "typedef " + (string(ws[i].spelled) == "int[2]" ? "int a" + num(i) + "[2]" : ws[i].spelled + (" a" + num(i))) + ";\na" + num(i) + " t" + num(i) + ";\n";
	h += "};\n}\nnamespace m {\nstruct S { S();\nint before;\n" + string(sym ? "public" : AS[acc]) + ": z::T::a" + num(sym ? 0 : t) + " x;\npublic: int after; };\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		auto *x = find(tu, "m::S::x"), *y = find(tu, "n::Y::operator=");
		t = (unsigned)sym_value(t);
		auto *u = find(tu, "z::T::t" + num(t));
		if( !x or !y or !u ) { check(false, "no-declaration"); return; }
		x->setAccess((clang::AccessSpecifier)acc);
		set_attr(x, A_type, (uint64_t)llvm::cast<clang::ValueDecl>(u)->getType().getAsOpaquePtr());
		y->setAccess((clang::AccessSpecifier)yacc);
		set_attr(y, A_deleted, ydel);
		// what C++ makes of the implicit assignment operators that clang has declared
		unsigned member = (yacc != 0) | (ydel != 0), base = (yacc == 2) | (ydel != 0);
		for( string q : {"YM", "YA", "YB", "YC"} )
			if( auto *rd = llvm::dyn_cast_or_null<clang::CXXRecordDecl>(find(tu, "n::" + q)) )
				for( auto *o : rd->methods() ) if( o->isCopyAssignmentOperator() ) set_attr(o, A_deleted, q == "YM" or q == "YA" ? member : base);
		if( auto *xt = llvm::dyn_cast_or_null<clang::ClassTemplateDecl>(find(tu, "n::X")) )
			for( auto *sp : xt->specializations() ) {
				auto &a = sp->getTemplateArgs()[0];
				auto *rd = a.getKind() == clang::TemplateArgument::Type ? a.getAsType()->getAsCXXRecordDecl() : nullptr;
				if( rd and rd->getNameAsString() == "Y" )
					for( auto *o : sp->methods() ) if( o->isCopyAssignmentOperator() ) set_attr(o, A_deleted, member);
			}
	};
	Result r = run(h, "", {"--bind", "m", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	t = (unsigned)sym_value(t);
	unsigned how = ws[t].how;
	bool shown = (acc == 0) & (how != 4);
	bool rw = how == 0 ? true : how == 2 ? (yacc == 0) & (ydel == 0) : how == 3 ? (yacc != 2) & (ydel == 0) : false;
	check((count(r.code, "cl.def_readwrite(\"x\", &m::S::x)") == 1) == (shown & rw), "writable-iff-assignable");
	check((count(r.code, "cl.def_readonly(\"x\", &m::S::x)") == 1) == (shown & not rw), "readonly-iff-not-assignable");
	check(count(r.code, "cl.def_readwrite(\"before\", &m::S::before)") == 1 and count(r.code, "cl.def_readwrite(\"after\", &m::S::after)") == 1, "other-fields-stay");
	if( count(r.code, "cl.def_readwrite(\"x\"") ) sym_reach("writable");
	if( count(r.code, "cl.def_readonly(\"x\"") ) sym_reach("readonly");
	for( auto &l : lines_with(r.code, "cl.def_read") ) observe(l);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 5 ) return writable();
	bool few = which == 4;
	if( few ) which = 1;
	bool sym = sym_mode();
	string h = "#pragma once\nnamespace n {\nstruct P { P(); P(P const &); };\nstruct Q { Q(); Q(Q const &); Q &operator=(Q const &) = delete; };\n";
	unsigned cq = 0, bits = 0, virt = 0;
	string tail;
	if( which == 0 ) { // constructors
		add("S()", "n::S::S", 0, true);
		add("S(S const &)", "n::S::S", 1, true);
		add("S(int a)", "n::S::S", 2, true);
		add("S(P const &a, P *b)", "n::S::S", 3, true);
	}
	else if( which == 1 ) { // methods, overloads, const overloads
		add("void m(int a)", "n::S::m", 0, true);
		add("void m(P const &a)", "n::S::m", 1, true);
		add("static int st(double a)", "n::S::st", 0, true);
		add("int co(int a)", "n::S::co", 0, false);
		add("int co(int a) const", "n::S::co", 1, false);
		add("int only(int a) const", "n::S::only", 0, false);
		add("template <class T> int tm(T a) { return 0; }\n", "n::S::tm", 0, false);
		add("template <class T> static int ts(T a) { return 0; }\n", "n::S::ts", 0, false);
		if( few ) {
			for( unsigned i = 0; i < 3; ++i ) sym_assume((ms[i].acc == 2) & (ms[i].del == 0));
			virt = choose("virtual", 2); // the overloads are virtual
			tail = "private: S &operator=(S const &);\n";
		}
		else sym_assume((ms[6].acc == 2) & (ms[7].acc == 2));
		if( not sym and virt ) ms[3].decl = "virtual " + ms[3].decl, ms[4].decl = "virtual " + ms[4].decl;
	}
	else if( which == 2 ) { // data members
		cq = choose("constq", 2);
		add(string(sym or not cq ? "" : "const ") + "int f0", "n::S::f0", 0, false);
		add("P f1", "n::S::f1", 0, false);
		add("Q f2", "n::S::f2", 0, false);
		add("int *f3", "n::S::f3", 0, false);
		add("int f4[3]", "n::S::f4", 0, false);
		add("const double f5", "n::S::f5", 0, false);
		bits = choose("bitfield", 2);
		add(string("int f6") + (sym or bits ? " : 3" : ""), "n::S::f6", 0, false);
	}
	else { // nested types and their use in signatures
		add("struct I { int x; void im(int a); private: int y; void pm(int a); }", "n::S::I", 0, false);
		add("enum E { e0, e1 }", "n::S::E", 0, false);
		add("void ui(I a)", "n::S::ui", 0, false);
		add("I *ri(int a)", "n::S::ri", 0, false);
		add("void ue(E a)", "n::S::ue", 0, false);
		add("template<class T> struct N { T t; void nm(T a); }", "n::S::N", 0, false);
		tail = "private: N<int> fn;\npublic: struct FW;\nstruct FW { int fw; };\nstruct OW;\nunion UN { int ua; double ub; };\n";
	}
	h += "struct S {\n";
	for( auto &m : ms ) h += string(sym ? "public" : AS[m.acc]) + ": " + m.decl + (not sym and m.del ? " = delete" : "") + ";\n";
	h += tail + "};\n" + (which == 3 ? "struct S::OW { int ow; };\n" : which == 1 ? "template int S::tm<int>(int);\ntemplate int S::ts<bool>(bool);\n" : "") + "}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		for( auto &m : ms ) {
			auto *d = find(tu, m.qname, m.nth);
			if( !d ) { check(false, "no-declaration"); return; }
			d->setAccess((clang::AccessSpecifier)m.acc);
			if( auto *ft = llvm::dyn_cast<clang::FunctionTemplateDecl>(d) ) {
				ft->getTemplatedDecl()->setAccess((clang::AccessSpecifier)m.acc);
				for( auto *sp : ft->specializations() ) sp->setAccess((clang::AccessSpecifier)m.acc);
			}
			if( m.qname == "n::S::f6" ) set_attr(d, A_bitfield, bits);
			if( m.qname == "n::S::co" ) set_attr(d, A_virtual, virt);
			if( m.can_delete ) set_attr(d, A_deleted, m.del);
			if( m.qname == "n::S::f0" ) set_attr(d, A_type, (uint64_t)llvm::cast<clang::ValueDecl>(d)->getType().getAsOpaquePtr() | cq);
		}
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	size_t b = r.code.find("pybind11::class_<n::S,");
	check(b != string::npos and count(r.code, "pybind11::class_<n::S,") == 1, "class-registered-once");
	string s = b == string::npos ? "" : r.code.substr(b);
	auto shows = [&](unsigned i, string const &text, const char *id) { check((count(s, text) == 1) == shown(i), id); check(count(s, text) <= 1, "member-registered-once"); };
	if( which == 0 ) {
		shows(0, "cl.def( pybind11::init( [](){ return new n::S(); } ) )", "default-constructor-iff-public");
		shows(1, "cl.def( pybind11::init( [](n::S const &o){ return new n::S(o); } ) )", "copy-constructor-iff-public");
		shows(2, "cl.def( pybind11::init<int>(), pybind11::arg(\"a\") )", "constructor-iff-public");
		shows(3, "cl.def( pybind11::init<const struct n::P &, struct n::P *>(), pybind11::arg(\"a\"), pybind11::arg(\"b\") )", "constructor-iff-public");
		unsigned n = shown(0) + shown(1) + shown(2) + shown(3);
		check(count(s, "pybind11::init") == n, "no-other-constructor");
	}
	else if( which == 1 ) {
		shows(0, "cl.def(\"m\", (void (n::S::*)(int)) &n::S::m, ", "method-iff-public");
		shows(1, "cl.def(\"m\", (void (n::S::*)(const struct n::P &)) &n::S::m, ", "method-iff-public");
		shows(2, "cl.def_static(\"st\", (int (*)(double)) &n::S::st, ", "static-method-iff-public");
		shows(3, "cl.def(\"co\", (int (n::S::*)(int)) &n::S::co, ", "non-const-overload-iff-public");
		bool cc = (ms[4].acc == 0) & (ms[3].acc != 0);
		check((count(s, "cl.def(\"co\", (int (n::S::*)(int) const) &n::S::co, ") == 1) == cc, "const-overload-only-without-non-const-twin");
		shows(5, "cl.def(\"only\", (int (n::S::*)(int) const) &n::S::only, ", "const-method-iff-public");
		shows(6, "cl.def(\"tm\", (int (n::S::*)(int)) &n::S::tm<int>, ", "template-method-iff-public");
		shows(7, "cl.def_static(\"ts\", (int (*)(bool)) &n::S::ts<bool>, ", "template-method-iff-public");
		unsigned n = shown(0) + shown(1) + shown(2) + shown(3) + shown(5) + shown(6) + shown(7) + cc;
		check(count(s, "cl.def(\"") + count(s, "cl.def_static(\"") == n, "no-other-method");
	}
	else if( which == 2 ) {
		bool p0 = ms[0].acc == 0;
		check((count(s, "cl.def_readwrite(\"f0\", &n::S::f0)") == 1) == (p0 & (cq == 0)), "writable-iff-public-and-not-const");
		check((count(s, "cl.def_readonly(\"f0\", &n::S::f0)") == 1) == (p0 & (cq == 1)), "readonly-iff-public-and-const");
		shows(1, "cl.def_readwrite(\"f1\", &n::S::f1)", "field-iff-public");
		shows(2, "cl.def_readonly(\"f2\", &n::S::f2)", "unassignable-field-readonly");
		shows(5, "cl.def_readonly(\"f5\", &n::S::f5)", "const-field-readonly");
		check(not has(s, "\"f3\"") and not has(s, "\"f4\""), "pointer-and-array-fields-never");
		bool p6 = (ms[6].acc == 0) & (bits == 0);
		check((count(s, "cl.def_readwrite(\"f6\", &n::S::f6)") == 1) == p6, "field-iff-public-and-no-bit-field");
		check(count(s, "cl.def_read") == (unsigned)(p0 + shown(1) + shown(2) + shown(5) + p6), "no-other-field");
	}
	else {
		bool I = ms[0].acc == 0, E = ms[1].acc == 0;
		check((count(s, "pybind11::class_<n::S::I,") == 1) == I, "nested-class-iff-public");
		check((count(s, "cl(enclosing_class, \"I\"") == 1) == I, "nested-class-in-its-class");
		check((count(s, "cl.def_readwrite(\"x\", &n::S::I::x)") == 1) == I and (count(s, "cl.def(\"im\", ") == 1) == I, "nested-public-members-iff-nested-class");
		check(not has(s, "\"y\"") and not has(s, "\"pm\""), "nested-private-members-never");
		check((count(s, "pybind11::enum_<n::S::E>(cl, \"E\"") == 1) == E, "nested-enum-iff-public");
		check((count(s, "cl.def(\"ui\", ") == 1) == (shown(2) & I), "method-iff-public-and-usable-types");
		check((count(s, "cl.def(\"ri\", ") == 1) == (shown(3) & I), "method-iff-public-and-usable-types");
		check((count(s, "cl.def(\"ue\", ") == 1) == (shown(4) & E), "method-iff-public-and-usable-types");
		bool N = ms[5].acc == 0;
		check(count(s, "pybind11::class_<n::S::FW,") == 1 and count(s, "cl.def_readwrite(\"fw\", &n::S::FW::fw)") == 1, "forward-declared-nested-class-once");
		check(count(s, "pybind11::class_<n::S::OW,") == 1 and count(s, "cl(enclosing_class, \"OW\"") == 1 and count(s, "cl.def_readwrite(\"ow\", &n::S::OW::ow)") == 1, "forward-declared-nested-class-once");
		check(count(s, "pybind11::class_<n::S::UN,") == 1 and count(s, "cl(enclosing_class, \"UN\"") == 1 and count(s, "cl.def_readwrite(\"ub\", &n::S::UN::ub)") == 1, "nested-union-once");
		check((count(s, "pybind11::class_<n::S::N<int>,") == 1) == N, "nested-template-instantiation-iff-public");
		check((count(s, "cl.def_readwrite(\"t\", &n::S::N<int>::t)") == 1) == N and (count(s, "cl.def(\"nm\", (void (n::S::N<int>::*)(int)) &n::S::N<int>::nm, ") == 1) == N, "nested-public-members-iff-nested-class");
		if( not N ) check(not has(s, "S::N"), "no-reference-to-inaccessible-type");
		if( not I ) check(not has(s, "S::I"), "no-reference-to-inaccessible-type");
		if( not E ) check(not has(s, "S::E"), "no-reference-to-inaccessible-type");
	}
	observe(r.code);
}
