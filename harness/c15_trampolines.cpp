// virtual methods: which classes get an override class, what it overrides, what the overrides do, and what constructors build
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
static const char *AS[] = {"public", "protected", "private"};
enum { PLAIN, VIRTUAL, PURE, FINAL };
struct Meth {
	const char *cls, *name, *ret, *params, *typed, *args; // typed: parameters as they appear in the override
	bool cst;
	unsigned acc, kind, skip, spec, custom, there, variadic, qual;
	string qname() const { return string("n::") + cls + "::" + name; }
};
static std::vector<Meth> ms;
static Meth &add(const char *cls, const char *name, const char *ret, const char *params, const char *typed, const char *args, bool cst, unsigned kinds)
{
	Meth m = {cls, name, ret, params, typed, args, cst, 0, 0, 0, 0, 0, 1, 0, 0};
	string id = string(cls) + "." + name + (cst ? "c" : "");
	m.acc = choose((id + ".access").c_str(), 3);
	m.kind = choose((id + ".kind").c_str(), kinds);
	ms.push_back(m);
	return ms.back();
}
static const char *SPEC[] = {"", " noexcept", " throw()", " noexcept(false)", " noexcept(true)"};
static const unsigned EST[] = {clang::EST_None, clang::EST_BasicNoexcept, clang::EST_DynamicNone, clang::EST_NoexceptFalse, clang::EST_NoexceptTrue};
static const char *SPECTEXT[] = {"", "noexcept ", "throw() ", "", "noexcept "};

// reference and other qualifiers; functions with the middle two can not be called on the objects Python holds
static const char *QUAL[] = {"", " &", " &&", " volatile", " const &"};
static bool usable(Meth const &m) { return m.qual != 2 and m.qual != 3; }

struct Cls { const char *name; unsigned final_; int base; unsigned base_acc; unsigned dtor_acc, dtor_del; int base2 = -1; unsigned base2_acc = 0;
	Cls(const char *n, unsigned f, int b, unsigned a, unsigned d, unsigned x) : name(n), final_(f), base(b), base_acc(a), dtor_acc(d), dtor_del(x) {}
	std::vector<std::pair<int, unsigned>> bases() const { std::vector<std::pair<int, unsigned>> r; if( base >= 0 ) r.push_back({base, base_acc}); if( base2 >= 0 ) r.push_back({base2, base2_acc}); return r; } // class and access
};
static std::vector<Cls> cs;
static bool overrides(Meth const &a, Meth const &b) { return string(a.name) == b.name and string(a.params) == b.params and a.cst == b.cst; }
static bool const_twin(Meth const &m)
{
	if( not m.cst ) return false;
	for( auto &o : ms )
		if( o.there and not o.cst and string(o.cls) == m.cls and string(o.name) == m.name and string(o.params) == m.params and o.acc == m.acc ) return true;
	return false;
}
static bool abstract(unsigned k)
{
	for( auto &m : ms )
		if( m.there and string(m.cls) == cs[k].name and m.kind == PURE ) return true;
	for( auto &x : cs[k].bases() )
		for( auto &b : ms )
			if( b.there and string(b.cls) == cs[x.first].name and b.kind == PURE ) {
				bool over = false;
				for( auto &m : ms ) over |= m.there and string(m.cls) == cs[k].name and overrides(m, b);
				if( not over ) return true;
			}
	return false;
}
static bool needed(unsigned k)
{
	if( cs[k].final_ or cs[k].dtor_acc == 2 or cs[k].dtor_del ) return false; // no class can be derived
	if( abstract(k) )
		for( auto &m : ms )
			if( m.there and string(m.cls) == cs[k].name and m.kind == PURE and const_twin(m) ) return false;
	for( auto &m : ms )
		if( m.there and string(m.cls) == cs[k].name and m.kind != PLAIN and m.acc != 2 and usable(m) ) return true;
	for( auto &x : cs[k].bases() )
		if( x.second != 2 and needed(x.first) ) return true;
	return false;
}
static bool constructible(unsigned k) // every pure method can be overridden
{
	if( not abstract(k) ) return true;
	for( auto &m : ms )
		if( m.there and string(m.cls) == cs[k].name and m.kind == PURE and (m.acc == 2 or m.skip or m.variadic or not usable(m) or const_twin(m)) ) return false;
	for( auto &x : cs[k].bases() )
		if( x.second != 2 ? not constructible(x.first) : abstract(x.first) ) return false;
	return true;
}
static void collect(unsigned k, std::vector<Meth *> &seen)
{
	for( auto &m : ms ) {
		if( not m.there or string(m.cls) != cs[k].name or m.kind == PLAIN or not usable(m) ) continue;
		bool dup = false;
		for( auto *s : seen ) dup |= overrides(*s, m);
		if( not dup ) seen.push_back(&m);
	}
	for( auto &x : cs[k].bases() ) if( x.second != 2 ) collect(x.first, seen);
}
static std::vector<Meth *> visible(unsigned k) // the most derived version of each virtual method
{
	std::vector<Meth *> seen;
	collect(k, seen);
	return seen;
}
static bool overridable(Meth const &m) { return m.acc != 2 and not m.skip and not m.variadic and m.kind != FINAL and not const_twin(m); }
static void check_class(unsigned k, Result const &r)
{
	string name = cs[k].name, q = "n::" + name, tr = "PyCallBack_n_" + name, head = "struct " + tr + " : public " + q + " {\n";
	bool abs = abstract(k), may = needed(k) and constructible(k), must = false;
	for( auto *m : visible(k) ) must |= overridable(*m);
	unsigned found = count(r.code, head);
	check(found <= 1 and (may or not found) and (not may or not must or found), "override-class-iff-overridable");
	bool tramp = found; // optional when there is nothing to override
	sym_reach(tramp ? (abs ? "trampoline-abstract" : "trampoline") : (abs ? "abstract" : "plain"));
	size_t b = r.code.find("pybind11::class_<" + q + ", ");
	check(b != string::npos, "class-registered");
	if( b == string::npos ) return;
	string cl = r.code.substr(b, r.code.find("\n\t}\n", b) - b);
	string line = cl.substr(0, cl.find('\n'));
	check((count(line, tr) == 1) == tramp, "registered-with-its-override-class");
	for( auto &x : cs[k].bases() ) check((has(line, string(", n::") + cs[x.first].name + ">") or has(line, string(", n::") + cs[x.first].name + ",")) == (x.second == 0), "public-base-registered");
	// constructors: (), (int, int = 3), copy
	string nS = "new " + q + "(", nT = "new " + tr + "(";
	if( abs and not tramp ) check(count(cl, "pybind11::init") == 0, "abstract-class-not-constructible");
	else {
		string d = abs ? "pybind11::init( [](){ return " + nT + "); } ) )" : tramp ? "pybind11::init( [](){ return " + nS + "); }, [](){ return " + nT + "); } ) )" : "pybind11::init( [](){ return " + nS + "); } ) )";
		check(count(cl, d) == 1, "default-constructor-builds-the-right-class");
		string one = "[](int const & a0){ return ";
		string o = abs ? one + nT + "a0); } ), \"doc\"" : tramp ? one + nS + "a0); }, " + one + nT + "a0); } ), \"doc\"" : one + nS + "a0); } ), \"doc\"";
		check(count(cl, o) == 1, "shorter-constructor-builds-the-right-class");
		check(count(cl, "pybind11::init<int, int>()") == 1, "full-constructor");
		if( abs ) check(count(cl, nS) == 0, "abstract-class-never-built");
		if( not tramp ) check(count(cl, nT) == 0, "no-override-class-built");
		check((count(cl, "const &o){ " "return " + nS + "o)") == 1) == not abs, "copy-constructor");
	}
	if( not tramp ) return;
	size_t h = r.code.find(head);
	if( h == string::npos ) return;
	string t = r.code.substr(h, r.code.find("\n};\n", h) - h);
	check(has(t, "\tusing " + q + "::" + name + ";\n"), "inherits-the-constructors");
	unsigned expected = 0;
	for( auto *mp : visible(k) ) {
		Meth &m = *mp;
		string quals = string(m.cst ? " const" : "") + QUAL[m.qual];
		if( m.kind == FINAL or m.variadic ) check(not has(t, string(" ") + m.name + "(" + m.typed + ")" + quals + " "), "final-methods-not-overridden");
		if( not overridable(m) ) continue; // the version of a base class would hide this one
		string sig = string("\t") + m.ret + " " + m.name + "(" + m.typed + ")" + quals + " " + SPECTEXT[m.spec] + "override {";
		++expected;
		check(count(t, sig) == 1, "overrides-every-overridable-method");
		size_t p = t.find(sig);
		if( p == string::npos ) continue;
		string body = t.substr(p, t.find("\n\t}\n", p) - p);
		if( m.custom ) {
			check(count(body, "return my_tramp<" + string(m.cls) + "," + tr + ">(this, \"" + q + "\", \"" + m.name + "\", " + m.args + ");") == 1, "custom-override-body");
			check(not has(body, "get_overload"), "custom-override-body");
			sym_reach("custom");
			continue;
		}
		check(count(body, "pybind11::get_overload(static_cast<const " + q + " *>(this), \"" + m.name + "\")") == 1, "asks-python-for-its-own-name");
		check(count(body, "overload.operator()<pybind11::return_value_policy::reference>(" + string(m.args) + ")") == 1, "python-gets-all-arguments");
		check(count(body, "return pybind11::detail::cast_safe<" + string(m.ret) + ">(std::move(o));") == 1, "python-result-is-returned");
		bool fails = count(body, "pybind11::pybind11_fail(\"Tried to call pure virtual function \\\"" + string(m.cls) + "::" + m.name + "\\\"\");") == 1;
		bool calls = count(body, "\t\treturn " + string(m.cls) + "::" + m.name + "(" + m.args + ");") == 1;
		check(fails == (m.kind == PURE) and calls == (m.kind != PURE), "falls-back-to-cpp-unless-pure");
	}
	check(count(t, " override {") == expected, "overrides-nothing-else");
}

extern "C" void harness_main()
{
	bool sym = sym_mode();
	unsigned which = sym_param("which", 0);
	string config;
	unsigned custom = 0;
	if( which == 0 ) {
		cs.push_back({"S", 0, -1, 0, 0, 0});
		cs[0].final_ = choose("class.final", 2);
		Meth &a = add("S", "m0", "int", "int a", "int a0", "a0", false, 4);
		string s = "#";
		sym_bytes(&s[0], 1, "skip");
		sym_alphabet(&s[0], 1, "#-");
		config += s + "function n::S::m0\n";
		a.skip = s[0] == '-';
		add("S", "m1", "void", "P const &a, double b", "const struct n::P & a0, double a1", "a0, a1", true, 4);
	}
	else if( which == 1 ) { // const pair
		cs.push_back({"S", 0, -1, 0, 0, 0});
		add("S", "co", "int", "int a", "int a0", "a0", false, 3);
		add("S", "co", "int", "int a", "int a0", "a0", true, 3);
		sym_assume(ms[0].acc == ms[1].acc or ms[1].kind != PURE);
		add("S", "m1", "void", "bool *a", "bool * a0", "a0", false, 2);
	}
	else if( which == 2 ) { // inheritance
		cs.push_back({"B", 0, -1, 0, 0, 0});
		cs.push_back({"S", 0, 0, 0, 0, 0});
		cs[1].base_acc = choose("base.access", 3);
		add("B", "m0", "int", "int a", "int a0", "a0", false, 4);
		add("B", "m2", "struct n::P *", "int a, P &b", "int a0, struct n::P & a1", "a0, a1", false, 3);
		Meth &o = add("S", "m0", "int", "int a", "int a0", "a0", false, 4);
		o.there = pick("overridden", 2);
		if( o.there ) {
			sym_assume(ms[0].kind != FINAL);
			sym_assume(ms[0].kind == PLAIN or o.kind != PLAIN); // overriding a virtual method makes a virtual method
		}
		else { sym_assume(o.kind == PLAIN); sym_assume(o.acc == 0); }
		string s = "#";
		sym_bytes(&s[0], 1, "skip");
		sym_alphabet(&s[0], 1, o.there ? "#-" : "#");
		config += s + "function n::S::m0\n";
		o.skip = s[0] == '-';
	}
	else if( which == 6 ) { // two bases
		cs.push_back({"B", 0, -1, 0, 0, 0});
		cs.push_back({"E", 0, -1, 0, 0, 0});
		cs.push_back({"S", 0, 0, 0, 0, 0});
		cs[2].base2 = 1;
		cs[2].base_acc = choose("base.access", 3);
		cs[2].base2_acc = choose("base2.access", 3);
		add("B", "m0", "int", "int a", "int a0", "a0", false, 3);
		add("E", "m2", "struct n::P *", "int a, P &b", "int a0, struct n::P & a1", "a0, a1", false, 3);
		add("S", "m0", "int", "int a", "int a0", "a0", false, 3);
		sym_assume(ms[0].acc == 0);
		sym_assume(ms[2].acc == 0);
		ms[2].there = pick("overridden", 2);
		if( ms[2].there ) sym_assume(ms[0].kind == PLAIN or ms[2].kind != PLAIN);
		else sym_assume(ms[2].kind == PLAIN);
	}
	else if( which == 4 ) { // inherited const pair
		cs.push_back({"B", 0, -1, 0, 0, 0});
		cs.push_back({"S", 0, 0, 0, 0, 0});
		add("B", "co", "int", "int a", "int a0", "a0", false, 3);
		add("B", "co", "int", "int a", "int a0", "a0", true, 3);
		Meth o = add("S", "co", "int", "int a", "int a0", "a0", false, 3);
		ms.back().there = pick("overridden", 2);
		Meth p = add("S", "co", "int", "int a", "int a0", "a0", true, 3);
		ms.back().there = pick("const.overridden", 2);
		for( unsigned i = 2; i < 4; ++i )
			if( not ms[i].there ) { sym_assume(ms[i].kind == PLAIN); sym_assume(ms[i].acc == 0); }
			else sym_assume(ms[i - 2].kind == PLAIN or ms[i].kind != PLAIN);
		for( auto &m : ms ) sym_assume(m.acc != 1);
		add("S", "z", "void", "bool *a", "bool * a0", "a0", false, 2);
		sym_assume(ms[4].acc == 0);
	}
	else if( which == 5 ) { // variadic methods, qualifiers of methods, destructors
		cs.push_back({"S", 0, -1, 0, 0, 0});
		cs[0].dtor_acc = choose("destructor.access", 3);
		cs[0].dtor_del = choose("destructor.deleted", 2);
		add("S", "m0", "int", "int a", "int a0", "a0", false, 4).variadic = choose("m0.variadic", 2);
		add("S", "m1", "int", "int a, int b", "int a0, int a1", "a0, a1", false, 3).qual = pick("m1.qualifier", 5);
		for( auto &m : ms ) sym_assume(m.acc == 0);
	}
	else { // exception specifications and custom overrides
		cs.push_back({"S", 0, -1, 0, 0, 0});
		ms.push_back({"S", "m0", "int", "int a", "int a0", "a0", false, 0, VIRTUAL, 0, 0, 0, 1, 0, 0});
		ms.push_back({"S", "m1", "void", "P const &a, double b", "const struct n::P & a0, double a1", "a0, a1", true, 0, VIRTUAL, 0, 0, 0, 1, 0, 0});
		for( auto &m : ms ) m.spec = choose((string(m.name) + ".spec").c_str(), 5);
		string s = "#";
		sym_bytes(&s[0], 1, "custom");
		sym_alphabet(&s[0], 1, "#+");
		config += s + "trampoline_member_function_binder n::S::m1 my_tramp\n";
		ms[1].custom = s[0] == '+';
		ms[0].acc = choose("m0.access", 2);
	}
	string h = "#pragma once\nnamespace n {\nstruct P { P(); P(P const &); };\n";
	for( unsigned k = 0; k < cs.size(); ++k ) {
		string c = cs[k].name;
		h += "struct " + c + (not sym and cs[k].final_ ? " final" : "");
		string sep = " : ";
		for( auto &x : cs[k].bases() ) h += sep + (sym ? "public" : AS[x.second]) + " " + cs[x.first].name, sep = ", ";
		h += " {\n" + c + "();\n" + c + "(" + c + " const &);\n" + c + "(int a, int b = 3);\n";
		h += string(sym ? "public" : AS[cs[k].dtor_acc]) + ": virtual ~" + c + "()" + (not sym and cs[k].dtor_del ? " = delete" : "") + ";\n";
		if( which == 5 )
			for( unsigned i = 0; i < 5; ++i ) h += "private: int q" + num(i) + "(int a, int b)" + QUAL[i] + ";\n";
		for( auto &m : ms )
			if( m.there and m.cls == c ) {
				h += string(sym ? "public" : AS[m.acc]) + ": " + (not sym and m.kind != PLAIN ? "virtual " : "") + m.ret + " " + m.name + "(" + m.params + (m.variadic and not sym ? ", ...)" : ")") + (m.cst ? " const" : "") + (sym ? "" : QUAL[m.qual]);
				if( not sym ) h += string(SPEC[m.spec]) + (m.kind == PURE ? " = 0" : m.kind == FINAL ? " final" : "");
				h += ";\n";
			}
		h += "};\n";
	}
	if( which == 0 ) h += "struct I { virtual ~I(); virtual int v(int a) = 0; };\nstruct J { virtual ~J(); virtual int v(int a); };\nstruct K : I { int k; };\n"; // no constructors declared
	h += "}\n";
	std::vector<Meth> orig = ms;
	on_ast = [&](clang::ASTContext &c) {
		auto *tu = c.getTranslationUnitDecl();
		for( auto &m : ms ) {
			if( not m.there ) continue;
			unsigned nth = 0;
			for( auto &o : ms )
				if( &o < &m and o.there and o.qname() == m.qname() ) ++nth;
			auto *d = llvm::dyn_cast_or_null<clang::CXXMethodDecl>(find(tu, m.qname(), nth));
			if( !d ) { check(false, "no-declaration"); return; }
			d->setAccess((clang::AccessSpecifier)m.acc);
			set_attr(d, A_variadic, m.variadic);
			if( m.qual ) set_attr(d, A_type, (uint64_t)llvm::cast<clang::ValueDecl>(find(tu, "n::S::q" + num(m.qual)))->getType().getAsOpaquePtr());
			set_attr(d, A_virtual, m.kind != PLAIN);
			set_attr(d, A_pure, m.kind == PURE);
			set_attr(d, A_final, m.kind == FINAL);
			unsigned est = EST[0];
			for( unsigned i = 1; i < 5; ++i ) est = m.spec == i ? EST[i] : est;
			set_attr(d->getType().getTypePtr(), A_exspec, est);
		}
		for( unsigned k = 0; k < cs.size(); ++k ) {
			auto *C = llvm::cast<clang::CXXRecordDecl>(find(tu, string("n::") + cs[k].name));
			auto *D = llvm::cast<clang::CXXMethodDecl>(find(tu, string("n::") + cs[k].name + "::~" + cs[k].name));
			D->setAccess((clang::AccessSpecifier)cs[k].dtor_acc);
			set_attr(D, A_deleted, cs[k].dtor_del);
			set_attr(C, A_final, cs[k].final_);
			unsigned abs = 0;
			for( auto &m : ms )
				if( m.there and string(m.cls) == cs[k].name ) abs |= m.kind == PURE;
			for( auto &x : cs[k].bases() )
				for( auto &m : ms )
					if( m.there and string(m.cls) == cs[x.first].name ) {
						unsigned p = m.kind == PURE;
						for( auto &o : ms )
							if( o.there and string(o.cls) == cs[k].name and overrides(o, m) ) p = 0;
						abs |= p;
					}
			set_attr(C, A_abstract, abs);
			unsigned nb = 0;
			auto bases = cs[k].bases();
			for( auto &b : C->bases() ) set_attr(&b, A_baseacc, bases[nb++].second);
		}
	};
	Result r = run(h, config, {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	for( auto &m : ms ) {
		m.acc = sym_value(m.acc);
		m.kind = sym_value(m.kind);
		m.skip = sym_value(m.skip);
		m.spec = sym_value(m.spec);
		m.custom = sym_value(m.custom);
		m.variadic = sym_value(m.variadic);
	}
	for( auto &c : cs ) { c.final_ = sym_value(c.final_); c.base_acc = sym_value(c.base_acc); c.base2_acc = sym_value(c.base2_acc); c.dtor_acc = sym_value(c.dtor_acc); c.dtor_del = sym_value(c.dtor_del); }
	for( unsigned k = 0; k < cs.size(); ++k ) check_class(k, r);
	if( which == 0 )
		for( string x : {"I", "J", "K"} ) {
			string tr = "[](){ return new PyCallBack_n_" + x + "(); }";
			check(count(r.code, "cl.def( pybind11::init( " + (x == "J" ? "[](){ return new n::J(); }, " : string()) + tr + " ) );") == 1, "implicit-constructor-builds-the-right-class");
			check(count(r.code, "return new n::" + x + "()") == (x == "J" ? 1u : 0u), "abstract-class-never-built");
		}
	observe(r.code);
	(void)custom;
}
