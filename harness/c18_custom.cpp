// customisation directives apply to exactly what they name
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
using namespace e2e;

static void one(string const &code, string const &text, bool shown, const char *id)
{
	check(count(code, text) == (shown ? 1u : 0u), id);
	sym_reach(shown ? "applied" : "not-applied");
}
// a short symbolic name
static string name(const char *id, unsigned hi = 2) { return sym_string(id, 1, hi, "ab:_"); }

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	bool sym = sym_mode();
	if( which == 0 ) { // holder types, buffer protocol, smart holder
		string h = name("holder", sym_param("long", 2));
		char cs = line("custom_shared " + h, "#+"), bp = line("buffer_protocol n::S"), sh = line("smart_holder n::S"), bt = line("buffer_protocol n::T", "#+"), st = line("smart_holder n::T", "#+");
		unsigned da = choose("dtor", 3), ea = choose("dtor-of-E", 3), ed = choose("deleted-dtor-of-E", 2);
		sym_assume((da == 0) | ((ea == 0) & (ed == 0)));
		static const char *AS[] = {"public", "protected", "private"};
		string hdr = "#pragma once\nnamespace n {\nstruct S { S(); " + string(sym ? "public" : AS[da]) + ": ~S(); };\nstruct SS { SS(); };\ntemplate <class A> struct T { T() {} };\ntemplate struct T<int>;\ntemplate struct T<bool>;\n"
			"struct E { E(); " + string(sym ? "public" : AS[ea]) + ": ~E()" + (not sym and ed ? " = delete" : "") + "; public: struct SS { SS(); }; };\n}\n";
		on_ast = [&](clang::ASTContext &c) {
			auto *s = llvm::dyn_cast_or_null<clang::CXXRecordDecl>(find(c.getTranslationUnitDecl(), "n::S")), *e = llvm::dyn_cast_or_null<clang::CXXRecordDecl>(find(c.getTranslationUnitDecl(), "n::E"));
			if( !s or !e ) { check(false, "no-declaration"); return; }
			s->getDestructor()->setAccess((clang::AccessSpecifier)da);
			e->getDestructor()->setAccess((clang::AccessSpecifier)ea);
			set_attr(e->getDestructor(), A_deleted, ed);
		};
		Result r = run(hdr, config, {"--bind", "n", "--single-file", "--skip-line-number"});
		check(r.rc == 0 and not r.thrown, "succeeds");
		cs = val(cs), bp = val(bp), sh = val(sh), bt = val(bt), st = val(st), da = (unsigned)sym_value(da != 0), ea = (unsigned)sym_value((ea != 0) | (ed != 0));
		string H = cs == '+' ? h : "std::shared_ptr";
		auto reg = [&](string const &q, bool raw, string const &py, string const &m, bool buffer, bool smart) {
			string holder = raw ? ", " + q + "*" : ", " + H + "<" + q + ">";
			one(r.code, "pybind11::class_<" + q + holder + "> cl(" + m + ", \"" + py + "\", \"\"" + (buffer ? ", pybind11::buffer_protocol()" : "") + ");\n", true, "registered-with-its-holder-and-annotations");
			check(count(r.code, "pybind11::class_<" + q + ",") == 1, "registered-once");
			check(count(r.code, "PYBIND11_TYPE_CASTER_BASE_HOLDER(" + q + " " + holder + ")") == (smart ? 1u : 0u), "smart-holder-iff-requested");
		};
		reg("n::S", da != 0, "S", "M(\"n\")", bp == '+', sh == '+');
		reg("n::SS", false, "SS", "M(\"n\")", false, false);
		reg("n::T<int>", false, "T_int_t", "M(\"n\")", bt == '+', st == '+');
		reg("n::T<bool>", false, "T_bool_t", "M(\"n\")", bt == '+', st == '+');
		reg("n::E", ea != 0, "E", "M(\"n\")", false, false);
		reg("n::E::SS", false, "SS", "enclosing_class", false, false);
		check(count(r.code, "PYBIND11_TYPE_CASTER_BASE_HOLDER") == (unsigned)((sh == '+') + 2 * (st == '+')), "smart-holder-of-nothing-else");
		check(has(r.code, "PYBIND11_DECLARE_HOLDER_TYPE(T, " + H + "<T>, false)") and has(r.code, "PYBIND11_MAKE_OPAQUE(" + H + "<void>)"), "holder-declared");
		observe(r.code);
	}
	else if( which == 1 ) { // module local
		char a = line("module_local_namespace @all_namespaces", "#+"), n = line("module_local_namespace n"), n2 = line("module_local_namespace n", "#-"), k = line("module_local_namespace n :: k");
		Result r = run("#pragma once\nnamespace n {\nstruct S { S(); struct I { I(); }; enum E { e0 }; };\nenum F { f0 };\nnamespace k { struct T { T(); }; enum class G { g0 }; }\nnamespace kk { struct V { V(); }; } }\nnamespace nn { struct U { U(); }; enum H { h0 }; }\n", config,
			{"--bind", "", "--single-file", "--skip-line-number"});
		a = val(a), n = val(n), n2 = val(n2), k = val(k);
		bool add = n == '+', skip = n == '-' or n2 == '-';
		if( a != '+' and add and skip ) {
			check(r.thrown or r.rc != 0, "conflict-refused");
			sym_reach("conflict");
			return;
		}
		check(r.rc == 0 and not r.thrown, "succeeds");
		bool N = a == '+' ? not skip : add, K = a == '+' ? k != '-' : k == '+', O = a == '+';
		auto local = [&](string const &start, bool want) {
			auto l = lines_with(r.code, start);
			check(l.size() == 1, "registered-once");
			if( l.size() == 1 ) check(has(l[0], ", \"\", pybind11::module_local())") == want and has(l[0], "module_local") == want, "module-local-iff-requested-for-its-namespace");
			sym_reach(want ? "applied" : "not-applied");
		};
		local("pybind11::class_<n::S,", N);
		local("pybind11::class_<n::S::I,", N);
		local("pybind11::enum_<n::S::E>", N);
		local("pybind11::enum_<n::F>", N);
		local("pybind11::class_<n::k::T,", K);
		local("pybind11::enum_<n::k::G>", K);
		local("pybind11::class_<n::kk::V,", O);
		local("pybind11::class_<nn::U,", O);
		local("pybind11::enum_<nn::H>", O);
		observe(r.code);
	}
	else if( which == 2 ) { // custom binders of classes
		string f = name("binder"), g = name("template-binder"), x = name("add-on"), y = name("template-add-on");
		char bs = line("binder n::S " + f), bt = line("binder n::T\t " + g + " ", "#+"), as = line("add_on_binder n::S  " + x), at = line("add_on_binder n::T " + y, "#+"), an = line("add_on_binder n::D " + x, "#+"), b3 = line("binder n::T3 " + f, "#+");
		Result r = run("#pragma once\nnamespace n {\nstruct S { S(); int v; };\nstruct SS { SS(); int w; };\ntemplate <class A, class B> struct T { T() {} A a; };\ntemplate struct T<int, S>;\ntemplate struct T<bool, double>;\n"
			"template <class A, class B, class C> struct T3 { T3() {} A a; };\ntemplate struct T3<int, S, bool>;\nstruct D : S { D(); };\nvoid f(S &, T<int, S> *);\n}\n", config, {"--bind", "n", "--single-file", "--skip-line-number"});
		check(r.rc == 0 and not r.thrown, "succeeds");
		bs = val(bs), bt = val(bt), as = val(as), at = val(at), an = val(an), b3 = val(b3);
		bool S = bs == '+', T = bt == '+';
		one(r.code, "\t" + f + "(M(\"n\"));\n", S, "binder-called-instead");
		one(r.code, "pybind11::class_<n::S,", not S, "registered-iff-no-binder");
		one(r.code, "cl.def_readwrite(\"v\"", not S, "registered-iff-no-binder");
		one(r.code, "\t" + g + "<int,n::S>(M(\"n\"), \"int\", \"n_S\");\n", T, "template-binder-called-for-each-instantiation");
		one(r.code, "\t" + g + "<bool,double>(M(\"n\"), \"bool\", \"double\");\n", T, "template-binder-called-for-each-instantiation");
		one(r.code, "pybind11::class_<n::T<int,n::S>,", not T, "registered-iff-no-binder");
		one(r.code, "pybind11::class_<n::T<bool,double>,", not T, "registered-iff-no-binder");
		one(r.code, "\t" + f + "<int,n::S,bool>(M(\"n\"), \"int\", \"n_S\", \"bool\");\n", b3 == '+', "template-binder-called-for-each-instantiation");
		one(r.code, "pybind11::class_<n::T3<int,n::S,bool>,", b3 != '+', "registered-iff-no-binder");
		// add-on binders: last in the registration of the class
		auto added = [&](string const &cls, string const &fn) {
			size_t b = r.code.find("pybind11::class_<" + cls + ","), e = b == string::npos ? b : r.code.find("\n\t}\n", b);
			if( e == string::npos ) return 0u;
			string body = r.code.substr(b, e - b);
			return count(body, "\n\t\t" + fn + "(cl);");
		};
		if( not S ) check(added("n::S", x) == (as == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
		if( not T ) {
			check(added("n::T<int,n::S>", y) == (at == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
			check(added("n::T<bool,double>", y) == (at == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
		}
		check(added("n::D", x) == (an == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
		check(count(r.code, "(cl);") == (unsigned)((not S and as == '+') + 2 * (not T and at == '+') + (an == '+')), "no-other-add-on-binder");
		one(r.code, "pybind11::class_<n::D, std::shared_ptr<n::D>, n::S>", true, "derived-class-keeps-its-base");
		one(r.code, "pybind11::class_<n::SS,", true, "other-classes-untouched");
		one(r.code, "def(\"f\", ", true, "users-still-bound");
		size_t first = r.code.find(S ? "\t" + f + "(M(\"n\"));\n" : "pybind11::class_<n::S,");
		check(first < r.code.find("pybind11::class_<n::D,"), "base-registered-first");
		observe(r.code);
	}
	else if( which == 3 ) { // custom binders of namespaces, includes
		string f = name("binder"), x = name("add-on"), inc = name("include", 1), pi = name("pybind11", 1);
		char b = line("binder_for_namespace n " + f), a = line("add_on_binder_for_namespace n  " + x), bk = line("binder_for_namespace n::k " + f, "#+");
		char in = line("include_for_namespace n <" + inc + ".hh>", "#+"), p = line("pybind11_include_file " + pi, "#+");
		std::vector<string> args = {"--bind", "", "--skip-line-number", "--max-file-size", sym_param("small", 0) ? "1" : "20480"};
		Result r = run("#pragma once\nnamespace n {\nvoid f1(int);\nvoid f2(int);\nnamespace k { void g1(int); }\nvoid f3(int);\nstruct S { S(); }; }\nvoid z(int);\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		b = val(b), a = val(a), bk = val(bk), in = val(in), p = val(p);
		bool B = b == '+', K = bk == '+';
		string call = "\n\t" + f + "(M(\"n\"));\n", add = "\n\t" + x + "(M(\"n\"));\n";
		bool same = f == x;
		unsigned nb = count(r.all, call), na = count(r.all, add);
		unsigned wb = B, wa = a == '+' and not B;
		if( same ) check(nb == (B or a == '+' ? 1u : 0u), "namespace-binder-called-once");
		else check(nb == wb and na == wa, "namespace-binder-called-once");
		one(r.all, "\n\t" + f + "(M(\"n::k\"));\n", K, "nested-namespace-binder-called-once");
		for( auto t : {"def(\"f1\", ", "def(\"f2\", ", "def(\"f3\", ", "pybind11::class_<n::S,"} ) one(r.all, t, not B, "members-of-the-namespace-iff-no-binder");
		one(r.all, "def(\"g1\", ", not K, "members-of-the-nested-namespace-iff-no-binder");
		one(r.all, "def(\"z\", ", true, "other-namespaces-untouched");
		if( a == '+' and not B and not same ) check(r.all.find(add) < r.all.find("def(\"f1\""), "add-on-binder-first");
		for( auto &file : r.files ) {
			bool in_n = has(file.second, "def(\"f") or has(file.second, "n::S") or has(file.second, "(M(\"n\"))");
			bool other = has(file.second, "def(\"g1\"") or has(file.second, "def(\"z\"") or has(file.second, "(M(\"n::k\"))"); // else: nothing in it
			if( in_n or other ) check(count(file.second, "#include <" + inc + ".hh>") == (in_n and in == '+' ? 1u : 0u), "namespace-include-iff-namespace");
			check(count(file.second, "#include <" + (p == '+' ? pi : string("pybind11/pybind11.h")) + ">\n") == 1, "pybind11-include-file");
		}
		check(count(r.code, "#include <" + (p == '+' ? pi : string("pybind11/pybind11.h")) + ">\n") == 1, "pybind11-include-file");
		observe(r.all);
	}
	else if( which == 5 ) { // directives for nested classes, custom overrides
		string f = "fb", x = "xb", t = "tr", u = "ut";
		char bi = line("binder n::S::I " + f, "#+"), ai = line("add_on_binder n::S::J " + x, "#+"), aj = line("add_on_binder n::J " + x, "#+"), tv = line("trampoline_member_function_binder n::V::v " + t), tk = line("trampoline_member_function_binder n::V::K::v " + u, "#+");
		unsigned c = pick("const", 2), p = choose("pure", 2);
		string cst = not sym and c ? " const" : "", pure = not sym and p ? " = 0" : "";
		Result r;
		string h = "#pragma once\nnamespace n {\nstruct S { S(); struct I { I(); int v; struct L { L(); }; }; struct J { J(); int w; }; };\nstruct J { J(); int u; };\nvoid f(S::I &, S::J *);\n"
			"struct V { V(); virtual ~V(); virtual int v(int a, bool b)" + cst + pure + "; virtual void w(); struct K { K(); virtual ~K(); virtual void v(); virtual void w(int); }; };\nstruct D : V { D(); };\nstruct U { U(); virtual ~U(); virtual void v(); };\n}\n";
		on_ast = [&](clang::ASTContext &ctx) {
			auto *m = llvm::dyn_cast_or_null<clang::CXXMethodDecl>(find(ctx.getTranslationUnitDecl(), "n::V::v"));
			if( !m ) { check(false, "no-declaration"); return; }
			set_attr(m, A_const, c);
			set_attr(m, A_pure, p);
			for( string q : {"n::V", "n::D"} ) set_attr(find(ctx.getTranslationUnitDecl(), q), A_abstract, p);
		};
		r = run(h, config, {"--bind", "n", "--single-file", "--skip-line-number"});
		check(r.rc == 0 and not r.thrown, "succeeds");
		bi = val(bi), ai = val(ai), aj = val(aj), tv = val(tv), tk = val(tk), c = (unsigned)sym_value(c), p = (unsigned)sym_value(p);
		one(r.code, "\t" + f + "(M(\"n\"));\n", bi == '+', "binder-called-instead");
		one(r.code, "pybind11::class_<n::S::I,", bi != '+', "registered-iff-no-binder");
		one(r.code, "cl.def_readwrite(\"v\"", bi != '+', "registered-iff-no-binder");
		one(r.code, "pybind11::class_<n::S::J,", true, "other-classes-untouched");
		one(r.code, "pybind11::class_<n::J,", true, "other-classes-untouched");
		one(r.code, "def(\"f\", ", true, "users-still-bound");
		auto body = [&](string const &start, string const &end) {
			size_t b = r.code.find(start), e = b == string::npos ? b : r.code.find(end, b);
			check(e != string::npos, "registered");
			return e == string::npos ? string() : r.code.substr(b, e - b);
		};
		check(count(body("pybind11::class_<n::S::J,", "\n\t\t}\n"), "\t" + x + "(cl);") == (ai == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
		check(count(body("pybind11::class_<n::J,", "\n\t}\n"), "\t" + x + "(cl);") == (aj == '+' ? 1u : 0u), "add-on-binder-called-once-for-its-class");
		check(count(r.code, "(cl);") == (unsigned)((ai == '+') + (aj == '+')), "no-other-add-on-binder");
		string sig = string("int v(int a0, bool a1) ") + (c ? "const " : "");
		for( string s : {"V", "D"} ) {
			string o = body("struct PyCallBack_n_" + s + " ", "\n};\n"), call = "return " + t + "<V,PyCallBack_n_" + s + ">(this, \"n::" + s + "\", \"v\", a0, a1);\n";
			check(has(o, sig + "override {"), "overridden");
			check(count(o, call) == (tv == '+' ? 1u : 0u), "custom-override-iff-requested");
			check(count(o, "pybind11::get_overload(static_cast<const n::" + s + " *>(this), \"v\")") == (tv == '+' ? 0u : 1u), "usual-override-iff-no-custom-one");
			check(count(o, "pybind11::get_overload(static_cast<const n::" + s + " *>(this), \"w\")") == 1, "other-methods-untouched");
			check(count(o, "(this, \"n::") == (tv == '+' ? 1u : 0u), "other-methods-untouched");
		}
		string k = body("struct PyCallBack_n_V_K ", "\n};\n");
		check(count(k, "return " + u + "<K,PyCallBack_n_V_K>(this, \"n::V::K\", \"v\");\n") == (tk == '+' ? 1u : 0u), "custom-override-iff-requested");
		check(count(k, "(this), \"v\")") == (tk == '+' ? 0u : 1u) and count(k, "(this), \"w\")") == 1, "usual-override-iff-no-custom-one");
		check(count(body("struct PyCallBack_n_U ", "\n};\n"), "(this), \"v\")") == 1, "other-classes-untouched");
		sym_reach(tv == '+' ? "applied" : "not-applied");
		observe(r.code);
	}
	else { // builtins
		char s = line("python_builtin n::S"), s2 = line("python_builtin n::S", "#-"), v = line("python_builtin std::vector"), c = line("python_builtin std::complex", "#-");
		bool stl = pick("stl", 2);
		std::vector<string> args = {"--bind", "n", "--single-file", "--skip-line-number"};
		if( stl ) args.push_back("--include-pybind11-stl");
		Result r = run("#pragma once\nnamespace std { template <class T> struct vector { vector() {} T t; }; template <class T> struct vectors { vectors() {} T t; }; template <class T> struct complex { complex() {} T re; }; template struct vector<int>; template struct vectors<int>; template struct complex<double>; }\n"
			"namespace n {\nstruct S { S(); };\nstruct SS { SS(); };\nvoid f(S const &, SS &);\nvoid g(std::vector<int> &);\nvoid h(std::vectors<int> *);\nvoid c(std::complex<double> &);\nstruct D : S { D(); };\nstruct V : std::vector<int> { V(); };\n}\n", config, args);
		check(r.rc == 0 and not r.thrown, "succeeds");
		s = val(s), s2 = val(s2), v = val(v), c = val(c);
		bool S = s == '+' and s2 != '-', V = v == '+' or (stl and v != '-'), C = c != '-';
		one(r.code, "pybind11::class_<n::S,", not S, "class-registered-iff-not-builtin");
		one(r.code, "pybind11::class_<std::vector<int>,", not V, "class-registered-iff-not-builtin");
		one(r.code, "pybind11::class_<std::complex<double>,", not C, "class-registered-iff-not-builtin");
		one(r.code, "pybind11::class_<std::vectors<int>,", true, "other-classes-untouched");
		one(r.code, "pybind11::class_<n::SS,", true, "other-classes-untouched");
		for( auto t : {"def(\"f\", ", "def(\"g\", ", "def(\"h\", ", "def(\"c\", "} ) one(r.code, t, true, "users-still-bound");
		one(r.code, "pybind11::class_<n::D, std::shared_ptr<n::D>, n::S>", true, "base-kept");
		one(r.code, "pybind11::class_<n::V, std::shared_ptr<n::V>" + string(not V or v == '+' ? ", std::vector<int>" : "") + ">", true, "base-iff-it-has-bindings");
		observe(r.code);
	}
}
