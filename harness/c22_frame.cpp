// relational: options that only report and directives that name nothing leave the generated code as it is; the code without them comes from a native run of the same tree
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
#include <algorithm>
#include <config.hpp>
#include <cstring>
#include <llvm/Support/CommandLine.h>
using namespace e2e;
template <class C> static auto set_skip(C &c, bool v, int) -> decltype(c.skip_line_number = v, void()) { c.skip_line_number = v; }
template <class C> static void set_skip(C &, bool, long) { check(false, "no-declaration"); }

static void set_option(const char *name, bool v)
{
	for( auto &e : llvm::cl::getRegisteredOptions() )
		if( e.getKey() == name ) { static_cast<llvm::cl::opt<bool> *>(e.getValue())->setValue(v); return; }
	check(false, "no-declaration");
}
static string read_baseline()
{
	string r;
	FILE *f = fopen((string(sym_scratch()) + "/../baseline.txt").c_str(), "rb");
	if( !f ) return r;
	std::vector<char> buf(1 << 20);
	size_t n = fread(buf.data(), 1, buf.size(), f);
	fclose(f);
	r.assign(buf.data(), n);
	return r;
}
// code without comments, trace statements and blank lines; includes sorted and each once
static string strip(string const &t, unsigned &traces)
{
	string r;
	std::set<string> inc;
	size_t b = 0;
	while( b < t.size() ) {
		size_t e = t.find('\n', b);
		if( e == string::npos ) e = t.size();
		string l = t.substr(b, e - b);
		b = e + 1;
		bool str = false;
		for( size_t i = 0; i < l.size(); ++i ) {
			if( str and l[i] == '\\' ) ++i;
			else if( l[i] == '"' ) str = not str;
			else if( not str and l[i] == '/' and i + 1 < l.size() and l[i + 1] == '/' ) { l.resize(i); break; }
		}
		while( l.size() and (l.back() == ' ' or l.back() == '\t') ) l.pop_back();
		if( l.empty() ) continue;
		if( has(l, "std::cout") ) { ++traces; continue; }
		if( l.compare(0, 8, "#include") == 0 ) { if( l != "#include <iostream>" ) inc.insert(l); continue; }
		for( auto &i : inc ) r += i + '\n';
		inc.clear();
		r += l + '\n';
	}
	return r;
}
static const char *header = "#pragma once\n#include <o.hpp>\nnamespace std { template <class C> class basic_ostream { }; typedef basic_ostream<char> ostream; }\nnamespace n {\n"
	"/// about E\nenum class E { e0, e1 };\nstruct A { A(); A(A const &); int a; int am(int x); };\n/// about \"S\" // and more\nstruct S : A { S(); S(int a, A const &b, int c = 1); virtual ~S(); virtual void v(o::O *) const; virtual E w(int) = 0; static int st(); void m(int); void m(A const &, int = 0, int = 1); int d; A operator+(int) const; struct I { I(); void im(); }; enum F { f0 }; enum F2 { f2 }; };\n"
	"std::ostream &operator<<(std::ostream &, A const &);\ntemplate <class T> struct T1 { T1() {} T t; void tm(T) {} };\ntemplate struct T1<int>;\nvoid f(int a = 0);\nvoid g(T1<int> &, o::O const &, char const *s = \"//\");\nnamespace k { void f(A *); }\n}\n";

static const char *kinds[] = {"+namespace", "-namespace", "+class", "-class", "+enum", "-enum", "+function", "-function", "+field", "-field", "+python_builtin", "-python_builtin", "+buffer_protocol", "+smart_holder", "+include_for_class ", "+include_for_namespace ", "+binder ", "+add_on_binder ",
	"+binder_for_namespace ", "+add_on_binder_for_namespace ", "+trampoline_member_function_binder ", "-include"};
static const unsigned NK = sizeof(kinds) / sizeof(kinds[0]);

extern "C" void harness_main()
{
	bool sym = sym_mode(), baseline = sym_param("baseline", 0);
	unsigned which = sym_param("which", 0);
	headers = {{"o.hpp", "#pragma once\nnamespace o { struct O { O(); O(O const &); }; }\n", false}};
	std::vector<string> args = {"--bind", "n"};
	if( sym_param("single", 0) ) args.push_back("--single-file");
	bool ai = false, af = false, tr = false, vb = false, sl = false;
	string extra;
	if( not baseline and which == 0 ) {
		ai = sym_u64("annotate-includes", 8, 0, 1), af = sym_u64("annotate-functions", 8, 0, 1), tr = sym_u64("trace", 8, 0, 1), vb = sym_u64("v", 8, 0, 1), sl = sym_u64("skip-line-number", 8, 0, 1);
		if( not sym ) {
			if( ai ) args.push_back("--annotate-includes");
			if( af ) args.push_back("--annotate-functions");
			if( tr ) args.push_back("--trace");
			if( vb ) args.push_back("--v");
			if( sl ) args.push_back("--skip-line-number");
		}
		on_ast = [&](clang::ASTContext &) {
			set_option("annotate-includes", ai), set_option("annotate-functions", af), set_option("trace", tr), set_option("v", vb);
			set_skip(binder::Config::get(), sl, 0);
		};
	}
	if( which ) args.push_back("--skip-line-number");
	// entities that are skipped or not, and what the code for them starts and ends with
	struct E { const char *directive, *begin, *end; char c; };
	std::vector<E> es = {{"function n::f", "M(\"n\").def(\"f\"", "", 0}, {"function n::S::m(int)", "cl.def(\"m\", (void (n::S::*)(int))", "", 0}, {"function n::S::st", "cl.def_static(\"st\"", "", 0}, {"field n::A::a", "cl.def_readwrite(\"a\"", "", 0}, {"enum n::E", "pybind11::enum_<n::E>", ";", 0},
		{"enum n::S::F", "pybind11::enum_<n::S::F>", ";", 0}, {"function n::A::__str__", "cl.def(\"__str__\"", "", 0}, {"function n::S::v", "cl.def(\"v\"", "", 0}};
	if( not baseline and which == 2 )
		for( auto &e : es ) e.c = line(e.directive, "#-");
	if( not baseline and which == 1 ) {
		static const char *prefixes[] = {"n::", "n::S::", "", "o::"};
		string kind = kinds[pick("kind", NK)], prefix = prefixes[pick("prefix", 4)];
		string name = sym_string("name", 1, sym_param("len", 2), "nokASEITfgmdw1:");
		string whole = prefix + name;
		// names of entities
		static const char *names[] = {"n", "o", "n::k", "n::A", "n::S", "o::O", "n::T1", "n::E", "n::f", "n::g", "n::S::m", "n::S::d", "n::S::I", "n::S::F", "n::S::v", "n::S::w", "n::S::S", "n::A::A", "n::A::a", "o::O::O"};
		for( auto *x : names ) sym_assume(whole != x);
		sym_assume(whole != "n::k::f");
		// a namespace rule names everything in it, also with :: at its end
		sym_assume(whole != "n::" and whole != "o::" and whole != "n:" and whole != "o:" and whole != "n::k:" and whole != "n::k::");
		bool value = kind.back() == ' ';
		if( value ) kind.pop_back();
		config = kind + " " + whole + (value ? " x_y" : "") + "\n";
	}
	Result r = run(header, config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	ai = sym_value(ai), af = sym_value(af), tr = sym_value(tr), sl = sym_value(sl);
	unsigned traces = 0;
	string code = strip(r.all, traces) + "\n" + r.sources + "\n" + r.modules;
	if( not baseline ) {
		string base = read_baseline();
		check(base.size() > 1000, "baseline-available");
		if( which == 2 ) {
			for( auto &e : es ) {
				e.c = val(e.c);
				sym_reach(e.c == '-' ? "skipped" : "not-skipped");
			}
			string t, until;
			size_t b = 0;
			while( b < base.size() ) {
				size_t n = base.find('\n', b);
				if( n == string::npos ) n = base.size() - 1;
				string l = base.substr(b, n - b), s = l.substr(std::min(l.size(), l.find_first_not_of("\t ")));
				b = n + 1;
				bool drop = until.size();
				for( auto &e : es ) {
					if( e.c != '-' ) continue;
					if( s.compare(0, strlen(e.begin), e.begin) == 0 ) {
						drop = true;
						if( e.end[0] ) until = e.end;
					}
				}
				// the override of a virtual method
				if( es.back().c == '-' and has(l, " v(struct o::O * a0) const override {") ) drop = true, until = "}";
				if( drop and until.size() and (until == "}" ? s == "}" and l.find('}') == 1 : l.back() == until[0]) ) until.clear();
				if( not drop and s != ";" ) t += l + (b < base.size() or base.back() == '\n' ? "\n" : "");
			}
			base = t + base.substr(base.size() - 1);
			string c;
			for( b = 0; b < code.size(); ) {
				size_t n = code.find('\n', b);
				if( n == string::npos ) n = code.size() - 1;
				string l = code.substr(b, n + 1 - b);
				b = n + 1;
				if( l.size() < 2 or l[l.size() - 2] != ';' or l.find_first_not_of("\t ;\n") != string::npos ) c += l;
			}
			code = c;
		}
		// the observation is followed by a separator
		check(code + "\x1f" == base, "generated-code-unchanged");
		check(tr ? traces >= 6 : traces == 0, "traces-iff-requested");
		sym_reach(tr ? "traced" : "not-traced");
		if( which == 0 ) {
			check((af ? 1u : 0u) <= count(r.all, "// function-signature:") and (af or not has(r.all, "// function-signature:")), "annotated-iff-requested");
			check(has(r.all, "#include <o.hpp> // ") == ai, "includes-annotated-iff-requested");
		}
	}
	observe(code);
}
