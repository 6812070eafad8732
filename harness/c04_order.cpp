// registration order: whatever derives from whatever, bases are registered once, and before the classes that name them
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
#include <algorithm>
using namespace e2e;
static const char *AS[] = {"public", "protected", "private"};
struct Edge { string holder; unsigned nth; string base; unsigned acc; unsigned instance; }; // holder: name of the class or of its template, instance: number of the instantiation
static std::vector<Edge> edges;
static string edge(string const &holder, unsigned nth, string const &base, string const &spelled = "")
{
	Edge e = {holder, nth, base, choose(("acc:" + holder + "#" + num(nth)).c_str(), 3), 0};
	edges.push_back(e);
	return string(sym_mode() ? "public" : AS[e.acc]) + " " + (spelled.size() ? spelled : base);
}
static clang::CXXRecordDecl *record(clang::ASTContext &c, string const &q, unsigned nth)
{
	// definition or nth instantiation with this name
	std::function<clang::CXXRecordDecl *(clang::DeclContext *)> go = [&](clang::DeclContext *dc) -> clang::CXXRecordDecl * {
		for( auto *d : dc->decls() ) {
			clang::CXXRecordDecl *r = nullptr;
			if( auto *t = llvm::dyn_cast<clang::ClassTemplateDecl>(d) ) {
				for( auto *s : t->specializations() ) {
					if( s->getQualifiedNameAsString() == q and nth-- == 0 ) return s;
					if( (r = go(s)) ) return r;
				}
				continue;
			}
			if( auto *x = llvm::dyn_cast<clang::CXXRecordDecl>(d) ) {
				if( x->isImplicit() ) continue;
				if( x->isThisDeclarationADefinition() and x->getQualifiedNameAsString() == q ) return x;
				if( (r = go(x)) ) return r;
			}
			else if( auto *x = llvm::dyn_cast<clang::NamespaceDecl>(d) )
				if( (r = go(x)) ) return r;
		}
		return nullptr;
	};
	return go(c.getTranslationUnitDecl());
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	string h;
	struct Cls { string name, holder; bool nested; unsigned instance = 0; };
	std::vector<Cls> classes;
	std::vector<string> args = {"--skip-line-number"};
	char sq = '#', sk = '#';
	string skipped, skipped2;
	if( which == 0 ) { // templates that derive from classes declared after them
		h = "#pragma once\nnamespace n {\nstruct X;\n";
		h += "template <class A, class B> struct T0 : " + edge("n::T0", 0, "n::T1<n::Q>", "A") + ", " + edge("n::T0", 1, "n::P", "B") + " {};\n";
		h += "template <class A> struct T1 : " + edge("n::T1", 0, "n::Q", "A") + " {};\n";
		h += "struct Q {};\nstruct P : " + edge("n::P", 0, "n::Q") + " {};\n";
		h += "struct X : " + edge("n::X", 0, "n::P") + " {};\ntemplate struct T0<T1<Q>, P>;\n}\n";
		classes = {{"n::T0<n::T1<n::Q>,n::P>", "n::T0", false}, {"n::T1<n::Q>", "n::T1", false}, {"n::Q", "n::Q", false}, {"n::P", "n::P", false}, {"n::X", "n::X", false}};
		sq = line("class n::Q", "#-");
		skipped = "n::Q";
		args.push_back("--single-file");
	}
	else if( which == 1 ) { // nested classes
		h = "#pragma once\nnamespace n {\n";
		h += "template <class A> struct T { struct I : " + edge("n::T<n::P>::I", 0, "n::P", "A") + " {}; struct J : " + edge("n::T<n::P>::J", 0, "n::T<n::P>::I", "I") + " {}; };\n";
		h += "struct B { struct K {}; };\nstruct P : " + edge("n::P", 0, "n::B::K", "B::K") + " {};\nstruct X : " + edge("n::X", 0, "n::T<n::P>::J", "T<P>::J") + " {};\n}\n";
		classes = {{"n::T<n::P>", "n::T", false}, {"n::T<n::P>::I", "n::T<n::P>::I", true}, {"n::T<n::P>::J", "n::T<n::P>::J", true}, {"n::B", "n::B", false}, {"n::B::K", "n::B::K", true}, {"n::P", "n::P", false}, {"n::X", "n::X", false}};
		sq = line("class n::B", "#-");
		skipped = "n::B";
		args.push_back("--single-file");
	}
	else if( which == 3 ) { // several instantiations of the same templates
		h = "#pragma once\nnamespace n { template <class A> struct D : " + edge("n::D", 0, "m::B<int>", "A") + " {}; }\nnamespace m { struct Q {};\ntemplate <class A> struct B : " + edge("m::B", 0, "m::Q") + " {}; }\n";
		unsigned o = pick("order", 4), bo = o & 1, dOrd = o >> 1; // order of the instantiations
		h += bo ? "inline int f() { m::B<double> b;\nm::B<int> i;\n" : "inline int f() { m::B<int> i;\nm::B<double> b;\n";
		h += dOrd ? "n::D<m::B<double>> x;\nn::D<m::B<int>> y;\nreturn 0; }\n" : "n::D<m::B<int>> y;\nn::D<m::B<double>> x;\nreturn 0; }\n";
		h += "namespace n { struct X : " + edge("n::X", 0, "m::B<double>") + " {}; }\n";
		for( auto &e : edges ) if( e.holder == "n::D" ) e.instance = dOrd;
		Edge d = edges[0].holder == "n::D" ? edges[0] : edges[1].holder == "n::D" ? edges[1] : edges[2], b = edges[0].holder == "m::B" ? edges[0] : edges[1].holder == "m::B" ? edges[1] : edges[2];
		d.base = "m::B<double>";
		d.instance = 1 - dOrd;
		b.instance = 1;
		edges.push_back(d);
		edges.push_back(b);
		classes = {{"n::D<m::B<int>>", "n::D", false, dOrd}, {"n::D<m::B<double>>", "n::D", false, 1 - dOrd}, {"m::B<int>", "m::B", false, bo}, {"m::B<double>", "m::B", false, 1 - bo}, {"n::X", "n::X", false, 0}, {"m::Q", "m::Q", false, 0}};
		sq = line("class m::B<double>", "#-");
		skipped = "m::B<double>";
		args.push_back("--single-file");
	}
	else if( which == 4 ) { // classes with several bases that are declared after them, and a nested base of another namespace
		h = "#pragma once\nnamespace k { struct O { struct I {}; }; }\nnamespace n {\n";
		h += "template <class A, class B> struct T : " + edge("n::T", 0, "n::L", "A") + ", " + edge("n::T", 1, "n::M", "B") + " {};\n";
		h += "template <class A> struct W { struct I : " + edge("n::W<n::L>::I", 0, "n::L", "A") + " {}; struct J : " + edge("n::W<n::L>::J", 0, "n::N", "A::R") + " {}; };\n";
		h += "struct N {};\nstruct M {};\nstruct L { typedef N R; };\nstruct Z : " + edge("n::Z", 0, "k::O::I") + " {};\ninline int f() { T<L, M> x; W<L>::I i; W<L>::J j; return 0; }\n}\n";
		classes = {{"n::T<n::L,n::M>", "n::T", false}, {"n::W<n::L>", "n::W", false}, {"n::W<n::L>::I", "n::W<n::L>::I", true}, {"n::W<n::L>::J", "n::W<n::L>::J", true}, {"n::N", "n::N", false}, {"n::M", "n::M", false}, {"n::L", "n::L", false}, {"n::Z", "n::Z", false}, {"k::O", "k::O", false}, {"k::O::I", "k::O::I", true}};
		sq = line("class n::M", "#-");
		skipped = "n::M";
		args.push_back("--single-file");
	}
	else { // several namespaces and files, classes that are only needed as bases
		h = "#pragma once\nnamespace m {\n template <class A> struct T : " + edge("m::T", 0, "k::C", "A") + " {}; }\nnamespace k { struct D {};\nstruct C : " + edge("k::C", 0, "k::D") + " {}; }\n";
		h += "namespace n { struct A : " + edge("n::A", 0, "m::T<k::C>") + " {};\nstruct B : " + edge("n::B", 0, "k::D") + ", " + edge("n::B", 1, "n::A") + " {}; }\n";
		classes = {{"m::T<k::C>", "m::T", false}, {"k::D", "k::D", false}, {"k::C", "k::C", false}, {"n::A", "n::A", false}, {"n::B", "n::B", false}};
		sq = line("class k::D", "#-");
		sk = line("namespace m", "#-");
		skipped = "k::D";
		skipped2 = "m::T<k::C>";
		args.push_back("--max-file-size");
		args.push_back("1");
	}
	// the order in which the calls of edge() above are evaluated is up to the compiler
	std::sort(edges.begin(), edges.end(), [](Edge const &a, Edge const &b) { return a.holder != b.holder ? a.holder < b.holder : a.instance != b.instance ? a.instance < b.instance : a.nth < b.nth; });
	args.push_back("--bind");
	args.push_back("n");
	on_ast = [&](clang::ASTContext &c) {
		for( auto &e : edges ) {
			auto *r = record(c, e.holder, e.instance);
			if( !r or r->getNumBases() <= e.nth ) { check(false, "no-declaration"); return; }
			set_attr(r->bases_begin() + e.nth, A_baseacc, e.acc);
		}
	};
	Result r = run(h, config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	sq = val(sq), sk = val(sk);
	for( auto &e : edges ) e.acc = (unsigned)sym_value(e.acc);
	// the code in the order in which it runs: files in the order of the calls in the root module
	string code;
	if( which == 2 ) {
		for( auto &l : lines_with(r.code, "(M);") ) {
			size_t b = l.find("bind_"), e = l.find("(M);");
			if( b == string::npos or b > e ) continue;
			string fn = l.substr(b, e - b);
			for( auto &f : r.files ) if( has(f.second, "void " + fn + "(") ) code += f.second;
		}
	}
	else code = r.code;
	std::map<string, size_t> at;
	for( auto &c : classes ) {
		string start = "pybind11::class_<" + c.name + ", std::shared_ptr<" + c.name + ">";
		check(count(code, start) <= 1, "registered-once");
		at[c.name] = code.find(start);
	}
	auto skip = [&](string const &n) { return (sq == '-' and (n == skipped or (n.size() > skipped.size() and n.compare(0, skipped.size() + 2, skipped + "::") == 0))) or (sk == '-' and n == skipped2); };
	// what must be registered
	std::set<string> want;
	std::function<void(string const &)> need = [&](string const &n) {
		if( skip(n) ) return;
		string outer = n;
		for( auto &c : classes ) if( c.nested and c.name == n ) outer = n.substr(0, n.rfind("::"));
		if( skip(outer) or not want.insert(outer).second ) return;
		for( auto &c : classes ) {
			bool inside = c.name == outer or (c.nested and c.name.substr(0, c.name.rfind("::")) == outer);
			if( not inside ) continue;
			want.insert(c.name);
			for( auto &e : edges ) if( e.holder == c.holder and e.instance == c.instance and e.acc == 0 ) need(e.base);
		}
	};
	for( auto &c : classes ) if( not c.nested and c.name.compare(0, 3, "n::") == 0 ) {
		// an instantiation is skipped with its arguments
		if( which == 0 and sq == '-' and has(c.name, "<") ) continue;
		if( which >= 3 and sq == '-' and has(c.name, skipped) ) continue;
		need(c.name);
	}
	for( auto &c : classes ) {
		bool w = want.count(c.name);
		if( which == 0 and sq == '-' and has(c.name, "n::Q>") ) w = false;
		check((at[c.name] != string::npos) == w, "registered-iff-requested-or-needed-as-base");
		if( at[c.name] == string::npos ) continue;
		string bases;
		for( auto &e : edges ) {
			if( e.holder != c.holder or e.instance != c.instance or e.acc != 0 or skip(e.base) ) continue;
			if( which == 0 and sq == '-' and has(e.base, "n::Q>") ) continue;
			bases += ", " + e.base;
			check(at[e.base] != string::npos and at[e.base] < at[c.name], "base-registered-before");
			sym_reach("base");
		}
		string start = "pybind11::class_<" + c.name + ", std::shared_ptr<" + c.name + ">" + bases + "> cl(";
		check(code.find(start) == at[c.name], "names-exactly-its-public-bases");
		if( bases.empty() ) sym_reach("no-base");
	}
	observe(code);
}
