// documentation: comments arrive unchanged in the documentation strings of what they document, and every string literal of the generated code is well formed
#include "e2e.h"
#include "e2e_main.inc"
#include <clang/AST/Comment.h>
using namespace e2e;

static std::vector<string> texts; // symbolic text of each comment line; the neutral header has Q0Q, Q1Q, .. instead
#ifdef SYMBOLIC_BUILD
extern "C" {
llvm::StringRef r_text(const clang::comments::TextComment *) __asm__("__real___ZNK5clang8comments11TextComment7getTextEv");
llvm::StringRef ov_text(const clang::comments::TextComment *) __asm__("__ovr___ZNK5clang8comments11TextComment7getTextEv");
llvm::StringRef ov_text(const clang::comments::TextComment *c)
{
	static std::map<const void *, string *> made;
	llvm::StringRef t = r_text(c);
	size_t b = t.find('Q'), e = t.rfind('Q');
	if( b == llvm::StringRef::npos or e <= b ) return t;
	string *&s = made[c];
	if( not s ) s = new string(t.substr(0, b).str() + texts[std::stoi(t.substr(b + 1, e - b - 1).str())] + t.substr(e + 1).str());
	return *s;
}
}
#endif

// a comment line; one of them, symbolically chosen, has a symbolic text
static unsigned chosen = 0;
static string doc(unsigned i)
{
	string middle = i == chosen ? sym_string("text", 0, sym_param("len", 3), "\\\"{}%a n@-*<#&$.!:;,'\t~(") : "y";
	texts.push_back((i == chosen ? "" : "x") + middle + "x");
	if( sym_mode() ) return "Q" + num(i) + "Q";
	string r;
	for( char c : texts.back() ) {
		if( string("\\\"@&$#<%").find(c) != string::npos ) r += '\\'; // the way to write it in a documentation comment
		r += c;
	}
	return r;
}
// text at the beginning of a documentation comment: blanks before it do not count
static string first(string const &s)
{
	size_t i = 0;
	while( i < s.size() and s[i] == ' ' ) ++i;
	return s.substr(i);
}
// value of the string literal at p, "?" when it is not well formed
static string literal(string const &s, size_t &p)
{
	string r;
	if( p >= s.size() or s[p] != '"' ) return "?";
	for( ++p; p < s.size(); ++p ) {
		if( s[p] == '"' ) { ++p; return r; }
		if( s[p] == '\n' ) return "?";
		if( s[p] != '\\' ) { r += s[p]; continue; }
		++p;
		if( p < s.size() and s[p] == 'n' ) r += '\n';
		else if( p < s.size() and (s[p] == '\\' or s[p] == '"') ) r += s[p];
		else return "?";
	}
	return "?";
}
// the literal that follows the given text
static string literal_after(string const &s, string const &what)
{
	size_t p = s.find(what);
	if( p == string::npos or count(s, what) != 1 ) return "?";
	p += what.size();
	return literal(s, p);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	string h = "#pragma once\nnamespace n {\n";
	chosen = pick("line", 3);
	string d0 = doc(0), d1 = doc(1), d2 = doc(2);
	if( which == 0 ) {
		h += "/// " + d0 + "\n/// " + d1 + "\nvoid f(int a, int b = 1);\n";
		h += "/** " + d2 + " */\nstruct A {\n\tvoid undocumented();\n};\n";
		h += "void u(int);\nstruct B {};\nenum G { g0 };\n";
	}
	else if( which == 1 ) {
		h += "struct A {\n\t/// " + d0 + "\n\tvoid m(int) const;\n\t/// " + d1 + "\n\tstatic void s();\n\t/// " + d2 + "\n\tstruct N {};\n};\n";
	}
	else {
		h += "/// " + d0 + "\nenum E { e0 };\nstruct A {\n\t/// " + d1 + "\n\tenum M { m0 };\n};\n";
		h += "template <char c> struct S { void g(S); };\ntemplate struct S<'\"'>;\ntemplate struct S<'\\\\'>;\n/// " + d2 + "\nS<'\"'> & t(S<'\\\\'>);\n";
	}
	h += "}\n";
	std::vector<string> args = {"--bind", "n", "--single-file", "--skip-line-number"};
	if( which == 2 ) args.push_back("--trace");
	Result r = run(h, "", args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	string const &c = r.code;
	auto same = [](string const &a, string const &b, const char *id) { check(a == b, id); sym_reach(id); };
	if( which == 0 ) {
		same(literal_after(c, "&n::f, "), first(texts[0]) + "\n " + texts[1] + "\n\nC++: n::f(int, int) --> void", "function");
		same(literal_after(c, "return n::f(a0); }, "), "", "shorter-form");
		same(literal_after(c, "cl(M(\"n\"), \"A\", "), first(texts[2]) + " ", "class");
		same(literal_after(c, "&n::A::undocumented, "), "C++: n::A::undocumented() --> void", "undocumented");
		same(literal_after(c, "&n::u, "), "C++: n::u(int) --> void", "undocumented");
		same(literal_after(c, "cl(M(\"n\"), \"B\", "), "", "undocumented");
		same(literal_after(c, "pybind11::enum_<n::G>(M(\"n\"), \"G\", pybind11::arithmetic(), "), "", "undocumented");
	}
	else if( which == 1 ) {
		same(literal_after(c, "&n::A::m, "), first(texts[0]) + "\n\nC++: n::A::m(int) const --> void", "method");
		same(literal_after(c, "&n::A::s, "), first(texts[1]) + "\n\nC++: n::A::s() --> void", "static");
		same(literal_after(c, "cl(enclosing_class, \"N\", "), first(texts[2]), "nested-class");
		same(literal_after(c, "cl(M(\"n\"), \"A\", "), "", "undocumented");
	}
	else {
		same(literal_after(c, "pybind11::enum_<n::E>(M(\"n\"), \"E\", pybind11::arithmetic(), "), first(texts[0]), "enumeration");
		same(literal_after(c, "pybind11::enum_<n::A::M>(cl, \"M\", pybind11::arithmetic(), "), first(texts[1]), "nested-enumeration");
		same(literal_after(c, "&n::t, "), first(texts[2]) + "\n\nC++: n::t(struct n::S<'\\\\'>) --> struct n::S<'\"'> &", "signature");
		same(literal_after(c, "&n::S<'\"'>::g, "), "C++: n::S<'\"'>::g(struct n::S<'\"'>) --> void", "signature");
		unsigned traces = 0, quoted = 0;
		for( auto &l : lines_with(c, "std::cout << ") ) {
			size_t p = l.find("std::cout << ") + 13;
			string t = literal(l, p);
			check(t != "?" and l.substr(p) == " << std::endl;", "trace-well-formed");
			++traces, quoted += has(t, "S<'\"'>");
		}
		check(traces >= 4 and quoted >= 1, "traces");
		check(has(literal_after(c, "std::shared_ptr<n::S<'\"'>>> cl(M(\"n\"), "), "'\"'"), "class-name");
	}
	observe(c);
}
