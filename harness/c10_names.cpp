// spelling of types: exactly the whole-word rewrites, nothing else changes, and rewriting twice changes nothing more
#include "common.h"
using std::string;
namespace binder {
void fix_boolean_types(std::string &type);
std::string standard_name(std::string const &type);
std::string simplify_std_class_name(std::string const &type);
}
static bool idc(char c) { return (c >= 'a') & (c <= 'z') or (c >= 'A') & (c <= 'Z') or (c >= '0') & (c <= '9') or c == '_'; }
// reference: replace `from` where it stands as a whole word; `qualified`: a word after :: does not count
static string words(string const &s, string const &from, string const &to, bool qualified)
{
	string r;
	for( size_t i = 0; i < s.size(); ) {
		bool m = s.compare(i, from.size(), from) == 0;
		if( m and i and (idc(s[i - 1]) or (qualified and s[i - 1] == ':')) ) m = false;
		if( m and i + from.size() < s.size() and idc(s[i + from.size()]) ) m = false;
		if( m ) { r += to; i += from.size(); }
		else r.push_back(s[i++]);
	}
	return r;
}
// standard containers with and without default arguments
static void containers()
{
	static const char *ELEM[] = {"int", "n::A", "std::vector<int>", "std::pair<int, n::A>", "int *", "std::vector<int, n::Al>", "std::string"};
	string e = ELEM[pick("element", 7)], v = ELEM[pick("value", 7)];
	unsigned kind = pick("kind", 12), cmp = pick("compare", 4), al = pick("allocator", 3);
	if( kind < 4 ) sym_assume(cmp == 0); // no comparison
	string other = e == "int" ? "long" : "int";
	static const char *NAME[] = {"vector", "list", "deque", "forward_list", "set", "multiset", "map", "multimap", "unordered_map", "unordered_multimap", "unordered_set", "unordered_multiset"};
	string name = NAME[kind];
	bool has_cmp = kind >= 4, has_value = kind >= 6 and kind <= 9, hash = kind >= 8;
	string item = has_value ? "std::pair<const " + e + ", " + v + ">" : e;
	string full = name + "<" + e + (has_value ? "," + v : "");
	if( hash ) full += cmp == 0 ? ",std::hash<" + e + ">,std::equal_to<" + e + ">" : cmp == 1 ? ",n::Hash,std::equal_to<" + e + ">" : cmp == 2 ? ",std::hash<" + e + ">,std::equal_to<void>" : ",std::hash<" + other + ">,std::equal_to<" + e + ">";
	else if( has_cmp ) full += cmp == 0 ? ",std::less<" + e + ">" : cmp == 1 ? ",std::less<void>" : cmp == 2 ? ",std::greater<" + e + ">" : ",std::less<" + other + ">";
	full += al == 0 ? ",std::allocator<" + item + ">>" : al == 1 ? ",n::Al<" + item + ">>" : ",std::allocator<" + other + ">>";
	bool dflt = (cmp == 0 or not has_cmp) and al == 0;
	string simple = name + "<" + e + (has_value ? "," + v : "") + ">";
	string got = binder::simplify_std_class_name(full);
	if( dflt ) check(got == simple, "default-arguments-are-left-out");
	else check(got == full, "other-arguments-are-kept");
	check(binder::standard_name("std::" + full) == "std::" + got, "same-spelling-when-qualified");
	check(binder::simplify_std_class_name(got) == got, "idempotent");
	sym_reach(dflt ? "default" : "custom");
	observe(got);
}
// streams: either the full name or the typedef name of the same type
static void streams()
{
	static const char *NAME[] = {"iostream", "ostream", "istream", "stringstream", "istringstream", "ostringstream", "stringbuf", "filebuf", "ifstream", "ofstream", "fstream", "streambuf", "string", "ios"}, *CHAR[] = {"char", "wchar_t", "char16_t", "unsigned char"};
	unsigned k = pick("kind", 14), c = pick("char", 4), t = pick("traits", 3), al = pick("allocator", 3), n = pick("arguments", 3);
	bool allocator = (k >= 3 and k <= 6) or k == 12;
	string ch = CHAR[c], traits = t == 0 ? "std::char_traits<" + ch + ">" : t == 1 ? "n::Tr<" + ch + ">" : "std::char_traits<long>", a = al == 0 ? "std::allocator<" + ch + ">" : al == 1 ? "n::Al<" + ch + ">" : "std::allocator<long>";
	if( n < 1 ) sym_assume(t == 0);
	if( not allocator or n < 2 ) sym_assume(al == 0);
	if( not allocator ) sym_assume(n < 2);
	string full = string("basic_") + NAME[k] + "<" + ch + (n > 0 ? "," + traits : "") + (n > 1 ? "," + a : "") + ">", got = binder::simplify_std_class_name(full);
	bool dflt = t == 0 and al == 0 and c < 2; // missing arguments are the defaults
	check(got == full or (dflt and got == string(c ? "w" : "") + NAME[k]), "stream-names-are-typedefs-of-the-same-type");
	static const char *BEFORE[] = {"", "n::X<", "const class ", "int, "}, *AFTER[] = {"", " &", ", int> &", ">"};
	unsigned sp = pick("spaces", 2), b = pick("before", 4), f = pick("after", 4);
	if( b or f ) sym_assume(k == 1 or k == 2 or k == 3 or k == 12);
	string text = full;
	if( sp ) text = string("basic_") + NAME[k] + "<" + ch + (n > 0 ? ", " + traits : "") + (n > 1 ? ", " + a : "") + (n > 0 ? " >" : ">");
	string q = binder::standard_name(BEFORE[b] + ("std::" + text) + AFTER[f]);
	auto strip = [](string s) { if( s.compare(0, 12, "const class ") == 0 ) s.erase(6, 6); return s; }; // the elaboration may be left out
	check(strip(q) == strip(BEFORE[b] + ("std::" + text) + AFTER[f]) or (dflt and strip(q) == strip(BEFORE[b] + ("std::" + string(c ? "w" : "") + NAME[k]) + AFTER[f])), "stream-names-are-typedefs-of-the-same-type");
	check(binder::simplify_std_class_name(got) == got and binder::standard_name(q) == q, "idempotent");
	sym_reach(got == full ? "full" : "typedef");
	observe(got);
}
// implementation namespaces of the standard library
static void inline_namespaces()
{
	const char *A = "aZ0_ <,*";
	static const char *NS[] = {"std::__1::", "std::__cxx11::"};
	string p = sym_string("pre", 0, 2, A), q = sym_string("post", 1, 3, A);
	if( p.size() ) sym_assume(not idc(p[p.size() - 1]));
	unsigned k = pick("ns", 2), l = pick("ns2", 3);
	string s = p + NS[k] + q + (l < 2 ? " " + string(NS[l]) + "b" : ""), e = p + "std::" + q + (l < 2 ? " std::b" : "");
	string got = binder::standard_name(s);
	check(got == e, "implementation-namespace-removed-and-nothing-else");
	check(binder::standard_name(got) == got, "idempotent");
	observe(got);
	sym_reach("inline");
}
extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0), n = sym_param("n", 2);
	if( which == 2 ) return containers();
	if( which == 4 ) return streams();
	if( which == 3 ) return inline_namespaces();
	const char *A = "aZ0_ <>,:*&";
	string mid = which == 0 ? "_Bool" : "nullptr_t";
	string pre = sym_string("pre", 0, n, A), post = sym_string("post", 0, n, A);
	// every place the word can stand: alone, twice, inside another name
	unsigned twice = pick("twice", 2);
	string s = pre + mid + post + (twice ? mid : "");
	if( which == 1 )
		for( size_t i = 0; i + 5 <= s.size(); ++i ) sym_assume(s.compare(i, 5, "std::") != 0);
	string expect, got;
	if( which == 0 ) {
		expect = words(s, "_Bool", "bool", false);
		got = s;
		binder::fix_boolean_types(got);
		check(got == expect, "only-the-whole-word-is-replaced");
		string again = got;
		binder::fix_boolean_types(again);
		check(again == got, "idempotent");
	}
	else {
		expect = words(s, "nullptr_t", "std::nullptr_t", true);
		got = binder::standard_name(s);
		check(got == expect, "only-the-whole-word-is-replaced");
		check(binder::standard_name(got) == got, "idempotent");
	}
	sym_reach(expect == s ? "unchanged" : "changed");
	observe(got);
}
