// config files: every line has exactly the effect its directive stands for, and lines that are not directives are refused
#include "common.h"
#include <config.hpp>
#include <cstring>
#include <map>
#include <stdexcept>
using namespace binder;
using std::string;
using std::vector;

enum Kind { NAME, PAIR, VALUE };
struct Directive { const char *token; Kind kind; };
static const Directive ds[] = {{"namespace", NAME}, {"class", NAME}, {"enum", NAME}, {"function", NAME}, {"field", NAME}, {"python_builtin", NAME}, {"include", NAME}, {"buffer_protocol", NAME}, {"smart_holder", NAME}, {"module_local_namespace", NAME},
	{"include_for_class", PAIR}, {"include_for_namespace", PAIR}, {"binder", PAIR}, {"add_on_binder", PAIR}, {"binder_for_namespace", PAIR}, {"add_on_binder_for_namespace", PAIR}, {"trampoline_member_function_binder", PAIR},
	{"custom_shared", VALUE}, {"pybind11_include_file", VALUE}, {"default_static_pointer_return_value_policy", VALUE}, {"default_static_lvalue_reference_return_value_policy", VALUE},
	{"default_static_rvalue_reference_return_value_policy", VALUE}, {"default_member_pointer_return_value_policy", VALUE}, {"default_member_lvalue_reference_return_value_policy", VALUE},
	{"default_member_rvalue_reference_return_value_policy", VALUE}, {"default_call_guard", VALUE}, {"prefix_for_static_member_functions", VALUE}};
static const unsigned N = sizeof(ds) / sizeof(ds[0]);

static bool equal(string const &a, string const &b) { return a.size() == b.size() and memcmp(a.data(), b.data(), a.size()) == 0; }
static string map_value(std::map<string, string> const &m, string const &k)
{
	auto i = m.find(k);
	return i == m.end() ? "" : i->second;
}
static string map_value(std::map<string, vector<string>> const &m, string const &k)
{
	auto i = m.find(k);
	string r;
	if( i != m.end() ) for( auto &v : i->second ) r += v + "\n";
	return r;
}
// what the configuration says about a name, one answer per directive: absent, '+', '-' or a value
static vector<string> state(string const &q)
{
	Config &c = Config::get();
	vector<string> r;
	auto two = [&](bool plus, bool minus) {
		string s;
		if( plus ) s += '+';
		if( minus ) s += '-';
		r.push_back(s);
	};
	two(c.is_namespace_binding_requested(q), c.is_namespace_skipping_requested(q));
	two(c.is_class_binding_requested(q), c.is_class_skipping_requested(q));
	two(c.is_enum_binding_requested(q), c.is_enum_skipping_requested(q));
	two(c.is_function_binding_requested(q), c.is_function_skipping_requested(q));
	two(false, c.is_field_skipping_requested(q));
	two(c.python_builtins.count(q), c.not_python_builtins.count(q));
	string inc = c.includes_code(), want = "#include " + q + "\n";
	two(inc.size() == want.size() + 1 and memcmp(inc.data(), want.data(), want.size()) == 0, c.is_include_skipping_requested(q));
	two(c.is_buffer_protocol_requested(q), false);
	two(c.is_smart_holder_requested(q), false);
	two(c.is_module_local_requested(q), false);
	r.push_back(map_value(c.class_includes(), q));
	r.push_back(map_value(c.namespace_includes(), q));
	r.push_back(map_value(c.binders(), q));
	r.push_back(map_value(c.add_on_binders(), q));
	r.push_back(map_value(c.binder_for_namespaces(), q));
	r.push_back(map_value(c.add_on_binder_for_namespaces(), q));
	r.push_back(c.is_custom_trampoline_function_requested(q));
	r.push_back(c.holder_type());
	r.push_back(c.pybind11_include_file());
	r.push_back(c.default_static_pointer_return_value_policy());
	r.push_back(c.default_static_lvalue_reference_return_value_policy());
	r.push_back(c.default_static_rvalue_reference_return_value_policy());
	r.push_back(c.default_member_pointer_return_value_policy());
	r.push_back(c.default_member_lvalue_reference_return_value_policy());
	r.push_back(c.default_member_rvalue_reference_return_value_policy());
	r.push_back(c.default_call_guard());
	r.push_back(c.prefix_for_static_member_functions());
	return r;
}
static vector<string> initial()
{
	vector<string> r(N);
	r[17] = "std::shared_ptr";
	r[18] = "pybind11/pybind11.h";
	for( unsigned i = 19; i < 25; ++i ) r[i] = "pybind11::return_value_policy::automatic";
	return r;
}
// effect of one valid directive line on the answers for q
static void apply(vector<string> &s, unsigned d, bool plus, string const &name, string const &value, string const &q)
{
	bool same = equal(name, q);
	if( ds[d].kind == VALUE ) s[d] = name;
	else if( ds[d].kind == PAIR ) {
		if( same and plus ) s[d] = d < 12 ? s[d] + value + "\n" : value;
	}
	else if( same ) {
		bool both = d == 0 or d == 1 or d == 2 or d == 3 or d == 5 or d == 6;
		if( (both) or (d == 4 and not plus) or (d >= 7 and plus) ) s[d] = plus ? "+" : "-";
	}
}
static bool read(string const &text)
{
	string path = string(sym_scratch()) + "/config";
	vfs_put(path.c_str(), text.data(), text.size());
	try { Config::get().read(path); } catch( std::runtime_error const & ) { return false; }
	return true;
}
static void compare(string const &q, vector<string> const &want)
{
	vector<string> got = state(q);
	for( unsigned i = 0; i < N; ++i ) check(equal(got[i], want[i]), "effect"), observe(got[i]);
}
static const char *Q = "cd"; // the name in question
static string without(string const &s, char x)
{
	string r;
	for( char c : s )
		if( c != x ) r += c;
	return r;
}

// every directive with a sign, a separator, a name (spaces in it) and an end of line, all symbolic
static void lines()
{
	unsigned d = pick("directive", N);
	string sign = sym_string("sign", 1, 1, "+-#x ");
	string sep = sym_string("separator", 0, 1, " \tx");
	string name = sym_string("name", 0, sym_param("len", 3), "c d");
	string end;
	unsigned e = pick("end", 3);
	end = e == 0 ? "\n" : e == 1 ? "\r\n" : "";
	// one character more or less on the directive itself
	string token = ds[d].token, tail = ds[d].kind == PAIR ? " v" : "";
	if( e == 0 ) { unsigned t = pick("token", 3); if( t == 1 ) token.pop_back(); if( t == 2 ) token += "s"; }
	bool ok = read(sign + token + sep + name + tail + end);
	char c = (char)sym_value((unsigned char)sign[0]);
	char b = sep.size() ? (char)sym_value((unsigned char)sep[0]) : 0;
	for( auto &x : name ) x = (char)sym_value((unsigned char)x);
	vector<string> want = initial();
	if( c == '#' ) { check(ok, "comment-accepted"); sym_reach("comment"); compare(Q, want); return; }
	if( c != '+' and c != '-' ) { check(not ok, "other-line-refused"); sym_reach("refused"); return; }
	// the directive ends at the first blank
	string rest = token + (b ? string(1, b) : "") + name + tail;
	size_t p = rest.find(' ');
	if( p == string::npos ) { check(not ok, "directive-without-name-refused"); sym_reach("refused"); return; }
	string word = rest.substr(0, p), arg = rest.substr(p + 1);
	unsigned k = 0;
	while( k < N and word != ds[k].token ) ++k;
	if( k == N ) { check(not ok, "unknown-directive-refused"); sym_reach("refused"); return; }
	if( (k == 10 or k == 11) and c == '-' ) { check(not ok, "include-of-class-can-not-be-removed"); sym_reach("refused"); return; }
	if( ds[k].kind == VALUE and c == '-' ) return; // what this means is not documented
	string first, second;
	if( ds[k].kind == PAIR ) {
		size_t m = arg.find(' ');
		if( m == string::npos ) { check(c == '-' or not ok, "directive-without-value-refused"); sym_reach("refused"); return; }
		first = arg.substr(0, m), second = without(arg.substr(m + 1), ' ');
		if( arg.find(' ', m + 1) != string::npos ) return; // names with spaces in them can not be told from the value
	}
	else first = without(arg, ' ');
	check(ok, "directive-accepted");
	if( first.empty() ) return;
	sym_reach("accepted");
	if( k == 6 and c == '-' and first == "c" ) return; // an include is skipped by its beginning, too
	apply(want, k, c == '+', first, second, Q);
	compare(Q, want);
}

// a symbolic character anywhere in a directive
static void tokens()
{
	unsigned d = pick("directive", N);
	string token = ds[d].token;
	unsigned i = pick("position", 64);
	sym_assume(i < token.size());
	sym_bytes(&token[i], 1, "character");
	sym_alphabet(&token[i], 1, "abcdefghijklmnopqrstuvwxyz_1:=\t");
	string tail = ds[d].kind == PAIR ? " v" : "";
	bool ok = read("+" + token + " cd" + tail + "\n");
	// with another character in its place it may be another directive
	bool same = false;
	unsigned k = 0;
	for( ; k < N and not same; ++k )
		if( ds[k].kind == ds[d].kind and equal(token, ds[k].token) ) { same = true; break; }
	check(ok == same, "only-directives-accepted");
	sym_reach(ok ? "accepted" : "refused");
	vector<string> want = initial();
	if( same ) apply(want, k, true, "cd", "v", Q);
	compare(Q, want);
}

// several lines, each a comment, blank or not, with either kind of line end; the last one may have none
static void files()
{
	static const char *NAMES[] = {"cd", "c d", "ce"};
	unsigned d[3] = {pick("group", sym_param("groups", 4)), 0, 0};
	static const unsigned SET[4][3] = {{1, 3, 1}, {2, 7, 19}, {12, 13, 12}, {10, 10, 0}};
	string text, first;
	unsigned ends = pick("ends", 8);
	if( not sym_param("all", 0) ) sym_assume(ends == 0 or ends == 3 or ends == 4 or ends == 7);
	for( unsigned i = 0; i < 3; ++i ) {
		unsigned k = SET[d[0]][i];
		unsigned form = pick(("form" + num(i)).c_str(), 3); // directive or comment; blank line before; comment before
		string s = sym_string(("sign" + num(i)).c_str(), 1, 1, k == 10 ? "+#" : "+-#");
		if( form == 1 ) text += ends & 1 ? "\r\n" : "\n";
		if( form == 2 ) text += ends & 1 ? "# text\r\n" : "#\n";
		text += s + ds[k].token + " " + (ds[k].kind == NAME ? NAMES[i] : NAMES[0]) + (ds[k].kind == PAIR ? " v" + num(i) : "");
		first += s;
		if( i < 2 or ends & 2 ) text += ends & 4 ? "\r\n" : "\n";
	}
	bool ok = read(text);
	check(ok, "file-accepted");
	for( auto &x : first ) x = (char)sym_value((unsigned char)x);
	// + and - for the same name: the answer is not the business of reading
	vector<string> want = initial();
	for( unsigned i = 0; i < 3; ++i ) {
		unsigned k = SET[d[0]][i];
		if( first[i] == '#' ) { sym_reach("comment"); continue; }
		if( ds[k].kind == VALUE and first[i] == '-' ) return;
		apply(want, k, first[i] == '+', ds[k].kind == NAME ? without(NAMES[i], ' ') : "cd", "v" + num(i), Q);
		sym_reach("directive");
	}
	compare(Q, want);
}

// names and values with any printable character inside
static void characters()
{
	unsigned d = pick("directive", N);
	string sign = sym_string("sign", 1, 1, "+-"), x = sym_string("character", 1, 1, " #;!?/\\\"'=+-*&<>,.(){}[]~|^%$@`_0Az");
	if( d == 10 or d == 11 or ds[d].kind == VALUE ) sym_assume(sign[0] == '+');
	if( ds[d].kind == PAIR ) sym_assume(x[0] != ' ');
	bool space = sym_value(x[0] == ' ');
	string name = "c" + x + "d", value = "v" + x;
	bool ok = read(sign + ds[d].token + " " + name + (ds[d].kind == PAIR ? " " + value : "") + "\n");
	check(ok, "directive-accepted");
	bool plus = sym_value((unsigned char)sign[0]) == '+';
	sym_reach(plus ? "plus" : "minus");
	if( space ) name = "cd";
	vector<string> want = initial(), other = initial();
	apply(want, d, plus, name, value, name);
	apply(other, d, plus, name, value, "c");
	compare(name, want);
	if( d != 6 ) compare("c", other);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 0 ) lines();
	else if( which == 1 ) tokens();
	else if( which == 2 ) files();
	else characters();
}
