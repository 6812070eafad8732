// names of template instantiations in Python
#include "common.h"
#include <util.hpp>
#include <cstring>
using std::string;

extern "C" void harness_main()
{
	string s = sym_string("name", 0, sym_param("n", 5), "a1_<>,: *&");
	bool mark = sym_value(sym_u64("mark", 8, 0, 1));
	string r = binder::mangle_type_name(s, mark);
	// specification
	bool templ = false;
	string m;
	for( char c : s ) {
		if( c == '<' or c == '>' or c == ',' ) templ = true;
		if( c == ' ' or c == '<' or c == '>' or c == ',' or c == ':' ) {
			if( m.empty() or m.back() != '_' ) m += '_';
		}
		else m += c;
	}
	string w;
	if( templ and mark ) {
		for( char c : m ) {
			if( c == '*' ) w += "_star_";
			else if( c == '&' ) w += "_ref_";
			else w += c;
		}
		w += 't';
	}
	else w = m;
	check(r.size() == w.size() and memcmp(r.data(), w.data(), w.size()) == 0, "name");
	sym_reach(templ ? mark ? "marked" : "template" : "plain");
	observe(r);
}
