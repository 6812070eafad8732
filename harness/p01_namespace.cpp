// C01: the most specific namespace rule decides
#include "common.h"
#include <config.hpp>
#include <stdexcept>
using namespace binder;
using std::string;
using std::vector;

static int covers(string const &rule, string const &ns) // branch-free on the characters
{
	if( rule.empty() ) return 1;
	if( ns.size() < rule.size() ) return 0;
	int same = 1;
	for( size_t i = 0; i < rule.size(); ++i ) same &= rule[i] == ns[i];
	if( ns.size() > rule.size() ) same &= ns[rule.size()] == ':';
	return same;
}

extern "C" void harness_main()
{
	Config &c = Config::get();
	string ns = sym_qname("ns", 0, sym_param("segs", 2), "ab_");
	unsigned max = sym_param("maxrules", 3);
	unsigned nr = (unsigned)sym_value(sym_u64("rules", 8, 1, max));
	vector<string> plus, minus;
	unsigned kinds = (unsigned)sym_value(sym_u64("kinds", 8, 0, (1u << nr) - 1));
	for( unsigned i = 0; i < nr; ++i ) {
		bool p = kinds >> i & 1;
		string r = sym_qname("r" + num(i), p ? 0 : 1, sym_param("rsegs", 2), "ab_");
		(p ? plus : minus).push_back(r);
	}
	c.namespaces_to_bind = plus;
	c.namespaces_to_skip = minus;

	bool thrown = false, bind = false, skip = false, thrown2 = false;
	try { bind = c.is_namespace_binding_requested(ns); } catch( std::runtime_error const & ) { thrown = true; }
	try { skip = c.is_namespace_skipping_requested(ns); } catch( std::runtime_error const & ) { thrown2 = true; }

	// specification: length+1 of the longest covering rule of each kind, 0 when there is none
	unsigned bp = 0, bm = 0;
	for( auto &r : plus ) { unsigned v = covers(r, ns) ? (unsigned)r.size() + 1 : 0; bp = v > bp ? v : bp; }
	for( auto &r : minus ) { unsigned v = covers(r, ns) ? (unsigned)r.size() + 1 : 0; bm = v > bm ? v : bm; }

	sym_reach(thrown ? "conflict" : bind ? "bind" : "nobind");
	if( not thrown2 ) sym_reach(skip ? "skip" : "noskip");
	if( thrown ) check((bp != 0) & (bp == bm), "error-only-for-contradicting-rules");
	else if( bind ) check(bp > bm, "bound-only-when-most-specific-rule-binds");
	else check((bp < bm) | (bp == 0), "not-bound-only-when-most-specific-rule-does-not-bind");
	if( thrown2 ) check((bm != 0) & (bp == bm), "error-only-for-contradicting-rules-2");
	else if( skip ) check(bm > bp, "skipped-only-when-most-specific-rule-skips");
	else check((bm < bp) | (bm == 0), "not-skipped-only-when-most-specific-rule-does-not-skip");
	char o[2] = {(char)('0' + bind + 2 * thrown), (char)('0' + skip + 2 * thrown2)};
	sym_observe(o, 2);
}
