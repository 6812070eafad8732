#pragma once
#include "symapi.h"
// qualified name "s0::s1::..": every number of segments in [lo,hi], every segment length 1..2, every content over the alphabet
inline std::string sym_qname(std::string const &name, unsigned lo, unsigned hi, const char *alphabet, unsigned maxseg = 2)
{
	unsigned n = (unsigned)sym_value(sym_u64((name + ".n").c_str(), 8, lo, hi));
	std::string r;
	for( unsigned i = 0; i < n; ++i ) {
		if( i ) r += "::";
		r += sym_string((name + ".s" + std::to_string(i)).c_str(), 1, maxseg, alphabet);
	}
	return r;
}
inline std::string num(unsigned i) { return std::to_string(i); }
