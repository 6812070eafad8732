// config files whose directives are present or not symbolically
#pragma once
#include "common.h"
static std::string config;
static unsigned n_config_lines = 0;
// a directive line that is absent (a comment), + or -; returns the symbolic first character
static inline char line(std::string const &text, const char *kinds = "#+-")
{
	std::string s = "#";
	std::string id = "d" + num(n_config_lines++) + ":" + text.substr(0, text.find(' '));
	sym_bytes(&s[0], 1, id.c_str());
	sym_alphabet(&s[0], 1, kinds);
	config += s + text + "\n";
	return s[0];
}
static inline char val(char c) { return (char)sym_value((unsigned char)c); }
