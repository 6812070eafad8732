// Harness API.  In symbolic mode (bitcode run by symex) these are engine builtins; in native mode (replay) they are implemented by native_api.cpp,
// which reads concrete values from a candidate file.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
uint64_t sym_u64(const char *name, int width, uint64_t lo, uint64_t hi); // fresh symbolic integer in [lo,hi]
void sym_bytes(void *p, uint64_t n, const char *name);                   // make n bytes symbolic
void sym_alphabet(const void *p, uint64_t n, const char *chars);         // assume each byte is one of chars
void sym_assume(int c);
void sym_assert(int c, const char *id);
void sym_reach(const char *id);
uint64_t sym_value(uint64_t x); // case split: one path per feasible value
int sym_mode();                 // 1 symbolic, 0 native
void sym_log(const char *s);
void sym_observe(const void *p, uint64_t n);
void sym_end();
uint64_t sym_param(const char *name, uint64_t dflt); // bound given on the command line
const char *sym_scratch();                           // directory for files of this run

// virtual files (symbolic mode) / files below the scratch directory (native mode); paths are absolute
void vfs_put(const char *path, const char *data, uint64_t n);
int vfs_exists(const char *path);
const char *vfs_get(const char *path, uint64_t *n);
int vfs_writes(const char *path); // how often the file was opened for writing since vfs_reset_counters
void vfs_reset_counters();
void vfs_mkdir(const char *path);                   // a directory, with all that enclose it
void vfs_faults(int no_dirs, uint64_t size_limit); // creating directories fails (symbolic mode only); files can not grow beyond a size
void vfs_full(const char *path);                     // a file on a full device: it can be opened, but nothing can be written
uint64_t vfs_count();
const char *vfs_name(uint64_t i);
}

// symbolic choice, one path per value
inline unsigned pick(const char *name, unsigned n) { return (unsigned)sym_value(sym_u64(name, 8, 0, n - 1)); }
// symbolic choice without splitting
inline unsigned choose(const char *name, unsigned n) { return (unsigned)sym_u64(name, 8, 0, n - 1); }

// string of every length in [lo,hi] (split) and every content over the alphabet (symbolic)
inline std::string sym_string(const char *name, unsigned lo, unsigned hi, const char *alphabet)
{
	std::string nl = std::string(name) + ".len";
	unsigned n = (unsigned)sym_value(sym_u64(nl.c_str(), 8, lo, hi));
	std::string s(n, alphabet ? alphabet[0] : 'a');
	if( n ) {
		sym_bytes(&s[0], n, name);
		if( alphabet ) sym_alphabet(&s[0], n, alphabet);
	}
	return s;
}
inline void observe(std::string const &s) { sym_observe(s.data(), s.size()); sym_observe("\x1f", 1); }
inline void check(bool c, const char *id) { sym_assert(c ? 1 : 0, id); }
