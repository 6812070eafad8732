// Whole-program harness: runs binder's own main() on a generated header, with AST attributes made symbolic after parsing.
#pragma once
#include "common.h"
#include <clang/AST/ASTContext.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

int binder_main(int argc, const char **argv);

namespace e2e {
typedef std::string string;

struct Result {
	int rc = -1;
	bool thrown = false;
	string code;    // <root>.cpp
	string sources; // <root>.sources
	string modules; // <root>.modules
	string all;     // every .cpp file written, root last
	std::vector<std::pair<string, string>> files; // the .cpp files other than the root file, in name order
};

// called once with the parsed translation unit, symbolic mode only
extern std::function<void(clang::ASTContext &)> on_ast;

// called just before binder's main(), in both modes
extern std::function<void()> before_main;

// attributes of declarations, symbolic mode only: the accessor named here answers v for d
enum Attr { A_static, A_virtual, A_const, A_pure, A_deleted, A_defarg, A_origtype, A_rettype, A_variadic, A_scoped, A_classtag, A_final, A_abstract, A_baseacc, A_type, A_constq, A_exspec, A_bitfield, A_refqual, A_volatile };
void set_attr(const void *d, Attr a, uint64_t v);
// names of declarations, symbolic mode only: unqualified name, and qualified name (empty: derived from the real one)
void set_name(const clang::NamedDecl *d, string const &name, string const &qname);
// further headers, written next to the main one; those whose flag is set are included by the input file, after the main header
struct Header { string name, text; bool included; };
extern std::vector<Header> headers;
void write_real_file(string const &path, string const &text);
string out_dir();
string read_out(string const &name);
Result run(string const &header, string const &config, std::vector<string> const &args, string const &header_name = "h.hpp");

// declarations by qualified name (class members included); nullptr when absent
clang::NamedDecl *find(clang::DeclContext *dc, string const &qname, unsigned nth = 0);

// text helpers
inline unsigned count(string const &s, string const &what)
{
	unsigned n = 0;
	for( size_t i = s.find(what); i != string::npos; i = s.find(what, i + what.size()) ) ++n;
	return n;
}
inline bool has(string const &s, string const &what) { return s.find(what) != string::npos; }
// number of lines that contain all of a, b
unsigned count_lines(string const &s, string const &a, string const &b = "", string const &c = "");
// lines that contain `what`
std::vector<string> lines_with(string const &s, string const &what);
} // namespace e2e
