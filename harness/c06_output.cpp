// output structure: every registration is in exactly one function, every function in one file, every file listed, every function called once; namespaces become submodules
#include "e2e.h"
#include "e2e_main.inc"
#include "config_lines.h"
#include <algorithm>
#include <config.hpp>
using namespace e2e;
template <class C> static auto set_max(C &c, uint64_t v, int) -> decltype(c.maximum_file_length = v, void()) { c.maximum_file_length = v; }
template <class C> static void set_max(C &, uint64_t, long) { check(false, "no-declaration"); }

// body of the generated function in a file
static string body(string const &t, string const &fn)
{
	size_t b = t.find("void " + fn + "("), e = t.rfind("}\n");
	if( b == string::npos ) return "";
	b = t.find("\n{\n", b);
	return b == string::npos or e == string::npos or e < b + 3 ? "" : t.substr(b + 3, e - b - 3);
}
static std::vector<string> split_lines(string const &s)
{
	std::vector<string> r;
	size_t b = 0;
	while( b < s.size() ) {
		size_t e = s.find('\n', b);
		if( e == string::npos ) e = s.size();
		r.push_back(s.substr(b, e - b));
		b = e + 1;
	}
	return r;
}

static void files(unsigned which)
{
	bool sym = sym_mode(), flat = which == 1, single = which == 2;
	struct F { string header, ns, name; };
	std::vector<F> fs = {{"h.hpp", "n", "f0"}, {"h.hpp", "n", "f1"}, {"h.hpp", "n::k", "f2"}, {"h.hpp", "n", "f3"}, {"h_1.hpp", "n", "g0"}, {"h_1.hpp", "n", "g1"}, {"a/x.hpp", "n", "x0"}, {"a_x.hpp", "k", "x1"}, {"a_x.hpp", "k", "x2"}, {"root.hpp", "n", "z0"}, {"root.hpp", "", "z1"}};
	std::map<string, string> text;
	std::vector<string> order;
	for( auto &f : fs ) {
		if( not text.count(f.header) ) order.push_back(f.header), text[f.header] = "#pragma once\n";
		string t = "void " + f.name + "(int);";
		if( f.ns == "n::k" ) t = "namespace n { namespace k { " + t + " } }";
		else if( f.ns.size() ) t = "namespace " + f.ns + " { " + t + " }";
		text[f.header] += t + "\n";
	}
	for( auto &h : order ) headers.push_back({h, text[h], true});
	uint64_t max = sym_u64("max", 32, 0, sym_param("maxmax", 2000));
	std::vector<string> args = {"--bind", "", "--skip-line-number"};
	args.push_back("--max-file-size");
	args.push_back(sym ? "20480" : std::to_string(max));
	if( flat ) args.push_back("--flat");
	if( single ) args.push_back("--single-file");
	char ds = line("function n::f1", "#-"), dk = line("namespace k", "#-");
	on_ast = [&](clang::ASTContext &) { set_max(binder::Config::get(), max, 0); };
	Result r = run("", config, args);
	check(r.rc == 0 and not r.thrown, "succeeds");
	ds = val(ds), dk = val(dk);
	auto wanted = [&](F const &f) { return not(ds == '-' and f.name == "f1") and not(dk == '-' and f.ns == "k"); };
	// functions declared and called by the root module, in order
	std::vector<string> declared, called;
	std::vector<string> lines = split_lines(r.code);
	bool in_module = false;
	for( auto &l : lines ) {
		if( has(l, "PYBIND11_MODULE(root, root_module)") ) in_module = true;
		size_t p = l.find("(std::function< pybind11::module &(std::string const &namespace_) > &M);");
		if( l.compare(0, 10, "void bind_") == 0 and p != string::npos ) declared.push_back(l.substr(5, p - 5));
		p = l.find("(M);");
		if( in_module and l.compare(0, 6, "\tbind_") == 0 and p != string::npos ) called.push_back(l.substr(1, p - 1));
	}
	check(declared == called, "functions-declared-and-called-in-the-same-order");
	std::set<string> unique(called.begin(), called.end());
	check(unique.size() == called.size(), "functions-called-once");
	std::vector<string> sources;
	if( single ) {
		bool on = false;
		for( auto &l : lines ) {
			if( has(l, "// Source list file: ") ) { on = true; continue; }
			if( l.empty() ) on = false;
			if( on ) sources.push_back(l.substr(3));
		}
	}
	else sources = split_lines(r.sources);
	check(sources.size() == called.size() + 1 and sources.size() and sources[0] == "root.cpp", "root-first-and-one-source-per-function");
	std::set<string> usources(sources.begin(), sources.end());
	if( not single ) check(usources.size() == sources.size(), "sources-listed-once");
	if( not single ) {
		check(r.files.size() == called.size(), "one-file-per-function");
		for( auto &f : r.files ) check(usources.count(f.first), "file-listed");
	}
	else check(r.files.empty(), "single-file-writes-one-file");
	// registrations in the order in which they run
	std::vector<string> bodies;
	string all;
	for( unsigned i = 0; i < called.size(); ++i ) {
		string const &fn = called[i], b1 = "void " + fn + "(std::function< pybind11::module &(std::string const &namespace_) > &M)\n{\n";
		check(count(r.all, b1) == 1, "function-defined-once");
		string where;
		if( single ) {
			size_t b = r.code.find("// File: " + (i + 1 < sources.size() ? sources[i + 1] : string("?")) + "\n"), e = r.code.find("// File: ", b == string::npos ? 0 : b + 1);
			if( e == string::npos ) e = r.code.find("#include <map>\n#include <algorithm>");
			check(b != string::npos, "file-listed");
			if( b != string::npos ) where = r.code.substr(b, e - b);
		}
		else for( auto &f : r.files ) if( i + 1 < sources.size() and f.first == sources[i + 1] ) where = f.second;
		check(has(where, b1), "function-in-its-own-file");
		bodies.push_back(body(where, fn));
		all += bodies.back();
	}
	size_t last = 0;
	string last_ns;
	std::map<string, size_t> pos;
	for( auto &f : fs ) {
		string d = "\tM(\"" + f.ns + "\").def(\"" + f.name + "\", ";
		check(count(all, d) == (wanted(f) ? 1u : 0u) and count(r.all, d) == (wanted(f) ? 1u : 0u), "registered-once-iff-requested");
		if( not wanted(f) ) continue;
		size_t p = all.find(d);
		check(p >= last, "declaration-order-kept");
		last = p;
		sym_reach("registered");
	}
	// no function is larger than asked for, apart from the registration that crosses the limit, and none is split earlier
	auto first = [](string const &t) {
		size_t b = t.find("M(\""), e = b == string::npos ? b : t.find("\")", b);
		return e == string::npos ? string("?") : t.substr(b, e - b) + "\")";
	};
	auto index = [&](string const &t, bool back) {
		int r = -1;
		for( unsigned k = 0; k < fs.size(); ++k )
			if( has(t, ".def(\"" + fs[k].name + "\"") and (back or r < 0) ) r = k;
		return r;
	};
	for( unsigned i = 0; i < bodies.size(); ++i ) {
		unsigned n = count(bodies[i], "\").def(\"");
		check(n >= 1, "no-empty-function");
		size_t b = bodies[i].rfind("\t// ");
		if( n > 1 ) check(b != string::npos and b < max, "split-when-the-limit-is-reached"), sym_reach("several");
		check(count(bodies[i], first(bodies[i])) == n, "one-namespace-per-function");
		if( i + 1 >= bodies.size() ) continue;
		int e = index(bodies[i], true), f = index(bodies[i + 1], false);
		bool same = e >= 0 and f >= 0;
		for( int k = e; same and k <= f; ++k ) same = fs[k].ns == fs[e].ns;
		if( same ) check(bodies[i].size() >= max, "not-split-before-the-limit"), sym_reach("split");
	}
	observe(r.all);
}

extern "C" void harness_main()
{
	files(sym_param("which", 0));
}
