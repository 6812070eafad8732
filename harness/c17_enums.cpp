// enumerations: every enumerator once, in order; exported to the enclosing scope and arithmetic exactly when unscoped
#include "e2e.h"
#include "e2e_main.inc"
using namespace e2e;
static const char *KIND[] = {"enum", "enum class", "enum struct"};
static const char *VAL[3][3] = {{"", " = 7", ""}, {"", " = 0", " = 0"}, {" = 5", " = -1", " = 5"}};
struct En { string qname, scope, module; unsigned kind, n, values; std::vector<string> names; };

extern "C" void harness_main()
{
	bool sym = sym_mode();
	unsigned which = sym_param("which", 0);
	En e[2] = {{"n::E", "n", "M(\"n\")"}, {"n::S::F", "n::S", "cl"}};
	unsigned acc = choose("access", 3); // of the nested one
	string body[2];
	for( unsigned k = 0; k < 2; ++k ) {
		e[k].kind = pick(("kind" + num(k)).c_str(), 3);
		e[k].n = pick(("n" + num(k)).c_str(), 4);
		e[k].values = e[k].n > 1 ? pick(("values" + num(k)).c_str(), 3) : 0; // distinct or repeated values
		for( unsigned i = 0; i < e[k].n; ++i ) {
			// distinct identifiers: a symbolic part followed by the position
			string s = sym_string(("name" + num(k) + num(i)).c_str(), 1, which ? 2 : 1, "aZ_q");
			e[k].names.push_back(s + num(k) + num(i));
			body[k] += (sym ? "x" + num(k) + num(i) : e[k].names.back()) + VAL[e[k].values][i] + ", ";
		}
	}
	static const char *AS[] = {"public", "protected", "private"};
	string h = "#pragma once\nnamespace n {\nenum { unnamed0, unnamed1 };\n";
	h += string(KIND[e[0].kind]) + " E { " + body[0] + "};\n";
	h += "struct S {\nenum { unnamed2 };\n" + string(sym ? "public" : AS[acc]) + ": " + KIND[e[1].kind] + " F { " + body[1] + "};\n};\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		for( unsigned k = 0; k < 2; ++k ) {
			auto *d = llvm::dyn_cast_or_null<clang::EnumDecl>(find(c.getTranslationUnitDecl(), e[k].qname));
			if( !d ) { check(false, "no-declaration"); return; }
			if( k == 1 ) d->setAccess((clang::AccessSpecifier)acc);
			unsigned i = 0;
			for( auto *v : d->enumerators() ) {
				set_name(v, e[k].names[i], (e[k].kind ? e[k].qname : e[k].scope) + "::" + e[k].names[i]);
				++i;
			}
		}
	};
	Result r = run(h, "", {"--bind", "", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	check(not has(r.code, "unnamed"), "unnamed-enumerations-never");
	check(count(r.code, "pybind11::enum_<") == 1u + (acc == 0), "no-other-enumeration");
	for( unsigned k = 0; k < 2; ++k ) {
		string head = "pybind11::enum_<" + e[k].qname + ">(" + e[k].module + ", \"" + e[k].qname.substr(e[k].scope.size() + 2) + "\"";
		size_t b = r.code.find(head);
		bool shown = k == 0 or acc == 0;
		check((count(r.code, head) == 1) == shown, "enumeration-registered-once-iff-public");
		if( b == string::npos ) continue;
		string t = r.code.substr(b, r.code.find(';', b) - b);
		bool scoped = e[k].kind != 0;
		check(has(t.substr(0, t.find('\n')), "pybind11::arithmetic()") == not scoped, "arithmetic-iff-unscoped");
		check((count(t, ".export_values()") == 1) == not scoped, "exported-iff-unscoped");
		check(count(t, ".value(\"") == e[k].n, "no-other-enumerator");
		size_t at = 0;
		for( unsigned i = 0; i < e[k].n; ++i ) {
			string v = ".value(\"" + e[k].names[i] + "\", ";
			size_t p = t.find(v, at);
			check(p != string::npos, "every-enumerator-in-order");
			if( p == string::npos ) continue;
			at = p + v.size();
			string q1 = e[k].qname + "::" + e[k].names[i] + ")", q2 = e[k].scope + "::" + e[k].names[i] + ")";
			check(t.compare(at, q1.size(), q1) == 0 or (not scoped and t.compare(at, q2.size(), q2) == 0), "enumerator-has-its-own-value");
		}
		sym_reach(scoped ? "scoped" : "unscoped");
	}
	observe(r.code);
}
