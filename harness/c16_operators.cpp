// operators: each member operator is registered under the Python method of the same meaning and arity, operators without one are not registered
#include "e2e.h"
#include "e2e_main.inc"
#include <cstring>
using namespace e2e;
struct Op { const char *cpp, *unary, *binary; }; // Python methods of the form without and with a parameter; nullptr: not valid C++, "": not registered
static const Op ops[] = {
	{"+", "__pos__", "__add__"}, {"-", "__neg__", "__sub__"}, {"*", "dereference", "__mul__"}, {"/", nullptr, "__truediv__"}, {"%", nullptr, "__mod__"},
	{"~", "__invert__", nullptr}, {"|", nullptr, "__or__"}, {"&", nullptr, "__and__"}, {"^", nullptr, "__xor__"}, {"=", nullptr, "assign"},
	{"!", "", nullptr}, {"<", nullptr, ""}, {">", nullptr, ""}, {",", nullptr, ""},
	{"<<", nullptr, "__lshift__"}, {">>", nullptr, "__rshift__"}, {"+=", nullptr, "__iadd__"}, {"-=", nullptr, "__isub__"}, {"*=", nullptr, "__imul__"}, {"/=", nullptr, "__itruediv__"},
	{"%=", nullptr, "__imod__"}, {"|=", nullptr, "__ior__"}, {"&=", nullptr, "__iand__"}, {"^=", nullptr, "__ixor__"}, {"==", nullptr, "__eq__"}, {"!=", nullptr, "__ne__"},
	{"[]", nullptr, "__getitem__"}, {"()", "__call__", "__call__"}, {"++", "pre_increment", "post_increment"}, {"--", "pre_decrement", "post_decrement"}, {"->", "arrow", nullptr},
	{"<=", nullptr, ""}, {">=", nullptr, ""}, {"&&", nullptr, ""}, {"||", nullptr, ""},
	{"<<=", nullptr, "__ilshift__"}, {">>=", nullptr, "__irshift__"}, {"->*", nullptr, ""}};
static const char *python(Op const &o, bool binary) { return binary ? o.binary : o.unary; }

// a symbolic operator: every length, and every operator of that length that takes this number of parameters
static string sym_op(string const &name, bool binary)
{
	string s = sym_string(name.c_str(), 1, 3, "+-*/%~|&^=!<>,[]()");
	bool any = false;
	for( auto &o : ops )
		if( strlen(o.cpp) == s.size() and python(o, binary) ) any |= memcmp(o.cpp, s.data(), s.size()) == 0;
	sym_assume(any);
	return s;
}

extern "C" void harness_main()
{
	bool sym = sym_mode(), binary = sym_param("binary", 0);
	string op = sym_op("op", binary);
	string cst = pick("const", 2) ? " const" : "";
	bool arrow = not sym and op == "->", incr = not sym and (op == "++" or op == "--") and binary;
	string res = arrow ? "A *" : "int ", par = binary ? (incr ? "int" : "int a") : "";
	// the neutral operator stands for the symbolic one; each in a class of its own since a class can not have the same operator twice
	string neutral = binary ? "^" : "~", text = "operator" + (sym ? neutral : op);
	string h = "#pragma once\nnamespace n {\nstruct A {\n\t" + res + text + "(" + par + ")" + cst + ";\n\t" + "void other();\n};\n";
	h += "template <class T> struct B {\n\t" + res + text + "(" + par + ") const;\n};\n";
	h += "struct V {\n\tvirtual ~V();\n\tvirtual " + res + text + "(" + par + ")" + cst + ";\n};\n";
	h += "struct A3 { int operator()(int a, int b = 1); int operator[](int) const; };\nstruct A2 {\n\tint operator()();\n\tint operator()(int);\n\tint operator()(int, int);\n\tint operator-();\n\tint operator-(int);\n\toperator int();\n\tvoid * operator new(decltype(sizeof(0)));\n\tvoid operator delete(void *);\n};\n";
	h += "template struct B<int>;\nint operator+(A const &, A2 const &);\nint operator-(A const &);\n}\n";
	on_ast = [&](clang::ASTContext &c) {
		auto *a = find(c.getTranslationUnitDecl(), "n::A::operator" + neutral);
		check(a, "no-declaration");
		if( a ) set_name(a, "operator" + op, "n::A::operator" + op);
		auto *v = find(c.getTranslationUnitDecl(), "n::V::operator" + neutral);
		check(v, "no-declaration");
		if( v ) set_name(v, "operator" + op, "n::V::operator" + op);
		auto *t = llvm::dyn_cast_or_null<clang::ClassTemplateDecl>(find(c.getTranslationUnitDecl(), "n::B"));
		unsigned k = 0;
		if( t ) for( auto *s : t->specializations() )
			for( auto *m : s->methods() )
				if( not m->isImplicit() and m->isOverloadedOperator() ) set_name(m, "operator" + op, "n::B<int>::operator" + op), ++k;
		check(k == 1, "no-instantiation");
	};
	Result r = run(h, "", {"--bind", "n", "--single-file", "--skip-line-number"});
	check(r.rc == 0 and not r.thrown, "succeeds");
	for( auto &c : op ) c = (char)sym_value((unsigned char)c);
	string py;
	for( auto &o : ops )
		if( op == o.cpp ) py = python(o, binary);
	auto part = [&](string const &name) {
		size_t b = r.code.find("pybind11::class_<" + name + ","), e = r.code.find("\n\t}\n", b == string::npos ? 0 : b);
		check(b != string::npos and e != string::npos, "class-registered");
		return b == string::npos or e == string::npos ? string() : r.code.substr(b, e - b);
	};
	// Python subclasses override it by the same name
	string o = " operator" + op + "(" + (binary ? "int a0" : "") + ")" + cst + " override {", l = "pybind11::get_overload(static_cast<const n::V *>(this), \"" + py + "\")";
	check(count(r.code, o) == (py.size() ? 1u : 0u) and count(r.code, "pybind11::get_overload(") == (py.size() ? 1u : 0u), "overridable-iff-python-has-it");
	if( py.size() ) check(count(r.code, l) == 1 and count(r.code, "return V::operator" + op + "(" + (binary ? "a0" : "") + ");") == 1, "overridden-by-the-python-name");
	for( unsigned i = 0; i < 3; ++i ) {
		string cls = i == 2 ? "n::V" : i ? "n::B<int>" : "n::A", p = part(cls);
		string f = " &" + cls + "::operator" + op + ",";
		check(count(p, f) == (py.size() ? 1u : 0u) or op == "=", "registered-iff-python-has-it");
		if( py.size() ) check(count_lines(p, "cl.def(\"" + py + "\", ", "::*)(" + string(binary ? "int" : "") + ")" + (i == 1 ? " const" : cst) + ")" + f) == 1, "registered-under-the-python-name"), sym_reach("mapped");
		else sym_reach("not-mapped");
		// apart from the operator and the methods every class has, nothing is registered
		for( auto &l : lines_with(p, "cl.def(\"") )
			if( not has(l, f) ) check(has(l, "cl.def(\"other\"") or has(l, "cl.def(\"assign\", (struct " + cls + " & (") or has(l, "cl.def(\"assign\", (" + cls + " & (") , "nothing-else-registered");
	}
	string p = part("n::A2");
	check(count_lines(p, "cl.def(\"__call__\", (int (n::A2::*)()) &n::A2::operator(),") == 1 and count_lines(p, "cl.def(\"__call__\", (int (n::A2::*)(int)) &n::A2::operator(),") == 1 and count_lines(p, "cl.def(\"__call__\", (int (n::A2::*)(int, int)) &n::A2::operator(),") == 1 and count(p, "__call__") == 3, "call-operators");
	check(count_lines(p, "cl.def(\"__neg__\", (int (n::A2::*)()) &n::A2::operator-,") == 1 and count_lines(p, "cl.def(\"__sub__\", (int (n::A2::*)(int)) &n::A2::operator-,") == 1, "minus");
	p = part("n::A3");
	check(count_lines(p, "cl.def(\"__call__\", [](n::A3 &o, int const & a0) -> int { return o.operator()(a0); }, ") == 1 and count_lines(p, "cl.def(\"__call__\", (int (n::A3::*)(int, int)) &n::A3::operator(),") == 1 and count(p, "__call__") == 2 and count(p, "__getitem__") == 1, "call-operator-with-default-argument");
	p = part("n::A2");
	check(not has(p, "operator int") and not has(p, "operator new") and not has(p, "operator delete"), "no-conversions");
	check(not has(r.code, "M(\"n\").def("), "no-free-operators");
	if( op != "->" and op != "=" and op != "++" and op != "--" ) observe(r.code); // these need another result or parameter type
}
