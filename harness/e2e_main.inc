// implementation part of e2e.h, included once by each whole-program harness
#include <cstdio>
#include <map>
namespace e2e {
std::function<void(clang::ASTContext &)> on_ast;
std::function<void()> before_main;
std::vector<Header> headers;

void write_real_file(string const &path, string const &text)
{
	FILE *f = fopen(path.c_str(), "wb");
	if( !f ) throw std::runtime_error("can not write input");
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}
string out_dir() { return string(sym_scratch()) + "/out"; }
string read_out(string const &name)
{
	uint64_t n = 0;
	const char *p = vfs_get((out_dir() + "/" + name).c_str(), &n);
	return p ? string(p, n) : string();
}
Result run(string const &header, string const &config, std::vector<string> const &args, string const &header_name)
{
	Result r;
	string dir = string(sym_scratch()) + "/in" + std::to_string(getpid());
	mkdir(dir.c_str(), 0755);
	mkdir(out_dir().c_str(), 0755);
	if( header.size() ) write_real_file(dir + "/" + header_name, header);
	string all = header.size() ? "#include <" + header_name + ">\n" : "";
	for( auto &h : headers ) {
		for( size_t i = h.name.find('/'); i != string::npos; i = h.name.find('/', i + 1) ) mkdir((dir + "/" + h.name.substr(0, i)).c_str(), 0755);
		write_real_file(dir + "/" + h.name, h.text);
		if( h.included ) all += "#include <" + h.name + ">\n";
	}
	write_real_file(dir + "/all_includes.hpp", all);
	std::vector<string> a = {"binder", "--root-module", "root", "--prefix", out_dir()};
	for( auto &x : args ) a.push_back(x);
	if( config.size() ) {
		string c = string(sym_scratch()) + "/config";
		vfs_put(c.c_str(), config.data(), config.size());
		a.push_back("--config");
		a.push_back(c);
	}
	a.push_back(dir + "/all_includes.hpp");
	for( auto x : {"--", "-x", "c++", "-std=c++14", "-nostdinc", "-nostdinc++", "-w"} ) a.push_back(x);
	a.push_back("-I" + dir);
	std::vector<const char *> v;
	for( auto &x : a ) v.push_back(x.c_str());
	v.push_back(nullptr);
	if( before_main ) before_main();
	try { r.rc = binder_main((int)a.size(), v.data()); }
	catch( std::exception const & ) { r.thrown = true; }
	// the scratch directory differs between runs
	auto clean = [](string t) {
		string from = sym_scratch();
		for( size_t i = t.find(from); i != string::npos; i = t.find(from, i) ) t.replace(i, from.size(), "@");
		return t;
	};
	r.code = clean(read_out("root.cpp"));
	r.sources = clean(read_out("root.sources"));
	r.modules = clean(read_out("root.modules"));
	string prefix = out_dir() + "/";
	for( uint64_t i = 0; i < vfs_count(); ++i ) {
		string n = vfs_name(i);
		if( n.compare(0, prefix.size(), prefix) == 0 ) n = n.substr(prefix.size());
		else continue;
		if( n.size() < 4 or n.compare(n.size() - 4, 4, ".cpp") or n == "root.cpp" ) continue;
		r.files.push_back({n, clean(read_out(n))});
		r.all += r.files.back().second;
	}
	r.all += r.code;
	return r;
}
unsigned count_lines(string const &s, string const &a, string const &b, string const &c)
{
	unsigned n = 0;
	for( auto &l : lines_with(s, a) )
		if( has(l, b) and has(l, c) ) ++n;
	return n;
}
typedef std::map<std::pair<const void *, int>, uint64_t> AttrMap;
static AttrMap &attrs() { static AttrMap *m = new AttrMap; return *m; }
void set_attr(const void *d, Attr a, uint64_t v) { attrs()[{d, a}] = v; }
typedef std::map<const void *, std::pair<string, string>> NameMap;
static NameMap &names() { static NameMap *m = new NameMap; return *m; }
void set_name(const clang::NamedDecl *d, string const &name, string const &qname) { names()[d] = {name, qname}; }
const std::pair<string, string> *get_name(const void *d)
{
	NameMap &m = names();
	if( m.empty() ) return nullptr;
	auto it = m.find(d);
	return it == m.end() ? nullptr : &it->second;
}
const uint64_t *get_attr(const void *d, Attr a)
{
	AttrMap &m = attrs();
	if( m.empty() ) return nullptr;
	auto it = m.find({d, a});
	return it == m.end() ? nullptr : &it->second;
}
clang::NamedDecl *find(clang::DeclContext *dc, string const &qname, unsigned nth)
{
	for( auto *d : dc->decls() ) {
		if( auto *n = llvm::dyn_cast<clang::NamedDecl>(d) ) {
			if( not d->isImplicit() and n->getQualifiedNameAsString() == qname ) {
				if( nth-- == 0 ) return n;
			}
		}
		if( auto *c = llvm::dyn_cast<clang::DeclContext>(d) ) {
			if( llvm::isa<clang::NamespaceDecl>(d) or llvm::isa<clang::RecordDecl>(d) or llvm::isa<clang::LinkageSpecDecl>(d) or llvm::isa<clang::EnumDecl>(d) )
				if( auto *r = find(c, qname, nth) ) return r;
		}
	}
	return nullptr;
}
std::vector<string> lines_with(string const &s, string const &what)
{
	std::vector<string> r;
	size_t b = 0;
	while( b < s.size() ) {
		size_t e = s.find('\n', b);
		if( e == string::npos ) e = s.size();
		string l = s.substr(b, e - b);
		if( has(l, what) ) r.push_back(l);
		b = e + 1;
	}
	return r;
}
} // namespace e2e
#ifdef SYMBOLIC_BUILD
extern "C" {
// a consistency check inside an assertion of libclang
bool ov_adcc(clang::Decl *) __asm__("__ovr___ZNK5clang4Decl22AccessDeclContextCheckEv");
bool ov_adcc(clang::Decl *) { return true; }
clang::TranslationUnitDecl *r_tu(clang::ASTContext *) __asm__("__real___ZNK5clang10ASTContext22getTranslationUnitDeclEv");
clang::TranslationUnitDecl *ov_tu(clang::ASTContext *) __asm__("__ovr___ZNK5clang10ASTContext22getTranslationUnitDeclEv");
clang::TranslationUnitDecl *ov_tu(clang::ASTContext *c)
{
	static bool done = false;
	if( not done ) {
		done = true;
		if( e2e::on_ast ) e2e::on_ast(*c);
	}
	return r_tu(c);
}
#define BOOL_ATTR(fn, mangled, attr) \
	bool r_##fn(const void *) __asm__("__real__" mangled); \
	bool ov_##fn(const void *) __asm__("__ovr__" mangled); \
	bool ov_##fn(const void *d) { const uint64_t *v = e2e::get_attr(d, e2e::attr); return v ? (bool)(*v & 1) : r_##fn(d); }
BOOL_ATTR(static, "_ZNK5clang13CXXMethodDecl8isStaticEv", A_static)
BOOL_ATTR(virtual, "_ZNK5clang13CXXMethodDecl9isVirtualEv", A_virtual)
BOOL_ATTR(const, "_ZNK5clang13CXXMethodDecl7isConstEv", A_const)
BOOL_ATTR(pure, "_ZNK5clang12FunctionDecl6isPureEv", A_pure)
BOOL_ATTR(deleted, "_ZNK5clang12FunctionDecl9isDeletedEv", A_deleted)
BOOL_ATTR(defarg, "_ZNK5clang11ParmVarDecl13hasDefaultArgEv", A_defarg)
BOOL_ATTR(variadic, "_ZNK5clang12FunctionDecl10isVariadicEv", A_variadic)
BOOL_ATTR(scoped, "_ZNK5clang8EnumDecl8isScopedEv", A_scoped)
BOOL_ATTR(classtag, "_ZNK5clang8EnumDecl21isScopedUsingClassTagEv", A_classtag)
BOOL_ATTR(final, "_ZNK5clang4Decl7hasAttrINS_9FinalAttrEEEbv", A_final)
BOOL_ATTR(bitfield, "_ZNK5clang9FieldDecl10isBitFieldEv", A_bitfield)
BOOL_ATTR(volatile, "_ZNK5clang13CXXMethodDecl10isVolatileEv", A_volatile)
BOOL_ATTR(abstract, "_ZNK5clang13CXXRecordDecl10isAbstractEv", A_abstract)
#define WORD_ATTR(fn, mangled, attr) \
	uint64_t r_##fn(const void *) __asm__("__real__" mangled); \
	uint64_t ov_##fn(const void *) __asm__("__ovr__" mangled); \
	uint64_t ov_##fn(const void *d) { const uint64_t *v = e2e::get_attr(d, e2e::attr); return v ? *v : r_##fn(d); }
WORD_ATTR(origtype, "_ZNK5clang11ParmVarDecl15getOriginalTypeEv", A_origtype)
WORD_ATTR(rettype, "_ZNK5clang12FunctionDecl13getReturnTypeEv", A_rettype)
WORD_ATTR(type, "_ZNK5clang9ValueDecl7getTypeEv", A_type)
int r_baseacc(const void *) __asm__("__real___ZNK5clang16CXXBaseSpecifier18getAccessSpecifierEv");
int ov_baseacc(const void *) __asm__("__ovr___ZNK5clang16CXXBaseSpecifier18getAccessSpecifierEv");
int ov_baseacc(const void *d) { const uint64_t *v = e2e::get_attr(d, e2e::A_baseacc); return v ? (int)*v : r_baseacc(d); }
int r_refqual(const void *) __asm__("__real___ZNK5clang13CXXMethodDecl15getRefQualifierEv");
int ov_refqual(const void *) __asm__("__ovr___ZNK5clang13CXXMethodDecl15getRefQualifierEv");
int ov_refqual(const void *d) { const uint64_t *v = e2e::get_attr(d, e2e::A_refqual); return v ? (int)*v : r_refqual(d); }
int r_exspec(const void *) __asm__("__real___ZNK5clang17FunctionProtoType20getExceptionSpecTypeEv");
int ov_exspec(const void *) __asm__("__ovr___ZNK5clang17FunctionProtoType20getExceptionSpecTypeEv");
int ov_exspec(const void *d) { const uint64_t *v = e2e::get_attr(d, e2e::A_exspec); return v ? (int)*v : r_exspec(d); }
const void *r_nexpr(const void *) __asm__("__real___ZNK5clang17FunctionProtoType15getNoexceptExprEv");
const void *ov_nexpr(const void *) __asm__("__ovr___ZNK5clang17FunctionProtoType15getNoexceptExprEv");
const void *ov_nexpr(const void *d) { return e2e::get_attr(d, e2e::A_exspec) ? nullptr : r_nexpr(d); }
std::string r_name(const clang::NamedDecl *) __asm__("__real___ZNK5clang9NamedDecl15getNameAsStringB5cxx11Ev");
std::string ov_name(const clang::NamedDecl *) __asm__("__ovr___ZNK5clang9NamedDecl15getNameAsStringB5cxx11Ev");
std::string ov_name(const clang::NamedDecl *d) { auto *n = e2e::get_name(d); return n ? n->first : r_name(d); }
std::string r_qname(const clang::NamedDecl *) __asm__("__real___ZNK5clang9NamedDecl24getQualifiedNameAsStringB5cxx11Ev");
std::string ov_qname(const clang::NamedDecl *) __asm__("__ovr___ZNK5clang9NamedDecl24getQualifiedNameAsStringB5cxx11Ev");
std::string ov_qname(const clang::NamedDecl *d) { auto *n = e2e::get_name(d); return n and n->second.size() ? n->second : r_qname(d); }
llvm::StringRef r_sname(const clang::NamedDecl *) __asm__("__real___ZNK5clang9NamedDecl7getNameEv");
llvm::StringRef ov_sname(const clang::NamedDecl *) __asm__("__ovr___ZNK5clang9NamedDecl7getNameEv");
llvm::StringRef ov_sname(const clang::NamedDecl *d) { auto *n = e2e::get_name(d); return n ? llvm::StringRef(n->first) : r_sname(d); }
}
#endif
