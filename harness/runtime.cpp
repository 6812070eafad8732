// Environment models, executed by symex together with the code under test.  A function named __ovr__X replaces X; calls to X from __ovr__X reach the real X.
#include "symapi.h"
#include <cstring>
#include <fstream>
#include <map>
#include <ostream>
#include <istream>
#include <set>
#include <sstream>
#include <string>
#include <cstdlib>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/ADT/Twine.h>
#include <sys/stat.h>
#include <system_error>

using std::string;

// ------------------------------------------------------------------------------------------------ files
struct VFile { string data; int writes = 0; bool full = false; };
static std::map<string, VFile *> &vfs() { static std::map<string, VFile *> *m = new std::map<string, VFile *>; return *m; }
static string norm(string const &p)
{
	string r;
	for( size_t i = 0; i < p.size(); ++i ) {
		if( p[i] == '/' and r.size() and r[r.size() - 1] == '/' ) continue;
		if( p[i] == '/' and i + 1 < p.size() and p[i + 1] == '.' and (i + 2 == p.size() or p[i + 2] == '/') ) { ++i; continue; }
		r.push_back(p[i]);
	}
	return r;
}
static bool is_vpath(string const &p)
{
	string s = sym_scratch();
	return p.size() > s.size() and p.compare(0, s.size(), s) == 0;
}
extern "C" {
void vfs_put(const char *path, const char *data, uint64_t n)
{
	VFile *&f = vfs()[norm(path)];
	if( !f ) f = new VFile;
	f->data.assign(data, n);
}
int vfs_exists(const char *path) { return vfs().count(norm(path)); }
const char *vfs_get(const char *path, uint64_t *n)
{
	auto it = vfs().find(norm(path));
	if( it == vfs().end() ) { *n = 0; return nullptr; }
	*n = it->second->data.size();
	return it->second->data.data();
}
int vfs_writes(const char *path)
{
	auto it = vfs().find(norm(path));
	return it == vfs().end() ? 0 : it->second->writes;
}
void vfs_reset_counters() { for( auto &p : vfs() ) p.second->writes = 0; }
uint64_t vfs_count() { return vfs().size(); }
const char *vfs_name(uint64_t i)
{
	for( auto &p : vfs() )
		if( i-- == 0 ) return p.first.c_str();
	return nullptr;
}

}
// directories: those made by the code under test or the harness, and those that really exist
static std::set<string> &vdirs() { static std::set<string> *m = new std::set<string>; return *m; }
static bool deny_dirs = false; // creating directories fails
static uint64_t size_limit = ~0ull; // files can not grow beyond this
static bool vdir_exists(string p)
{
	p = norm(p);
	if( vdirs().count(p) ) return true;
	for( auto &c : p ) c = (char)sym_value((unsigned char)c);
	struct stat st;
	return stat(p.c_str(), &st) == 0 and S_ISDIR(st.st_mode);
}
static void vdir_add(string const &path)
{
	string p = norm(path);
	for( size_t i = 1; i <= p.size(); ++i )
		if( i == p.size() or p[i] == '/' ) vdirs().insert(p.substr(0, i));
}
extern "C" {
void vfs_full(const char *path) { vfs_put(path, "", 0); vfs()[norm(path)]->full = true; }
void vfs_mkdir(const char *path) { vdir_add(path); }
void vfs_faults(int no_dirs, uint64_t limit) { deny_dirs = no_dirs; size_limit = limit; }
// the only command that makes sense here; names with characters that the shell treats specially are not created
int __ovr__system(const char *c)
{
	string s = c, m = "mkdir -p ";
	if( deny_dirs ) return 256;
	if( s.compare(0, m.size(), m) ) return 0;
	s = s.substr(m.size());
	for( char x : s ) if( x == ' ' or x == '\'' or x == '"' or x == ';' or x == '$' or x == '&' or x == '(' ) return 0;
	vdir_add(s);
	return 0;
}
int ov_mkdir(const char *p, unsigned mode) __asm__("__ovr__mkdir");
int r_mkdir(const char *p, unsigned mode) __asm__("__real__mkdir");
int ov_mkdir(const char *p, unsigned mode)
{
	if( deny_dirs ) return -1;
	return r_mkdir(p, mode);
}
std::error_code ov_create_directories(llvm::Twine const &, bool, unsigned) __asm__("__ovr___ZN4llvm3sys2fs18create_directoriesERKNS_5TwineEbNS1_5permsE");
std::error_code ov_create_directories(llvm::Twine const &p, bool, unsigned)
{
	if( deny_dirs ) return std::make_error_code(std::errc::permission_denied);
	vdir_add(p.str());
	return std::error_code();
}
}

// ------------------------------------------------------------------------------------------------ output streams: side buffers
static std::map<void *, string *> &obuf() { static std::map<void *, string *> *m = new std::map<void *, string *>; return *m; }
struct OFile { VFile *f; bool failed; };
static std::map<void *, OFile> &ofile() { static std::map<void *, OFile> *m = new std::map<void *, OFile>; return *m; }
struct IBuf { string *s; size_t pos; }; // read side of string streams
static std::map<void *, IBuf> &ibuf() { static std::map<void *, IBuf> *m = new std::map<void *, IBuf>; return *m; }
static void out(std::ostream &os, const char *s, size_t n)
{
	void *k = &os;
	auto f = ofile().find(k);
	if( f != ofile().end() ) {
		if( not f->second.f ) return;
		string &d = f->second.f->data;
		if( f->second.f->full ) f->second.failed |= n != 0, n = 0;
		else if( d.size() + n > size_limit ) f->second.failed = true, n = 0; // the real file has a part of it; noticed when the buffer is written
		d.append(s, n);
		return;
	}
	auto b = obuf().find(k);
	if( b != obuf().end() ) b->second->append(s, n);
	// anything else (std::cout, std::cerr) is dropped
}
static void flush_file(std::ostream &os)
{
	auto f = ofile().find(&os);
	if( f != ofile().end() and f->second.failed ) os.setstate(std::ios_base::badbit);
}
static void new_sbuf(std::ostream *os)
{
	ofile().erase(os);
	string *&s = obuf()[os];
	s = new string;
	ibuf().erase(os->rdbuf());
}
template <class T> static std::ostream &num(std::ostream &os, T v)
{
	string s = std::to_string((T)sym_value((uint64_t)v));
	out(os, s.data(), s.size());
	return os;
}
#define OSTR "_ZNSo"
extern "C" {
std::ostream &ov_insert(std::ostream &os, const char *s, long n) __asm__("__ovr___ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream &ov_insert(std::ostream &os, const char *s, long n) { out(os, s, n); return os; }
std::ostream &ov_write(std::ostream &os, const char *s, long n) __asm__("__ovr___ZNSo5writeEPKcl");
std::ostream &ov_write(std::ostream &os, const char *s, long n) { out(os, s, n); return os; }
std::ostream &ov_put(std::ostream &os, char c) __asm__("__ovr___ZNSo3putEc");
std::ostream &ov_put(std::ostream &os, char c) { out(os, &c, 1); return os; }
std::ostream &ov_endl(std::ostream &os) __asm__("__ovr___ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
std::ostream &ov_endl(std::ostream &os) { out(os, "\n", 1); flush_file(os); return os; }
std::ostream &ov_flush(std::ostream &os) __asm__("__ovr___ZNSo5flushEv");
std::ostream &ov_flush(std::ostream &os) { flush_file(os); return os; }
std::ostream &ov_ch(std::ostream &os, char c) __asm__("__ovr___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream &ov_ch(std::ostream &os, char c) { out(os, &c, 1); return os; }
std::ostream &ov_cs(std::ostream &os, const char *c) __asm__("__ovr___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream &ov_cs(std::ostream &os, const char *c) { out(os, c, strlen(c)); return os; }
std::ostream &ov_i(std::ostream &os, int v) __asm__("__ovr___ZNSolsEi");
std::ostream &ov_i(std::ostream &os, int v) { return num<int>(os, v); }
std::ostream &ov_j(std::ostream &os, unsigned v) __asm__("__ovr___ZNSolsEj");
std::ostream &ov_j(std::ostream &os, unsigned v) { return num<unsigned>(os, v); }
std::ostream &ov_l(std::ostream &os, long v) __asm__("__ovr___ZNSolsEl");
std::ostream &ov_l(std::ostream &os, long v) { return num<long>(os, v); }
std::ostream &ov_m(std::ostream &os, unsigned long v) __asm__("__ovr___ZNSolsEm");
std::ostream &ov_m(std::ostream &os, unsigned long v) { return num<unsigned long>(os, v); }
std::ostream &ov_Ml(std::ostream &os, long v) __asm__("__ovr___ZNSo9_M_insertIlEERSoT_");
std::ostream &ov_Ml(std::ostream &os, long v) { return num<long>(os, v); }
std::ostream &ov_Mm(std::ostream &os, unsigned long v) __asm__("__ovr___ZNSo9_M_insertImEERSoT_");
std::ostream &ov_Mm(std::ostream &os, unsigned long v) { return num<unsigned long>(os, v); }

// position: fpos<mbstate_t> is returned in registers {long, mbstate}
struct fpos2 { long off; long st; };
fpos2 ov_tellp(std::ostream *os) __asm__("__ovr___ZNSo5tellpEv");
fpos2 ov_tellp(std::ostream *os)
{
	auto b = obuf().find(os);
	fpos2 r = {b == obuf().end() ? 0 : (long)b->second->size(), 0};
	return r;
}

void r_oss(std::ostringstream *) __asm__("__real___ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ov_oss(std::ostringstream *s) __asm__("__ovr___ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ov_oss(std::ostringstream *s) { r_oss(s); new_sbuf(s); }
void r_ss(std::stringstream *) __asm__("__real___ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ov_ss(std::stringstream *s) __asm__("__ovr___ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ov_ss(std::stringstream *s)
{
	r_ss(s);
	new_sbuf(s);
	std::ostream *o = s;
	ibuf()[((std::ios *)o)->rdbuf()] = {obuf()[o], 0};
}
void ov_oss_str(string *r, std::ostringstream const *s) __asm__("__ovr___ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
void ov_oss_str(string *r, std::ostringstream const *s) { std::ostream const *o = s; new(r) string(*obuf()[(void *)o]); }
void ov_ss_str(string *r, std::stringstream const *s) __asm__("__ovr___ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
void ov_ss_str(string *r, std::stringstream const *s) { std::ostream const *o = s; new(r) string(*obuf()[(void *)o]); }

// string streams with an initial text: reading starts at its beginning
void r_iss(std::istringstream *) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1Ev");
void ov_iss(std::istringstream *s, string const &t, int) __asm__("__ovr___ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void ov_iss(std::istringstream *s, string const &t, int)
{
	r_iss(s);
	std::istream *i = s;
	ibuf()[((std::ios *)i)->rdbuf()] = {new string(t), 0};
}
void ov_ss_s(std::stringstream *s, string const &t, int) __asm__("__ovr___ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
void ov_ss_s(std::stringstream *s, string const &t, int)
{
	r_ss(s);
	new_sbuf(s);
	std::ostream *o = s;
	*obuf()[o] = t; // what is inserted goes after the text (a difference to the real stream, which overwrites it)
	ibuf()[((std::ios *)o)->rdbuf()] = {obuf()[o], 0};
}

// ofstream
int vfs_deny_write = 0; // opening for writing fails
void r_ofs(std::ofstream *, const char *, int) __asm__("__real___ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void r_ofs0(std::ofstream *) __asm__("__real___ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev");
void r_ofs_open(std::ofstream *, const char *, int) __asm__("__real___ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void r_ofs_close(std::ofstream *) __asm__("__real___ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv");
static void open_out(std::ofstream *s, string const &p, int mode, bool ctor)
{
	auto real = [&](const char *path, int m) { if( ctor ) r_ofs(s, path, m); else r_ofs_open(s, path, m); };
	std::ostream *o = s;
	obuf().erase(o);
	size_t slash = p.rfind('/');
	if( not is_vpath(p) or vfs_deny_write or not vdir_exists(p.substr(0, slash)) ) {
		real("/nonexistent-directory/x", (int)std::ios_base::out);
		ofile()[o] = {nullptr, false};
		return;
	}
	real("/dev/null", (int)std::ios_base::out);
	VFile *&f = vfs()[norm(p)];
	if( !f ) f = new VFile;
	if( not(mode & (int)std::ios_base::app) ) f->data.clear();
	++f->writes;
	ofile()[o] = {f, false};
}
void ov_ofs_s(std::ofstream *s, string const &p, int m) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void ov_ofs_s(std::ofstream *s, string const &p, int m) { open_out(s, p, m, true); }
void ov_ofs_c(std::ofstream *s, const char *p, int m) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void ov_ofs_c(std::ofstream *s, const char *p, int m) { open_out(s, p, m, true); }
void ov_ofs_0(std::ofstream *s) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev");
void ov_ofs_0(std::ofstream *s) { r_ofs0(s); std::ostream *o = s; obuf().erase(o); ofile()[o] = {nullptr, false}; }
void ov_ofs_os(std::ofstream *s, string const &p, int m) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void ov_ofs_os(std::ofstream *s, string const &p, int m) { open_out(s, p, m, false); }
void ov_ofs_oc(std::ofstream *s, const char *p, int m) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void ov_ofs_oc(std::ofstream *s, const char *p, int m) { open_out(s, p, m, false); }
void ov_ofs_close(std::ofstream *s) __asm__("__ovr___ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv");
void ov_ofs_close(std::ofstream *s)
{
	std::ostream *o = s;
	flush_file(*o);
	r_ofs_close(s);
	ofile()[o] = {nullptr, false};
}

// ifstream: the get area of the (empty) native file buffer is pointed at the virtual file
void r_ifs(std::ifstream *, const char *, int) __asm__("__real___ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
struct raw_buf { void *vptr; char *beg, *cur, *end; }; // libstdc++'s get area
struct hack_buf { static void set(std::streambuf *b, char *p, size_t n) { raw_buf *r = (raw_buf *)b; r->beg = r->cur = p; r->end = p + n; } };
static int buf_get(std::streambuf *b, bool bump)
{
	auto i = ibuf().find(b);
	if( i != ibuf().end() ) {
		if( i->second.pos >= i->second.s->size() ) return -1;
		int c = (unsigned char)(*i->second.s)[i->second.pos];
		if( bump ) ++i->second.pos;
		return c;
	}
	raw_buf *r = (raw_buf *)b;
	if( r->cur == r->end ) return -1; // virtual files are completely in the get area; other streams are not read by the code under test
	int c = (unsigned char)*r->cur;
	if( bump ) ++r->cur;
	return c;
}
int ov_sgetc(std::streambuf *b) __asm__("__ovr___ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetcEv");
int ov_sgetc(std::streambuf *b) { return buf_get(b, false); }
int ov_sbumpc(std::streambuf *b) __asm__("__ovr___ZNSt15basic_streambufIcSt11char_traitsIcEE6sbumpcEv");
int ov_sbumpc(std::streambuf *b) { return buf_get(b, true); }
int ov_snextc(std::streambuf *b) __asm__("__ovr___ZNSt15basic_streambufIcSt11char_traitsIcEE6snextcEv");
int ov_snextc(std::streambuf *b) { return buf_get(b, true) == -1 ? -1 : buf_get(b, false); }
void r_ifs_open(std::ifstream *, const char *, int) __asm__("__real___ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
static void open_in(std::ifstream *s, string const &p, int mode, bool ctor)
{
	auto real = [&](const char *path, int m) { if( ctor ) r_ifs(s, path, m); else r_ifs_open(s, path, m); };
	auto it = vfs().find(norm(p));
	if( it == vfs().end() ) {
		real(is_vpath(p) ? "/nonexistent-directory/x" : p.c_str(), (int)std::ios_base::in);
		return;
	}
	real("/dev/null", (int)std::ios_base::in);
	string *copy = new string(it->second->data);
	ibuf().erase(s->rdbuf());
	hack_buf::set(s->rdbuf(), &(*copy)[0], copy->size());
	if( mode & (int)std::ios_base::ate ) ((raw_buf *)s->rdbuf())->cur = ((raw_buf *)s->rdbuf())->end;
}
void ov_ifs_s(std::ifstream *s, string const &p, int m) __asm__("__ovr___ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void ov_ifs_s(std::ifstream *s, string const &p, int m) { open_in(s, p, m, true); }
void ov_ifs_c(std::ifstream *s, const char *p, int m) __asm__("__ovr___ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void ov_ifs_c(std::ifstream *s, const char *p, int m) { open_in(s, p, m, true); }
void ov_ifs_os(std::ifstream *s, string const &p, int m) __asm__("__ovr___ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void ov_ifs_os(std::ifstream *s, string const &p, int m) { open_in(s, p, m, false); }
void ov_ifs_oc(std::ifstream *s, const char *p, int m) __asm__("__ovr___ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode");
void ov_ifs_oc(std::ifstream *s, const char *p, int m) { open_in(s, p, m, false); }

static std::streambuf *buf_of(std::istream *s) { return ((std::ios *)s)->rdbuf(); }
static long &gcount(std::istream *s) { return ((long *)s)[1]; }
std::istream &ov_read(std::istream *s, char *p, long n) __asm__("__ovr___ZNSi4readEPcl");
std::istream &ov_read(std::istream *s, char *p, long n)
{
	long k = 0;
	for( ; k < n; ++k ) {
		int c = s->good() ? buf_get(buf_of(s), true) : -1;
		if( c == -1 ) { s->setstate(std::ios_base::eofbit | std::ios_base::failbit); break; }
		p[k] = (char)c;
	}
	gcount(s) = k;
	return *s;
}
int ov_get0(std::istream *s) __asm__("__ovr___ZNSi3getEv");
int ov_get0(std::istream *s)
{
	int c = s->good() ? buf_get(buf_of(s), true) : -1;
	gcount(s) = c != -1;
	if( c == -1 ) s->setstate(std::ios_base::eofbit | std::ios_base::failbit);
	return c;
}
std::istream &ov_get1(std::istream *s, char *p) __asm__("__ovr___ZNSi3getERc");
std::istream &ov_get1(std::istream *s, char *p)
{
	int c = ov_get0(s);
	if( c != -1 ) *p = (char)c;
	return *s;
}
int ov_peek(std::istream *s) __asm__("__ovr___ZNSi4peekEv");
int ov_peek(std::istream *s)
{
	int c = s->good() ? buf_get(buf_of(s), false) : -1;
	if( c == -1 ) s->setstate(std::ios_base::eofbit);
	return c;
}
fpos2 ov_tellg(std::istream *s) __asm__("__ovr___ZNSi5tellgEv");
fpos2 ov_tellg(std::istream *s)
{
	raw_buf *r = (raw_buf *)buf_of(s);
	auto i = ibuf().find(buf_of(s));
	fpos2 p = {s->fail() ? -1 : i != ibuf().end() ? (long)i->second.pos : (long)(r->cur - r->beg), 0};
	return p;
}
static void seek(std::istream *s, long off, int dir)
{
	s->clear(s->rdstate() & ~std::ios_base::eofbit);
	raw_buf *r = (raw_buf *)buf_of(s);
	auto i = ibuf().find(buf_of(s));
	long size = i != ibuf().end() ? (long)i->second.s->size() : r->end - r->beg, cur = i != ibuf().end() ? (long)i->second.pos : r->cur - r->beg;
	long to = off + (dir == 0 ? 0 : dir == 1 ? cur : size);
	if( to < 0 or to > size ) { s->setstate(std::ios_base::failbit); return; }
	if( i != ibuf().end() ) i->second.pos = to;
	else r->cur = r->beg + to;
}
std::istream &ov_seek1(std::istream *s, long off, long st) __asm__("__ovr___ZNSi5seekgESt4fposI11__mbstate_tE");
std::istream &ov_seek1(std::istream *s, long off, long) { seek(s, off, 0); return *s; }
std::istream &ov_seek2(std::istream *s, long off, int dir) __asm__("__ovr___ZNSi5seekgElSt12_Ios_Seekdir");
std::istream &ov_seek2(std::istream *s, long off, int dir) { seek(s, off, dir); return *s; }
std::ostream &ov_insbuf(std::ostream *os, std::streambuf *b) __asm__("__ovr___ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE");
std::ostream &ov_insbuf(std::ostream *os, std::streambuf *b)
{
	bool any = false;
	for( int c; (c = buf_get(b, true)) != -1; any = true ) { char x = (char)c; out(*os, &x, 1); }
	if( not any ) os->setstate(std::ios_base::failbit);
	return *os;
}
static bool space(int c) { return c == ' ' or (c >= 9 and c <= 13); }
std::istream &ov_extract(std::istream &is, string &s) __asm__("__ovr___ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream &ov_extract(std::istream &is, string &s)
{
	if( not is.good() ) { is.setstate(std::ios_base::failbit); return is; }
	std::streambuf *b = is.rdbuf();
	int c;
	while( (c = buf_get(b, false)) != -1 and space(c) ) buf_get(b, true);
	s.clear();
	bool any = false;
	while( (c = buf_get(b, false)) != -1 and not space(c) ) { s.push_back((char)c); buf_get(b, true); any = true; }
	if( c == -1 ) is.setstate(std::ios_base::eofbit);
	if( not any ) is.setstate(std::ios_base::failbit);
	return is;
}

std::istream &ov_getline(std::istream &is, string &s, char d) __asm__("__ovr___ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream &ov_getline(std::istream &is, string &s, char d)
{
	std::streambuf *b = is.rdbuf();
	if( not is.good() ) { is.setstate(std::ios_base::failbit); return is; }
	s.clear();
	bool any = false;
	for( ;; ) {
		int c = buf_get(b, true);
		if( c == -1 ) {
			is.setstate(any ? std::ios_base::eofbit : std::ios_base::eofbit | std::ios_base::failbit);
			return is;
		}
		any = true;
		if( (char)c == d ) return is;
		s.push_back((char)c);
	}
}

// ------------------------------------------------------------------------------------------------ llvm output
llvm::raw_ostream &ov_outs() __asm__("__ovr___ZN4llvm4outsEv");
llvm::raw_ostream &ov_outs() { return llvm::nulls(); }
llvm::raw_ostream &ov_errs() __asm__("__ovr___ZN4llvm4errsEv");
llvm::raw_ostream &ov_errs() { return llvm::nulls(); }

llvm::raw_ostream &r_raw_write(llvm::raw_ostream *, const char *, size_t) __asm__("__real___ZN4llvm11raw_ostream5writeEPKcm");
llvm::raw_ostream &ov_raw_write(llvm::raw_ostream *, const char *, size_t) __asm__("__ovr___ZN4llvm11raw_ostream5writeEPKcm");
llvm::raw_ostream &ov_raw_write(llvm::raw_ostream *o, const char *p, size_t n) { return o == &llvm::nulls() ? *o : r_raw_write(o, p, n); }

// the text of an exception is not part of any property: keep symbolic bytes out of native code
void r_rte(void *, const char *) __asm__("_ZNSt13runtime_errorC1EPKc");
void ov_rte(void *p, string const &) __asm__("__ovr___ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void ov_rte(void *p, string const &) { r_rte(p, "error"); }

// llvm::StringMap with keys that may be symbolic: LLVM's own algorithm with the key length as hash value.  Tables that native code filled keep the native hash.
struct SM { llvm::StringMapEntryBase **table; unsigned buckets, items, tombs, item_size; };
static std::set<SM const *> &own_maps() { static std::set<SM const *> *s = new std::set<SM const *>; return *s; }
static bool own_map(SM const *m)
{
	if( m->buckets == 0 ) { own_maps().insert(m); return true; }
	return own_maps().count(m);
}
static bool sm_same(SM const *m, llvm::StringMapEntryBase *e, llvm::StringRef k)
{
	if( e->getKeyLength() != k.size() ) return false;
	const char *p = (const char *)e + m->item_size;
	for( size_t i = 0; i < k.size(); ++i ) if( p[i] != k.data()[i] ) return false;
	return true;
}
unsigned r_sm_lookup(SM *, llvm::StringRef) __asm__("__real___ZN4llvm13StringMapImpl15LookupBucketForENS_9StringRefE");
unsigned ov_sm_lookup(SM *, llvm::StringRef) __asm__("__ovr___ZN4llvm13StringMapImpl15LookupBucketForENS_9StringRefE");
void r_sm_init(SM *, unsigned) __asm__("_ZN4llvm13StringMapImpl4initEj");
unsigned ov_sm_lookup(SM *m, llvm::StringRef k)
{
	if( not own_map(m) ) return r_sm_lookup(m, k);
	if( m->buckets == 0 ) r_sm_init(m, 16);
	unsigned h = (unsigned)k.size() * 2654435761u, b = h & (m->buckets - 1), probe = 1;
	unsigned *hashes = (unsigned *)(m->table + m->buckets + 1);
	int tomb = -1;
	for( ;; ) {
		llvm::StringMapEntryBase *e = m->table[b];
		if( !e ) {
			if( tomb != -1 ) b = tomb;
			hashes[b] = h;
			return b;
		}
		if( e == llvm::StringMapImpl::getTombstoneVal() ) { if( tomb == -1 ) tomb = b; }
		else if( hashes[b] == h and sm_same(m, e, k) ) return b;
		b = (b + probe++) & (m->buckets - 1);
	}
}
int r_sm_find(SM const *, llvm::StringRef) __asm__("__real___ZNK4llvm13StringMapImpl7FindKeyENS_9StringRefE");
int ov_sm_find(SM const *, llvm::StringRef) __asm__("__ovr___ZNK4llvm13StringMapImpl7FindKeyENS_9StringRefE");
int ov_sm_find(SM const *m, llvm::StringRef k)
{
	if( not own_map(m) ) return r_sm_find(m, k);
	if( m->buckets == 0 ) return -1;
	unsigned h = (unsigned)k.size() * 2654435761u, b = h & (m->buckets - 1), probe = 1;
	unsigned *hashes = (unsigned *)(m->table + m->buckets + 1);
	for( ;; ) {
		llvm::StringMapEntryBase *e = m->table[b];
		if( !e ) return -1;
		if( e != llvm::StringMapImpl::getTombstoneVal() and hashes[b] == h and sm_same(m, e, k) ) return b;
		b = (b + probe++) & (m->buckets - 1);
	}
}

// regular expressions: binder's all need the text "std::allocator"; anything else is left alone (texts with it reach the real function)
struct RX;
string r_rx(RX const *, llvm::StringRef, llvm::StringRef, string *) __asm__("__real___ZNK4llvm5Regex3subENS_9StringRefES1_PNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
string ov_rx(RX const *, llvm::StringRef, llvm::StringRef, string *) __asm__("__ovr___ZNK4llvm5Regex3subENS_9StringRefES1_PNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
string ov_rx(RX const *r, llvm::StringRef repl, llvm::StringRef t, string *e)
{
	string s(t.data(), t.size());
	if( s.find("std::allocator") == string::npos ) return s;
	return r_rx(r, repl, t, e);
}

// hash of a byte string: any function of the content is a correct hash; the length keeps it concrete
size_t ov_hash(const void *, size_t n, size_t) __asm__("__ovr___ZSt11_Hash_bytesPKvmm");
size_t ov_hash(const void *, size_t n, size_t) { return n * 0x9e3779b97f4a7c15ull; }
}
