#include <algorithm>
// Native implementation of the harness API: replays a candidate or a sample against the real code.
// usage: replay <values-file> [key=value...]
#include "symapi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>

extern "C" void HARNESS_ENTRY();

static std::map<std::string, uint64_t> g_val;
static std::map<std::string, uint64_t> g_par;
static std::string g_obs, g_scratch;
static bool g_failed = false;
static std::map<std::string, int> g_seen;
static std::map<std::string, struct timespec> g_mt;

static std::string uniq(std::string n)
{
	int k = g_seen[n]++;
	return k ? n + "#" + std::to_string(k) : n;
}
[[noreturn]] static void done(int rc)
{
	printf("OBS ");
	for( unsigned char c : g_obs ) printf("%02x", c);
	printf("\n");
	fflush(stdout);
	fflush(stderr);
	_exit(rc);
}
extern "C" {
uint64_t sym_u64(const char *name, int, uint64_t lo, uint64_t hi)
{
	auto it = g_val.find(uniq(name));
	uint64_t v = it == g_val.end() ? lo : it->second;
	return v < lo or v > hi ? lo : v;
}
void sym_bytes(void *p, uint64_t n, const char *name)
{
	std::string u = uniq(name);
	for( uint64_t i = 0; i < n; ++i ) {
		auto it = g_val.find(u + "[" + std::to_string(i) + "]");
		if( it != g_val.end() ) ((unsigned char *)p)[i] = it->second;
	}
}
void sym_alphabet(const void *p, uint64_t n, const char *chars)
{
	for( uint64_t i = 0; i < n; ++i )
		if( !memchr(chars, ((const unsigned char *)p)[i], strlen(chars)) ) { printf("ASSUME alphabet\n"); done(5); }
}
void sym_assume(int c)
{
	if( !c ) { printf("ASSUME\n"); done(5); }
}
void sym_assert(int c, const char *id)
{
	if( !c ) { printf("ASSERT-FAILED %s\n", id); g_failed = true; }
}
void sym_reach(const char *id) { printf("REACH %s\n", id); }
uint64_t sym_value(uint64_t x) { return x; }
int sym_mode() { return 0; }
void sym_log(const char *s) { if( getenv("SYM_VERBOSE") ) printf("LOG %s\n", s); }
void sym_observe(const void *p, uint64_t n) { g_obs.append((const char *)p, n); }
void sym_end() { done(g_failed ? 1 : 0); }
uint64_t sym_param(const char *name, uint64_t d)
{
	auto it = g_par.find(name);
	return it == g_par.end() ? d : it->second;
}
const char *sym_scratch() { return g_scratch.c_str(); }
static void mkdirs(std::string const &p)
{
	for( size_t i = 1; i < p.size(); ++i )
		if( p[i] == '/' ) mkdir(p.substr(0, i).c_str(), 0755);
}
void vfs_put(const char *path, const char *data, uint64_t n)
{
	if( strncmp(path, g_scratch.c_str(), g_scratch.size()) ) { printf("vfs_put outside of scratch\n"); done(6); }
	mkdirs(path);
	FILE *f = fopen(path, "wb");
	if( !f ) { perror(path); done(6); }
	fwrite(data, 1, n, f);
	fclose(f);
}
int vfs_exists(const char *path) { struct stat st; return stat(path, &st) == 0 and S_ISREG(st.st_mode); }
const char *vfs_get(const char *path, uint64_t *n)
{
	struct stat st;
	if( stat(path, &st) or not S_ISREG(st.st_mode) ) { *n = 0; return nullptr; }
	FILE *f = fopen(path, "rb");
	if( !f ) { *n = 0; return nullptr; }
	std::string *s = new std::string;
	int c;
	while( (c = fgetc(f)) != EOF ) s->push_back(c);
	fclose(f);
	*n = s->size();
	return s->data();
}
static std::vector<std::string> g_list;
static void walk(std::string const &d)
{
	DIR *h = opendir(d.c_str());
	if( !h ) return;
	while( dirent *e = readdir(h) ) {
		std::string n = e->d_name;
		if( n == "." or n == ".." ) continue;
		struct stat st;
		std::string p = d + "/" + n;
		if( lstat(p.c_str(), &st) ) continue;
		if( S_ISDIR(st.st_mode) ) walk(p);
		else g_list.push_back(p);
	}
	closedir(h);
}
// a write is visible natively as a change of the modification time: reset sets it to a fixed old value
void vfs_reset_counters()
{
	g_list.clear();
	walk(g_scratch);
	for( auto &p : g_list ) {
		struct timespec t[2] = {{1000000, 0}, {1000000, 0}};
		utimensat(AT_FDCWD, p.c_str(), t, 0);
		g_mt[p] = t[0];
	}
}
int vfs_writes(const char *path)
{
	struct stat st;
	if( stat(path, &st) ) return 0;
	auto it = g_mt.find(path);
	if( it == g_mt.end() ) return 1;
	return st.st_mtim.tv_sec != it->second.tv_sec;
}
void vfs_mkdir(const char *path)
{
	std::string p = path;
	for( size_t i = p.find('/', 1); ; i = p.find('/', i + 1) ) {
		mkdir(p.substr(0, i).c_str(), 0755);
		if( i == std::string::npos ) break;
	}
}
void vfs_full(const char *path) { (void)!symlink("/dev/full", path); }
void vfs_faults(int, uint64_t size_limit)
{
	signal(SIGXFSZ, SIG_IGN);
	struct rlimit r = {size_limit == ~0ull ? RLIM_INFINITY : size_limit, RLIM_INFINITY};
	setrlimit(RLIMIT_FSIZE, &r);
}
uint64_t vfs_count()
{
	g_list.clear();
	walk(g_scratch);
	std::sort(g_list.begin(), g_list.end());
	return g_list.size();
}
const char *vfs_name(uint64_t i) { return g_list[i].c_str(); }
}
static void on_sig(int s)
{
	char b[64];
	int n = snprintf(b, sizeof b, s == SIGALRM ? "HANG\n" : "SIGNAL %d\n", s);
	(void)!write(1, b, n);
	_exit(s == SIGALRM ? 4 : 3);
}
static void on_term()
{
	printf("UNCAUGHT\n");
	done(3);
}
static void on_exit_() { printf("EXIT\n"); fflush(stdout); }
int main(int argc, char **argv)
{
	g_scratch = getenv("SYM_SCRATCH") ? getenv("SYM_SCRATCH") : "/tmp/sym_scratch";
	for( int i = 2; i < argc; ++i ) {
		std::string a = argv[i];
		size_t e = a.find('=');
		if( e != std::string::npos ) g_par[a.substr(0, e)] = strtoull(a.c_str() + e + 1, 0, 10);
	}
	if( FILE *f = fopen(argv[1], "r") ) {
		char *line = nullptr;
		size_t cap = 0;
		ssize_t n;
		while( (n = getline(&line, &cap, f)) > 0 ) {
			if( line[0] == '#' ) continue;
			char *sp = strrchr(line, ' ');
			if( !sp ) continue;
			*sp = 0;
			g_val[line] = strtoull(sp + 1, 0, 10);
		}
		fclose(f);
	}
	for( int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM} ) signal(s, on_sig);
	std::set_terminate(on_term);
	atexit(on_exit_);
	alarm(getenv("SYM_ALARM") ? atoi(getenv("SYM_ALARM")) : 20);
	HARNESS_ENTRY();
	done(g_failed ? 1 : 0);
}
