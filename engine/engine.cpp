// symex: symbolic executor for LLVM-14 bitcode.
//
//  * every interpreted memory object lives in native process memory; symbolic bytes are kept in a shadow map address -> expression
//  * functions with IR are interpreted, functions without IR are called natively (libclang-cpp, libLLVM, libstdc++, libc)
//  * a branch/pointer/size that depends on symbolic data forks the process (fork(2)) once per feasible outcome; feasibility is decided by Z3
//  * calls to X are redirected to a function named __ovr__X when the program defines one (environment models and AST overlays)
#include "expr.hpp"

#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cxxabi.h>
#include <setjmp.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <errno.h>
#include <poll.h>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;

// ------------------------------------------------------------------------------------------------ shared state
struct AssertStat { char id[96]; volatile u64 checked, proved, failed, unknown, concrete; };
struct Shared {
	volatile int running;       // processes currently executing
	volatile int stop;          // stop requested (deadline)
	volatile u64 paths, forks, queries, sat, unsat, unknown, solver_ns, insts, procs;
	volatile u64 killed_assume, path_errors, hangs, crashes, uncaught, concretized, aborted_deadline, unsupported;
	volatile u64 ncand, nsample, max_vars, max_pc;
	volatile int nreach, nassert;
	char reach[256][96];
	volatile u64 reachc[256];
	AssertStat as[512];
	volatile int lock;
	volatile int nnote;
	char notes[200][200];
	volatile unsigned char fcov[1 << 16];
};
static Shared *G;
static void lockG() { while( __sync_lock_test_and_set(&G->lock, 1) ) usleep(10); }
static void unlockG() { __sync_lock_release(&G->lock); }
static void note(const std::string &s)
{
	lockG();
	int n = G->nnote;
	for( int i = 0; i < n; ++i )
		if( !strncmp(G->notes[i], s.c_str(), 199) ) { unlockG(); return; }
	if( n < 200 ) {
		strncpy(G->notes[n], s.c_str(), 199);
		G->nnote = n + 1;
	}
	unlockG();
}

// ------------------------------------------------------------------------------------------------ options
static std::string O_out = ".", O_entry = "harness_main";
static int O_maxproc = 8;
static double O_timeout = 600;
static u64 O_maxinst = 400000000ull; // instructions of one path
static unsigned O_qrlimit = 400000000u;
static int O_maxcand = 12;
static bool O_verb = false;
static std::string O_scratch = "/tmp/sym_scratch";
static std::map<std::string, u64> g_params;
static u64 O_samples = 40;
static double g_deadline;
static double now()
{
	struct timeval tv;
	gettimeofday(&tv, 0);
	return tv.tv_sec + tv.tv_usec * 1e-6;
}

// ------------------------------------------------------------------------------------------------ path state
static Z3_solver g_solver;
static Model g_model;
static std::vector<E> g_pc;
static u64 g_insts = 0, g_inst_acc = 0;
static std::vector<E> g_obs; // observation bytes recorded by sym_observe
static std::string g_trail; // last notable event, for diagnostics

[[noreturn]] static void path_end(const char *why);

static Z3_lbool check_with(E extra, Model *out)
{
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	Z3_solver_push(g_z3, g_solver);
	Z3_solver_assert(g_z3, g_solver, Z3_mk_eq(g_z3, toZ3(extra), Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1))));
	Z3_lbool r = Z3_solver_check(g_z3, g_solver);
	if( r == Z3_L_TRUE and out ) {
		Z3_model m = Z3_solver_get_model(g_z3, g_solver);
		Z3_model_inc_ref(g_z3, m);
		out->v.assign(g_vars.size(), 0);
		for( size_t i = 0; i < g_vars.size(); ++i ) {
			Z3_ast v = toZ3(mkVar(i, g_vars[i].w)), res;
			if( Z3_model_eval(g_z3, m, v, true, &res) ) {
				uint64_t x = 0;
				Z3_get_numeral_uint64(g_z3, res, &x);
				out->v[i] = x;
			}
		}
		Z3_model_dec_ref(g_z3, m);
	}
	Z3_solver_pop(g_z3, g_solver, 1);
	clock_gettime(CLOCK_MONOTONIC, &t1);
	__sync_fetch_and_add(&G->solver_ns, (t1.tv_sec - t0.tv_sec) * 1000000000ull + t1.tv_nsec - t0.tv_nsec);
	__sync_fetch_and_add(&G->queries, 1);
	if( r == Z3_L_TRUE ) __sync_fetch_and_add(&G->sat, 1);
	else if( r == Z3_L_FALSE ) __sync_fetch_and_add(&G->unsat, 1);
	else {
		__sync_fetch_and_add(&G->unknown, 1);
		note("solver returned unknown");
	}
	return r;
}
static std::unordered_map<E, bool> g_known;
static void add_pc(E c)
{
	if( isC(c) ) return;
	g_known[c] = true;
	g_pc.push_back(c);
	Z3_solver_assert(g_z3, g_solver, Z3_mk_eq(g_z3, toZ3(c), Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1))));
}
static void set_model(const Model &m)
{
	g_model = m;
	++g_epoch;
}
static u64 ev(E e) { return evalE(e, g_model); }

static std::vector<pid_t> g_children;
static bool g_is_root = true;

static void flush_insts()
{
	__sync_fetch_and_add(&G->insts, g_inst_acc);
	g_inst_acc = 0;
}
static bool deadline()
{
	if( G->stop ) return true;
	if( now() > g_deadline ) { G->stop = 1; return true; }
	return false;
}

// fork: returns true in the child
static bool do_fork()
{
	flush_insts();
	fflush(stdout);
	fflush(stderr);
	__sync_fetch_and_add(&G->forks, 1);
	bool parallel = __sync_add_and_fetch(&G->running, 1) <= O_maxproc;
	pid_t p = fork();
	if( p < 0 ) {
		__sync_fetch_and_sub(&G->running, 1);
		note("fork failed");
		G->unsupported = G->unsupported + 1;
		return false;
	}
	if( p == 0 ) {
		g_is_root = false;
		g_children.clear();
		__sync_fetch_and_add(&G->procs, 1);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		return true;
	}
	if( parallel ) g_children.push_back(p);
	else {
		__sync_fetch_and_sub(&G->running, 1); // parent idles while the child runs
		int st;
		while( waitpid(p, &st, 0) < 0 and errno == EINTR ) {}
		if( not(WIFEXITED(st) and WEXITSTATUS(st) == 0) ) {
			__sync_fetch_and_add(&G->path_errors, 1);
			note("child process died: status " + std::to_string(st));
		}
		// child decremented its own slot at exit; take ours again
		__sync_fetch_and_add(&G->running, 1);
	}
	return false;
}
static void reap(bool block)
{
	for( size_t i = 0; i < g_children.size(); ) {
		int st;
		pid_t r = waitpid(g_children[i], &st, block ? 0 : WNOHANG);
		if( r == g_children[i] ) {
			if( not(WIFEXITED(st) and WEXITSTATUS(st) == 0) ) {
				__sync_fetch_and_add(&G->path_errors, 1);
				note("child process died: status " + std::to_string(st));
			}
			g_children.erase(g_children.begin() + i);
		}
		else if( r < 0 and errno != EINTR ) g_children.erase(g_children.begin() + i);
		else ++i;
	}
}

static void write_values(const std::string &file, const Model &m, const char *kind, const char *id, const std::string &detail)
{
	FILE *f = fopen(file.c_str(), "w");
	if( !f ) return;
	fprintf(f, "#kind %s\n#id %s\n#detail %s\n", kind, id, detail.c_str());
	for( size_t i = 0; i < g_vars.size(); ++i ) fprintf(f, "%s %llu\n", g_vars[i].name.c_str(), (unsigned long long)(i < m.v.size() ? m.v[i] : 0));
	fclose(f);
}
static std::map<std::string, int> g_candcount; // per process
static void candidate(const char *kind, const char *id, const Model &m, const std::string &detail = "")
{
	// at most O_maxcand files per assertion id overall
	char key[160];
	snprintf(key, sizeof key, "%s:%s", kind, id);
	lockG();
	AssertStat *a = nullptr;
	for( int i = 0; i < G->nassert; ++i )
		if( !strncmp(G->as[i].id, key, 95) ) a = &G->as[i];
	if( !a and G->nassert < 512 ) {
		a = &G->as[G->nassert];
		strncpy(a->id, key, 95);
		G->nassert = G->nassert + 1;
	}
	u64 n = a ? ++a->failed : 0;
	u64 idx = G->ncand;
	if( a and n <= (u64)O_maxcand ) G->ncand = idx + 1;
	unlockG();
	if( a and n <= (u64)O_maxcand ) write_values(O_out + "/cand_" + std::to_string(idx) + ".txt", m, kind, id, detail);
}
static AssertStat *assert_stat(const char *id)
{
	lockG();
	AssertStat *a = nullptr;
	for( int i = 0; i < G->nassert; ++i )
		if( !strncmp(G->as[i].id, id, 95) ) a = &G->as[i];
	if( !a and G->nassert < 512 ) {
		a = &G->as[G->nassert];
		strncpy(a->id, id, 95);
		G->nassert = G->nassert + 1;
	}
	unlockG();
	return a ? a : &G->as[511];
}

[[noreturn]] static void path_end(const char *why)
{
	flush_insts();
	if( O_verb ) fprintf(stderr, "[%d] path end: %s\n", getpid(), why);
	std::string w = why;
	if( w == "ok" ) {
		__sync_fetch_and_add(&G->paths, 1);
		if( g_vars.size() > G->max_vars ) G->max_vars = g_vars.size();
		if( g_pc.size() > G->max_pc ) G->max_pc = g_pc.size();
		// keep some completed paths as samples: model + observations, for validation of the encoding against the native build
		u64 n = G->paths;
		bool keep = n <= O_samples / 2 or (n * 2654435761u >> 7) % (1 + n / (O_samples / 2)) == 0;
		if( keep and G->nsample < O_samples ) {
			u64 k = __sync_fetch_and_add(&G->nsample, 1);
			if( k < O_samples ) {
				std::string obs;
				for( E e : g_obs ) {
					char b[4];
					snprintf(b, 4, "%02x", (unsigned)ev(e));
					obs += b;
				}
				write_values(O_out + "/sample_" + std::to_string(k) + ".txt", g_model, "sample", "sample", obs);
			}
		}
	}
	else if( w == "assume" ) __sync_fetch_and_add(&G->killed_assume, 1);
	else if( w == "deadline" ) __sync_fetch_and_add(&G->aborted_deadline, 1);
	__sync_fetch_and_sub(&G->running, 1);
	if( g_is_root ) throw 0; // never used for the root: root runs the exploration in a child
	reap(true);
	_exit(0);
}

// decide a symbolic boolean: forks when both outcomes are feasible; returns the outcome of this process
static bool decide(E c)
{
	if( isC(c) ) return c->val;
	if( deadline() ) path_end("deadline");
	if( g_children.size() ) reap(false);
	// facts already decided on this path (expressions are hash-consed)
	auto kn = g_known.find(c);
	if( kn != g_known.end() ) return kn->second;
	E nc = mkNot1(c);
	kn = g_known.find(nc);
	if( kn != g_known.end() ) return not kn->second;
	bool cur = ev(c);
	Model other;
	E neg = cur ? nc : c;
	Z3_lbool r = check_with(neg, &other);
	if( r == Z3_L_FALSE ) g_known[c] = cur;
	if( r == Z3_L_TRUE ) {
		if( do_fork() ) {
			add_pc(neg);
			set_model(other);
			return !cur;
		}
		add_pc(cur ? c : mkNot1(c));
	}
	else if( r == Z3_L_UNDEF ) {
		__sync_fetch_and_add(&G->unsupported, 1);
		add_pc(cur ? c : mkNot1(c));
	}
	return cur;
}
// fork over every feasible value of e (exhaustive), returns the value of this process
static u64 resolve(E e, const char *what, u64 limit = 5000)
{
	if( isC(e) ) return e->val;
	for( u64 n = 0;; ++n ) {
		if( deadline() ) path_end("deadline");
		u64 v = ev(e);
		E eq = mkEq(e, mkConst(v, e->w));
		if( isC(eq) ) return v;
		Model other;
		if( n > limit ) {
			__sync_fetch_and_add(&G->concretized, 1);
			note(std::string("value range cut: ") + what);
			add_pc(eq);
			return v;
		}
		Z3_lbool r = check_with(mkNot1(eq), &other);
		if( r == Z3_L_FALSE ) return v;
		if( r == Z3_L_UNDEF ) {
			__sync_fetch_and_add(&G->unsupported, 1);
			add_pc(eq);
			return v;
		}
		if( do_fork() ) { // child takes the remaining values
			add_pc(mkNot1(eq));
			set_model(other);
			continue;
		}
		add_pc(eq);
		return v;
	}
}
static u64 concretize(E e, const char *what)
{
	if( isC(e) ) return e->val;
	u64 v = ev(e);
	E eq = mkEq(e, mkConst(v, e->w));
	if( !isC(eq) ) {
		Model o;
		if( check_with(mkNot1(eq), &o) != Z3_L_FALSE ) {
			__sync_fetch_and_add(&G->concretized, 1);
			note(std::string("concretized: ") + what);
		}
		add_pc(eq);
	}
	return v;
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct SPage { E b[4096]; };
static std::unordered_map<u64, SPage *> g_shadow;
static unsigned char g_pgfilter[1 << 16];
static bool g_noclear = false;
static inline bool maybe_sym(u64 a, u64 n)
{
	u64 p0 = a >> 12, p1 = (a + n - 1) >> 12;
	if( n == 0 ) return false;
	for( u64 p = p0; p <= p1; ++p )
		if( g_pgfilter[(p ^ (p >> 16)) & 0xffff] ) return true;
	return false;
}
static u64 g_last_page = ~0ull;
static SPage *g_last_sp = nullptr;
static inline SPage *spage(u64 p)
{
	if( p == g_last_page ) return g_last_sp;
	auto it = g_shadow.find(p);
	g_last_page = p;
	g_last_sp = it == g_shadow.end() ? nullptr : it->second;
	return g_last_sp;
}
static inline E sget(u64 a)
{
	if( !g_pgfilter[((a >> 12) ^ (a >> 28)) & 0xffff] ) return nullptr;
	SPage *s = spage(a >> 12);
	return s ? s->b[a & 4095] : nullptr;
}
static void sset(u64 a, E e)
{
	SPage *s = spage(a >> 12);
	if( !s ) {
		if( !e ) return;
		s = (SPage *)calloc(1, sizeof(SPage));
		g_noclear = true;
		g_shadow[a >> 12] = s;
		g_noclear = false;
		g_pgfilter[((a >> 12) ^ (a >> 28)) & 0xffff] = 1;
		g_last_page = a >> 12;
		g_last_sp = s;
	}
	s->b[a & 4095] = e;
}
static inline bool any_sym(u64 a, u64 n)
{
	if( !maybe_sym(a, n) ) return false;
	for( u64 i = 0; i < n; ++i )
		if( sget(a + i) ) return true;
	return false;
}
static inline void sclear(u64 a, u64 n)
{
	if( !maybe_sym(a, n) ) return;
	for( u64 i = 0; i < n; ++i )
		if( sget(a + i) ) sset(a + i, nullptr);
}
static E byteE(u64 a)
{
	E e = sget(a);
	return e ? e : mkConst(*(unsigned char *)a, 8);
}
static void setbyte(u64 a, E e)
{
	if( isC(e) ) {
		*(unsigned char *)a = e->val;
		if( sget(a) ) sset(a, nullptr);
	}
	else {
		*(unsigned char *)a = ev(e);
		sset(a, e);
	}
}
static void smemmove(u64 d, u64 s, u64 n)
{
	if( !n ) return;
	bool ss = any_sym(s, n), ds = any_sym(d, n);
	if( ss ) {
		std::vector<E> t(n);
		for( u64 i = 0; i < n; ++i ) t[i] = sget(s + i);
		memmove((void *)d, (void *)s, n);
		for( u64 i = 0; i < n; ++i )
			if( t[i] or ds ) sset(d + i, t[i]);
	}
	else {
		memmove((void *)d, (void *)s, n);
		if( ds ) sclear(d, n);
	}
}

// ------------------------------------------------------------------------------------------------ values / code
struct Val { u64 c = 0; E e = nullptr; };
// aggregate values: Val.c points to a leaked array of Val

enum Op : uint8_t {
	OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
	OICmp, OFBin, OFCmp, OSelect, OTrunc, OZExt, OSExt, OMove, OFPCast, OSIToFP, OUIToFP, OFPToSI, OFPToUI,
	OAlloca, OLoad, OStore, OLoadAgg, OStoreAgg, OGep, OBr, OCondBr, OSwitch, ORet, ORetVoid, OUnreachable, OCall, OExtractValue, OInsertValue, OLandingPad, OResume, OAtomicRMW, OCmpXchg, OFence, OFNeg, OFreeze, OUnsupported
};

struct Edge { int target; std::vector<std::pair<int, int>> moves; };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; /* value -> edge idx */ int def; std::map<u64, int> m; };
struct GepInfo { std::vector<std::tuple<int, int64_t, unsigned>> idx; };
struct FnCode;
struct CallInfo {
	Function *callee = nullptr; // direct callee
	std::vector<int> args;
	std::vector<Type *> argty;
	std::vector<u64> byval; // byval size or 0
	Type *retty = nullptr;
	bool invoke = false;
	int normal = -1, unwind = -1; // edges
	// resolution cache
	bool resolved = false;
	FnCode *fc = nullptr;
	void *native = nullptr;
	int builtin = -1;
	Intrinsic::ID iid = Intrinsic::not_intrinsic;
	std::string name;
	CallBase *cb = nullptr;
	bool vararg = false;
	bool noreturn = false;
};
struct LPInfo { bool cleanup; std::vector<std::pair<bool, u64>> clauses; /* isCatch, typeinfo address (0 = catch-all) */ std::vector<std::vector<u64>> filters; };
struct Inst {
	Op op;
	uint8_t w = 0; // result/operand width
	uint8_t sub = 0;
	int dst = -1, a = 0, b = 0, c = 0;
	int64_t imm = 0;
	void *x = nullptr;
};
struct FnCode {
	Function *F;
	std::string name;
	int id;
	bool compiled = false;
	std::vector<Inst> code;
	std::vector<Val> consts; // operand index -1-k
	std::vector<Edge> edges;
	int nregs = 0;
	u64 addr = 0; // stub address
	std::string ovr_self; // for __ovr__X: name X
	std::vector<Type *> regty;
};

static Module *M;
static const DataLayout *DL;
static std::unordered_map<Function *, FnCode *> g_fn;
static std::unordered_map<u64, FnCode *> g_addr2fn;
static std::vector<FnCode *> g_fns;
static std::unordered_map<std::string, FnCode *> g_ovr; // X -> __ovr__X
static std::unordered_map<GlobalVariable *, u64> g_gv;
static std::map<std::string, int> g_builtins;

static char *g_stack, *g_stack_end, *g_sp;

[[noreturn]] static void fatal(const std::string &s)
{
	note("unsupported: " + s);
	if( O_verb ) fprintf(stderr, "[%d] unsupported: %s\n", getpid(), s.c_str());
	__sync_fetch_and_add(&G->unsupported, 1);
	path_end("unsupported");
}

// ---------------------------------------------------------------- thunks so that native code can call interpreted functions
extern "C" void symex_thunk_common();
asm(R"(
.text
.globl symex_thunk_common
symex_thunk_common:
  pushq %rbp
  movq %rsp, %rbp
  subq $160, %rsp
  movq %rdi, 0(%rsp)
  movq %rsi, 8(%rsp)
  movq %rdx, 16(%rsp)
  movq %rcx, 24(%rsp)
  movq %r8, 32(%rsp)
  movq %r9, 40(%rsp)
  movsd %xmm0, 48(%rsp)
  movsd %xmm1, 56(%rsp)
  movsd %xmm2, 64(%rsp)
  movsd %xmm3, 72(%rsp)
  movsd %xmm4, 80(%rsp)
  movsd %xmm5, 88(%rsp)
  movsd %xmm6, 96(%rsp)
  movsd %xmm7, 104(%rsp)
  movq %r11, %rdi
  movq %rsp, %rsi
  leaq 16(%rbp), %rdx
  leaq 112(%rsp), %rcx
  call symex_reenter
  movq 112(%rsp), %rax
  movq 120(%rsp), %rdx
  movsd 128(%rsp), %xmm0
  movsd 136(%rsp), %xmm1
  leave
  ret
)");
static char *g_thunks;
static u64 make_thunk(int id)
{
	unsigned char *p = (unsigned char *)g_thunks + (size_t)id * 32;
	// mov r11, imm64 ; mov rax, imm64 ; jmp rax
	p[0] = 0x49; p[1] = 0xbb;
	u64 v = id;
	memcpy(p + 2, &v, 8);
	p[10] = 0x48; p[11] = 0xb8;
	u64 t = (u64)&symex_thunk_common;
	memcpy(p + 12, &t, 8);
	p[20] = 0xff; p[21] = 0xe0;
	return (u64)p;
}

// ---------------------------------------------------------------- native calls
extern "C" void symex_native_call(void *fn, u64 *gpr, double *xmm, u64 *stk, u64 nstk, u64 *ret);
asm(R"(
.text
.globl symex_native_call
.type symex_native_call, @function
symex_native_call:
  .cfi_startproc
  pushq %rbp
  .cfi_def_cfa_offset 16
  .cfi_offset %rbp, -16
  movq %rsp, %rbp
  .cfi_def_cfa_register %rbp
  pushq %rbx
  pushq %r12
  .cfi_offset %rbx, -24
  .cfi_offset %r12, -32
  movq %r9, %rbx
  movq %rdi, %r10
  movq %rsi, %r11
  movq %rdx, %rax
  movq %r8, %r12
  # align: reserve nstk*8 rounded to 16
  leaq 1(%r8), %rdx
  andq $-2, %rdx
  shlq $3, %rdx
  subq %rdx, %rsp
  andq $-16, %rsp
  xorq %rdx, %rdx
1:
  cmpq %r12, %rdx
  jge 2f
  movq (%rcx,%rdx,8), %rdi
  movq %rdi, (%rsp,%rdx,8)
  incq %rdx
  jmp 1b
2:
  movsd 0(%rax), %xmm0
  movsd 8(%rax), %xmm1
  movsd 16(%rax), %xmm2
  movsd 24(%rax), %xmm3
  movsd 32(%rax), %xmm4
  movsd 40(%rax), %xmm5
  movsd 48(%rax), %xmm6
  movsd 56(%rax), %xmm7
  movq 0(%r11), %rdi
  movq 8(%r11), %rsi
  movq 16(%r11), %rdx
  movq 24(%r11), %rcx
  movq 32(%r11), %r8
  movq 40(%r11), %r9
  movl $8, %eax
  call *%r10
  movq %rax, 0(%rbx)
  movq %rdx, 8(%rbx)
  movsd %xmm0, 16(%rbx)
  movsd %xmm1, 24(%rbx)
  leaq -16(%rbp), %rsp
  popq %r12
  popq %rbx
  popq %rbp
  .cfi_def_cfa %rsp, 8
  ret
  .cfi_endproc
.size symex_native_call, .-symex_native_call
)");

// ------------------------------------------------------------------------------------------------ globals and constants
static u64 fn_addr(Function *F);
static u64 global_addr(GlobalVariable *g);
static void init_global(GlobalVariable *g, u64 addr);
static Val const_val(Constant *C);
static void const_to_mem(Constant *C, u64 addr);

static FnCode *get_fn(Function *F)
{
	auto it = g_fn.find(F);
	if( it != g_fn.end() ) return it->second;
	FnCode *f = new FnCode;
	f->F = F;
	f->name = F->getName().str();
	f->id = g_fns.size();
	g_fns.push_back(f);
	g_fn[F] = f;
	if( f->id >= 65536 ) { fprintf(stderr, "too many functions\n"); exit(3); }
	f->addr = make_thunk(f->id);
	g_addr2fn[f->addr] = f;
	if( f->name.compare(0, 7, "__ovr__") == 0 ) f->ovr_self = f->name.substr(7);
	return f;
}
static void *native_sym(const std::string &n)
{
	void *p = dlsym(RTLD_DEFAULT, n.c_str());
	return p;
}
extern "C" void symex_missing() {}
static u64 fn_addr(Function *F)
{
	auto o = g_ovr.find(F->getName().str());
	if( o != g_ovr.end() ) return o->second->addr;
	if( !F->isDeclaration() ) return get_fn(F)->addr;
	void *p = native_sym(F->getName().str());
	if( !p ) {
		if( F->hasExternalWeakLinkage() ) return 0;
		return get_fn(F)->addr; // calling it is an error handled at call time
	}
	return (u64)p;
}
static u64 global_addr(GlobalVariable *g)
{
	auto it = g_gv.find(g);
	if( it != g_gv.end() ) return it->second;
	std::string n = g->getName().str();
	u64 a = 0;
	bool native = false;
	if( n == "__dso_handle" ) { static char dso[16]; a = (u64)dso; }
	else if( g->isDeclaration() ) {
		a = (u64)native_sym(n);
		native = true;
		if( !a ) {
			if( g->hasExternalWeakLinkage() ) { g_gv[g] = 0; return 0; }
			note("missing native global " + n);
			a = (u64)calloc(1, 4096);
		}
	}
	else if( !g->hasLocalLinkage() and g->isWeakForLinker() and !g->isConstant() ) {
		// inline variables / function statics that also exist in the shared libraries: share the native instance
		a = (u64)native_sym(n);
		native = a != 0;
	}
	else if( !g->hasLocalLinkage() and g->isWeakForLinker() and StringRef(n).startswith("_ZTI") ) {
		a = (u64)native_sym(n);
		native = a != 0;
	}
	if( !a ) {
		u64 sz = DL->getTypeAllocSize(g->getValueType());
		void *p = nullptr;
		if( posix_memalign(&p, 64, sz ? sz : 1) ) abort();
		memset(p, 0, sz ? sz : 1);
		a = (u64)p;
	}
	g_gv[g] = a;
	if( !native and g->hasInitializer() ) const_to_mem(g->getInitializer(), a);
	return a;
}
static unsigned tyw(Type *t)
{
	if( t->isIntegerTy() ) return t->getIntegerBitWidth();
	if( t->isPointerTy() ) return 64;
	if( t->isFloatTy() ) return 32;
	if( t->isDoubleTy() ) return 64;
	return 0;
}
static bool isAgg(Type *t) { return t->isStructTy() or t->isArrayTy(); }
static unsigned aggN(Type *t) { return t->isStructTy() ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements(); }
static Type *aggT(Type *t, unsigned i) { return t->isStructTy() ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType(); }
static Val newAgg(unsigned n)
{
	Val v;
	v.c = (u64) new Val[n ? n : 1];
	return v;
}
static Val zero_val(Type *t)
{
	if( isAgg(t) ) {
		Val v = newAgg(aggN(t));
		for( unsigned i = 0; i < aggN(t); ++i ) ((Val *)v.c)[i] = zero_val(aggT(t, i));
		return v;
	}
	return Val();
}
static Val const_val(Constant *C)
{
	Val v;
	if( auto ci = dyn_cast<ConstantInt>(C) ) {
		if( ci->getBitWidth() > 64 ) v.c = ci->getValue().getLoBits(64).getZExtValue();
		else v.c = ci->getZExtValue();
		return v;
	}
	if( isa<ConstantPointerNull>(C) ) return v;
	if( isa<UndefValue>(C) or isa<ConstantAggregateZero>(C) ) return zero_val(C->getType());
	if( auto cf = dyn_cast<ConstantFP>(C) ) {
		v.c = cf->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue();
		return v;
	}
	if( auto f = dyn_cast<Function>(C) ) { v.c = fn_addr(f); return v; }
	if( auto g = dyn_cast<GlobalVariable>(C) ) { v.c = global_addr(g); return v; }
	if( auto al = dyn_cast<GlobalAlias>(C) ) return const_val(al->getAliasee());
	if( isa<ConstantStruct>(C) or isa<ConstantArray>(C) ) {
		unsigned n = C->getNumOperands();
		v = newAgg(n);
		for( unsigned i = 0; i < n; ++i ) ((Val *)v.c)[i] = const_val(cast<Constant>(C->getOperand(i)));
		return v;
	}
	if( auto cd = dyn_cast<ConstantDataSequential>(C) ) {
		unsigned n = cd->getNumElements();
		v = newAgg(n);
		for( unsigned i = 0; i < n; ++i ) ((Val *)v.c)[i] = const_val(cd->getElementAsConstant(i));
		return v;
	}
	if( auto ce = dyn_cast<ConstantExpr>(C) ) {
		auto op = [&](unsigned i) { return const_val(ce->getOperand(i)); };
		unsigned w = tyw(ce->getType());
		switch( ce->getOpcode() ) {
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
			Val x = op(0);
			x.c &= maskw(w);
			return x;
		}
		case Instruction::Trunc: { Val x = op(0); x.c &= maskw(w); return x; }
		case Instruction::ZExt: return op(0);
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			auto *gep = cast<GEPOperator>(ce);
			if( !gep->accumulateConstantOffset(*DL, off) ) { fprintf(stderr, "constant gep\n"); exit(3); }
			v.c = op(0).c + off.getSExtValue();
			return v;
		}
		case Instruction::Add: v.c = (op(0).c + op(1).c) & maskw(w); return v;
		case Instruction::Sub: v.c = (op(0).c - op(1).c) & maskw(w); return v;
		case Instruction::And: v.c = (op(0).c & op(1).c) & maskw(w); return v;
		case Instruction::Or: v.c = (op(0).c | op(1).c) & maskw(w); return v;
		case Instruction::ICmp: {
			u64 a = op(0).c, b = op(1).c;
			switch( ce->getPredicate() ) {
			case CmpInst::ICMP_EQ: v.c = a == b; break;
			case CmpInst::ICMP_NE: v.c = a != b; break;
			case CmpInst::ICMP_UGT: v.c = a > b; break;
			case CmpInst::ICMP_ULT: v.c = a < b; break;
			default: fprintf(stderr, "const icmp\n"); exit(3);
			}
			return v;
		}
		case Instruction::Select: return op(0).c ? op(1) : op(2);
		default:
			errs() << "constexpr: " << *ce << "\n";
			exit(3);
		}
	}
	if( C->getType()->isTokenTy() or C->getType()->isMetadataTy() ) return v;
	return v; // block addresses etc. unsupported: value 0
}
static void const_to_mem(Constant *C, u64 addr)
{
	Type *t = C->getType();
	if( isa<UndefValue>(C) or isa<ConstantAggregateZero>(C) or isa<ConstantPointerNull>(C) ) return;
	if( auto cd = dyn_cast<ConstantDataSequential>(C) ) {
		StringRef raw = cd->getRawDataValues();
		memcpy((void *)addr, raw.data(), raw.size());
		return;
	}
	if( auto cs = dyn_cast<ConstantStruct>(C) ) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for( unsigned i = 0; i < cs->getNumOperands(); ++i ) const_to_mem(cs->getOperand(i), addr + sl->getElementOffset(i));
		return;
	}
	if( auto ca = dyn_cast<ConstantArray>(C) ) {
		u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for( unsigned i = 0; i < ca->getNumOperands(); ++i ) const_to_mem(ca->getOperand(i), addr + i * es);
		return;
	}
	if( auto ci = dyn_cast<ConstantInt>(C) ) {
		if( ci->getBitWidth() > 64 ) {
			memcpy((void *)addr, ci->getValue().getRawData(), DL->getTypeStoreSize(t));
			return;
		}
	}
	if( auto cf = dyn_cast<ConstantFP>(C) ) {
		APInt b = cf->getValueAPF().bitcastToAPInt();
		memcpy((void *)addr, b.getRawData(), DL->getTypeStoreSize(t) > 16 ? 16 : (size_t)DL->getTypeStoreSize(t));
		return;
	}
	Val v = const_val(C);
	memcpy((void *)addr, &v.c, DL->getTypeStoreSize(t));
}

// ------------------------------------------------------------------------------------------------ compile functions
struct Compiler {
	FnCode *f;
	std::unordered_map<const Value *, int> reg;
	std::unordered_map<const Value *, int> cst;
	std::unordered_map<const BasicBlock *, int> bbpc;
	std::vector<std::pair<int, const BasicBlock *>> fix; // edges to patch
	int newreg(const Value *v)
	{
		int r = f->nregs++;
		reg[v] = r;
		f->regty.push_back(v->getType());
		return r;
	}
	int operand(const Value *v)
	{
		auto it = reg.find(v);
		if( it != reg.end() ) return it->second;
		if( auto c = dyn_cast<Constant>(v) ) {
			auto k = cst.find(v);
			if( k != cst.end() ) return k->second;
			f->consts.push_back(const_val(const_cast<Constant *>(c)));
			int id = -(int)f->consts.size();
			cst[v] = id;
			return id;
		}
		f->consts.push_back(Val());
		return -(int)f->consts.size();
	}
	int edge(const BasicBlock *from, const BasicBlock *to)
	{
		Edge e;
		e.target = -1;
		for( auto &phi : to->phis() ) e.moves.push_back({reg[&phi], operand(phi.getIncomingValueForBlock(from))});
		f->edges.push_back(e);
		fix.push_back({(int)f->edges.size() - 1, to});
		return f->edges.size() - 1;
	}
	void compile();
};
static u64 eh_typeid(u64 ti) { return ti; } // selector = low 31 bits of the typeinfo address, see sel_of
static u64 sel_of(u64 ti)
{
	static std::map<u64, u64> ids;
	auto it = ids.find(ti);
	if( it != ids.end() ) return it->second;
	u64 n = ids.size() + 1;
	ids[ti] = n;
	return n;
}
void Compiler::compile()
{
	Function &F = *f->F;
	for( auto &a : F.args() ) newreg(&a);
	for( auto &bb : F )
		for( auto &i : bb )
			if( !i.getType()->isVoidTy() ) newreg(&i);
	for( auto &bb : F ) {
		bbpc[&bb] = f->code.size();
		for( auto &I : bb ) {
			if( isa<PHINode>(I) ) continue;
			Inst n;
			n.op = OUnsupported;
			if( !I.getType()->isVoidTy() ) n.dst = reg[&I];
			n.w = tyw(I.getType());
			unsigned opc = I.getOpcode();
			auto O = [&](unsigned k) { return operand(I.getOperand(k)); };
			bool big = (I.getType()->isIntegerTy() and I.getType()->getIntegerBitWidth() > 64) or I.getType()->isX86_FP80Ty() or I.getType()->isVectorTy();
			for( auto &o : I.operands() ) {
				Type *t = o->getType();
				if( (t->isIntegerTy() and t->getIntegerBitWidth() > 64) or t->isX86_FP80Ty() or t->isVectorTy() ) big = true;
			}
			if( big and !isa<CallBase>(I) ) {
				std::string s;
				raw_string_ostream os(s);
				I.print(os);
				n.x = new std::string(s);
				f->code.push_back(n);
				continue;
			}
			switch( opc ) {
			case Instruction::Add: n.op = OAdd; n.a = O(0); n.b = O(1); break;
			case Instruction::Sub: n.op = OSub; n.a = O(0); n.b = O(1); break;
			case Instruction::Mul: n.op = OMul; n.a = O(0); n.b = O(1); break;
			case Instruction::UDiv: n.op = OUDiv; n.a = O(0); n.b = O(1); break;
			case Instruction::SDiv: n.op = OSDiv; n.a = O(0); n.b = O(1); break;
			case Instruction::URem: n.op = OURem; n.a = O(0); n.b = O(1); break;
			case Instruction::SRem: n.op = OSRem; n.a = O(0); n.b = O(1); break;
			case Instruction::And: n.op = OAnd; n.a = O(0); n.b = O(1); break;
			case Instruction::Or: n.op = OOr; n.a = O(0); n.b = O(1); break;
			case Instruction::Xor: n.op = OXor; n.a = O(0); n.b = O(1); break;
			case Instruction::Shl: n.op = OShl; n.a = O(0); n.b = O(1); break;
			case Instruction::LShr: n.op = OLShr; n.a = O(0); n.b = O(1); break;
			case Instruction::AShr: n.op = OAShr; n.a = O(0); n.b = O(1); break;
			case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
				n.op = OFBin; n.sub = opc; n.a = O(0); n.b = O(1); break;
			case Instruction::FNeg: n.op = OFNeg; n.a = O(0); break;
			case Instruction::ICmp:
				n.op = OICmp; n.sub = cast<ICmpInst>(I).getPredicate(); n.a = O(0); n.b = O(1); n.w = tyw(I.getOperand(0)->getType()); break;
			case Instruction::FCmp:
				n.op = OFCmp; n.sub = cast<FCmpInst>(I).getPredicate(); n.a = O(0); n.b = O(1); n.w = tyw(I.getOperand(0)->getType()); break;
			case Instruction::Select: n.op = OSelect; n.a = O(0); n.b = O(1); n.c = O(2); n.imm = isAgg(I.getType()) or I.getType()->isFloatingPointTy(); break;
			case Instruction::Trunc: n.op = OTrunc; n.a = O(0); break;
			case Instruction::ZExt: n.op = OZExt; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::SExt: n.op = OSExt; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::BitCast: case Instruction::AddrSpaceCast: n.op = OMove; n.a = O(0); break;
			case Instruction::PtrToInt: case Instruction::IntToPtr: {
				unsigned fw = tyw(I.getOperand(0)->getType());
				if( n.w < fw ) n.op = OTrunc;
				else if( n.w > fw ) { n.op = OZExt; n.sub = fw; }
				else n.op = OMove;
				n.a = O(0);
				break;
			}
			case Instruction::FPTrunc: case Instruction::FPExt: n.op = OFPCast; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::SIToFP: n.op = OSIToFP; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::UIToFP: n.op = OUIToFP; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::FPToSI: n.op = OFPToSI; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::FPToUI: n.op = OFPToUI; n.a = O(0); n.sub = tyw(I.getOperand(0)->getType()); break;
			case Instruction::Freeze: n.op = OMove; n.a = O(0); break;
			case Instruction::Alloca: {
				auto &A = cast<AllocaInst>(I);
				n.op = OAlloca;
				n.imm = DL->getTypeAllocSize(A.getAllocatedType());
				n.a = operand(A.getArraySize());
				n.b = std::max<unsigned>(16, A.getAlign().value());
				break;
			}
			case Instruction::Load:
				n.a = O(0);
				if( isAgg(I.getType()) ) { n.op = OLoadAgg; n.x = I.getType(); }
				else { n.op = OLoad; n.imm = DL->getTypeStoreSize(I.getType()); }
				break;
			case Instruction::Store: {
				Type *t = I.getOperand(0)->getType();
				n.a = O(0); n.b = O(1);
				n.w = tyw(t);
				if( isAgg(t) ) { n.op = OStoreAgg; n.x = t; }
				else { n.op = OStore; n.imm = DL->getTypeStoreSize(t); }
				break;
			}
			case Instruction::GetElementPtr: {
				n.op = OGep;
				n.a = O(0);
				auto *gi = new GepInfo;
				int64_t off = 0;
				for( auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it ) {
					Value *idx = it.getOperand();
					if( StructType *st = it.getStructTypeOrNull() ) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					else {
						int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
						if( auto ci = dyn_cast<ConstantInt>(idx) ) off += ci->getSExtValue() * sz;
						else gi->idx.push_back(std::make_tuple(operand(idx), sz, tyw(idx->getType())));
					}
				}
				n.imm = off;
				if( gi->idx.empty() ) { delete gi; gi = nullptr; }
				n.x = gi;
				break;
			}
			case Instruction::Br: {
				auto &B = cast<BranchInst>(I);
				if( B.isConditional() ) {
					n.op = OCondBr;
					n.a = operand(B.getCondition());
					n.b = edge(&bb, B.getSuccessor(0));
					n.c = edge(&bb, B.getSuccessor(1));
				}
				else { n.op = OBr; n.a = edge(&bb, B.getSuccessor(0)); }
				break;
			}
			case Instruction::Switch: {
				auto &S = cast<SwitchInst>(I);
				n.op = OSwitch;
				n.a = operand(S.getCondition());
				n.w = tyw(S.getCondition()->getType());
				auto *si = new SwitchInfo;
				for( auto &c : S.cases() ) {
					int e = edge(&bb, c.getCaseSuccessor());
					si->cases.push_back({c.getCaseValue()->getZExtValue(), e});
					si->m[c.getCaseValue()->getZExtValue()] = e;
				}
				si->def = edge(&bb, S.getDefaultDest());
				n.x = si;
				break;
			}
			case Instruction::Ret:
				if( I.getNumOperands() ) { n.op = ORet; n.a = O(0); }
				else n.op = ORetVoid;
				break;
			case Instruction::Unreachable: n.op = OUnreachable; break;
			case Instruction::ExtractValue: {
				n.op = OExtractValue;
				n.a = O(0);
				n.x = new std::vector<unsigned>(cast<ExtractValueInst>(I).idx_begin(), cast<ExtractValueInst>(I).idx_end());
				break;
			}
			case Instruction::InsertValue: {
				n.op = OInsertValue;
				n.a = O(0); n.b = O(1);
				auto *v = new std::pair<Type *, std::vector<unsigned>>(I.getType(), std::vector<unsigned>(cast<InsertValueInst>(I).idx_begin(), cast<InsertValueInst>(I).idx_end()));
				n.x = v;
				break;
			}
			case Instruction::LandingPad: {
				auto &L = cast<LandingPadInst>(I);
				n.op = OLandingPad;
				auto *li = new LPInfo;
				li->cleanup = L.isCleanup();
				for( unsigned k = 0; k < L.getNumClauses(); ++k ) {
					if( L.isCatch(k) ) li->clauses.push_back({true, const_val(L.getClause(k)).c});
					else {
						std::vector<u64> fl;
						Constant *c = L.getClause(k);
						for( unsigned q = 0; q < c->getNumOperands(); ++q ) fl.push_back(const_val(cast<Constant>(c->getOperand(q))).c);
						li->filters.push_back(fl);
						li->clauses.push_back({false, li->filters.size() - 1});
					}
				}
				n.x = li;
				break;
			}
			case Instruction::Resume: n.op = OResume; n.a = O(0); break;
			case Instruction::Fence: n.op = OFence; break;
			case Instruction::AtomicRMW: {
				auto &R = cast<AtomicRMWInst>(I);
				n.op = OAtomicRMW; n.a = operand(R.getPointerOperand()); n.b = operand(R.getValOperand()); n.sub = R.getOperation(); n.imm = n.w / 8;
				break;
			}
			case Instruction::AtomicCmpXchg: {
				auto &R = cast<AtomicCmpXchgInst>(I);
				n.op = OCmpXchg; n.a = operand(R.getPointerOperand()); n.b = operand(R.getCompareOperand()); n.c = operand(R.getNewValOperand()); n.w = tyw(R.getCompareOperand()->getType()); n.imm = n.w / 8;
				break;
			}
			case Instruction::Call: case Instruction::Invoke: {
				auto &C = cast<CallBase>(I);
				n.op = OCall;
				auto *ci = new CallInfo;
				ci->cb = &C;
				ci->callee = C.getCalledFunction();
				if( !ci->callee ) {
					Value *cv = C.getCalledOperand()->stripPointerCasts();
					if( auto al = dyn_cast<GlobalAlias>(cv) ) cv = al->getAliasee()->stripPointerCasts();
					if( auto fn = dyn_cast<Function>(cv) ) ci->callee = fn;
					else n.a = operand(C.getCalledOperand());
				}
				if( ci->callee ) { ci->iid = ci->callee->getIntrinsicID(); ci->name = ci->callee->getName().str(); }
				ci->retty = C.getType();
				ci->vararg = C.getFunctionType()->isVarArg();
				ci->noreturn = C.doesNotReturn();
				for( unsigned k = 0; k < C.arg_size(); ++k ) {
					Value *av = C.getArgOperand(k);
					if( av->getType()->isMetadataTy() ) { ci->args.push_back(0); ci->argty.push_back(nullptr); ci->byval.push_back(0); continue; }
					ci->args.push_back(operand(av));
					ci->argty.push_back(av->getType());
					ci->byval.push_back(C.isByValArgument(k) ? (u64)DL->getTypeAllocSize(C.getParamByValType(k)) : 0);
				}
				if( auto *inv = dyn_cast<InvokeInst>(&C) ) {
					ci->invoke = true;
					ci->normal = edge(&bb, inv->getNormalDest());
					ci->unwind = edge(&bb, inv->getUnwindDest());
				}
				if( ci->callee and ci->iid != Intrinsic::not_intrinsic and (ci->name.compare(0, 8, "llvm.dbg") == 0 or ci->name.compare(0, 13, "llvm.lifetime") == 0 or ci->iid == Intrinsic::assume or ci->name.compare(0, 17, "llvm.experimental") == 0) ) continue;
				n.x = ci;
				break;
			}
			default: {
				std::string s;
				raw_string_ostream os(s);
				I.print(os);
				n.x = new std::string(s);
			}
			}
			f->code.push_back(n);
		}
	}
	for( auto &p : fix ) f->edges[p.first].target = bbpc[p.second];
	f->compiled = true;
}
static void ensure(FnCode *f)
{
	if( f->compiled ) return;
	Compiler c;
	c.f = f;
	c.compile();
}

// ------------------------------------------------------------------------------------------------ interpreter
struct Frame {
	FnCode *f;
	int pc;
	Val *regs;
	char *sp0;
	Inst *callsite; // in the caller
};
static std::vector<Frame> g_frames;
static std::vector<Val> g_regs;
static Val *g_regbase, *g_regtop, *g_reglimit;

struct Exc { u64 obj = 0; u64 ti = 0; u64 dtor = 0; bool native = false; };
static std::vector<Exc> g_caught; // stack of caught exceptions
static std::map<u64, Exc> g_exc; // by token (object address)
static std::vector<std::exception_ptr> g_keep;
static Exc g_inflight;
static bool g_throwing = false;

static Val run(size_t base);
static bool is_fn_addr(u64 a) { return a >= (u64)g_thunks and a < (u64)g_thunks + 65536 * 32; }

static inline E vE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val mkV(E e)
{
	Val v;
	if( isC(e) ) v.c = e->val;
	else v.e = e;
	return v;
}
static u64 addr_of(Val &v, const char *what)
{
	if( v.e ) {
		u64 a = resolve(v.e, what);
		v.c = a;
		v.e = nullptr;
	}
	return v.c;
}
static Val load_mem(u64 a, unsigned n, unsigned w)
{
	Val v;
	if( maybe_sym(a, n) and any_sym(a, n) ) {
		E e = byteE(a);
		for( unsigned i = 1; i < n; ++i ) e = mkConcat(byteE(a + i), e);
		if( w < n * 8 ) e = mkExtract(e, 0, w);
		return mkV(e);
	}
	switch( n ) {
	case 1: v.c = *(uint8_t *)a; break;
	case 2: v.c = *(uint16_t *)a; break;
	case 4: v.c = *(uint32_t *)a; break;
	case 8: v.c = *(uint64_t *)a; break;
	default: memcpy(&v.c, (void *)a, n);
	}
	if( w < 64 ) v.c &= maskw(w);
	return v;
}
static void store_mem(u64 a, const Val &v, unsigned n, unsigned w)
{
	if( v.e ) {
		E e = v.e;
		if( e->w < n * 8 ) e = mkZExt(e, n * 8);
		for( unsigned i = 0; i < n; ++i ) setbyte(a + i, mkExtract(e, i * 8, 8));
		return;
	}
	switch( n ) {
	case 1: *(uint8_t *)a = v.c; break;
	case 2: *(uint16_t *)a = v.c; break;
	case 4: *(uint32_t *)a = v.c; break;
	case 8: *(uint64_t *)a = v.c; break;
	default: memcpy((void *)a, &v.c, n);
	}
	sclear(a, n);
}
static Val load_ty(u64 a, Type *t)
{
	if( isAgg(t) ) {
		Val v = newAgg(aggN(t));
		for( unsigned i = 0; i < aggN(t); ++i ) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(aggT(t, i));
			((Val *)v.c)[i] = load_ty(a + off, aggT(t, i));
		}
		return v;
	}
	return load_mem(a, DL->getTypeStoreSize(t), tyw(t));
}
static void store_ty(u64 a, const Val &v, Type *t)
{
	if( isAgg(t) ) {
		for( unsigned i = 0; i < aggN(t); ++i ) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(aggT(t, i));
			store_ty(a + off, ((Val *)v.c)[i], aggT(t, i));
		}
		return;
	}
	store_mem(a, v, DL->getTypeStoreSize(t), tyw(t));
}
static u64 salloca(u64 n, u64 align)
{
	u64 p = ((u64)g_sp + align - 1) & ~(align - 1);
	if( p + n > (u64)g_stack_end ) {
		candidate("crash", "stack-overflow", g_model, "interpreted stack exhausted");
		__sync_fetch_and_add(&G->crashes, 1);
		path_end("stack overflow");
	}
	g_sp = (char *)(p + n);
	sclear(p, n);
	return p;
}

static std::string cstr(u64 a)
{
	std::string r;
	for( ; *(char *)a; ++a ) r.push_back(sget(a) ? (char)ev(sget(a)) : *(char *)a);
	return r;
}

static void push_frame(FnCode *f, const std::vector<Val> &args, Inst *callsite)
{
	ensure(f);
	if( !G->fcov[f->id] ) G->fcov[f->id] = 1;
	Frame fr;
	fr.f = f;
	fr.pc = 0;
	fr.regs = g_regtop;
	fr.sp0 = g_sp;
	fr.callsite = callsite;
	g_regtop += f->nregs;
	if( g_regtop > g_reglimit or g_frames.size() > 60000 ) {
		std::string bt;
		for( size_t i = g_frames.size(); i-- > 0 and g_frames.size() - i < 30; ) bt += " < " + g_frames[i].f->name;
		if( O_verb ) fprintf(stderr, "depth %zu regs %zu: %s\n", g_frames.size(), (size_t)(g_regtop - g_regbase), bt.c_str());
		candidate("crash", "stack-overflow", g_model, "call depth exhausted in " + f->name + bt);
		__sync_fetch_and_add(&G->crashes, 1);
		path_end("stack overflow");
	}
	for( size_t i = 0; i < args.size() and (int)i < f->nregs; ++i ) fr.regs[i] = args[i];
	g_frames.push_back(fr);
}
static void pop_frame()
{
	Frame &fr = g_frames.back();
	g_regtop = fr.regs;
	g_sp = fr.sp0;
	g_frames.pop_back();
}

// ---- builtins (symbolic-aware library functions and the harness interface)
enum {
	B_memcpy, B_memmove, B_memset, B_memcmp, B_bcmp, B_memchr, B_strlen, B_malloc, B_calloc, B_realloc, B_free, B_new, B_delete,
	B_isalnum, B_isalpha, B_isdigit, B_isspace, B_isupper, B_islower, B_isxdigit, B_ispunct, B_tolower, B_toupper, B_strcmp, B_strncmp,
	B_cxa_throw, B_cxa_begin_catch, B_cxa_end_catch, B_cxa_rethrow, B_cxa_get_exception_ptr, B_unwind_resume, B_cxa_atexit, B_exit, B_abort, B_assert_fail, B_terminate,
	B_sym_u64, B_sym_bytes, B_sym_assume, B_sym_assert, B_sym_reach, B_sym_value, B_sym_mode, B_sym_log, B_sym_observe, B_sym_assert_fail, B_sym_end, B_sym_is, B_sym_possible, B_sym_alphabet, B_sym_param, B_sym_scratch
};
static void init_builtins()
{
	std::map<std::string, int> m = {
		{"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_bcmp}, {"memchr", B_memchr}, {"strlen", B_strlen}, {"malloc", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free},
		{"_Znwm", B_new}, {"_Znam", B_new}, {"_ZnwmSt11align_val_t", B_new}, {"_ZnwmRKSt9nothrow_t", B_new}, {"_ZnamRKSt9nothrow_t", B_new}, {"_ZdlPv", B_delete}, {"_ZdlPvm", B_delete}, {"_ZdaPv", B_delete}, {"_ZdaPvm", B_delete}, {"_ZdlPvmSt11align_val_t", B_delete},
		{"isalnum", B_isalnum}, {"isalpha", B_isalpha}, {"isdigit", B_isdigit}, {"isspace", B_isspace}, {"isupper", B_isupper}, {"islower", B_islower}, {"isxdigit", B_isxdigit}, {"ispunct", B_ispunct}, {"tolower", B_tolower}, {"toupper", B_toupper},
		{"strcmp", B_strcmp}, {"strncmp", B_strncmp},
		{"__cxa_throw", B_cxa_throw}, {"__cxa_begin_catch", B_cxa_begin_catch}, {"__cxa_end_catch", B_cxa_end_catch}, {"__cxa_rethrow", B_cxa_rethrow}, {"__cxa_get_exception_ptr", B_cxa_get_exception_ptr}, {"_Unwind_Resume", B_unwind_resume},
		{"__cxa_atexit", B_cxa_atexit}, {"exit", B_exit}, {"_exit", B_exit}, {"abort", B_abort}, {"__assert_fail", B_assert_fail}, {"_ZSt9terminatev", B_terminate},
		{"sym_u64", B_sym_u64}, {"sym_bytes", B_sym_bytes}, {"sym_assume", B_sym_assume}, {"sym_assert", B_sym_assert}, {"sym_reach", B_sym_reach}, {"sym_value", B_sym_value}, {"sym_mode", B_sym_mode}, {"sym_log", B_sym_log}, {"sym_observe", B_sym_observe}, {"sym_end", B_sym_end}, {"sym_is_symbolic", B_sym_is}, {"sym_possible", B_sym_possible}, {"sym_alphabet", B_sym_alphabet}, {"sym_param", B_sym_param}, {"sym_scratch", B_sym_scratch},
	};
	g_builtins = m;
}

static u64 ctypeset(int (*fn)(int), E c, Val &out)
{
	// class membership of the low byte as a disjunction of ranges; values outside 0..255 (negative chars) are not members, like glibc's C locale
	E r = mkConst(0, 1);
	int i = 0;
	while( i < 256 ) {
		if( !fn(i) ) { ++i; continue; }
		int j = i;
		while( j < 256 and fn(j) ) ++j;
		E in = mkBin(KAnd, mkNot1(mkBin(KUlt, c, mkConst(i, c->w))), mkBin(KUlt, c, mkConst(j, c->w)));
		if( j == i + 1 ) in = mkEq(c, mkConst(i, c->w));
		r = mkBin(KOr, r, in);
		i = j;
	}
	out = mkV(mkZExt(r, 32));
	return 0;
}

static bool g_do_throw; // set by a builtin to request unwinding
[[noreturn]] static void finish_abnormal(const char *kind, const std::string &detail)
{
	candidate(kind, kind, g_model, detail);
	if( std::string(kind) == "uncaught" ) __sync_fetch_and_add(&G->uncaught, 1);
	else __sync_fetch_and_add(&G->crashes, 1);
	path_end(kind);
}

static std::string uniq_name(const std::string &n);
static std::string symname(u64 p) { return uniq_name(cstr(p)); }
static std::map<std::string, int> g_names;
static std::string uniq_name(const std::string &n)
{
	int k = g_names[n]++;
	return k ? n + "#" + std::to_string(k) : n;
}
static E new_var(const std::string &name, unsigned w)
{
	g_vars.push_back({name, w});
	g_model.v.resize(g_vars.size(), 0);
	++g_epoch;
	return mkVar(g_vars.size() - 1, w);
}

// returns true when handled
static void builtin(int b, std::vector<Val> &a, Val &r, CallInfo *ci)
{
	switch( b ) {
	case B_memcpy: case B_memmove: {
		u64 d = addr_of(a[0], "memcpy dst"), s = addr_of(a[1], "memcpy src"), n = addr_of(a[2], "memcpy size");
		smemmove(d, s, n);
		r.c = d;
		return;
	}
	case B_memset: {
		u64 d = addr_of(a[0], "memset dst"), n = addr_of(a[2], "memset size");
		if( a[1].e ) {
			E e = mkExtract(a[1].e, 0, 8);
			for( u64 i = 0; i < n; ++i ) setbyte(d + i, e);
		}
		else {
			memset((void *)d, (int)a[1].c, n);
			sclear(d, n);
		}
		r.c = d;
		return;
	}
	case B_memcmp: case B_bcmp: {
		u64 x = addr_of(a[0], "memcmp"), y = addr_of(a[1], "memcmp"), n = addr_of(a[2], "memcmp size");
		if( n == 0 ) return;
		if( !any_sym(x, n) and !any_sym(y, n) ) {
			int q = memcmp((void *)x, (void *)y, n);
			r.c = (u32)(q < 0 ? -1 : q > 0);
			return;
		}
		E res = mkConst(0, 32);
		for( u64 i = n; i-- > 0; ) {
			E p = byteE(x + i), q = byteE(y + i);
			E eq = mkEq(p, q);
			if( isC(eq) and eq->val ) continue;
			E lt = b == B_bcmp ? mkConst(1, 32) : mkIte(mkBin(KUlt, p, q), mkConst(0xffffffff, 32), mkConst(1, 32));
			res = mkIte(eq, res, lt);
		}
		r = mkV(res);
		return;
	}
	case B_strcmp: case B_strncmp: {
		u64 x = addr_of(a[0], "strcmp"), y = addr_of(a[1], "strcmp");
		u64 n = b == B_strncmp ? addr_of(a[2], "strncmp size") : ~0ull;
		for( u64 i = 0; i < n; ++i ) {
			E p = byteE(x + i), q = byteE(y + i);
			if( !decide(mkEq(p, q)) ) {
				r.c = decide(mkBin(KUlt, p, q)) ? 0xffffffffu : 1;
				return;
			}
			if( decide(mkEq(p, mkConst(0, 8))) ) return;
		}
		return;
	}
	case B_memchr: {
		u64 x = addr_of(a[0], "memchr"), n = addr_of(a[2], "memchr size");
		E c = mkExtract(vE(a[1], 32), 0, 8);
		if( isC(c) and !any_sym(x, n) ) {
			r.c = (u64)memchr((void *)x, (int)c->val, n);
			return;
		}
		for( u64 i = 0; i < n; ++i )
			if( decide(mkEq(byteE(x + i), c)) ) {
				r.c = x + i;
				return;
			}
		r.c = 0;
		return;
	}
	case B_strlen: {
		u64 x = addr_of(a[0], "strlen");
		u64 i = 0;
		for( ;; ++i ) {
			E e = sget(x + i);
			if( e ) {
				if( decide(mkEq(e, mkConst(0, 8))) ) break;
			}
			else if( !*(char *)(x + i) ) break;
		}
		r.c = i;
		return;
	}
	case B_malloc: case B_new: {
		u64 n = addr_of(a[0], "allocation size");
		if( n > (1ull << 32) ) {
			if( b == B_new ) { try { throw std::bad_alloc(); } catch( ... ) {
				std::exception_ptr ep = std::current_exception();
				g_keep.push_back(ep);
				Exc x; x.obj = *(u64 *)&ep; x.ti = (u64)abi::__cxa_current_exception_type(); x.native = true;
				g_inflight = x; g_do_throw = true; return; } }
			r.c = 0;
			return;
		}
		u64 align = b == B_new and ci and ci->name == "_ZnwmSt11align_val_t" ? a[1].c : 16;
		void *p = nullptr;
		if( align > 16 ) { if( posix_memalign(&p, align, n ? n : 1) ) p = nullptr; }
		else p = malloc(n ? n : 1);
		r.c = (u64)p;
		sclear(r.c, n);
		return;
	}
	case B_calloc: {
		u64 n = addr_of(a[0], "calloc") * addr_of(a[1], "calloc");
		r.c = (u64)calloc(1, n ? n : 1);
		sclear(r.c, n);
		return;
	}
	case B_realloc: {
		u64 p = addr_of(a[0], "realloc"), n = addr_of(a[1], "realloc");
		u64 q = (u64)malloc(n ? n : 1);
		sclear(q, n);
		if( p ) {
			extern size_t malloc_usable_size_(void *);
			u64 old = malloc_usable_size_((void *)p);
			smemmove(q, p, old < n ? old : n);
			free((void *)p);
		}
		r.c = q;
		return;
	}
	case B_free: case B_delete: {
		u64 p = addr_of(a[0], "free");
		if( p ) {
			extern size_t malloc_usable_size_(void *);
			sclear(p, malloc_usable_size_((void *)p));
		}
		free((void *)p);
		return;
	}
#define CT(X) case B_##X: { if( !a[0].e ) { r.c = (u32)(X((int)a[0].c) ? 1 : 0); if( (int)a[0].c < -1 or (int)a[0].c > 255 ) r.c = 0; } else ctypeset(X, vE(a[0], 32), r); return; }
	CT(isalnum) CT(isalpha) CT(isdigit) CT(isspace) CT(isupper) CT(islower) CT(isxdigit) CT(ispunct)
	case B_tolower: case B_toupper: {
		E c = vE(a[0], 32);
		int lo = b == B_tolower ? 'A' : 'a';
		E in = mkBin(KAnd, mkNot1(mkBin(KUlt, c, mkConst(lo, 32))), mkBin(KUlt, c, mkConst(lo + 26, 32)));
		r = mkV(mkIte(in, mkBin(KXor, c, mkConst(32, 32)), c));
		return;
	}
	case B_cxa_throw: {
		Exc x;
		x.obj = a[0].c; x.ti = a[1].c; x.dtor = a[2].c;
		g_inflight = x;
		g_do_throw = true;
		return;
	}
	case B_cxa_rethrow: {
		if( g_caught.empty() ) finish_abnormal("abort", "rethrow without exception");
		g_inflight = g_caught.back();
		g_do_throw = true;
		return;
	}
	case B_cxa_begin_catch: {
		auto it = g_exc.find(a[0].c);
		if( it != g_exc.end() ) g_caught.push_back(it->second);
		r.c = a[0].c;
		return;
	}
	case B_cxa_get_exception_ptr: r.c = a[0].c; return;
	case B_cxa_end_catch:
		if( g_caught.size() ) g_caught.pop_back();
		return;
	case B_unwind_resume: {
		auto it = g_exc.find(a[0].c);
		if( it == g_exc.end() ) fatal("resume of an unknown exception");
		g_inflight = it->second;
		g_do_throw = true;
		return;
	}
	case B_cxa_atexit: r.c = 0; return;
	case B_exit: finish_abnormal("exit", "exit(" + std::to_string((int)a[0].c) + ")");
	case B_abort: finish_abnormal("abort", "abort()");
	case B_terminate: finish_abnormal("abort", "std::terminate()");
	case B_assert_fail: finish_abnormal("abort", "assertion failed: " + cstr(a[0].c));
	case B_sym_u64: {
		std::string n = symname(a[0].c);
		unsigned w = a[1].c;
		E v = new_var(n, w);
		// range [lo, hi]
		u64 lo = a[2].c, hi = a[3].c;
		g_model.v[v->aux] = lo;
		++g_epoch;
		if( lo > 0 ) add_pc(mkNot1(mkBin(KUlt, v, mkConst(lo, w))));
		if( hi < maskw(w) ) add_pc(mkNot1(mkBin(KUlt, mkConst(hi, w), v)));
		r = mkV(mkZExt(v, 64));
		return;
	}
	case B_sym_bytes: {
		u64 p = a[0].c, n = a[1].c;
		std::string nm = symname(a[2].c);
		for( u64 i = 0; i < n; ++i ) {
			E v = new_var(nm + "[" + std::to_string(i) + "]", 8);
			g_model.v[v->aux] = *(unsigned char *)(p + i); // current content is the first model
			++g_epoch;
			setbyte(p + i, v);
		}
		return;
	}
	case B_sym_assume: {
		E c = mkExtract(vE(a[0], 32), 0, 1);
		if( ci and ci->argty.size() and tyw(ci->argty[0]) == 1 ) c = vE(a[0], 1);
		else c = mkNot1(mkEq(vE(a[0], 32), mkConst(0, 32)));
		if( isC(c) ) {
			if( !c->val ) path_end("assume");
			return;
		}
		if( ev(c) ) { add_pc(c); return; }
		Model m;
		if( check_with(c, &m) != Z3_L_TRUE ) path_end("assume");
		add_pc(c);
		set_model(m);
		return;
	}
	case B_sym_assert: {
		E c = mkNot1(mkEq(vE(a[0], 32), mkConst(0, 32)));
		std::string id = cstr(a[1].c);
		AssertStat *s = assert_stat(id.c_str());
		__sync_fetch_and_add(&s->checked, 1);
		if( isC(c) and c->val ) { __sync_fetch_and_add(&s->proved, 1); __sync_fetch_and_add(&s->concrete, 1); return; }
		if( isC(c) ) {
			candidate("assert", id.c_str(), g_model);
			__sync_fetch_and_add(&s->failed, 1);
			return;
		}
		Model m;
		Z3_lbool q = check_with(mkNot1(c), &m);
		if( q == Z3_L_FALSE ) { __sync_fetch_and_add(&s->proved, 1); return; }
		if( q == Z3_L_TRUE ) {
			candidate("assert", id.c_str(), m);
			__sync_fetch_and_add(&s->failed, 1);
		}
		else __sync_fetch_and_add(&s->unknown, 1);
		// continue on the part of the path where the assertion holds
		if( ev(c) ) add_pc(c);
		else {
			Model m2;
			if( check_with(c, &m2) != Z3_L_TRUE ) path_end("ok");
			add_pc(c);
			set_model(m2);
		}
		return;
	}
	case B_sym_reach: {
		std::string id = cstr(a[0].c);
		lockG();
		int k = -1;
		for( int i = 0; i < G->nreach; ++i )
			if( !strncmp(G->reach[i], id.c_str(), 95) ) k = i;
		if( k < 0 and G->nreach < 256 ) {
			k = G->nreach;
			strncpy(G->reach[k], id.c_str(), 95);
			G->nreach = k + 1;
		}
		if( k >= 0 ) ++G->reachc[k];
		unlockG();
		return;
	}
	case B_sym_alphabet: {
		u64 p = a[0].c, n = a[1].c;
		std::string cs = cstr(a[2].c);
		bool in[256] = {0};
		for( unsigned char c : cs ) in[c] = true;
		for( u64 i = 0; i < n; ++i ) {
			E v = byteE(p + i), cond = mkConst(0, 1);
			for( int c = 0; c < 256; ++c ) {
				if( !in[c] ) continue;
				int d = c;
				while( d < 255 and in[d + 1] ) ++d;
				E t = c == d ? mkEq(v, mkConst(c, 8)) : mkBin(KUlt, mkBin(KSub, v, mkConst(c, 8)), mkConst(d - c + 1, 8));
				cond = mkBin(KOr, cond, t);
				c = d;
			}
			if( isC(cond) ) {
				if( !cond->val ) path_end("assume");
				continue;
			}
			if( !ev(cond) ) {
				Model m;
				if( check_with(cond, &m) != Z3_L_TRUE ) path_end("assume");
				add_pc(cond);
				set_model(m);
			}
			else add_pc(cond);
		}
		return;
	}
	case B_sym_param: {
		auto it = g_params.find(cstr(a[0].c));
		r.c = it == g_params.end() ? a[1].c : it->second;
		return;
	}
	case B_sym_scratch: r.c = (u64)O_scratch.c_str(); return;
	case B_sym_value: r.c = resolve(vE(a[0], 64), "sym_value"); return;
	case B_sym_possible: { // 1 if the condition is satisfiable on this path
		E c = mkNot1(mkEq(vE(a[0], 32), mkConst(0, 32)));
		if( isC(c) ) r.c = c->val;
		else if( ev(c) ) r.c = 1;
		else { Model m; r.c = check_with(c, &m) == Z3_L_TRUE; }
		return;
	}
	case B_sym_mode: r.c = 1; return;
	case B_sym_is: r.c = a[0].e ? 1 : 0; return;
	case B_sym_log:
		if( O_verb ) fprintf(stderr, "[%d] log: %s\n", getpid(), cstr(a[0].c).c_str());
		return;
	case B_sym_observe: {
		u64 p = a[0].c, n = addr_of(a[1], "observe");
		for( u64 i = 0; i < n; ++i ) g_obs.push_back(byteE(p + i));
		return;
	}
	case B_sym_end: path_end("ok");
	}
}
#include <malloc.h>
size_t malloc_usable_size_(void *p) { return malloc_usable_size(p); }
// native code that releases memory must not leave symbolic bytes behind
void operator delete(void *p) noexcept
{
	if( !p ) return;
	if( not g_noclear and g_shadow.size() ) sclear((u64)p, malloc_usable_size(p));
	free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n)
{
	void *p = malloc(n ? n : 1);
	if( !p ) throw std::bad_alloc();
	return p;
}


static u64 native_result(Val &r, Type *rt, u64 *ret)
{
	if( rt->isVoidTy() ) return 0;
	if( isAgg(rt) ) {
		unsigned gi = 0, xi = 0;
		Val v = newAgg(aggN(rt));
		for( unsigned i = 0; i < aggN(rt); ++i ) {
			Type *t = aggT(rt, i);
			if( t->isFloatingPointTy() ) ((Val *)v.c)[i].c = ret[2 + xi++];
			else ((Val *)v.c)[i].c = ret[gi++] & maskw(tyw(t));
		}
		r = v;
		return 0;
	}
	if( rt->isFloatTy() ) r.c = ret[2] & 0xffffffff;
	else if( rt->isDoubleTy() ) r.c = ret[2];
	else r.c = ret[0] & maskw(tyw(rt));
	return 0;
}

// memory that a native callee is likely to read: flag symbolic bytes so the loss is visible
static bool g_warn_native = true;
static void conc_range(u64 a, u64 n, const std::string &fn)
{
	if( !maybe_sym(a, n) ) return;
	for( u64 i = 0; i < n; ++i )
		if( E e = sget(a + i) ) {
			u64 v = concretize(e, ("memory passed to native " + fn).c_str());
			*(unsigned char *)(a + i) = v;
			sset(a + i, nullptr);
		}
}
static void check_native_arg(u64 p, Type *t, const Val *next, Type *nextt, const std::string &fn)
{
	if( p < 0x10000 or p > 0x7fffffffffffull or g_shadow.empty() ) return;
	Type *el = cast<PointerType>(t)->getElementType();
	// clang AST nodes carry symbolic attributes on purpose (overlays set up by the harness): native readers see the attribute's current model value
	if( el->isStructTy() and cast<StructType>(el)->hasName() and (el->getStructName().startswith("class.clang::") or el->getStructName().startswith("struct.clang::")) ) return;
	u64 n = 8;
	if( el->isIntegerTy(8) ) {
		if( next and nextt->isIntegerTy() and !next->e and next->c < (1 << 24) ) n = next->c;
		else {
			n = 0;
			while( n < 4096 and (sget(p + n) or *(char *)(p + n)) ) ++n;
		}
		conc_range(p, n, fn);
		return;
	}
	if( el->isSized() ) n = DL->getTypeAllocSize(el);
	conc_range(p, n, fn);
	// std::string {ptr,len,...} and StringRef {ptr,len}
	if( n >= 16 and not(p & 7) ) {
		u64 q = ((u64 *)p)[0], m = ((u64 *)p)[1];
		if( q > 0x10000 and q < 0x7fffffffffffull and m < (1 << 20) and m and any_sym(q, m) ) conc_range(q, m, fn);
	}
}

static bool g_in_native = false;
static std::string g_native_name;

static std::vector<jmp_buf *> g_jmps;
// an interpreted exception that leaves a callback made by native code continues in the interpreted caller of that native code;
// the native frames in between (libclang, libLLVM: built without exceptions) have no handlers
[[noreturn]] static void escape_native()
{
	if( g_jmps.empty() ) finish_abnormal("uncaught", "uncaught exception");
	longjmp(*g_jmps.back(), 1);
}
static bool call_native(void *fn, const std::string &name, std::vector<Val> &args, CallInfo *ci, Val &r)
{
	u64 gpr[6] = {0};
	double xmm[8] = {0};
	std::vector<u64> stk;
	unsigned gi = 0, xi = 0;
	for( size_t i = 0; i < args.size(); ++i ) {
		Type *t = ci->argty[i];
		Val &v = args[i];
		if( v.e ) {
			v.c = resolve(v.e, ("argument of native " + name).c_str(), 300);
			v.e = nullptr;
		}
		if( ci->byval[i] ) {
			u64 n = (ci->byval[i] + 7) / 8;
			conc_range(v.c, ci->byval[i], name);
			for( u64 k = 0; k < n; ++k ) {
				u64 x = 0;
				memcpy(&x, (char *)v.c + k * 8, std::min<u64>(8, ci->byval[i] - k * 8));
				stk.push_back(x);
			}
			continue;
		}
		if( t->isFloatingPointTy() ) {
			if( xi < 8 ) memcpy(&xmm[xi++], &v.c, 8);
			else stk.push_back(v.c);
			continue;
		}
		if( t->isPointerTy() and ci->cb->paramHasAttr(i, Attribute::StructRet) ) { // result storage: written by the callee
			Type *el = cast<PointerType>(t)->getElementType();
			if( el->isSized() ) sclear(v.c, DL->getTypeAllocSize(el));
		}
		else if( t->isPointerTy() ) check_native_arg(v.c, t, i + 1 < args.size() ? &args[i + 1] : nullptr, i + 1 < args.size() ? ci->argty[i + 1] : nullptr, name);
		u64 x = v.c;
		// sign-extend narrow ints when the parameter says so
		if( t->isIntegerTy() and t->getIntegerBitWidth() < 64 and ci->cb->paramHasAttr(i, Attribute::SExt) ) x = (u64)sx(x, t->getIntegerBitWidth());
		if( gi < 6 ) gpr[gi++] = x;
		else stk.push_back(x);
	}
	u64 ret[4] = {0};
	if( stk.empty() ) stk.push_back(0), stk.pop_back();
	u64 dummy = 0;
	std::string saved = g_native_name;
	g_native_name = name;
	jmp_buf jb;
	size_t njmp = g_jmps.size(), nfr = g_frames.size();
	g_jmps.push_back(&jb);
	if( _setjmp(jb) ) {
		g_jmps.resize(njmp);
		while( g_frames.size() > nfr ) pop_frame();
		g_do_throw = true; // g_inflight is set
		return false;
	}
	try {
		symex_native_call(fn, gpr, xmm, stk.empty() ? &dummy : stk.data(), stk.size(), ret);
		g_jmps.resize(njmp);
	}
	catch( ... ) {
		g_jmps.resize(njmp);
		while( g_frames.size() > nfr ) pop_frame();
		std::exception_ptr ep = std::current_exception();
		g_keep.push_back(ep);
		Exc x;
		x.obj = *(u64 *)&ep;
		x.ti = (u64)abi::__cxa_current_exception_type();
		x.native = true;
		g_inflight = x;
		g_do_throw = true;
		g_native_name = saved;
		return false;
	}
	g_native_name = saved;
	native_result(r, ci->retty, ret);
	return true;
}

// entry from native code into an interpreted function
extern "C" void symex_reenter(u64 id, u64 *regs, u64 *stk, u64 *out)
{
	FnCode *f = g_fns[id];
	if( f->F->isDeclaration() ) fatal("call of undefined function " + f->name);
	std::vector<Val> args;
	unsigned gi = 0, xi = 0, si = 0;
	for( auto &A : f->F->args() ) {
		Val v;
		Type *t = A.getType();
		if( A.hasByValAttr() ) {
			u64 n = DL->getTypeAllocSize(A.getParamByValType());
			v.c = (u64)(stk + si);
			si += (n + 7) / 8;
		}
		else if( t->isFloatingPointTy() ) v.c = xi < 8 ? regs[6 + xi++] : stk[si++];
		else {
			v.c = gi < 6 ? regs[gi++] : stk[si++];
			v.c &= maskw(tyw(t));
		}
		args.push_back(v);
	}
	size_t base = g_frames.size();
	push_frame(f, args, nullptr);
	Val r = run(base);
	Type *rt = f->F->getReturnType();
	out[0] = out[1] = out[2] = out[3] = 0;
	if( rt->isVoidTy() ) return;
	if( isAgg(rt) ) {
		unsigned g = 0, x = 0;
		for( unsigned i = 0; i < aggN(rt); ++i ) {
			Val &v = ((Val *)r.c)[i];
			u64 c = v.e ? concretize(v.e, "return to native") : v.c;
			if( aggT(rt, i)->isFloatingPointTy() ) out[2 + x++] = c;
			else out[g++] = c;
		}
	}
	else {
		u64 c = r.e ? resolve(r.e, "return to native") : r.c;
		if( rt->isFloatingPointTy() ) out[2] = c;
		else out[0] = c;
	}
}

static bool catches(u64 clause_ti, const Exc &x, u64 *adj)
{
	*adj = x.obj;
	if( clause_ti == 0 ) return true;
	const std::type_info *c = (const std::type_info *)clause_ti, *t = (const std::type_info *)x.ti;
	void *p = (void *)x.obj;
	if( t->__is_pointer_p() ) p = *(void **)p;
	bool ok = c->__do_catch(t, &p, 1);
	if( ok ) *adj = (u64)p;
	return ok;
}

static inline void take_edge(Frame &fr, int e)
{
	Edge &ed = fr.f->edges[e];
	size_t n = ed.moves.size();
	if( n == 1 ) {
		int s = ed.moves[0].second;
		fr.regs[ed.moves[0].first] = s >= 0 ? fr.regs[s] : fr.f->consts[-s - 1];
	}
	else if( n ) {
		Val tmp[64];
		std::vector<Val> big;
		Val *t = tmp;
		if( n > 64 ) { big.resize(n); t = big.data(); }
		for( size_t i = 0; i < n; ++i ) {
			int s = ed.moves[i].second;
			t[i] = s >= 0 ? fr.regs[s] : fr.f->consts[-s - 1];
		}
		for( size_t i = 0; i < n; ++i ) fr.regs[ed.moves[i].first] = t[i];
	}
	fr.pc = ed.target;
}

// unwind the in-flight exception; returns false when it leaves `base`
static bool unwind(size_t base)
{
	Exc x = g_inflight;
	while( g_frames.size() > base ) {
		Frame &fr = g_frames.back();
		Inst &in = fr.f->code[fr.pc - 1];
		CallInfo *ci = in.op == OCall ? (CallInfo *)in.x : nullptr;
		if( ci and ci->invoke ) {
			int tgt = fr.f->edges[ci->unwind].target;
			// find the landingpad instruction
			int k = tgt;
			while( fr.f->code[k].op != OLandingPad ) ++k;
			LPInfo *li = (LPInfo *)fr.f->code[k].x;
			u64 sel = 0, adj = x.obj;
			bool enter = li->cleanup;
			for( auto &c : li->clauses ) {
				if( c.first ) {
					if( catches(c.second, x, &adj) ) { sel = sel_of(c.second); enter = true; break; }
				}
				else {
					bool allowed = false;
					u64 d;
					for( u64 t : li->filters[c.second] ) allowed |= catches(t, x, &d);
					if( !allowed ) { sel = (u32)-1; enter = true; break; }
				}
			}
			if( enter ) {
				g_exc[adj] = x;
				g_exc[x.obj] = x;
				take_edge(fr, ci->unwind);
				// fill the landingpad value
				Val v = newAgg(2);
				((Val *)v.c)[0].c = adj;
				((Val *)v.c)[1].c = sel;
				Inst &lp = fr.f->code[fr.pc];
				if( lp.op != OLandingPad ) fatal("landingpad shape");
				fr.regs[lp.dst] = v;
				++fr.pc;
				return true;
			}
		}
		pop_frame();
	}
	return false;
}

static void intrinsic(CallInfo *ci, std::vector<Val> &a, Val &r)
{
	Type *rt = ci->retty;
	unsigned w = rt->isVoidTy() ? 0 : tyw(rt);
	auto ovf = [&](Kind k, bool sgn) {
		unsigned bw = tyw(ci->argty[0]);
		Val v = newAgg(2);
		if( a[0].e or a[1].e ) {
			E x = vE(a[0], bw), y = vE(a[1], bw);
			if( bw > 32 ) { x = mkConst(resolve(x, "overflow intrinsic"), bw); y = mkConst(resolve(y, "overflow intrinsic"), bw); }
			else {
				unsigned ww = bw * 2;
				E X = sgn ? mkSExt(x, ww) : mkZExt(x, ww), Y = sgn ? mkSExt(y, ww) : mkZExt(y, ww);
				E res = mkBin(k, X, Y);
				E lo = mkExtract(res, 0, bw);
				((Val *)v.c)[0] = mkV(lo);
				((Val *)v.c)[1] = mkV(mkNot1(mkEq(sgn ? mkSExt(lo, ww) : mkZExt(lo, ww), res)));
				r = v;
				return;
			}
			a[0] = mkV(x);
			a[1] = mkV(y);
		}
		__int128 x = sgn ? (__int128)sx(a[0].c, bw) : (__int128)a[0].c, y = sgn ? (__int128)sx(a[1].c, bw) : (__int128)a[1].c, z = 0;
		if( k == KAdd ) z = x + y;
		else if( k == KSub ) z = x - y;
		else {
			if( !sgn ) { unsigned __int128 uz = (unsigned __int128)(u64)x * (u64)y; ((Val *)v.c)[0].c = (u64)uz & maskw(bw); ((Val *)v.c)[1].c = (uz >> bw) != 0; r = v; return; }
			z = x * y;
		}
		u64 lo = (u64)z & maskw(bw);
		((Val *)v.c)[0].c = lo;
		__int128 back = sgn ? (__int128)sx(lo, bw) : (__int128)lo;
		((Val *)v.c)[1].c = back != z;
		r = v;
	};
	switch( ci->iid ) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: builtin(B_memmove, a, r, nullptr); return;
	case Intrinsic::memset: builtin(B_memset, a, r, nullptr); return;
	case Intrinsic::expect: r = a[0]; return;
	case Intrinsic::is_constant: r.c = 0; return;
	case Intrinsic::objectsize: r.c = a[1].c ? 0 : maskw(w); return;
	case Intrinsic::stacksave: r.c = (u64)g_sp; return;
	case Intrinsic::stackrestore: return;
	case Intrinsic::trap: finish_abnormal("abort", "llvm.trap");
	case Intrinsic::eh_typeid_for: r.c = sel_of(a[0].c); return;
	case Intrinsic::uadd_with_overflow: ovf(KAdd, false); return;
	case Intrinsic::usub_with_overflow: ovf(KSub, false); return;
	case Intrinsic::umul_with_overflow: ovf(KMul, false); return;
	case Intrinsic::sadd_with_overflow: ovf(KAdd, true); return;
	case Intrinsic::ssub_with_overflow: ovf(KSub, true); return;
	case Intrinsic::smul_with_overflow: ovf(KMul, true); return;
	case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
		E x = vE(a[0], w), y = vE(a[1], w);
		bool s = ci->iid == Intrinsic::smin or ci->iid == Intrinsic::smax, mx = ci->iid == Intrinsic::umax or ci->iid == Intrinsic::smax;
		E lt = mkBin(s ? KSlt : KUlt, x, y);
		r = mkV(mx ? mkIte(lt, y, x) : mkIte(lt, x, y));
		return;
	}
	case Intrinsic::abs: {
		E x = vE(a[0], w);
		r = mkV(mkIte(mkBin(KSlt, x, mkConst(0, w)), mkBin(KSub, mkConst(0, w), x), x));
		return;
	}
	case Intrinsic::usub_sat: {
		E x = vE(a[0], w), y = vE(a[1], w);
		r = mkV(mkIte(mkBin(KUlt, x, y), mkConst(0, w), mkBin(KSub, x, y)));
		return;
	}
	case Intrinsic::uadd_sat: {
		E x = vE(a[0], w), y = vE(a[1], w);
		E s = mkBin(KAdd, x, y);
		r = mkV(mkIte(mkBin(KUlt, s, x), mkConst(maskw(w), w), s));
		return;
	}
	case Intrinsic::ctlz: {
		u64 v = a[0].e ? resolve(a[0].e, "ctlz") : a[0].c;
		r.c = v ? __builtin_clzll(v) - (64 - w) : w;
		return;
	}
	case Intrinsic::cttz: {
		u64 v = a[0].e ? resolve(a[0].e, "cttz") : a[0].c;
		r.c = v ? __builtin_ctzll(v) : w;
		return;
	}
	case Intrinsic::ctpop: {
		u64 v = a[0].e ? resolve(a[0].e, "ctpop") : a[0].c;
		r.c = __builtin_popcountll(v);
		return;
	}
	case Intrinsic::bswap: {
		u64 v = a[0].e ? resolve(a[0].e, "bswap") : a[0].c;
		r.c = __builtin_bswap64(v) >> (64 - w);
		return;
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		u64 x = a[0].e ? resolve(a[0].e, "fshl") : a[0].c, y = a[1].e ? resolve(a[1].e, "fshl") : a[1].c, s = (a[2].e ? resolve(a[2].e, "fshl") : a[2].c) % w;
		if( ci->iid == Intrinsic::fshl ) r.c = s ? ((x << s) | (y >> (w - s))) & maskw(w) : x;
		else r.c = s ? ((x << (w - s)) | (y >> s)) & maskw(w) : y;
		return;
	}
	case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::donothing:
		if( a.size() and !rt->isVoidTy() ) r = a[0];
		return;
	case Intrinsic::load_relative: fatal("load.relative");
	case Intrinsic::fabs: {
		if( w == 64 ) r.c = a[0].c & ~(1ull << 63);
		else r.c = a[0].c & 0x7fffffff;
		return;
	}
	default: fatal("intrinsic " + ci->name);
	}
}

static void resolve_call(CallInfo *ci, FnCode *caller)
{
	ci->resolved = true;
	if( !ci->callee ) return;
	if( ci->iid != Intrinsic::not_intrinsic ) return;
	if( ci->name.compare(0, 8, "__real__") == 0 ) { // the replaced function itself
		std::string n = ci->name.substr(8);
		Function *F = ci->callee->getParent()->getFunction(n);
		if( F and !F->isDeclaration() ) ci->fc = get_fn(F);
		else ci->native = native_sym(n);
		return;
	}
	auto o = g_ovr.find(ci->name);
	if( o != g_ovr.end() and caller->ovr_self != ci->name ) { ci->fc = o->second; return; }
	auto b = g_builtins.find(ci->name);
	if( b != g_builtins.end() ) { ci->builtin = b->second; return; }
	if( !ci->callee->isDeclaration() ) { ci->fc = get_fn(ci->callee); return; }
	ci->native = native_sym(ci->name);
}

static bool fcmp(unsigned pred, double x, double y)
{
	bool uno = x != x or y != y;
	switch( pred ) {
	case CmpInst::FCMP_OEQ: return !uno and x == y;
	case CmpInst::FCMP_OGT: return !uno and x > y;
	case CmpInst::FCMP_OGE: return !uno and x >= y;
	case CmpInst::FCMP_OLT: return !uno and x < y;
	case CmpInst::FCMP_OLE: return !uno and x <= y;
	case CmpInst::FCMP_ONE: return !uno and x != y;
	case CmpInst::FCMP_ORD: return !uno;
	case CmpInst::FCMP_UNO: return uno;
	case CmpInst::FCMP_UEQ: return uno or x == y;
	case CmpInst::FCMP_UGT: return uno or x > y;
	case CmpInst::FCMP_UGE: return uno or x >= y;
	case CmpInst::FCMP_ULT: return uno or x < y;
	case CmpInst::FCMP_ULE: return uno or x <= y;
	case CmpInst::FCMP_UNE: return uno or x != y;
	case CmpInst::FCMP_TRUE: return true;
	default: return false;
	}
}
static double getd(u64 c, unsigned w)
{
	if( w == 32 ) { float f; u32 x = c; memcpy(&f, &x, 4); return f; }
	double d;
	memcpy(&d, &c, 8);
	return d;
}
static u64 putd(double d, unsigned w)
{
	if( w == 32 ) { float f = d; u32 x; memcpy(&x, &f, 4); return x; }
	u64 c;
	memcpy(&c, &d, 8);
	return c;
}

static void tick()
{
	if( deadline() ) path_end("deadline");
	if( g_insts > O_maxinst ) {
		std::string bt;
		for( size_t i = g_frames.size(); i-- > 0 and g_frames.size() - i < 8; ) bt += " < " + g_frames[i].f->name;
		candidate("hang", "hang", g_model, "instruction budget exhausted in" + bt);
		__sync_fetch_and_add(&G->hangs, 1);
		path_end("hang");
	}
}

static Val run(size_t base)
{
	static const Kind binK[] = {KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr};
	std::vector<Val> args;
	Val retv;
	u64 cnt = 0;
#define R(o) ((o) >= 0 ? fr->regs[o] : fr->f->consts[-(o)-1])
	Frame *fr = &g_frames.back();
	for( ;; ) {
		Inst &in = fr->f->code[fr->pc++];
		++g_insts;
		if( ++cnt >= 65536 ) {
			g_inst_acc += cnt;
			cnt = 0;
			tick();
		}
		switch( in.op ) {
		case OAdd: case OSub: case OMul: case OUDiv: case OSDiv: case OURem: case OSRem: case OAnd: case OOr: case OXor: case OShl: case OLShr: case OAShr: {
			const Val &a = R(in.a), &b = R(in.b);
			Val &d = fr->regs[in.dst];
			if( !a.e and !b.e ) {
				u64 x = a.c, y = b.c, z;
				switch( in.op ) {
				case OAdd: z = x + y; break;
				case OSub: z = x - y; break;
				case OMul: z = x * y; break;
				case OAnd: z = x & y; break;
				case OOr: z = x | y; break;
				case OXor: z = x ^ y; break;
				default:
					if( in.op >= OUDiv and in.op <= OSRem and y == 0 ) finish_abnormal("crash", "division by zero in " + fr->f->name);
					z = foldBin(binK[in.op], in.w, x, y);
				}
				d.c = in.w < 64 ? z & maskw(in.w) : z;
				d.e = nullptr;
			}
			else {
				E x = vE(a, in.w), y = vE(b, in.w);
				if( in.op >= OUDiv and in.op <= OSRem and !isC(y) ) {
					if( decide(mkEq(y, mkConst(0, in.w))) ) finish_abnormal("crash", "division by zero in " + fr->f->name);
				}
				fr->regs[in.dst] = mkV(mkBin(binK[in.op], x, y));
			}
			break;
		}
		case OICmp: {
			const Val &a = R(in.a), &b = R(in.b);
			Val &d = fr->regs[in.dst];
			if( !a.e and !b.e ) {
				u64 x = a.c, y = b.c;
				bool z;
				switch( in.sub ) {
				case CmpInst::ICMP_EQ: z = x == y; break;
				case CmpInst::ICMP_NE: z = x != y; break;
				case CmpInst::ICMP_UGT: z = x > y; break;
				case CmpInst::ICMP_UGE: z = x >= y; break;
				case CmpInst::ICMP_ULT: z = x < y; break;
				case CmpInst::ICMP_ULE: z = x <= y; break;
				case CmpInst::ICMP_SGT: z = sx(x, in.w) > sx(y, in.w); break;
				case CmpInst::ICMP_SGE: z = sx(x, in.w) >= sx(y, in.w); break;
				case CmpInst::ICMP_SLT: z = sx(x, in.w) < sx(y, in.w); break;
				default: z = sx(x, in.w) <= sx(y, in.w); break;
				}
				d.c = z;
				d.e = nullptr;
			}
			else {
				E x = vE(a, in.w), y = vE(b, in.w), z;
				switch( in.sub ) {
				case CmpInst::ICMP_EQ: z = mkEq(x, y); break;
				case CmpInst::ICMP_NE: z = mkNot1(mkEq(x, y)); break;
				case CmpInst::ICMP_UGT: z = mkBin(KUlt, y, x); break;
				case CmpInst::ICMP_UGE: z = mkNot1(mkBin(KUlt, x, y)); break;
				case CmpInst::ICMP_ULT: z = mkBin(KUlt, x, y); break;
				case CmpInst::ICMP_ULE: z = mkNot1(mkBin(KUlt, y, x)); break;
				case CmpInst::ICMP_SGT: z = mkBin(KSlt, y, x); break;
				case CmpInst::ICMP_SGE: z = mkNot1(mkBin(KSlt, x, y)); break;
				case CmpInst::ICMP_SLT: z = mkBin(KSlt, x, y); break;
				default: z = mkNot1(mkBin(KSlt, y, x)); break;
				}
				d = mkV(z);
			}
			break;
		}
		case OSelect: {
			Val c = R(in.a);
			if( !c.e ) fr->regs[in.dst] = c.c & 1 ? R(in.b) : R(in.c);
			else if( in.imm ) fr->regs[in.dst] = decide(c.e) ? R(in.b) : R(in.c);
			else fr->regs[in.dst] = mkV(mkIte(c.e, vE(R(in.b), in.w), vE(R(in.c), in.w)));
			break;
		}
		case OTrunc: {
			const Val &a = R(in.a);
			if( a.e ) fr->regs[in.dst] = mkV(mkExtract(a.e, 0, in.w));
			else { Val v; v.c = a.c & maskw(in.w); fr->regs[in.dst] = v; }
			break;
		}
		case OZExt: {
			const Val &a = R(in.a);
			if( a.e ) fr->regs[in.dst] = mkV(mkZExt(a.e, in.w));
			else fr->regs[in.dst] = a;
			break;
		}
		case OSExt: {
			const Val &a = R(in.a);
			if( a.e ) fr->regs[in.dst] = mkV(mkSExt(a.e, in.w));
			else { Val v; v.c = (u64)sx(a.c, in.sub) & maskw(in.w); fr->regs[in.dst] = v; }
			break;
		}
		case OMove: fr->regs[in.dst] = R(in.a); break;
		case OFBin: {
			Val a = R(in.a), b = R(in.b);
			double x = getd(addr_of(a, "fp"), in.w), y = getd(addr_of(b, "fp"), in.w), z = 0;
			switch( in.sub ) {
			case Instruction::FAdd: z = in.w == 32 ? (float)x + (float)y : x + y; break;
			case Instruction::FSub: z = in.w == 32 ? (float)x - (float)y : x - y; break;
			case Instruction::FMul: z = in.w == 32 ? (float)x * (float)y : x * y; break;
			case Instruction::FDiv: z = in.w == 32 ? (float)x / (float)y : x / y; break;
			default: fatal("frem");
			}
			Val v;
			v.c = putd(z, in.w);
			fr->regs[in.dst] = v;
			break;
		}
		case OFNeg: { Val a = R(in.a); Val v; v.c = putd(-getd(a.c, in.w), in.w); fr->regs[in.dst] = v; break; }
		case OFCmp: { Val a = R(in.a), b = R(in.b); Val v; v.c = fcmp(in.sub, getd(addr_of(a, "fp"), in.w), getd(addr_of(b, "fp"), in.w)); fr->regs[in.dst] = v; break; }
		case OFPCast: { Val a = R(in.a); Val v; v.c = putd(getd(a.c, in.sub), in.w); fr->regs[in.dst] = v; break; }
		case OSIToFP: { Val a = R(in.a); Val v; v.c = putd((double)sx(addr_of(a, "sitofp"), in.sub), in.w); fr->regs[in.dst] = v; break; }
		case OUIToFP: { Val a = R(in.a); Val v; v.c = putd((double)addr_of(a, "uitofp"), in.w); fr->regs[in.dst] = v; break; }
		case OFPToSI: { Val a = R(in.a); Val v; v.c = (u64)(int64_t)getd(a.c, in.sub) & maskw(in.w); fr->regs[in.dst] = v; break; }
		case OFPToUI: { Val a = R(in.a); Val v; v.c = (u64)getd(a.c, in.sub) & maskw(in.w); fr->regs[in.dst] = v; break; }
		case OAlloca: {
			Val n = R(in.a);
			Val v;
			v.c = salloca(in.imm * addr_of(n, "alloca"), in.b);
			fr->regs[in.dst] = v;
			break;
		}
		case OLoad: {
			Val &p = R(in.a);
			u64 a = p.e ? addr_of(p, "load address") : p.c;
			fr->regs[in.dst] = load_mem(a, in.imm, in.w);
			break;
		}
		case OLoadAgg: { Val &p = R(in.a); fr->regs[in.dst] = load_ty(addr_of(p, "load"), (Type *)in.x); break; }
		case OStore: {
			Val &p = R(in.b);
			u64 a = p.e ? addr_of(p, "store address") : p.c;
			store_mem(a, R(in.a), in.imm, in.w);
			break;
		}
		case OStoreAgg: { Val &p = R(in.b); store_ty(addr_of(p, "store"), R(in.a), (Type *)in.x); break; }
		case OGep: {
			const Val &a = R(in.a);
			if( !in.x ) {
				if( a.e ) fr->regs[in.dst] = mkV(mkBin(KAdd, a.e, mkConst(in.imm, 64)));
				else { Val v; v.c = a.c + in.imm; fr->regs[in.dst] = v; }
				break;
			}
			GepInfo *g = (GepInfo *)in.x;
			Val acc = a;
			u64 off = in.imm;
			for( auto &t : g->idx ) {
				const Val &i = R(std::get<0>(t));
				if( i.e ) {
					E x = mkSExt(i.e, 64);
					E m = mkBin(KMul, x, mkConst(std::get<1>(t), 64));
					acc = mkV(mkBin(KAdd, vE(acc, 64), m));
				}
				else off += (u64)sx(i.c, std::get<2>(t)) * (u64)std::get<1>(t);
			}
			if( acc.e ) fr->regs[in.dst] = mkV(mkBin(KAdd, acc.e, mkConst(off, 64)));
			else { Val v; v.c = acc.c + off; fr->regs[in.dst] = v; }
			break;
		}
		case OBr: take_edge(*fr, in.a); break;
		case OCondBr: {
			const Val &c = R(in.a);
			bool t = c.e ? decide(c.e) : (c.c & 1);
			take_edge(*fr, t ? in.b : in.c);
			break;
		}
		case OSwitch: {
			Val c = R(in.a);
			SwitchInfo *si = (SwitchInfo *)in.x;
			int e = si->def;
			if( c.e ) {
				for( auto &k : si->cases )
					if( decide(mkEq(c.e, mkConst(k.first, in.w))) ) { e = k.second; break; }
			}
			else {
				auto it = si->m.find(c.c);
				if( it != si->m.end() ) e = it->second;
			}
			take_edge(*fr, e);
			break;
		}
		case ORet: case ORetVoid: {
			Val v;
			if( in.op == ORet ) v = R(in.a);
			Inst *cs = fr->callsite;
			pop_frame();
			if( g_frames.size() == base ) {
				g_inst_acc += cnt;
				return v;
			}
			fr = &g_frames.back();
			if( cs ) {
				if( cs->dst >= 0 ) fr->regs[cs->dst] = v;
				CallInfo *ci = (CallInfo *)cs->x;
				if( ci->invoke ) take_edge(*fr, ci->normal);
			}
			break;
		}
		case OUnreachable: finish_abnormal("crash", "reached unreachable code in " + fr->f->name);
		case OExtractValue: {
			Val v = R(in.a);
			for( unsigned i : *(std::vector<unsigned> *)in.x ) { Val t = ((Val *)v.c)[i]; v = t; }
			fr->regs[in.dst] = v;
			break;
		}
		case OInsertValue: {
			auto *p = (std::pair<Type *, std::vector<unsigned>> *)in.x;
			std::function<Val(Val, Type *, unsigned)> ins = [&](Val agg, Type *t, unsigned d) -> Val {
				if( d == p->second.size() ) return R(in.b);
				Val n = newAgg(aggN(t));
				for( unsigned i = 0; i < aggN(t); ++i ) ((Val *)n.c)[i] = ((Val *)agg.c)[i];
				unsigned i = p->second[d];
				((Val *)n.c)[i] = ins(((Val *)agg.c)[i], aggT(t, i), d + 1);
				return n;
			};
			Val v = ins(R(in.a), p->first, 0);
			fr->regs[in.dst] = v;
			break;
		}
		case OLandingPad: break; // value was filled by unwind()
		case OResume: {
			Val v = R(in.a);
			u64 tok = ((Val *)v.c)[0].c;
			auto it = g_exc.find(tok);
			if( it == g_exc.end() ) fatal("resume");
			g_inflight = it->second;
			pop_frame();
			if( g_frames.size() <= base or !unwind(base) ) {
				if( base == 0 ) finish_abnormal("uncaught", "uncaught exception");
				escape_native();
			}
			fr = &g_frames.back();
			break;
		}
		case OFence: break;
		case OAtomicRMW: {
			Val &p = R(in.a);
			u64 a = addr_of(p, "rmw");
			Val old = load_mem(a, in.imm, in.w);
			Val b = R(in.b);
			E x = vE(old, in.w), y = vE(b, in.w), z = y;
			switch( in.sub ) {
			case AtomicRMWInst::Add: z = mkBin(KAdd, x, y); break;
			case AtomicRMWInst::Sub: z = mkBin(KSub, x, y); break;
			case AtomicRMWInst::And: z = mkBin(KAnd, x, y); break;
			case AtomicRMWInst::Or: z = mkBin(KOr, x, y); break;
			case AtomicRMWInst::Xor: z = mkBin(KXor, x, y); break;
			case AtomicRMWInst::Xchg: break;
			default: fatal("atomicrmw");
			}
			store_mem(a, mkV(z), in.imm, in.w);
			fr->regs[in.dst] = old;
			break;
		}
		case OCmpXchg: {
			Val &p = R(in.a);
			u64 a = addr_of(p, "cmpxchg");
			Val old = load_mem(a, in.imm, in.w);
			bool eq = decide(mkEq(vE(old, in.w), vE(R(in.b), in.w)));
			if( eq ) store_mem(a, R(in.c), in.imm, in.w);
			Val v = newAgg(2);
			((Val *)v.c)[0] = old;
			((Val *)v.c)[1].c = eq;
			fr->regs[in.dst] = v;
			break;
		}
		case OCall: {
			CallInfo *ci = (CallInfo *)in.x;
			if( !ci->resolved ) resolve_call(ci, fr->f);
			args.resize(ci->args.size());
			for( size_t i = 0; i < args.size(); ++i ) args[i] = ci->argty[i] ? R(ci->args[i]) : Val();
			Val r;
			g_do_throw = false;
			FnCode *fc = ci->fc;
			void *nat = ci->native;
			int bi = ci->builtin;
			std::string indirect;
			if( !ci->callee ) {
				Val t = R(in.a);
				u64 a = addr_of(t, "call target");
				if( is_fn_addr(a) ) {
					fc = g_fns[(a - (u64)g_thunks) / 32];
					if( fc->F->isDeclaration() ) {
						auto b = g_builtins.find(fc->name);
						if( b != g_builtins.end() ) { bi = b->second; fc = nullptr; }
						else fatal("call of undefined function " + fc->name);
					}
				}
				else if( a < 4096 ) finish_abnormal("crash", "call through null pointer in " + fr->f->name);
				else {
					nat = (void *)a;
					// builtins taken by address
				}
			}
			if( fc ) {
				// byval arguments are copied by the caller
				for( size_t i = 0; i < args.size(); ++i )
					if( ci->byval[i] ) {
						u64 s = addr_of(args[i], "byval");
						char *keep = g_sp;
						(void)keep;
						u64 d = (u64)malloc(ci->byval[i]);
						sclear(d, ci->byval[i]);
						smemmove(d, s, ci->byval[i]);
						args[i].c = d;
					}
				push_frame(fc, args, &in);
				fr = &g_frames.back();
				break;
			}
			if( ci->iid != Intrinsic::not_intrinsic ) intrinsic(ci, args, r);
			else if( bi >= 0 ) builtin(bi, args, r, ci);
			else if( nat ) call_native(nat, ci->callee ? ci->name : std::string("indirect"), args, ci, r);
			else fatal("no definition for " + ci->name);
			fr = &g_frames.back();
			if( g_do_throw ) {
				g_do_throw = false;
				if( !unwind(base) ) {
					if( base == 0 ) finish_abnormal("uncaught", "uncaught exception");
					escape_native();
				}
				fr = &g_frames.back();
				break;
			}
			if( in.dst >= 0 ) fr->regs[in.dst] = r;
			if( ci->invoke ) take_edge(*fr, ci->normal);
			break;
		}
		case OUnsupported: {
			fatal("instruction " + (in.x ? *(std::string *)in.x : std::string("?")) + " in " + fr->f->name);
		}
		default: fatal("opcode");
		}
	}
}

// ------------------------------------------------------------------------------------------------ crash handling
static void on_signal(int sig)
{
	static volatile int again = 0;
	if( again++ ) _exit(4);
	std::string bt;
	for( size_t i = g_frames.size(); i-- > 0 and g_frames.size() - i < 8; ) bt += " < " + g_frames[i].f->name;
	std::string d = "signal " + std::to_string(sig) + " native:" + g_native_name + bt;
	if( O_verb ) fprintf(stderr, "[%d] %s\n", getpid(), d.c_str());
	candidate("crash", "crash", g_model, d);
	__sync_fetch_and_add(&G->crashes, 1);
	__sync_fetch_and_sub(&G->running, 1);
	reap(true);
	_exit(0);
}

// called from the harness (natively): keep going after clang parsed the AST
extern "C" void symex_keepalive() {}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for( unsigned char c : s ) {
		if( c == '"' or c == '\\' ) { r += '\\'; r += c; }
		else if( c < 32 or c > 126 ) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

// fork cost: page-table entries of file mappings are dropped at fork and faulted in again by every child.  Copy the read-only segments of the solver and the
// relocated read-only data of the big libraries into anonymous memory, where fork keeps (text) or shares (data) them.
static void remap_segments()
{
	FILE *f = fopen("/proc/self/maps", "r");
	if( !f ) return;
	struct Seg { u64 a, b; char p[8]; std::string path; };
	std::vector<Seg> v;
	char line[4096];
	while( fgets(line, sizeof line, f) ) {
		Seg s;
		char path[4096] = "";
		unsigned long a, b;
		if( sscanf(line, "%lx-%lx %7s %*s %*s %*s %4000s", &a, &b, s.p, path) < 3 ) continue;
		s.a = a; s.b = b; s.path = path;
		v.push_back(s);
	}
	fclose(f);
	for( auto &s : v ) {
		bool z3 = s.path.find("libz3.so") != std::string::npos, big = s.path.find("libLLVM") != std::string::npos or s.path.find("libclang-cpp") != std::string::npos;
		if( s.p[0] != 'r' or s.p[1] == 'w' or s.p[3] != 'p' ) continue;
		bool text = s.p[2] == 'x';
		if( not(z3 or (big and !text)) ) continue;
		size_t n = s.b - s.a;
		void *t = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if( t == MAP_FAILED ) continue;
		memcpy(t, (void *)s.a, n);
		void *r = mmap((void *)s.a, n, PROT_READ | PROT_WRITE, (text ? MAP_PRIVATE : MAP_SHARED) | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
		if( r == MAP_FAILED ) _exit(9);
		if( text ) madvise(r, n, MADV_HUGEPAGE);
		memcpy(r, t, n);
		mprotect(r, n, PROT_READ | (text ? PROT_EXEC : 0));
		munmap(t, n);
	}
}

int main(int argc, char **argv)
{
	remap_segments();
	std::string bc;
	for( int i = 1; i < argc; ++i ) {
		std::string a = argv[i];
		auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
		if( auto v = val("--out=") ) O_out = v;
		else if( auto v = val("--entry=") ) O_entry = v;
		else if( auto v = val("--procs=") ) O_maxproc = atoi(v);
		else if( auto v = val("--timeout=") ) O_timeout = atof(v);
		else if( auto v = val("--maxinst=") ) O_maxinst = strtoull(v, 0, 10);
		else if( auto v = val("--qrlimit=") ) O_qrlimit = strtoul(v, 0, 10);
		else if( auto v = val("--maxcand=") ) O_maxcand = atoi(v);
		else if( auto v = val("--samples=") ) O_samples = atoi(v);
		else if( auto v = val("--scratch=") ) O_scratch = v;
		else if( auto v = val("--param=") ) {
			std::string t = v;
			size_t e = t.find('=');
			g_params[t.substr(0, e)] = strtoull(t.c_str() + e + 1, 0, 10);
		}
		else if( a == "-v" ) O_verb = true;
		else bc = a;
	}
	double t0 = now();
	g_deadline = t0 + O_timeout;
	G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	G->running = 1;

	LLVMContext ctx;
	SMDiagnostic err;
	std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
	if( !mod ) {
		err.print("symex", errs());
		return 2;
	}
	M = mod.get();
	DL = &M->getDataLayout();

	Z3_config cfg = Z3_mk_config();
	g_z3 = Z3_mk_context(cfg);
	g_solver = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV"));
	Z3_solver_inc_ref(g_z3, g_solver);
	Z3_params pr = Z3_mk_params(g_z3);
	Z3_params_inc_ref(g_z3, pr);
	Z3_params_set_uint(g_z3, pr, Z3_mk_string_symbol(g_z3, "rlimit"), O_qrlimit); // no timer thread: threads do not survive fork
	Z3_solver_set_params(g_z3, g_solver, pr);

	g_thunks = (char *)mmap(0, 65536 * 32, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	size_t SS = 512ull << 20;
	g_stack = (char *)mmap(0, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_stack_end = g_stack + SS;
	g_sp = g_stack;
	size_t RS = 512ull << 20;
	g_regbase = (Val *)mmap(0, RS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_regtop = g_regbase;
	g_reglimit = g_regbase + RS / sizeof(Val) - 100000;
	init_builtins();

	for( Function &F : *M )
		if( !F.isDeclaration() and F.getName().startswith("__ovr__") ) {
			FnCode *f = get_fn(&F);
			g_ovr[f->ovr_self] = f;
		}
	for( Function &F : *M )
		if( !F.isDeclaration() ) get_fn(&F);

	Function *entry = M->getFunction(O_entry);
	if( !entry ) {
		fprintf(stderr, "no entry %s\n", O_entry.c_str());
		return 2;
	}

	// exploration runs in a child so that the root can collect results whatever happens
	pid_t p = fork();
	if( p == 0 ) {
		g_is_root = false;
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		// native stack for signal handlers (deep native recursion)
		stack_t ss;
		ss.ss_size = 1 << 18;
		ss.ss_sp = malloc(ss.ss_size);
		ss.ss_flags = 0;
		sigaltstack(&ss, 0);
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = on_signal;
		sa.sa_flags = SA_ONSTACK;
		for( int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT} ) sigaction(s, &sa, 0);
		// global constructors
		if( GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors") ) {
			if( auto ca = dyn_cast<ConstantArray>(gc->getInitializer()) ) {
				std::vector<std::pair<u64, Function *>> cs;
				for( unsigned i = 0; i < ca->getNumOperands(); ++i ) {
					auto *st = cast<ConstantStruct>(ca->getOperand(i));
					if( auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()) ) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
				}
				std::stable_sort(cs.begin(), cs.end(), [](const std::pair<u64, Function *> &x, const std::pair<u64, Function *> &y) { return x.first < y.first; });
				for( auto &c : cs ) {
					push_frame(get_fn(c.second), {}, nullptr);
					run(0);
				}
			}
		}
		g_insts = 0;
		push_frame(get_fn(entry), {}, nullptr);
		run(0);
		path_end("ok");
	}
	int st = 0;
	for( ;; ) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if( r == p ) break;
		if( now() > g_deadline + 60 ) {
			G->stop = 1;
			kill(-p, SIGKILL);
			note("killed after deadline");
			G->aborted_deadline = G->aborted_deadline + 1;
			waitpid(p, &st, 0);
			break;
		}
		usleep(20000);
	}
	if( not(WIFEXITED(st) and WEXITSTATUS(st) == 0) ) note("root exploration process died: status " + std::to_string(st)), __sync_fetch_and_add(&G->path_errors, 1);

	bool complete = !G->aborted_deadline and !G->unknown and !G->concretized and !G->unsupported and !G->path_errors;
	FILE *f = fopen((O_out + "/result.json").c_str(), "w");
	if( !f ) return 2;
	fprintf(f, "{\n \"complete\": %s,\n \"wall_s\": %.2f,\n", complete ? "true" : "false", now() - t0);
#define N(x) fprintf(f, " \"%s\": %llu,\n", #x, (unsigned long long)G->x);
	N(paths) N(forks) N(queries) N(sat) N(unsat) N(unknown) N(insts) N(killed_assume) N(path_errors) N(hangs) N(crashes) N(uncaught) N(concretized) N(aborted_deadline) N(unsupported) N(ncand) N(max_vars) N(max_pc)
	fprintf(f, " \"nsample\": %llu,\n", (unsigned long long)(G->nsample < O_samples ? G->nsample : O_samples));
	fprintf(f, " \"solver_s\": %.3f,\n", G->solver_ns * 1e-9);
	fprintf(f, " \"reach\": {");
	for( int i = 0; i < G->nreach; ++i ) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(G->reach[i]).c_str(), (unsigned long long)G->reachc[i]);
	fprintf(f, "},\n \"asserts\": {");
	for( int i = 0; i < G->nassert; ++i ) fprintf(f, "%s%s: {\"checked\": %llu, \"proved\": %llu, \"failed\": %llu, \"unknown\": %llu, \"folded\": %llu}", i ? ", " : "", jstr(G->as[i].id).c_str(), (unsigned long long)G->as[i].checked, (unsigned long long)G->as[i].proved, (unsigned long long)G->as[i].failed, (unsigned long long)G->as[i].unknown, (unsigned long long)G->as[i].concrete);
	fprintf(f, "},\n \"notes\": [");
	for( int i = 0; i < G->nnote; ++i ) fprintf(f, "%s%s", i ? ", " : "", jstr(G->notes[i]).c_str());
	fprintf(f, "],\n \"functions\": [");
	bool first = true;
	for( FnCode *fc : g_fns )
		if( G->fcov[fc->id] ) {
			std::string d = demangle(fc->name);
			fprintf(f, "%s%s", first ? "" : ", ", jstr(d).c_str());
			first = false;
		}
	fprintf(f, "]\n}\n");
	fclose(f);
	return 0;
}
