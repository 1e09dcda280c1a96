// Deterministic OpenMP runtime (LLVM __kmpc ABI) for instrumented builds. Threads are coroutines that
// switch only at barriers; tasks run where they are created. Every access that instrumented code makes is
// checked against a happens-before relation (vector clocks) of *all* schedules OpenMP allows for the
// region, so one simulated order decides race freedom of every order on this path.
#include "symrt.h"
#include "sym.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <malloc.h>
#include <map>
#include <set>
#include <unordered_map>

namespace symrt { int race_active = 0; }
using namespace symrt;

namespace {
struct Strand { u32 id; VC vc; char* base; char* spwatch; int children; Strand* parent; std::vector<VC> done; std::vector<VC> groupdone; bool intask; };
struct Acc { u32 strand, epoch; const char* site; };
struct Cellr { Acc w; bool hasw; bool watomic; std::vector<Acc> r; };
struct Race
{
	std::unordered_map<u64, Cellr> mem; std::set<std::string> seen; bool busy; u32 next; std::vector<std::string> names;
	Race() : busy(false), next(1) {}
};
Race& Q() { static Race* q = new Race; return *q; }
Strand* cur = nullptr;

u32 clk(const VC& v, u32 i) { return i < v.size() ? v[i] : 0; }
void setclk(VC& v, u32 i, u32 x) { if(v.size() <= i) v.resize(i + 1, 0); v[i] = x; }
void join(VC& a, const VC& b) { if(a.size() < b.size()) a.resize(b.size(), 0); for(size_t i = 0; i < b.size(); ++i) if(b[i] > a[i]) a[i] = b[i]; }
Strand* spawn(Strand* p)
{
	Strand* s = new Strand; s->id = Q().next++; s->children = 0; s->spwatch = nullptr; s->parent = p; s->base = (char*)__builtin_frame_address(0); s->intask = false;
	if(p) { s->vc = p->vc; setclk(p->vc, p->id, clk(p->vc, p->id) + 1); }
	setclk(s->vc, s->id, 1);
	return s;
}
void purge(const char* lo, const char* hi)
{
	Race& q = Q();
	if(q.mem.empty() || q.busy) return;
	q.busy = true;
	if(size_t(hi - lo) < q.mem.size() * 2) for(const char* p = lo; p < hi; ++p) q.mem.erase((u64)p);
	else for(auto it = q.mem.begin(); it != q.mem.end();) { if(it->first >= (u64)lo && it->first < (u64)hi) it = q.mem.erase(it); else ++it; }
	q.busy = false;
}
struct Co; struct Team;
struct Co { ucontext_t ctx; char* stk; bool finished; int tid; Strand* s; Team* team; };
struct Disp { u64 lb, ub, chunk, next; int64_t st; bool init; };
struct Team
{
	int n; std::vector<Co*> co; ucontext_t main; int cur; void* fn; std::vector<void*> a; std::vector<u32> sh; bool single_taken; int single_gen;
	std::vector<Disp> disp;           // per thread dispatch state
	std::vector<int> singles; int single_no;
};
std::vector<Team*> teams;
std::vector<char*> stacks;
const size_t STK = 1 << 21;
char* getstack() { if(!stacks.empty()) { char* s = stacks.back(); stacks.pop_back(); return s; } char* p = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p; }

char* stack_low(Strand*) { return nullptr; }
std::unordered_map<void*, VC> lockclk;
void acquire(void* l) { if(cur) join(cur->vc, lockclk[l]); }
void release(void* l) { if(cur) { lockclk[l] = cur->vc; setclk(cur->vc, cur->id, clk(cur->vc, cur->id) + 1); } }
}

namespace symrt {
void race_touch(const void* p, size_t n, int w, const char* site)
{
	if(!cur) return;
	Race& q = Q();
	if(q.busy) return;
	char here; const char* a = (const char*)p; (void)here;
	// private part of the current strand's stack
	if(a < cur->base && a >= (char*)__builtin_frame_address(0) - 65536 && !(cur->spwatch && a >= cur->spwatch)) return;
	q.busy = true;
	for(size_t i = 0; i < n; ++i)
	{
		Cellr& c = q.mem[(u64)a + i];
		Acc me = { cur->id, clk(cur->vc, cur->id), site };
		const Acc* bad = nullptr; const char* kind = "";
		if(c.hasw && c.w.strand != cur->id && c.w.epoch > clk(cur->vc, c.w.strand) && !(w == 2 && c.watomic)) { bad = &c.w; kind = w ? "write-write" : "write-read"; }
		if(w) for(auto& r : c.r) if(r.strand != cur->id && r.epoch > clk(cur->vc, r.strand)) { bad = &r; kind = "read-write"; break; }
		if(bad)
		{
			std::string s = std::string(kind) + " " + (bad->site ? bad->site : "?") + " || " + (site ? site : "?");
			if(q.seen.insert(s).second && q.seen.size() < 200) event("R %s", s.c_str());
		}
		if(w) { c.w = me; c.hasw = true; c.watomic = w == 2; c.r.clear(); }
		else
		{
			bool f = false;
			for(auto& r : c.r) if(r.strand == cur->id) { r = me; f = true; break; }
			if(!f) c.r.push_back(me);
		}
	}
	q.busy = false;
}
}

// ordering of the strands of other runtimes (oclrt.cpp)
namespace symrt {
void* hb_spawn(void* parent) { Strand* s = spawn((Strand*)parent); s->base = nullptr; return s; }
std::vector<u32>& hb_vc(void* s) { return ((Strand*)s)->vc; }
void hb_join(std::vector<u32>& a, const std::vector<u32>& b) { join(a, b); }
void hb_tick(void* s) { Strand* t = (Strand*)s; setclk(t->vc, t->id, clk(t->vc, t->id) + 1); }
void hb_enter(void* s, char* base) { cur = (Strand*)s; if(s) cur->base = base; race_active = s != nullptr; }
void hb_free(void* s) { delete (Strand*)s; }
void hb_purge(const char* lo, const char* hi) { purge(lo, hi); }
void hb_reset() { Q().mem.clear(); Q().next = 1; }
// the program's main thread as a strand of its own, for runtimes whose commands outlive a parallel region
static Strand* mainstrand = nullptr;
void* hb_current() { return cur; }
void hb_restore(void* s) { cur = (Strand*)s; race_active = s != nullptr; }
int hb_thread() { return teams.empty() ? 0 : teams.back()->cur; }
extern "C" void* __libc_stack_end;
void hb_main() { if(cur || !teams.empty()) return; if(!mainstrand) { mainstrand = spawn(nullptr); mainstrand->base = (char*)__libc_stack_end; } cur = mainstrand; race_active = 1; }
// everything has been waited for: the history may be forgotten
bool hb_quiet(const std::vector<VC*>& v)
{
	if(!teams.empty() || !cur || cur != mainstrand) return false;
	for(auto* x : v) for(size_t i = 0; i < x->size(); ++i) if((*x)[i] > clk(cur->vc, i)) return false;
	Q().busy = true; Q().mem.clear(); Q().busy = false; Q().next = 1; cur->id = Q().next++; cur->vc.clear(); setclk(cur->vc, cur->id, 1);
	return true;
}
}

static void co_main(unsigned lo, unsigned hi)
{
	Co* c = (Co*)((u64(hi) << 32) | lo);
	Team* t = c->team;
	int gtid = c->tid, btid = c->tid;
	c->s->base = (char*)&gtid + 4096 < c->stk + STK ? (char*)__builtin_frame_address(0) + 64 : c->stk + STK;
	void** a = t->a.data(); size_t n = t->a.size();
	std::vector<u32> sh(2, 0); sh.insert(sh.end(), t->sh.begin(), t->sh.end());
	call_prepare(t->fn, sh);
	#define A(k) (k < n ? a[k] : nullptr)
	((void(*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*))t->fn)
		(&gtid, &btid, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), A(11), A(12), A(13), A(14), A(15), A(16), A(17), A(18), A(19), A(20), A(21), A(22), A(23));
	c->finished = true;
	swapcontext(&c->ctx, &t->main);
}

static void run_team(Team* t)
{
	Strand* parent = cur; bool outer = teams.empty() ;
	Strand* root = parent;
	if(!root) { root = spawn(nullptr); }
	int oldactive = race_active;
	if(t->n > 1) race_active = 1;
	teams.push_back(t);
	for(int i = 0; i < t->n; ++i)
	{
		Co* c = new Co; c->stk = getstack(); c->finished = false; c->tid = i; c->team = t; c->s = spawn(root);
		getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stk; c->ctx.uc_stack.ss_size = STK; c->ctx.uc_link = nullptr;
		u64 q = (u64)c;
		makecontext(&c->ctx, (void(*)())co_main, 2, (unsigned)(q & 0xffffffffu), (unsigned)(q >> 32));
		t->co.push_back(c);
	}
	t->disp.resize(t->n); t->singles.resize(t->n, 0);
	for(auto& d : t->disp) d.init = false;
	t->single_no = 0;
	bool all = false;
	while(!all)
	{
		for(int i = 0; i < t->n; ++i)
		{
			Co* c = t->co[i];
			if(c->finished) continue;
			t->cur = i; cur = c->s;
			swapcontext(&t->main, &c->ctx);
			c->s = cur;
		}
		all = true;
		for(auto* c : t->co) if(!c->finished) all = false;
		// barrier: everybody knows everything (and all tasks complete at a barrier)
		VC j; for(auto* c : t->co) { join(j, c->s->vc); for(auto& d : c->s->done) join(j, d); for(auto& d : c->s->groupdone) join(j, d); c->s->done.clear(); c->s->groupdone.clear(); }
		for(auto* c : t->co) { c->s->vc = j; setclk(c->s->vc, c->s->id, clk(j, c->s->id) + 1); c->s->spwatch = nullptr; c->s->children = 0; }
		if(all) join(root->vc, j);
	}
	for(auto* c : t->co) { purge(c->stk, c->stk + STK); stacks.push_back(c->stk); delete c->s; delete c; }
	teams.pop_back();
	race_active = oldactive;
	cur = parent;
	if(outer && !parent) { Q().mem.clear(); delete root; }
}

extern "C" {
struct ident_t; typedef int32_t kint;
static int push_threads = 0;
void __kmpc_fork_call(ident_t*, kint argc, void* fn, ...)
{
	bool ok = native_enter((const void*)__kmpc_fork_call);
	Team t; t.fn = fn; t.cur = 0;
	va_list ap; va_start(ap, fn);
	for(int i = 0; i < argc; ++i) { t.a.push_back(va_arg(ap, void*)); t.sh.push_back(ok ? arg(3 + i) : 0); }
	va_end(ap);
	if(argc > 24) { event("X fork_call with %d arguments", argc); abort(); }
	t.n = teams.empty() ? (push_threads ? push_threads : omp_threads) : 1;
	push_threads = 0;
	run_team(&t);
	call_done();
}
void __kmpc_fork_call_if(ident_t*, kint argc, void* fn, kint cond, void* args)
{
	native_enter((const void*)__kmpc_fork_call_if);
	Team t; t.fn = fn; t.cur = 0; if(argc) { t.a.push_back(args); t.sh.push_back(0); }
	t.n = teams.empty() && cond ? omp_threads : 1;
	run_team(&t); call_done();
}
void __kmpc_push_num_threads(ident_t*, kint, kint n) { native_enter((const void*)__kmpc_push_num_threads); push_threads = n; }
kint __kmpc_global_thread_num(ident_t*) { native_enter((const void*)__kmpc_global_thread_num); call_done(); return teams.empty() ? 0 : teams.back()->cur; }
void __kmpc_serialized_parallel(ident_t*, kint) { native_enter((const void*)__kmpc_serialized_parallel); }
void __kmpc_end_serialized_parallel(ident_t*, kint) { native_enter((const void*)__kmpc_end_serialized_parallel); }

#define STATIC_INIT(SUF, T, ST) \
void __kmpc_for_static_init_##SUF(ident_t*, kint gtid, kint sched, kint* last, T* lb, T* ub, ST* stride, ST incr, ST chunk) \
{ \
	native_enter((const void*)__kmpc_for_static_init_##SUF); call_done(); \
	/* loop bounds: a symbolic trip count is concretised (reported) */ \
	u32 el = shadow_load(lb, sizeof(T) * 8, (u64)*lb), eu = shadow_load(ub, sizeof(T) * 8, (u64)*ub); \
	if(el) concretize(el, sizeof(T) * 8, sizeof(T) == 4 ? (u64)(u32)*lb : (u64)*lb, "omp loop lower bound"); \
	if(eu) concretize(eu, sizeof(T) * 8, sizeof(T) == 4 ? (u64)(u32)*ub : (u64)*ub, "omp loop upper bound"); \
	int n = teams.empty() ? 1 : teams.back()->n; int t = teams.empty() ? 0 : teams.back()->cur; (void)gtid; \
	shadow_clear(lb, sizeof *lb); shadow_clear(ub, sizeof *ub); shadow_clear(stride, sizeof *stride); shadow_clear(last, 4); \
	bool empty = incr > 0 ? *ub < *lb : *lb < *ub; \
	if(empty) { *last = 0; *stride = incr; return; } \
	u64 trip = incr > 0 ? (u64)(*ub - *lb) / (u64)incr + 1 : (u64)(*lb - *ub) / (u64)(-incr) + 1; \
	int s = sched & 0xffff; \
	if(s == 33) /* static chunked */ \
	{ \
		if(chunk < 1) chunk = 1; \
		ST span = chunk * incr; *stride = span * n; *last = t == (int)((trip - 1) / chunk) % n; \
		*lb = *lb + (T)(span * t); *ub = *lb + (T)(span - incr); \
	} \
	else \
	{ \
		u64 small = trip / n, extra = trip % n; \
		u64 start = t * small + ((u64)t < extra ? t : extra), len = small + ((u64)t < extra ? 1 : 0); \
		T l0 = *lb; *last = len && start + len == trip; *stride = (ST)trip * incr; \
		if(!len) { if(incr > 0) { *lb = *ub + (T)incr; } else { *lb = *ub + (T)incr; } return; } \
		*lb = l0 + (T)((ST)start * incr); *ub = l0 + (T)((ST)(start + len - 1) * incr); \
	} \
}
STATIC_INIT(4, int32_t, int32_t)
STATIC_INIT(4u, uint32_t, int32_t)
STATIC_INIT(8, int64_t, int64_t)
STATIC_INIT(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident_t*, kint) { native_enter((const void*)__kmpc_for_static_fini); }

#define DISPATCH(SUF, T, ST) \
void __kmpc_dispatch_init_##SUF(ident_t*, kint, kint, T lb, T ub, ST st, ST chunk) \
{ \
	bool ok = native_enter((const void*)__kmpc_dispatch_init_##SUF); \
	if(ok) { if(arg(3)) concretize(arg(3), sizeof(T) * 8, (u64)lb, "omp loop lower bound"); if(arg(4)) concretize(arg(4), sizeof(T) * 8, (u64)ub, "omp loop upper bound"); } \
	call_done(); \
	Team* t = teams.back(); Disp& d = t->disp[t->cur]; \
	d.lb = (u64)lb; d.st = st; d.chunk = chunk < 1 ? 1 : chunk; d.init = true; d.next = t->cur; \
	bool empty = st > 0 ? ub < lb : lb < ub; \
	d.ub = empty ? 0 : (st > 0 ? (u64)(ub - lb) / (u64)st + 1 : (u64)(lb - ub) / (u64)(-st) + 1); /* trip count */ \
} \
kint __kmpc_dispatch_next_##SUF(ident_t*, kint, kint* last, T* lb, T* ub, ST* st) \
{ \
	native_enter((const void*)__kmpc_dispatch_next_##SUF); call_done(); \
	Team* t = teams.back(); Disp& d = t->disp[t->cur]; \
	u64 first = d.next * d.chunk; \
	if(first >= d.ub) { d.init = false; return 0; } \
	u64 l = first + d.chunk; if(l > d.ub) l = d.ub; \
	shadow_clear(lb, sizeof *lb); shadow_clear(ub, sizeof *ub); shadow_clear(st, sizeof *st); if(last) shadow_clear(last, 4); \
	*lb = (T)((ST)d.lb + (ST)first * (ST)d.st); *ub = (T)((ST)d.lb + (ST)(l - 1) * (ST)d.st); *st = (ST)d.st; if(last) *last = l == d.ub; \
	d.next += t->n; \
	return 1; \
} \
void __kmpc_dispatch_fini_##SUF(ident_t*, kint) { native_enter((const void*)__kmpc_dispatch_fini_##SUF); }
DISPATCH(4, int32_t, int32_t)
DISPATCH(4u, uint32_t, int32_t)
DISPATCH(8, int64_t, int64_t)
DISPATCH(8u, uint64_t, int64_t)
void __kmpc_dispatch_deinit(ident_t*, kint) { native_enter((const void*)__kmpc_dispatch_deinit); }

static void barrier_impl()
{
	if(teams.empty()) return;
	Team* t = teams.back(); Co* c = t->co[t->cur];
	swapcontext(&c->ctx, &t->main);
}
void __kmpc_barrier(ident_t*, kint) { native_enter((const void*)__kmpc_barrier); barrier_impl(); call_done(); }
kint __kmpc_cancel_barrier(ident_t*, kint) { native_enter((const void*)__kmpc_cancel_barrier); barrier_impl(); call_done(); return 0; }
kint __kmpc_single(ident_t*, kint)
{
	native_enter((const void*)__kmpc_single); call_done();
	if(teams.empty()) return 1;
	Team* t = teams.back(); int my = t->singles[t->cur]++;
	if(my == t->single_no) { t->single_no++; return 1; }
	return 0;
}
void __kmpc_end_single(ident_t*, kint) { native_enter((const void*)__kmpc_end_single); }
kint __kmpc_master(ident_t*, kint) { native_enter((const void*)__kmpc_master); call_done(); return teams.empty() || teams.back()->cur == 0; }
void __kmpc_end_master(ident_t*, kint) { native_enter((const void*)__kmpc_end_master); }
kint __kmpc_masked(ident_t*, kint, kint f) { native_enter((const void*)__kmpc_masked); call_done(); return teams.empty() || teams.back()->cur == f; }
void __kmpc_end_masked(ident_t*, kint) { native_enter((const void*)__kmpc_end_masked); }
void __kmpc_critical(ident_t*, kint, void* l) { native_enter((const void*)__kmpc_critical); acquire(l); }
void __kmpc_critical_with_hint(ident_t*, kint, void* l, uint32_t) { native_enter((const void*)__kmpc_critical_with_hint); acquire(l); }
void __kmpc_end_critical(ident_t*, kint, void* l) { native_enter((const void*)__kmpc_end_critical); release(l); }
static int redlock, atomlock;
kint __kmpc_reduce(ident_t*, kint, kint, size_t, void*, void*, void*) { native_enter((const void*)__kmpc_reduce); call_done(); acquire(&redlock); return 1; }
void __kmpc_end_reduce(ident_t*, kint, void*) { native_enter((const void*)__kmpc_end_reduce); release(&redlock); barrier_impl(); call_done(); }
kint __kmpc_reduce_nowait(ident_t*, kint, kint, size_t, void*, void*, void*) { native_enter((const void*)__kmpc_reduce_nowait); call_done(); acquire(&redlock); return 1; }
void __kmpc_end_reduce_nowait(ident_t*, kint, void*) { native_enter((const void*)__kmpc_end_reduce_nowait); release(&redlock); }
void __kmpc_atomic_start(void) { native_enter((const void*)__kmpc_atomic_start); acquire(&atomlock); }
void __kmpc_atomic_end(void) { native_enter((const void*)__kmpc_atomic_end); release(&atomlock); }
void __kmpc_flush(ident_t*) { native_enter((const void*)__kmpc_flush); }
void __kmpc_ordered(ident_t*, kint) { native_enter((const void*)__kmpc_ordered); acquire(&atomlock); }
void __kmpc_end_ordered(ident_t*, kint) { native_enter((const void*)__kmpc_end_ordered); release(&atomlock); }

struct Task { void* shareds; int (*entry)(int, Task*); int part; void* d1; void* d2; };
void* __kmpc_omp_task_alloc(ident_t*, kint, kint, size_t sz, size_t ssz, int (*entry)(int, Task*))
{
	native_enter((const void*)__kmpc_omp_task_alloc); call_done();
	sz = (sz + 15) & ~size_t(15);
	Task* t = (Task*)calloc(1, sz + ssz + 64);
	t->shareds = ssz ? (char*)t + sz : nullptr; t->entry = entry;
	return t;
}
static void run_task(Task* t)
{
	Strand* p = cur; 
	if(!p) { t->entry(0, t); call_done(); return; }
	Strand* s = spawn(p); s->intask = true;
	if(!p->spwatch) p->spwatch = (char*)__builtin_frame_address(0);
	p->children++;
	s->base = (char*)__builtin_frame_address(0);
	cur = s;
	call_prepare_none();
	t->entry(teams.empty() ? 0 : teams.back()->cur, t);
	call_done();
	// children of the finished task that were not waited for complete no later than the region
	p->done.push_back(s->vc);
	for(auto& d : s->done) p->groupdone.push_back(d);
	for(auto& d : s->groupdone) p->groupdone.push_back(d);
	purge(s->base - 200000, s->base);
	cur = p; delete s;
}
kint __kmpc_omp_task(ident_t*, kint, Task* t) { native_enter((const void*)__kmpc_omp_task); run_task(t); return 0; }
kint __kmpc_omp_task_with_deps(ident_t*, kint, Task* t, kint, void*, kint, void*) { native_enter((const void*)__kmpc_omp_task_with_deps); run_task(t); return 0; }
void __kmpc_omp_task_begin_if0(ident_t*, kint, Task*) { native_enter((const void*)__kmpc_omp_task_begin_if0); }
void __kmpc_omp_task_complete_if0(ident_t*, kint, Task*) { native_enter((const void*)__kmpc_omp_task_complete_if0); }
kint __kmpc_omp_taskyield(ident_t*, kint, int) { native_enter((const void*)__kmpc_omp_taskyield); call_done(); return 0; }
kint __kmpc_omp_taskwait(ident_t*, kint)
{
	native_enter((const void*)__kmpc_omp_taskwait); call_done();
	if(cur) { for(auto& d : cur->done) join(cur->vc, d); cur->done.clear(); cur->spwatch = nullptr; cur->children = 0; }
	return 0;
}
void __kmpc_taskgroup(ident_t*, int) { native_enter((const void*)__kmpc_taskgroup); }
void __kmpc_end_taskgroup(ident_t*, int)
{
	native_enter((const void*)__kmpc_end_taskgroup);
	if(cur) { for(auto& d : cur->done) join(cur->vc, d); for(auto& d : cur->groupdone) join(cur->vc, d); cur->done.clear(); cur->groupdone.clear(); cur->spwatch = nullptr; }
}
int omp_get_max_threads(void) { native_enter((const void*)omp_get_max_threads); call_done(); return omp_threads; }
int omp_get_num_procs(void) { native_enter((const void*)omp_get_num_procs); call_done(); return omp_threads; }
int omp_get_thread_limit(void) { native_enter((const void*)omp_get_thread_limit); call_done(); return omp_threads; }
int omp_get_num_threads(void) { native_enter((const void*)omp_get_num_threads); call_done(); return teams.empty() ? 1 : teams.back()->n; }
int omp_get_thread_num(void) { native_enter((const void*)omp_get_thread_num); call_done(); return teams.empty() ? 0 : teams.back()->cur; }
int omp_in_parallel(void) { native_enter((const void*)omp_in_parallel); call_done(); return !teams.empty() && teams[0]->n > 1; }
int omp_in_final(void) { native_enter((const void*)omp_in_final); call_done(); return 0; }
int omp_get_level(void) { native_enter((const void*)omp_get_level); call_done(); return teams.size(); }
void omp_set_num_threads(int n) { native_enter((const void*)omp_set_num_threads); omp_threads = n; }
void omp_set_nested(int) { native_enter((const void*)omp_set_nested); }
int omp_get_nested(void) { native_enter((const void*)omp_get_nested); call_done(); return 0; }
void omp_set_dynamic(int) { native_enter((const void*)omp_set_dynamic); }
int omp_get_dynamic(void) { native_enter((const void*)omp_get_dynamic); call_done(); return 0; }
double omp_get_wtime(void) { native_enter((const void*)omp_get_wtime); call_done(); static double t = 1; t += 0.25; return t; }
double omp_get_wtick(void) { native_enter((const void*)omp_get_wtick); call_done(); return 1e-9; }
void omp_init_lock(void*) { native_enter((const void*)omp_init_lock); }
void omp_destroy_lock(void*) { native_enter((const void*)omp_destroy_lock); }
void omp_set_lock(void* l) { native_enter((const void*)omp_set_lock); acquire(l); }
void omp_unset_lock(void* l) { native_enter((const void*)omp_unset_lock); release(l); }
int omp_test_lock(void* l) { native_enter((const void*)omp_test_lock); call_done(); acquire(l); return 1; }

// ---- heap hooks: blocks end in a poisoned zone, freed blocks are quarantined and lose their shadow and history
void __libc_free(void*); void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t);
static const size_t RZ = 32;
struct QEnt { void* p; size_t n; };
static QEnt quar[1 << 14]; static unsigned qh, qt; static size_t qbytes;
void* malloc(size_t n)
{
	void* p = __libc_malloc(n + RZ);
	if(p) { poison(p, n, 0); poison((char*)p + n, RZ, 1); }
	return p;
}
void* calloc(size_t a, size_t b)
{
	if(b && a > (~(size_t)0 - RZ) / b) return nullptr;
	size_t n = a * b; void* p = __libc_calloc(1, n + RZ);
	if(p) { poison(p, n, 0); poison((char*)p + n, RZ, 1); }
	return p;
}
void free(void* p)
{
	if(!p) return;
	size_t n = malloc_usable_size(p);
	shadow_clear(p, n);
	if(race_active && n) purge((char*)p, (char*)p + n);
	if(n > (1 << 20)) { poison(p, n, 0); __libc_free(p); return; }
	poison(p, n, 2);
	quar[qh % (1 << 14)] = QEnt{p, n}; ++qh; qbytes += n;
	while(qh - qt > (1 << 14) - 8 || qbytes > (8u << 20)) { QEnt& e = quar[qt % (1 << 14)]; ++qt; qbytes -= e.n; poison(e.p, e.n, 0); __libc_free(e.p); }
}
void* realloc(void* p, size_t n)
{
	if(!p) return malloc(n);
	if(n == 0) { free(p); return nullptr; }
	size_t o = malloc_usable_size(p);
	void* q = malloc(n);
	if(!q) return nullptr;
	size_t m = o < n ? o : n;
	memcpy(q, p, m); shadow_copy(q, p, m);
	free(p);
	return q;
}
}
