// CUDA devices for the program under test. Kernels are the program's own code (cu.py makes launches plain calls). Each device has
// a legacy default stream, which is ordered with the blocking streams of that device as CUDA prescribes; streams of different
// devices are not ordered. Commands run when they are issued (lazy=0) or only once somebody waits for them (lazy=1), threads of a
// block are coroutines that switch at __syncthreads, and every access is checked against the ordering that streams, waits and
// barriers guarantee. Memory of other devices and of the host is out of reach for a kernel, device memory for the host. New
// memory holds garbage.
#include "cudastub/cuda_runtime.h"
#include "cudastub/nccl.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdio.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <mutex>
#ifdef SYM_NATIVE
typedef std::vector<unsigned> VC;
static std::recursive_mutex big; static thread_local int tdev = 0;
#define ENTER(f) std::lock_guard<std::recursive_mutex> lock_(big)
static void* hb_spawn(void*) { return nullptr; } static VC& hb_vc(void*) { static VC v; v.clear(); return v; } static void hb_tick(void*) {} static void hb_enter(void*, char*) {} static void hb_free(void*) {} static void hb_purge(const char*, const char*) {} static void hb_join(VC&, const VC&) {}
static void* hb_current() { return nullptr; } static void hb_restore(void*) {} static void hb_main() {} static bool hb_quiet(const std::vector<VC*>&) { return false; }
static void touch(const void*, size_t, int, const char*) {}
static void scopy(void*, const void*, size_t) {} static void sclear(void*, size_t) {} static void prep() {} static void hide(const void*, size_t, bool) {}
static void bad(const char* what) { printf("CHECKFAIL %s\n", what); fflush(stdout); _exit(3); }
static int& cdev() { return tdev; }
#else
#include "symrt.h"
using namespace symrt;
extern "C" void __s_touch(const void* p, u64 n, u32 w, const char* site);
#define ENTER(f) do { native_enter((const void*)f); call_done(); hb_main(); } while(0)
static void touch(const void* p, size_t n, int w, const char* s) { __s_touch(p, n, w, s); }
static void scopy(void* d, const void* s, size_t n) { shadow_copy(d, s, n); } static void sclear(void* d, size_t n) { shadow_clear(d, n); } static void prep() { call_prepare_none(); }
static void hide(const void* p, size_t n, bool h) { poison(p, n, h ? 1 : 0); }
static void bad(const char* what) { event("C bool %%0 0 %s", what); }
static int& cdev() { static std::map<int, int> m; return m[hb_thread()]; }
#endif
static int param(const char* n, int d) { const char* e = getenv(n); return e ? atoi(e) : d; }
static bool lazy() { static int v = -1; if(v < 0) v = param("SYMP_lazy", 0); return v != 0; }
static int ndev() { static int v = -1; if(v < 0) v = param("SYMP_gpus", 4); return v; }

struct Cmd;
struct SymStream { int dev; bool legacy, free; Cmd* last; };
struct Cmd
{
	int rc; bool done, running; std::vector<Cmd*> after; VC start, end;
	char* src; char* dst; size_t len, rows, srow, drow; char* stage; int value; bool set;
	void (*run)(void*); void (*del)(void*); void* clo; unsigned g[3], b[3]; size_t shared; int dev; const char* name;
	std::vector<void*> in, out; size_t count, elem; void (*red)(void**, void**, int, size_t); std::vector<int> devs;
	int kind;
};
struct SymEvent { Cmd* at; };
struct Block { char* p; size_t n; int dev; };
static std::map<char*, Block> blocks;
static std::vector<SymStream*> streams;
static SymStream* legacy(int d) { static std::vector<SymStream*> v; while((int)v.size() <= d) { SymStream* s = new SymStream; s->dev = (int)v.size(); s->legacy = true; s->free = false; s->last = nullptr; v.push_back(s); streams.push_back(s); } return v[d]; }
static SymStream* stream(cudaStream_t s) { return !s || s == cudaStreamLegacy ? legacy(cdev()) : s; }
static cudaError_t sticky = cudaSuccess;
static cudaError_t fail(cudaError_t e, const char* what) { bad(what); return sticky = e; }
static Block* block_of(const void* p)
{
	auto it = blocks.upper_bound((char*)p); if(it == blocks.begin()) return nullptr; --it;
	return (char*)p < it->second.p + it->second.n ? &it->second : nullptr;
}
static void drop(Cmd* c) { if(!c || --c->rc) return; for(auto* x : c->after) drop(x); if(c->del) c->del(c->clo); free(c->stage); delete c; }
static void garbage(char* p, size_t n)
{
	static unsigned k = 0; sclear(p, n);
	for(size_t i = 0; i + 8 <= n; i += 8) { double g = (k++ % 2 ? -1.0 : 1.0) * (3.7e40 + 1e38 * (k % 97)); memcpy(p + i, &g, 8); }
	for(size_t i = n & ~size_t(7); i < n; ++i) p[i] = (char)0xA5;
}

// ---------------------------------------------------------------------------------------------- threads of a block
static const size_t STK = 1 << 18;
struct Item { ucontext_t ctx; char* stk; bool done; void* s; };
struct Group { Cmd* c; unsigned id[3]; std::vector<Item> it; ucontext_t main; size_t cur; char* shared; };
static Group* grp = nullptr; static std::vector<char*> stks;
extern "C" char __start_symshared[] __attribute__((weak)); extern "C" char __stop_symshared[] __attribute__((weak));
static void item_main() { Group* g = grp; prep(); g->c->run(g->c->clo); g = grp; g->it[g->cur].done = true; swapcontext(&g->it[g->cur].ctx, &g->main); }
extern "C" unsigned sym_cuda_id(unsigned what, unsigned d)
{
#ifndef SYM_NATIVE
	native_enter((const void*)sym_cuda_id); call_done();
#endif
	if(!grp) return 0;
	Cmd* c = grp->c; size_t li = grp->cur; for(unsigned k = 0; k < d; ++k) li /= c->b[k];
	return what == 0 ? unsigned(li % c->b[d]) : what == 1 ? grp->id[d] : what == 2 ? c->b[d] : c->g[d];
}
extern "C" void* sym_cuda_shared()
{
#ifndef SYM_NATIVE
	native_enter((const void*)sym_cuda_shared); call_done();
#endif
	return grp->shared;
}
extern "C" void __syncthreads()
{
#ifndef SYM_NATIVE
	native_enter((const void*)__syncthreads); call_done();
#endif
	Group* g = grp; swapcontext(&g->it[g->cur].ctx, &g->main);
}
static void run_block(Cmd* c, unsigned x, unsigned y, unsigned z, void* strand, VC& total)
{
	Group g; g.c = c; g.id[0] = x; g.id[1] = y; g.id[2] = z; g.cur = 0; g.shared = (char*)malloc(c->shared ? c->shared : 1); garbage(g.shared, c->shared);
	if(__start_symshared && __start_symshared != __stop_symshared) { hb_purge(__start_symshared, __stop_symshared); garbage(__start_symshared, __stop_symshared - __start_symshared); }
	size_t n = size_t(c->b[0]) * c->b[1] * c->b[2];
	g.it.resize(n); grp = &g;
	for(size_t i = 0; i < n; ++i)
	{
		Item& t = g.it[i]; t.done = false; t.s = hb_spawn(strand);
		if(stks.empty()) t.stk = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); else { t.stk = stks.back(); stks.pop_back(); }
		getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stk; t.ctx.uc_stack.ss_size = STK; t.ctx.uc_link = nullptr; makecontext(&t.ctx, item_main, 0);
	}
	bool rev = lazy();
	for(;;)
	{
		size_t fin = 0;
		for(size_t k = 0; k < n; ++k)
		{
			size_t i = rev ? n - 1 - k : k;
			if(g.it[i].done) continue;
			g.cur = i; hb_enter(g.it[i].s, g.it[i].stk + STK);
			swapcontext(&g.main, &g.it[i].ctx);
		}
		VC j; for(auto& t : g.it) { hb_join(j, hb_vc(t.s)); fin += t.done; }
		if(fin != n) for(auto& t : g.it) { hb_vc(t.s) = j; hb_tick(t.s); }
		hb_join(total, j);
		if(fin == n) break;
		if(fin) { bad("all threads of a block reach the same barriers"); break; }
	}
	for(auto& t : g.it) { hb_purge(t.stk, t.stk + STK); stks.push_back(t.stk); hb_free(t.s); }
	free(g.shared); grp = nullptr;
}
static void reach(int dev, bool on) { for(auto& b : blocks) if(b.second.dev == dev) hide(b.second.p, b.second.n, !on); }
static void execute(Cmd* c)
{
	if(c->done || c->running) return;
	c->running = true;
	for(auto* x : c->after) execute(x);
	void* old = hb_current(); void* s = hb_spawn(nullptr); VC& v = hb_vc(s);
	hb_join(v, c->start); for(auto* x : c->after) hb_join(v, x->end);
	if(c->kind == 0)
	{
		hb_enter(s, nullptr);
		for(size_t r = 0; r < c->rows; ++r)
		{
			char* sp = c->src + r * c->srow; char* dp = c->dst + r * c->drow;
			if(c->set) { hide(dp, c->len, false); touch(dp, c->len, 1, "cudaMemset"); memset(dp, c->value, c->len); sclear(dp, c->len); hide(dp, c->len, true); continue; }
			Block* sb = block_of(sp); Block* db = block_of(dp); if(sb) hide(sp, c->len, false); if(db) hide(dp, c->len, false);
			if(!c->stage) touch(sp, c->len, 0, sb && db ? "copy between buffers" : "read of a buffer"); touch(dp, c->len, 1, sb && db ? "copy between buffers" : db ? "write of a buffer" : "read of a buffer");
			memmove(dp, sp, c->len); scopy(dp, sp, c->len);
			if(sb) hide(sp, c->len, true); if(db) hide(dp, c->len, true);
		}
	}
	else if(c->kind == 1)
	{
		VC total; reach(c->dev, true);
		for(unsigned z = 0; z < c->g[2]; ++z) for(unsigned y = 0; y < c->g[1]; ++y) for(unsigned x = 0; x < c->g[0]; ++x) run_block(c, x, y, z, s, total);
		reach(c->dev, false); hb_join(hb_vc(s), total);
	}
	else if(c->kind == 3)
	{
		hb_enter(s, nullptr); size_t bytes = c->count * c->elem;
		for(int d : c->devs) reach(d, true);
		if(c->red)
		{
			std::vector<void*> tmp; for(void* p : c->in) { char* t = (char*)malloc(bytes); touch(p, bytes, 0, "ncclAllReduce"); memcpy(t, p, bytes); scopy(t, p, bytes); tmp.push_back(t); }
			for(void* p : c->out) touch(p, bytes, 1, "ncclAllReduce");
			prep(); c->red(tmp.data(), c->out.data(), (int)c->out.size(), c->count);
			for(void* p : tmp) free(p);
		}
		else
		{
			std::vector<char*> tmp; for(void* p : c->in) { char* t = (char*)malloc(bytes); touch(p, bytes, 0, "ncclAllGather"); memcpy(t, p, bytes); scopy(t, p, bytes); tmp.push_back(t); }
			for(void* p : c->out) for(size_t r = 0; r < tmp.size(); ++r) { char* d = (char*)p + r * bytes; if(d == c->in[r]) continue; touch(d, bytes, 1, "ncclAllGather"); memcpy(d, tmp[r], bytes); scopy(d, tmp[r], bytes); }
			for(char* p : tmp) free(p);
		}
		for(int d : c->devs) reach(d, false);
	}
	hb_tick(s); c->end = hb_vc(s); hb_free(s); hb_restore(old);
	for(auto* x : c->after) drop(x); c->after.clear();
	c->done = true;
}
static void wait_cmd(Cmd* c) { if(!c) return; execute(c); void* me = hb_current(); if(me) hb_join(hb_vc(me), c->end); }
static Cmd* command(int kind)
{
	Cmd* c = new Cmd; c->rc = 1; c->done = c->running = c->set = false; c->kind = kind; c->src = c->dst = c->stage = nullptr; c->run = nullptr; c->del = nullptr; c->clo = nullptr; c->dev = cdev(); c->red = nullptr; c->rows = 1; c->srow = c->drow = 0; c->name = "";
	return c;
}
static void after(Cmd* c, Cmd* x) { if(x && x != c) { x->rc++; c->after.push_back(x); } }
// a command's place in a stream: behind the stream, and behind what the default stream is ordered with
static void enqueue(Cmd* c, SymStream* s)
{
	after(c, s->last);
	for(auto* t : streams) if(t != s && t->dev == s->dev && !t->free && !s->free && (t->legacy || s->legacy)) after(c, t->last);
	drop(s->last); s->last = c; c->rc++;
}
static void submit(Cmd* c)
{
	void* me = hb_current(); if(me) { c->start = hb_vc(me); hb_tick(me); }
	if(!lazy()) execute(c);
	drop(c);
}
static void wait_stream(SymStream* s) { wait_cmd(s->last); }
static void quiesce()
{
	std::vector<VC*> v; for(auto* s : streams) if(s->last) { if(!s->last->done) return; v.push_back(&s->last->end); }
	if(hb_quiet(v)) for(auto* s : streams) { drop(s->last); s->last = nullptr; }
}
static cudaError_t copy(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k, SymStream* st, bool sync)
{
	if(!w || !h) return cudaSuccess;
	if(h > 1 && (dp < w || sp < w)) return fail(cudaErrorInvalidValue, "pitch of a copy");
	Block* sb = block_of(s); Block* db = block_of(d); size_t se = (h - 1) * sp + w, de = (h - 1) * dp + w;
	bool sd = k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice || (k == cudaMemcpyDefault && sb), dd = k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice || (k == cudaMemcpyDefault && db);
	if(sd != (sb != nullptr) || dd != (db != nullptr)) return fail(cudaErrorInvalidValue, "direction of a copy");
	if(sb && (char*)s + se > sb->p + sb->n) return fail(cudaErrorInvalidValue, "a copy stays inside its buffers");
	if(db && (char*)d + de > db->p + db->n) return fail(cudaErrorInvalidValue, "a copy stays inside its buffers");
	Cmd* c = command(0); c->src = (char*)s; c->dst = (char*)d; c->len = w; c->rows = h; c->srow = sp; c->drow = dp;
	if(!sb) { c->stage = (char*)malloc(se); for(size_t r = 0; r < h; ++r) touch((char*)s + r * sp, w, 0, "write of a buffer"); memcpy(c->stage, s, se); scopy(c->stage, s, se); c->src = c->stage; }   // pageable memory: staged before the call returns
	enqueue(c, st);
	// a copy in a default stream between two devices is ordered with both
	if(st->legacy && sb && db) { for(int dv : {sb->dev, db->dev}) if(dv != st->dev) { legacy(dv); for(auto* t : streams) if(t->dev == dv && !t->free) { after(c, t->last); if(t->legacy) { drop(t->last); t->last = c; c->rc++; } } } }
	c->rc++; submit(c);
	if(!db) wait_cmd(c);   // to pageable memory: complete when the call returns
	(void)sync; drop(c);
	return cudaSuccess;
}
static SymStream* checked(cudaStream_t s) { SymStream* t = stream(s); if(t->dev != cdev() && !t->legacy) {} return t; }

extern "C" {
const char* cudaGetErrorString(cudaError_t) { ENTER(cudaGetErrorString); return "error"; }
const char* cudaGetErrorName(cudaError_t) { ENTER(cudaGetErrorName); return "error"; }
cudaError_t cudaGetDeviceCount(int* n) { ENTER(cudaGetDeviceCount); *n = ndev(); sclear(n, sizeof *n); return ndev() ? cudaSuccess : cudaErrorNoDevice; }
cudaError_t cudaSetDevice(int d) { ENTER(cudaSetDevice); if(d < 0 || d >= ndev()) return fail(cudaErrorInvalidDevice, "an existing device is selected"); legacy(d); cdev() = d; return cudaSuccess; }
cudaError_t cudaGetDevice(int* d) { ENTER(cudaGetDevice); *d = cdev(); sclear(d, sizeof *d); return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) { ENTER(cudaGetDeviceProperties); if(d < 0 || d >= ndev()) return fail(cudaErrorInvalidDevice, "an existing device is selected"); memset(p, 0, sizeof *p); sclear(p, sizeof *p); strcpy(p->name, "model"); p->maxThreadsPerBlock = 1024; return cudaSuccess; }
cudaError_t cudaDeviceSynchronize() { ENTER(cudaDeviceSynchronize); legacy(cdev()); for(auto* s : streams) if(s->dev == cdev()) wait_stream(s); quiesce(); return cudaSuccess; }
cudaError_t cudaDeviceReset() { ENTER(cudaDeviceReset); return cudaSuccess; }
cudaError_t cudaGetLastError() { ENTER(cudaGetLastError); cudaError_t e = sticky; sticky = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { ENTER(cudaPeekAtLastError); return sticky; }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned f) { ENTER(cudaStreamCreateWithFlags); *s = new SymStream; sclear(s, sizeof *s); (*s)->dev = cdev(); (*s)->legacy = false; (*s)->free = f & cudaStreamNonBlocking; (*s)->last = nullptr; legacy(cdev()); streams.push_back(*s); return cudaSuccess; }
cudaError_t cudaStreamCreate(cudaStream_t* s) { ENTER(cudaStreamCreate); *s = new SymStream; sclear(s, sizeof *s); (*s)->dev = cdev(); (*s)->legacy = (*s)->free = false; (*s)->last = nullptr; legacy(cdev()); streams.push_back(*s); return cudaSuccess; }
cudaError_t cudaStreamDestroy(cudaStream_t s) { ENTER(cudaStreamDestroy); for(size_t i = 0; i < streams.size(); ++i) if(streams[i] == s && !s->legacy) { wait_stream(s); return cudaSuccess; } return fail(cudaErrorInvalidResourceHandle, "an existing stream is destroyed"); }
cudaError_t cudaStreamSynchronize(cudaStream_t s) { ENTER(cudaStreamSynchronize); wait_stream(stream(s)); quiesce(); return cudaSuccess; }
cudaError_t cudaStreamQuery(cudaStream_t s) { ENTER(cudaStreamQuery); SymStream* t = stream(s); return !t->last || t->last->done ? cudaSuccess : cudaErrorNotReady; }
cudaError_t cudaEventCreate(cudaEvent_t* e) { ENTER(cudaEventCreate); *e = new SymEvent; (*e)->at = nullptr; sclear(e, sizeof *e); return cudaSuccess; }
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { ENTER(cudaEventCreateWithFlags); *e = new SymEvent; (*e)->at = nullptr; sclear(e, sizeof *e); return cudaSuccess; }
cudaError_t cudaEventDestroy(cudaEvent_t e) { ENTER(cudaEventDestroy); drop(e->at); delete e; return cudaSuccess; }
cudaError_t sym_event_record(cudaEvent_t e, cudaStream_t s) { ENTER(sym_event_record); Cmd* c = command(2); enqueue(c, stream(s)); drop(e->at); e->at = c; c->rc++; submit(c); return cudaSuccess; }
cudaError_t cudaEventSynchronize(cudaEvent_t e) { ENTER(cudaEventSynchronize); wait_cmd(e->at); return cudaSuccess; }
cudaError_t sym_stream_wait(cudaStream_t s, cudaEvent_t e) { ENTER(sym_stream_wait); Cmd* c = command(2); after(c, e->at); enqueue(c, stream(s)); submit(c); return cudaSuccess; }
cudaError_t sym_malloc(void** p, size_t n)
{
	ENTER(sym_malloc); legacy(cdev()); quiesce();
	if(!n) { *p = nullptr; sclear(p, 8); return cudaSuccess; }
	Block b; b.p = (char*)malloc(n); b.n = n; b.dev = cdev(); garbage(b.p, n); hide(b.p, n, true); blocks[b.p] = b; *p = b.p; sclear(p, 8);
	return cudaSuccess;
}
cudaError_t cudaFree(void* p)
{
	ENTER(cudaFree); if(!p) return cudaSuccess;
	auto it = blocks.find((char*)p); if(it == blocks.end()) return fail(cudaErrorInvalidDevicePointer, "allocated memory is freed");
	for(auto* s : streams) if(s->dev == it->second.dev) wait_stream(s);
	hide(p, it->second.n, false); free(p); blocks.erase(it); return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { ENTER(cudaMemcpy); return copy(d, n, s, n, n, 1, k, legacy(cdev()), true); }
cudaError_t sym_memcpy_async(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st) { ENTER(sym_memcpy_async); return copy(d, n, s, n, n, 1, k, checked(st), false); }
cudaError_t cudaMemcpy2D(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k) { ENTER(cudaMemcpy2D); return copy(d, dp, s, sp, w, h, k, legacy(cdev()), true); }
cudaError_t sym_memcpy2d_async(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k, cudaStream_t st) { ENTER(sym_memcpy2d_async); return copy(d, dp, s, sp, w, h, k, checked(st), false); }
cudaError_t cudaMemcpyPeer(void* d, int, const void* s, int, size_t n) { ENTER(cudaMemcpyPeer); return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, legacy(cdev()), true); }
cudaError_t sym_memcpy_peer_async(void* d, int, const void* s, int, size_t n, cudaStream_t st) { ENTER(sym_memcpy_peer_async); return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, checked(st), false); }
static cudaError_t mset(void* d, int v, size_t n, SymStream* st)
{
	Block* b = block_of(d); if(!n) return cudaSuccess; if(!b || (char*)d + n > b->p + b->n) return fail(cudaErrorInvalidValue, "a fill stays inside its buffer");
	Cmd* c = command(0); c->set = true; c->value = v; c->dst = (char*)d; c->len = n; enqueue(c, st); submit(c); return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n) { ENTER(cudaMemset); return mset(d, v, n, legacy(cdev())); }
cudaError_t sym_memset_async(void* d, int v, size_t n, cudaStream_t s) { ENTER(sym_memset_async); return mset(d, v, n, stream(s)); }
void sym_launch(void (*run)(void*), void (*del)(void*), void* clo, const unsigned* g, const unsigned* b, size_t shared, cudaStream_t s, const char* name)
{
	ENTER(sym_launch);
	SymStream* st = stream(s); unsigned long threads = (unsigned long)b[0] * b[1] * b[2];
	if(!g[0] || !g[1] || !g[2] || !threads || threads > 1024 || shared > 49152) { fail(cudaErrorInvalidConfiguration, "a kernel is started with a valid size"); del(clo); return; }
	if(st->dev != cdev()) { fail(cudaErrorInvalidResourceHandle, "a kernel is started in a stream of its device"); del(clo); return; }
	Cmd* c = command(1); c->run = run; c->del = nullptr; (void)del; c->clo = clo; for(int k = 0; k < 3; ++k) { c->g[k] = g[k]; c->b[k] = b[k]; } c->shared = shared; c->name = name;
	enqueue(c, st); submit(c);
}
struct Tex { char* p; size_t n; cudaChannelFormatDesc d; int dev; };
static std::map<cudaTextureObject_t, Tex> texs;
cudaError_t cudaCreateTextureObject(cudaTextureObject_t* t, const cudaResourceDesc* r, const cudaTextureDesc* d, const cudaResourceViewDesc*)
{
	ENTER(cudaCreateTextureObject);
	Block* b = r->resType == cudaResourceTypeLinear ? block_of(r->res.linear.devPtr) : nullptr; const cudaChannelFormatDesc& f = r->res.linear.desc;
	if(!b || (char*)r->res.linear.devPtr + r->res.linear.sizeInBytes > b->p + b->n || b->dev != cdev()) return fail(cudaErrorInvalidValue, "a texture covers a buffer of its device");
	if(d->readMode != cudaReadModeElementType || d->filterMode != cudaFilterModePoint || d->normalizedCoords) return fail(cudaErrorInvalidValue, "a texture is read by element");
	static cudaTextureObject_t next = 1; Tex x = {(char*)r->res.linear.devPtr, r->res.linear.sizeInBytes, f, b->dev}; texs[next] = x; *t = next++; sclear(t, sizeof *t);
	return cudaSuccess;
}
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t t) { ENTER(cudaDestroyTextureObject); if(!texs.erase(t)) return fail(cudaErrorInvalidValue, "an existing texture is destroyed"); return cudaSuccess; }
const void* sym_tex(cudaTextureObject_t t, int i, int kind, int lanes)
{
#ifndef SYM_NATIVE
	bool ok = native_enter((const void*)sym_tex); if(ok && arg(1)) concretize(arg(1), 32, (u64)(unsigned)i, "texture index"); call_done();
#endif
	auto it = texs.find(t); if(it == texs.end()) { bad("an existing texture is read"); return nullptr; }
	Tex& x = it->second; int have = (x.d.x > 0) + (x.d.y > 0) + (x.d.z > 0) + (x.d.w > 0), bits[4] = {x.d.x, x.d.y, x.d.z, x.d.w};
	for(int k = 0; k < 4; ++k) if(bits[k] != (k < have ? 32 : 0)) bad("a texture has elements of 32 bits");
	if(have != lanes || (kind == 2) != (x.d.f == cudaChannelFormatKindFloat) || x.dev != grp->c->dev) bad("a texture is read as what it holds, on its device");
	if(i < 0 || (size_t(i) + 1) * 4 * lanes > x.n) { bad("a texture is read inside its buffer"); return nullptr; }
	return x.p + size_t(i) * 4 * lanes;
}
// ---------------------------------------------------------------------------------------------- collectives
struct SymComm { int rank, n, dev; SymComm** all; };
struct Coll { int rank, kind; const void* in; void* out; size_t n; SymComm* c; SymStream* s; void (*red)(void**, void**, int, size_t); };
static std::vector<Coll> group; static int depth = 0;
static ncclResult_t flush_group()
{
	while(!group.empty())
	{
		Coll f = group[0]; std::vector<Coll> mine(f.c->n); std::vector<bool> got(f.c->n, false); std::vector<Coll> rest;
		for(auto& x : group) if(x.c->all == f.c->all && !got[x.rank] && x.kind == f.kind && x.n == f.n) { mine[x.rank] = x; got[x.rank] = true; } else rest.push_back(x);
		group = rest;
		for(bool b : got) if(!b) { bad("every rank takes part in a collective operation"); return ncclInvalidUsage; }
		Cmd* c = command(3); c->count = f.n; c->elem = 8; c->red = f.red;
		for(auto& x : mine)
		{
			if(x.s->dev != x.c->dev) { bad("a collective operation runs in a stream of its device"); return ncclInvalidUsage; }
			size_t ib = f.n * 8, ob = f.red ? ib : ib * f.c->n; Block* bi = block_of(x.in); Block* bo = block_of(x.out);
			if(!bi || !bo || (char*)x.in + ib > bi->p + bi->n || (char*)x.out + ob > bo->p + bo->n || bi->dev != x.c->dev || bo->dev != x.c->dev) { bad("a collective operation stays inside the buffers of its device"); return ncclInvalidArgument; }
			c->in.push_back((void*)x.in); c->out.push_back(x.out); c->devs.push_back(x.c->dev);
		}
		for(auto& x : mine) enqueue(c, x.s);
		submit(c);
	}
	return ncclSuccess;
}
const char* ncclGetErrorString(ncclResult_t) { ENTER(ncclGetErrorString); return "error"; }
ncclResult_t ncclCommInitAll(ncclComm_t* c, int n, const int* d) { ENTER(ncclCommInitAll); SymComm** all = new SymComm*[n]; for(int i = 0; i < n; ++i) { for(int j = 0; j < i; ++j) if(d[i] == d[j]) return ncclInvalidArgument; c[i] = all[i] = new SymComm; c[i]->rank = i; c[i]->n = n; c[i]->dev = d[i]; c[i]->all = all; } sclear(c, n * sizeof *c); return ncclSuccess; }
ncclResult_t ncclCommDestroy(ncclComm_t) { ENTER(ncclCommDestroy); return ncclSuccess; }
ncclResult_t ncclGroupStart() { ENTER(ncclGroupStart); ++depth; return ncclSuccess; }
ncclResult_t ncclGroupEnd() { ENTER(ncclGroupEnd); return --depth ? ncclSuccess : flush_group(); }
static ncclResult_t coll(Coll c, ncclDataType_t t) { if(t != ncclFloat64) { bad("elements of a collective operation"); return ncclInvalidArgument; } group.push_back(c); return depth ? ncclSuccess : flush_group(); }
ncclResult_t ncclAllGather(const void* in, void* out, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t s) { ENTER(ncclAllGather); Coll x = {c->rank, 0, in, out, n, c, stream(s), nullptr}; return coll(x, t); }
ncclResult_t sym_nccl_reduce(const void* in, void* out, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t s, void (*red)(void**, void**, int, size_t)) { ENTER(sym_nccl_reduce); if(op != ncclSum) bad("only sums"); Coll x = {c->rank, 1, in, out, n, c, stream(s), red}; return coll(x, t); }
}
