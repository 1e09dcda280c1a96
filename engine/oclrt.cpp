// An OpenCL platform (1.2, or the version in clver) with one device, for the program under test. Kernels are the program's own sources, compiled when the
// program builds them (clbuild.py). Commands run when they are enqueued (lazy=0) or only once somebody waits for them (lazy=1),
// work items are coroutines that switch at barriers, and every access is checked against the ordering that queues, events and
// barriers guarantee. New buffers and local memory hold garbage.
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <deque>
#ifdef SYM_NATIVE
#define ENTER(f) do {} while(0)
typedef std::vector<unsigned> VC;
static void* hb_spawn(void*) { return nullptr; } static VC& hb_vc(void*) { static VC v; v.clear(); return v; } static void hb_tick(void*) {} static void hb_enter(void*, char*) {} static void hb_free(void*) {} static void hb_purge(const char*, const char*) {} static void hb_reset() {} static void hb_join(VC&, const VC&) {}
static void touch(const void*, size_t, int, const char*) {}
static void scopy(void*, const void*, size_t) {} static void sclear(void*, size_t) {} static void prep() {} static bool sany(const void*, size_t) { return false; }
static void bad(const char* what) { printf("CHECKFAIL %s\n", what); fflush(stdout); _exit(3); }
#else
#include "symrt.h"
using namespace symrt;
extern "C" void __s_touch(const void* p, u64 n, u32 w, const char* site);
#define ENTER(f) do { native_enter((const void*)f); call_done(); } while(0)
static void touch(const void* p, size_t n, int w, const char* s) { __s_touch(p, n, w, s); }
static void scopy(void* d, const void* s, size_t n) { shadow_copy(d, s, n); } static void sclear(void* d, size_t n) { shadow_clear(d, n); } static void prep() { call_prepare_none(); } static bool sany(const void* p, size_t n) { return shadow_any(p, n); }
static void bad(const char* what) { event("C bool %%0 0 %s", what); }
#endif

struct _cl_platform_id { int x; }; struct _cl_device_id { int x; };
static _cl_platform_id the_platform; static _cl_device_id the_device;
static int live_ctx = 0;
struct _cl_context { int rc; };
struct _cl_mem { int rc; cl_context ctx; char* p; size_t n; };
struct ocl_kernel { const char* name; void (*fn)(void**); int nargs; const int* args; };
struct ocl_local { void* p; size_t n; };
struct _cl_program { int rc; cl_context ctx; std::string src, log; ocl_kernel* ks; ocl_local* ls; };
struct Arg { bool set; size_t n; char* v; cl_mem m; };
struct _cl_kernel { int rc; cl_program prog; ocl_kernel* k; std::vector<Arg> a; };
struct Cmd;
struct _cl_command_queue { int rc; cl_context ctx; bool prof; std::deque<Cmd*> todo; VC vc; size_t enq, seen; };
struct _cl_event { int rc; cl_context ctx; Cmd* cmd; };
struct Cmd
{
	int rc; cl_command_queue q; int kind; bool done, running; size_t seq; VC start, end; unsigned epoch; std::vector<Cmd*> after;
	// transfers: rows of equal length
	cl_mem src, dst; char* hsrc; char* hdst; size_t so, d0, len, rows, slices, srow, sslice, drow, dslice;
	cl_program prog; ocl_kernel* k; std::vector<Arg> a; size_t off[3], g[3], l[3]; cl_uint dim;
};
static std::vector<cl_command_queue> queues; static VC host; static unsigned epoch = 1;
static int clver() { const char* e = getenv("SYMP_clver"); return e ? atoi(e) : 120; }
static std::string clname(const char* a, const char* b) { return std::string(a) + char('0' + clver() / 100) + '.' + char('0' + clver() / 10 % 10) + b; }
static bool lazy() { static int v = -1; if(v < 0) { const char* e = getenv("SYMP_lazy"); v = e ? atoi(e) : 0; } return v != 0; }

static void garbage(char* p, size_t n)
{
	static unsigned k = 0; sclear(p, n);
	for(size_t i = 0; i + 8 <= n; i += 8) { double g = (k++ % 2 ? -1.0 : 1.0) * (3.7e40 + 1e38 * (k % 97)); memcpy(p + i, &g, 8); }
	for(size_t i = n & ~size_t(7); i < n; ++i) p[i] = (char)0xA5;
}
static void drop(cl_mem m) { if(m && --m->rc == 0) { free(m->p); delete m; } }
static void drop(cl_program p) { if(p && --p->rc == 0) delete p; }
static void drop(Cmd* c);
static void drop_args(std::vector<Arg>& a) { for(auto& x : a) { drop(x.m); free(x.v); } a.clear(); }
static void drop(Cmd* c) { if(--c->rc) return; drop(c->src); drop(c->dst); drop_args(c->a); drop(c->prog); for(auto* x : c->after) drop(x); delete c; }
static Arg copy_arg(const Arg& a) { Arg b = a; b.v = a.v ? (char*)malloc(a.n) : nullptr; if(a.v) { memcpy(b.v, a.v, a.n); scopy(b.v, a.v, a.n); } if(b.m) b.m->rc++; return b; }

// ---------------------------------------------------------------------------------------------- work groups
static const size_t STK = 1 << 19;
struct Item { ucontext_t ctx; char* stk; bool done; void* s; };
struct Group { Cmd* c; size_t gid[3]; std::vector<Item> it; ucontext_t main; size_t cur; void** argv; };
static Group* grp = nullptr; static std::vector<char*> stks;
static void item_main()
{
	Group* g = grp;
	prep(); g->c->k->fn(g->argv);
	g = grp; g->it[g->cur].done = true;
	swapcontext(&g->it[g->cur].ctx, &g->main);
}
extern "C" unsigned long __ocl_id(unsigned what, unsigned d)
{
	ENTER(__ocl_id);
	Cmd* c = grp->c;
	if(what == 7) return c->dim;
	if(d >= c->dim) return what == 3 || what == 4 || what == 5;
	size_t li = grp->cur; for(unsigned k = 0; k < d; ++k) li /= c->l[k]; li %= c->l[d];
	switch(what)
	{
	case 0: return c->off[d] + grp->gid[d] * c->l[d] + li;
	case 1: return li;
	case 2: return grp->gid[d];
	case 3: return c->g[d];
	case 4: return c->l[d];
	case 5: return c->g[d] / c->l[d];
	default: return c->off[d];
	}
}
extern "C" void __ocl_barrier(void) { ENTER(__ocl_barrier); Group* g = grp; swapcontext(&g->it[g->cur].ctx, &g->main); }

static void run_group(Cmd* c, const size_t* gid, void* strand, VC& total)
{
	Group g; g.c = c; for(int k = 0; k < 3; ++k) g.gid[k] = gid[k];
	std::vector<void*> av; std::vector<char*> locals, dev(c->a.size()); g.cur = 0;
	for(size_t i = 0; i < c->a.size(); ++i)
	{
		Arg& a = c->a[i];
		if(a.m) { dev[i] = a.m->p; av.push_back(&dev[i]); }
		else if(!a.v) { dev[i] = (char*)malloc(a.n); garbage(dev[i], a.n); locals.push_back(dev[i]); av.push_back(&dev[i]); }
		else av.push_back(a.v);
	}
	av.push_back(nullptr); g.argv = av.data();
	for(ocl_local* l = c->prog->ls; l->p; ++l) { hb_purge((char*)l->p, (char*)l->p + l->n); garbage((char*)l->p, l->n); }
	size_t n = c->l[0] * c->l[1] * c->l[2];
	g.it.resize(n); grp = &g;
	for(size_t i = 0; i < n; ++i)
	{
		Item& t = g.it[i]; t.done = false; t.s = hb_spawn(strand);
		if(stks.empty()) t.stk = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); else { t.stk = stks.back(); stks.pop_back(); }
		getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stk; t.ctx.uc_stack.ss_size = STK; t.ctx.uc_link = nullptr; makecontext(&t.ctx, item_main, 0);
	}
	bool rev = lazy();
	for(;;)
	{
		size_t fin = 0;
		for(size_t k = 0; k < n; ++k)
		{
			size_t i = rev ? n - 1 - k : k;
			if(g.it[i].done) continue;
			g.cur = i; hb_enter(g.it[i].s, g.it[i].stk + STK);
			swapcontext(&g.main, &g.it[i].ctx);
		}
		VC j; for(auto& t : g.it) { hb_join(j, hb_vc(t.s)); fin += t.done; }
		for(auto& t : g.it) { hb_vc(t.s) = j; hb_tick(t.s); }
		hb_join(total, j);
		if(fin == n) break;
		if(fin) { hb_enter(nullptr, nullptr); bad("all work items of a group reach the same barriers"); break; }
	}
	hb_enter(nullptr, nullptr);
	for(auto& t : g.it) { hb_purge(t.stk, t.stk + STK); stks.push_back(t.stk); hb_free(t.s); }
	for(char* p : locals) free(p);
	grp = nullptr;
}
static void transfer(Cmd* c, void* strand)
{
	hb_enter(strand, nullptr);
	char* s = c->src ? c->src->p : c->hsrc; char* d = c->dst ? c->dst->p : c->hdst;
	const char* site = c->src && c->dst ? "copy between buffers" : c->src ? "read of a buffer" : "write of a buffer";
	for(size_t z = 0; z < c->slices; ++z) for(size_t r = 0; r < c->rows; ++r)
	{
		char* sp = s + c->so + r * c->srow + z * c->sslice; char* dp = d + c->d0 + r * c->drow + z * c->dslice;
		touch(sp, c->len, 0, site); touch(dp, c->len, 1, site);
		memmove(dp, sp, c->len); scopy(dp, sp, c->len);
	}
	hb_enter(nullptr, nullptr);
}
static void execute(Cmd* c)
{
	if(c->done || c->running) return;
	c->running = true;
	for(auto* x : c->after) { cl_command_queue q = x->q; while(!x->done) execute(q->todo.front()); }
	void* s = hb_spawn(nullptr); VC v;
	if(c->epoch == epoch) hb_join(v, c->start);
	hb_join(v, c->q->vc); for(auto* x : c->after) if(x->epoch == epoch) hb_join(v, x->end);
	hb_join(hb_vc(s), v);
	if(c->kind == 0) transfer(c, s);
	else if(c->kind == 1)
	{
		VC total;
		for(size_t z = 0; z < c->g[2] / c->l[2]; ++z) for(size_t y = 0; y < c->g[1] / c->l[1]; ++y) for(size_t x = 0; x < c->g[0] / c->l[0]; ++x) { size_t id[3] = {x, y, z}; run_group(c, id, s, total); }
		hb_join(hb_vc(s), total);
	}
	hb_tick(s); c->end = hb_vc(s); c->q->vc = c->end; hb_free(s);
	c->done = true;
	cl_command_queue q = c->q;
	for(auto it = q->todo.begin(); it != q->todo.end(); ++it) if(*it == c) { q->todo.erase(it); break; }
	drop(c);
}
static void wait_cmd(Cmd* c)
{
	cl_command_queue q = c->q;
	while(!c->done) execute(q->todo.front());
	if(c->epoch == epoch) hb_join(host, c->end);
	if(c->seq > q->seen) q->seen = c->seq;
	bool all = true; for(auto* x : queues) if(x->seen != x->enq) all = false;
	if(all) { hb_reset(); host.clear(); for(auto* x : queues) x->vc.clear(); ++epoch; }
}
static Cmd* command(cl_command_queue q, int kind)
{
	Cmd* c = new Cmd; c->rc = 1; c->q = q; c->kind = kind; c->done = c->running = false; c->seq = ++q->enq; c->start = host; c->epoch = epoch;
	c->src = c->dst = nullptr; c->hsrc = c->hdst = nullptr; c->prog = nullptr; c->k = nullptr; c->dim = 1;
	return c;
}
static cl_int submit(Cmd* c, cl_uint nw, const cl_event* w, cl_event* ev, bool blocking)
{
	for(cl_uint i = 0; i < nw; ++i) { w[i]->cmd->rc++; c->after.push_back(w[i]->cmd); }
	c->rc++; c->q->todo.push_back(c);
	if(ev) { *ev = new _cl_event; (*ev)->rc = 1; (*ev)->ctx = c->q->ctx; (*ev)->cmd = c; c->rc++; sclear(ev, sizeof *ev); }
	if(!lazy()) while(!c->done) execute(c->q->todo.front());
	if(blocking) wait_cmd(c);
	drop(c);
	return CL_SUCCESS;
}
static bool waitok(cl_uint n, const cl_event* w) { return (n == 0) == (w == nullptr); }
static cl_int info(const void* v, size_t n, size_t size, void* out, size_t* ret) { if(ret) { *ret = n; sclear(ret, sizeof *ret); } if(out) { if(size < n) return CL_INVALID_VALUE; memcpy(out, v, n); sclear(out, n); } return CL_SUCCESS; }
static cl_int sinfo(const char* s, size_t size, void* out, size_t* ret) { return info(s, strlen(s) + 1, size, out, ret); }
template<class T> static cl_int vinfo(T v, size_t size, void* out, size_t* ret) { return info(&v, sizeof v, size, out, ret); }
static cl_int nerr(cl_int* e, cl_int v) { if(e) { *e = v; sclear(e, sizeof *e); } return v; }

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* cnt) { ENTER(clGetPlatformIDs); if(p && n) { *p = &the_platform; sclear(p, sizeof *p); } if(cnt) { *cnt = 1; sclear(cnt, 4); } return CL_SUCCESS; }
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info w, size_t n, void* v, size_t* r) { ENTER(clGetPlatformInfo); return sinfo(w == CL_PLATFORM_VERSION ? clname("OpenCL ", " model").c_str() : w == CL_PLATFORM_EXTENSIONS ? "" : w == CL_PLATFORM_PROFILE ? "FULL_PROFILE" : "model", n, v, r); }
cl_int clGetDeviceIDs(cl_platform_id, cl_device_type, cl_uint n, cl_device_id* d, cl_uint* cnt) { ENTER(clGetDeviceIDs); if(d && n) { *d = &the_device; sclear(d, sizeof *d); } if(cnt) { *cnt = 1; sclear(cnt, 4); } return CL_SUCCESS; }
cl_int clGetDeviceInfo(cl_device_id, cl_device_info w, size_t n, void* v, size_t* r)
{
	ENTER(clGetDeviceInfo);
	switch(w)
	{
	case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: return sinfo("model device", n, v, r);
	case CL_DRIVER_VERSION: return sinfo("1.0", n, v, r);
	case CL_DEVICE_PROFILE: return sinfo("FULL_PROFILE", n, v, r);
	case CL_DEVICE_VERSION: return sinfo(clname("OpenCL ", " model").c_str(), n, v, r);
	case CL_DEVICE_OPENCL_C_VERSION: return sinfo(clname("OpenCL C ", " ").c_str(), n, v, r);
	case CL_DEVICE_EXTENSIONS: return sinfo("cl_khr_fp64", n, v, r);
	case CL_DEVICE_PLATFORM: return vinfo(cl_platform_id(&the_platform), n, v, r);
	case CL_DEVICE_TYPE: return vinfo(cl_device_type(CL_DEVICE_TYPE_GPU), n, v, r);
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: return vinfo(size_t(1024), n, v, r);
	case CL_DEVICE_MAX_WORK_ITEM_SIZES: { size_t s[3] = {1024, 1024, 1024}; return info(s, sizeof s, n, v, r); }
	case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: return vinfo(cl_uint(3), n, v, r);
	case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return vinfo(cl_ulong(1) << 30, n, v, r);
	case CL_DEVICE_LOCAL_MEM_SIZE: case CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE: case CL_DEVICE_GLOBAL_MEM_CACHE_SIZE: return vinfo(cl_ulong(65536), n, v, r);
	default: if(r) { *r = n ? n : 4; sclear(r, 8); } if(v) { memset(v, 0, n); if(n) *(char*)v = 1; sclear(v, n); } return CL_SUCCESS;
	}
}
cl_int clRetainDevice(cl_device_id) { ENTER(clRetainDevice); return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { ENTER(clReleaseDevice); return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties*, cl_uint n, const cl_device_id* d, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { ENTER(clCreateContext); if(!n || !d) { nerr(e, CL_INVALID_VALUE); return nullptr; } nerr(e, CL_SUCCESS); cl_context c = new _cl_context; c->rc = 1; return c; }
cl_context clCreateContextFromType(const cl_context_properties*, cl_device_type, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { ENTER(clCreateContextFromType); nerr(e, CL_SUCCESS); cl_context c = new _cl_context; c->rc = 1; return c; }
cl_int clRetainContext(cl_context c) { ENTER(clRetainContext); c->rc++; return CL_SUCCESS; }
cl_int clReleaseContext(cl_context c) { ENTER(clReleaseContext); c->rc--; return CL_SUCCESS; }
cl_int clGetContextInfo(cl_context, cl_context_info w, size_t n, void* v, size_t* r) { ENTER(clGetContextInfo); if(w == CL_CONTEXT_DEVICES) return vinfo(cl_device_id(&the_device), n, v, r); return vinfo(cl_uint(1), n, v, r); }
cl_command_queue clCreateCommandQueue(cl_context ctx, cl_device_id, cl_command_queue_properties p, cl_int* e)
{
	ENTER(clCreateCommandQueue); nerr(e, CL_SUCCESS);
	cl_command_queue q = new _cl_command_queue; q->rc = 1; q->ctx = ctx; q->prof = p & CL_QUEUE_PROFILING_ENABLE; q->enq = q->seen = 0; queues.push_back(q);
	if(p & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE) { nerr(e, CL_INVALID_QUEUE_PROPERTIES); }
	return q;
}
cl_int clRetainCommandQueue(cl_command_queue q) { ENTER(clRetainCommandQueue); q->rc++; return CL_SUCCESS; }
cl_int clReleaseCommandQueue(cl_command_queue q) { ENTER(clReleaseCommandQueue); q->rc--; return CL_SUCCESS; }
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info w, size_t n, void* v, size_t* r) { ENTER(clGetCommandQueueInfo); if(w == CL_QUEUE_CONTEXT) return vinfo(q->ctx, n, v, r); if(w == CL_QUEUE_DEVICE) return vinfo(cl_device_id(&the_device), n, v, r); return vinfo(cl_ulong(q->prof ? CL_QUEUE_PROFILING_ENABLE : 0), n, v, r); }
cl_mem clCreateBuffer(cl_context ctx, cl_mem_flags f, size_t n, void* hp, cl_int* e)
{
	ENTER(clCreateBuffer);
	if(!n) { nerr(e, CL_INVALID_BUFFER_SIZE); return nullptr; }
	if((f & CL_MEM_USE_HOST_PTR) || ((f & CL_MEM_COPY_HOST_PTR) != 0) != (hp != nullptr)) { nerr(e, CL_INVALID_HOST_PTR); return nullptr; }
	cl_mem m = new _cl_mem; m->rc = 1; m->ctx = ctx; m->n = n; m->p = (char*)malloc(n); garbage(m->p, n);
	if(hp) { touch(hp, n, 0, "clCreateBuffer"); memcpy(m->p, hp, n); scopy(m->p, hp, n); }
	nerr(e, CL_SUCCESS); return m;
}
cl_int clRetainMemObject(cl_mem m) { ENTER(clRetainMemObject); m->rc++; return CL_SUCCESS; }
cl_int clReleaseMemObject(cl_mem m) { ENTER(clReleaseMemObject); drop(m); return CL_SUCCESS; }
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info w, size_t n, void* v, size_t* r) { ENTER(clGetMemObjectInfo); if(w == CL_MEM_SIZE) return vinfo(m->n, n, v, r); if(w == CL_MEM_CONTEXT) return vinfo(m->ctx, n, v, r); return CL_INVALID_VALUE; }
cl_program clCreateProgramWithSource(cl_context ctx, cl_uint n, const char** s, const size_t* l, cl_int* e)
{
	ENTER(clCreateProgramWithSource);
	cl_program p = new _cl_program; p->rc = 1; p->ctx = ctx; p->ks = nullptr; p->ls = nullptr;
	for(cl_uint i = 0; i < n; ++i) if(l && l[i]) p->src.append(s[i], l[i]); else p->src += s[i];
	nerr(e, CL_SUCCESS); return p;
}
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char* o, void (CL_CALLBACK*)(cl_program, void*), void*)
{
	ENTER(clBuildProgram);
	const char* dir = getenv("SYM_CLDIR"); const char* tool = getenv("SYM_CLTOOL"); const char* salt = getenv("SYM_CLSALT");
	if(!dir || !tool) { p->log = "no compiler"; return CL_COMPILER_NOT_AVAILABLE; }
	// the version of the device; its compiler takes the sources for OpenCL C 1.2 unless the options say otherwise
	std::string opt = std::string(o ? o : "") + " -D__OPENCL_VERSION__=" + std::to_string(clver());
	std::string all = p->src + '\1' + opt + '\1' + (salt ? salt : "");
	unsigned long h[2] = {1469598103934665603ul, 0x9E3779B97F4A7C15ul};
	for(unsigned char c : all) { h[0] = (h[0] ^ c) * 1099511628211ul; h[1] = (h[1] + c) * 6364136223846793005ul + 1442695040888963407ul; h[1] ^= h[1] >> 29; }
#ifdef SYM_NATIVE
	const char* kind = "nat";
#else
	const char* kind = "sym";
#endif
	char out[512]; snprintf(out, sizeof out, "%s/cl-%s-%016lx%016lx.so", dir, kind, h[0], h[1]);
	if(access(out, R_OK))
	{
		char t[256]; const char* sc = getenv("SYM_SCRATCH"); static int no = 0; snprintf(t, sizeof t, "%s/clsrc-%d-%d", sc ? sc : "/tmp", (int)getpid(), ++no);
		std::string sf = std::string(t) + ".cl", of = std::string(t) + ".opt", lf = std::string(t) + ".log";
		if(FILE* f = fopen(sf.c_str(), "w")) { fwrite(p->src.data(), 1, p->src.size(), f); fclose(f); }
		if(FILE* f = fopen(of.c_str(), "w")) { fputs(opt.c_str(), f); fclose(f); }
		int rc = system((std::string("python3 ") + tool + " " + kind + " " + sf + " " + of + " " + out + " > " + lf + " 2>&1").c_str());
		if(FILE* f = fopen(lf.c_str(), "r")) { char b[2048]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) p->log.append(b, k); fclose(f); }
		unlink(sf.c_str()); unlink(of.c_str()); unlink(lf.c_str());
		if(rc) { fprintf(stderr, "clBuildProgram: %s\n", p->log.c_str()); return CL_BUILD_PROGRAM_FAILURE; }
	}
	void* so = dlopen(out, RTLD_NOW | RTLD_LOCAL);
	if(!so) { p->log = dlerror(); fprintf(stderr, "clBuildProgram: %s\n", p->log.c_str()); return CL_BUILD_PROGRAM_FAILURE; }
	p->ks = (ocl_kernel*)dlsym(so, "ocl_kernels"); p->ls = (ocl_local*)dlsym(so, "ocl_locals");
	return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info w, size_t n, void* v, size_t* r) { ENTER(clGetProgramBuildInfo); if(w == CL_PROGRAM_BUILD_STATUS) return vinfo(cl_build_status(p->ks ? CL_BUILD_SUCCESS : CL_BUILD_ERROR), n, v, r); return sinfo(w == CL_PROGRAM_BUILD_LOG ? p->log.c_str() : "", n, v, r); }
cl_int clGetProgramInfo(cl_program p, cl_program_info w, size_t n, void* v, size_t* r) { ENTER(clGetProgramInfo); if(w == CL_PROGRAM_DEVICES) return vinfo(cl_device_id(&the_device), n, v, r); if(w == CL_PROGRAM_CONTEXT) return vinfo(p->ctx, n, v, r); return vinfo(cl_uint(1), n, v, r); }
cl_int clRetainProgram(cl_program p) { ENTER(clRetainProgram); p->rc++; return CL_SUCCESS; }
cl_int clReleaseProgram(cl_program p) { ENTER(clReleaseProgram); drop(p); return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e)
{
	ENTER(clCreateKernel);
	if(!p->ks) { nerr(e, CL_INVALID_PROGRAM_EXECUTABLE); return nullptr; }
	for(ocl_kernel* k = p->ks; k->name; ++k) if(!strcmp(k->name, name))
	{
		cl_kernel q = new _cl_kernel; q->rc = 1; q->prog = p; p->rc++; q->k = k; q->a.resize(k->nargs); for(auto& a : q->a) { a.set = false; a.v = nullptr; a.m = nullptr; a.n = 0; }
		nerr(e, CL_SUCCESS); return q;
	}
	nerr(e, CL_INVALID_KERNEL_NAME); return nullptr;
}
cl_int clRetainKernel(cl_kernel k) { ENTER(clRetainKernel); k->rc++; return CL_SUCCESS; }
cl_int clReleaseKernel(cl_kernel k) { ENTER(clReleaseKernel); if(--k->rc == 0) { drop_args(k->a); drop(k->prog); delete k; } return CL_SUCCESS; }
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info w, size_t n, void* v, size_t* r) { ENTER(clGetKernelInfo); if(w == CL_KERNEL_FUNCTION_NAME) return sinfo(k->k->name, n, v, r); if(w == CL_KERNEL_PROGRAM) return vinfo(k->prog, n, v, r); if(w == CL_KERNEL_CONTEXT) return vinfo(k->prog->ctx, n, v, r); return vinfo(cl_uint(k->k->nargs), n, v, r); }
cl_int clGetKernelWorkGroupInfo(cl_kernel, cl_device_id, cl_kernel_work_group_info w, size_t n, void* v, size_t* r) { ENTER(clGetKernelWorkGroupInfo); if(w == CL_KERNEL_WORK_GROUP_SIZE) return vinfo(size_t(1024), n, v, r); return vinfo(size_t(1), n, v, r); }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v)
{
	ENTER(clSetKernelArg);
	if(i >= k->a.size()) return CL_INVALID_ARG_INDEX;
	int size = k->k->args[2 * i], space = k->k->args[2 * i + 1]; Arg& a = k->a[i];
	if(space == 3) { if(v) return CL_INVALID_ARG_VALUE; if(!n) return CL_INVALID_ARG_SIZE; drop(a.m); free(a.v); a.m = nullptr; a.v = nullptr; a.n = n; a.set = true; return CL_SUCCESS; }
	if(n != (size_t)size) return CL_INVALID_ARG_SIZE;
	if(!v) return CL_INVALID_ARG_VALUE;
	touch(v, n, 0, "clSetKernelArg");
	if(space == 1 || space == 2) { cl_mem m = *(cl_mem*)v; if(!m || m->ctx != k->prog->ctx) return CL_INVALID_MEM_OBJECT; m->rc++; drop(a.m); free(a.v); a.v = nullptr; a.m = m; a.n = n; a.set = true; return CL_SUCCESS; }
	drop(a.m); a.m = nullptr; if(a.v && a.n != n) { free(a.v); a.v = nullptr; } if(!a.v) a.v = (char*)malloc(n);
	memcpy(a.v, v, n); scopy(a.v, v, n); a.n = n; a.set = true;
	return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* g, const size_t* l, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueNDRangeKernel);
	if(q->ctx != k->prog->ctx) return CL_INVALID_CONTEXT;
	if(dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
	if(!g) return CL_INVALID_GLOBAL_WORK_SIZE;
	for(auto& a : k->a) if(!a.set) return CL_INVALID_KERNEL_ARGS;
	if(!waitok(nw, w)) return CL_INVALID_EVENT_WAIT_LIST;
	size_t items = 1;
	for(cl_uint d = 0; d < dim; ++d) { if(!g[d]) return CL_INVALID_GLOBAL_WORK_SIZE; if(l) { if(!l[d] || g[d] % l[d]) return CL_INVALID_WORK_GROUP_SIZE; items *= l[d]; } }
	if(items > 1024) return CL_INVALID_WORK_GROUP_SIZE;
	Cmd* c = command(q, 1); c->prog = k->prog; k->prog->rc++; c->k = k->k; c->dim = dim;
	for(cl_uint d = 0; d < 3; ++d) { c->g[d] = d < dim ? g[d] : 1; c->off[d] = d < dim && off ? off[d] : 0; c->l[d] = d < dim ? (l ? l[d] : g[d] % 2 ? 1 : 2) : 1; }
	for(auto& a : k->a) c->a.push_back(copy_arg(a));
	return submit(c, nw, w, ev, false);
}
static Cmd* xfer(cl_command_queue q, cl_mem s, cl_mem d, const void* hs, void* hd, size_t so, size_t d0, size_t len, size_t rows = 1, size_t slices = 1, size_t srow = 0, size_t sslice = 0, size_t drow = 0, size_t dslice = 0)
{
	Cmd* c = command(q, 0); c->src = s; c->dst = d; if(s) s->rc++; if(d) d->rc++; c->hsrc = (char*)hs; c->hdst = (char*)hd; c->so = so; c->d0 = d0; c->len = len; c->rows = rows; c->slices = slices; c->srow = srow; c->sslice = sslice; c->drow = drow; c->dslice = dslice;
	return c;
}
#define CHECKS(m, cond) if((m)->ctx != q->ctx) return CL_INVALID_CONTEXT; if(!waitok(nw, w)) return CL_INVALID_EVENT_WAIT_LIST; if(!(cond)) return CL_INVALID_VALUE
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, void* p, cl_uint nw, const cl_event* w, cl_event* ev) { ENTER(clEnqueueReadBuffer); CHECKS(m, p && n && o <= m->n && n <= m->n - o); return submit(xfer(q, m, nullptr, nullptr, p, o, 0, n), nw, w, ev, b); }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, const void* p, cl_uint nw, const cl_event* w, cl_event* ev) { ENTER(clEnqueueWriteBuffer); CHECKS(m, p && n && o <= m->n && n <= m->n - o); return submit(xfer(q, nullptr, m, p, nullptr, 0, o, n), nw, w, ev, b); }
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem d, size_t so, size_t d0, size_t n, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueCopyBuffer); CHECKS(s, n && so <= s->n && n <= s->n - so); CHECKS(d, d0 <= d->n && n <= d->n - d0);
	if(s == d && so < d0 + n && d0 < so + n) return CL_MEM_COPY_OVERLAP;
	return submit(xfer(q, s, d, nullptr, nullptr, so, d0, n), nw, w, ev, false);
}
// offset, extent and pitches of a rectangle; false if it does not fit
static bool rect(const size_t* o, const size_t* r, size_t& row, size_t& slice, size_t limit, size_t& at)
{
	if(!r[0] || !r[1] || !r[2]) return false;
	if(!row) row = r[0]; if(row < r[0]) return false;
	if(!slice) slice = r[1] * row; if(slice < r[1] * row && r[2] > 1) return false;
	at = o[2] * slice + o[1] * row + o[0];
	size_t end = at + (r[2] - 1) * slice + (r[1] - 1) * row + r[0];
	return !limit || end <= limit;
}
cl_int clEnqueueCopyBufferRect(cl_command_queue q, cl_mem s, cl_mem d, const size_t* so, const size_t* d0, const size_t* r, size_t srow, size_t sslice, size_t drow, size_t dslice, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueCopyBufferRect); size_t a, b; CHECKS(s, rect(so, r, srow, sslice, s->n, a)); CHECKS(d, rect(d0, r, drow, dslice, d->n, b));
	return submit(xfer(q, s, d, nullptr, nullptr, a, b, r[0], r[1], r[2], srow, sslice, drow, dslice), nw, w, ev, false);
}
cl_int clEnqueueReadBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* bo, const size_t* ho, const size_t* r, size_t brow, size_t bslice, size_t hrow, size_t hslice, void* p, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueReadBufferRect); size_t a, b; CHECKS(m, p && rect(bo, r, brow, bslice, m->n, a) && rect(ho, r, hrow, hslice, 0, b));
	return submit(xfer(q, m, nullptr, nullptr, p, a, b, r[0], r[1], r[2], brow, bslice, hrow, hslice), nw, w, ev, bl);
}
cl_int clEnqueueWriteBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* bo, const size_t* ho, const size_t* r, size_t brow, size_t bslice, size_t hrow, size_t hslice, const void* p, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueWriteBufferRect); size_t a, b; CHECKS(m, p && rect(bo, r, brow, bslice, m->n, a) && rect(ho, r, hrow, hslice, 0, b));
	return submit(xfer(q, nullptr, m, p, nullptr, b, a, r[0], r[1], r[2], hrow, hslice, brow, bslice), nw, w, ev, bl);
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* p, size_t pn, size_t o, size_t n, cl_uint nw, const cl_event* w, cl_event* ev)
{
	ENTER(clEnqueueFillBuffer); CHECKS(m, p && pn && n && n % pn == 0 && o % pn == 0 && o <= m->n && n <= m->n - o);
	char* t = (char*)malloc(n); for(size_t i = 0; i < n; i += pn) { memcpy(t + i, p, pn); scopy(t + i, p, pn); }   // kept until the end of the run
	return submit(xfer(q, nullptr, m, t, nullptr, 0, o, n), nw, w, ev, false);
}
static cl_int marker(cl_command_queue q, cl_uint nw, const cl_event* w, cl_event* ev) { return submit(command(q, 2), nw, w, ev, false); }
cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint nw, const cl_event* w, cl_event* ev) { ENTER(clEnqueueMarkerWithWaitList); return marker(q, nw, w, ev); }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint nw, const cl_event* w, cl_event* ev) { ENTER(clEnqueueBarrierWithWaitList); return marker(q, nw, w, ev); }
cl_int clEnqueueMarker(cl_command_queue q, cl_event* ev) { ENTER(clEnqueueMarker); return marker(q, 0, nullptr, ev); }
cl_int clEnqueueBarrier(cl_command_queue) { ENTER(clEnqueueBarrier); return CL_SUCCESS; }
cl_int clEnqueueWaitForEvents(cl_command_queue q, cl_uint nw, const cl_event* w) { ENTER(clEnqueueWaitForEvents); return marker(q, nw, w, nullptr); }
cl_int clWaitForEvents(cl_uint n, const cl_event* e) { ENTER(clWaitForEvents); if(!n || !e) return CL_INVALID_VALUE; for(cl_uint i = 0; i < n; ++i) { if(!e[i]) return CL_INVALID_EVENT; if(e[i]->ctx != e[0]->ctx && 0) return CL_INVALID_CONTEXT; } for(cl_uint i = 0; i < n; ++i) wait_cmd(e[lazy() ? n - 1 - i : i]->cmd); return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q) { ENTER(clFinish); if(!q->todo.empty() || q->seen != q->enq) { Cmd* c = command(q, 2); c->rc++; c->q->todo.push_back(c); wait_cmd(c); drop(c); } return CL_SUCCESS; }
cl_int clFlush(cl_command_queue) { ENTER(clFlush); return CL_SUCCESS; }
cl_int clRetainEvent(cl_event e) { ENTER(clRetainEvent); e->rc++; return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event e) { ENTER(clReleaseEvent); if(--e->rc == 0) { drop(e->cmd); delete e; } return CL_SUCCESS; }
cl_int clGetEventInfo(cl_event e, cl_event_info w, size_t n, void* v, size_t* r) { ENTER(clGetEventInfo); if(w == CL_EVENT_COMMAND_EXECUTION_STATUS) return vinfo(cl_int(e->cmd->done ? CL_COMPLETE : CL_QUEUED), n, v, r); return CL_INVALID_VALUE; }
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info w, size_t n, void* v, size_t* r) { ENTER(clGetEventProfilingInfo); if(!e->cmd->q->prof || !e->cmd->done) return CL_PROFILING_INFO_NOT_AVAILABLE; return vinfo(cl_ulong(w), n, v, r); }
void* clGetExtensionFunctionAddressForPlatform(cl_platform_id, const char*) { ENTER(clGetExtensionFunctionAddressForPlatform); return nullptr; }
}
