// Symbolic runtime: expression DAG, shadow memory, path condition / assertion trace.
#include "symrt.h"
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <unordered_map>
#include <unordered_set>
#include <dlfcn.h>
#include <map>
#include <deque>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>

using namespace symrt;

namespace {
struct Key { u64 a, b, c; bool operator==(const Key& o) const { return a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key& k) const { u64 h = k.a * 0x9E3779B97F4A7C15ull; h ^= (k.b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull; h = (h << 31) | (h >> 33); h ^= k.c * 0x94D049BB133111EBull; return h ^ (h >> 29); } };

struct Page { Cell c[4096]; };
Page*** g_top;      // two-level page table, never freed, allocated with mmap (usable from free())
Page* page(u64 no, bool mk)
{
	if(no >> 36) return nullptr;
	if(!g_top) { if(!mk) return nullptr; g_top = (Page***)mmap(0, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	Page**& l = g_top[no >> 18];
	if(!l) { if(!mk) return nullptr; l = (Page**)mmap(0, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	Page*& p = l[no & ((1u << 18) - 1)];
	if(!p && mk) p = (Page*)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return p;
}
struct RT
{
	std::deque<Node> nodes;
	std::unordered_map<Key, u32, KeyH> cons;
	std::map<std::string, u32> names; std::vector<std::string> namev;
	std::vector<std::vector<u32> > lists;
	std::vector<std::string> ev;
	std::map<std::string, std::string> input;
	u32 args[256]; bool set[256]; u32 nargs; const void* callee; bool pending; u32 rets[64]; unsigned nrets;
	bool fork_select; bool dumped; size_t nvars; size_t maxev;
	std::map<std::string, u32> vars;
	std::unordered_set<const void*> fnset; std::vector<const void*> fns;
	RT() : nargs(0), callee(0), pending(false), nrets(0), fork_select(false), dumped(false), nvars(0), maxev(2000000)
	{
		memset(args, 0, sizeof args); memset(set, 0, sizeof set); memset(rets, 0, sizeof rets);
		nodes.push_back(Node());
		if(const char* f = getenv("SYM_INPUT"))
			if(FILE* h = fopen(f, "r"))
			{
				char n[256], v[256];
				while(fscanf(h, "%255s %255s", n, v) == 2) input[n] = v;
				fclose(h);
			}
	}
	u32 name(const std::string& s) { auto it = names.find(s); if(it != names.end()) return it->second; u32 r = namev.size(); namev.push_back(s); names[s] = r; return r; }
};
RT& R() { static RT* r = new RT; return *r; }
bool g_any = false;     // any symbolic value exists yet?

double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
u64 fromd(double d) { u64 v; memcpy(&v, &d, 8); return v; }
u64 fromf(float d) { u32 v; memcpy(&v, &d, 4); return v; }
}

extern "C" void __s_dump();
static void on_sig(int s) { symrt::event("X signal %d", s); __s_dump(); signal(s, SIG_DFL); raise(s); }
namespace {
struct Init { Init() { atexit(__s_dump); signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGALRM, on_sig); signal(SIGTERM, on_sig); } } init0;
}

namespace symrt {
int omp_threads = 4;
Node& node(u32 id) { return R().nodes[id]; }
u32 mk(u32 op, u32 ty, u32 a, u32 b, u32 c, u32 extra, u64 val)
{
	RT& r = R();
	Key k = { (u64(op) << 56) | (u64(ty) << 48) | extra, (u64(a) << 32) | b, (u64(c) << 32) ^ (op == SYO_CONST ? val * 0x9E3779B97F4A7C15ull : 0) };
	auto it = r.cons.find(k);
	if(it != r.cons.end())
	{
		if(op != SYO_CONST || r.nodes[it->second].val == val) return it->second;
	}
	Node n; n.op = op; n.ty = ty; n.a = a; n.b = b; n.c = c; n.val = val; n.extra = extra;
	r.nodes.push_back(n);
	u32 id = r.nodes.size() - 1;
	r.cons[k] = id;
	if(id > 30000000) { event("X node limit"); __s_dump(); _exit(77); }
	return id;
}
u32 constant(u32 ty, u64 val) { return mk(SYO_CONST, ty, 0, 0, 0, 0, val); }
bool native_enter(const void* fn) { RT& r = R(); if(r.callee == fn && r.pending) { r.pending = false; return true; } for(auto& a : r.args) a = 0; r.pending = false; return false; }
void call_prepare(const void* fn, const std::vector<u32>& a) { RT& r = R(); r.callee = fn; r.nargs = a.size(); for(size_t i = 0; i < a.size() && i < 256; ++i) { r.args[i] = a[i]; r.set[i] = false; } r.pending = true; r.nrets = 0; }
void call_prepare_none() { RT& r = R(); r.pending = false; r.nargs = 0; r.callee = nullptr; r.nrets = 0; }
void call_done() { RT& r = R(); r.pending = false; r.nrets = 0; }
u32 arg(unsigned k) { RT& r = R(); return k < r.nargs && k < 256 ? r.args[k] : 0; }
void ret(unsigned k, u32 e) { RT& r = R(); if(k < 64) { r.rets[k] = e; if(r.nrets <= k) r.nrets = k + 1; } }

bool shadow_get_byte(const void* p, Cell& c)
{
	u64 a = (u64)p; Page* pg = page(a >> 12, false);
	if(!pg) return false;
	c = pg->c[a & 4095];
	if(!c.node) return false;
	// written natively meanwhile?
	if(((R().nodes[c.node].val >> (8 * c.off)) & 255) != *(const unsigned char*)p) return false;
	return true;
}
void shadow_set_byte(void* p, Cell c) { u64 a = (u64)p; Page* pg = page(a >> 12, c.node != 0); if(pg) { Cell& d = pg->c[a & 4095]; d.node = c.node; d.off = c.off; } }
void poison(const void* p, size_t n, int kind)
{
	u64 a = (u64)p;
	for(size_t i = 0; i < n; ++i, ++a) { Page* pg = page(a >> 12, kind != 0); if(pg) pg->c[a & 4095].poison = kind; else { u64 nx = (a | 4095); i += nx - a; a = nx; } }
}
static std::unordered_set<std::string>& memseen() { static std::unordered_set<std::string>* s = new std::unordered_set<std::string>; return *s; }
static void memcheck(const void* p, size_t n, int w, const char* site)
{
	u64 a = (u64)p;
	Page* pg = page(a >> 12, false); if(!pg) return;
	for(size_t i = 0; i < n; ++i)
	{
		if(((a + i) & 4095) == 0 && i) { pg = page((a + i) >> 12, false); if(!pg) return; }
		int k = pg->c[(a + i) & 4095].poison;
		if(k) { std::string m = std::string(w ? "write" : "read") + (k == 2 ? " of freed memory @ " : " beyond heap block @ ") + (site ? site : "?"); if(memseen().insert(m).second) event("M %s", m.c_str()); return; }
	}
}
static unsigned tysize(u32 ty) { return ty == SYT_F64 ? 8 : ty == SYT_F32 ? 4 : (ty + 7) / 8; }
void shadow_clear(void* p, size_t n)
{
	if(!g_any) return;
	u64 a = (u64)p, e = a + n;
	while(a < e)
	{
		u64 pe = (a | 4095) + 1; if(pe > e) pe = e;
		Page* pg = page(a >> 12, false);
		if(pg) for(u64 k = a; k < pe; ++k) { Cell& c = pg->c[k & 4095]; c.node = 0; c.off = 0; }
		a = pe;
	}
}
void shadow_copy(void* d, const void* s, size_t n)
{
	if(!g_any) return;
	std::vector<Cell> t(n); bool any = false;
	for(size_t i = 0; i < n; ++i) { Cell c = {0, 0, 0}; if(shadow_get_byte((const char*)s + i, c)) { t[i] = c; any = true; } else t[i] = Cell{0, 0, 0}; }
	if(!any) { shadow_clear(d, n); return; }
	for(size_t i = 0; i < n; ++i) shadow_set_byte((char*)d + i, t[i]);
}
bool shadow_any(const void* p, size_t n)
{
	if(!g_any) return false;
	Cell c; for(size_t i = 0; i < n; ++i) if(shadow_get_byte((const char*)p + i, c)) return true;
	return false;
}
static u32 extractb(u32 e, unsigned off) { return mk(SYO_EXTRACTB, 8, e, 0, 0, off, (node(e).val >> (8 * off)) & 255); }
u32 shadow_load(const void* p, u32 ty, u64 val)
{
	if(!g_any) return 0;
	unsigned n = tysize(ty);
	Cell c[8]; bool any = false;
	u64 a = (u64)p; 
	if((a & 4095) + n <= 4096) { Page* pg = page(a >> 12, false); if(!pg) return 0; }
	for(unsigned i = 0; i < n; ++i) { c[i].node = 0; if(shadow_get_byte((const char*)p + i, c[i])) any = true; else c[i].node = 0; }
	if(!any) return 0;
	u32 e = c[0].node; bool whole = e && tysize(node(e).ty) == n;
	for(unsigned i = 0; i < n && whole; ++i) if(c[i].node != e || c[i].off != i) whole = false;
	if(whole)
	{
		u32 t2 = node(e).ty;
		if(t2 == ty) return e;
		if(ty == 1 && t2 == 8) return mk(SYO_TRUNC, 1, e, 0, 0, 0, val & 1);
		if(ty == 8 && t2 == 1) return mk(SYO_ZEXT, 8, e, 0, 0, 0, val);
		if(node(e).op == SYO_BITCAST && node(node(e).a).ty == ty) return node(e).a;
		return mk(SYO_BITCAST, ty, e, 0, 0, 0, val);
	}
	// concatenate bytes, low to high
	u32 acc = 0; u64 v = 0;
	for(unsigned i = 0; i < n; ++i)
	{
		unsigned char b = ((const unsigned char*)p)[i];
		u32 be;
		if(c[i].node) { u32 t2 = node(c[i].node).ty; u32 src = c[i].node; if(t2 == 1) { src = mk(SYO_ZEXT, 8, src, 0, 0, 0, node(src).val); } be = tysize(node(src).ty) == 1 ? src : extractb(src, c[i].off); }
		else be = constant(8, b);
		v |= u64(b) << (8 * i);
		acc = i == 0 ? be : mk(SYO_CONCATB, 8 * (i + 1), be, acc, 0, 0, v);   // a = high, b = low
	}
	if(ty == SYT_F64 || ty == SYT_F32) return mk(SYO_BITCAST, ty, acc, 0, 0, 0, val);
	if(ty < 8 * n) return mk(SYO_TRUNC, ty, acc, 0, 0, 0, val);
	return acc;
}
void shadow_store(void* p, u32 ty, u32 e, u64 val)
{
	unsigned n = tysize(ty);
	if(!e) { shadow_clear(p, n); return; }
	if(ty < 8) { e = mk(SYO_ZEXT, 8, e, 0, 0, 0, val); }
	else if(ty != SYT_F64 && ty != SYT_F32 && ty % 8) { e = mk(SYO_ZEXT, 8 * n, e, 0, 0, 0, val); }
	for(unsigned i = 0; i < n; ++i) shadow_set_byte((char*)p + i, Cell{e, uint8_t(i), 0});
}
void event(const char* fmt, ...)
{
	char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	for(char* p = buf; *p; ++p) if(*p == '\n') *p = ' ';
	R().ev.push_back(buf);
	if(R().ev.size() > R().maxev) { R().ev.push_back("X event limit"); __s_dump(); _exit(77); }
}
void leak(u32 e, const char* what, const char* site) { if(e) event("L %u %s @ %s", e, what, site); }
void concretize(u32 e, u32 ty, u64 val, const char* site)
{
	if(!e) return;
	u32 c = mk(SYO_CMP, 1, e, constant(ty, val), 0, ty >= SYT_F32 ? 1 : 32, 1);
	event("K %u 1 =%llx@%s", c, (unsigned long long)val, site);
}
}

static const char* okstr(const char* s) { return s ? s : "?"; }

extern "C" {
void __s_dump()
{
	RT& r = R();
	if(r.dumped) return;
	r.dumped = true;
	const char* f = getenv("SYM_TRACE");
	if(!f) return;
	FILE* h = fopen(f, "w");
	if(!h) return;
	// mark the nodes that events need
	std::vector<bool> need(r.nodes.size(), false);
	std::vector<u32> st;
	for(auto& e : r.ev)
	{
		const char* p = e.c_str(); if(!*p || (*p != 'B' && *p != 'A' && *p != 'C' && *p != 'K' && *p != 'G' && *p != 'L')) continue;
		// numbers directly following are node ids, prefixed by %
		++p;
		if(e[0] == 'C') { for(; *p; ++p) if(*p == '%') { u32 id = strtoul(p + 1, 0, 10); if(id) st.push_back(id); } }
		else { u32 id = strtoul(p, 0, 10); if(id) st.push_back(id); }
	}
	while(!st.empty())
	{
		u32 id = st.back(); st.pop_back();
		if(need[id]) continue;
		need[id] = true;
		Node& n = r.nodes[id];
		if(n.op == SYO_UF) { for(u32 a : r.lists[n.b]) if(a && !need[a]) st.push_back(a); }
		else if(n.op != SYO_VAR && n.op != SYO_CONST) { if(n.a && !need[n.a]) st.push_back(n.a); if(n.b && !need[n.b]) st.push_back(n.b); if(n.c && !need[n.c]) st.push_back(n.c); }
	}
	for(auto& v : r.vars) need[v.second] = true;
	for(u32 i = 1; i < r.nodes.size(); ++i)
	{
		if(!need[i]) continue;
		Node& n = r.nodes[i];
		if(n.op == SYO_UF)
		{
			fprintf(h, "N %u %u %u %s %llx", i, n.op, n.ty, r.namev[n.a].c_str(), (unsigned long long)n.val);
			for(u32 a : r.lists[n.b]) fprintf(h, " %u", a);
			fputc('\n', h);
		}
		else if(n.op == SYO_VAR) fprintf(h, "N %u %u %u %s %llx\n", i, n.op, n.ty, r.namev[n.a].c_str(), (unsigned long long)n.val);
		else fprintf(h, "N %u %u %u %u %llx %u %u %u\n", i, n.op, n.ty, n.extra, (unsigned long long)n.val, n.a, n.b, n.c);
	}
	for(auto& e : r.ev) fprintf(h, "%s\n", e.c_str());
	for(const void* fn : r.fns) { Dl_info di; if(dladdr(fn, &di) && di.dli_sname && di.dli_saddr == fn) fprintf(h, "F %s\n", di.dli_sname); }
	fprintf(h, "Z %zu\n", r.nodes.size());
	fclose(h);
}

u32 __s_bin(u32 op, u32 ty, u32 ea, u64 ca, u32 eb, u64 cb, u64 res)
{
	if(!(ea | eb)) return 0;
	u32 tb = ty;
	if(!ea) ea = constant(ty, ca);
	if(!eb) eb = constant(tb, cb);
	return mk(op, ty, ea, eb, 0, 0, res);
}
u32 __s_un(u32 op, u32 ti, u32 to, u32 ea, u64, u64 res)
{
	if(!ea) return 0;
	(void)ti;
	if(op == SYO_BITCAST) { if(node(ea).ty == to) return ea; if(node(ea).op == SYO_BITCAST && node(node(ea).a).ty == to) return node(ea).a; }
	return mk(op, to, ea, 0, 0, 0, res);
}
u32 __s_cmp(u32 pred, u32 ty, u32 ea, u64 ca, u32 eb, u64 cb, u32 res)
{
	if(!(ea | eb)) return 0;
	if(!ea) ea = constant(ty, ca);
	if(!eb) eb = constant(ty, cb);
	return mk(SYO_CMP, 1, ea, eb, 0, pred, res);
}
void __s_branch(u32 e, u32 taken, const char* site) { if(e) event("B %u %u %s", e, taken, okstr(site)); }
u32 __s_sel(u32 ty, u32 ec, u32 c, u32 ea, u64 ca, u32 eb, u64 cb, const char* site)
{
	if(!ec) return c ? ea : eb;
	if(!ea && !eb && ca == cb) return 0;
	if(R().fork_select) { __s_branch(ec, c, site); return c ? ea : eb; }
	if(!ea) ea = constant(ty, ca);
	if(!eb) eb = constant(ty, cb);
	if(ea == eb) return ea;
	return mk(SYO_ITE, ty, ec, ea, eb, 0, c ? ca : cb);
}
u32 __s_load(const void* p, u32 ty, u64 val, const char* site)
{
	memcheck(p, tysize(ty), 0, site);
	if(race_active) race_touch(p, tysize(ty), 0, site);
	return shadow_load(p, ty, val);
}
void __s_store(void* p, u32 ty, u32 e, u64 val, const char* site)
{
	memcheck(p, tysize(ty), 1, site);
	if(race_active) race_touch(p, tysize(ty), 1, site);
	shadow_store(p, ty, e, val);
}
void __s_touch(const void* p, u64 n, u32 w, const char* site) { memcheck(p, n, w, site); if(race_active) race_touch(p, n, w, site); }
void __s_memcpy(void* d, const void* s, u64 n, const char* site)
{
	memcheck(s, n, 0, site); memcheck(d, n, 1, site);
	if(race_active) { race_touch(s, n, 0, site); race_touch(d, n, 1, site); }
	shadow_copy(d, s, n);
}
void __s_memset(void* p, u32 e, u32 val, u64 n, const char* site)
{
	memcheck(p, n, 1, site);
	if(race_active) race_touch(p, n, 1, site);
	if(!e) { shadow_clear(p, n); return; }
	(void)val;
	for(u64 i = 0; i < n; ++i) shadow_set_byte((char*)p + i, Cell{e, 0, 0});
}
void __s_switch(u32 e, u32 ty, u64 val, u64 cv, const char* site)
{
	if(!e) return;
	u32 c = mk(SYO_CMP, 1, e, constant(ty, cv), 0, 32, val == cv);
	event("B %u %u %s", c, val == cv ? 1 : 0, okstr(site));
}
void __s_conc(u32 e, u32 ty, u64 val, const char* site) { concretize(e, ty, val, okstr(site)); }
void __s_gep(u32 e, u32 ty, u64 val, u64, u64 cnt, const char* site)
{
	if(!e) return;
	if(cnt) { u32 c = mk(SYO_CMP, 1, e, constant(ty, cnt), 0, 36 /*ult*/, val < cnt); event("G %u %u index<%llu %s", c, val < cnt ? 1 : 0, (unsigned long long)cnt, okstr(site)); }
	concretize(e, ty, val, okstr(site));
}
u32 __s_enter(const void* fn)
{
	RT& r = R();
	if(r.fnset.insert(fn).second) r.fns.push_back(fn);
	if(r.callee == fn && r.pending) { r.pending = false; return 0x80000000u; }
	return 0;
}
u32 __s_arg(u32 k, u32 ty, u64 val)
{
	if(!(k & 0x80000000u)) return 0;
	k &= 0x7fffffffu;
	RT& r = R();
	if(k >= r.nargs || k >= 256) return 0;
	u32 e = r.args[k];
	if(!e) return 0;
	if(node(e).val != val) return 0;
	(void)ty;
	return e;
}
void __s_setarg(u32 k, u32 e) { if(k < 256) { R().args[k] = e; R().set[k] = true; } }
void __s_call(const void* callee, u32 n)
{
	RT& r = R();
	for(u32 k = 0; k < n && k < 256; ++k) { if(!r.set[k]) r.args[k] = 0; r.set[k] = false; }
	r.nargs = n; r.callee = callee; r.pending = true; r.nrets = 0;
}
void __s_after(const char* name, const char* site)
{
	RT& r = R();
	if(r.pending)
	{
		r.pending = false; r.nrets = 0;
		for(u32 k = 0; k < r.nargs && k < 256; ++k) if(r.args[k]) { leak(r.args[k], name, okstr(site)); }
	}
}
void __s_setret(u32 k, u32 e) { ret(k, e); }
u32 __s_getret(u32 k, u32, u64 val)
{
	RT& r = R();
	if(k >= r.nrets) return 0;
	u32 e = r.rets[k];
	if(!e || node(e).val != val) return 0;
	return e;
}
u32 __s_math(const char*, u32, u32, u64, u32, u64, u64) { return 0; }
void __s_clear(void* p, u64 n) { shadow_clear(p, n); }
void __s_leak(u32 e, const char* what, const char* site) { leak(e, what, okstr(site)); }

// ------------------------------------------------------------------ harness API
static u64 parsehex(const std::string& s) { return strtoull(s.c_str(), 0, 16); }
static u32 newvar(const char* name, u32 ty, u64 val)
{
	g_any = true;
	RT& r = R();
	auto it = r.vars.find(name);
	if(it != r.vars.end()) { event("X duplicate variable %s", name); return it->second; }
	u32 e = mk(SYO_VAR, ty, r.name(name), 0, 0, 0, val);
	r.vars[name] = e;
	return e;
}
double sym_f64(const char* name, double def, double lo, double hi)
{
	native_enter((const void*)sym_f64);
	RT& r = R(); u64 v = fromd(def);
	if(r.input.count(name)) v = parsehex(r.input[name]);
	u32 e = newvar(name, SYT_F64, v);
	event("V %u %s 164 %llx %llx", e, name, (unsigned long long)fromd(lo), (unsigned long long)fromd(hi));
	r.nrets = 0; ret(0, e);
	return asd(v);
}
double sym_f64_any(const char* name, double def)
{
	native_enter((const void*)sym_f64_any);
	RT& r = R(); u64 v = fromd(def);
	if(r.input.count(name)) v = parsehex(r.input[name]);
	u32 e = newvar(name, SYT_F64, v);
	event("V %u %s 164 any any", e, name);
	r.nrets = 0; ret(0, e);
	return asd(v);
}
float sym_f32(const char* name, double def, double lo, double hi)
{
	native_enter((const void*)sym_f32);
	RT& r = R(); u64 v = fromf((float)def);
	if(r.input.count(name)) v = parsehex(r.input[name]);
	u32 e = newvar(name, SYT_F32, v);
	event("V %u %s 132 %llx %llx", e, name, (unsigned long long)fromf((float)lo), (unsigned long long)fromf((float)hi));
	r.nrets = 0; ret(0, e);
	float f; u32 b = v; memcpy(&f, &b, 4); return f;
}
uint64_t sym_u64(const char* name, uint64_t def, uint64_t lo, uint64_t hi)
{
	native_enter((const void*)sym_u64);
	RT& r = R(); u64 v = def;
	if(r.input.count(name)) v = parsehex(r.input[name]);
	u32 e = newvar(name, 64, v);
	event("V %u %s 64 %llx %llx", e, name, (unsigned long long)lo, (unsigned long long)hi);
	r.nrets = 0; ret(0, e);
	return v;
}
int64_t sym_param(const char* name, int64_t def)
{
	native_enter((const void*)sym_param); R().nrets = 0;
	const char* e = getenv((std::string("SYMP_") + name).c_str());
	int64_t v = e ? atoll(e) : def;
	event("P %s %lld", name, (long long)v);
	return v;
}
static u32 boolarg(unsigned k, bool v) { u32 e = arg(k); if(!e) return 0; if(node(e).ty != 1) e = mk(SYO_TRUNC, 1, e, 0, 0, 0, v ? 1 : 0); if((node(e).val & 1) != (u64)v) return 0; return e; }
void sym_assume(bool c)
{
	native_enter((const void*)sym_assume);
	u32 e = boolarg(0, c);
	if(e) event("A %u %u", e, c ? 1 : 0);
	else if(!c) event("A 0 0");
	if(!c) { event("X assume failed"); __s_dump(); _exit(0); }
}
void sym_check(bool c, const char* label)
{
	native_enter((const void*)sym_check);
	u32 e = boolarg(0, c);
	event("C bool %%%u %u %s", e, c ? 1 : 0, label);
}
void sym_fail(const char* label) { native_enter((const void*)sym_fail); event("C bool %%0 0 %s", label); }
static u32 farg(unsigned k, double v) { u32 e = arg(k); if(e && node(e).val == fromd(v)) return e; return constant(SYT_F64, fromd(v)); }
void sym_check_eq(double a, double b, double scale, const char* label)
{
	native_enter((const void*)sym_check_eq);
	u32 ea = farg(0, a), eb = farg(1, b), es = farg(2, scale);
	event("C eq %%%u %%%u %%%u %s", ea, eb, es, label);
}
void sym_check_rel(double a, double b, double tol, const char* label)
{
	native_enter((const void*)sym_check_rel);
	event("C rel %%%u %%%u %llx %s", farg(0, a), farg(1, b), (unsigned long long)fromd(tol), label);
}
void sym_check_bits(double a, double b, const char* label)
{
	native_enter((const void*)sym_check_bits);
	event("C bits %%%u %%%u %s", farg(0, a), farg(1, b), label);
}
void sym_check_bits32(float a, float b, const char* label)
{
	native_enter((const void*)sym_check_bits32);
	u32 ea = arg(0), eb = arg(1);
	if(!ea || node(ea).val != fromf(a)) ea = constant(SYT_F32, fromf(a));
	if(!eb || node(eb).val != fromf(b)) eb = constant(SYT_F32, fromf(b));
	event("C bits %%%u %%%u %s", ea, eb, label);
}
void sym_check_u64(uint64_t a, uint64_t b, const char* label)
{
	native_enter((const void*)sym_check_u64);
	u32 ea = arg(0), eb = arg(1);
	if(!ea || node(ea).val != a) ea = constant(64, a);
	if(!eb || node(eb).val != b) eb = constant(64, b);
	event("C bits %%%u %%%u %s", ea, eb, label);
}
double symuf_value(const char* name, const double* args, size_t n);
double sym_uf(const char* name, const double* args, size_t n)
{
	native_enter((const void*)sym_uf);
	RT& r = R();
	static std::map<std::string, std::vector<std::vector<double> > > apps;
	std::vector<std::vector<double> >& av = apps[name]; size_t k = 0;
	for(; k < av.size(); ++k)
	{
		bool same = av[k].size() == n;
		for(size_t i = 0; same && i < n; ++i) if(!(fabs(av[k][i] - args[i]) <= 1e-9 * (1 + fabs(args[i])))) same = false;
		if(same) break;
	}
	if(k == av.size()) av.push_back(std::vector<double>(args, args + n));
	char key[256]; snprintf(key, sizeof key, "%s#%zu", name, k);
	double v = r.input.count(key) ? asd(parsehex(r.input[key])) : symuf_value(name, av[k].data(), n);
	std::vector<u32> l;
	for(size_t i = 0; i < n; ++i)
	{
		u32 e = shadow_load(&args[i], SYT_F64, fromd(args[i]));
		if(!e) e = constant(SYT_F64, fromd(args[i]));
		l.push_back(e);
	}
	g_any = true;
	// structural sharing
	static std::map<std::pair<std::string, std::vector<u32> >, u32> memo;
	auto mkey = std::make_pair(std::string(name), l);
	auto it = memo.find(mkey);
	u32 e;
	if(it != memo.end()) e = it->second;
	else
	{
		r.lists.push_back(l);
		e = mk(SYO_UF, SYT_F64, r.name(key), r.lists.size() - 1, 0, 0, fromd(v));
		memo[mkey] = e;
	}
	r.nrets = 0; ret(0, e);
	return v;
}
bool sym_and(bool a, bool b)
{
	native_enter((const void*)sym_and);
	u32 ea = boolarg(0, a), eb = boolarg(1, b); bool v = a && b;
	R().nrets = 0;
	if(ea | eb) { if(!ea) ea = constant(1, a); if(!eb) eb = constant(1, b); ret(0, mk(SYO_ANDB, 1, ea, eb, 0, 0, v)); }
	return v;
}
bool sym_or(bool a, bool b)
{
	native_enter((const void*)sym_or);
	u32 ea = boolarg(0, a), eb = boolarg(1, b); bool v = a || b;
	R().nrets = 0;
	if(ea | eb) { if(!ea) ea = constant(1, a); if(!eb) eb = constant(1, b); ret(0, mk(SYO_ORB, 1, ea, eb, 0, 0, v)); }
	return v;
}
bool sym_not(bool a)
{
	native_enter((const void*)sym_not);
	u32 ea = boolarg(0, a);
	R().nrets = 0;
	if(ea) ret(0, mk(SYO_NOT, 1, ea, 0, 0, 0, !a));
	return !a;
}
double sym_ite(bool c, double a, double b)
{
	native_enter((const void*)sym_ite);
	u32 ec = boolarg(0, c), ea = farg(1, a), eb = farg(2, b);
	R().nrets = 0;
	if(!ec) ret(0, c ? ea : eb);
	else ret(0, mk(SYO_ITE, SYT_F64, ec, ea, eb, 0, fromd(c ? a : b)));
	return c ? a : b;
}
double sym_concrete(double v) { native_enter((const void*)sym_concrete); R().nrets = 0; return v; }
void sym_fork_select(int on) { native_enter((const void*)sym_fork_select); R().fork_select = on != 0; }
void sym_reached(const char* l) { native_enter((const void*)sym_reached); event("Y %s", l); }
void sym_threads(int n) { native_enter((const void*)sym_threads); omp_threads = n; }
bool sym_symbolic(void) { native_enter((const void*)sym_symbolic); R().nrets = 0; return true; }
void sym_note(const char* t) { native_enter((const void*)sym_note); event("T %s", t); }
const char* sym_scratch(void) { native_enter((const void*)sym_scratch); R().nrets = 0; const char* s = getenv("SYM_SCRATCH"); return s ? s : "/tmp"; }
}
