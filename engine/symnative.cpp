// Plain implementation of the harness API: replays one concrete input on the real code, built normally.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
static int g_fail = 0;
static std::map<std::string, std::string>& in()
{
	static std::map<std::string, std::string>* m = nullptr;
	if(!m)
	{
		m = new std::map<std::string, std::string>;
		if(const char* f = getenv("SYM_INPUT")) if(FILE* h = fopen(f, "r")) { char n[256], v[256]; while(fscanf(h, "%255s %255s", n, v) == 2) (*m)[n] = v; fclose(h); }
	}
	return *m;
}
static uint64_t hexv(const std::string& s) { return strtoull(s.c_str(), 0, 16); }
static void fail(const char* label, const char* what) { printf("CHECKFAIL %s %s\n", label, what); fflush(stdout); g_fail = 1; }
static void at_end() { printf("REPLAYDONE %d\n", g_fail); fflush(stdout); }
static struct I0 { I0() { atexit(at_end); } } i0;
extern "C" {
double symuf_value(const char* name, const double* a, size_t n);
double sym_f64(const char* name, double def, double, double) { auto it = in().find(name); if(it == in().end()) return def; uint64_t v = hexv(it->second); double d; memcpy(&d, &v, 8); return d; }
double sym_f64_any(const char* name, double def) { return sym_f64(name, def, 0, 0); }
float sym_f32(const char* name, double def, double, double) { auto it = in().find(name); if(it == in().end()) return (float)def; uint32_t v = hexv(it->second); float d; memcpy(&d, &v, 4); return d; }
uint64_t sym_u64(const char* name, uint64_t def, uint64_t, uint64_t) { auto it = in().find(name); return it == in().end() ? def : hexv(it->second); }
int64_t sym_param(const char* name, int64_t def) { const char* e = getenv((std::string("SYMP_") + name).c_str()); return e ? atoll(e) : def; }
void sym_assume(bool c) { if(!c) { printf("ASSUMEFAIL\n"); fflush(stdout); _exit(3); } }
void sym_check(bool c, const char* l) { if(!c) fail(l, "false"); }
void sym_fail(const char* l) { fail(l, "reached"); }
void sym_check_eq(double a, double b, double scale, const char* l)
{
	double tol = 1e-7 * (fabs(scale) > 1e-300 ? fabs(scale) : 1e-300);
	if(!(fabs(a - b) <= tol)) { if(a != a && b != b) return; if(a == b) return; char t[160]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(l, t); }
}
void sym_check_rel(double a, double b, double tol, const char* l) { if(!(fabs(a - b) <= tol * fabs(b))) { char t[160]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(l, t); } }
void sym_check_bits(double a, double b, const char* l) { if(memcmp(&a, &b, 8)) { char t[160]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(l, t); } }
void sym_check_bits32(float a, float b, const char* l) { if(memcmp(&a, &b, 4)) { char t[160]; snprintf(t, sizeof t, "%.9g != %.9g", a, b); fail(l, t); } }
void sym_check_u64(uint64_t a, uint64_t b, const char* l) { if(a != b) { char t[160]; snprintf(t, sizeof t, "%llu != %llu", (unsigned long long)a, (unsigned long long)b); fail(l, t); } }
double sym_uf(const char* name, const double* a, size_t n)
{
	static std::map<std::string, std::vector<std::vector<double> > > apps;
	std::vector<std::vector<double> >& v = apps[name]; size_t k = 0;
	for(; k < v.size(); ++k)
	{
		bool same = v[k].size() == n;
		for(size_t i = 0; same && i < n; ++i) if(!(fabs(v[k][i] - a[i]) <= 1e-9 * (1 + fabs(a[i])))) same = false;
		if(same) break;
	}
	if(k == v.size()) v.push_back(std::vector<double>(a, a + n));
	char key[256]; snprintf(key, sizeof key, "%s#%zu", name, k);
	auto it = in().find(key);
	if(it != in().end()) { uint64_t b = hexv(it->second); double d; memcpy(&d, &b, 8); return d; }
	return symuf_value(name, v[k].data(), n);
}
bool sym_and(bool a, bool b) { return a && b; }
bool sym_or(bool a, bool b) { return a || b; }
bool sym_not(bool a) { return !a; }
double sym_ite(bool c, double a, double b) { return c ? a : b; }
double sym_concrete(double v) { return v; }
void sym_fork_select(int) {}
void sym_reached(const char*) {}
void sym_threads(int) {}
bool sym_symbolic(void) { return false; }
void sym_note(const char*) {}
const char* sym_scratch(void) { const char* s = getenv("SYM_SCRATCH"); return s ? s : "/tmp"; }
}
