// Which objects a configuration yields, and that the step limits given reach them.
#include "cli.h"
#include "uf_engine.h"
#include <typeinfo>
#include <string.h>
template<class T> static bool is(const nbody_solver* s) { return s && typeid(*s) == typeid(T); }
template<class T> static bool is(const nbody_engine* e) { return e && typeid(*e) == typeid(T); }
struct S { const char* name; bool (*ok)(const nbody_solver*); };
static const S SOLV[] = {
	{"adams", is<nbody_solver_adams>}, {"bs", is<nbody_solver_bulirsch_stoer>}, {"euler", is<nbody_solver_euler>}, {"midpoint", is<nbody_solver_midpoint>}, {"midpoint-st", is<nbody_solver_midpoint_stetter>},
	{"rk4", is<nbody_solver_rk4>}, {"rkck", is<nbody_solver_rkck>}, {"rkdp", is<nbody_solver_rkdp>}, {"rkdverk", is<nbody_solver_rkdverk>}, {"rkf", is<nbody_solver_rkf>}, {"rkfeagin10", is<nbody_solver_rkfeagin10>},
	{"rkfeagin12", is<nbody_solver_rkfeagin12>}, {"rkfeagin14", is<nbody_solver_rkfeagin14>}, {"rkgl", is<nbody_solver_rkgl>}, {"rklc", is<nbody_solver_rklc>}, {"trapeze", is<nbody_solver_trapeze>}};
struct E { const char* name; const char* lay; bool (*ok)(const nbody_engine*); };
static const E ENGS[] = {
	{"ah", 0, is<nbody_engine_ah>}, {"block", 0, is<nbody_engine_block>}, {"openmp", 0, is<nbody_engine_openmp>}, {"simple", 0, is<nbody_engine_simple>}, {"simple_bh", "tree", is<nbody_engine_simple_bh_tree>},
	{"simple_bh", "heap", is<nbody_engine_simple_bh_heap>}, {"simple_bh", "heap_stackless", is<nbody_engine_simple_bh_heap_stackless>}};
static const char* BAD[] = {"", "none", "Simple", "simpl", "simple2", "rk", "rk5", "RK4", "rk_4", "midpoint_st", "nbody_engine_simple", "tree", "0"};
template<size_t N, class T> static size_t pick(const char* name, T (&)[N]) { uint64_t k = sym_u64(name, 0, 0, N - 1); for(size_t i = 0; i + 1 < N; ++i) if(k == i) return i; return N - 1; }
// evaluations of the right-hand side one step takes
static size_t calls(const char* solver, const char* opt1, size_t v1, const char* opt2 = NULL, size_t v2 = 0, nbody_solver_rk_butcher** rk = NULL)
{
	nbody_data data; data.add_body(nbvertex_t(1, 2, 3), nbvertex_t(3, 2, 1), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	struct cnt : uf_engine { void fcompute(const nbcoord_t&, const memory* y, memory* f) override { ++calls; vd v(y->size() / sizeof(double)); read_buffer(v.data(), y); for(size_t i = 0; i < v.size(); ++i) v[i] = sin(7 * v[i]) * 30 + double(i); write_buffer(f, v.data()); } } e;
	if(!e.init(&data)) { sym_fail("init"); return 0; }
	Args a; a.s("solver", solver); a.i(opt1, v1); if(opt2) a.i(opt2, v2); a.d("error_threshold", 1e-300); a.d("min_step", 1e-12); a.d("max_step", 1);
	nbody_solver* s = nbody_create_solver(a.map()); if(!s) { sym_fail("solver creation"); return 0; }
	s->set_engine(&e); s->advise(0.1);
	if(rk) *rk = dynamic_cast<nbody_solver_rk_butcher*>(s); else delete s;
	return e.calls;
}
static size_t small(const char* n, size_t lo, size_t hi) { uint64_t k = sym_u64(n, (lo + hi) / 2, lo, hi); for(volatile size_t i = lo; i < hi; i = i + 1) if(k == i) return i; return hi; }
int main()
{
	int what = sym_param("what", 0);
	if(what == 3)
	{
		// integer options over wide ranges, by the work they cause
		static const char* RK[] = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14"}; int w = sym_param("opt", 0);
		if(w == 0 || w == 1)
		{
			const char* m = RK[sym_param("method", 0)]; size_t v = small("value", w, 20); nbody_solver_rk_butcher* rk = NULL;
			size_t c = w ? calls(m, "substep_subdivisions", v, "max_recursion", 1, &rk) : calls(m, "max_recursion", v, "substep_subdivisions", 1, &rk);
			if(!rk) { sym_fail("embedded method"); return 0; }
			sym_check(c == rk->table()->get_steps() * (v + 1), w ? "as many substeps as asked for" : "as many levels of subdivision as allowed"); delete rk;
		}
		else if(w == 2) { size_t v = small("value", 0, 20); sym_check(calls("trapeze", "refine_steps_count", v) == v + 2, "as many corrections as asked for"); }
		else if(w == 3) { size_t v = small("value", 0, 20); const char* m = sym_param("method", 0) ? "rklc" : "rkgl"; size_t c0 = calls(m, "refine_steps_count", 0, "max_recursion", 0), c1 = calls(m, "refine_steps_count", 1, "max_recursion", 0); sym_check(calls(m, "refine_steps_count", v, "max_recursion", 0) == c0 + v * (c1 - c0), "as many refinements as asked for"); sym_check(c1 > c0, "a refinement evaluates the right-hand side"); }
		else { size_t v = small("value", 3, 12); sym_check(calls("bs", "max_level", v + 1) > calls("bs", "max_level", v), "the table of the extrapolation grows with the level allowed"); }
		sym_reached("counted"); return 0;
	}
	if(what == 0)
	{
		size_t k = pick("solver", SOLV); double mn = sym_f64("min", 1e-4, 1e-12, 1), mx = sym_f64("max", 1e-2, 1e-12, 10);
		Args a; a.s("solver", SOLV[k].name); a.d("min_step", mn); a.d("max_step", mx);
		if(k == 0) { a.i("rank", 3); a.s("starter_solver", "rk4"); }
		nbody_solver* s = nbody_create_solver(a.map());
		sym_check(SOLV[k].ok(s), "the solver asked for is made"); if(!s) return 0;
		sym_check_eq(s->get_min_step(), mn, 1e-12, "the smallest step is the one given"); sym_check_eq(s->get_max_step(), mx, 1e-12, "the largest step is the one given");
		delete s; sym_reached("solver made");
	}
	else if(what == 1)
	{
		size_t k = pick("engine", ENGS); Args a; a.s("engine", ENGS[k].name); if(ENGS[k].lay) { a.s("tree_layout", ENGS[k].lay); a.s("traverse_type", k % 2 ? "cycle" : "nested_tree"); }
		nbody_engine* e = nbody_create_engine(a.map());
		sym_check(ENGS[k].ok(e), "the engine asked for is made"); delete e; sym_reached("engine made");
	}
	else
	{
		size_t k = pick("bad", BAD); uint64_t w = sym_u64("where", 0, 0, 4); Args a;
		if(w == 0) { a.s("solver", BAD[k]); nbody_solver* s = nbody_create_solver(a.map()); sym_check(s == NULL, "an unknown solver name yields no solver"); delete s; }
		else if(w == 1) { a.s("solver", "adams"); a.s("starter_solver", BAD[k]); nbody_solver* s = nbody_create_solver(a.map()); sym_check(s == NULL, "an unknown starter yields no solver"); delete s; }
		else
		{
			if(w == 2) a.s("engine", BAD[k]);
			else { a.s("engine", "simple_bh"); a.s("tree_layout", w == 3 ? strcmp(BAD[k], "tree") ? BAD[k] : "trees" : "heap"); a.s("traverse_type", w == 4 ? BAD[k] : "cycle"); }
			nbody_engine* e = nbody_create_engine(a.map());
			sym_check(e == NULL, w == 2 ? "an unknown engine name yields no engine" : w == 3 ? "an unknown tree layout yields no engine" : "an unknown traversal yields no engine"); delete e;
		}
		sym_reached("refused");
	}
	return 0;
}
