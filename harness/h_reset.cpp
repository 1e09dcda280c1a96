// A solver that ran, was reset and got a new state, next to a fresh one started from that state: bit for bit the same.
#include "common.h"
#include "nbody_engine_simple.h"
class lin_engine : public nbody_engine_simple
{
public:
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		advise_compute_count();
		size_t n = y->size() / sizeof(double); vd v(n), g(n); read_buffer(v.data(), y);
		for(size_t i = 0; i < n; ++i) g[i] = 0.75 * v[i] - 1.1 * v[(i + 1) % n] + 0.3 * t;
		write_buffer(f, g.data());
	}
};
static nbody_solver* make()
{
	static const char* NAME[] = {"euler", "midpoint", "midpoint-st", "rk4", "trapeze", "adams", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "bs"};
	static const char* START[] = {"euler", "rk4", "midpoint-st", "rkck", "rklc"};
	QVariantMap p; int k = sym_param("kind", 0);
	p["solver"] = NAME[k]; p["rank"] = int(sym_param("rank", 3)); p["correction"] = bool(sym_param("corr", 1)); p["starter_solver"] = START[sym_param("starter", 0)];
	p["refine_steps_count"] = int(sym_param("refine", 2)); p["max_recursion"] = int(sym_param("maxrec", 0)); p["substep_subdivisions"] = 4; p["max_level"] = int(sym_param("level", 3)); p["min_step"] = 1e-3; p["max_step"] = 0.25;
	if(k == 15) p["error_threshold"] = 1e-30; else p["error_threshold"] = sym_param("maxrec", 0) ? 1e-9 : 1e30;
	return nbody_create_solver(p);
}
int main()
{
	size_t before = sym_param("before", 3), after = sym_param("after", 2), at = sym_param("at", 2); double dt = 0.1;
	nbody_data data, data2; for(int k = 0; k < 2; ++k) (k ? data2 : data).add_body(nbvertex_t(1, 2, 3), nbvertex_t(0.4, 0.5, 0.6), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	lin_engine a, b; if(!a.init(&data) || !b.init(&data2)) { sym_fail("init"); return 0; }
	nbody_solver* sa = make(); nbody_solver* sb = make();
	if(!sa || !sb) { sym_fail("solver creation"); return 0; }
	sa->set_engine(&a); sb->set_engine(&b);
	for(size_t i = 0; i < before; ++i) sa->advise(dt);
	sa->reset();
	size_t n = a.problem_size(); vd y(n);
	for(size_t i = 0; i < n; ++i) y[i] = i == at ? sym_f64("w", 1.7, -10, 10) : gen(i, -2, 2);
	a.write_buffer(a.get_y(), y.data()); b.write_buffer(b.get_y(), y.data());
	b.set_time(a.get_time()); b.set_step(a.get_step());
	for(size_t k = 0; k < after; ++k)
	{
		sa->advise(dt); sb->advise(dt);
		vd u = read(&a, a.get_y(), n), v = read(&b, b.get_y(), n);
		for(size_t i = 0; i < n; ++i) sym_check_bits(u[i], v[i], "a reset solver behaves like a new one");
		sym_check_bits(a.get_time(), b.get_time(), "time advances alike"); sym_check(a.get_step() == b.get_step(), "steps are counted alike");
	}
	delete sa; delete sb;
	sym_reached("steps done");
	return 0;
}
