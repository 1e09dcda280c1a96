// Runge-Kutta solvers driven by a Butcher table, for an arbitrary right-hand side: stages, result, embedded error
// estimate and recursive step subdivision.
#include "uf_engine.h"
#include "cli.h"
#include "nbody_solver_rk_butcher.h"
#include "nbody_butcher_table.h"
struct Ref
{
	const Rhs& f; const nbody_butcher_table* tb; size_t maxrec, subdiv, refine; double thr, minstep; std::vector<vd> k; int depth; bool embedded, implicit;
	Ref(const Rhs& f_) : f(f_), depth(0) {}
	void stages(const vd& y, double t, double h, bool first)
	{
		size_t n = tb->get_steps(); const double** a = tb->get_a(); const double* c = tb->get_c();
		if(!implicit)
		{
			k.assign(n, vd());
			for(size_t i = 0; i < n; ++i) { vd r(y); for(size_t j = 0; j < i; ++j) for(size_t q = 0; q < r.size(); ++q) r[q] = r[q] + h * a[i][j] * k[j][q]; k[i] = f(t + c[i] * h, r); }
			return;
		}
		if(first)
		{
			vd k0 = f(t, y); k.assign(n, vd());
			for(size_t i = 0; i < n; ++i) k[i] = f(t + c[i] * h, axpy(y, k0, h * c[i]));
		}
		for(size_t it = 0; it < refine; ++it) for(size_t i = 0; i < n; ++i) { vd r(y); for(size_t j = 0; j < n; ++j) for(size_t q = 0; q < r.size(); ++q) r[q] = r[q] + h * a[i][j] * k[j][q]; k[i] = f(t + c[i] * h, r); }
	}
	vd step(vd y, double t, double h, size_t count, size_t level, bool first)
	{
		size_t n = tb->get_steps(); const double* b1 = tb->get_b1(); const double* b2 = tb->get_b2();
		for(size_t s = 0; s < count; ++s, t = t + h)
		{
			stages(y, t, h, first);
			bool split = false;
			if(embedded && level < maxrec)
			{
				double err = 0;
				for(size_t q = 0; q < y.size(); ++q) { double e = 0; for(size_t j = 0; j < n; ++j) e = e + (b2[j] - b1[j]) * k[j][q]; e = fabs(e); err = sym_ite(e > err, e, err); }
				if(h > minstep) if(err > thr) split = true;
			}
			if(split) { ++depth; y = step(y, t, h / double(subdiv), subdiv, level + 1, false); }
			else for(size_t q = 0; q < y.size(); ++q) { double v = y[q]; for(size_t j = 0; j < n; ++j) v = v + h * b2[j] * k[j][q]; y[q] = v; }
		}
		return y;
	}
};
int main()
{
	int kind = sym_param("kind", 0); size_t steps = sym_param("steps", 2), live = sym_param("live", 1); int reset_at = sym_param("reset", -1);
	const char* NAME[] = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"};
	Setup s(live); const Rhs& f = s.e.rhs;
	Ref r(f); r.maxrec = sym_param("maxrec", 0); r.subdiv = sym_param("subdiv", 2); r.refine = sym_param("refine", 1);
	r.thr = r.maxrec ? sym_f64("thr", kind == 5 || kind == 6 ? 1e-5 : 0.3, 1e-6, 10) : 1e-4;
	r.minstep = r.maxrec ? sym_f64("minstep", 1e-4, 1e-9, 1) : 1e-9;
	Args a; a.s("solver", NAME[kind]); a.i("max_recursion", r.maxrec); a.i("substep_subdivisions", r.subdiv); a.i("refine_steps_count", r.refine); a.b("correction", sym_param("corr", 0) != 0); a.d("error_threshold", r.thr); a.d("min_step", r.minstep); a.d("max_step", 1.0);
	nbody_solver* base = nbody_create_solver(a.map());
	nbody_solver_rk_butcher* sol = dynamic_cast<nbody_solver_rk_butcher*>(base);
	if(!sol) { sym_fail("solver creation"); return 0; }
	r.tb = sol->table(); r.embedded = kind != 7; r.implicit = kind >= 7;   // Gauss-Legendre has no embedded error estimate
	if(!a.cli) { sol->set_error_threshold(r.thr); sol->set_time_step(r.minstep, 1.0); }
	sol->set_engine(&s.e);
	vd y = s.y0; double t = s.t0, h = s.dt; bool first = true;
	for(size_t n = 0; n < steps; ++n)
	{
		if((int)n == reset_at)
		{
			sol->reset(); first = true;
			for(size_t i = 0; i < live; ++i) y[i] = sym_f64(nm("w", i).c_str(), gen(i + 40, -2, 2), -10, 10);
			s.e.write_buffer(s.e.get_y(), y.data());
		}
		if(n && sym_param("vary", 0)) h = sym_f64(nm("dt", n).c_str(), 0.0625 + 0.01 * double(n), 1e-3, 0.5);
		sol->advise(h);
		y = r.step(y, t, h, 1, 0, first); first = false;
		t = t + h;
		s.expect(y, t, n + 1, "state after the step follows the Butcher table");
	}
	sym_reached("steps done"); if(r.depth) sym_reached("step was subdivided"); else sym_reached("step was accepted");
	delete base;
	return 0;
}
