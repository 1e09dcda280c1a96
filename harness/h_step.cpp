// One or several steps of a fixed-step method for an arbitrary right-hand side, against its defining formula.
#include "uf_engine.h"
#include "cli.h"
static vd ref_rk4(const Rhs& f, double t, const vd& y, double h)
{
	vd k1 = f(t, y), k2 = f(t + h / 2, axpy(y, k1, h / 2)), k3 = f(t + h / 2, axpy(y, k2, h / 2)), k4 = f(t + h, axpy(y, k3, h)), r(y);
	for(size_t i = 0; i < r.size(); ++i) r[i] = y[i] + h * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6;
	return r;
}
static vd ref_euler(const Rhs& f, double t, const vd& y, double h) { return axpy(y, f(t, y), h); }
int main()
{
	int kind = sym_param("kind", 0); size_t steps = sym_param("steps", 2), live = sym_param("live", 2), refine = sym_param("refine", 1), rank = sym_param("rank", 3);
	bool corr = sym_param("corr", 0); int starter = sym_param("starter", 0); int reset_at = sym_param("reset", -1);
	Setup s(live); const Rhs& f = s.e.rhs;
	const char* NAME[] = {"euler", "midpoint", "midpoint-st", "rk4", "trapeze", "adams"};
	Args p; p.s("solver", NAME[kind]);
	if(kind == 4) p.i("refine_steps_count", refine);
	if(kind == 5) { p.i("rank", rank); p.b("correction", corr); p.s("starter_solver", starter == 0 ? "euler" : starter == 1 ? "rk4" : "midpoint-st"); }
	nbody_solver* sol = nbody_create_solver(p.map());
	if(!sol) { sym_fail("solver creation"); return 0; }
	sol->set_engine(&s.e);
	vd y = s.y0; double t = s.t0, h = s.dt;
	vd u, v, fu; bool st_init = false; std::vector<vd> hist; size_t phase = 0;
	auto stetter = [&]()
	{
		if(!st_init) { u = v = y; fu = f(t, u); st_init = true; }
		u = axpy(u, f(t + h / 2, axpy(v, fu, h / 2)), h);
		vd fn = f(t + h, u);
		for(size_t i = 0; i < v.size(); ++i) v[i] = v[i] + h / 2 * (fu[i] + fn[i]);
		fu = fn; vd r(y);
		for(size_t i = 0; i < r.size(); ++i) r[i] = (u[i] + v[i]) / 2;
		return r;
	};
	static const double AB[6][5] = {{0}, {1}, {3 / 2., -1 / 2.}, {23 / 12., -16 / 12., 5 / 12.}, {55 / 24., -59 / 24., 37 / 24., -9 / 24.}, {1901 / 720., -2774 / 720., 2616 / 720., -1274 / 720., 251 / 720.}};
	for(size_t n = 0; n < steps; ++n)
	{
		if((int)n == reset_at)
		{
			sol->reset(); st_init = false; hist.clear(); phase = 0;
			// after a reset the solver must not remember anything: continue from fresh, unrelated values
			for(size_t i = 0; i < live; ++i) y[i] = sym_f64(nm("w", i).c_str(), gen(i + 40, -2, 2), -10, 10);
			s.e.write_buffer(s.e.get_y(), y.data());
		}
		if(n && sym_param("vary", 0)) h = sym_f64(nm("dt", n).c_str(), 0.0625 + 0.01 * double(n), 1e-3, 0.5);
		sol->advise(h);
		switch(kind)
		{
		case 0: y = ref_euler(f, t, y, h); break;
		case 1: { vd k1 = f(t, y); y = axpy(y, f(t + h / 2, axpy(y, k1, h / 2)), h); break; }
		case 2: y = stetter(); break;
		case 3: y = ref_rk4(f, t, y, h); break;
		case 4:
		{
			vd f0 = f(t, y), pr = axpy(y, f0, h), r(y);
			for(size_t k = 0; k <= refine; ++k) { vd f1 = f(t + h, pr); for(size_t i = 0; i < r.size(); ++i) r[i] = y[i] + h / 2 * (f0[i] + f1[i]); pr = r; }
			y = r; break;
		}
		case 5:
			hist.insert(hist.begin(), f(t, y));
			if(phase <= rank) y = starter == 0 ? ref_euler(f, t, y, h) : starter == 1 ? ref_rk4(f, t, y, h) : stetter();
			else { vd r(y); for(size_t k = 0; k < rank; ++k) for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + h * AB[rank][k] * hist[k][i]; y = r; }
			++phase; break;
		}
		t = t + h;
		s.expect(y, t, n + 1, "state after the step follows the method's formula");
	}
	sym_reached("steps done");
	delete sol;
	return 0;
}
