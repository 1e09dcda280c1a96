// Bulirsch-Stoer: modified midpoint sequences for an arbitrary right-hand side, polynomial extrapolation in h^2 to h=0,
// stopping rule; and the extrapolators on their own.
#include "uf_engine.h"
#include "cli.h"
#include "nbody_solver_bulirsch_stoer.h"
#include "nbody_extrapolator.h"
static std::vector<size_t> seq(size_t n) { std::vector<size_t> s; for(size_t j = 0; j < n; ++j) s.push_back(j == 0 ? 2 : j == 1 ? 4 : j == 2 ? 6 : 2 * s[j - 2]); return s; }
// value at h=0 of the polynomial in h^order through (1/n_k^order, y_k), k = from..to
static vd extrapol(const std::vector<vd>& y, const std::vector<size_t>& n, size_t from, size_t to, int order)
{
	vd r(y[0].size(), 0.0);
	for(size_t k = from; k <= to; ++k)
	{
		double w = 1, a = pow(double(n[k]), order);
		for(size_t j = from; j <= to; ++j) if(j != k) { double b = pow(double(n[j]), order); w *= a / (a - b); }
		for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + w * y[k][i];
	}
	return r;
}
static vd stetter(const Rhs& f, vd y, double t, double h, size_t n)
{
	vd u = y, v = y, fu = f(t, u), r = y;
	for(size_t s = 0; s < n; ++s, t = t + h)
	{
		u = axpy(u, f(t + h / 2, axpy(v, fu, h / 2)), h);
		vd fn = f(t + h, u);
		for(size_t i = 0; i < v.size(); ++i) v[i] = v[i] + h / 2 * (fu[i] + fn[i]);
		fu = fn;
		for(size_t i = 0; i < v.size(); ++i) r[i] = (u[i] + v[i]) / 2;
	}
	return r;
}
int main()
{
	int kind = sym_param("kind", 0); size_t level = sym_param("level", 3), live = sym_param("live", 1), steps = sym_param("steps", 1); int order = sym_param("order", 2);
	Setup s(live); const Rhs& f = s.e.rhs;
	if(kind == 0)
	{
		double thr = sym_f64("thr", 1e-3, 1e-9, 1);
		Args a; a.s("solver", "bs"); a.i("max_level", level); a.d("error_threshold", thr);
		nbody_solver* sol = a.cli ? nbody_create_solver(a.map()) : new nbody_solver_bulirsch_stoer(level, thr);
		sol->set_engine(&s.e); sol->set_time_step(1e-9, 1);
		std::vector<size_t> n = seq(level); vd y = s.y0; double t = s.t0;
		for(size_t k = 0; k < steps; ++k)
		{
			sol->advise(s.dt);
			std::vector<vd> ys; vd res;
			for(size_t l = 0; l < level; ++l)
			{
				ys.push_back(stetter(f, y, t, s.dt / double(n[l]), n[l]));
				res = extrapol(ys, n, 0, l, 2);
				if(l < 2) continue;
				if(l == level - 1) { sym_reached("last level"); break; }
				vd prev = extrapol(ys, n, 1, l, 2); double err = 0;
				for(size_t i = 0; i < res.size(); ++i) { double d = fabs(res[i] - prev[i]); err = sym_ite(d > err, d, err); }
				if(err < thr) { sym_reached("converged"); break; }
			}
			y = res; t = t + s.dt;
			s.expect(y, t, k + 1, "state after the step is the extrapolated solution");
		}
		delete sol;
	}
	else
	{
		// extrapolators on arbitrary data, arbitrary (increasing) substep counts
		std::vector<size_t> n = seq(level);
		if(sym_param("altseq", 0)) for(size_t j = 0; j < level; ++j) n[j] = 3 * j + 1;
		nbody_extrapolator* x = nbody_create_extrapolator(kind == 1 ? "neville" : "berrut", &s.e, order, n);
		if(!x) { sym_fail("extrapolator creation"); return 0; }
		nbody_engine::memory* m = s.e.create_buffer(sizeof(double) * s.ps);
		std::vector<vd> ys;
		for(int round = 0; round < 2; ++round)       // the table is reused for the next step
		{
			ys.clear();
			for(size_t l = 0; l < level; ++l)
			{
				vd v(s.ps, 0.0); for(size_t i = 0; i < live; ++i) v[i] = sym_f64((nm("d", l) + nm("_", i) + nm("_", round)).c_str(), gen(3 * l + i + 11 * round, -3, 3), -10, 10);
				ys.push_back(v); s.e.write_buffer(m, v.data()); x->update_table(l, m);
				double err = 0, est = 0; vd res(s.ps, 0.0);
				if(kind == 1)
				{
					res = extrapol(ys, n, 0, l, order);
					if(l) { vd prev = extrapol(ys, n, 1, l, order); for(size_t i = 0; i < live; ++i) { double d = fabs(res[i] - prev[i]); err = sym_ite(d > err, d, err); } }
				}
				else
				{
					// Berrut's rational interpolant with weights (-1)^k over the first l values
					auto berrut = [&](size_t cnt) { vd r(s.ps, 0.0); double sum = 0; for(size_t k = 0; k < cnt; ++k) sum += (k % 2 ? 1 : -1) * pow(double(n[k]), order); for(size_t k = 0; k < cnt; ++k) { double w = (k % 2 ? 1 : -1) * pow(double(n[k]), order) / sum; for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + w * ys[k][i]; } return r; };
					res = berrut(l);
					if(l) { vd prev = berrut(l - 1); for(size_t i = 0; i < live; ++i) { double d = fabs(res[i] - prev[i]); err = sym_ite(d > err, d, err); } }
				}
				est = x->estimate_error(l);
				if(l) sym_check_eq(est, err, 1 + fabs(err), "error estimate is the change of the last extrapolation");
				else sym_check(est > 1e300, "no error estimate is claimed for a single value");
				s.e.fill_buffer(m, 777.0); x->extrapolate(l, m);
				vd got = read(&s.e, m, s.ps);
				for(size_t i = 0; i < s.ps; ++i) sym_check_eq(got[i], res[i], 1 + fabs(res[i]), "extrapolated value");
			}
		}
		s.e.free_buffer(m); delete x;
	}
	sym_reached("done");
	return 0;
}
