// The real nbody_engine_simple with the right-hand side replaced by an arbitrary (uninterpreted) function f(t, y).
#ifndef UF_ENGINE_H
#define UF_ENGINE_H
#include "common.h"
#include "nbody_engine_simple.h"
// f as seen by the reference formulas; 'live' selects the components that are really arbitrary (others are 0)
struct Rhs
{
	size_t ps, live;
	vd operator()(double t, const vd& y) const
	{
		std::vector<double> a(live + 1); a[0] = t;
		for(size_t i = 0; i < live; ++i) a[i + 1] = y[i];
		vd f(ps, 0.0);
		for(size_t i = 0; i < live; ++i) f[i] = sym_uf(nm("f", i).c_str(), a.data(), live + 1);
		return f;
	}
};
class uf_engine : public nbody_engine_simple
{
public:
	Rhs rhs; size_t calls;
	uf_engine() : calls(0) { rhs.ps = rhs.live = 0; }
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		advise_compute_count(); ++calls;
		vd yv(y->size() / sizeof(double)); read_buffer(yv.data(), y);
		vd fv = rhs(t, yv);
		write_buffer(f, fv.data());
	}
};
inline vd axpy(const vd& a, const vd& b, double c) { vd r(a); for(size_t i = 0; i < a.size(); ++i) r[i] = a[i] + b[i] * c; return r; }
inline vd comb(const vd& y, const std::vector<vd>& k, const vd& w, double dt) { vd r(y); for(size_t j = 0; j < w.size(); ++j) for(size_t i = 0; i < r.size(); ++i) r[i] = r[i] + k[j][i] * (w[j] * dt); return r; }
struct Setup
{
	nbody_data data; uf_engine e; vd y0; double t0, dt; size_t ps, live;
	Setup(size_t live_, double dtlo = 1e-3, double dthi = 0.5) : live(live_)
	{
		data.add_body(nbvertex_t(), nbvertex_t(), 1, nbcolor_t(1, 1, 1, 1), 0.5);
		t0 = sym_f64("t0", 0.75, 0, 10); dt = sym_f64("dt", sym_param("bigdt", 0) ? 0.4375 : 0.0625, dtlo, dthi);
		data.set_time(t0); data.set_step(0);
		if(!e.init(&data)) sym_fail("init");
		ps = e.problem_size(); e.rhs.ps = ps; e.rhs.live = live; y0.assign(ps, 0);
		for(size_t i = 0; i < live; ++i) y0[i] = sym_f64(nm("y", i).c_str(), gen(i, -2, 2), -10, 10);
		e.write_buffer(e.get_y(), y0.data());
	}
	vd y() { return read(&e, e.get_y(), ps); }
	void expect(const vd& ref, double t, size_t step, const char* what)
	{
		vd v = y();
		for(size_t i = 0; i < ps; ++i) sym_check_eq(v[i], ref[i], 1 + fabs(ref[i]), what);
		sym_check_eq(e.get_time(), t, 1 + fabs(t), "simulation time advances by the step");
		if(step != size_t(-1)) sym_check(e.get_step() == step, "step counter advances by one");
	}
};
#endif
