// Wrapping positions into the periodic box.
#include "common.h"
#include "eng.h"
int main()
{
	size_t n = sym_param("n", 2); int eng = sym_param("engine", 0); sym_threads(sym_param("threads", 2));
	size_t live = sym_param("live", 2);
	nbody_data data; for(size_t i = 0; i < n; ++i) data.add_body(nbvertex_t(gen(i, -1, 1), gen(i + 9, -1, 1), gen(i + 20, -1, 1)), nbvertex_t(), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	nbody_engine* e = make_engine(eng); if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
	size_t ps = e->problem_size(), first = sym_param("first", 0); vd y(ps);
	double b = sym_f64("b", 2, 0.5, 100);
	for(size_t i = 0; i < ps; ++i) y[i] = i >= first && i < first + live ? sym_f64(nm("y", i).c_str(), gen(i, -5, 5), -1000, 1000) : gen(i, -0.4, 0.4);
	for(size_t i = 3 * n; i < ps; ++i) y[i] = sym_f64(nm("v", i).c_str(), gen(i, -5, 5), -1000, 1000);
	for(size_t i = 0; i < 3 * n; ++i) { sym_assume(y[i] <= 2.999 * b); sym_assume(y[i] >= -2.999 * b); }
	bool own = sym_param("own", 0);
	nbody_engine::memory* m = own ? e->get_y() : e->create_buffer(sizeof(double) * ps); e->write_buffer(m, y.data());
	e->clamp(m, b);
	vd g = read(e, m, ps);
	for(size_t i = 0; i < ps; ++i)
	{
		double w = y[i];
		if(i < 3 * n) { if(y[i] > b) { w = y[i] - 2 * b; sym_reached("wrapped down"); } else if(y[i] < -b) { w = y[i] + 2 * b; sym_reached("wrapped up"); } else sym_reached("kept"); }
		sym_check_eq(g[i], w, 1 + fabs(y[i]), i < 3 * n ? "coordinates are shifted by whole box sizes into the box" : "velocities are untouched");
		if(i < 3 * n) { sym_check(g[i] <= b, "coordinates end inside the box"); sym_check(g[i] >= -b, "coordinates end inside the box"); }
	}
	sym_reached("done");
	if(!own) e->free_buffer(m);
	delete e;
	return 0;
}
