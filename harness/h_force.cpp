// Force evaluation of a directly summing engine against the softened law of gravitation, term by term.
#include "common.h"
#include "eng.h"
int main()
{
	size_t n = sym_param("n", 3), nsym = sym_param("nsym", 3); int eng = sym_param("engine", 0);
	sym_threads(sym_param("threads", 4));
	Bodies b = make_bodies(n, nsym, true, true);
	if(sym_param("line", 0))
	{
		// one body moves along an axis and may come arbitrarily close to the others
		int ax = sym_param("line", 0) - 1;
		for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { b.v[c][i] = double(i) + c; b.r[c][i] = c == ax ? i == 0 ? sym_f64("x", 0.375, -2, 2) : i * 0.5 - 0.5 : 0; }
		for(size_t i = 0; i < n; ++i) b.m[i] = 1.0 + i;
	}
	nbody_data data; fill_data(data, b);

	nbody_engine* e = make_engine(eng);
	if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
	size_t ps = e->problem_size();
	sym_check(ps == 6 * n, "problem size");
	nbody_engine::memory* f = e->create_buffer(sizeof(double) * ps);
	vd junk(ps, 12345.0); e->write_buffer(f, junk.data());
	e->fcompute(0, e->get_y(), f);
	vd fv = read(e, f, ps);
	for(size_t i = 0; i < n; ++i)
	{
		double pos[3] = {b.r[0][i], b.r[1][i], b.r[2][i]}, acc[3] = {0, 0, 0}, scale = 1e-12;
		for(size_t j = 0; j < n; ++j) if(j != i) ref_pull(pos, b.r[0][j], b.r[1][j], b.r[2][j], b.m[j], acc, scale);
		for(int c = 0; c < 3; ++c)
		{
			sym_check_eq(fv[c * n + i], b.v[c][i], 1 + fabs(b.v[c][i]), "position derivative is the velocity");
			sym_check_eq(fv[(3 + c) * n + i], acc[c], scale, "acceleration is the softened gravitation sum");
		}
	}
	vd y2 = read(e, e->get_y(), ps);
	for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { sym_check_eq(y2[c * n + i], b.r[c][i], 1, "state unchanged by evaluation"); sym_check_eq(y2[(3 + c) * n + i], b.v[c][i], 1, "state unchanged by evaluation"); }
	sym_reached("force evaluated");
	e->free_buffer(f); delete e;
	return 0;
}
