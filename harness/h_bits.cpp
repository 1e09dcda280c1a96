// Bit-exact transfers: engine state in and out, buffer copies, maximum norm, compensated summation.
#include "common.h"
#include "eng.h"
int main()
{
	size_t n = sym_param("n", 2); int eng = sym_param("engine", 0), what = sym_param("what", 0);
	sym_threads(sym_param("threads", 4));
	nbody_data data; vd r[3], v[3], m(n);
	for(int c = 0; c < 3; ++c) { r[c].resize(n); v[c].resize(n); }
	for(size_t i = 0; i < n; ++i)
	{
		for(int c = 0; c < 3; ++c) { r[c][i] = gen(i * 7 + c, -9, 9); v[c][i] = gen(i * 5 + c, -2, 2); if(what == 0) { r[c][i] = sym_f64_any(nm("r", 3 * i + c).c_str(), r[c][i]); v[c][i] = sym_f64_any(nm("v", 3 * i + c).c_str(), v[c][i]); } }
		m[i] = 1 + i; if(what == 0) m[i] = sym_f64_any(nm("m", i).c_str(), m[i]);
		data.add_body(nbvertex_t(r[0][i], r[1][i], r[2][i]), nbvertex_t(v[0][i], v[1][i], v[2][i]), m[i], nbcolor_t(1, 1, 1, 1), 0.5);
	}
	double t0 = what == 0 ? sym_f64_any("t", 3.5) : 3.5; uint64_t st = what == 0 ? sym_u64("step", 7, 0, (uint64_t)-1) : 7;
	data.set_time(t0); data.set_step(st);
	nbody_engine* e = make_engine(eng); if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
	size_t ps = e->problem_size();
	if(what == 0)
	{
		sym_check(ps == 6 * n, "problem size");
		sym_check_bits(e->get_time(), t0, "initial time"); sym_check_u64(e->get_step(), st, "initial step");
		vd y = read(e, e->get_y(), ps);
		for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { sym_check_bits(y[c * n + i], r[c][i], "initial coordinates"); sym_check_bits(y[(3 + c) * n + i], v[c][i], "initial velocities"); }
		// overwrite the state, read it back through the data object
		vd w(ps); for(size_t i = 0; i < ps; ++i) w[i] = sym_f64_any(nm("w", i).c_str(), gen(i + 50, -4, 4));
		e->write_buffer(e->get_y(), w.data());
		for(size_t i = 0; i < n; ++i) { data.get_vertites()[i] = nbvertex_t(); data.get_velosites()[i] = nbvertex_t(); }
		e->get_data(&data);
		for(size_t i = 0; i < n; ++i)
		{
			const nbvertex_t& p = data.get_vertites()[i]; const nbvertex_t& q = data.get_velosites()[i];
			sym_check_bits(p.x, w[i], "coordinates handed back"); sym_check_bits(p.y, w[n + i], "coordinates handed back"); sym_check_bits(p.z, w[2 * n + i], "coordinates handed back");
			sym_check_bits(q.x, w[3 * n + i], "velocities handed back"); sym_check_bits(q.y, w[4 * n + i], "velocities handed back"); sym_check_bits(q.z, w[5 * n + i], "velocities handed back");
			sym_check_bits(data.get_mass()[i], m[i], "masses kept");
		}
		double t1 = sym_f64("t1", 1.5, -1e6, 1e6), h = sym_f64("h", 0.25, 1e-9, 10); uint64_t s1 = sym_u64("s1", 3, 0, 1000000);
		e->set_time(t1); e->set_step(s1); sym_check_bits(e->get_time(), t1, "time set"); sym_check_u64(e->get_step(), s1, "step set");
		e->advise_time(h); sym_check_bits(e->get_time(), t1 + h, "time advanced"); sym_check_u64(e->get_step(), s1 + 1, "step advanced");
		sym_check_bits(data.get_time(), t1 + h, "data shares the time"); sym_check_u64(data.get_step(), s1 + 1, "data shares the step");
		sym_check(e->get_compute_count() == 0, "no force evaluation counted");
	}
	else if(what == 1)
	{
		nbody_engine::memory* a = e->create_buffer(sizeof(double) * ps), *b = e->create_buffer(sizeof(double) * ps); vd w(ps), junk(ps, 3.0);
		for(size_t i = 0; i < ps; ++i) w[i] = sym_f64_any(nm("w", i).c_str(), gen(i + 50, -4, 4));
		double s = sym_f64_any("s", 2.5);
		e->write_buffer(a, w.data()); e->write_buffer(b, junk.data()); vd g = read(e, a, ps);
		for(size_t i = 0; i < ps; ++i) sym_check_bits(g[i], w[i], "write then read");
		e->copy_buffer(b, a); g = read(e, b, ps); for(size_t i = 0; i < ps; ++i) sym_check_bits(g[i], w[i], "copy");
		e->fill_buffer(b, s); g = read(e, b, ps); for(size_t i = 0; i < ps; ++i) sym_check_bits(g[i], s, "fill");
		g = read(e, a, ps); for(size_t i = 0; i < ps; ++i) sym_check_bits(g[i], w[i], "source of a copy unchanged");
		e->free_buffer(a); e->free_buffer(b);
	}
	else if(what == 2)
	{
		nbody_engine::memory* a = e->create_buffer(sizeof(double) * ps); vd w(ps); size_t live = sym_param("live", ps);
		for(size_t i = 0; i < ps; ++i) w[i] = i % (ps / live) == (sym_param("off", 0) ? ps / live - 1 : 0) ? sym_f64(nm("w", i).c_str(), gen(i + 50, -4, 4), -1e3, 1e3) : gen(i, -1e-3, 1e-3);
		e->write_buffer(a, w.data());
		double res = sym_f64("old", 1e9, -1e9, 1e9); e->fmaxabs(a, res);
		bool some = false; for(size_t i = 0; i < ps; ++i) { sym_check(res >= fabs(w[i]), "maximum norm bounds every element"); some = sym_or(some, res == fabs(w[i])); }
		sym_check(some, "maximum norm is attained");
		e->free_buffer(a);
	}
	else
	{
		// two compensated accumulations of two terms; only one element is symbolic
		nbody_engine::memory* a = e->create_buffer(sizeof(double) * ps), *q = e->create_buffer(sizeof(double) * ps), *b = e->create_buffer(sizeof(double) * ps), *c = e->create_buffer(sizeof(double) * ps);
		vd va(ps), vq(ps, 0.0), vb(ps), vc(ps); size_t at = sym_param("at", 0) % ps;
		for(size_t i = 0; i < ps; ++i) { va[i] = gen(i, 1, 2); vb[i] = gen(i + 20, 0, 1e-9); vc[i] = gen(i + 40, 0, 1e-9); }
		va[at] = sym_f64("a", 1.5, 0.5, 2); vb[at] = sym_f64("b", 1e-9, 0, 1e-3); vc[at] = sym_f64("c", 3e-10, 0, 1e-3);
		e->write_buffer(a, va.data()); e->write_buffer(q, vq.data()); e->write_buffer(b, vb.data()); e->write_buffer(c, vc.data());
		nbody_engine::memory_array arr; arr.push_back(b); arr.push_back(c); double w[2] = {0.5, 0.25};
		for(int k = 0; k < 2; ++k)
		{
			e->fmaddn_corr(a, q, arr, w, 2);
			for(size_t i = 0; i < ps; ++i) for(int j = 0; j < 2; ++j) { volatile double term = (j ? vc : vb)[i] * w[j], y = term - vq[i], t = va[i] + y, d = t - va[i]; vq[i] = d - y; va[i] = t; }
			vd ga = read(e, a, ps), gq = read(e, q, ps);
			for(size_t i = 0; i < ps; ++i) { sym_check_bits(ga[i], va[i], "compensated sum"); sym_check_bits(gq[i], vq[i], "compensation carried over"); }
		}
		e->free_buffer(a); e->free_buffer(q); e->free_buffer(b); e->free_buffer(c);
	}
	sym_reached("done");
	delete e;
	return 0;
}
