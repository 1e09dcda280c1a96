// Buffer algebra of an engine on arbitrary contents, elementwise; operands other than the destination stay untouched.
#include "common.h"
#include "eng.h"
struct Buf { nbody_engine* e; nbody_engine::memory* m; vd v; size_t ps; std::string name;
	void set(nbody_engine* e_, const char* n, size_t ps_, int seed) { e = e_; ps = ps_; name = n; m = e->create_buffer(sizeof(double) * ps); v.resize(ps); for(size_t i = 0; i < ps; ++i) v[i] = sym_f64(nm(n, i, "_").c_str(), gen(i + 31 * seed, -3, 3), -100, 100); e->write_buffer(m, v.data()); }
	void check(const char* what, double scale = 1) { vd g = read(e, m, ps); for(size_t i = 0; i < ps; ++i) sym_check_eq(g[i], v[i], scale, what); }
	void restore() { e->write_buffer(m, v.data()); } };
int main()
{
	size_t n = sym_param("n", 2), K = sym_param("k", 3); int eng = sym_param("engine", 0);
	sym_threads(sym_param("threads", 4));
	nbody_data data; for(size_t i = 0; i < n; ++i) data.add_body(nbvertex_t(gen(i, -1, 1), gen(i + 9, -1, 1), gen(i + 20, -1, 1)), nbvertex_t(), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	nbody_engine* e = make_engine(eng); if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
	size_t ps = e->problem_size(); vd y0 = read(e, e->get_y(), ps);
	Buf a, b, c, d; a.set(e, "a", ps, 1); b.set(e, "b", ps, 2); c.set(e, "c", ps, 3); d.set(e, "d", ps, 4);
	double s = sym_f64("s", 0.37, -10, 10);
	a.check("reading returns what was written");
	e->copy_buffer(a.m, b.m); a.v = b.v; a.check("copy"); b.check("copy leaves its source");
	e->fill_buffer(a.m, s); for(size_t i = 0; i < ps; ++i) a.v[i] = s; a.check("fill");
	e->fmadd(a.m, b.m, c.m, s); for(size_t i = 0; i < ps; ++i) a.v[i] = b.v[i] + c.v[i] * s; a.check("a=b+c*d");
	e->fmadd(a.m, a.m, c.m, s); for(size_t i = 0; i < ps; ++i) a.v[i] = a.v[i] + c.v[i] * s; a.check("a=a+c*d");
	e->fmadd(a.m, b.m, a.m, s); for(size_t i = 0; i < ps; ++i) a.v[i] = b.v[i] + a.v[i] * s; a.check("a=b+a*d");
	e->fmadd_inplace(a.m, c.m, s); for(size_t i = 0; i < ps; ++i) a.v[i] = a.v[i] + c.v[i] * s; a.check("a+=b*c");
	b.check("operands unchanged"); c.check("operands unchanged");
	sym_reached("elementary operations");
	// linear combinations with arbitrary, possibly zero, coefficients
	nbody_engine::memory_array arr; arr.push_back(b.m); arr.push_back(c.m); arr.push_back(d.m); arr.resize(K);
	const vd* src[3] = {&b.v, &c.v, &d.v}; double w[3];
	for(size_t k = 0; k < K; ++k) w[k] = sym_f64(nm("w", k).c_str(), gen(k + 70, -2, 2), -10, 10);
	for(size_t i = 0; i < ps; ++i) a.v[i] = gen(i, -1, 1); a.restore();
	e->fmaddn_inplace(a.m, arr, w, K); for(size_t i = 0; i < ps; ++i) for(size_t k = 0; k < K; ++k) a.v[i] = a.v[i] + (*src[k])[i] * w[k]; a.check("a+=sum");
	vd junk(ps, 55.0);
	Buf x; x.e = e; x.ps = ps; x.m = e->create_buffer(sizeof(double) * ps); x.v.assign(ps, 0.25);
	e->write_buffer(x.m, junk.data()); x.restore();
	for(size_t i = 0; i < ps; ++i) x.v[i] = a.v[i]; e->copy_buffer(x.m, a.m);
	Buf z; z.e = e; z.ps = ps; z.m = e->create_buffer(sizeof(double) * ps); z.v.assign(ps, 0.0); e->write_buffer(z.m, junk.data());
	e->fmaddn(z.m, x.m, arr, w, K); for(size_t i = 0; i < ps; ++i) { z.v[i] = x.v[i]; for(size_t k = 0; k < K; ++k) z.v[i] = z.v[i] + (*src[k])[i] * w[k]; } z.check("a=b+sum"); x.check("operands unchanged");
	e->write_buffer(z.m, junk.data());
	e->fmaddn(z.m, NULL, arr, w, K); for(size_t i = 0; i < ps; ++i) { z.v[i] = 0; for(size_t k = 0; k < K; ++k) z.v[i] = z.v[i] + (*src[k])[i] * w[k]; } z.check("a=sum");
	e->copy_buffer(z.m, x.m);
	e->fmaddn(z.m, z.m, arr, w, K); for(size_t i = 0; i < ps; ++i) { z.v[i] = x.v[i]; for(size_t k = 0; k < K; ++k) z.v[i] = z.v[i] + (*src[k])[i] * w[k]; } z.check("a=a+sum");
	// compensated accumulation: over the reals the correction is carried over once and then vanishes
	if(K)
	{
		Buf q; q.e = e; q.ps = ps; q.m = e->create_buffer(sizeof(double) * ps); q.v.assign(ps, 0.0); e->write_buffer(q.m, q.v.data());
		e->write_buffer(z.m, x.v.data());
		e->fmaddn_corr(z.m, q.m, arr, w, K); z.check("a+=sum with correction"); q.check("no correction is lost");
		e->free_buffer(q.m);
	}
	b.check("operands unchanged"); c.check("operands unchanged"); d.check("operands unchanged");
	vd y1 = read(e, e->get_y(), ps); for(size_t i = 0; i < ps; ++i) sym_check_eq(y1[i], y0[i], 1, "state unchanged by buffer operations");
	sym_reached("linear combinations");
	e->free_buffer(x.m); e->free_buffer(z.m);
	nbody_engine::memory_array many = e->create_buffers(sizeof(double) * ps, 3); sym_check(many.size() == 3, "buffers created"); for(size_t k = 0; k < many.size(); ++k) sym_check(many[k] && many[k]->size() >= sizeof(double) * ps, "buffers created"); e->free_buffers(many); sym_check(many.empty(), "buffers freed");
	e->free_buffer(a.m); e->free_buffer(b.m); e->free_buffer(c.m); e->free_buffer(d.m);
	delete e;
	return 0;
}
