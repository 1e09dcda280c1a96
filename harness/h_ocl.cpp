// The same program of engine operations on a device engine and on the reference engine, with nothing read back in between:
// operands live on the devices, each of which may own only a part of the state.
#include "common.h"
#include "eng.h"
struct Run
{
	nbody_engine* e; nbody_data data; size_t ps; std::vector<nbody_engine::memory*> m; double norm;
	bool start(nbody_engine* e_, const Bodies& b) { e = e_; norm = 0; fill_data(data, b); if(!e || !e->init(&data)) return false; ps = e->problem_size(); return true; }
	nbody_engine::memory* buf(const vd& v) { nbody_engine::memory* x = e->create_buffer(sizeof(double) * ps); e->write_buffer(x, v.data()); m.push_back(x); return x; }
	void end() { for(size_t i = 0; i < m.size(); ++i) e->free_buffer(m[i]); delete e; }
};
int main()
{
	size_t n = sym_param("n", 4), nsym = sym_param("nsym", 1); int eng = sym_param("engine", 5), prog = sym_param("prog", 0);
	sym_threads(sym_param("threads", 2));
	bool few = sym_param("few", 0);   // one moving element instead of a symbolic factor, which would move all of them
	Bodies b = make_bodies(n, few || prog == 2 || prog == 3 ? 0 : nsym, prog < 2, prog < 2, 9);
	double h = few ? 0.25 : sym_f64("h", 0.25, 0.001, 1), s = few || prog == 1 || sym_param("norm", 0) ? 0.5 : sym_f64("s", 0.75, -2, 2);
	size_t few_at = sym_param("at", 3); double few_v = few ? sym_f64("u", 1.5, -100, 100) : 0;
	if(few && prog == 1) b.v[0][few_at % n] = few_v;
	Run r[2]; vd out[2][4];
	for(int k = 0; k < 2; ++k)
	{
		QVariantMap p; if(k == 0 && (eng == 6 || eng > 7)) { p.insert("tree_layout", sym_param("layout", 0) ? "heap_stackless" : "heap"); p.insert("traverse_type", sym_param("traverse", 0) ? "nested_tree" : "cycle"); p.insert("tree_build_rate", (int)sym_param("rate", 0)); p.insert("distance_to_node_radius_ratio", 1e5); }
		if(!r[k].start(make_engine(k ? 0 : eng, p), b)) { sym_fail("engine creation"); return 0; }
		nbody_engine* e = r[k].e; size_t ps = r[k].ps; vd junk(ps, 777.0), ua(ps), ub(ps);
		for(size_t i = 0; i < ps; ++i) { ua[i] = gen(i * 3 + 1, -5, 5); ub[i] = gen(i * 5 + 2, -5, 5); }
		if(few) ua[few_at] = few_v;
		nbody_engine::memory* y = e->get_y();
		nbody_engine::memory* f = r[k].buf(junk), *a = r[k].buf(ua), *c = r[k].buf(ub), *d = r[k].buf(junk);
		std::vector<nbody_engine::memory*> res;
		if(prog == 0)
		{
			// a trial state made on the devices, its derivative, and the step taken with it
			e->fmadd(d, y, a, h); e->fcompute(0, d, f); e->fmadd_inplace(y, f, h); res = {d, f, y};
		}
		else if(prog == 1)
		{
			// two force evaluations with an update in between
			e->fcompute(0, y, f); e->fmadd_inplace(y, f, h); e->set_step(1); e->fcompute(0, y, d); e->fmadd(a, y, d, h); res = {f, d, y, a};
		}
		else if(prog == 2)
		{
			// linear combinations, copies, fills and the norm of device-made operands
			nbody_engine::memory_array arr; arr.push_back(a); arr.push_back(c); double w[2] = {h, s};
			e->fmaddn(d, y, arr, w, 2); e->copy_buffer(f, d); e->fmadd(a, f, c, s); e->fill_buffer(c, s); e->fmaddn_inplace(c, arr, w, 1); e->fmadd_inplace(y, a, h); if(sym_param("norm", 0)) e->fmaxabs(y, r[k].norm); res = {d, f, c, y};
		}
		else
		{
			// compensated sums and wrapping of device-made operands
			nbody_engine::memory_array arr; arr.push_back(a); arr.push_back(c); double w[2] = {h, s}; vd zero(ps, 0.0); nbody_engine::memory* q = r[k].buf(zero);
			e->fmadd(d, y, a, h); e->fmaddn_corr(d, q, arr, w, 2); e->clamp(d, 8); e->fcompute(0, d, f); res = {d, q, f};
		}
		for(size_t i = 0; i < res.size(); ++i) out[k][i] = read(e, res[i], ps);
		vd mine(ps); e->get_data(&r[k].data);
		if(k) for(size_t i = 0; i < n; ++i)
		{
			const nbvertex_t& p0 = r[0].data.get_vertites()[i]; const nbvertex_t& p1 = r[1].data.get_vertites()[i]; const nbvertex_t& q0 = r[0].data.get_velosites()[i]; const nbvertex_t& q1 = r[1].data.get_velosites()[i];
			sym_check_eq(p0.x, p1.x, 1 + fabs(p1.x), "the state handed back"); sym_check_eq(p0.y, p1.y, 1 + fabs(p1.y), "the state handed back"); sym_check_eq(p0.z, p1.z, 1 + fabs(p1.z), "the state handed back");
			sym_check_eq(q0.x, q1.x, 1 + fabs(q1.x), "the state handed back"); sym_check_eq(q0.y, q1.y, 1 + fabs(q1.y), "the state handed back"); sym_check_eq(q0.z, q1.z, 1 + fabs(q1.z), "the state handed back");
		}
		sym_check(e->get_compute_count() == size_t(prog == 1 ? 2 : prog == 2 ? 0 : 1), "force evaluations are counted");
	}
	for(int i = 0; i < 4; ++i) for(size_t j = 0; j < out[0][i].size() && j < out[1][i].size(); ++j) sym_check_eq(out[0][i][j], out[1][i][j], 1 + fabs(out[1][i][j]), "the device engine agrees with the reference engine");
	sym_check_eq(r[0].norm, r[1].norm, 1 + fabs(r[1].norm), "the device engine agrees with the reference engine");
	sym_reached("program run");
	r[0].end(); r[1].end();
	return 0;
}
