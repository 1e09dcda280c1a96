// The same operations with one thread and with several: bit-for-bit the same results, no data race in any schedule.
#include "common.h"
#include "eng.h"
int main()
{
	size_t n = sym_param("n", 3), live = sym_param("live", 1); int eng = sym_param("engine", 1), th = sym_param("threads", 3), what = sym_param("what", 0);
	Bodies b; b.n = n; for(int c = 0; c < 3; ++c) { b.r[c].resize(n); b.v[c].resize(n); } b.m.resize(n);
	for(size_t i = 0; i < n; ++i) { for(int c = 0; c < 3; ++c) { b.r[c][i] = floor(gen(i * 7 + c, -9, 9) * 64) / 64; b.v[c][i] = floor(gen(i * 5 + c + 100, -2, 2) * 16) / 16; } b.m[i] = floor(gen(i * 3 + 200, 0.5, 3) * 16) / 16; }
	for(size_t k = 0; k < live; ++k) { size_t i = k * n / live; b.r[k % 3][i] = sym_f64(nm("r", i).c_str(), b.r[k % 3][i], -50, 50); b.v[k % 3][i] = sym_f64(nm("v", i).c_str(), b.v[k % 3][i], -50, 50); }
	static const char* LAY[] = {"tree", "heap", "heap_stackless"}; static const char* TRV[] = {"cycle", "nested_tree"};
	vd out[2];
	double c0 = what == 1 ? sym_f64("c0", 0.5, -4, 4) : 0, c1 = what == 1 ? sym_f64("c1", -1.5, -4, 4) : 0, box = sym_param("box", 4);
	for(int s = 0; s < 2; ++s)
	{
		sym_threads(s ? th : 1);
		QVariantMap p; if(eng == 4) { p.insert("tree_layout", LAY[sym_param("lay", 0)]); p.insert("traverse_type", TRV[sym_param("trv", 0)]); p.insert("distance_to_node_radius_ratio", sym_param("ratio10", 20) / 10.0); p.insert("tree_build_rate", 3); }
		if(eng == 3) { p.insert("full_recompute_rate", 2); p.insert("max_dist", 5.0); p.insert("min_force", 1e-2); }
		nbody_data data; fill_data(data, b); nbody_engine* e = make_engine(eng, p); if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
		size_t ps = e->problem_size(); vd& o = out[s];
		auto keep = [&](const nbody_engine::memory* m) { vd t = read(e, m, ps); o.insert(o.end(), t.begin(), t.end()); };
		nbody_engine::memory* f = e->create_buffer(sizeof(double) * ps);
		if(what == 0) for(int k = 0; k < 2; ++k)         // a full evaluation and one that reuses what it left behind
		{
			e->set_step(k); e->fcompute(0, e->get_y(), f); keep(f);
			if(!k) { e->fmadd_inplace(e->get_y(), f, 0.25); }
		}
		else if(what == 1)
		{
			nbody_engine::memory* g = e->create_buffer(sizeof(double) * ps); nbody_engine::memory* corr = e->create_buffer(sizeof(double) * ps);
			e->fill_buffer(f, 0.75); e->fill_buffer(corr, 0); keep(f);
			e->copy_buffer(g, e->get_y()); keep(g);
			e->fmadd_inplace(f, g, c0); keep(f);
			e->fmadd(g, f, e->get_y(), c1); keep(g);
			nbody_engine::memory_array ma; ma.push_back(f); ma.push_back(g); double cc[2] = {c0, c1};
			e->fmaddn_inplace(f, nbody_engine::memory_array(1, g), cc, 1); keep(f);
			e->fmaddn(f, e->get_y(), nbody_engine::memory_array(1, g), cc + 1, 1); keep(f);
			e->fmaddn_corr(f, corr, nbody_engine::memory_array(1, g), cc, 1); keep(f); keep(corr);
			e->free_buffer(g); e->free_buffer(corr);
		}
		else if(what == 2) { double r = -1; e->fmaxabs(e->get_y(), r); o.push_back(r); e->clamp(e->get_y(), box); keep(e->get_y()); }
		e->free_buffer(f); delete e;
	}
	sym_check(out[0].size() == out[1].size(), "same outputs");
	for(size_t i = 0; i < out[0].size() && i < out[1].size(); ++i) if(sym_param("eq", 0)) sym_check_eq(out[1][i], out[0][i], 1e-9 + fabs(out[0][i]), "the number of threads does not change the result"); else sym_check_bits(out[1][i], out[0][i], "the number of threads does not change a bit of the result");
	sym_reached("done");
	return 0;
}
