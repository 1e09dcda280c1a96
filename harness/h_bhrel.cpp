// Tree-based force evaluation: the kind of traversal never changes the result; with a large opening ratio it is the direct sum.
#include "common.h"
#include "eng.h"
static const char* LAY[] = {"tree", "heap", "heap_stackless"};
static const char* TRV[] = {"cycle", "nested_tree"};
static nbody_engine* mk(int eng, int lay, int trv, double ratio, int rate)
{
	QVariantMap p; p.insert("distance_to_node_radius_ratio", ratio); p.insert("tree_layout", LAY[lay]); p.insert("traverse_type", TRV[trv]); p.insert("tree_build_rate", rate);
	return make_engine(eng, p);
}
int main()
{
	size_t n = sym_param("n", 6); double ratio = sym_param("ratio10", 20) / 10.0; sym_threads(sym_param("threads", 4));
	int la = sym_param("la", 0), ta = sym_param("ta", 0), lb = sym_param("lb", 0), tb = sym_param("tb", 1), rate = sym_param("rate", 0), who = sym_param("who", 0), axes = sym_param("axes", 1);
	bool direct = sym_param("direct", 0);
	Bodies b; b.n = n; for(int c = 0; c < 3; ++c) { b.r[c].resize(n); b.v[c].resize(n); } b.m.resize(n);
	for(size_t i = 0; i < n; ++i) { for(int c = 0; c < 3; ++c) { b.r[c][i] = floor(gen(i * 7 + c, -9, 9) * 64) / 64; b.v[c][i] = floor(gen(i * 5 + c + 100, -2, 2) * 16) / 16; } b.m[i] = floor(gen(i * 3 + 200, 0.5, 3) * 16) / 16; }
	if(sym_param("twins", 0)) for(int c = 0; c < 3; ++c) { b.r[c][n - 1] = b.r[c][0]; if(n > 3) b.r[c][2] = b.r[c][1]; }
	auto sym = [&](const char* pre)
	{
		for(int c = 0; c < 3; ++c) if(axes >> c & 1) b.r[c][who] = sym_f64((std::string(pre) + (c == 0 ? "x" : c == 1 ? "y" : "z")).c_str(), b.r[c][who], direct ? -9 : -100, direct ? 9 : 100);
		b.v[0][who] = sym_f64((std::string(pre) + "v").c_str(), b.v[0][who], -100, 100); b.m[who] = pre[0] == 'r' && sym_param("symmass", 0) ? sym_f64("m", b.m[who], 0.01, 100) : b.m[who];
	};
	sym("r");
	nbody_data da, db; fill_data(da, b); fill_data(db, b);
	nbody_engine* ea = mk(sym_param("ea", 4), la, ta, ratio, rate); nbody_engine* eb = direct ? NULL : mk(sym_param("eb", 4), lb, tb, ratio, rate);
	if(!ea || !ea->init(&da)) { sym_fail("engine creation"); return 0; }
	if(!direct && (!eb || !eb->init(&db))) { sym_fail("engine creation"); return 0; }
	size_t ps = ea->problem_size(); vd junk(ps, 12345.0);
	size_t rounds = sym_param("rounds", 1), step = sym_param("step0", 0);
	for(size_t k = 0; k < rounds; ++k, ++step)
	{
		if(k) { for(int c = 0; c < 3; ++c) for(size_t i = 0; i < n; ++i) { b.r[c][i] = (sym_param("jump", 0) ? floor(gen(i * 11 + c + 17 * k, -9, 9) * 64) / 64 : floor(b.r[c][i] * 4) / 4 + floor(gen(i + 31 * c + k, -3, 3) * 16) / 16); } sym(nm("q", k).c_str()); }
		vd y(ps); for(int c = 0; c < 3; ++c) for(size_t i = 0; i < n; ++i) { y[c * n + i] = b.r[c][i]; y[(3 + c) * n + i] = b.v[c][i]; }
		vd f[2];
		for(int s = 0; s < (direct ? 1 : 2); ++s)
		{
			nbody_engine* e = s ? eb : ea; e->set_step(step);
			nbody_engine::memory* m = e->create_buffer(sizeof(double) * ps); e->write_buffer(m, y.data());
			nbody_engine::memory* q = e->create_buffer(sizeof(double) * ps); e->write_buffer(q, junk.data());
			e->fcompute(0, m, q); f[s] = read(e, q, ps);
			vd y2 = read(e, m, ps); for(size_t i = 0; i < ps; ++i) sym_check_eq(y2[i], y[i], 1, "state unchanged by evaluation");
			e->free_buffer(m); e->free_buffer(q);
		}
		for(size_t i = 0; i < n; ++i)
		{
			double scale = 1e-12, acc[3] = {0, 0, 0}, pos[3] = {b.r[0][i], b.r[1][i], b.r[2][i]};
			for(size_t j = 0; j < n; ++j) if(j != i) ref_pull(pos, b.r[0][j], b.r[1][j], b.r[2][j], b.m[j], acc, scale);
			for(int c = 0; c < 3; ++c)
			{
				sym_check_eq(f[0][c * n + i], b.v[c][i], 1 + fabs(b.v[c][i]), "position derivative is the velocity");
				if(direct) sym_check_eq(f[0][(3 + c) * n + i], acc[c], scale, "with a large opening ratio the tree sum is the direct sum");
				else
				{
					sym_check_eq(f[1][c * n + i], b.v[c][i], 1 + fabs(b.v[c][i]), "position derivative is the velocity");
					sym_check_eq(f[0][(3 + c) * n + i], f[1][(3 + c) * n + i], scale, "the traversal does not change the result");
				}
			}
		}
	}
	sym_reached("force evaluated");
	delete ea; delete eb;
	return 0;
}
