// Ahmad-Cohen engine: between full computations only near or strong pairs are re-evaluated, the others keep the
// force of the last full computation.
#include "cli.h"
static void state(nbody_engine* e, const vd& r, const vd& v, size_t n)
{
	vd y(6 * n); for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { y[c * n + i] = r[3 * i + c]; y[(3 + c) * n + i] = v[3 * i + c]; }
	e->write_buffer(e->get_y(), y.data());
}
int main()
{
	size_t n = sym_param("n", 2), rate = sym_param("rate", 3), rounds = sym_param("rounds", 2); uint64_t step = sym_param("step0", 0); sym_threads(sym_param("threads", 2));
	double D = sym_param("dist10", 40) / 10.0, F = sym_param("force1000", 200) / 1000.0; if(sym_param("symlim", 0)) { D = sym_f64("D", D, 0, 20); F = sym_f64("F", F, 0, 20); } int who = sym_param("who", 1), axes = sym_param("axes", 1), move = sym_param("move", 1);
	nbody_data d; vd r(3 * n), v(3 * n), m(n);
	for(size_t i = 0; i < n; ++i)
	{
		for(int c = 0; c < 3; ++c)
		{
			r[3 * i + c] = gen(7 * i + c, -4, 4); v[3 * i + c] = gen(5 * i + c + 50, -2, 2);
			if((who >> i & 1) && (axes >> c & 1)) r[3 * i + c] = sym_f64((nm("r", 3 * i + c)).c_str(), r[3 * i + c], -50, 50);
		}
		m[i] = sym_param("symmass", 0) ? sym_f64(nm("m", i).c_str(), 1 + i, 0.01, 100) : 1 + 0.5 * i;
		d.add_body(nbvertex_t(r[3 * i], r[3 * i + 1], r[3 * i + 2]), nbvertex_t(v[3 * i], v[3 * i + 1], v[3 * i + 2]), m[i], nbcolor_t(1, 1, 1, 1));
	}
	Args a; a.s("engine", "ah"); a.i("full_recompute_rate", rate); a.d("max_dist", D); a.d("min_force", F); QVariantMap p(a.map());
	nbody_engine* e = nbody_create_engine(p);
	d.set_step(step);
	if(!e || !e->init(&d)) { sym_fail("engine creation"); return 0; }
	nbody_engine::memory* f = e->create_buffer(sizeof(double) * 6 * n);
	vd r0; bool have = false; size_t sparse = 0;
	std::vector<std::vector<char> > nearby(n, std::vector<char>(n, 0));
	for(size_t k = 0; k < rounds; ++k)
	{
		if(k)
		{
			for(size_t i = 0; i < 3 * n; ++i) { double q = gen(31 * k + i, -4, 4); r[i] = (move >> (i / 3) & 1) && (axes >> (i % 3) & 1) ? sym_f64((nm("r", k) + nm("_", i)).c_str(), q, -50, 50) : q; }
			state(e, r, v, n); ++step; d.set_step(step);
		}
		bool full = rate == 0 || step % rate == 0 || !have;
		if(full)
		{
			r0 = r; have = true;
			for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(i != j)
			{
				nbvertex_t a(r[3 * i], r[3 * i + 1], r[3 * i + 2]), b(r[3 * j], r[3 * j + 1], r[3 * j + 2]);
				nbvertex_t q(d.force(a, b, m[i], m[j]));
				double dx = a.x - b.x, dy = a.y - b.y, dz = a.z - b.z;
				nearby[i][j] = dx * dx + dy * dy + dz * dz < D * D || q.x * q.x + q.y * q.y + q.z * q.z > F * F;
				if(!nearby[i][j]) sym_reached("far pair");
			}
		}
		else ++sparse;
		vd junk(6 * n, 4711.0); e->write_buffer(f, junk.data());
		e->fcompute(0, e->get_y(), f);
		vd fv = read(e, f, 6 * n), y2 = read(e, e->get_y(), 6 * n);
		for(size_t i = 0; i < n; ++i)
		{
			double acc[3] = {0, 0, 0}, scale = 1e-9;
			for(size_t j = 0; j < n; ++j) if(j != i)
			{
				const vd& w = full || nearby[i][j] ? r : r0; double pos[3] = {w[3 * i], w[3 * i + 1], w[3 * i + 2]};
				ref_pull(pos, w[3 * j], w[3 * j + 1], w[3 * j + 2], m[j], acc, scale);
			}
			for(int c = 0; c < 3; ++c)
			{
				sym_check_eq(fv[c * n + i], v[3 * i + c], 1, "position derivative is the velocity");
				sym_check_eq(fv[(3 + c) * n + i], acc[c], scale, full ? "full computation is the direct sum" : "near pairs follow the bodies, far pairs keep the last full force");
				sym_check_eq(y2[c * n + i], r[3 * i + c], 1, "state unchanged by evaluation");
			}
		}
	}
	sym_reached("force evaluated"); if(sparse) sym_reached("sparse evaluation");
	e->free_buffer(f); delete e;
	return 0;
}
