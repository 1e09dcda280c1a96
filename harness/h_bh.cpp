// Tree-based (Barnes-Hut) force evaluation: every acceleration is explained by a partition of the other bodies into groups, each acting as its
// total mass at its centre of mass, and each group of several bodies satisfies the opening criterion.
#include "cli.h"
#include "eng.h"
static const char* LAY[] = {"tree", "heap", "heap_stackless"};
static const char* TRV[] = {"cycle", "nested_tree"};
static double RATIO;
struct G { double m, c[3]; size_t n; double lo[3], hi[3]; };
static G group(const Bodies& b, unsigned set)
{
	G g; g.m = 0; g.n = 0; for(int c = 0; c < 3; ++c) g.c[c] = 0;
	for(size_t j = 0; j < b.n; ++j) if(set >> j & 1)
	{
		for(int c = 0; c < 3; ++c)
		{
			double x = b.r[c][j]; g.c[c] = g.c[c] + x * b.m[j];
			g.lo[c] = g.n ? sym_ite(x < g.lo[c], x, g.lo[c]) : x; g.hi[c] = g.n ? sym_ite(g.hi[c] < x, x, g.hi[c]) : x;
		}
		g.m = g.m + b.m[j]; ++g.n;
	}
	if(g.n == 1) { for(size_t j = 0; j < b.n; ++j) if(set >> j & 1) for(int c = 0; c < 3; ++c) g.c[c] = b.r[c][j]; }
	else for(int c = 0; c < 3; ++c) g.c[c] = g.c[c] / g.m;
	return g;
}
typedef std::vector<unsigned> Part;
static void partitions(const std::vector<size_t>& els, size_t at, Part cur, std::vector<Part>& out)
{
	if(at == els.size()) { out.push_back(cur); return; }
	for(size_t k = 0; k < cur.size(); ++k) { Part p = cur; p[k] |= 1u << els[at]; partitions(els, at + 1, p, out); }
	cur.push_back(1u << els[at]); partitions(els, at + 1, cur, out);
}
static double conc_acc(const Bodies& b, size_t i, unsigned set, double* acc)
{
	double m = 0, c[3] = {0, 0, 0}, s = 0;
	size_t cnt = 0, last = 0;
	for(size_t j = 0; j < b.n; ++j) if(set >> j & 1) { double w = sym_concrete(b.m[j]); m += w; ++cnt; last = j; for(int k = 0; k < 3; ++k) c[k] += w * sym_concrete(b.r[k][j]); }
	double d[3], r2 = 0; for(int k = 0; k < 3; ++k) { c[k] = cnt == 1 ? sym_concrete(b.r[k][last]) : c[k] / m; d[k] = sym_concrete(b.r[k][i]) - c[k]; r2 += d[k] * d[k]; }
	if(r2 < 1e-8) r2 = 1e-8;
	double q = m / (r2 * sqrt(r2)); for(int k = 0; k < 3; ++k) { acc[k] -= d[k] * q; s += fabs(d[k] * q); }
	return s;
}
static void verify(const Bodies& b, const vd& fv, size_t n)
{
	for(size_t i = 0; i < n; ++i)
	{
		for(int c = 0; c < 3; ++c) sym_check_eq(fv[c * n + i], b.v[c][i], 1 + fabs(b.v[c][i]), "position derivative is the velocity");
		double a[3]; for(int c = 0; c < 3; ++c) a[c] = sym_concrete(fv[(3 + c) * n + i]);
		std::vector<size_t> els; for(size_t j = 0; j < n; ++j) if(j != i) els.push_back(j);
		std::vector<Part> ps; partitions(els, 0, Part(), ps);
		size_t best = 0; double bd = 1e300;
		for(size_t k = 0; k < ps.size(); ++k)
		{
			double x[3] = {0, 0, 0}, sc = 1e-12; for(size_t g = 0; g < ps[k].size(); ++g) sc += conc_acc(b, i, ps[k][g], x);
			double d = 0; for(int c = 0; c < 3; ++c) d += fabs(x[c] - a[c]); d /= sc;
			// prefer finer partitions when they agree equally well
			if(d < bd * 0.999 && !(bd < 1e-10)) { bd = d; best = k; } else if(bd < 1e-10 && d < 1e-10 && ps[k].size() > ps[best].size()) { bd = d; best = k; }
		}
		if(ps.size() && !(bd < 1e-7)) { sym_check(false, "acceleration is the sum over groups of bodies acting from their centres of mass"); continue; }
		double pos[3] = {b.r[0][i], b.r[1][i], b.r[2][i]}, acc[3] = {0, 0, 0}, scale = 1e-12;
		for(size_t k = 0; ps.size() && k < ps[best].size(); ++k)
		{
			G g = group(b, ps[best][k]);
			ref_pull(pos, g.c[0], g.c[1], g.c[2], g.m, acc, scale);
			if(g.n > 1)
			{
				sym_reached("a distant group acted as one mass");
				double d2 = 0, q = 0, o = 0;
				for(int c = 0; c < 3; ++c)
				{
					double dd = pos[c] - g.c[c], e = g.hi[c] - g.lo[c], f = (g.hi[c] + g.lo[c]) / 2 - g.c[c];
					d2 = d2 + dd * dd; q = q + e * e; o = o + f * f;
				}
				double r = sqrt(q) * 0.5 + sqrt(o);
				sym_check(d2 > r * r * (RATIO * RATIO) * (1 - 1e-9), "a group acts as one mass only beyond the opening distance");
			}
		}
		for(int c = 0; c < 3; ++c) sym_check_eq(fv[(3 + c) * n + i], acc[c], scale, "acceleration is the sum over groups of bodies acting from their centres of mass");
	}
}
int main()
{
	size_t n = sym_param("n", 3); int lay = sym_param("layout", 0), trv = sym_param("traverse", 0), rate = sym_param("rate", 0);
	RATIO = sym_param("ratio10", 100) / 10.0;
	int who = sym_param("who", 0), axes = sym_param("axes", 7), pat = sym_param("pattern", 0), symmass = sym_param("symmass", 0); sym_threads(sym_param("threads", 2));
	Bodies b; b.n = n; for(int c = 0; c < 3; ++c) { b.r[c].resize(n); b.v[c].resize(n); } b.m.resize(n);
	for(size_t i = 0; i < n; ++i)
	{
		// pattern 0: generic; 1: two far clusters; 2: a coincident pair; 3: a line with growing gaps
		for(int c = 0; c < 3; ++c)
		{
			b.r[c][i] = floor(gen(i * 7 + c, -9, 9) * 64) / 64; b.v[c][i] = gen(i * 5 + c + 100, -2, 2);
			if(pat == 1) b.r[c][i] = floor(gen(i * 7 + c, -1, 1) * 64) / 64 + (i & 1 ? 40 : 0);
			if(pat == 2 && i == n - 1) b.r[c][i] = b.r[c][0];
			if(pat == 3) b.r[c][i] = (c == 0 ? 1 : 0.25 * c) * double((1 << (2 * i)) - 1);
		}
		b.m[i] = symmass ? sym_f64(nm("m", i).c_str(), gen(i * 3 + 200, 0.5, 3), 0.01, 100) : floor(gen(i * 3 + 200, 0.5, 3) * 16) / 16;
	}
	nbody_data data; 
	if(sym_param("symratio", 0)) RATIO = sym_f64("ratio", RATIO, 1.05, 10);
	int eng = sym_param("engine", 4); Args a; a.d("distance_to_node_radius_ratio", RATIO); a.s("tree_layout", LAY[lay]); a.s("traverse_type", TRV[trv]); a.i("tree_build_rate", rate); 
	bool moved = sym_param("moved", 0);
	auto sym = [&](const char* pre)
	{
		for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) if((who >> i & 1) && (axes >> c & 1))
			b.r[c][i] = sym_f64((std::string(pre) + (c == 0 ? "x" : c == 1 ? "y" : "z") + nm("", i)).c_str(), b.r[c][i], -100, 100);
	};
	if(!moved) sym("r");
	fill_data(data, b);
	nbody_engine* e = make_engine(eng, a.map());
	if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; }
	size_t ps = e->problem_size(); nbody_engine::memory* f = e->create_buffer(sizeof(double) * ps);
	vd junk(ps, 12345.0); e->write_buffer(f, junk.data());
	e->set_step(sym_param("step0", 0));
	e->fcompute(0, e->get_y(), f);
	vd fv = read(e, f, ps);
	if(!moved) verify(b, fv, n);
	else
	{
		// move the bodies; the tree of the first evaluation may be kept, its geometry may not
		for(int c = 0; c < 3; ++c) for(size_t i = 0; i < n; ++i) { b.r[c][i] = sym_param("jump", 0) ? b.r[c][n - 1 - i] * 0.75 + (c == 1 ? 3 : 0) : b.r[c][i] + floor(gen(i + 31 * c, -3, 3) * 16) / 16; b.v[c][i] = gen(i * 5 + c + 300, -2, 2); }
		sym("q");
		vd y(ps); for(int c = 0; c < 3; ++c) for(size_t i = 0; i < n; ++i) { y[c * n + i] = b.r[c][i]; y[(3 + c) * n + i] = b.v[c][i]; }
		nbody_engine::memory* m = e->create_buffer(sizeof(double) * ps); e->write_buffer(m, y.data());
		e->write_buffer(f, junk.data());
		e->set_step(sym_param("step1", 1));
		e->fcompute(0, m, f);
		fv = read(e, f, ps); verify(b, fv, n);
		e->free_buffer(m); sym_reached("tree updated");
	}
	sym_reached("force evaluated");
	e->free_buffer(f); delete e;
	return 0;
}
