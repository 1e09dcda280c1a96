// Order of consistency: the solver integrates the universal rooted-tree system  y_t' = prod y_children(t)  whose exact
// solution is y_t(h) = h^|t| / gamma(t); by Butcher's theorem agreement on all trees up to order p is equivalent to
// agreement with the Taylor expansion of the exact solution up to order p for every smooth right-hand side.
#include "common.h"
#include "nbody_engine_simple.h"
#include "nbody_solver_rk_butcher.h"
#include "nbody_butcher_table.h"
#include "nbody_solver_bulirsch_stoer.h"
#include <algorithm>
#include <map>
struct Tree { std::vector<int> ch; int order; double gamma; };
static std::vector<Tree> T; static std::vector<std::vector<int> > byorder;
static void forests(int left, int maxid, std::vector<int>& cur, std::vector<std::vector<int> >& out)
{
	if(left == 0) { out.push_back(cur); return; }
	for(int id = maxid; id >= 0; --id) if(T[id].order <= left) { cur.push_back(id); forests(left - T[id].order, id, cur, out); cur.pop_back(); }
}
static void gentrees(int p)
{
	for(int q = 1; q <= p; ++q)
	{
		std::vector<std::vector<int> > out; std::vector<int> cur; forests(q - 1, int(T.size()) - 1, cur, out);
		for(auto& c : out) { Tree t; t.ch = c; t.order = q; t.gamma = q; for(int k : c) t.gamma *= T[k].gamma; T.push_back(t); }
	}
}
// tall chains and bushes of higher order (not closed under all trees)
static void genfamily(int p, int from)
{
	int chain = -1, dot = 0; for(size_t i = 0; i < T.size(); ++i) { bool ok = true; int x = i; while(true) { if(T[x].ch.size() > 1) { ok = false; break; } if(T[x].ch.empty()) break; x = T[x].ch[0]; } if(ok) chain = i; }
	for(int q = from; q <= p; ++q)
	{
		Tree b; b.order = q; b.ch.assign(q - 1, dot); b.gamma = q; int bush = T.size(); T.push_back(b);
		Tree c; c.order = q; c.ch.assign(1, chain); c.gamma = q * T[chain].gamma; T.push_back(c); chain = int(T.size()) - 1;
		if(q < p) { Tree d; d.order = q + 1; d.ch.assign(1, bush); d.gamma = (q + 1) * T[bush].gamma; T.push_back(d); }
	}
}
class tree_engine : public nbody_engine_simple
{
public:
	void fcompute(const nbcoord_t&, const memory* y, memory* f) override
	{
		vd v(y->size() / sizeof(double)), r(v.size(), 0.0); read_buffer(v.data(), y);
		for(size_t i = 0; i < T.size(); ++i) { double x = 1; for(size_t k = 0; k < T[i].ch.size(); ++k) x = k ? x * v[T[i].ch[k]] : v[T[i].ch[k]]; r[i] = x; }
		write_buffer(f, r.data());
	}
};
int main()
{
	static const char* NAME[] = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "euler", "midpoint", "midpoint-st", "rk4", "trapeze", "bs", "rk4"};
	int kind = sym_param("kind", 0), p = sym_param("order", 5), full = sym_param("full", p); double tol = sym_param("tolexp", 11);
	tol = pow(10., -tol);
	gentrees(full); if(p > full) genfamily(p, full + 1);
	nbody_data data; size_t n = (T.size() + 5) / 6;
	for(size_t i = 0; i < n; ++i) data.add_body(nbvertex_t(), nbvertex_t(), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	tree_engine e; if(!e.init(&data)) sym_fail("init");
	QVariantMap par; par.insert("solver", NAME[kind]); par.insert("max_recursion", 0); par.insert("refine_steps_count", (int)sym_param("refine", 1)); par.insert("correction", sym_param("corr", 0) != 0);
	if(kind == 14) { par.insert("max_level", (int)sym_param("level", 4)); par.insert("error_threshold", 0.0); }
	nbody_solver* s = kind == 15 ? new nbody_solver_rk_butcher(new nbody_butcher_table_rk4()) : nbody_create_solver(par);
	if(!s) { sym_fail("solver creation"); return 0; }
	double h = sym_f64("dt", 0.5, 0.125, 1);
	s->set_engine(&e); s->set_time_step(1e-9, 1);
	vd y(e.problem_size(), 0.0);
	if(sym_param("table", 0))
	{
		// the published method: stages of the table applied directly, result with one of its two rows of weights
		nbody_solver_rk_butcher* rk = dynamic_cast<nbody_solver_rk_butcher*>(s);
		if(!rk) { sym_fail("solver creation"); return 0; }
		const nbody_butcher_table* tb = rk->table(); size_t st = tb->get_steps(); const double** a = tb->get_a(); const double* w = sym_param("table", 0) == 1 ? tb->get_b1() : tb->get_b2();
		std::vector<vd> k(st, vd(T.size(), 0.0));
		auto rhs = [&](const vd& v) { vd r(T.size()); for(size_t i = 0; i < T.size(); ++i) { double x = 1; for(size_t q = 0; q < T[i].ch.size(); ++q) x = q ? x * v[T[i].ch[q]] : v[T[i].ch[q]]; r[i] = x; } return r; };
		for(int it = 0; it < (tb->is_implicit() ? p : 1); ++it) for(size_t i = 0; i < st; ++i)
		{
			vd v(T.size(), 0.0); size_t m = tb->is_implicit() ? st : i;
			for(size_t j = 0; j < m; ++j) if(a[i][j] != 0) for(size_t q = 0; q < v.size(); ++q) v[q] = v[q] + h * a[i][j] * k[j][q];
			k[i] = rhs(v);
		}
		for(size_t j = 0; j < st; ++j) for(size_t q = 0; q < T.size(); ++q) y[q] = y[q] + h * w[j] * k[j][q];
		for(size_t i = 0; i < st; ++i) { double sum = 0; for(size_t j = 0; j < (tb->is_implicit() ? st : i); ++j) sum += a[i][j]; sym_check(fabs(sum - tb->get_c()[i]) < 1e-11, "stage times equal the row sums"); }
	}
	else { s->advise(h); y = read(&e, e.get_y(), e.problem_size()); }
	double hp[40]; hp[0] = 1; for(int q = 1; q < 40; ++q) hp[q] = hp[q - 1] * h;
	for(size_t i = 0; i < T.size(); ++i)
	{
		double c = y[i] / hp[T[i].order], ref = 1 / T[i].gamma;
		char lab[64]; snprintf(lab, sizeof lab, "order condition (order %d)", T[i].order);
		sym_check(sym_and(c - ref <= tol, ref - c <= tol), lab);
	}
	sym_reached("order conditions evaluated");
	delete s;
	return 0;
}
