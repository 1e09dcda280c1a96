// Conservation statistics: impulse, angular momentum, mass centre, energy and their drift, for arbitrary states.
#include "common.h"
#include "eng.h"
struct S { double P[3], L[3], C[3], E; };
static S ref(const Bodies& b)
{
	S s; double M = 0; for(int c = 0; c < 3; ++c) s.P[c] = s.L[c] = s.C[c] = 0; s.E = 0;
	for(size_t i = 0; i < b.n; ++i)
	{
		M = M + b.m[i];
		for(int c = 0; c < 3; ++c)
		{
			int d = (c + 1) % 3, e = (c + 2) % 3;
			s.P[c] = s.P[c] + b.m[i] * b.v[c][i]; s.C[c] = s.C[c] + b.m[i] * b.r[c][i];
			s.L[c] = s.L[c] + b.m[i] * (b.r[d][i] * b.v[e][i] - b.r[e][i] * b.v[d][i]);
			s.E = s.E + 0.5 * b.m[i] * b.v[c][i] * b.v[c][i];
		}
		for(size_t j = 0; j < i; ++j)
		{
			double dx = b.r[0][i] - b.r[0][j], dy = b.r[1][i] - b.r[1][j], dz = b.r[2][i] - b.r[2][j], r2 = dx * dx + dy * dy + dz * dz;
			if(!(r2 < 1e-8)) s.E = s.E - b.m[i] * b.m[j] / sqrt(r2);
		}
	}
	for(int c = 0; c < 3; ++c) s.C[c] = s.C[c] / M;
	return s;
}
static void v3(const nbvertex_t& v, const double* r, const char* l) { sym_check_eq(v.x, r[0], 1, l); sym_check_eq(v.y, r[1], 1, l); sym_check_eq(v.z, r[2], 1, l); }
int main()
{
	size_t n = sym_param("n", 2), nsym = sym_param("nsym", 2); int list = sym_param("list", 15), moved = sym_param("moved", 1), eng = sym_param("engine", 0);
	static const char* L[] = {"P", "L", "V", "E"};
	QString chk; for(int k = 0; k < 4; ++k) if(list >> k & 1) chk += L[k];
	Bodies b = make_bodies(n, nsym, true, true, 10); nbody_data data;
	for(size_t i = 0; i < n; ++i) sym_assume(b.m[i] >= 0.25);
	fill_data(data, b); data.set_check_list(chk);
	double t0 = sym_f64("t0", 1, 0, 100), h = sym_f64("h", 0.5, 1e-3, 10); uint64_t st0 = sym_u64("step0", 0, 0, 1000000), sth = sym_u64("steps", 3, 1, 1000);
	data.set_time(t0); data.set_step(st0);
	nbody_engine* e = NULL;
	if(eng >= 0) { e = make_engine(eng); if(!e || !e->init(&data)) { sym_fail("engine creation"); return 0; } }
	S s0 = ref(b);
	data.print_statistics(e);
	double zero[3] = {0, 0, 0};
	auto last = [&](const S& s)
	{
		v3(data.get_last_total_impulce(), list & 1 ? s.P : zero, "total impulse");
		v3(data.get_last_total_impulce_moment(), list & 2 ? s.L : zero, "total angular momentum");
		v3(data.get_last_mass_center(), list & 4 ? s.C : zero, "mass centre");
		sym_check_eq(data.get_last_total_energy(), list & 8 ? s.E : 0, 1, "total energy");
	};
	auto first = [&](const S& s)
	{
		v3(data.get_initial_impulce(), list & 1 ? s.P : zero, "initial impulse");
		v3(data.get_initial_impulce_moment(), list & 2 ? s.L : zero, "initial angular momentum");
		v3(data.get_initial_mass_center(), list & 4 ? s.C : zero, "initial mass centre");
		sym_check_eq(data.get_initial_energy(), list & 8 ? s.E : 0, 1, "initial energy");
	};
	last(s0); first(s0);
	if(moved)
	{
		// the state moves on; what was recorded first stays
		Bodies b2 = b; 
		for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { b2.v[c][i] = b.v[c][i] * 0.5 + 0.25 * double(c + 1); b2.r[c][i] = b.r[c][i] + 0.5 * double(i); }
		if(e)
		{
			vd y(6 * n); for(int c = 0; c < 3; ++c) for(size_t i = 0; i < n; ++i) { y[c * n + i] = b2.r[c][i]; y[(3 + c) * n + i] = b2.v[c][i]; }
			e->write_buffer(e->get_y(), y.data());
		}
		else for(size_t i = 0; i < n; ++i) { data.get_vertites()[i] = nbvertex_t(b2.r[0][i], b2.r[1][i], b2.r[2][i]); data.get_velosites()[i] = nbvertex_t(b2.v[0][i], b2.v[1][i], b2.v[2][i]); }
		S s1 = ref(b2);
		data.set_time(t0 + h); data.set_step(st0 + sth);
		data.print_statistics(e);
		last(s1); first(s0);
		// drift in per cent of the initial value
		auto len = [](double x, double y, double z) { return x * x + y * y + z * z; };
		if(list & 1) { double q = len(s0.P[0], s0.P[1], s0.P[2]); sym_assume(q > 0.01); sym_check_eq(data.get_impulce_err(), 100 * sqrt(len(s1.P[0] - s0.P[0], s1.P[1] - s0.P[1], s1.P[2] - s0.P[2])) / sqrt(q), 1e3, "impulse drift"); }
		if(list & 2) { double q = len(s0.L[0], s0.L[1], s0.L[2]); sym_assume(q > 0.01); sym_check_eq(data.get_impulce_moment_err(), 100 * sqrt(len(s1.L[0] - s0.L[0], s1.L[1] - s0.L[1], s1.L[2] - s0.L[2])) / sqrt(q), 1e3, "angular momentum drift"); }
		if(list & 8) { sym_assume(fabs(s0.E) > 0.01); sym_check_eq(data.get_energy_err(), fabs(100 * (s1.E - s0.E) / s0.E), 1e3, "energy drift"); }
	}
	for(size_t i = 0; i < n; ++i) sym_check_eq(data.get_mass()[i], b.m[i], 1, "masses unchanged");
	sym_check(data.get_step() == (moved ? st0 + sth : st0), "a report does not change the step number"); sym_check_eq(data.get_time(), moved ? t0 + h : t0, 1, "a report does not change the time");
	sym_reached("done");
	delete e;
	return 0;
}
