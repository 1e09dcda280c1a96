#ifndef HCOMMON_H
#define HCOMMON_H
#include "sym.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include "nbody_data.h"
#include <QVariantMap>
#include <QString>
#include <stdio.h>
#include <string>
#include <vector>
#include <math.h>
typedef std::vector<double> vd;
inline std::string nm(const char* p, size_t i, const char* s = "") { char b[64]; snprintf(b, sizeof b, "%s%zu%s", p, i, s); return b; }
// distinct, generic default values
inline double gen(size_t k, double lo, double hi) { double x = fmod(0.6180339887498949 * double(k + 1) + 0.1234567 * double((k * k) % 17), 1.0); return lo + (hi - lo) * x; }
// engine-independent body data; bodies selected by 'symbolic' get symbolic coordinates
struct Bodies { size_t n; vd r[3], v[3], m; };
inline bool is_sym_body(size_t i, size_t n, size_t nsym)
{
	if(nsym >= n) return true;
	// spread the symbolic bodies: both ends and the middle
	for(size_t k = 0; k < nsym; ++k) { size_t at = nsym == 1 ? 0 : k * (n - 1) / (nsym - 1); if(at == i) return true; }
	return false;
}
inline Bodies make_bodies(size_t n, size_t nsym, bool symmass, bool symvel, double R = 100)
{
	Bodies b; b.n = n;
	for(int c = 0; c < 3; ++c) { b.r[c].resize(n); b.v[c].resize(n); }
	b.m.resize(n);
	for(size_t i = 0; i < n; ++i)
	{
		bool s = is_sym_body(i, n, nsym);
		for(int c = 0; c < 3; ++c)
		{
			double d = gen(i * 7 + c, -9, 9), w = gen(i * 5 + c + 100, -2, 2);
			const char* ax = c == 0 ? "x" : c == 1 ? "y" : "z";
			b.r[c][i] = s ? sym_f64((std::string("r") + ax + nm("", i)).c_str(), d, -R, R) : d;
			b.v[c][i] = s && symvel ? sym_f64((std::string("v") + ax + nm("", i)).c_str(), w, -R, R) : w;
		}
		double md = gen(i * 3 + 200, 0.5, 3);
		b.m[i] = s && symmass ? sym_f64(nm("m", i).c_str(), md, 0, 1000) : md;
	}
	return b;
}
inline void fill_data(nbody_data& d, const Bodies& b)
{
	for(size_t i = 0; i < b.n; ++i)
		d.add_body(nbvertex_t(b.r[0][i], b.r[1][i], b.r[2][i]), nbvertex_t(b.v[0][i], b.v[1][i], b.v[2][i]), b.m[i], nbcolor_t(1, 1, 1, 1), 0.5);
}
inline vd read(nbody_engine* e, const nbody_engine::memory* m, size_t n) { vd t(n); e->read_buffer(t.data(), m); return t; }
// reference: softened gravitational acceleration of body i caused by mass m at (x,y,z)
inline void ref_pull(const double* p, double x, double y, double z, double m, double* acc, double& scale)
{
	double dx = p[0] - x, dy = p[1] - y, dz = p[2] - z;
	double r2 = dx * dx + dy * dy + dz * dz;
	r2 = sym_ite(r2 < 1e-8, 1e-8, r2);
	double k = m / (r2 * sqrt(r2));
	acc[0] = acc[0] - dx * k; acc[1] = acc[1] - dy * k; acc[2] = acc[2] - dz * k;
	scale = scale + k * (fabs(dx) + fabs(dy) + fabs(dz));
}
#endif
